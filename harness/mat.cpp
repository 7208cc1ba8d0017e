// P24: the constitutive laws. Their energy, stress and elasticity operators must be consistent with one another.
#include "material.h"
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
using DT = sofa::defaulttype::Vec3Types; using Mat = Eigen::Matrix<double, 3, 3>;
template <class Law> static void law(int kind, const char *nm) {
    uint64_t K = M().n(4000, 200000);
    static const int V[6][2] = {{0,0},{1,1},{2,2},{0,1},{1,2},{0,2}};
    for (uint64_t t = 0; t < K; ++t) {
        Rng r; if (!mon::begin(nm, t, r)) continue;
        // several materials alive at once, each with a history of parameter changes
        int nm_ = (int)r.irange(1, 3); std::vector<sptr<Law>> mats; std::vector<std::array<double, 2>> par;
        for (int i = 0; i < nm_; ++i) { mats.push_back(sptr<Law>(new Law)); par.push_back({1000, 0.3}); }
        int steps = (int)r.irange(1, 4);
        for (int s = 0; s < steps; ++s) {
            int w = (int)r.irange(0, nm_ - 1);
            if (!r.flip(0.15)) { par[w] = {r.logu(1e-3, 1e12), r.flip(0.15) ? 0.0 : r.flip(0.1) ? 0.4999 : r.flip(0.2) ? r.uni(-0.9, 0) : r.uni(0, 0.49)}; set_data(mats[w].get(), "young_modulus", par[w][0]); set_data(mats[w].get(), "poisson_ratio", par[w][1]); mon::observe("parameters:changed"); } else mon::observe("parameters:default-or-kept");
            for (auto &m : mats) m->before_update();
            for (int i = 0; i < nm_; ++i) {
                RefLaw ref(kind, par[i][0], par[i][1]); LD sc = std::fabs(ref.mu) + std::fabs(ref.l);
                int mode = (int)r.irange(0, 4); LM3 F = LM3::Identity();
                LM3 R1 = lm3(random_rotation(r, 3)), R2 = lm3(random_rotation(r, 3)); V3 st{1,1,1};
                if (mode >= 2) for (auto &x : st) x = mode == 2 ? 1 + r.uni(-1e-6, 1e-6) : mode == 3 ? r.uni(0.5, 2) : r.logu(0.2, 5);
                if (mode >= 1) { LM3 D = LM3::Zero(); for (int k = 0; k < 3; ++k) D(k, k) = st[k]; F = R1 * R2 * D * R2.transpose(); }
                static const char *mn[] = {"identity", "rotation", "tiny-strain", "moderate", "large"}; mon::observe(std::string("deformation:") + mn[mode]);
                LM3 Cl = F.transpose() * F; Mat C; for (int a = 0; a < 3; ++a) for (int b = a; b < 3; ++b) C(a, b) = C(b, a) = (double)Cl(a, b);
                double J = (double)std::sqrt(C.cast<LD>().determinant());
                // the exact right stretch of the rounded C, so that the reference sees the same input
                Eigen::SelfAdjointEigenSolver<LM3> es(C.cast<LD>()); LM3 U = es.eigenvectors() * es.eigenvalues().cwiseSqrt().asDiagonal() * es.eigenvectors().transpose();
                mon::describe("E=%g nu=%g mode=%d stretches=(%.4Lg,%.4Lg,%.4Lg) material %d of %d step %d", par[i][0], par[i][1], mode, st[0], st[1], st[2], i, nm_, s);
                LD kap = es.eigenvalues().maxCoeff() / es.eigenvalues().minCoeff(), nrm = Cl.norm();
                LD ps = ref.psi(U); double got = mats[i]->strain_energy_density(J, C);
                CHECK(std::string(nm) + "/energy", std::fabs(got - ps) <= 1e-12L * sc * (1 + nrm * nrm) , "energy density %.17g, documented formula gives %.17Lg", got, ps);
                if (mode <= 1) CHECK(std::string(nm) + "/rest-energy", std::fabs(got) <= 1e-13L * sc, "energy density of an undeformed state is %g", got);
                LM3 S0 = ref.S(U); Mat S = mats[i]->PK2_stress(J, C);
                LD ts = 1e-12L * sc * kap * (1 + nrm);
                CHECK(std::string(nm) + "/stress", (S.cast<LD>() - S0).cwiseAbs().maxCoeff() <= ts, "stress is not twice the derivative of the energy: max difference %.3Lg (scale %.3Lg)", (LD)(S.cast<LD>() - S0).cwiseAbs().maxCoeff(), sc);
                CHECK(std::string(nm) + "/stress-symmetric", (S - S.transpose()).cwiseAbs().maxCoeff() <= ts, "stress is not symmetric");
                if (mode <= 1) CHECK(std::string(nm) + "/stress-free-rest", S.cwiseAbs().maxCoeff() <= 1e-12L * sc, "stress of an undeformed state: %g", S.cwiseAbs().maxCoeff());
                // elasticity operator: dS = D : dE for every symmetric strain increment (Voigt order 00 11 22 01 12 02, engineering shears)
                Eigen::Matrix<double, 6, 6> D = mats[i]->PK2_stress_jacobian(J, C);
                LD td = 1e-11L * sc * kap * kap * (1 + nrm); LD worst = 0; int wi = 0, wj = 0; LM3 Ui = U.inverse();
                for (int v = 0; v < 6; ++v) {
                    LM3 dE = LM3::Zero(); dE(V[v][0], V[v][1]) = dE(V[v][1], V[v][0]) = v < 3 ? 1 : 0.5L;
                    LM3 H = Ui * dE;                       // F = U (symmetric): dE = sym(U H), with H = U^-1 dE
                    LM3 dS = Ui * (ref.dP(U, H) - H * S0);
                    for (int w2 = 0; w2 < 6; ++w2) { LD e = std::fabs((LD)D(w2, v) - dS(V[w2][0], V[w2][1])); if (!(e <= worst)) { worst = e; wi = w2; wj = v; } }
                }
                CHECK(std::string(nm) + "/elasticity", worst <= td, "elasticity operator differs from the derivative of the stress at (%d,%d) by %.3Lg (scale %.3Lg)", wi, wj, worst, sc);
                CHECK(std::string(nm) + "/elasticity-symmetric", (D - D.transpose()).cwiseAbs().maxCoeff() <= td, "elasticity operator is not symmetric");
                mon::distinct(mon::mix(mon::hash_d(C(0, 1)) ^ mon::hash_d(C(0, 0)), mon::hash_d(par[i][0]) + kind)); mon::sample();
            }
        }
    }
}
int main(int c, char **v) { mon::init(c, v); law<SofaCaribou::material::NeoHookeanMaterial<DT>>(0, "NeoHookean"); law<SofaCaribou::material::SaintVenantKirchhoffMaterial<DT>>(1, "SaintVenantKirchhoff"); return mon::finish(); }
