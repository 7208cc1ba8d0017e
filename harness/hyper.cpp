// P25: the hyperelastic force field on real meshes. ELEM selects the element type.
#include "material.h"
#include "display.h"
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Topology/CaribouTopology.h>
#if ELEM < 2
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Hexahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
#else
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
#endif
using namespace caribou; using namespace caribou::geometry;
#if ELEM == 0
using E = Hexahedron<Linear>;
#elif ELEM == 1
using E = Hexahedron<Quadratic>;
#elif ELEM == 2
using E = Tetrahedron<Linear>;
#else
using E = Tetrahedron<Quadratic>;
#endif
using DT = sofa::defaulttype::Vec3Types; using VC = DT::VecCoord; using MO = sofa::component::container::MechanicalObject<DT>;
using FF = SofaCaribou::forcefield::HyperelasticForcefield<E>; using Topo = SofaCaribou::topology::CaribouTopology<E>;
using ElIdx = sofa::type::vector<sofa::type::fixed_array<sofa::Index, NN<E>>>;
constexpr int N = NN<E>;

struct Gp { int e; LD w; std::array<V3, N> dN; };   // reference quadrature data on the rest configuration
struct Model {
    GMesh<E> m; std::vector<int> kept; std::vector<Gp> gp; LD volume = 0, h = 1; size_t n = 0;
    void prepare() {
        n = m.X.size(); const Ref &q = R<E>(); E proto; (void)proto; gp.clear(); volume = 0;
        for (int e : kept) {
            std::vector<V3> X; for (int i : m.conn[e]) X.push_back(m.X[i]);
            for (const auto &g : build_from_nodes<E>(X).gauss_nodes()) {
                V3 xi = from(g.position, 3); auto dL = q.dL(xi); LM3 J = LM3::Zero();
                for (int i = 0; i < N; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J(a, b) += X[i][a] * dL[i][b];
                LM3 Ji = J.inverse(); Gp p; p.e = e; p.w = g.weight * std::fabs(J.determinant()); volume += p.w;
                for (int i = 0; i < N; ++i) for (int a = 0; a < 3; ++a) { p.dN[i][a] = 0; for (int b = 0; b < 3; ++b) p.dN[i][a] += dL[i][b] * Ji(b, a); }
                gp.push_back(p);
            }
        }
    }
    LM3 grad(const Gp &p, const std::vector<V3> &x) const { LM3 F = LM3::Zero(); for (int i = 0; i < N; ++i) { const V3 &y = x[m.conn[p.e][i]]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) F(a, b) += y[a] * p.dN[i][b]; } return F; }
    LD energy(const RefLaw &l, const std::vector<V3> &x) const { LD s = 0; for (auto &p : gp) s += p.w * l.psi(grad(p, x)); return s; }
    std::vector<V3> force(const RefLaw &l, const std::vector<V3> &x) const { std::vector<V3> f(n, V3{0,0,0}); for (auto &p : gp) { LM3 P = l.P(grad(p, x)); for (int i = 0; i < N; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) f[m.conn[p.e][i]][a] -= p.w * P(a, b) * p.dN[i][b]; } return f; }
    std::vector<V3> dforce(const RefLaw &l, const std::vector<V3> &x, const std::vector<V3> &u) const { std::vector<V3> f(n, V3{0,0,0}); for (auto &p : gp) { LM3 P = l.dP(grad(p, x), grad(p, u)); for (int i = 0; i < N; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) f[m.conn[p.e][i]][a] -= p.w * P(a, b) * p.dN[i][b]; } return f; }
    LD minJ(const std::vector<V3> &x) const { LD s = 1e30L; for (auto &p : gp) s = std::min(s, grad(p, x).determinant()); return s; }
    LM stiffness(const RefLaw &l, const std::vector<V3> &x) const { LM K = LM::Zero(3 * n, 3 * n); for (auto &p : gp) { LM3 F = grad(p, x); for (int j = 0; j < N; ++j) for (int c = 0; c < 3; ++c) { LM3 H = LM3::Zero(); for (int b = 0; b < 3; ++b) H(c, b) = p.dN[j][b]; LM3 P = l.dP(F, H); for (int i = 0; i < N; ++i) for (int a = 0; a < 3; ++a) { LD s = 0; for (int b = 0; b < 3; ++b) s += P(a, b) * p.dN[i][b]; K(3 * m.conn[p.e][i] + a, 3 * m.conn[p.e][j] + c) += p.w * s; } } } return K; }
};
static VC tovec(const std::vector<V3> &x) { VC r(x.size()); for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < 3; ++d) r[i][d] = (double)x[i][d]; return r; }
static LD maxof(const std::vector<V3> &x) { LD m = 0; for (auto &a : x) m = std::max(m, maxabs(a)); return m; }

static void scene(Rng &r, uint64_t t) {
    Model md; md.m = make_mesh<E>(r);
    for (size_t i = 0; i < md.m.conn.size(); ++i) if (!md.m.removed[i]) md.kept.push_back((int)i);
    size_t cap = N == 20 ? 4 : N == 10 ? 10 : N == 8 ? 12 : 30; while (md.kept.size() > cap) md.kept.pop_back();
    // curve the quadratic sides a little
    if (N > R<E>().ncorner && r.flip(0.5)) { std::set<int> done; for (auto &c : md.m.conn) for (int i = R<E>().ncorner; i < N; ++i) if (done.insert(c[i]).second) for (int d = 0; d < 3; ++d) md.m.X[c[i]][d] += 0.02L * md.m.h * 0.3L * r.uni(-1, 1); for (auto &x : md.m.X) x = rnd(x); mon::observe("rest:curved"); }
    md.h = md.m.h; md.prepare(); const size_t n = md.n; auto &X0 = md.m.X;
    int kind = (int)r.irange(0, 1); double young = r.logu(1, 1e7), nu = r.flip(0.15) ? 0 : r.uni(0, 0.49);
    // deformed configurations: x = A (x0 - c) + c + t + noise, with A a rotation and/or stretch
    auto configuration = [&](int mode) {
        for (int att = 0;; ++att) {
            LM3 A = LM3::Identity(); if (mode == 1 || mode >= 3) A = lm3(random_rotation(r, 3));
            if (mode >= 2) { LM3 S; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) S(a, b) = (a == b) + r.uni(-0.3, 0.3); A = A * S; }
            V3 tr{r.uni(-1, 1) * md.h, r.uni(-1, 1) * md.h, r.uni(-1, 1) * md.h}; LD noise = mode >= 3 ? 0.03L * md.h * 0.3L : 0;
            std::vector<V3> x(n); for (size_t i = 0; i < n; ++i) { V3 d = X0[i] - X0[0]; Eigen::Matrix<LD, 3, 1> y(d[0], d[1], d[2]); y = A * y; x[i] = X0[0] + V3{y(0), y(1), y(2)}; if (mode) x[i] = x[i] + tr; for (int k = 0; k < 3; ++k) x[i][k] += noise * r.uni(-1, 1); if (mode == 0) x[i] = X0[i]; x[i] = rnd(x[i]); }
            LD mj = md.minJ(x); if ((mj > 0.2L && mj < 5) || att > 60) { if (att > 60) return X0; return x; }
        }
    };
    sptr<sofa::simulation::Node> root(new sofa::simulation::Node()); auto *node = root->createChild("mechanics");
    auto *mo = new MO(); mo->setName("mo"); node->addObject(mo);
    bool moved = r.flip(0.4); std::vector<V3> x = moved ? configuration(3) : X0;
    mo->setup(tovec(X0), tovec(x)); mon::observe(moved ? "init:deformed" : "init:at-rest");
    sofa::core::objectmodel::BaseObject *mat;
    if (kind == 0) { auto *q = new SofaCaribou::material::NeoHookeanMaterial<DT>(); mat = q; } else { auto *q = new SofaCaribou::material::SaintVenantKirchhoffMaterial<DT>(); mat = q; }
    mat->setName("mat"); node->addObject(mat); set_data(mat, "young_modulus", young); set_data(mat, "poisson_ratio", nu);
    ElIdx idx(md.kept.size()); for (size_t k = 0; k < md.kept.size(); ++k) for (int i = 0; i < N; ++i) idx[k][i] = (sofa::Index)md.m.conn[md.kept[k]][i];
    // the topology: a SOFA container found in the context, or a Caribou topology
    int via = (int)r.irange(0, 2); if (N > 8 || N == 10) via = 1 + via % 2; sofa::core::objectmodel::BaseObject *to = nullptr;
    if (via == 0) {
#if ELEM == 0
        auto *c = new sofa::component::topology::HexahedronSetTopologyContainer(); c->d_hexa.setValue(idx); to = c;
#elif ELEM == 2
        auto *c = new sofa::component::topology::TetrahedronSetTopologyContainer(); c->d_tetra.setValue(idx); to = c;
#endif
    } else { auto *c = new Topo(); set_data<ElIdx>(c, "indices", idx); if (via == 2) set_data<VC>(c, "position", tovec(X0)); to = c; }
    static const char *vn[] = {"topology:sofa", "topology:caribou", "topology:caribou-own-positions"}; mon::observe(vn[via]);
    to->setName("topo"); node->addObject(to); if (via) to->init();
    auto *ff = new FF(); ff->setName("ff"); node->addObject(ff); bool explicit_links = r.flip(0.3); if (explicit_links) { set_link(ff, "topology", to); set_link(ff, "material", mat); }
    double rs = r.flip(0.4) ? 0 : r.uni(0, 0.2); ff->rayleighStiffness.setValue(rs);
#ifdef _OPENMP
    bool mt = r.flip(0.7); set_data(ff, "enable_multithreading", mt); if (mt) mon::observe("multithreaded");
#endif
    std::string head = fmt("%s elements=%zu nodes=%zu law=%d E=%.4g nu=%.4g via=%d moved=%d rs=%.3g h=%.3Lg", Info<E>::name, md.kept.size(), n, kind, young, nu, via, (int)moved, rs, md.h);
    mon::describe("%s", head.c_str()); mon::sample(3);
    sofa::shim::log().clear(); if (r.flip(0.3)) { ff->f_printLog.setValue(true); mon::observe("print-log"); }
    if (!explicit_links && r.flip(0.06)) { // which of two topologies is meant is not known: nothing can be applied
        auto *t2 = new Topo(); set_data<ElIdx>(t2, "indices", idx); t2->setName("topo2"); node->addObject(t2); t2->init(); ff->init(); CHECK("ambiguous-topology-is-reported", sofa::shim::count(1) + sofa::shim::count(2) > 0, "no message for an ambiguous topology"); CHECK("ambiguous-topology-has-no-effect", ff->number_of_elements() == 0, "elements taken from an ambiguous topology");
        VC f0(n); mo->write(sc::VecDerivId::force())->setValue(f0); sofa::core::MechanicalParams mp; sofa::core::behavior::BaseForceField *b = ff; b->addForce(&mp, sc::VecDerivId::force()); CHECK("ambiguous-topology-has-no-effect", mo->read(sc::ConstVecDerivId::force())->getValue() == f0, "forces without topology"); mon::observe("topology:ambiguous"); return;
    }
    ff->init();
    CHECK("all-elements", ff->number_of_elements() == md.kept.size(), "%zu elements instead of %zu", ff->number_of_elements(), md.kept.size());
    if (ff->number_of_elements() != md.kept.size()) return;
    LD vol = 0; for (size_t k = 0; k < md.kept.size(); ++k) for (const auto &g : ff->gauss_nodes_of(k)) vol += (LD)g.weight * g.jacobian_determinant;
    CHECK("rest-volume", std::fabs(vol - md.volume) <= 1e-10L * md.volume, "the quadrature sums to %.12Lg, the rest volume is %.12Lg", vol, md.volume);
    RefLaw law(kind, young, nu); auto scaleS = [&] { return law.mu + std::fabs(law.l); };
    auto setx = [&](sc::VecCoordId id, const std::vector<V3> &y) { mo->write(id)->setValue(tovec(y)); };
    LD off = maxof(X0) / md.h + 3; // cancellation of the coordinates
    LD dNmax = 0; for (auto &p : md.gp) for (auto &d : p.dN) dNmax = std::max(dNmax, maxabs(d)); LD fs = 0, ks = 0; { LD w = 0; for (auto &p : md.gp) w = std::max(w, p.w); fs = w * dNmax; ks = w * dNmax * dNmax; }
    std::vector<V3> xa = x; sc::ConstVecCoordId xid = sc::ConstVecCoordId::position(); bool have = false; bool stale_material = false;
    LM Kref; auto kref = [&] { if (!have) { Kref = md.stiffness(law, xa); have = true; } return Kref; };
    auto tolK = [&] { return 1e-9L * off * scaleS() * ks * 10; };
    int ops = (int)r.irange(2, 7);
    for (int o = 0; o < ops; ++o) {
        if (r.flip(0.08)) { auto keep = mo->read(sc::ConstVecCoordId::position())->getValue(); auto y = configuration((int)r.irange(0, 3)); setx(sc::VecCoordId::position(), y); mon::describe("%s step=%d display", head.c_str(), o); check_display<E>(r, ff, md.m.conn, md.kept, y, md.h, n < 60); mo->write(sc::VecCoordId::position())->setValue(keep); }
        int op = o == 0 ? (int)r.irange(0, 1) : (int)r.irange(0, 5);
        mon::describe("%s step=%d op=%d", head.c_str(), o, op);
        if (op == 0) {          // move and ask for the force, at any of the position vectors
            int mode = (int)r.irange(0, 4); if (mode == 4) mode = 3; std::vector<V3> y = configuration(mode);
            bool free_ = r.flip(0.25); auto id = free_ ? sc::VecCoordId::freePosition() : sc::VecCoordId::position(); setx(id, y); if (free_) { mon::observe("force:free-position"); }
            sofa::core::MechanicalParams mp; mp.setX(sc::ConstVecCoordId(id)); bool other = r.flip(0.3); auto fid = other ? sc::VecDerivId(20u) : sc::VecDerivId::force();
            VC f0(n); for (auto &v : f0) for (int d = 0; d < 3; ++d) v[d] = r.flip(0.5) ? 0 : r.uni(-1, 1) * (double)(fs * scaleS()); mo->write(fid)->setValue(f0);
            sofa::core::behavior::BaseForceField *b = ff; b->addForce(&mp, fid); if (stale_material) { stale_material = false; }
            const VC &f1 = mo->read(fid)->getValue(); auto fr = md.force(law, y); xa = y; xid = id; have = false;
            LD tol = 1e-10L * off * scaleS() * fs * 30, worst = 0; size_t wi = 0; std::vector<V3> df(n); for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) { df[i][d] = (LD)f1[i][d] - f0[i][d]; LD e = std::fabs(df[i][d] - fr[i][d]); if (!(e <= worst)) { worst = e; wi = i; } }
            CHECK("force-is-minus-energy-gradient", worst <= tol, "node %zu: force differs from the reference by %.3Lg (tolerance %.3Lg)", wi, worst, tol);
            V3 sf{0,0,0}, sm{0,0,0}; for (size_t i = 0; i < n; ++i) { sf = sf + df[i]; sm = sm + cross(y[i] - X0[0], df[i]); }
            CHECK("momentum-balance", maxabs(sf) <= tol * n && maxabs(sm) <= tol * n * 30 * md.h, "resultant %.3Lg and moment %.3Lg of the internal forces", maxabs(sf), maxabs(sm));
            if (mode <= 1) CHECK("rigid-motion-force-free", maxof(df) <= tol, "a rigid motion produces forces of %.3Lg", maxof(df));
            static const char *mn[] = {"rest", "rigid", "affine", "general"}; mon::observe(std::string("configuration:") + mn[mode]);
            SReal psi = static_cast<sofa::core::behavior::BaseForceField *>(ff)->getPotentialEnergy(&mp); LD pr = md.energy(law, y);
            CHECK("energy", std::fabs(psi - pr) <= 1e-11L * off * off * scaleS() * md.volume * 50, "potential energy %.15g, reference %.15Lg", psi, pr);
            mon::distinct(mon::mix(t, mon::hash_d(f1[0][0]) ^ mon::hash_d((double)psi)));
        } else if (op == 1 || op == 2) {   // tangent product
            if (stale_material) continue;
            std::vector<V3> u(n); for (auto &v : u) for (int d = 0; d < 3; ++d) v[d] = (double)(r.uni(-1, 1) * (double)md.h); if (r.flip(0.2)) { for (auto &v : u) v = {0,0,0}; u[r.u64() % n][r.u64() % 3] = 1; }
            sofa::core::MechanicalParams mp; double kf = r.flip(0.2) ? 1 : r.uni(-2, 2), bf = r.flip(0.4) ? 0 : r.uni(-1, 1); mp.setKFactor(kf); mp.setBFactor(bf); mo->write(sc::VecDerivId::dx())->setValue(tovec(u));
            VC f0(n); for (auto &v : f0) for (int d = 0; d < 3; ++d) v[d] = r.flip(0.5) ? 0 : r.uni(-1, 1) * (double)(ks * scaleS() * md.h); mo->write(sc::VecDerivId::dforce())->setValue(f0);
            sofa::core::behavior::BaseForceField *b = ff; b->addDForce(&mp, sc::VecDerivId::dforce());
            const VC &f1 = mo->read(sc::VecDerivId::dforce())->getValue(); auto dr = md.dforce(law, xa, u); LD k = (LD)kf + (LD)bf * rs, worst = 0; for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) { LD e = std::fabs((LD)f1[i][d] - f0[i][d] - k * dr[i][d]); if (!(e <= worst)) worst = e; }
            CHECK("dforce-is-derivative-of-force", worst <= tolK() * (md.h + 1) * 30, "the force differential is wrong by %.3Lg (tolerance %.3Lg; factor %.3Lg)", worst, tolK() * (md.h + 1) * 30, k);
            mon::observe("tangent-product");
        } else if (op == 3) {   // assembled matrix
            if (stale_material) continue;
            unsigned before = (unsigned)r.irange(0, 7), after = (unsigned)r.irange(0, 5), offs = before; DenseRecorder mat2((int)(before + 3 * n + after), (int)(before + 3 * n + after)); double kf = r.flip(0.2) ? 1 : r.uni(-2, 2);
            ff->addKToMatrix(&mat2, kf, offs); LM K = kref(); LD worst = 0, outside = 0; CHECK("matrix-bounds", mat2.oob == 0, "%d coefficients outside of the matrix", mat2.oob);
            for (int i = 0; i < mat2.n; ++i) for (int j = 0; j < mat2.m; ++j) { LD v = mat2.element(i, j); int a = i - (int)before, c = j - (int)before; bool in = a >= 0 && c >= 0 && a < (int)(3 * n) && c < (int)(3 * n); if (!in) outside = std::max(outside, std::fabs(v)); else { LD e = std::fabs(v + kf * K(a, c)); if (!(e <= worst)) worst = e; } }
            CHECK("matrix-block-only", outside == 0, "coefficients added outside of the block of this state");
            CHECK("matrix-is-derivative-of-force", worst <= tolK() * 2, "assembled matrix wrong by %.3Lg (tolerance %.3Lg)", worst, tolK() * 2); mon::observe(before ? "matrix:offset" : "matrix:no-offset");
        } else if (op == 4) {   // K(), as of the latest assembly
            if (stale_material) continue;
            if (r.flip()) ff->assemble_stiffness(); else ff->assemble_stiffness(*mo->read(xid));
            Eigen::SparseMatrix<double> S = ff->K(); LM K = kref(); LD worst = 0, asym = 0; CHECK("K-size", S.rows() == (int)(3 * n) && S.cols() == (int)(3 * n), "K is %ldx%ld", (long)S.rows(), (long)S.cols());
            Eigen::MatrixXd Dn(S); for (int i = 0; i < Dn.rows(); ++i) for (int j = 0; j < Dn.cols(); ++j) { LD e = std::fabs((LD)Dn(i, j) - K(i, j)); if (!(e <= worst)) worst = e; asym = std::max(asym, (LD)std::fabs(Dn(i, j) - Dn(j, i))); }
            CHECK("K-is-derivative-of-force", worst <= tolK() * 2, "K wrong by %.3Lg (tolerance %.3Lg)", worst, tolK() * 2); CHECK("K-symmetric", asym <= tolK(), "K is not symmetric (%.3Lg)", asym); mon::observe("K()");
        } else {                // the user changes the material; it takes effect at the next force evaluation
            young = r.logu(1, 1e7); nu = r.uni(0, 0.49); set_data(mat, "young_modulus", young); set_data(mat, "poisson_ratio", nu); law = RefLaw(kind, young, nu); have = false; stale_material = true; mon::observe("material-changed"); if (o + 1 == ops) ++ops; 
        }
        // only a force evaluation may follow a material change
        if (stale_material && op == 5) { sofa::core::MechanicalParams mp; mp.setX(xid); VC f0(n); mo->write(sc::VecDerivId::force())->setValue(f0); sofa::core::behavior::BaseForceField *b = ff; b->addForce(&mp, sc::VecDerivId::force()); stale_material = false;
            const VC &f1 = mo->read(sc::VecDerivId::force())->getValue(); auto fr = md.force(law, xa); LD tol = 1e-10L * off * scaleS() * fs * 30, worst = 0; for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) { LD e = std::fabs((LD)f1[i][d] - fr[i][d]); if (!(e <= worst)) worst = e; } CHECK("material-change-takes-effect", worst <= tol, "the force after a change of the material is wrong by %.3Lg (tolerance %.3Lg)", worst, tol); }
    }
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(N == 20 ? 60 : N == 4 ? 400 : 150, N == 20 ? 2500 : N == 4 ? 20000 : 6000);
    for (uint64_t t = 0; t < K; ++t) { Rng r; if (!mon::begin(std::string(Info<E>::name), t, r)) continue; scene(r, t); }
    return mon::finish();
}
