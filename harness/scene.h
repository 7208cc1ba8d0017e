// A linear or cubic force field with mass, damping and stiffness, and a fixed constraint, for the solver monitors.
#pragma once
#include "sofa.h"
template <class DT> struct TestFF : sofa::core::behavior::ForceField<DT> {
    SOFA_CLASS(SOFA_TEMPLATE(TestFF, DT), SOFA_TEMPLATE(sofa::core::behavior::ForceField, DT));
    using Base = sofa::core::behavior::ForceField<DT>; static constexpr int N = DT::spatial_dimensions; using VC = typename DT::VecCoord; using MP = sofa::core::MechanicalParams; using Acc = sofa::core::behavior::MultiMatrixAccessor;
    LM M, B, K; LV c, rest, P; // forces: P - K (x - rest) - c (x - rest)^3 - B v ; tangent (SOFA sign): -(K + 3 c (x - rest)^2)
    int forces = 0, assemblies = 0; bool shuffled = false; Rng *r = nullptr;
    void size(int n) { M = B = K = LM::Zero(n, n); c = rest = P = LV::Zero(n); }
    static LV vec(const VC &v) { LV o(v.size() * N); for (size_t i = 0; i < v.size(); ++i) for (int d = 0; d < N; ++d) o[i * N + d] = v[i][d]; return o; }
    LV internal(const LV &x) const { LV u = x - rest; return K * u + LV(c.array() * u.array().cube()); }
    LM tangent(const LV &x) const { LV u = x - rest; LM t = K; for (int i = 0; i < u.size(); ++i) t(i, i) += 3 * c[i] * u[i] * u[i]; return t; }
    using Base::addForce; using Base::addDForce; using Base::addKToMatrix; using Base::getPotentialEnergy;
    void addForce(const MP *, typename Base::DataVecDeriv &f, const typename Base::DataVecCoord &x, const typename Base::DataVecDeriv &) override { ++forces; LV g = P - internal(vec(x.getValue())); add(f, g); last = vec(x.getValue()); }
    LV last; // configuration of the last force evaluation: the tangent is taken there, as hyperelastic force fields do
    void addDForce(const MP *, typename Base::DataVecDeriv &, const typename Base::DataVecDeriv &) override {}
    LM mbk(const MP *mp) const { return mp->mFactor() * M + mp->bFactor() * B - mp->kFactor() * tangent(last.size() ? last : rest); }
    void addMBKdx(const MP *mp, sofa::core::MultiVecDerivId df) override { auto *s = this->mstate.get(); add(*s->write(df.getId(s)), LV(mbk(mp) * vec(s->read(mp->dx().getId(s))->getValue()))); }
    void addMBKToMatrix(const MP *mp, const Acc *a) override {
        auto ref = a->getMatrix(this->mstate.get()); if (!ref) return; ++assemblies; LM A = mbk(mp); const int n = (int)A.rows(); std::vector<std::pair<int, int>> q; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (A(i, j) != 0) q.push_back({i, j});
        if (r && shuffled) for (size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[r->u64() % k]);
        for (auto &e : q) { double v = (double)A(e.first, e.second); if (r && shuffled && r->flip(0.2)) { double h = v * 0.5; ref->add(ref.offset + e.first, ref.offset + e.second, h); ref->add(ref.offset + e.first, ref.offset + e.second, h); } else ref->add(ref.offset + e.first, ref.offset + e.second, v); }
    }
    SReal getPotentialEnergy(const MP *, const typename Base::DataVecCoord &) const override { return 0; }
    template <class D> static void add(D &f, const LV &g) { auto &v = *f.beginEdit(); for (size_t i = 0; i < v.size(); ++i) for (int d = 0; d < N; ++d) v[i][d] += (double)g[i * N + d]; f.endEdit(); }
};
template <class DT> struct Fix : sofa::core::behavior::BaseProjectiveConstraintSet {
    SOFA_CLASS(Fix, sofa::core::behavior::BaseProjectiveConstraintSet);
    sofa::component::container::MechanicalObject<DT> *s = nullptr; std::vector<int> dofs; static constexpr int N = DT::spatial_dimensions; int projections = 0;
    void projectResponse(const sofa::core::MechanicalParams *, sofa::core::MultiVecDerivId v) override { ++projections; auto *d = s->write(v.getId(s)); auto &x = *d->beginEdit(); for (int i : dofs) if ((size_t)(i / N) < x.size()) x[i / N][i % N] = 0; d->endEdit(); }
    void applyConstraint(const sofa::core::MechanicalParams *, const sofa::core::behavior::MultiMatrixAccessor *a) override { auto ref = a->getMatrix(s); if (!ref) return; for (int i : dofs) { ref->clearRowCol(ref.offset + i); ref->set(ref.offset + i, ref.offset + i, 1.0); } }
};
// a symmetric positive definite matrix of bounded condition number with a random sparsity pattern
static LM rand_spd(Rng &r, int n, LD scale, const std::vector<std::pair<int, int>> &pat, LD coupling = 1) {
    LM A = LM::Zero(n, n); for (int i = 0; i < n; ++i) A(i, i) = scale * r.uni(0.5, 2); for (auto &e : pat) { LD w = scale * coupling * r.uni(0.1, 1.5); if (r.flip(0.3)) { A(e.first, e.second) += w; A(e.second, e.first) += w; } else { A(e.first, e.second) -= w; A(e.second, e.first) -= w; } A(e.first, e.first) += w; A(e.second, e.second) += w; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = (double)A(i, j); return A;
}
static std::vector<std::pair<int, int>> rand_pattern(Rng &r, int n) { std::vector<std::pair<int, int>> p; int kind = (int)r.irange(0, 3); if (n < 2 || kind == 0) return p; int m = kind == 1 ? n - 1 : (int)r.irange(1, 3 * n); for (int k = 0; k < m; ++k) { int a = kind == 1 ? k : (int)(r.u64() % n), b = kind == 1 ? k + 1 : (int)(r.u64() % n); if (a != b) p.push_back({a, b}); } return p; }
