// P29: linear solvers over histories of systems. KIND selects the solver (0 LDLT, 1 LLT, 2 LU, 3 CG); PART 0 the solver interface, 1 the scene graph.
#include "scene.h"
#include <SofaCaribou/Solver/LinearSolver.h>
#include <SofaCaribou/Algebra/EigenMatrix.h>
#include <SofaCaribou/Algebra/EigenVector.h>
#if KIND == 0
#include <SofaCaribou/Solver/LDLTSolver.inl>
#elif KIND == 1
#include <SofaCaribou/Solver/LLTSolver.inl>
#elif KIND == 2
#include <SofaCaribou/Solver/LUSolver.inl>
#else
#include <SofaCaribou/Solver/ConjugateGradientSolver.h>
#endif
using BM = sofa::defaulttype::BaseMatrix; using BV = sofa::defaulttype::BaseVector; using LS = SofaCaribou::solver::LinearSolver;
using ColM = Eigen::SparseMatrix<FLOATING_POINT_TYPE, Eigen::ColMajor, int>;
#if KIND == 0
using Solver = SofaCaribou::solver::LDLTSolver<Eigen::SimplicialLDLT<ColM, Eigen::Lower, Eigen::AMDOrdering<int>>>; static const char *NAME = "LDLT";
#elif KIND == 1
using Solver = SofaCaribou::solver::LLTSolver<Eigen::SimplicialLLT<ColM, Eigen::Lower, Eigen::AMDOrdering<int>>>; static const char *NAME = "LLT";
#elif KIND == 2
using Solver = SofaCaribou::solver::LUSolver<Eigen::SparseLU<ColM, Eigen::AMDOrdering<int>>>; static const char *NAME = "LU";
#else
struct Solver : SofaCaribou::solver::ConjugateGradientSolver<Eigen::SparseMatrix<FLOATING_POINT_TYPE, Eigen::RowMajor, int>> { Solver() {} }; static const char *NAME = "CG";
#endif
constexpr bool CG = KIND == 3;
static const char *PRE[] = {"None", "Identity", "Diagonal", "IncompleteCholesky", "IncompleteLU"};
static void precond(Solver *s, const std::string &n) { auto *d = dynamic_cast<SData<sofa::helper::OptionsGroup> *>(s->findData("preconditioning_method")); d->beginEdit()->setSelectedItem(n); d->endEdit(); }
static LV rand_vec(Rng &r, int n, LD s) { LV v(n); for (int i = 0; i < n; ++i) v[i] = (double)(r.flip(0.2) ? 0 : s * r.uni(-1, 1)); return v; }
static LD nrm(const LV &v) { return v.size() ? v.norm() : 0; }
static LD amax(const LM &A) { return A.size() ? A.cwiseAbs().maxCoeff() : 0; }
#if KIND == 3
static LD initial(Solver &s) { return s.squared_initial_residual(); }
#else
static LD initial(Solver &) { return 0; }
#endif

#if PART == 0
static void history(Rng &r, uint64_t t) {
    sptr<Solver> s(new Solver()); sofa::shim::log().clear(); if (r.flip(0.2)) { s->f_printLog.setValue(true); mon::observe("print-log"); } LS *ls = s.get(); std::string pre = "-"; unsigned maxit = 0; double thr = 0; uint64_t hh = mon::mix(t, KIND);
    auto options = [&] { if constexpr (CG) { pre = PRE[r.u64() % 5]; precond(s.get(), pre); thr = r.flip(0.3) ? 1e-5 : (double)(float)r.logu(1e-10, 1e-1); bool few = r.flip(0.15); maxit = few ? (unsigned)r.irange(1, 4) : 4000; set_data<unsigned>(s.get(), "maximum_number_of_iterations", maxit); set_data<double>(s.get(), "residual_tolerance_threshold", thr); mon::observe("preconditioner:" + pre); } };
    options(); if (KIND == 2 && r.flip()) { s->set_symmetric(true); mon::observe("LU:symmetric"); }
    int n = (int)r.irange(1, 24); std::vector<std::pair<int, int>> pat = rand_pattern(r, n); LM A; std::unique_ptr<BM> mat; bool analysed = false, ok = false; int steps = (int)r.irange(2, 9); std::string trace;
    for (int st = 0; st < steps; ++st) {
        int op = st == 0 ? 0 : (int)r.irange(0, 5); bool fresh = false, bad = false; // 0 new size, 1 new pattern, 2 new values, else another right-hand side
        if (op == 0) { n = (int)r.irange(1, 24); pat = rand_pattern(r, n); fresh = true; analysed = false; if (CG && r.flip(0.5)) options(); } else if (op == 1) { pat = rand_pattern(r, n); fresh = true; analysed = false; if (CG && r.flip(0.5)) options(); } else if (op == 2) fresh = true;
        trace += fmt(" %d", op); hh = mon::mix(hh, op * 31 + n);
        if (fresh) {
            LD sc_ = r.logu(1e-6, 1e6); A = rand_spd(r, n, sc_, pat);
            if (KIND == 2 && !s->symmetric() && r.flip(0.7)) { for (auto &e : pat) if (r.flip()) { A(e.first, e.second) = (double)(A(e.first, e.second) * r.uni(0, 1)); mon::observe("LU:unsymmetric"); } }
            int fixed = 0; for (int i = 0; i < n; ++i) if (r.flip(0.1)) ++fixed; std::vector<int> fx; for (int k = 0; k < fixed; ++k) fx.push_back((int)(r.u64() % n));
            bad = !CG && r.flip(0.12); bool indef = false; if (bad) { if (KIND == 1 && r.flip(0.6)) { int i = (int)(r.u64() % n); A(i, i) = -A(i, i) - (double)sc_; indef = true; } else if (n > 1) { int i = (int)(r.u64() % n); A.row(i).setZero(); A.col(i).setZero(); } else bad = false; } if (bad) fx.clear();
            mat.reset(ls->create_new_matrix((unsigned)n, (unsigned)n)); CHECK("matrix-size", mat->rowSize() == n && mat->colSize() == n, "a %dx%d matrix was requested, %lldx%lld created", n, n, (long long)mat->rowSize(), (long long)mat->colSize());
            std::vector<std::pair<int, int>> q; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (A(i, j) != 0) q.push_back({i, j}); for (size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[r.u64() % k]);
            for (auto &e : q) { double v = (double)A(e.first, e.second); if (r.flip(0.2)) { mat->add(e.first, e.second, v / 2); mat->add(e.first, e.second, v / 2); } else mat->add(e.first, e.second, v); }
            if (r.flip()) mat->compress(); for (int i : fx) { mat->clearRowCol(i); mat->set(i, i, 1.); A.row(i).setZero(); A.col(i).setZero(); A(i, i) = 1; mon::observe("fixed-unknown"); } mat->compress(); if (!fx.empty()) analysed = false;
            ls->set_system_matrix(mat.get()); mon::describe("%s %s n=%d entries=%zu scale=%.3Lg thr=%.3g maxit=%u steps:%s", NAME, pre.c_str(), n, q.size(), sc_, thr, maxit, trace.c_str()); if (st == 0) mon::sample(1);
            if (!analysed || r.flip(0.3) || bad) { bool a = ls->analyze_pattern(); CHECK("analysis-succeeds", a, "the pattern analysis of a %s matrix failed", bad ? "singular or indefinite" : "regular"); analysed = true; mon::observe(fresh && op == 2 ? "analysis:again" : "analysis"); } else mon::observe("analysis:reused");
            ok = ls->factorize(); if (!bad) CHECK("factorization-succeeds", ok, "the factorization of a regular matrix failed"); else { if (indef) CHECK("indefinite-is-refused", !ok, "the Cholesky factorization of an indefinite matrix succeeded"); mon::observe(ok ? "bad:factorized" : "bad:refused"); analysed = false; } if (!ok) continue;
        } else if (!ok || !mat) continue;
        LD asc = amax(A); int bk = (int)r.irange(0, 9); LV b = bk == 0 ? LV(LV::Zero(n)) : rand_vec(r, n, bk == 1 ? 1e-12L : r.logu(1e-5, 1e5)), x0 = LV::Zero(n); int g = (int)r.irange(0, 3); if (bk == 2) { b = A * rand_vec(r, n, 1); for (int i = 0; i < n; ++i) b[i] = (double)b[i]; }
        if (g == 1) x0 = rand_vec(r, n, 1); else if (g == 2 && !bad) { x0 = A.fullPivLu().solve(b); for (int i = 0; i < n; ++i) x0[i] = (double)x0[i]; }
        std::unique_ptr<BV> F(ls->create_new_vector((unsigned)n)), X(ls->create_new_vector((unsigned)n)); for (int i = 0; i < n; ++i) { F->set(i, (double)b[i]); X->set(i, (double)x0[i]); }
        mon::describe("%s %s n=%d |A|=%.3Lg |b|=%.3Lg guess=%d thr=%.3g maxit=%u bad=%d steps:%s", NAME, pre.c_str(), n, asc, nrm(b), g, thr, maxit, (int)bad, trace.c_str());
        bool good = ls->solve(F.get(), X.get()); LV x(n); bool fin = true; for (int i = 0; i < n; ++i) { x[i] = X->element(i); fin = fin && std::isfinite((double)x[i]); } LD bn = nrm(b), res = nrm(b - A * x), noise = 1e-11L * (nrm(A.cwiseAbs() * x.cwiseAbs()) + bn + (CG ? asc * nrm(x0) * n : 0));
        bool kept = true; for (int i = 0; i < n; ++i) { kept = kept && F->element(i) == (double)b[i]; for (int j = 0; j < n; ++j) kept = kept && std::fabs((LD)mat->element(i, j) - A(i, j)) <= 1e-15L * std::fabs(A(i, j)); } CHECK("system-unchanged", kept, "the system was modified by its resolution");
        bool tiny = (double)(bn * bn) < 1.0000001e-19; LD lim = CG && !tiny ? thr * bn * (1 + 1e-6L) + noise : CG ? bn + noise : noise; if (g == 2) mon::observe("guess:solution"); if (g == 1) mon::observe("guess:arbitrary");
        if (good) { CHECK("success-means-solved", fin && res <= lim, "reported as solved with |b - Ax| = %.3Lg, at most %.3Lg expected (|b| = %.3Lg)", res, lim, bn); mon::observe("solved"); }
        bool must = !bad && (!CG || (maxit >= 4000 && pre != "IncompleteLU")); // the incomplete LU is not symmetric: the CG may then stagnate
        if (must) CHECK("regular-system-is-solved", good, "the solver reported a failure on a regular system (|b - Ax| = %.3Lg, |b| = %.3Lg)", res, bn);
        if (bn == 0 && !bad) { CHECK("zero-gives-zero", good && nrm(x) <= 1e-300L, "a null right-hand side does not give a null solution (%s, |x| = %.3Lg)", good ? "reported as solved" : "reported as failed", nrm(x)); mon::observe("rhs:zero"); } if (bk == 1) mon::observe("rhs:tiny");
        if constexpr (CG) {
            auto sr = ls->squared_residuals(); CHECK("iteration-count", sr.size() <= maxit, "%zu iterations for a maximum of %u", sr.size(), maxit); CHECK("initial-residual", std::fabs(initial(*s) - bn * bn) <= 1e-12L * bn * bn, "squared_initial_residual() is %.6g instead of %.6Lg", (double)initial(*s), bn * bn); CHECK("iterative", ls->is_iterative(), "not iterative");
            if (!sr.empty()) { LD l = std::sqrt((LD)sr.back()); CHECK("residual-history", std::fabs(l - res) <= 1e-6L * res + 100 * noise, "the last residual of the history is %.6Lg, the actual one %.6Lg", l, res); if (!tiny) CHECK("success-iff-below-threshold", good == (sr.back() < thr * thr * (double)(bn * bn)) || std::fabs(l - thr * bn) <= 1e-9L * l, "the last residual is %.6Lg for a limit of %.6Lg but the solver reports %s", l, thr * bn, good ? "success" : "failure"); if (!good) { CHECK("failure-exhausts-iterations", sr.size() == maxit, "gave up after %zu of %u iterations", sr.size(), maxit); mon::observe("not-converged"); } }
            else { CHECK("no-iteration-when-solved", tiny || res <= thr * bn * (1 + 1e-6L) + noise, "no iteration done although |b - Ax| = %.3Lg, |b| = %.3Lg", res, bn); mon::observe("no-iteration"); }
        } else CHECK("iterative", !ls->is_iterative() && ls->squared_residuals().empty(), "a direct solver with iterations");
    }
    mon::distinct(hh);
}
#else
using DT = sofa::defaulttype::Vec3Types; using DT2 = sofa::defaulttype::Vec2Types; template <class D> using MO = sofa::component::container::MechanicalObject<D>;
template <class D> static typename D::VecDeriv tov(const LV &v, int off, int n) { typename D::VecDeriv o(n / D::spatial_dimensions); for (int i = 0; i < n; ++i) o[i / D::spatial_dimensions][i % D::spatial_dimensions] = (double)v[off + i]; return o; }
template <class D> static LV tol(const typename D::VecDeriv &v) { return TestFF<D>::vec(v); }
struct Obj { int n; std::function<void(sc::VecDerivId, const LV &, int)> put; std::function<LV(sc::VecDerivId)> get; std::function<void(const LM &, const LM &, const LM &)> mbk; std::function<void(const std::vector<int> &)> fix; };
template <class D> static Obj make_obj(Rng &r, sofa::simulation::Node *node, int nn, const char *name) {
    auto *mo = new MO<D>(); mo->setName(name); node->addObject(mo); typename D::VecCoord x(nn); mo->setup(x, x); auto *ff = new TestFF<D>(); ff->setName(std::string("ff_") + name); node->addObject(ff); ff->init(); ff->r = &r; ff->shuffled = true; ff->size(nn * D::spatial_dimensions); auto *fx = new Fix<D>(); fx->s = mo; node->addObject(fx);
    Obj o; o.n = nn * D::spatial_dimensions; int n = o.n; o.put = [=](sc::VecDerivId id, const LV &v, int off) { mo->write(id)->setValue(tov<D>(v, off, n)); }; o.get = [=](sc::VecDerivId id) { return tol<D>(mo->read(sc::ConstVecDerivId(id))->getValue()); }; o.mbk = [=](const LM &M, const LM &B, const LM &K) { ff->M = M; ff->B = B; ff->K = -K; }; o.fix = [=](const std::vector<int> &f) { fx->dofs = f; }; return o;
}
static void scene(Rng &r, uint64_t t) {
    sptr<sofa::simulation::Node> root(new sofa::simulation::Node()); auto *node = root->createChild("mechanics"); sptr<Solver> s(new Solver()); sofa::shim::log().clear(); if (r.flip(0.2)) { s->f_printLog.setValue(true); mon::observe("print-log"); } node->addObject(s.get()); sc::behavior::LinearSolver *ls = s.get(); std::string pre = "-"; double thr = 0;
    if constexpr (CG) { pre = PRE[r.u64() % 5]; precond(s.get(), pre); thr = (double)(float)r.logu(1e-10, 1e-3); set_data<unsigned>(s.get(), "maximum_number_of_iterations", 4000); set_data<double>(s.get(), "residual_tolerance_threshold", thr); mon::observe("scene-preconditioner:" + pre); } if (KIND == 2 && r.flip()) s->set_symmetric(true);
    std::vector<Obj> obj; int k = (int)r.irange(1, 3); for (int i = 0; i < k; ++i) { auto *nd = i == 0 && r.flip() ? node : node->createChild("child"); obj.push_back(r.flip(0.3) ? make_obj<DT2>(r, nd, (int)r.irange(1, 6), "o") : make_obj<DT>(r, nd, (int)r.irange(1, 6), "o")); } mon::observe(fmt("objects:%d", k)); 
    int n = 0; for (auto &o : obj) n += o.n; int steps = (int)r.irange(1, 5); std::string trace; uint64_t hh = mon::mix(t, KIND * 7 + n); sc::VecDerivId bid = sc::VecDerivId::force(), xid = sc::VecDerivId::dx();
    bool multi = KIND != 3 || pre != "None"; LM A; std::vector<int> fx;
    for (int st = 0; st < steps; ++st) {
        bool again = st && r.flip(0.25);
        if (!again) {
            LM M = LM::Zero(n, n), B = M, K = M; sofa::core::MechanicalParams mp; double m = r.flip(0.3) ? 0 : r.logu(1e-2, 1e2), b = r.flip(0.5) ? 0 : r.logu(1e-2, 1e2), kk = m == 0 || r.flip(0.7) ? (r.flip() ? -1 : -r.logu(1e-2, 1e2)) : 0; mp.setMFactor(m); mp.setBFactor(b); mp.setKFactor(kk); int off = 0; fx.clear(); LD sc_ = r.logu(1e-4, 1e4);
            for (auto &o : obj) { LM m_ = rand_spd(r, o.n, sc_, rand_pattern(r, o.n), 0.1L), b_ = rand_spd(r, o.n, sc_, rand_pattern(r, o.n), 0.1L), k_ = -rand_spd(r, o.n, sc_, rand_pattern(r, o.n)); o.mbk(m_, b_, k_); M.block(off, off, o.n, o.n) = m_; B.block(off, off, o.n, o.n) = b_; K.block(off, off, o.n, o.n) = k_; std::vector<int> f; for (int i = 0; i < o.n; ++i) if (r.flip(0.15)) { f.push_back(i); fx.push_back(off + i); } o.fix(f); off += o.n; }
            A = m * M + b * B + kk * K; for (int i : fx) { A.row(i).setZero(); A.col(i).setZero(); A(i, i) = 1; mon::observe("scene:fixed"); }
            bool rs = st == 0 || r.flip(0.6); trace += rs ? " R" : " M"; mon::describe("%s %s objects=%d n=%d m=%g b=%g k=%g fixed=%zu steps:%s", NAME, pre.c_str(), k, n, m, b, kk, fx.size(), trace.c_str()); if (st == 0) mon::sample(1); if (rs) ls->resetSystem(); else mon::observe("scene:assembled-again-without-reset");
            ls->setSystemMBKMatrix(&mp); if (multi) CHECK("scene-factorized", s->A_is_factorized(), "the assembled matrix could not be factorized");
            if (multi) { LD w = 0; bool sz = s->A() && s->A()->rowSize() == n && s->A()->colSize() == n; CHECK("assembled-size", sz, "the assembled matrix is not %dx%d", n, n); if (sz) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { LD e = std::fabs((LD)s->A()->element(i, j) - A(i, j)); if (!(e <= w)) w = e; } CHECK("assembled-matrix", sz && w <= 1e-12L * (amax(A) + 1), "the assembled matrix is wrong by %.3Lg", w); }
        } else trace += " b";
        LV b = r.flip(0.1) ? LV(LV::Zero(n)) : rand_vec(r, n, r.logu(1e-2, 1e2)), x0 = r.flip() ? LV(LV::Zero(n)) : rand_vec(r, n, 1); for (int i : fx) b[i] = x0[i] = 0; int off = 0; for (auto &o : obj) { o.put(bid, b, off); o.put(xid, x0, off); off += o.n; }
        ls->setSystemRHVector(bid); ls->setSystemLHVector(xid); ls->solveSystem(); LV x(n), b1(n); off = 0; for (auto &o : obj) { x.segment(off, o.n) = o.get(xid); b1.segment(off, o.n) = o.get(bid); off += o.n; }
        LD bn = nrm(b), res = nrm(b - A * x), noise = 1e-11L * (nrm(A.cwiseAbs() * x.cwiseAbs()) + bn + amax(A) * nrm(x0) * n); bool fin = true; for (int i = 0; i < n; ++i) fin = fin && std::isfinite((double)x[i]);
        mon::describe("%s %s objects=%d n=%d |A|=%.3Lg |b|=%.3Lg |x0|=%.3Lg thr=%.3g steps:%s", NAME, pre.c_str(), k, n, amax(A), bn, nrm(x0), thr, trace.c_str());
        bool stuck = CG && pre == "IncompleteLU" && !s->squared_residuals().empty() && !(s->squared_residuals().back() < thr * thr * (double)(bn * bn)); if (stuck) { mon::observe("scene:not-converged"); continue; }
        CHECK("scene-solved", fin && res <= (CG ? thr * bn * (1 + 1e-6L) : 0) + noise, "|b - Ax| = %.3Lg for the solution given to the mechanical objects, |b| = %.3Lg", res, bn); CHECK("scene-rhs-unchanged", nrm(b1 - b) == 0, "the right-hand side changed"); LD fz = 0; for (int i : fx) fz = std::max(fz, std::fabs(x[i])); CHECK("fixed-stay-fixed", fz <= noise + (CG ? thr * bn : 0), "a fixed unknown is %.3Lg in the solution", fz);
        if (bn == 0) mon::observe("scene:zero-rhs"); hh = mon::mix(hh, mon::hash_d((double)b[0]));
    }
    mon::distinct(hh);
}
#endif
int main(int c, char **v) {
    mon::init(c, v);
#if PART == 0
    uint64_t K = M().n(6000, 300000); for (uint64_t t = 0; t < K; ++t) { Rng r; if (mon::begin(fmt("%s-interface", NAME), t, r)) history(r, t); }
#else
    uint64_t K = M().n(3000, 150000); for (uint64_t t = 0; t < K; ++t) { Rng r; if (mon::begin(fmt("%s-scene", NAME), t, r)) scene(r, t); }
#endif
    return mon::finish();
}
