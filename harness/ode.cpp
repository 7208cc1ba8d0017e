// P30 (KIND 0: static solver), P31 (KIND 1: backward Euler), P32 (KIND 2: legacy static solver): histories of time steps on scenes of mechanical objects with
// linear or cubic forces, fixed unknowns, mapped children and constraint solvers; the reference is the same Newton scheme in extended precision.
#include "scene.h"
#include <SofaCaribou/Solver/LinearSolver.h>
#include <SofaCaribou/Solver/LDLTSolver.h>
#include <SofaCaribou/Solver/LLTSolver.h>
#include <SofaCaribou/Solver/LUSolver.h>
#include <SofaCaribou/Solver/ConjugateGradientSolver.h>
#if KIND == 0
#include <SofaCaribou/Ode/StaticODESolver.h>
using Ode = SofaCaribou::ode::StaticODESolver;
#elif KIND == 1
#include <SofaCaribou/Ode/BackwardEulerODESolver.h>
using Ode = SofaCaribou::ode::BackwardEulerODESolver;
#else
#include <SofaCaribou/Ode/LegacyStaticODESolver.h>
using Ode = SofaCaribou::ode::LegacyStaticODESolver;
#endif
using ColM = Eigen::SparseMatrix<FLOATING_POINT_TYPE, Eigen::ColMajor, int>;
using LDLT = SofaCaribou::solver::LDLTSolver<Eigen::SimplicialLDLT<ColM, Eigen::Lower, Eigen::AMDOrdering<int>>>; using LLT = SofaCaribou::solver::LLTSolver<Eigen::SimplicialLLT<ColM, Eigen::Lower, Eigen::AMDOrdering<int>>>; using LU = SofaCaribou::solver::LUSolver<Eigen::SparseLU<ColM, Eigen::AMDOrdering<int>>>;
struct CGS : SofaCaribou::solver::ConjugateGradientSolver<Eigen::SparseMatrix<FLOATING_POINT_TYPE, Eigen::RowMajor, int>> { CGS() {} };
using V3T = sofa::defaulttype::Vec3Types; using V2T = sofa::defaulttype::Vec2Types; using Node = sofa::simulation::Node; template <class D> using MO = sofa::component::container::MechanicalObject<D>;
constexpr bool BE = KIND == 1, LEGACY = KIND == 2; static const char *NAMES[] = {"static", "backward-euler", "legacy-static"}; static const char *SOLV[] = {"LDLT", "LLT", "LU", "CG"};
static LD nrm(const LV &v) { return v.size() ? v.norm() : 0; }
static LV rvec(Rng &r, int n, LD s) { LV v(n); for (int i = 0; i < n; ++i) v[i] = (double)(s * r.uni(-1, 1)); return v; }
static LV dbl(LV v) { for (int i = 0; i < v.size(); ++i) v[i] = (double)v[i]; return v; }
// an affine mapping between two mechanical objects: out_i = sum_j w_ij in_j
template <class D> struct LinMap : sofa::core::Mapping<D, D> {
    SOFA_CLASS(SOFA_TEMPLATE(LinMap, D), SOFA_TEMPLATE2(sofa::core::Mapping, D, D)); using B = sofa::core::Mapping<D, D>; LM w; int applied = 0;
    template <class A, class C> void go(A &o, const C &i) { auto &y = *o.beginEdit(); const auto &x = i.getValue(); y.resize((size_t)w.rows()); for (int a = 0; a < w.rows(); ++a) for (int d = 0; d < (int)D::spatial_dimensions; ++d) { LD s = 0; for (int b = 0; b < w.cols(); ++b) s += w(a, b) * x[b][d]; y[a][d] = (double)s; } o.endEdit(); }
    using B::apply; using B::applyJ; using B::applyJT; using MP = sofa::core::MechanicalParams; void apply(const MP *, typename B::DOx &o, const typename B::DIx &i) override { ++applied; go(o, i); } void applyJ(const MP *, typename B::DOv &o, const typename B::DIv &i) override { go(o, i); }
    void applyJT(const MP *, typename B::DIv &i, const typename B::DOv &o) override { auto &y = *i.beginEdit(); const auto &x = o.getValue(); for (int b = 0; b < w.cols(); ++b) for (int d = 0; d < (int)D::spatial_dimensions; ++d) { LD s = 0; for (int a = 0; a < w.rows(); ++a) s += w(a, b) * x[a][d]; y[b][d] += (double)s; } i.endEdit(); }
    void applyJT(const sofa::core::ConstraintParams *, typename B::DIm &, const typename B::DOm &) override {}
};
struct IObj { int n = 0; virtual ~IObj() = default; virtual LV get(int) = 0; virtual void put(int, const LV &) = 0; virtual LM &m() = 0; virtual LM &b() = 0; virtual LM &k() = 0; virtual LV &c() = 0; virtual LV &rest() = 0; virtual LV &p() = 0; virtual std::vector<int> &fix() = 0; virtual LV mapped_force() = 0; virtual LD mapped_error() = 0; virtual bool mapped() const = 0; virtual void load_mapped(Rng &, LD) = 0; virtual int forces() = 0; };
template <class D> static typename D::VecCoord tov(const LV &v) { typename D::VecCoord o(v.size() / D::spatial_dimensions); for (int i = 0; i < v.size(); ++i) o[i / D::spatial_dimensions][i % D::spatial_dimensions] = (double)v[i]; return o; }
template <class D> struct TObj : IObj {
    MO<D> *mo, *mm = nullptr; TestFF<D> *ff, *mf = nullptr; Fix<D> *fx; LinMap<D> *map = nullptr; static constexpr int N = D::spatial_dimensions;
    TObj(Rng &r, Node *node, int nn, bool with_map) {
        mo = new MO<D>(); mo->setName("mo"); node->addObject(mo); typename D::VecCoord x(nn); mo->setup(x, x); n = nn * N; ff = new TestFF<D>(); ff->setName("ff"); node->addObject(ff); ff->init(); ff->r = &r; ff->shuffled = true; ff->size(n); fx = new Fix<D>(); fx->s = mo; node->addObject(fx);
        if (with_map) { auto *child = node->createChild("mapped"); int q = (int)r.irange(1, 4); mm = new MO<D>(); mm->setName("mapped"); child->addObject(mm); typename D::VecCoord y(q); mm->setup(y, y); map = new LinMap<D>(); map->w = LM::Zero(q, nn); for (int i = 0; i < q; ++i) for (int j = 0; j < nn; ++j) if (r.flip(0.6)) map->w(i, j) = (double)r.uni(-1, 1); child->addObject(map); map->setModels(mo, mm); mf = new TestFF<D>(); child->addObject(mf); mf->init(); mf->size(q * N); }
    }
    LV get(int w) override { return TestFF<D>::vec(w == 0 ? mo->read(sofa::core::ConstVecCoordId::position())->getValue() : mo->read(sofa::core::ConstVecDerivId::velocity())->getValue()); }
    void put(int w, const LV &v) override { if (w == 0) mo->write(sofa::core::VecCoordId::position())->setValue(tov<D>(v)); else mo->write(sofa::core::VecDerivId::velocity())->setValue(tov<D>(v)); if (map) { sofa::core::MechanicalParams mp; sofa::core::BaseMapping *b = map; if (w == 0) b->apply(&mp, sofa::core::VecCoordId::position(), sofa::core::ConstVecCoordId::position()); else b->applyJ(&mp, sofa::core::VecDerivId::velocity(), sofa::core::ConstVecDerivId::velocity()); } }
    LM &m() override { return ff->M; } LM &b() override { return ff->B; } LM &k() override { return ff->K; } LV &c() override { return ff->c; } LV &rest() override { return ff->rest; } LV &p() override { return ff->P; } std::vector<int> &fix() override { return fx->dofs; } bool mapped() const override { return map; } int forces() override { return ff->forces; }
    void load_mapped(Rng &r, LD s) override { if (mf) mf->P = rvec(r, (int)mf->P.size(), s); }
    LV mapped_force() override { LV f = LV::Zero(n); if (map) for (int j = 0; j < map->w.cols(); ++j) for (int d = 0; d < N; ++d) for (int i = 0; i < map->w.rows(); ++i) f[j * N + d] += map->w(i, j) * mf->P[i * N + d]; return f; }
    LD mapped_error() override { if (!map) return 0; LD e = 0; for (int w = 0; w < 2; ++w) { LV x = get(w), y = TestFF<D>::vec(w == 0 ? mm->read(sofa::core::ConstVecCoordId::position())->getValue() : mm->read(sofa::core::ConstVecDerivId::velocity())->getValue()); for (int i = 0; i < map->w.rows(); ++i) for (int d = 0; d < N; ++d) { LD s = 0, a = 0; for (int j = 0; j < map->w.cols(); ++j) { s += map->w(i, j) * x[j * N + d]; a += std::fabs(map->w(i, j) * x[j * N + d]); } LD q = std::fabs(s - y[i * N + d]) / (a + 1e-30L); if (!(q <= e)) e = q; } } return e; }
};
// records the calls of the solver and, when asked, clamps what it is given, as a contact would do
struct Contacts : sofa::core::behavior::ConstraintSolver { SOFA_CLASS(Contacts, sofa::core::behavior::ConstraintSolver); std::vector<std::unique_ptr<IObj>> *obj = nullptr; double floor_x = -1e300; std::string log; bool bad_id = false;
    void solveConstraint(const sofa::core::ConstraintParams *p, sofa::core::MultiVecId id) override { bool vel = p->constOrder() == sofa::core::ConstraintParams::VEL; log += vel ? 'V' : 'P'; auto want = vel ? sofa::core::VecId(sofa::core::VecDerivId::velocity()) : sofa::core::VecId(sofa::core::VecCoordId::position()); if (!(id.getDefaultId() == want)) bad_id = true; if (!vel) for (auto &o : *obj) { LV x = o->get(0); bool ch = false; for (int i = 0; i < x.size(); ++i) if (x[i] < floor_x) { x[i] = floor_x; ch = true; } if (ch) raw(o.get(), x); } }
    std::function<void(IObj *, const LV &)> raw; };
struct Foreign : sofa::core::behavior::LinearSolver { SOFA_CLASS(Foreign, sofa::core::behavior::LinearSolver); int calls = 0; void setSystemMBKMatrix(const sofa::core::MechanicalParams *) override { ++calls; } void setSystemRHVector(sofa::core::MultiVecDerivId) override { ++calls; } void setSystemLHVector(sofa::core::MultiVecDerivId) override { ++calls; } void solveSystem() override { ++calls; } }; // a solver of another plugin
static void scene(Rng &r, uint64_t t) {
    sofa::core::sptr<Node> root(new Node()); auto *node = root->createChild("mechanics"); sofa::core::sptr<Ode> ode(new Ode()); node->addObject(ode.get()); int sv = (int)r.irange(0, 3); const bool cg = sv == 3; SofaCaribou::solver::LinearSolver *ls = nullptr; std::string pre = "-"; double thr = 0;
    sofa::core::behavior::LinearSolver *sls = nullptr; sofa::core::sptr<sofa::core::objectmodel::BaseObject> holder; if (!LEGACY && r.flip(0.15)) { node->addObject(new Foreign()); mon::observe("foreign-linear-solver"); } bool none = !LEGACY && r.flip(0.02); auto use = [&](auto *s) { if (none) s->setName("unused"); if (none) { holder = sofa::core::sptr<sofa::core::objectmodel::BaseObject>(s); return; } node->addObject(s); ls = s; sls = s; };
    if (sv == 0) use(new LDLT()); else if (sv == 1) use(new LLT()); else if (sv == 2) { auto *s = new LU(); if (r.flip()) s->set_symmetric(true); use(s); } else { auto *s = new CGS(); static const char *PRE[] = {"None", "Identity", "Diagonal", "IncompleteCholesky"}; pre = PRE[r.u64() % (4)]; auto *d = dynamic_cast<SData<sofa::helper::OptionsGroup> *>(s->findData("preconditioning_method")); d->beginEdit()->setSelectedItem(pre); d->endEdit(); thr = 1e-12; set_data<unsigned>(s, "maximum_number_of_iterations", 5000u); set_data<double>(s, "residual_tolerance_threshold", thr); use(s); }
    mon::observe(std::string("solver:") + SOLV[sv] + (cg ? "-" + pre : "")); std::vector<std::unique_ptr<IObj>> obj; int k = (int)r.irange(1, 3); bool maps = true;
    for (int i = 0; i < k; ++i) { auto *nd = i == 0 ? node : node->createChild("object"); bool wm = maps && r.flip(0.4); if (r.flip(0.3)) obj.emplace_back(new TObj<V2T>(r, nd, (int)r.irange(1, 5), wm)); else obj.emplace_back(new TObj<V3T>(r, nd, (int)r.irange(1, 5), wm)); if (wm) mon::observe("mapped-object"); }
    int n = 0; for (auto &o : obj) n += o->n; sofa::core::sptr<Contacts> con; bool contacts = r.flip(0.3); if (contacts) { con = sofa::core::sptr<Contacts>(new Contacts()); con->obj = &obj; con->raw = [](IObj *o, const LV &x) { o->put(0, x); }; node->addObject(con.get()); }
    auto gather = [&](auto f) { LV v(n); int off = 0; for (auto &o : obj) { v.segment(off, o->n) = f(*o); off += o->n; } return v; };
    auto scatter = [&](int w, const LV &v) { int off = 0; for (auto &o : obj) { o->put(w, v.segment(off, o->n)); off += o->n; } };
    sofa::shim::log().clear(); if (r.flip(0.2)) { ode->f_printLog.setValue(true); mon::observe("print-log"); } ode->init(); LM M, B, K; LV c, rest, P, Pm; std::vector<int> fx; std::string trace; int steps = (int)r.irange(1, 6); uint64_t hh = mon::mix(t, n * 4 + sv); LV x = rvec(r, n, 1), v = LV::Zero(n); bool simulation_pattern = false; int strategy = 2; bool bad = false; LD scale = r.logu(1e-2, 1e3);
    auto blocks = [&](auto f) { LM A = LM::Zero(n, n); int off = 0; for (auto &o : obj) { A.block(off, off, o->n, o->n) = f(*o); off += o->n; } return A; };
    for (int st = 0; st < steps; ++st) {
        int op = st == 0 ? 0 : (int)r.irange(0, 5); // 0 other matrices and pattern, 1 other values, 2 other fixed unknowns, 3.. other loads
        if (op == 0 && st && simulation_pattern) { ode->reset(); mon::observe("reset"); }
        if (op == 0) { bad = !cg && !BE && r.flip(0.08); scale = r.logu(1e-2, 1e3); for (auto &o : obj) { auto pat = rand_pattern(r, o->n); o->k() = rand_spd(r, o->n, scale, pat); o->c() = LV::Zero(o->n); if (r.flip(0.6)) for (int i = 0; i < o->n; ++i) o->c()[i] = (double)(scale * r.uni(0, 0.5)); o->rest() = rvec(r, o->n, 1); if (BE) { o->m() = rand_spd(r, o->n, r.logu(1e-2, 1e2), rand_pattern(r, o->n), 0.1L); o->b() = r.flip() ? LM(LM::Zero(o->n, o->n)) : rand_spd(r, o->n, r.logu(1e-2, 10), rand_pattern(r, o->n), 0.1L); } }
            if (bad) { auto &o = obj[r.u64() % obj.size()]; int i = (int)(r.u64() % o->n); if (sv == 1 && r.flip()) o->k()(i, i) = -o->k()(i, i) - (double)scale; else { o->k().row(i).setZero(); o->k().col(i).setZero(); } o->c().setZero(); } }
        if (op == 1 && !bad) for (auto &o : obj) { LD f = r.uni(0.5, 2); for (int i = 0; i < o->n; ++i) for (int j = 0; j < o->n; ++j) o->k()(i, j) = (double)(f * o->k()(i, j)); }
        if (op <= 2 && !(simulation_pattern && op)) { fx.clear(); int off = 0; for (auto &o : obj) { auto &f = o->fix(); f.clear(); for (int i = 0; i < o->n; ++i) if (r.flip(0.2)) { f.push_back(i); fx.push_back(off + i); } off += o->n; } if (bad) { for (auto &o : obj) o->fix().clear(); fx.clear(); } if (!fx.empty()) mon::observe("fixed-unknowns"); }
        if (st == 0) { strategy = (int)r.irange(1, 3); if (cg && pre != "IncompleteCholesky" && r.flip(0.3)) strategy = 0; simulation_pattern = strategy == 1;
#if KIND < 2
            ode->set_pattern_analysis_strategy((Ode::PatternAnalysisStrategy)strategy); mon::observe(fmt("pattern-strategy:%d", strategy)); CHECK("strategy", (int)ode->pattern_analysis_strategy() == strategy, "the pattern strategy is %d after having been set to %d", (int)ode->pattern_analysis_strategy(), strategy);
#endif
        }
        LD load = r.flip(0.1) ? 0 : scale * r.logu(0.01, 3); for (auto &o : obj) { o->p() = rvec(r, o->n, load); o->load_mapped(r, load * 0.3L); }
        bool eq = st && r.flip(0.1); if (r.flip(0.15)) { x = rvec(r, n, 1); scatter(0, x); } else if (st == 0) scatter(0, x);
        if (BE && r.flip(st ? 0.2 : 1)) { v = r.flip(0.15) ? LV(LV::Zero(n)) : rvec(r, n, r.logu(1e-2, 10)); for (int i : fx) v[i] = 0; scatter(1, v); }
        if (BE) { for (int i : fx) v[i] = 0; scatter(1, v); }
        M = blocks([](IObj &o) { return o.m(); }); B = blocks([](IObj &o) { return o.b(); }); K = blocks([](IObj &o) { return o.k(); }); c = gather([](IObj &o) { return o.c(); }); rest = gather([](IObj &o) { return o.rest(); }); Pm = gather([](IObj &o) { return LV(o.mapped_force()); });
        const bool linear = c.isZero(0); double h = r.logu(1e-3, 0.5), rm = BE && r.flip() ? r.uni(0, 1) : 0, rk = BE && r.flip() ? r.uni(0, 0.2) : 0;
        auto internal = [&](const LV &y) -> LV { LV u = y - rest; return K * u + LV(c.array() * u.array().cube()); }; auto tangent = [&](const LV &y) { LM T = K; for (int i = 0; i < n; ++i) T(i, i) += 3 * c[i] * (y[i] - rest[i]) * (y[i] - rest[i]); return T; }; auto project = [&](LV f) { for (int i : fx) f[i] = 0; return f; };
        if (eq) { LV q = BE ? LV(x + h * v) : x; LV f = dbl(internal(q) - Pm); if (BE) f = dbl(f + LV((rm * M + B + rk * tangent(q)) * v)); int off = 0; for (auto &o : obj) { o->p() = f.segment(off, o->n); off += o->n; } mon::observe("equilibrium"); }
        P = gather([](IObj &o) { return o.p(); });
        unsigned its = r.flip(0.15) ? 1u : (unsigned)r.irange(2, 14); double corr = r.flip(0.2) ? -1. : (double)(float)r.logu(1e-9, 1e-2), rel = r.flip(0.2) ? -1. : (double)(float)r.logu(1e-9, 1e-2), abs_ = LEGACY ? -1. : r.flip(0.2) ? -1. : r.flip(0.3) ? (double)(float)(scale * r.logu(1e-9, 1e-1)) : 1e-15; set_data<unsigned>(ode.get(), "newton_iterations", its); set_data<double>(ode.get(), "correction_tolerance_threshold", corr); set_data<double>(ode.get(), "residual_tolerance_threshold", rel);
#if KIND < 2
        set_data<double>(ode.get(), "absolute_residual_tolerance_threshold", abs_);
#endif
        if (BE) { set_data<double>(ode.get(), "rayleigh_mass", rm); set_data<double>(ode.get(), "rayleigh_stiffness", rk); } bool clamp = contacts && r.flip(0.4); if (con) { con->floor_x = clamp ? -1.5 : -1e300; con->log.clear(); con->bad_id = false; if (clamp) mon::observe("contacts:clamped"); }
        if (clamp) { for (int i = 0; i < n; ++i) if (x[i] < -1.5) { x[i] = -1.5; } scatter(0, x); }
        bool warm = false;
#if KIND == 2
        warm = op > 2 && r.flip(0.3); /* a warm start is only given to a solver whose fixed unknowns are those of the previous step */ set_data<bool>(ode.get(), "warm_start", warm);
#endif
        trace += fmt(" %d%s", op, eq ? "e" : ""); const LV x0 = x, v0 = v;
        mon::describe("%s %s %s objects=%d n=%d fixed=%zu its=%u corr=%.3g rel=%.3g abs=%.3g h=%.3g rm=%.3g rk=%.3g strategy=%d bad=%d linear=%d contacts=%d clamp=%d |P|=%.3Lg steps:%s", NAMES[KIND], SOLV[sv], pre.c_str(), k, n, fx.size(), its, corr, rel, abs_, h, rm, rk, strategy, (int)bad, (int)linear, (int)contacts, (int)clamp, nrm(P), trace.c_str()); if (st == 0) mon::sample(1);
        sofa::core::ExecParams ep; ode->solve(&ep, h, sofa::core::VecCoordId::position(), sofa::core::VecDerivId::velocity());
        if (none) { LV x1 = gather([](IObj &o) { return o.get(0); }), v1 = gather([](IObj &o) { return o.get(1); }); CHECK("no-solver-no-change", nrm(x1 - x0) == 0 && nrm(v1 - v0) == 0 && !get_data<bool>(ode.get(), "converged"), "without a linear solver the state changed or the step is reported as converged"); mon::observe("no-linear-solver"); continue; }
        x = gather([](IObj &o) { return o.get(0); }); v = gather([](IObj &o) { return o.get(1); }); bool conv = get_data<bool>(ode.get(), "converged"); auto sr = ode->squared_residuals(); const size_t done = sr.size(); LD R0c = std::sqrt((LD)ode->squared_initial_residual());
        // what must hold whatever the outcome
        bool fin = true; for (int i = 0; i < n; ++i) fin = fin && std::isfinite((double)x[i]) && std::isfinite((double)v[i]); LD me = 0; for (auto &o : obj) me = std::max(me, o->mapped_error()); CHECK("iterations", done <= its && ode->iteration_times().size() == done, "%zu residuals and %zu times for a maximum of %u iterations", done, ode->iteration_times().size(), its);
        auto rhs = [&](const LV &y, const LV &a) -> LV { LV f = P + Pm - internal(y); if (BE) { LM T = tangent(y); f -= ((1 + h * rm) * M + h * B + h * rk * T) * a + (rm * M + B + rk * T) * v0; } return project(f); };
        auto jac = [&](const LV &y) { LM A = BE ? LM((1 + h * rm) * M + h * B + h * (h + rk) * tangent(y)) : tangent(y); for (int i : fx) { A.row(i).setZero(); A.col(i).setZero(); A(i, i) = 1; } return A; };
        const LD fs = nrm(P) + nrm(Pm) + nrm(K.cwiseAbs() * (x0 - rest).cwiseAbs()) + (BE ? nrm(M.cwiseAbs() * v0.cwiseAbs()) / h + nrm(B.cwiseAbs() * v0.cwiseAbs()) : 0) + scale * 1e-3L;
        if (contacts) { std::string want; for (size_t i = 0; i < done; ++i) want += BE ? "VP" : "P"; CHECK("constraints-solved-each-iteration", con->log.compare(0, want.size(), want) == 0 && con->log.size() == want.size() && !con->bad_id, "constraint resolutions '%s' for %zu iterations%s", con->log.substr(0, 40).c_str(), done, con->bad_id ? " (wrong vector)" : ""); if (done) mon::observe("constraint-calls", done); }
        if (bad) { bool stop = !conv || done || nrm(rhs(x0, LV::Zero(n))) <= (LEGACY && rel > 0 ? std::sqrt((LD)rel) * (1 + 1e-9L) : abs_ > 0 ? abs_ : 0) + 1e-12L * fs; CHECK("singular-is-not-converged", stop, "converged without any iteration on a singular matrix"); if (!conv && done == 0 && fin) CHECK("failure-keeps-state", nrm(x - x0) == 0 || BE, "the configuration changed although the system could not be solved"); mon::observe(conv ? "singular:converged" : "singular:refused"); x = rvec(r, n, 1); scatter(0, x); v = LV::Zero(n); scatter(1, v); bad = true; if (r.flip()) { op = 0; } for (auto &o : obj) o->k() = rand_spd(r, o->n, scale, rand_pattern(r, o->n)); bad = false; if (simulation_pattern) ode->reset(); continue; }
        // the reference iterates, in extended precision
        LV y = x0, a = LV::Zero(n), U = LV::Zero(n); if (BE) y = x0 + h * v0; LV F = rhs(y, a); const LD R0 = nrm(F); std::vector<LD> rR, rdx, rU; LD worst = 1; bool wild = false; std::vector<LV> ry{y}, ra{a};
        for (size_t i = 0; i < std::max<size_t>(done, 1) && i < 20; ++i) { LM A = jac(y); LV dx = A.fullPivLu().solve(F); if (BE) { a += dx; y = x0 + h * (v0 + h * a); } else y += dx; if (clamp) for (int j = 0; j < n; ++j) if (y[j] < -1.5L) y[j] = -1.5L; U += dx; F = rhs(y, a); rR.push_back(nrm(F)); rdx.push_back(nrm(dx)); rU.push_back(nrm(U)); worst = std::max(worst, nrm(F) / (fs + 1e-30L)); ry.push_back(y); ra.push_back(a); if (!(nrm(F) < 1e6L * fs)) wild = true; }
        const LD tol = (cg ? 1e-9L : 1e-10L) * fs * worst + (cg ? 1e-9L * R0 + 1e-9L : 0); // the conjugate gradient takes a right-hand side of norm below sqrt(EPSILON) for zero
        CHECK("initial-residual", std::fabs(R0c - R0) <= 1e-12L * fs + 1e-12L * R0, "squared_initial_residual() gives |R0| = %.9Lg, the projected residual is %.9Lg", R0c, R0);
        CHECK("mapped-objects-follow", me <= 1e-12L, "a mapped object is off by %.3Lg (relative) after the step", me);
        LD fz = 0; for (int i : fx) fz = std::max(fz, std::fabs(x[i] - x0[i])); if (!clamp) CHECK("fixed-stay-fixed", fz <= (cg ? 1e-9L * (1 + nrm(x0) + nrm(x)) : 1e-12L), "a fixed unknown moved by %.3Lg", fz); if (!BE) CHECK("velocity-untouched", nrm(v - v0) == 0, "the static solver changed the velocities");
        if (wild) { mon::observe("wild"); x = rvec(r, n, 1); v = LV::Zero(n); scatter(0, x); scatter(1, v); continue; }
        CHECK("finite", fin, "the solution is not finite");
        if (clamp) { LD lo = 1e300L; for (int i = 0; i < n; ++i) lo = std::min(lo, x[i]); if (done) CHECK("contact-respected", lo >= -1.5L, "a position of %.3Lg is below the contact at -1.5", lo); }
        bool same = true; LD ex = 0, ev = 0; if (!clamp) { LV want = ry[done], wv = BE ? LV(v0 + h * ra[done]) : v0; LD s = 1 + nrm(want) + nrm(x0); ex = nrm(x - want) / s; ev = nrm(v - wv) / (1 + nrm(wv) + nrm(v0)); LD lim = (cg ? 1e-6L : 1e-8L) * worst; same = ex <= lim && (!BE || ev <= lim); CHECK("iterates", same, "after %zu iterations the positions are off by %.3Lg and the velocities by %.3Lg (relative) from the Newton iterates", done, ex, ev); if (BE) { LD e = nrm(x - (x0 + h * v)); CHECK("euler-update", e <= 1e-13L * s * (1 + h * nrm(v)), "x1 - x0 - h v1 = %.3Lg", e); } }
        else if (BE && done) mon::observe("contacts:backward-euler");
        if (its > 1 || LEGACY) { LD w = 0; size_t at = 0; for (size_t i = 0; i < done && !clamp; ++i) { LD e = std::fabs(std::sqrt((LD)sr[i]) - rR[i]) - (1e-6L * rR[i] + tol); if (e > w) { w = e; at = i; } } CHECK("residual-history", w == 0, "iteration %zu of %zu: |R| is reported as %.6Lg instead of %.6Lg", at + 1, done, std::sqrt((LD)sr[at]), rR[at]);
            if (done && !clamp) { LV af = BE ? LV((v - v0) / h) : LV(LV::Zero(n)); LD Ra = nrm(rhs(x, af)), Rr = std::sqrt((LD)sr.back()); CHECK("last-residual-is-the-residual", std::fabs(Ra - Rr) <= 1e-6L * Ra + tol, "|R| at the final configuration is %.6Lg, reported %.6Lg", Ra, Rr); } }
        // convergence: one of the criteria, and the iterations stop at the first one met
        if (!clamp) {
            auto met = [&](size_t i, LD slack, bool lax) { LD ref = lax ? std::max(R0, rR[0]) : std::min(R0, rR[0]); bool q = false; LD Ri = its == 1 && !LEGACY ? R0 : rR[i]; LD t_ = lax ? tol : -tol; LD dt_ = (lax ? 1 : -1) * (cg ? 1e-8L : 1e-10L) * (nrm(x0) + rU[i] + 1); if (corr > 0 && rdx[i] < corr * rU[i] * slack + dt_) q = true; if (rel > 0 && Ri < rel * ref * slack + t_) q = true; if (abs_ > 0 && Ri < abs_ * slack + t_) q = true; return q; };
            if (done == 0) { if (conv) { bool ok = LEGACY ? rel > 0 && R0 * R0 <= rel * (1 + 1e-9L) + 1e-20L : abs_ > 0 && R0 <= abs_ * (1 + 1e-9L) + 1e-12L * fs; CHECK("no-iteration-only-at-equilibrium", ok, "no iteration although |R0| = %.3Lg", R0); mon::observe("already-at-equilibrium"); } else CHECK("iterates-until-converged", false, "no iteration, not converged"); }
            else { bool tiny = rU[done - 1] < 1e-9L || (cg && done == 1 && R0 < 1e-9L); if (conv) CHECK("converged-means-criterion", met(done - 1, 1 + 1e-6L, true), "reported as converged after %zu iterations with |R| = %.3Lg, |R0| = %.3Lg, |R1| = %.3Lg, |dx|/|U| = %.3Lg", done, rR[done - 1], R0, rR[0], rdx[done - 1] / rU[done - 1]); else if (!tiny) { CHECK("iterates-until-converged", done == its, "stopped after %zu of %u iterations without having converged", done, its); CHECK("criterion-means-converged", !met(done - 1, 1 - 1e-6L, false), "not reported as converged after %zu iterations although |R| = %.3Lg, |R0| = %.3Lg, |R1| = %.3Lg, |dx|/|U| = %.3Lg", done, rR[done - 1], R0, rR[0], rdx[done - 1] / rU[done - 1]); }
                for (size_t i = 0; i + 1 < done; ++i) if (met(i, 1 - 1e-6L, false)) { CHECK("stops-when-converged", false, "iteration %zu of %zu already satisfied a criterion", i + 1, done); break; }
                mon::observe(conv ? linear ? "converged:linear" : "converged:cubic" : "not-converged"); mon::observe("newton-iterations", done); if (linear && !cg && its > 1 && !tiny) CHECK("linear-in-one-iteration", rR[0] <= tol, "reference"); }
            if (linear && done && !cg && !clamp) { LV af = BE ? LV((v - v0) / h) : LV(LV::Zero(n)); LD Ra = nrm(rhs(x, af)); CHECK("linear-problem-solved", Ra <= tol, "the discrete equation of a linear problem has a residual of %.3Lg after %zu iterations (force scale %.3Lg)", Ra, done, fs); }
        }
        hh = mon::mix(hh, mon::hash_d((double)x[0]) + done); if (clamp || nrm(x) > 50) { x = rvec(r, n, 1); v = LV::Zero(n); scatter(0, x); scatter(1, v); }
    }
    mon::distinct(hh);
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(4000, 200000); for (uint64_t t = 0; t < K; ++t) { Rng r; if (mon::begin(NAMES[KIND], t, r)) scene(r, t); }
    return mon::finish();
}
