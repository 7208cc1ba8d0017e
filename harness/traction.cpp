// P26: the traction force field, over histories of time steps, resets and force evaluations. ELEM selects the element type.
#include "display.h"
#include "sofa.h"
#include <SofaCaribou/Topology/CaribouTopology.h>
#if ELEM < 4
#include <SofaCaribou/Forcefield/TractionForcefield[Quad].h>
#include <SofaCaribou/Topology/CaribouTopology[Quad].h>
#else
#include <SofaCaribou/Forcefield/TractionForcefield[Triangle].h>
#include <SofaCaribou/Topology/CaribouTopology[Triangle].h>
#endif
using namespace caribou; using namespace caribou::geometry;
#if ELEM == 0
using E = Quad<_2D, Linear>;
#elif ELEM == 1
using E = Quad<_2D, Quadratic>;
#elif ELEM == 2
using E = Quad<_3D, Linear>;
#elif ELEM == 3
using E = Quad<_3D, Quadratic>;
#elif ELEM == 4
using E = Triangle<_2D, Linear>;
#elif ELEM == 5
using E = Triangle<_2D, Quadratic>;
#elif ELEM == 6
using E = Triangle<_3D, Linear>;
#else
using E = Triangle<_3D, Quadratic>;
#endif
constexpr int N = NN<E>, D = WD<E>;
using DT = sofa::defaulttype::StdVecTypes<D>; using VC = DT::VecCoord; using DV = DT::Deriv; using MO = sofa::component::container::MechanicalObject<DT>;
using FF = SofaCaribou::forcefield::TractionForcefield<E>; using Topo = SofaCaribou::topology::CaribouTopology<E>;
using ElIdx = sofa::type::vector<sofa::type::fixed_array<sofa::Index, N>>;
static VC tovec(const std::vector<V3> &x) { VC r(x.size()); for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < D; ++d) r[i][d] = (double)x[i][d]; return r; }

static void scene(Rng &r, uint64_t t) {
    GMesh<E> m = make_mesh<E>(r); std::vector<int> kept; for (size_t i = 0; i < m.conn.size(); ++i) if (!m.removed[i]) kept.push_back((int)i);
    bool curved = N > R<E>().ncorner && r.flip(0.5);
    if (curved) { std::set<int> done; for (auto &c : m.conn) for (int i = R<E>().ncorner; i < N; ++i) if (done.insert(c[i]).second) for (int d = 0; d < D; ++d) m.X[c[i]][d] += 0.02L * m.h * 0.3L * r.uni(-1, 1); for (auto &x : m.X) x = rnd(x); mon::observe("rest:curved"); }
    bool bent = D == 3 && r.flip(); if (bent) { for (auto &x : m.X) { for (int d = 0; d < 3; ++d) x[d] += 0.05L * m.h * r.uni(-1, 1); x = rnd(x); } mon::observe("rest:not-planar"); }
    // the user may number the element in the other sense: the load of a traction does not depend on it
    if (r.flip(0.3)) for (int e : kept) if (r.flip()) { auto &c = m.conn[e]; int nc = R<E>().ncorner; std::reverse(c.begin() + 1, c.begin() + nc); if (N > nc) std::reverse(c.begin() + nc, c.end()); mon::observe("element:reversed"); }
    const size_t n = m.X.size();
    // reference: the weight of each node, i.e. the integral of its shape function over the rest surface
    std::vector<LD> W(n, 0); LD area = 0; const Ref &q = R<E>();
    for (int e : kept) {
        std::vector<V3> X; for (int i : m.conn[e]) X.push_back(m.X[i]);
        for (const auto &g : build_from_nodes<E>(X).gauss_nodes()) {
            V3 xi = from(g.position, 2); auto dL = q.dL(xi); auto L = q.L(xi); V3 a{0,0,0}, b{0,0,0}; for (int i = 0; i < N; ++i) { a = a + dL[i][0] * X[i]; b = b + dL[i][1] * X[i]; }
            V3 c = cross(a, b); LD w = std::sqrt(dot(c, c)) * (LD)g.weight; area += w; for (int i = 0; i < N; ++i) W[m.conn[e][i]] += w * L[i];
        }
    }
    LD exact = 0; bool simple = q.simplex && !curved && !(bent && N > q.ncorner); if (simple) for (int e : kept) { V3 c = cross(m.X[m.conn[e][1]] - m.X[m.conn[e][0]], m.X[m.conn[e][2]] - m.X[m.conn[e][0]]); exact += 0.5L * std::sqrt(dot(c, c)); }
    sptr<sofa::simulation::Node> root(new sofa::simulation::Node()); auto *node = root->createChild("mechanics"); auto *mo = new MO(); mo->setName("mo"); node->addObject(mo);
    auto anywhere = [&] { auto x = m.X; LD s = m.h * r.uni(0, 2); for (auto &v : x) { for (int d = 0; d < D; ++d) v[d] += s * r.uni(-1, 1); v = rnd(v); } return x; };
    bool moved = r.flip(0.4); mo->setup(tovec(m.X), tovec(moved ? anywhere() : m.X)); mon::observe(moved ? "init:deformed" : "init:at-rest");
    ElIdx idx(kept.size()); for (size_t k = 0; k < kept.size(); ++k) for (int i = 0; i < N; ++i) idx[k][i] = (sofa::Index)m.conn[kept[k]][i];
    int via = (int)r.irange(0, 2); if (N > q.ncorner) via = 1 + via % 2; sofa::core::objectmodel::BaseObject *to = nullptr;
    if (via == 0) {
#if ELEM == 0 || ELEM == 2
        auto *c = new sofa::component::topology::QuadSetTopologyContainer(); c->d_quads.setValue(idx); to = c;
#elif ELEM == 4 || ELEM == 6
        auto *c = new sofa::component::topology::TriangleSetTopologyContainer(); c->d_tri.setValue(idx); to = c;
#endif
    } else { auto *c = new Topo(); set_data<ElIdx>(c, "indices", idx); if (via == 2) set_data<VC>(c, "position", tovec(m.X)); to = c; }
    static const char *vn[] = {"topology:sofa", "topology:caribou", "topology:caribou-own-positions"}; mon::observe(vn[via]);
    to->setName("topo"); node->addObject(to); if (via) to->init();
    auto *ff = new FF(); ff->setName("ff"); node->addObject(ff); if (r.flip(0.3)) set_link(ff, "topology", to);
    DV p; double mag = r.logu(1e-3, 1e5); for (int d = 0; d < D; ++d) p[d] = r.flip(0.2) ? 0 : r.uni(-1, 1) * mag; bool zero = r.flip(0.05); if (zero) p = DV(); set_data<DV>(ff, "traction", p);
    double slope = r.flip(0.3) ? 0 : r.flip(0.2) ? 1. / r.irange(1, 8) : r.flip(0.1) ? r.uni(1, 3) : r.uni(0.02, 1); unsigned every = (unsigned)(r.flip(0.4) ? 1 : r.irange(0, 5));
    set_data<double>(ff, "slope", slope); set_data<unsigned>(ff, "number_of_steps_before_increment", every);
    std::string head = fmt("%s elements=%zu nodes=%zu slope=%.4g every=%u via=%d moved=%d |p|=%.3g area=%.3Lg", Info<E>::name, kept.size(), n, slope, every, via, (int)moved, p.norm(), area);
    mon::describe("%s", head.c_str()); mon::sample(3);
    if (r.flip(0.2)) { ff->f_printLog.setValue(true); mon::observe("print-log"); } ff->init();
    CHECK("all-elements", ff->number_of_elements() == kept.size(), "%zu elements instead of %zu", ff->number_of_elements(), kept.size()); if (ff->number_of_elements() != kept.size()) return;
    LD a2 = 0; for (size_t k = 0; k < kept.size(); ++k) for (const auto &g : ff->gauss_nodes_of(k)) a2 += (LD)g.weight * g.jacobian_determinant;
    LD off = maxabs(m.X[m.conn[kept[0]][0]]) / m.h + 5;
    CHECK("rest-area", std::fabs(a2 - area) <= 1e-12L * off * area * 10, "the quadrature sums to %.12Lg, the rest area is %.12Lg", a2, area);
    if (simple) CHECK("exact-area", std::fabs(a2 - exact) <= 1e-12L * off * area * 10, "the quadrature sums to %.12Lg, the rest area is %.12Lg", a2, exact);
    long k = 0, waited = 0; bool started = false; LD level = slope == 0 ? 1 : 0; uint64_t hist = mon::mix(t, every);
    auto verify = [&](const char *when) {
        LD pn = p.norm(), tol = (1e-12L * off * 30) * (pn * area) + 1e-300L, worst = 0; size_t wi = 0; const VC &nf = get_data<VC>(ff, "nodal_forces");
        CHECK("one-force-per-node", nf.size() == n, "%s: %zu nodal forces for %zu nodes", when, nf.size(), n); if (nf.size() != n) return;
        LD sum[3] = {0,0,0}; for (size_t i = 0; i < n; ++i) for (int d = 0; d < D; ++d) { sum[d] += nf[i][d]; LD e = std::fabs((LD)nf[i][d] - level * p[d] * W[i]); if (!(e <= worst)) { worst = e; wi = i; } }
        CHECK("nodal-forces-are-load-integral", worst <= tol, "%s: force of node %zu wrong by %.3Lg (tolerance %.3Lg, load level %.4Lg)", when, wi, worst, tol, level);
        for (int d = 0; d < D; ++d) CHECK("resultant", std::fabs(sum[d] - level * p[d] * area) <= tol * 3, "%s: resultant %.12Lg instead of %.12Lg", when, sum[d], level * p[d] * area);
        LD tl = get_data<double>(ff, "total_load"); CHECK("total-load", std::fabs(tl - level * pn * area) <= tol * 3, "%s: total load %.12Lg instead of %.12Lg", when, tl, level * pn * area);
    };
    verify("after init"); int ops = (int)r.irange(4, 30); int nreset = 0;
    for (int o = 0; o < ops; ++o) {
        if (r.flip(0.02)) { auto y = anywhere(); mo->write(sc::VecCoordId::position())->setValue(tovec(y)); mon::describe("%s step=%d display", head.c_str(), o); check_display<E>(r, ff, m.conn, kept, y, m.h, true); }
        int op = (int)r.irange(0, 9); mon::describe("%s step=%d op=%d", head.c_str(), o, op); hist = mon::mix(hist, op < 5 ? 0 : op);
        if (op < 5) {            // a time step begins
            if (r.flip()) { sofa::simulation::AnimateBeginEvent ev; ff->handleEvent(&ev); } else { sofa::simulation::AnimateBeginEvent ev; sofa::core::objectmodel::BaseObject *b = ff; b->handleEvent(&ev); }
            if (slope != 0 && level < 1 && !zero) { ++waited; if (!started || waited >= (long)every) { started = true; waited = 0; ++k; level = std::min((LD)1, k * (LD)slope); if (level > 1 - 1e-12L) level = 1; mon::observe(level >= 1 ? "load:reached" : "load:incremented"); } else mon::observe("load:waiting"); }
            else mon::observe(slope == 0 ? "load:constant" : "load:already-reached");
            verify("after a time step");
        } else if (op == 5) {    // other events
            sofa::simulation::AnimateEndEvent ev; ff->handleEvent(&ev); mon::observe("event:other"); verify("after another event");
        } else if (op <= 7) {    // forces at any position
            auto y = anywhere(); mo->write(sc::VecCoordId::position())->setValue(tovec(y)); sofa::core::MechanicalParams mp; auto fid = r.flip(0.3) ? sc::VecDerivId(20u) : sc::VecDerivId::force(); VC f0(n); for (auto &v : f0) for (int d = 0; d < D; ++d) v[d] = r.flip() ? 0 : r.uni(-1, 1) * mag * (double)area; mo->write(fid)->setValue(f0);
            sofa::core::behavior::BaseForceField *b = ff; b->addForce(&mp, fid); const VC &f1 = mo->read(fid)->getValue(); LD worst = 0; for (size_t i = 0; i < n; ++i) for (int d = 0; d < D; ++d) { LD e = std::fabs((LD)f1[i][d] - f0[i][d] - level * p[d] * W[i]); if (!(e <= worst)) worst = e; }
            CHECK("force-added", worst <= 1e-12L * off * 30 * (mag * 2 * area), "the force added is wrong by %.3Lg (load level %.4Lg)", worst, level); mon::observe("force:moved"); verify("after addForce");
        } else if (op == 8) {    // no stiffness
            sofa::core::MechanicalParams mp; mp.setKFactor(1); VC u(n); for (auto &v : u) for (int d = 0; d < D; ++d) v[d] = r.uni(-1, 1); mo->write(sc::VecDerivId::dx())->setValue(u); mo->write(sc::VecDerivId::dforce())->setValue(u); sofa::core::behavior::BaseForceField *b = ff; b->addDForce(&mp, sc::VecDerivId::dforce());
            const VC &f1 = mo->read(sc::VecDerivId::dforce())->getValue(); CHECK("dead-load-has-no-stiffness", f1 == u, "the force differential of a dead load is not zero"); DenseRecorder mat((int)(D * n), (int)(D * n)); unsigned o2 = 0; ff->addKToMatrix(&mat, 1., o2); bool nz = false; for (double v : mat.a) nz |= v != 0; CHECK("dead-load-has-no-matrix", !nz, "a dead load assembles a stiffness"); mon::observe("no-stiffness");
        } else {                 // the simulation is reset
            ff->reset(); k = 0; waited = 0; started = false; level = slope == 0 ? 1 : 0; mon::observe(nreset++ ? "reset:again" : "reset:first"); verify("after reset");
        }
        mon::distinct(hist);
    }
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(500, 30000);
    for (uint64_t t = 0; t < K; ++t) { Rng r; if (!mon::begin(std::string(Info<E>::name), t, r)) continue; scene(r, t); }
    return mon::finish();
}
