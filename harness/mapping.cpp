// P28: the barycentric mapping between an embedding mesh and its mapped nodes. ELEM selects the element type.
#include "sofa.h"
#include <SofaCaribou/Topology/CaribouTopology.h>
#if ELEM < 2
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Hexahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
#else
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
#endif
using namespace caribou; using namespace caribou::geometry;
#if ELEM == 0
using E = Hexahedron<Linear>;
#elif ELEM == 1
using E = Hexahedron<Quadratic>;
#elif ELEM == 2
using E = Tetrahedron<Linear>;
#else
using E = Tetrahedron<Quadratic>;
#endif
constexpr int N = NN<E>;
using DT = sofa::defaulttype::Vec3Types; using VC = DT::VecCoord; using MD = DT::MatrixDeriv; using MO = sofa::component::container::MechanicalObject<DT>;
using Map_ = SofaCaribou::mapping::CaribouBarycentricMapping<E, DT>; using Topo = SofaCaribou::topology::CaribouTopology<E>;
using ElIdx = sofa::type::vector<sofa::type::fixed_array<sofa::Index, N>>;
static VC tovec(const std::vector<V3> &x) { VC r(x.size()); for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < 3; ++d) r[i][d] = (double)x[i][d]; return r; }
static bool same(const VC &a, const VC &b) { return a == b; }

static void scene(Rng &r, uint64_t t) {
    GMesh<E> m = make_mesh<E>(r); std::vector<int> kept; for (size_t i = 0; i < m.conn.size(); ++i) if (!m.removed[i]) kept.push_back((int)i);
    const Ref &rf = R<E>(); const size_t n = m.X.size(); auto &X0 = m.X;
    // mapped nodes
    size_t np = (size_t)r.irange(1, 20); std::vector<V3> P, XI; std::vector<int> owner; std::vector<char> side;
    for (size_t k = 0; k < np; ++k) {
        int e = kept[r.u64() % kept.size()]; V3 xi; bool s = m.affine && r.flip(0.3);
        if (s) { xi = r.flip() ? rf.nodes[r.u64() % rf.nodes.size()] : rnd(gen_xi<E>(r, 6)); if (rf.margin(xi) < 0) xi = rf.nodes[0]; }
        else { LD mg = -1; for (int a = 0; a < 200 && mg <= (m.affine ? 1e-6L : 1e-2L); ++a) { xi = rnd(gen_xi<E>(r, 5)); mg = rf.margin(xi); } if (mg <= (m.affine ? 1e-6L : 1e-2L)) { xi = {0,0,0}; if (rf.simplex) xi = {0.25L, 0.25L, 0.25L}; } }
        P.push_back(rnd(world(m, e, xi))); XI.push_back(xi); owner.push_back(e); side.push_back(s); mon::observe(s ? "mapped:on-side-or-node" : "mapped:inside");
    }
    bool outside = r.flip(0.12); size_t outs = 0; if (outside) for (size_t k = 0; k < np; ++k) if (k == 0 || r.flip(0.3)) { V3 l{0,0,0}; for (int d = 0; d < 3; ++d) l[d] = r.uni(0, m.n[d]); int d = (int)r.irange(0, 2); l[d] = r.flip() ? -r.logu(0.35, 30) : m.n[d] + r.logu(0.35, 30); P[k] = rnd(m.off + mul(m.A, l)); ++outs; }
    if (outside) for (size_t k = np; k > 1; --k) { size_t j = r.u64() % k; std::swap(P[k-1], P[j]); std::swap(XI[k-1], XI[j]); std::swap(owner[k-1], owner[j]); std::swap(side[k-1], side[j]); }
    auto anywhere = [&] { auto x = X0; LD s = m.h * r.uni(0, 2); for (auto &v : x) { for (int d = 0; d < 3; ++d) v[d] += s * r.uni(-1, 1); v = rnd(v); } return x; };
    sptr<sofa::simulation::Node> root(new sofa::simulation::Node()); auto *node = root->createChild("mechanics"); auto *mo = new MO(); mo->setName("mo"); node->addObject(mo);
    bool moved = r.flip(0.4); auto x = moved ? anywhere() : X0; mo->setup(tovec(X0), tovec(x)); mon::observe(moved ? "init:deformed" : "init:at-rest"); { VC v0(n); for (auto &v : v0) for (int d = 0; d < 3; ++d) v[d] = r.uni(-1, 1); mo->write(sc::VecDerivId::velocity())->setValue(v0); }
    ElIdx idx(kept.size()); for (size_t k = 0; k < kept.size(); ++k) for (int i = 0; i < N; ++i) idx[k][i] = (sofa::Index)m.conn[kept[k]][i];
    auto *kid = node->createChild("mapped"); auto *mo2 = new MO(); mo2->setName("mapped_mo"); kid->addObject(mo2);
    bool norest = r.flip(0.4), elsewhere = !norest && r.flip(0.4); auto start = P; if (elsewhere) for (auto &v : start) { for (int d = 0; d < 3; ++d) v[d] += m.h * r.uni(-3, 3); v = rnd(v); }
    mo2->setup(norest ? VC() : tovec(P), tovec(start)); mo2->n = (unsigned)np; mo2->write(sc::VecDerivId::velocity())->setValue(VC(np)); mon::observe(norest ? "mapped-rest:from-positions" : elsewhere ? "mapped-rest:given-other-positions" : "mapped-rest:given");
    auto *to = new Topo(); set_data<ElIdx>(to, "indices", idx); bool own = r.flip(0.4); if (own) set_data<VC>(to, "position", tovec(X0)); to->setName("topo"); bool here = own && r.flip(0.2); (here ? kid : node)->addObject(to); to->init(); mon::observe(here ? "topology:in-the-mapped-node" : "topology:in-the-parent-node");
    auto *map = new Map_(); map->setName("map"); kid->addObject(map); map->setModels(mo, mo2); if (r.flip(0.3)) { set_link(map, "topology", to); mon::observe("topology:linked"); }
    std::string head = fmt("%s elements=%zu/%zu nodes=%zu mapped=%zu outside=%zu moved=%d norest=%d own=%d scale=%.3Lg affine=%d", Info<E>::name, kept.size(), m.conn.size(), n, np, outs, (int)moved, (int)norest, (int)own, m.h, (int)m.affine); mon::describe("%s", head.c_str()); mon::sample(2);
    sofa::shim::log().clear(); if (r.flip(0.2)) { map->f_printLog.setValue(true); mon::observe("print-log"); } map->init(); unsigned errs = sofa::shim::count(2); sofa::core::BaseMapping *b = map; sofa::core::MechanicalParams mp;
    auto setx = [&](sc::VecCoordId id, const std::vector<V3> &y) { mo->write(id)->setValue(tovec(y)); };
    auto randv = [&](size_t k, double s) { VC v(k); for (auto &a : v) for (int d = 0; d < 3; ++d) a[d] = r.flip(0.2) ? 0 : r.uni(-s, s); return v; };
    if (outside) {
        CHECK("outside-is-an-error", errs > 0, "%zu mapped nodes are outside of the mesh and no error was reported", outs); mon::observe("outside");
        VC y0 = mo2->read(sc::ConstVecCoordId::position())->getValue(); CHECK("outside-leaves-mapped", same(y0, tovec(start)), "positions of the mapped nodes were changed although some are outside");
        setx(sc::VecCoordId::position(), anywhere()); b->apply(&mp, sc::VecCoordId::position(), sc::ConstVecCoordId::position()); CHECK("outside-leaves-mapped", same(mo2->read(sc::ConstVecCoordId::position())->getValue(), y0), "positions of the mapped nodes were changed although some are outside");
        VC f = randv(np, 1), g = randv(n, 1); mo2->write(sc::VecDerivId::force())->setValue(f); mo->write(sc::VecDerivId::force())->setValue(g); b->applyJT(&mp, sc::VecDerivId::force(), sc::ConstVecDerivId::force()); CHECK("outside-leaves-forces", same(mo->read(sc::ConstVecDerivId::force())->getValue(), g), "forces were mapped although some nodes are outside"); return;
    }
    CHECK("no-error", errs == 0, "an error was reported although every mapped node lies in the mesh"); if (errs) { return; }
    // the weights actually used, from unit velocities
    std::vector<std::vector<LD>> W(np, std::vector<LD>(n, 0)); bool cross_ = false;
    for (size_t i = 0; i < n; i += 3) { VC v(n); for (int d = 0; d < 3; ++d) if (i + d < n) v[i + d][d] = 1; mo->write(sc::VecDerivId::velocity())->setValue(v); mo2->write(sc::VecDerivId::velocity())->setValue(randv(np, 1)); b->applyJ(&mp, sc::VecDerivId::velocity(), sc::ConstVecDerivId::velocity()); const VC &w = mo2->read(sc::ConstVecDerivId::velocity())->getValue(); for (size_t k = 0; k < np; ++k) for (int d = 0; d < 3; ++d) { if (i + d < n) W[k][i + d] = w[k][d]; else cross_ |= w[k][d] != 0; } }
    CHECK("components-do-not-mix", !cross_, "a velocity along one axis moves a mapped node along another one");
    for (size_t k = 0; k < np; ++k) {
        LD s = 0; for (LD v : W[k]) s += v; CHECK("partition-of-unity", std::fabs(s - 1) <= 1e-11L, "node %zu: weights sum to %.17Lg", k, s);
        bool onel = false; for (int e : kept) { bool in = true; for (size_t i = 0; i < n && in; ++i) if (std::fabs(W[k][i]) > 1e-9L && std::find(m.conn[e].begin(), m.conn[e].end(), (int)i) == m.conn[e].end()) in = false; onel |= in; } CHECK("one-element", onel, "node %zu depends on nodes which are not those of an element", k);
        auto L = rf.L(XI[k]); LD worst = 0; std::vector<LD> ref(n, 0); for (int i = 0; i < N; ++i) ref[m.conn[owner[k]][i]] = L[i]; for (size_t i = 0; i < n; ++i) worst = std::max(worst, std::fabs(W[k][i] - ref[i])); CHECK("weights-are-shape-functions", worst <= (m.affine ? 1e-7L : 1e-2L), "node %zu: a weight is off by %.3Lg", k, worst);
        V3 q{0,0,0}; for (size_t i = 0; i < n; ++i) q = q + W[k][i] * X0[i]; CHECK("rest-maps-to-rest", maxabs(q - P[k]) <= (m.affine ? 1e-9L : 1e-3L) * m.h + 1e-12L * maxabs(P[k]), "node %zu: the rest shape maps it %.3Lg away from its rest position", k, maxabs(q - P[k]));
        mon::distinct(hash_xi<E>(P[k], mon::mix(t, N)));
    }
    auto ref_apply = [&](const VC &v, size_t k, int d) { LD s = 0; for (size_t i = 0; i < n; ++i) s += W[k][i] * v[i][d]; return s; };
    auto big = [&](const VC &v) { LD s = 0; for (auto &a : v) for (int d = 0; d < 3; ++d) s = std::max(s, (LD)std::fabs(a[d])); return s; };
    auto check_apply = [&](const VC &in, const VC &out, const char *mn, const char *what) { CHECK("mapped-size", out.size() == np, "%zu mapped values for %zu nodes", out.size(), np); if (out.size() != np) return; LD w = 0; for (size_t k = 0; k < np; ++k) for (int d = 0; d < 3; ++d) { LD e = std::fabs((LD)out[k][d] - ref_apply(in, k, d)); if (!(e <= w)) w = e; } CHECK(mn, w <= 1e-12L * N * (big(in) + 1e-30L), "%s wrong by %.3Lg", what, w); };
    check_apply(tovec(x), mo2->read(sc::ConstVecCoordId::position())->getValue(), "initial-positions-mapped", "the mapped positions after init are");
    int ops = (int)r.irange(3, 12);
    for (int o = 0; o < ops; ++o) {
        int op = (int)r.irange(0, 4); mon::describe("%s step=%d op=%d", head.c_str(), o, op);
        if (op == 0) { bool fr = r.flip(0.3); auto id = fr ? sc::VecCoordId::freePosition() : sc::VecCoordId::position(); auto y = anywhere(); setx(id, y); mo2->write(id)->setValue(randv(np, 1)); b->apply(&mp, id, sc::ConstVecCoordId(id)); check_apply(tovec(y), mo2->read(sc::ConstVecCoordId(id))->getValue(), "positions-mapped", "mapped positions are"); mon::observe(fr ? "apply:free-position" : "apply:position"); }
        else if (op == 1) { VC v = randv(n, 5); auto id = r.flip(0.3) ? sc::VecDerivId::dx() : sc::VecDerivId::velocity(); mo->write(id)->setValue(v); mo2->write(id)->setValue(randv(np, 1)); b->applyJ(&mp, id, sc::ConstVecDerivId(id)); check_apply(v, mo2->read(sc::ConstVecDerivId(id))->getValue(), "velocities-mapped", "mapped velocities are"); mon::observe("applyJ"); }
        else if (op == 2 || op == 3) {
            VC f = randv(np, 3), g = randv(n, 3); auto id = sc::VecDerivId::force(); mo2->write(id)->setValue(f); mo->write(id)->setValue(g); b->applyJT(&mp, id, sc::ConstVecDerivId(id)); const VC &g1 = mo->read(sc::ConstVecDerivId(id))->getValue(); LD w = 0; for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) { LD s = g[i][d]; for (size_t k = 0; k < np; ++k) s += W[k][i] * f[k][d]; LD e = std::fabs(s - g1[i][d]); if (!(e <= w)) w = e; }
            CHECK("forces-are-the-transpose", w <= 1e-12L * np * 10, "the force on the embedding nodes is wrong by %.3Lg", w); CHECK("mapped-forces-unchanged", same(mo2->read(sc::ConstVecDerivId(id))->getValue(), f), "the mapped forces changed"); mon::observe("applyJT");
        } else {
            MD in, out; std::map<std::pair<unsigned, unsigned>, std::array<LD, 3>> ref; int rows = (int)r.irange(0, 4);
            for (int a = 0; a < rows; ++a) { unsigned row = (unsigned)r.irange(0, 20); auto line = in.writeLine(row); int cols = (int)r.irange(0, 4); for (int c = 0; c < cols; ++c) { unsigned col = (unsigned)(r.u64() % np); DT::Deriv v; for (int d = 0; d < 3; ++d) v[d] = r.uni(-1, 1); line.addCol(col, v); for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) ref[{row, (unsigned)i}][d] += W[col][i] * v[d]; } }
            if (r.flip()) { unsigned row = (unsigned)r.irange(0, 20), col = (unsigned)(r.u64() % n); DT::Deriv v(1., 2., 3.); out.writeLine(row).addCol(col, v); for (int d = 0; d < 3; ++d) ref[{row, col}][d] += v[d]; mon::observe("constraint:accumulates"); }
            mo2->write(sc::MatrixDerivId(1u))->setValue(in); mo->write(sc::MatrixDerivId(1u))->setValue(out); sofa::core::ConstraintParams cp; map->applyJT(&cp, *mo->write(sc::MatrixDerivId(1u)), *mo2->read(sc::ConstMatrixDerivId(1u)));
            const MD &res = mo->read(sc::ConstMatrixDerivId(1u))->getValue(); LD w = 0; bool known = true; for (auto &row : res.m) for (auto &c : row.second) { auto it = ref.find({row.first, c.first}); for (int d = 0; d < 3; ++d) { LD e = std::fabs((LD)c.second[d] - (it == ref.end() ? 0 : it->second[d])); if (!(e <= w)) w = e; } if (c.first >= n) known = false; if (it != ref.end()) ref.erase(it); } for (auto &q : ref) for (int d = 0; d < 3; ++d) w = std::max(w, std::fabs(q.second[d]));
            CHECK("constraints-are-the-transpose", w <= 1e-10L && known, "the constraint matrix of the embedding nodes is wrong by %.3Lg", w); mon::observe(rows ? "constraint:rows" : "constraint:empty");
        }
    }
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(N == 20 ? 250 : N == 10 ? 350 : 500, N == 20 ? 6000 : 20000);
    for (uint64_t t = 0; t < K; ++t) { Rng r; if (!mon::begin(std::string(Info<E>::name), t, r)) continue; scene(r, t); }
    return mon::finish();
}
