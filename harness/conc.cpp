// Concurrent read-only use (P23), under ThreadSanitizer. Every round is a fresh forked process, so that the very
// first use of every function-local table happens inside the concurrent phase. Threads run the same operations on the
// same shared objects in different orders with injected delays; the digests are compared with a sequential execution
// made afterwards in the same process.
#include "ref.h"
#include <Caribou/Topology/Grid/Grid.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Topology/HashGrid.h>
#include <Caribou/Topology/BarycentricContainer.h>
#include <Caribou/Mechanics/Elasticity/Strain.h>
#include <Caribou/Algebra/Tensor.h>
#include <thread>
#include <atomic>
#include <functional>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sched.h>
using namespace caribou; using namespace caribou::topology;

struct Out { std::vector<double> v; void operator()(double x) { v.push_back(x); } template <class Mx> void mat(const Mx &m) { for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) v.push_back((double)m(i, j)); } };
struct Op { std::string name; std::function<void(Out &)> f; };
struct World { std::vector<Op> ops; std::vector<std::shared_ptr<void>> keep;
    void op(const std::string &n, std::function<void(Out &)> f) { ops.push_back({n, std::move(f)}); }
    template <class T> T &own(std::shared_ptr<T> p) { keep.push_back(p); return *p; } };

template <class E> void element_ops(World &w, Rng &r) {
    std::string nm = Info<E>::name; constexpr int C = CD<E>, N = NN<E>, D = WD<E>;
    auto c = make_case<E>(r, {0.1, 10, 5, 0.2, 0.05, -1});
    const E &e = w.own(std::make_shared<E>(c.e));
    for (int k = 0; k < 2; ++k) {
        const auto xi = to_local<E>(gen_inside<E>(r)); const auto x = to_world<E>(c.world(gen_inside<E>(r)));
        Eigen::Matrix<double, N, 1> vs; Eigen::Matrix<double, N, 3> vv; for (int i = 0; i < N; ++i) { vs[i] = r.uni(-1, 1); for (int j = 0; j < 3; ++j) vv(i, j) = r.uni(-1, 1); }
        w.op(nm + ".L", [&e, xi](Out &o) { o.mat(e.L(xi)); });
        w.op(nm + ".dL", [&e, xi](Out &o) { o.mat(e.dL(xi)); });
        w.op(nm + ".jacobian", [&e, xi](Out &o) { o.mat(e.jacobian(xi)); });
        w.op(nm + ".world_coordinates", [&e, xi](Out &o) { o.mat(e.world_coordinates(xi)); });
        w.op(nm + ".local_coordinates", [&e, x](Out &o) { o.mat(e.local_coordinates(x)); });
        w.op(nm + ".local_coordinates(start)", [&e, x, xi](Out &o) { o.mat(static_cast<const cg::Element<E> &>(e).local_coordinates(x, xi, 1e-8, 20)); });
        w.op(nm + ".interpolate", [&e, xi, vs, vv](Out &o) { o(e.interpolate(xi, vs)); o.mat(e.interpolate(xi, vv)); });
        w.op(nm + ".contains_local", [&e, xi](Out &o) { o(e.contains_local(xi)); o(e.contains_local(xi, 0.1)); });
        if constexpr (D == 3 && C == 3) {
            typename E::WorldCoordinates t[3]; for (auto &p : t) for (int d = 0; d < 3; ++d) p[d] = c.X[0][d] + r.uni(-2, 2) * (double)c.size;
            cg::Segment<3, Linear> sg(t[0], t[1]); cg::Triangle<3, Linear> tr(t[0], t[1], t[2]);
            if constexpr (Info<E>::fam == HEX) w.op(nm + ".intersects", [&e, sg, tr](Out &o) { o(e.intersects(sg)); o(e.intersects(tr)); });
        }
        if constexpr (Info<E>::rect && C == 3) w.op(nm + ".contains", [&e, x](Out &o) { o(e.contains(x)); });
        if constexpr (C == D) w.op(nm + ".F", [&e, xi, r0 = r.u64()](Out &o) {
            namespace st = caribou::mechanics::elasticity::strain; Rng q(r0);
            st::Matrix<N, D> U; for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) U(i, d) = q.uni(-1, 1);
            const st::Matrix<D, D> Ji = e.jacobian(xi).inverse(); st::Matrix<N, D> dN = (Ji.transpose() * e.dL(xi).transpose()).transpose(); o.mat(st::F(dN, U)); });
    }
    w.op(nm + ".gauss_nodes", [&e](Out &o) { for (const auto &g : e.gauss_nodes()) { o.mat(g.position); o(g.weight); } o(e.number_of_gauss_nodes()); });
    w.op(nm + ".gauss_node", [&e](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < e.number_of_gauss_nodes(); ++i) o(e.gauss_node(i).weight); });
    w.op(nm + ".nodes", [&e](Out &o) { o.mat(e.nodes()); for (int i = 0; i < N; ++i) o.mat(e.node(i)); o(e.number_of_nodes()); });
    w.op(nm + ".center", [&e](Out &o) { o.mat(e.center()); });
    if constexpr (Info<E>::fam != SEG) {
        w.op(nm + ".boundary_tables", [&e](Out &o) { for (const auto &f : e.boundary_elements_node_indices()) for (auto i : f) o(i); o(e.number_of_boundary_elements()); });
        w.op(nm + ".boundary_element", [&e](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < e.number_of_boundary_elements(); ++i) o.mat(e.boundary_element(i).nodes()); });
        w.op(nm + ".edges", [&e](Out &o) { for (const auto &f : e.edges()) for (auto i : f) o(i); });
    }
    if constexpr (C == 3) w.op(nm + ".faces", [&e](Out &o) { for (const auto &f : e.faces()) for (auto i : f) o(i); });
    if constexpr (Info<E>::rect) w.op(nm + ".size_rotation", [&e](Out &o) { o.mat(e.size()); o.mat(e.rotation()); });
    else if constexpr (Info<E>::fam == QUAD || Info<E>::fam == HEX || Info<E>::fam == TET) w.op(nm + ".frame", [&e](Out &o) { o.mat(e.frame()); });
    if constexpr (Info<E>::fam == TRI && D == 3) w.op(nm + ".normal", [&e](Out &o) { o.mat(e.normal()); });
    w.op(nm + ".construct_default", [](Out &o) { E d{}; o.mat(d.nodes()); });
}

template <int D> void grid_ops(World &w, Rng &r) {
    using G = Grid<D>; std::string nm = fmt("Grid%dD", D);
    typename G::WorldCoordinates a; typename G::Subdivisions n; typename G::Dimensions s;
    for (int d = 0; d < D; ++d) { a[d] = r.uni(-2, 2); n[d] = r.irange(1, 5); s[d] = r.uni(0.5, 3); }
    const G &g = w.own(std::make_shared<G>(a, n, s));
    const auto &b = static_cast<const caribou::topology::internal::BaseGrid<D, G> &>(g);
    typename G::WorldCoordinates p, q; for (int d = 0; d < D; ++d) { p[d] = a[d] + s[d] * r.u01(); q[d] = a[d] + s[d] * r.u01(); }
    typename G::WorldCoordinates x = r.flip() ? p : typename G::WorldCoordinates(b.node(g.node_coordinates_at((typename G::NodeIndex)(r.u64() % g.number_of_nodes()))));
    w.op(nm + ".counts", [&g](Out &o) { o(g.number_of_cells()); o(g.number_of_nodes()); o.mat(g.N().template cast<double>()); o.mat(g.H()); o.mat(g.size()); o.mat(g.anchor_position()); });
    w.op(nm + ".cells", [&g](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < g.number_of_cells(); ++i) { o.mat(g.cell_at((typename G::CellIndex)i).nodes()); for (auto k : g.node_indices_of((typename G::CellIndex)i)) o(k); } });
    w.op(nm + ".nodes", [&g](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < g.number_of_nodes(); ++i) { o.mat(g.node((typename G::NodeIndex)i)); o(g.node_index_at(g.node_coordinates_at((typename G::NodeIndex)i))); } });
    w.op(nm + ".locate", [&g, p, x](Out &o) { o(g.contains(p)); o(g.cell_index_containing(p)); for (auto c : g.cells_around(x)) o(c); });
    w.op(nm + ".cells_enclosing", [&g, p, q](Out &o) { typename G::WorldCoordinates a1 = p, b1 = q; for (auto c : g.cells_enclosing(a1, b1)) o(c); });
    if constexpr (D > 1) w.op(nm + ".edges", [&g](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < g.number_of_edges(); ++i) for (auto k : g.edge((typename G::EdgeIndex)i)) o(k); });
    if constexpr (D > 2) w.op(nm + ".faces", [&g](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < g.number_of_faces(); ++i) for (auto k : g.face((typename G::FaceIndex)i)) o(k); });
}

// a lattice mesh of one element type, with a spatial hash and an embedding
template <class E> void topo_ops(World &w, Rng &r) {
    constexpr int D = WD<E>, C = CD<E>, N = NN<E>; const Ref &rf = R<E>(); std::string nm = fmt("Mesh<%s>", Info<E>::name);
    int n[3] = {1,1,1}; for (int d = 0; d < C; ++d) n[d] = (int)r.irange(2, 3);
    std::vector<V3> X; std::vector<std::vector<int>> conn; std::map<std::array<long,3>, int> idx;
    auto node = [&](const V3 &p) { std::array<long,3> k{std::lround((double)p[0]*4), std::lround((double)p[1]*4), std::lround((double)p[2]*4)}; auto f = idx.find(k); if (f == idx.end()) { f = idx.emplace(k, (int)X.size()).first; X.push_back(p); } return f->second; };
    for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
        std::vector<int> c; for (auto &q : rf.nodes) { V3 p{(LD)i, (LD)j, (LD)k}; for (int d = 0; d < C; ++d) p[d] += rf.simplex ? q[d] : (q[d] + 1) / 2; c.push_back(node(p)); } conn.push_back(c);
        if (rf.simplex && C == 2) { c.clear(); for (auto &q : rf.nodes) { V3 p{(LD)i + 1 - q[0], (LD)j + 1 - q[1], 0}; c.push_back(node(p)); } conn.push_back(c); }
    }
    using MeshT = Mesh<D>; using Pos = Eigen::Matrix<double, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>;
    Pos pos(X.size(), D); for (size_t i = 0; i < X.size(); ++i) for (int d = 0; d < D; ++d) pos(i, d) = (double)X[i][d];
    auto mp = std::make_shared<MeshT>(pos); w.keep.push_back(mp); const MeshT &m = *mp;
    using Dom = Domain<E, UNSIGNED_INTEGER_TYPE>;
    typename Dom::ElementsIndices ind(conn.size(), N); for (size_t e = 0; e < conn.size(); ++e) for (int k = 0; k < N; ++k) ind(e, k) = conn[e][k];
    const Dom *dom = mp->template add_domain<E, UNSIGNED_INTEGER_TYPE>(std::string("d"), ind); mp->template add_domain<E, UNSIGNED_INTEGER_TYPE>(std::string("other"), ind);
    auto point = [&] { V3 p{0,0,0}; for (int d = 0; d < C; ++d) p[d] = r.uni(-0.2, n[d] + 0.2); return to_world<E>(p); };
    Pos emb(9, D); for (int i = 0; i < 9; ++i) emb.row(i) = point().transpose();
    const auto &cont = w.own(std::make_shared<BarycentricContainer<Dom>>(dom, emb));
    auto hp = std::make_shared<HashGrid<E>>(r.uni(0.3, 1.5)); for (size_t e = 0; e < conn.size(); ++e) hp->add(dom->element(e), e); w.keep.push_back(hp); const HashGrid<E> &hash = *hp;
    Eigen::MatrixXd field(X.size(), 2); for (long i = 0; i < field.size(); ++i) field.data()[i] = r.uni(-1, 1);
    for (int k = 0; k < 3; ++k) {
        const auto p = point();
        w.op(nm + ".barycentric_point", [&cont, p](Out &o) { auto b = cont.barycentric_point(p); o((double)b.element_index); if (b.element_index >= 0) o.mat(b.local_coordinates); });
        w.op(nm + ".closest_elements", [&cont, p](Out &o) { for (auto &b : cont.closest_elements(p)) { o((double)b.element_index); o.mat(b.local_coordinates); } });
        w.op(nm + ".hash.get", [&hash, p](Out &o) { for (auto i : hash.get(p)) o((double)i); });
    }
    w.op(nm + ".container", [&cont](Out &o) { for (auto &b : cont.barycentric_points()) o((double)b.element_index); for (auto i : cont.outside_nodes()) o((double)i); });
    w.op(nm + ".interpolate", [&cont, field](Out &o) { Eigen::MatrixXd v = Eigen::MatrixXd::Zero(9, 2); cont.interpolate(field, v); o.mat(v); });
    w.op(nm + ".embed", [dom, emb](Out &o) { auto c2 = dom->embed(emb); for (auto &b : c2.barycentric_points()) o((double)b.element_index); });
    w.op(nm + ".nodes", [&m](Out &o) { o(m.dimension()); o(m.number_of_nodes()); for (UNSIGNED_INTEGER_TYPE i = 0; i < m.number_of_nodes(); ++i) { o.mat(m.node(i)); o.mat(m.position(i)); } });
    w.op(nm + ".positions", [&m, k = (int)X.size() - 1](Out &o) { std::vector<int> ids{k, 0, k / 2}; o.mat(m.positions(ids)); int a[2] = {0, k}; o.mat(m.positions(a)); });
    w.op(nm + ".domains", [&m](Out &o) { o(m.number_of_domains()); for (auto &d : m.domains()) { o(d.first.size()); o(d.second->number_of_elements()); } o(m.domain("d") == m.domain(0)); o(m.domain("absent") == nullptr); });
    w.op(nm + ".elements", [dom](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < dom->number_of_elements(); ++i) { o.mat(dom->element(i).nodes()); o.mat(dom->element_indices(i)); } o(dom->number_of_nodes_per_elements()); o(dom->canonical_dimension()); o(dom->mesh() != nullptr); });
    w.op(nm + ".element(positions)", [dom, pos](Out &o) { for (UNSIGNED_INTEGER_TYPE i = 0; i < dom->number_of_elements(); ++i) o.mat(dom->element(i, pos).nodes()); });
    w.op(nm + ".copy", [&m](Out &o) { MeshT c(m); o(c.number_of_nodes()); o(c.number_of_domains()); o.mat(c.position(c.number_of_nodes() - 1)); });
    w.op(nm + ".clone", [dom](Out &o) { std::unique_ptr<BaseDomain> c(dom->clone()); o(c->number_of_elements()); });
}
static void algebra_ops(World &w, Rng &r) {
    Eigen::Matrix3d a; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) a(i, j) = a(j, i) = r.uni(-1, 1);
    w.op("dyads", [a](Out &o) { o.mat(caribou::algebra::symmetric_dyad_1(a)); o.mat(caribou::algebra::symmetric_dyad_2(a)); });
}

static void build(World &w, Rng &r) {
#if GROUP == 0
    element_ops<cg::Segment<1,Linear>>(w, r); element_ops<cg::Segment<2,Linear>>(w, r); element_ops<cg::Segment<3,Linear>>(w, r); element_ops<cg::Segment<1,Quadratic>>(w, r); element_ops<cg::Segment<2,Quadratic>>(w, r); element_ops<cg::Segment<3,Quadratic>>(w, r);
    algebra_ops(w, r);
#elif GROUP == 1
    element_ops<cg::Triangle<2,Linear>>(w, r); element_ops<cg::Triangle<3,Linear>>(w, r); element_ops<cg::Triangle<2,Quadratic>>(w, r); element_ops<cg::Triangle<3,Quadratic>>(w, r);
#elif GROUP == 2
    element_ops<cg::Quad<2,Linear>>(w, r); element_ops<cg::Quad<3,Linear>>(w, r); element_ops<cg::Quad<2,Quadratic>>(w, r); element_ops<cg::Quad<3,Quadratic>>(w, r);
#elif GROUP == 3
    element_ops<cg::RectangularQuad<2,Linear>>(w, r); element_ops<cg::RectangularQuad<3,Linear>>(w, r); element_ops<cg::RectangularQuad<2,Quadratic>>(w, r); element_ops<cg::RectangularQuad<3,Quadratic>>(w, r);
#elif GROUP == 4
    element_ops<cg::Tetrahedron<Linear>>(w, r); element_ops<cg::Tetrahedron<Quadratic>>(w, r); element_ops<cg::Hexahedron<Linear>>(w, r); element_ops<cg::Hexahedron<Quadratic>>(w, r);
#elif GROUP == 5
    element_ops<cg::RectangularHexahedron<Linear>>(w, r); element_ops<cg::RectangularHexahedron<Quadratic>>(w, r); grid_ops<1>(w, r); grid_ops<2>(w, r); grid_ops<3>(w, r);
#elif GROUP == 6
    topo_ops<cg::Segment<1,Linear>>(w, r); topo_ops<cg::Triangle<2,Linear>>(w, r); topo_ops<cg::Quad<2,Linear>>(w, r); topo_ops<cg::Quad<2,Quadratic>>(w, r);
#elif GROUP == 7
    topo_ops<cg::Tetrahedron<Linear>>(w, r); topo_ops<cg::Hexahedron<Linear>>(w, r); topo_ops<cg::RectangularHexahedron<Linear>>(w, r);
#endif
}

struct Shared { std::atomic<uint64_t> ops, compared, mism, events, inter; char msg[2000]; };

static void round_(Shared *sh, Rng &r) {
    World w; build(w, r);
    size_t K = w.ops.size(); int T = (int)r.irange(3, 8); int mode = (int)r.irange(0, 2);
    std::vector<std::vector<size_t>> order(T); std::vector<uint64_t> seeds(T);
    for (int t = 0; t < T; ++t) {
        for (size_t i = 0; i < K; ++i) order[t].push_back(i);
        // mode 0: everybody in the same order (simultaneous first use); 1: shuffled; 2: rotated
        if (mode == 1) for (size_t i = K; i > 1; --i) std::swap(order[t][i-1], order[t][r.u64() % i]);
        if (mode == 2) std::rotate(order[t].begin(), order[t].begin() + (t * K) / T, order[t].end());
        seeds[t] = r.u64();
    }
    std::vector<std::vector<Out>> res(T, std::vector<Out>(K)), again(T, std::vector<Out>(K));
    std::vector<std::vector<uint64_t>> tick(T); std::atomic<uint64_t> ticket{0}; std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
        Rng q(seeds[t]); tick[t].reserve(2 * K);
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) sched_yield();
        for (int pass = 0; pass < 2; ++pass) for (size_t i : order[t]) {
            if (q.flip(0.1)) sched_yield(); else if (q.flip(0.1)) for (volatile int z = 0, e = (int)q.irange(0, 400); z < e; z = z + 1);
            tick[t].push_back(ticket.fetch_add(1, std::memory_order_relaxed));   // relaxed: orders nothing between the threads
            w.ops[i].f((pass ? again : res)[t][i]);
        }
    });
    for (auto &x : th) x.join();
    // sequential reference, afterwards
    for (size_t i = 0; i < K; ++i) {
        Out o; w.ops[i].f(o); 
        for (int t = 0; t < T; ++t) for (auto *rs : {&res, &again}) {
            sh->compared++; auto &g = (*rs)[t][i].v;
            if (g.size() != o.v.size() || (g.size() && std::memcmp(g.data(), o.v.data(), 8 * g.size()) != 0)) {
                bool same = g.size() == o.v.size(); if (same) for (size_t k = 0; k < g.size(); ++k) same &= g[k] == o.v[k] || (g[k] != g[k] && o.v[k] != o.v[k]);
                if (!same && sh->mism++ == 0) snprintf(sh->msg, sizeof sh->msg, "%s: thread %d of %d obtained a result different from the sequential execution (%zu / %zu values)", w.ops[i].name.c_str(), t, T, g.size(), o.v.size());
            }
        }
    }
    sh->ops += K; sh->events += ticket.load();
    std::vector<std::pair<uint64_t,int>> ev; for (int t = 0; t < T; ++t) for (auto k : tick[t]) ev.push_back({k, t}); std::sort(ev.begin(), ev.end());
    uint64_t h = 7; for (auto &e : ev) h = mon::mix(h, e.second); sh->inter = h;
}

int main(int argc, char **argv) {
    mon::init(argc, argv);
    M().case_limit = 280;
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t N = M().n(14, 400);
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin(fmt("round%d", GROUP), i, r)) continue;
        new (sh) Shared{}; 
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) { alarm(250); round_(sh, r); fflush(nullptr); _exit(0); }
        int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) { fprintf(stderr, "@@HARNESS fork failed\n"); return 3; }
        mon::describe("operations=%llu events=%llu", (unsigned long long)sh->ops.load(), (unsigned long long)sh->events.load());
        CHECK("round-completes", WIFEXITED(st) && WEXITSTATUS(st) == 0, "the round ended with status 0x%x", st);
        M().obs["result-comparisons"] += sh->compared.load();
        CHECK("sequential-results", sh->mism.load() == 0, "%llu mismatches, first: %s", (unsigned long long)sh->mism.load(), sh->msg);
        mon::observe("read-operations", sh->events.load()); mon::observe("first-use-rounds");
        mon::distinct(sh->inter.load()); mon::sample(3);
    }
    return mon::finish();
}
