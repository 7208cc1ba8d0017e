// Spatial hash (PROP=14) and embedding (PROP=15) monitors. GROUP selects the element types.
#include "ref.h"
#include "gmesh.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Topology/HashGrid.h>
#include <Caribou/Topology/BarycentricContainer.h>
using namespace caribou; using namespace caribou::topology;

// ------------------------------------------------------------------ P14
template <class E> static void hash_case(Rng &r, uint64_t t) {
    constexpr int D = WD<E>;
    bool exact = t % 2 == 0;            // dyadic geometry: query points exactly on cell boundaries
    double cell = exact ? std::ldexp(1.0, (int)r.irange(-3, 3)) * r.irange(1, 3) : r.logu(1e-3, 1e3);
    double q = cell / 16;               // lattice for dyadic coordinates
    int ne = (int)r.irange(1, 12);
    HashGrid<E> grid = r.flip() ? HashGrid<E>(cell) : HashGrid<E>(cell, (UNSIGNED_INTEGER_TYPE)r.irange(0, 40));
    struct Item { E e; std::vector<V3> X; double lo[3], hi[3]; uint64_t id; bool nudged = false; };
    std::vector<Item> items;
    const Ref &rf = R<E>();
    double far = r.flip(0.2) ? (r.flip() ? 1e5 : 3e9) : r.uni(0, 6);
    if (far > 1e6 && !exact) far = 1e5;
    V3 base{0,0,0}; for (int d = 0; d < D; ++d) base[d] = std::floor(r.uni(-far, far)) * cell;
    for (int i = 0; i < ne; ++i) {
        Item it; it.id = r.flip(0.1) ? ~0ull - r.u64() % 1000 : r.flip() ? i : r.u64() % 5000000000ull;
        double rel = r.logu(0.1, D == 3 ? 3 : 8); // element size in cells
        if constexpr (Info<E>::rect) {
            typename E::WorldCoordinates c; typename E::Size h;
            for (int d = 0; d < D; ++d) c[d] = exact ? (double)base[d] + q * r.irange(-48, 48) : (double)base[d] + cell * r.uni(-3, 3);
            for (int d = 0; d < CD<E>; ++d) h[d] = exact ? 2 * q * std::max(1.0, std::round(8 * rel * r.uni(0.3, 1))) : cell * rel * r.uni(0.3, 1);
            it.e = E(c, h);
            for (int n = 0; n < NN<E>; ++n) it.X.push_back(from(it.e.node(n), D));
        } else {
            for (int attempt = 0;; ++attempt) {
                it.X.clear();
                M3 A = random_rotation(r, D); for (auto &row : A) for (auto &x : row) x *= r.uni(0.5, 1.5) * cell * rel / 2;
                V3 o{0,0,0}; for (int d = 0; d < D; ++d) o[d] = base[d] + cell * r.uni(-3, 3);
                for (int n = 0; n < rf.ncorner; ++n) {
                    V3 x = o + mul(A, rf.nodes[n]); for (int d = D; d < 3; ++d) x[d] = 0;
                    if (exact) for (int d = 0; d < D; ++d) x[d] = std::round(x[d] / (2*q)) * 2 * q;
                    it.X.push_back(rnd(x));
                }
                for (size_t n = rf.ncorner; n < rf.nodes.size(); ++n) it.X.push_back(rnd(0.5L * (it.X[rf.mid[n][0]] + it.X[rf.mid[n][1]])));
                break;
            }
            it.e = build_from_nodes<E>(it.X);
        }
        if (exact && !Info<E>::rect && r.flip(0.3)) { // end within rounding of the cell planes
            for (auto &x : it.X) for (int d = 0; d < D; ++d) { double v = (double)x[d]; for (int k = (int)r.irange(0, 2); k > 0; --k) v = std::nextafter(v, r.flip() ? 1e300 : -1e300); x[d] = v; }
            it.e = build_from_nodes<E>(it.X); it.nudged = true;
        }
        for (int d = 0; d < D; ++d) { it.lo[d] = 1e300; it.hi[d] = -1e300; for (auto &x : it.X) { it.lo[d] = std::min(it.lo[d], (double)x[d]); it.hi[d] = std::max(it.hi[d], (double)x[d]); } }
        double cells = 1; for (int d = 0; d < D; ++d) cells *= (it.hi[d] - it.lo[d]) / cell + 2;
        if (cells > 20000) continue;
        items.push_back(it); grid.add(it.e, it.id);
        if (r.flip(0.05)) grid.add(it.e, it.id);
    }
    std::string head = fmt("%s %s cell=%.17g elements=%zu base=%s", Info<E>::name, exact ? "dyadic" : "general", cell, items.size(), str(base).c_str());
    auto query = [&](const V3 &p, const Item *owner, const char *cls) {
        typename HashGrid<E>::WorldCoordinates w; for (int d = 0; d < D; ++d) w[d] = (double)p[d];
        mon::describe("%s p=%s", head.c_str(), str(p).c_str());
        mon::distinct(hash_xi<E>(p, mon::mix(mon::hash_d(cell), t + (uint64_t)NN<E> * 1000003)));
        auto got = grid.get(w);
        int onp = 0; for (int d = 0; d < D; ++d) { double a = w[d] / cell; onp += a == std::floor(a); }
        mon::observe(fmt("%s-on-%d-cell-planes", cls, onp)); mon::observe(fmt("returned-%s", got.empty() ? "none" : got.size() == 1 ? "one" : "several"));
        bool neg = false; for (int d = 0; d < D; ++d) neg |= w[d] < 0; if (neg) mon::observe("negative-coordinates");
        if (owner) CHECK("never-misses", got.count(owner->id) == 1, "element data %llu (bounding box (%.17g,%.17g,%.17g)-(%.17g,%.17g,%.17g)) contains the point but is not returned", (unsigned long long)owner->id, owner->lo[0], D > 1 ? owner->lo[1] : 0, D > 2 ? owner->lo[2] : 0, owner->hi[0], D > 1 ? owner->hi[1] : 0, D > 2 ? owner->hi[2] : 0);
        for (auto id : got) {
            bool near = false, known = false;
            for (auto &it : items) if (it.id == id) {
                known = true; bool ok = true;
                for (int d = 0; d < D; ++d) { double dist = std::max({it.lo[d] - w[d], w[d] - it.hi[d], 0.0}); if (dist > cell * (1 + 1e-6) + 1e-9 * std::fabs(w[d])) ok = false; }
                near |= ok;
            }
            CHECK("only-stored", known, "returned data %llu was never stored", (unsigned long long)id);
            CHECK("only-near", near || !known, "returned element %llu lies further than a cell from the point", (unsigned long long)id);
        }
        auto again = grid.get(w); CHECK("repeatable", again == got, "a second lookup returned %zu instead of %zu elements", again.size(), got.size());
    };
    for (auto &it : items) {
        for (auto &x : it.X) query(x, &it, "node");
        for (int k = 0; k < 6; ++k) {
            V3 xi = gen_inside<E>(r); auto L = rf.L(xi); V3 p{0,0,0};
            for (size_t i = 0; i < L.size(); ++i) p = p + L[i] * it.X[i];
            p = rnd(p); for (int d = 0; d < D; ++d) p[d] = std::min<LD>(std::max<LD>(p[d], it.lo[d]), it.hi[d]);
            query(p, &it, "inside");
        }
        if (it.nudged) for (auto &x : it.X) { // the cell planes next to its nodes: within rounding of the element
            V3 p = x; bool on = false; for (int d = 0; d < D; ++d) { double a = std::round((double)x[d] / cell) * cell, u = std::nextafter(std::fabs((double)x[d]), 1e300) - std::fabs((double)x[d]); if (std::fabs(a - (double)x[d]) <= 2.5 * u && a != 0) { p[d] = a; on = true; } }
            if (on) query(p, &it, "within-rounding");
        }
        if (exact && !it.nudged) { // points of the element lying exactly on cell planes: along each edge from corner 0
            for (int b = 1; b < rf.ncorner; ++b) {
                V3 a = it.X[0], d = it.X[b] - a;
                for (int k = 1; k < 8; ++k) { V3 p = a + (k / 8.0L) * d; bool ok = true; for (int x = 0; x < D; ++x) ok = ok && (LD)(double)p[x] == p[x]; if (ok) query(p, &it, "edge"); }
            }
            // a box element contains every lattice point of its box
            if (Info<E>::rect || (D == 1)) for (int k = 0; k < 8; ++k) {
                V3 p{0,0,0}; for (int d = 0; d < D; ++d) { I: p[d] = std::min((double)it.hi[d], std::max((double)it.lo[d], std::round(r.uni(it.lo[d], it.hi[d]) / cell) * cell)); }
                if (CD<E> == D) query(p, &it, "lattice");
            }
        }
    }
    for (int k = 0; k < 10; ++k) { V3 p{0,0,0}; for (int d = 0; d < D; ++d) p[d] = r.flip(0.3) ? (LD)(base[d] + cell * r.irange(-6, 6)) : (LD)(double)(base[d] + cell * r.uni(-8, 8)); query(rnd(p), nullptr, "anywhere"); }
    mon::sample(2);
}

// ------------------------------------------------------------------ P15

template <class E, class NodeIndex> static void embed_case(Rng &r, uint64_t t) {
    constexpr int C = CD<E>, D = WD<E>; const Ref &rf = R<E>();
    GMesh<E> m = make_mesh<E>(r);
    using MeshT = Mesh<D>; using Dom = Domain<E, NodeIndex>;
    std::vector<typename MeshT::WorldCoordinates> pos(m.X.size());
    for (size_t i = 0; i < pos.size(); ++i) for (int d = 0; d < D; ++d) pos[i][d] = (double)m.X[i][d];
    MeshT mesh(pos);
    std::vector<int> kept; for (size_t i = 0; i < m.conn.size(); ++i) if (!m.removed[i]) kept.push_back((int)i);
    typename Dom::ElementsIndices idx((Eigen::Index)kept.size(), NN<E>);
    for (size_t k = 0; k < kept.size(); ++k) for (int i = 0; i < NN<E>; ++i) idx(k, i) = (NodeIndex)m.conn[kept[k]][i];
    Dom *dom = mesh.template add_domain<E, NodeIndex>(std::string("d"), idx);
    std::string head = fmt("%s elements=%zu/%zu nodes=%zu scale=%.3Lg offset=%s affine=%d n=%dx%dx%d", Info<E>::name, kept.size(), m.conn.size(), m.X.size(), m.h, str(m.off).c_str(), (int)m.affine, m.n[0], m.n[1], m.n[2]);
    mon::describe("%s", head.c_str()); mon::sample(2);
    // points
    struct Q { V3 p, xi; int owner; int kind; LD margin; }; // kind 0 interior, 1 on a side/node (affine), 2 hole, 3 outside
    std::vector<Q> qs; int np = (int)r.irange(1, 25);
    LD minmargin = m.affine ? 1e-6L : 1e-2L;
    for (int k = 0; k < np; ++k) {
        int kind = (int)r.irange(0, 4);
        Q q; q.kind = 0;
        if (kind == 4 && D == C) { // outside of the whole lattice (in lattice space), by more than the perturbation
            V3 l{0,0,0}; for (int d = 0; d < C; ++d) l[d] = r.uni(-0.5, m.n[d] + 0.5); int d = (int)r.irange(0, C-1); l[d] = r.flip() ? -r.logu(0.35, 30) : m.n[d] + r.logu(0.35, 30);
            q.p = m.off + mul(m.A, l); q.owner = -1; q.kind = 3; q.margin = 0;
        } else {
            int e = (int)(r.u64() % m.conn.size());
            for (int a = 0; a < 200; ++a) { q.xi = rnd(gen_xi<E>(r, 5)); q.margin = rf.margin(q.xi); if (q.margin > minmargin) break; }
            if (q.margin <= minmargin) { q.xi = {0,0,0}; if (rf.simplex) for (int d = 0; d < C; ++d) q.xi[d] = 1.0L/(C+1); q.margin = rf.margin(q.xi); }
            if (kind == 3 && !m.removed[e]) { q.xi = r.flip() ? rf.nodes[r.u64() % rf.nodes.size()] : rnd(gen_xi<E>(r, 6)); q.kind = 1; q.margin = 0; if (rf.margin(q.xi) < 0) q.xi = rf.nodes[0]; if (Info<E>::rect) q.xi = (1 - 1e-10L) * q.xi; /* its corners are rebuilt from centre and size, hence rounded */ }
            q.p = world(m, e, q.xi); q.owner = e; if (m.removed[e]) q.kind = 2;
        }
        q.p = rnd(q.p); for (int d = D; d < 3; ++d) q.p[d] = 0;
        // a codimension element projects: only points on it are decidable, and holes project nowhere else on a flat domain
        qs.push_back(q);
    }
    auto check_point = [&](const Q &q, long long element, const V3 &xi, const char *via) {
        mon::describe("%s %s p=%s owner=%d kind=%d xi=%s", head.c_str(), via, str(q.p).c_str(), q.owner, q.kind, str(q.xi).c_str());
        if (q.kind == 2 || q.kind == 3) { CHECK("outside-reported", element < 0, "the point lies in no element of the domain but is given element %lld at %s", element, str(xi).c_str()); return; }
        CHECK("inside-found", element >= 0, "the point lies in an element (local margin %.3Lg) but is reported outside", q.margin);
        if (element < 0) return;
        CHECK("element-exists", element < (long long)kept.size(), "element index %lld of %zu", element, kept.size());
        if (element >= (long long)kept.size()) return;
        int e = kept[element];
        if (q.kind == 0) {
            CHECK("right-element", e == q.owner, "the point lies strictly inside element %d but is given element %d", q.owner, e);
            LD er = maxabs(xi - q.xi), tol = m.affine ? 1e-9L : 1e-3L;
            if (e == q.owner) CHECK("true-local-coordinates", er <= tol, "local coordinates %s, expected %s (error %.3Lg)", str(xi).c_str(), str(q.xi).c_str(), er);
        } else { CHECK("contained", rf.margin(xi) >= -1e-6L, "returned local coordinates %s are outside of the element", str(xi).c_str()); }
        LD wr = maxabs(world(m, e, xi) - q.p) / m.h;
        CHECK("maps-back", wr <= (m.affine ? 1e-9L : 1e-3L), "returned element %d and local coordinates %s map to a point %.3Lg away (in cell units)", e, str(xi).c_str(), wr);
    };
    static const char *kn[] = {"interior", "on-side-or-node", "in-hole", "outside"};
    for (auto &q : qs) { mon::observe(fmt("point:%s", kn[q.kind])); mon::distinct(hash_xi<E>(q.p, mon::mix(t, NN<E>))); }
    // through the container with embedded points, in several layouts
    int layout = (int)r.irange(0, 3);
    Eigen::Matrix<double, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)> pr(qs.size(), D); Eigen::MatrixXd pd(qs.size(), D);
    for (size_t i = 0; i < qs.size(); ++i) for (int d = 0; d < D; ++d) pr(i, d) = pd(i, d) = (double)qs[i].p[d];
    std::unique_ptr<BarycentricContainer<Dom>> cont;
    switch (layout) {
        case 0: cont = std::make_unique<BarycentricContainer<Dom>>(dom, pr); break;
        case 1: cont = std::make_unique<BarycentricContainer<Dom>>(dom, pd); break;
        case 2: cont = std::make_unique<BarycentricContainer<Dom>>(dom->embed(pr)); break;
        default: { Eigen::MatrixXd wide = Eigen::MatrixXd::Constant(qs.size() + 3, D + 2, 7e77); wide.block(2, 1, qs.size(), D) = pd; cont = std::make_unique<BarycentricContainer<Dom>>(dom->embed(wide.block(2, 1, qs.size(), D))); }
    }
    mon::observe(fmt("layout-%d", layout));
    const auto &bp = cont->barycentric_points();
    CHECK("one-per-point", bp.size() == qs.size(), "%zu barycentric points for %zu embedded points", bp.size(), qs.size());
    std::vector<UNSIGNED_INTEGER_TYPE> out;
    for (size_t i = 0; i < qs.size() && i < bp.size(); ++i) {
        check_point(qs[i], bp[i].element_index, from(bp[i].local_coordinates, C), "embedded");
        if (bp[i].element_index < 0) out.push_back(i);
    }
    mon::describe("%s", head.c_str());
    CHECK("outside-list", cont->outside_nodes() == out, "outside_nodes has %zu entries, %zu points are without element", cont->outside_nodes().size(), out.size());
    // single queries
    BarycentricContainer<Dom> bare(dom);
    CHECK("bare-empty", bare.barycentric_points().empty() && bare.outside_nodes().empty(), "a container without embedded points is not empty");
    for (auto &q : qs) {
        auto b = bare.barycentric_point(to_world<E>(q.p));
        check_point(q, b.element_index, from(b.local_coordinates, C), "query");
        auto cl = bare.closest_elements(to_world<E>(q.p)); bool found = false; std::set<long long> ids;
        for (auto &x : cl) {
            CHECK("closest-valid", x.element_index >= 0 && x.element_index < (long long)kept.size() && ids.insert(x.element_index).second, "closest_elements returned element %lld (of %zu) twice or out of range", (long long)x.element_index, kept.size());
            if (x.element_index < 0 || x.element_index >= (long long)kept.size()) continue;
            if (kept[x.element_index] == q.owner && q.kind <= 1) { found = true; LD er = maxabs(from(x.local_coordinates, C) - q.xi); CHECK("closest-local", er <= (m.affine ? 1e-9L : 1e-3L), "closest_elements: local coordinates off by %.3Lg", er); }
        }
        if (q.kind == 0) CHECK("closest-has-owner", found, "the element holding the point is not among the %zu closest", cl.size());
    }
    // interpolation of nodal fields
    auto interp = [&](auto tag, int cols, const char *name) {
        using Mat = decltype(tag); using S = typename Mat::Scalar;
        Mat in((Eigen::Index)m.X.size(), cols), res((Eigen::Index)qs.size(), cols);
        for (Eigen::Index i = 0; i < in.size(); ++i) in.data()[i] = (S)r.uni(-10, 10);
        res.setConstant((S)-12345);
        try { cont->interpolate(in, res); } catch (const std::exception &x) { CHECK("interpolate-accepts", false, "%s: interpolate threw %s", name, x.what()); return; }
        mon::observe(fmt("field:%s", name));
        for (size_t i = 0; i < qs.size() && i < bp.size(); ++i) {
            if (bp[i].element_index < 0 || bp[i].element_index >= (long long)kept.size()) continue;
            int e = kept[bp[i].element_index]; auto L = rf.L(from(bp[i].local_coordinates, C));
            for (int c = 0; c < cols; ++c) {
                LD v = 0, a = 0; for (size_t k = 0; k < L.size(); ++k) { LD y = in(m.conn[e][k], c); v += L[k] * y; a += std::fabs(L[k] * y); }
                LD tol = (sizeof(S) == 4 ? 2e-6L : 1e-13L) * (a + 1);
                CHECK("interpolates", std::fabs((LD)res(i, c) - v) <= tol, "%s: point %zu column %d gives %.17Lg expected %.17Lg", name, i, c, (LD)res(i, c), v);
            }
        }
    };
    interp(Eigen::Matrix<double, Eigen::Dynamic, 1>(), 1, "scalar");
    interp(Eigen::Matrix<double, Eigen::Dynamic, 3>(), 3, "vector3");
    interp(Eigen::Matrix<double, Eigen::Dynamic, 2, Eigen::RowMajor>(), 2, "vector2-rowmajor");
    interp(Eigen::MatrixXd(), (int)r.irange(1, 9), "dynamic");
    interp(Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>(), (int)r.irange(1, 9), "dynamic-rowmajor");
    interp(Eigen::MatrixXf(), (int)r.irange(1, 4), "float");
    // affine field of the position is reproduced at the points themselves
    {
        Eigen::MatrixXd in(m.X.size(), 1), res(qs.size(), 1); LD a = r.uni(-1, 1), g[3] = {r.uni(-1,1), r.uni(-1,1), r.uni(-1,1)};
        auto f = [&](const V3 &x) { LD v = a; for (int d = 0; d < D; ++d) v += g[d] * (x[d] - m.off[d]) / m.h; return v; };
        for (size_t i = 0; i < m.X.size(); ++i) in(i, 0) = (double)f(m.X[i]);
        res.setZero(); cont->interpolate(in, res);
        for (size_t i = 0; i < qs.size() && i < bp.size(); ++i) if (bp[i].element_index >= 0 && qs[i].kind <= 1)
            CHECK("affine-field", std::fabs((LD)res(i, 0) - f(qs[i].p)) <= (m.affine ? 1e-8L : 1e-2L), "point %zu: %.17g expected %.17Lg", i, res(i, 0), f(qs[i].p));
    }
    // refusals
    auto refuses = [&](const char *what, auto fn) { bool th = false; try { fn(); } catch (const std::exception &) { th = true; } CHECK(fmt("refuses-%s", what), th, "%s accepted", what); mon::observe(fmt("refusal:%s", what)); };
    refuses("short-input", [&] { Eigen::MatrixXd in = Eigen::MatrixXd::Zero(m.X.size() - 1, 2), o = Eigen::MatrixXd::Zero(qs.size(), 2); cont->interpolate(in, o); });
    refuses("long-input", [&] { Eigen::MatrixXd in = Eigen::MatrixXd::Zero(m.X.size() + 1, 2), o = Eigen::MatrixXd::Zero(qs.size(), 2); cont->interpolate(in, o); });
    refuses("short-output", [&] { Eigen::MatrixXd in = Eigen::MatrixXd::Zero(m.X.size(), 2), o = Eigen::MatrixXd::Zero(qs.size() - 1, 2); cont->interpolate(in, o); });
    refuses("long-output", [&] { Eigen::MatrixXd in = Eigen::MatrixXd::Zero(m.X.size(), 2), o = Eigen::MatrixXd::Zero(qs.size() + 1, 2); cont->interpolate(in, o); });
    refuses("column-mismatch", [&] { Eigen::MatrixXd in = Eigen::MatrixXd::Zero(m.X.size(), 2), o = Eigen::MatrixXd::Zero(qs.size(), 3); cont->interpolate(in, o); });
    refuses("wrong-dimension", [&] { Eigen::MatrixXd p = Eigen::MatrixXd::Zero(4, D + 1); BarycentricContainer<Dom> c(dom, p); });
    refuses("empty-domain", [&] { MeshT me(pos); typename Dom::ElementsIndices none(0, NN<E>); Dom *d2 = me.template add_domain<E, NodeIndex>(std::string("e"), none); BarycentricContainer<Dom> c(d2); });
}

template <class E> static void all(uint64_t q, uint64_t th) {
    Rng r; uint64_t N = M().n(q, th);
    for (uint64_t t = 0; t < N; ++t) {
#if PROP == 14
        if (!mon::begin(fmt("hash:%s", Info<E>::name), t, r)) continue;
        hash_case<E>(r, t);
#else
        if (!mon::begin(fmt("embed:%s", Info<E>::name), t, r)) continue;
        if (t % 2) embed_case<E, UNSIGNED_INTEGER_TYPE>(r, t); else embed_case<E, int>(r, t);
#endif
    }
}
int main(int argc, char **argv) {
    mon::init(argc, argv);
    uint64_t q = PROP == 14 ? 400 : 250, th = PROP == 14 ? 15000 : 8000;
#if GROUP == 0
    all<cg::Segment<1, Linear>>(q, th); all<cg::Segment<1, Quadratic>>(q, th);
#if PROP == 14
    all<cg::Segment<2, Linear>>(q, th); all<cg::Segment<3, Quadratic>>(q, th);
#endif
#elif GROUP == 1
    all<cg::Triangle<2, Linear>>(q, th); all<cg::Triangle<2, Quadratic>>(q, th);
#elif GROUP == 2
    all<cg::Triangle<3, Linear>>(q, th); all<cg::Triangle<3, Quadratic>>(q, th);
#elif GROUP == 3
    all<cg::Quad<2, Linear>>(q, th); all<cg::Quad<2, Quadratic>>(q, th);
#elif GROUP == 4
    all<cg::Quad<3, Linear>>(q, th); all<cg::RectangularQuad<2, Linear>>(q, th);
#elif GROUP == 5
    all<cg::Tetrahedron<Linear>>(q, th); all<cg::Tetrahedron<Quadratic>>(q, th);
#elif GROUP == 6
    all<cg::Hexahedron<Linear>>(q, th); all<cg::Hexahedron<Quadratic>>(q / 2, th / 2);
#else
    all<cg::RectangularHexahedron<Linear>>(q, th); all<cg::RectangularHexahedron<Quadratic>>(q / 2, th / 2);
#endif
    return mon::finish();
}
