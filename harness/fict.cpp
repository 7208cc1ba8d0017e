// P33: the fictitious (sparse) grid around an implicit surface (KIND 0: 2D, 1: 3D) or a triangulated one (KIND 2).
// Oracle: a quadtree/octree of the same bounds built here, its leaves classified by the level-set at their corners or by
// a separating-axis test against the triangles, the uncut ones by flooding from the border of the grid.
#include "sofa.h"
#include <SofaCaribou/Topology/FictitiousGrid.h>
#include <SofaCaribou/Topology/CircleIsoSurface.h>
#include <SofaCaribou/Topology/SphereIsoSurface.h>
#include <SofaCaribou/Topology/CylinderIsoSurface.h>
constexpr int D = KIND == 0 ? 2 : 3, NC = 1 << D; constexpr bool TESS = KIND == 2;
using DT = std::conditional_t<D == 2, sofa::defaulttype::Vec2Types, sofa::defaulttype::Vec3Types>; using VC = DT::VecCoord; using C = DT::Coord;
using FG = SofaCaribou::topology::FictitiousGrid<DT>; using T = FG::Type; using Iso = SofaCaribou::topology::IsoSurface<DT>; using Tri = sofa::core::topology::BaseMeshTopology::Triangle; using Tris = sofa::type::vector<Tri>;
using VI = sofa::type::Vec<D, UNSIGNED_INTEGER_TYPE>; using VF = sofa::type::Vec<D, SReal>; using MO = sofa::component::container::MechanicalObject<DT>; using WC = FG::WorldCoordinates;
enum { IN = 1, OUT = 2, CUT = 4 };
static const char *nm(int t) { return t == IN ? "inside" : t == OUT ? "outside" : t == CUT ? "boundary" : "undefined"; }
static int code(T t) { return t == T::Inside ? IN : t == T::Outside ? OUT : t == T::Boundary ? CUT : 0; }
static C co(const V3 &p) { C c; for (int d = 0; d < D; ++d) c[d] = (double)p[d]; return c; }
static WC wc(const V3 &p) { WC c; for (int d = 0; d < D; ++d) c[d] = (double)p[d]; return c; }
// the implicit surfaces: those of the library, and one of the harness (an ellipsoid, its complement, a half-space or a product of spheres)
struct Shape { int kind = 0; V3 c{0,0,0}, a{1,1,1}, c2{0,0,0}; LD r = 1, r2 = 1, sign = 1; // 0 circle/sphere, 1 cylinder, 2 ellipsoid, 3 half-space, 4 union-ish product
    template <class F> static F sq(F v) { return v * v; }
    LD value(const V3 &x) const {
        LD s = 0, s2 = 0; switch (kind) { case 0: for (int d = 0; d < D; ++d) s += sq(x[d] - c[d]); return s - r * r; case 1: return sq(x[0] - c[0]) + sq(x[1] - c[1]) - r * r;
        case 2: for (int d = 0; d < D; ++d) s += sq((x[d] - c[d]) * a[d]); return sign * (s - r * r); case 3: for (int d = 0; d < D; ++d) s += (x[d] - c[d]) * a[d]; return s;
        default: for (int d = 0; d < D; ++d) { s += sq(x[d] - c[d]); s2 += sq(x[d] - c2[d]); } return std::min(s - r * r, s2 - r2 * r2); } }
};
struct UserIso : Iso { SOFA_CLASS(UserIso, SOFA_TEMPLATE(SofaCaribou::topology::IsoSurface, DT)); Shape s; using Iso::iso_value; Real iso_value(const Eigen::Matrix<Real, D, 1> &x) const override { V3 p{0,0,0}; for (int d = 0; d < D; ++d) p[d] = x[d]; return (double)s.value(p); } };
// separation of a triangle and a box: positive when they are apart, negative when they overlap, by about that distance
static LD separation(const V3 *t, const V3 &c, const V3 &h) {
    V3 p[3], e[3]; for (int i = 0; i < 3; ++i) p[i] = t[i] - c; for (int i = 0; i < 3; ++i) e[i] = p[(i + 1) % 3] - p[i]; LD best = -1e300L;
    auto axis = [&](const V3 &a) { LD n = norm(a); if (n < 1e-14L) return; LD lo = 1e300L, hi = -1e300L, rad = h[0] * std::fabs(a[0]) + h[1] * std::fabs(a[1]) + h[2] * std::fabs(a[2]); for (auto &q : p) { LD s = dot(q, a); lo = std::min(lo, s); hi = std::max(hi, s); } best = std::max(best, std::max(lo - rad, -hi - rad) / n); };
    for (int d = 0; d < 3; ++d) { V3 u{0,0,0}; u[d] = 1; axis(u); for (auto &f : e) { LD l = norm(f); if (l > 0) axis(cross(u, (1 / l) * f)); } } { V3 n = cross(e[0], e[1]); axis((1 / norm(n)) * n); } return best;
}
struct Node { V3 c, h; int level = 0, type = 0, child = -1; std::array<long, 3> v{0,0,0}; long span = 1; LD w = 1; }; // child: index of the first of NC children
struct RefGrid {
    V3 lo{0,0,0}, hi{0,0,0}, H{0,0,0}; std::array<long, 3> n{1,1,1}; int L = 0; bool exact = false, ambiguous = false; LD scale = 1; Shape shape; std::vector<V3> P; std::vector<std::array<int, 3>> F; std::vector<Node> t; size_t cells = 0, border = 0;
    int cut(const Node &q) { if (TESS) { for (auto &f : F) { V3 p[3] = {P[f[0]], P[f[1]], P[f[2]]}; LD s = separation(p, q.c, q.h); if (std::fabs(s) < 1e-7L * maxabs(H)) ambiguous = true; if (s <= 0) return CUT; } return 0; }
        int in = 0, out = 0; for (int k = 0; k < NC; ++k) { V3 x = q.c; for (int d = 0; d < D; ++d) x[d] += (k >> d & 1) ? q.h[d] : -q.h[d]; LD v = shape.value(x); if (!exact && std::fabs(v) < 1e-9L * scale) ambiguous = true; in += v < 0; out += v > 0; border += v == 0; } return in == NC ? IN : out == NC ? OUT : CUT; }
    void split(size_t i) { t[i].type = cut(t[i]); if (t[i].type != CUT || t[i].level >= L) return; int b = (int)t.size(); t[i].child = b; Node q = t[i]; for (int k = 0; k < NC; ++k) { Node s; s.level = q.level + 1; s.w = q.w / NC; s.span = q.span / 2; for (int d = 0; d < 3; ++d) { s.h[d] = d < D ? q.h[d] / 2 : 0; s.c[d] = q.c[d] + (d < D ? ((k >> d & 1) ? s.h[d] : -s.h[d]) : 0); s.v[d] = q.v[d] + ((k >> d & 1) ? s.span : 0); } t.push_back(s); } for (int k = 0; k < NC; ++k) split(b + k); }
    void build() {
        t.clear(); ambiguous = false; border = 0; cells = 1; for (int d = 0; d < D; ++d) { cells *= n[d]; H[d] = (hi[d] - lo[d]) / n[d]; } scale = 0; for (int d = 0; d < D; ++d) scale = std::max({scale, (hi[d] - lo[d]) * (hi[d] - lo[d]), shape.r * shape.r});
        for (size_t i = 0; i < cells; ++i) { Node q; size_t k = i; q.span = 1L << L; for (int d = 0; d < D; ++d) { long x = k % n[d]; k /= n[d]; q.c[d] = lo[d] + (x + 0.5L) * H[d]; q.h[d] = H[d] / 2; q.v[d] = x << L; } for (int d = D; d < 3; ++d) q.c[d] = q.h[d] = 0; t.push_back(q); } for (size_t i = 0; i < cells; ++i) split(i); if (!TESS) return;
        // flood from outside over the uncut leaves, on the finest lattice
        std::array<long, 3> m{n[0] << L, n[1] << L, n[2] << L}; auto at = [&](long x, long y, long z) { return (x * m[1] + y) * m[2] + z; }; std::vector<int> leaf(m[0] * m[1] * m[2], -1); for (size_t i = 0; i < t.size(); ++i) if (t[i].child < 0) for (long x = 0; x < t[i].span; ++x) for (long y = 0; y < t[i].span; ++y) for (long z = 0; z < t[i].span; ++z) leaf[at(t[i].v[0] + x, t[i].v[1] + y, t[i].v[2] + z)] = (int)i;
        std::vector<long> st; std::vector<char> seen(leaf.size(), 0); auto push = [&](long x, long y, long z) { long k = at(x, y, z); if (seen[k] || t[leaf[k]].type == CUT) return; seen[k] = 1; t[leaf[k]].type = OUT; st.push_back(k); };
        for (long x = 0; x < m[0]; ++x) for (long y = 0; y < m[1]; ++y) for (long z = 0; z < m[2]; ++z) if (!x || !y || !z || x == m[0] - 1 || y == m[1] - 1 || z == m[2] - 1) push(x, y, z);
        while (!st.empty()) { long k = st.back(); st.pop_back(); long z = k % m[2], y = k / m[2] % m[1], x = k / m[2] / m[1]; if (x) push(x - 1, y, z); if (y) push(x, y - 1, z); if (z) push(x, y, z - 1); if (x + 1 < m[0]) push(x + 1, y, z); if (y + 1 < m[1]) push(x, y + 1, z); if (z + 1 < m[2]) push(x, y, z + 1); }
        for (auto &q : t) if (q.child < 0 && q.type == 0) q.type = IN;
    }
    LD weight(size_t i) const { if (t[i].child < 0) return t[i].type == OUT ? 0 : t[i].w; LD s = 0; for (int k = 0; k < NC; ++k) s += weight(t[i].child + k); return s; }
    void gauss(size_t i, int level, const Node &top, std::vector<std::pair<V3, LD>> &o) const { // in the local frame of the top cell, weights relative to its volume
        const Node &q = t[i]; if (q.child >= 0 && q.level < level) { for (int k = 0; k < NC; ++k) gauss(q.child + k, level, top, o); return; }
        const LD g = 1 / std::sqrt(3.L); for (int k = 0; k < NC; ++k) { V3 p{0,0,0}; for (int d = 0; d < D; ++d) p[d] = (q.c[d] + ((k >> d & 1) ? g : -g) * q.h[d] - top.c[d]) / top.h[d]; LD w = q.child < 0 ? (q.type == OUT ? 0 : q.w / NC) : weight(q.child + k); if (w > 0) o.push_back({p, w}); } }
};
static void place(Rng &r, RefGrid &g, bool auto_bounds) {
    for (int att = 0;; ++att) {
        LD s = 1; g.exact = !TESS && r.flip(0.5); bool one = r.flip(0.1); for (int d = 0; d < 3; ++d) { g.n[d] = d < D ? r.irange(1, D == 2 ? 8 : TESS ? 6 : 5) : 1; if (one && d < D) g.n[d] = 1; } V3 h{0,0,0}, o{0,0,0};
        if (g.exact) { LD u = std::ldexp(1.L, (int)r.irange(-3, 3)); s = u; for (int d = 0; d < D; ++d) { h[d] = u * r.irange(1, 3); o[d] = u * r.irange(-6, 3); } } else { s = r.logu(1e-3, 1e3); for (int d = 0; d < D; ++d) { h[d] = s * r.uni(0.3, 3); o[d] = (double)(s * r.uni(-6, 3)); } }
        g.lo = o; for (int d = 0; d < D; ++d) { if (g.exact) { g.hi[d] = o[d] + g.n[d] * h[d]; } else g.hi[d] = (double)(o[d] + g.n[d] * h[d]); } V3 size = g.hi - g.lo, mid = 0.5L * (g.lo + g.hi); LD m = 1e300L; for (int d = 0; d < D; ++d) m = std::min(m, size[d]);
        if (!TESS) {
            Shape &q = g.shape; q = Shape(); q.kind = (int)r.irange(0, 4); if (q.kind == 1 && D == 2) q.kind = 0; for (int d = 0; d < D; ++d) { if (g.exact) { q.c[d] = mid[d] + s * r.irange(-3, 3) / 2; q.c2[d] = mid[d] + s * r.irange(-3, 3) / 2; q.a[d] = r.irange(q.kind == 3 ? -2 : 1, 3); } else { q.c[d] = (double)(mid[d] + size[d] * r.uni(-0.4, 0.4)); q.c2[d] = (double)(mid[d] + size[d] * r.uni(-0.4, 0.4)); q.a[d] = r.uni(q.kind == 3 ? -1 : 0.5, 1.5); } }
            q.sign = r.flip(0.4) ? -1 : 1; q.r = g.exact ? s * r.irange(1, 12) / 2 : (LD)(double)(m * r.uni(0.1, 0.9)); q.r2 = g.exact ? s * r.irange(1, 8) / 2 : (LD)(double)(m * r.uni(0.1, 0.5)); if (q.kind == 2) q.r = g.exact ? q.r * 2 : q.r;
        } else {
            g.P.clear(); g.F.clear(); int bodies = r.flip(0.2) ? 2 : 1; M3 rot = random_rotation(r, 3); for (int b = 0; b < bodies; ++b) { int base = (int)g.P.size(), kind = (int)r.irange(0, 3); std::vector<V3> V; std::vector<std::array<int, 3>> Q;
                if (kind == 0) { V = {{1,1,1}, {1,-1,-1}, {-1,1,-1}, {-1,-1,1}}; Q = {{0,1,2}, {0,3,1}, {0,2,3}, {1,3,2}}; }
                else if (kind == 1) { for (int k = 0; k < 8; ++k) V.push_back({k & 1 ? 0.7L : -0.7L, k & 2 ? 0.7L : -0.7L, k & 4 ? 0.7L : -0.7L}); int f[6][4] = {{0,2,3,1}, {4,5,7,6}, {0,1,5,4}, {2,6,7,3}, {0,4,6,2}, {1,3,7,5}}; for (auto &a : f) { Q.push_back({a[0], a[1], a[2]}); Q.push_back({a[0], a[2], a[3]}); } }
                else { V = {{1,0,0}, {-1,0,0}, {0,1,0}, {0,-1,0}, {0,0,1}, {0,0,-1}}; Q = {{0,2,4}, {2,1,4}, {1,3,4}, {3,0,4}, {2,0,5}, {1,2,5}, {3,1,5}, {0,3,5}}; int lv = (int)r.irange(0, 2); for (int l = 0; l < lv; ++l) { std::map<std::pair<int, int>, int> mid_; std::vector<std::array<int, 3>> R2; auto half = [&](int a, int c) { auto k = std::minmax(a, c); auto it = mid_.find(k); if (it != mid_.end()) return it->second; V3 p = V[a] + V[c]; V.push_back((1 / norm(p)) * p); return mid_[k] = (int)V.size() - 1; }; for (auto &f : Q) { int a = half(f[0], f[1]), c = half(f[1], f[2]), e = half(f[2], f[0]); R2.push_back({f[0], a, e}); R2.push_back({a, f[1], c}); R2.push_back({e, c, f[2]}); R2.push_back({a, c, e}); } Q = R2; } if (kind == 3) for (auto &p : V) p = (LD)r.uni(0.5, 1) * p; }
                LD rad = m * r.uni(0.12, 0.45) / bodies; V3 c = mid; V3 st{r.uni(0.6, 1), r.uni(0.6, 1), r.uni(0.6, 1)}; for (int d = 0; d < 3; ++d) c[d] += (size[d] / 2 - rad * 1.8L) * r.uni(-0.9, 0.9) * (size[d] / 2 > rad * 1.8L); for (auto &p : V) { V3 x{p[0] * st[0], p[1] * st[1], p[2] * st[2]}; if (!auto_bounds) x = mul(rot, x); else x = mul(rot, x); g.P.push_back(rnd(c + rad * x)); } for (auto &f : Q) g.F.push_back({f[0] + base, f[1] + base, f[2] + base}); }
            if (auto_bounds) { for (int d = 0; d < 3; ++d) { g.lo[d] = 1e300L; g.hi[d] = -1e300L; for (auto &p : g.P) { g.lo[d] = std::min(g.lo[d], p[d]); g.hi[d] = std::max(g.hi[d], p[d]); } } }
            else { bool out = false; for (auto &p : g.P) for (int d = 0; d < 3; ++d) out |= p[d] < g.lo[d] + 1e-6L * size[d] || p[d] > g.hi[d] - 1e-6L * size[d]; if (out) continue; }
        }
        g.build(); if (!g.ambiguous) return; mon::observe("regenerated-ambiguous"); if (att > 200) { fprintf(stderr, "@@HARNESS no unambiguous case\n"); std::_Exit(3); }
    }
}
static void verify(Rng &r, FG *fg, const RefGrid &g, double threshold) {
    const LD cs = std::max(maxabs(g.lo), maxabs(g.hi)), tol = 1e-13L * (cs + maxabs(g.H)); const LD vol = g.H[0] * g.H[1] * (D == 3 ? g.H[2] : 1);
    std::set<size_t> want; std::set<std::array<long, 3>> wn; LD volume = 0; size_t nin = 0, ncut = 0, nout = 0; for (size_t i = 0; i < g.cells; ++i) { LD w = g.weight(i); nin += g.t[i].type == IN; ncut += g.t[i].type == CUT; nout += g.t[i].type == OUT; if (g.t[i].type != OUT && (double)w >= threshold) { want.insert(i); volume += w * vol; for (int k = 0; k < NC; ++k) { std::array<long, 3> q{0,0,0}; for (int d = 0; d < D; ++d) q[d] = (g.t[i].v[d] >> g.L) + (k >> d & 1); wn.insert(q); } } else if (g.t[i].type != OUT) mon::observe("cell-below-threshold"); }
    mon::distinct(mon::mix(mon::hash_d((double)volume), mon::mix(want.size(), mon::hash_d((double)g.lo[0])))); if (nin) mon::observe("has-inside-cells"); if (nout) mon::observe("has-outside-cells"); if (ncut) mon::observe("has-boundary-cells"); if (g.border) mon::observe("nodes-on-surface"); mon::observe("levels:" + std::to_string(g.L));
    CHECK("number-of-cells", fg->number_of_cells() == want.size(), "%zu sparse cells instead of %zu", (size_t)fg->number_of_cells(), want.size()); CHECK("number-of-nodes", fg->number_of_nodes() == wn.size(), "%zu sparse nodes instead of %zu", (size_t)fg->number_of_nodes(), wn.size()); CHECK("number-of-subdivisions", (int)fg->number_of_subdivisions() == g.L, "wrong");
    auto &pos = get_data<VC>(fg, "position"); bool ok = pos.size() == wn.size(); std::set<std::array<long, 3>> sn; std::vector<std::array<long, 3>> id; for (auto &p : pos) { std::array<long, 3> q{0,0,0}; for (int d = 0; d < D; ++d) { q[d] = std::lround((double)((p[d] - g.lo[d]) / g.H[d])); ok = ok && std::fabs(p[d] - (g.lo[d] + q[d] * g.H[d])) <= tol; } id.push_back(q); ok = ok && sn.insert(q).second && wn.count(q); } CHECK("sparse-nodes", ok, "the nodes of the sparse grid are not the distinct nodes of its cells");
    using Q = sofa::core::topology::BaseMeshTopology::Quad; using X = sofa::core::topology::BaseMeshTopology::Hexahedron; using El = std::conditional_t<D == 2, Q, X>; auto &el = get_data<sofa::type::vector<El>>(fg, D == 2 ? "quads" : "hexahedra"); CHECK("number-of-elements", el.size() == want.size(), "%zu elements instead of %zu", (size_t)el.size(), want.size()); { auto &e2 = get_data<sofa::type::vector<std::conditional_t<D == 2, X, Q>>>(fg, D == 2 ? "hexahedrons" : "quads"); CHECK("no-other-elements", e2.empty(), "elements of the other dimension"); }
    static const int ring[8][3] = {{0,0,0}, {1,0,0}, {1,1,0}, {0,1,0}, {0,0,1}, {1,0,1}, {1,1,1}, {0,1,1}}; std::set<size_t> seen; LD sum = 0; if (el.size() == want.size() && ok) for (size_t e = 0; e < el.size(); ++e) {
        bool range = true; for (int k = 0; k < NC; ++k) range = range && el[e][k] < id.size(); CHECK("element-indices", range, "an index of an element is not that of a sparse node"); if (!range) continue; auto base = id[el[e][0]]; bool shape = true; for (int k = 0; k < NC; ++k) for (int d = 0; d < D; ++d) shape = shape && id[el[e][k]][d] == base[d] + ring[k][d]; CHECK("element-nodes", shape, "element %zu is not a cell of the grid with its nodes in order", e); if (!shape) continue;
        size_t i = base[0] + g.n[0] * (base[1] + g.n[1] * base[2]); if (D == 2) i = base[0] + g.n[0] * base[1]; bool in = true; for (int d = 0; d < D; ++d) in = in && base[d] < g.n[d]; CHECK("sparse-cell", in && want.count(i) && seen.insert(i).second, "element %zu (cell %zu, %s) does not belong to the sparse grid, or twice", e, i, in ? nm(g.t[i].type) : "?"); if (!in) continue;
        auto ce = fg->get_cell_element(e); V3 c{0,0,0}; auto cc = ce.center(); auto sz = ce.size(); LD w = 0; for (int d = 0; d < D; ++d) { w = std::max(w, std::fabs(cc[d] - g.t[i].c[d])); w = std::max(w, std::fabs(sz[d] - g.H[d])); } CHECK("cell-element", w <= tol, "the element of sparse cell %zu is off by %.3Lg", e, w); (void)c;
        if constexpr (D == 3) { auto &ni = fg->get_node_indices_of(e); bool same = true; for (int k = 0; k < 8; ++k) same = same && ni[k] == el[e][k]; CHECK("node-indices-of", same, "differs from the element list"); }
        for (int pass = 0; pass < (g.L ? 2 : 1); ++pass) {
            int level = pass == 0 ? g.L : (int)r.irange(0, g.L + 1); auto got = pass == 0 ? fg->get_gauss_nodes_of_cell(e) : fg->get_gauss_nodes_of_cell(e, level); std::vector<std::pair<V3, LD>> a, b; for (auto &q : got) { CHECK("gauss-weight-sign", q.second >= 0, "a negative weight"); V3 p{0,0,0}; for (int d = 0; d < D; ++d) p[d] = q.first[d]; if (q.second != 0) a.push_back({p, q.second}); if (pass == 0) sum += q.second; } g.gauss(i, level, g.t[i], b);
            auto key = [](const std::pair<V3, LD> &x, const std::pair<V3, LD> &y) { for (int d = 2; d >= 0; --d) if (std::fabs(x.first[d] - y.first[d]) > 1e-9L) return x.first[d] < y.first[d]; return false; }; std::sort(a.begin(), a.end(), key); std::sort(b.begin(), b.end(), key); CHECK("gauss-count", a.size() == b.size(), "%zu weighted Gauss nodes instead of %zu (level %d of %d)", a.size(), b.size(), level, g.L); LD wp = 0, ww = 0; if (a.size() == b.size()) for (size_t k = 0; k < a.size(); ++k) { wp = std::max(wp, maxabs(a[k].first - b[k].first)); ww = std::max(ww, std::fabs(a[k].second - b[k].second * vol) / vol); } 
            CHECK("gauss-positions", wp <= 1e-13L, "the Gauss nodes of cell %zu are off by %.3Lg in local coordinates (level %d of %d)", i, wp, level, g.L); CHECK("gauss-weights", ww <= 1e-13L * (1 + cs / maxabs(g.H)) * 10, "the Gauss weights of cell %zu are off by %.3Lg of its volume (level %d of %d)", i, ww, level, g.L); if (level < g.L) mon::observe("gauss:level-below-depth"); if (g.t[i].type == CUT && g.L >= 2) mon::observe("gauss:deep-boundary-cell"); } }
    if (ok && el.size() == want.size()) CHECK("integrated-volume", std::fabs(sum - volume) <= 1e-12L * (1 + cs / maxabs(g.H)) * (volume + vol), "the Gauss weights sum to %.15Lg instead of %.15Lg", sum, volume);
    // types of points
    for (int k = 0; k < 24; ++k) {
        std::array<long, 3> c{0,0,0}; int shared = 0, types = 0; V3 p{0,0,0}; bool inside = true; std::array<int, 3> on{0,0,0}; for (int d = 0; d < D; ++d) { c[d] = r.irange(0, g.n[d] - 1); if (g.exact && r.flip(0.3)) { on[d] = 1; c[d] = r.irange(0, g.n[d]); p[d] = g.lo[d] + c[d] * g.H[d]; ++shared; } else p[d] = (double)(g.lo[d] + (c[d] + r.uni(0.01, 0.99)) * g.H[d]); }
        if (r.flip(0.1)) { int d = (int)(r.u64() % D); p[d] = (double)(r.flip() ? g.lo[d] - g.H[d] * r.uni(0.01, 2) : g.hi[d] + g.H[d] * r.uni(0.01, 2)); inside = false; }
        if (inside) for (int m = 0; m < NC; ++m) { size_t i = 0, st = 1; bool use = true; for (int d = 0; d < D; ++d) { long x = c[d]; if (on[d]) x -= (m >> d & 1); else if (m >> d & 1) use = false; if (x < 0 || x >= g.n[d]) use = false; i += st * x; st *= g.n[d]; } if (use) types |= g.t[i].type; }
        int expect = !inside ? OUT : (types & CUT) || types == (IN | OUT) ? CUT : types; int got = -1; std::string what = "an exception"; try { got = code(fg->get_type_at(wc(p))); what = nm(got); } catch (const std::exception &x) { what = x.what(); }
        CHECK("type-at", got == expect, "the type at %s is %s instead of %s", str(p).c_str(), what.c_str(), nm(expect)); mon::observe(fmt("type-at:%s%s", nm(expect), !inside ? "-off-grid" : shared ? "-shared" : "")); }
    // distribution of the volume ratios
    { int dec = r.flip() ? 0 : (int)r.irange(1, 4); auto dist = dec || r.flip() ? fg->cell_volume_ratio_distribution(dec) : fg->cell_volume_ratio_distribution(); std::vector<LD> got(g.cells, -1); size_t tot = 0; bool in = true; for (auto &kv : dist) for (auto i : kv.second) { ++tot; if ((size_t)i < g.cells) got[i] = kv.first; else in = false; } LD w = 0; double st = std::pow(10, dec); for (size_t i = 0; i < g.cells; ++i) { double q = (double)g.weight(i); if (dec) q = std::round(q * st) / st; w = std::max(w, std::fabs(got[i] - q)); } CHECK("ratio-of-every-cell-once", in && tot == g.cells, "%zu ratios for %zu cells", tot, g.cells); CHECK("volume-ratio", w <= 1e-14L, "a volume ratio is off by %.3Lg", w); }
    { sofa::core::ExecParams ep; fg->computeBBox(&ep, true); auto bb = fg->f_bbox.getValue(); bool in = true; for (int d = 0; d < D; ++d) in = in && std::fabs(bb.minBBox()[d] - g.lo[d]) <= tol && std::fabs(bb.maxBBox()[d] - g.hi[d]) <= tol; CHECK("bounding-box", in, "the bounding box is not that of the grid"); }
    { sofa::core::visual::VisualParams vp; for (auto *f : {"draw_boundary_cells", "draw_outside_cells", "draw_inside_cells"}) set_data<bool>(fg, f, r.flip()); fg->draw(&vp); bool in = true; for (auto &l : vp.tool.lines) for (auto &x : l) for (int d = 0; d < D; ++d) in = in && x[d] >= g.lo[d] - tol && x[d] <= g.hi[d] + tol; CHECK("drawn-within-the-grid", in, "lines drawn out of the grid"); }
}
static void scene(Rng &r) {
    RefGrid g; bool auto_bounds = TESS && r.flip(0.3); g.L = (int)r.irange(0, D == 2 ? 4 : TESS ? 2 : 3); place(r, g, auto_bounds); mon::describe("n=(%ld,%ld,%ld) lo=%s hi=%s levels=%d %s shape=%d", g.n[0], g.n[1], g.n[2], str(g.lo).c_str(), str(g.hi).c_str(), g.L, g.exact ? "dyadic" : "general", g.shape.kind); mon::sample();
    sptr<sofa::simulation::Node> root(new sofa::simulation::Node()); auto *node = root->createChild("grid"); auto *fg = new FG(); fg->setName("grid"); double threshold = r.flip() ? 0 : r.flip() ? r.irange(0, NC) / (double)NC : r.u01(); if (r.flip(0.2)) { fg->f_printLog.setValue(true); mon::observe("print-log"); } set_data<double>(fg, "draw_scale", r.uni(0.1, 1));
    sofa::core::objectmodel::BaseObject::SPtr iso_; std::function<void()> update; std::vector<sofa::core::objectmodel::BaseObject::SPtr> hold; bool built = false, swapped = r.flip(0.2) && !auto_bounds;
    auto bounds = [&] { VI n; VF lo, hi; for (int d = 0; d < D; ++d) { n[d] = g.n[d] + 1; bool s = swapped && (d & 1); lo[d] = (double)(s ? g.hi[d] : g.lo[d]); hi[d] = (double)(s ? g.lo[d] : g.hi[d]); } set_data<VI>(fg, "n", n); set_data<UNSIGNED_INTEGER_TYPE>(fg, "maximum_number_of_subdivision_levels", g.L); set_data<double>(fg, "volume_threshold", threshold); if (!auto_bounds) { set_data<VF>(fg, "min", lo); set_data<VF>(fg, "max", hi); } if (swapped) mon::observe("corners-swapped"); };
    int bad = r.flip(0.06) ? (int)r.irange(1, 3) : 0; // 1: no surface, 2: no bounds (implicit) or an index out of range (triangles), 3: a triangle out of the grid
#if KIND != 2
    {
        auto make = [&](const Shape &s) -> Iso * { Iso *i; if (s.kind == 0) {
#if KIND == 0
                i = new SofaCaribou::topology::CircleIsoSurface();
#else
                i = new SofaCaribou::topology::SphereIsoSurface();
            } else if (s.kind == 1) { i = new SofaCaribou::topology::CylinderIsoSurface(); set_data<double>(i, "length", 1e6 * (double)(maxabs(g.hi) + maxabs(g.lo) + maxabs(s.c)));
#endif
            } else { auto *u = new UserIso(); u->s = s; i = u; } if (s.kind < 2) { set_data<double>(i, "radius", (double)s.r); set_data<C>(i, "center", co(s.c)); } i->setName("iso"); mon::observe(fmt("surface:%d", s.kind)); return i; };
        Iso *iso = make(g.shape); hold.push_back(iso); bool link = r.flip(); if (bad == 1) link = false; if (bad != 1) (link && r.flip() ? root.get() : node)->addObject(iso);
        if (link) { set_link(fg, "iso_surface", iso); if (r.flip(0.2)) { sofa::type::vector<sofa::core::topology::BaseMeshTopology::Triangle> tr(1); set_data(fg, "surface_triangles", tr); } } else if (bad != 1 && r.flip(0.3)) { Shape o = g.shape; o.r *= 2; if (o.kind == 1) o.kind = 0; node->addObject(make(o)); mon::observe("several-surfaces"); }
        { V3 x{0,0,0}; for (int d = 0; d < D; ++d) x[d] = (double)(g.lo[d] + (g.hi[d] - g.lo[d]) * r.uni(-0.5, 1.5)); LD a = g.shape.value(x), sc2 = 0; for (int d = 0; d < D; ++d) sc2 += (x[d] - g.shape.c[d]) * (x[d] - g.shape.c[d]) * std::max<LD>(1, g.shape.a[d] * g.shape.a[d]); sc2 += g.shape.r * g.shape.r; LD m = std::max(maxabs(x), maxabs(g.shape.c)); const Iso &bi = *iso; CHECK("iso-value", std::fabs((LD)bi.iso_value(wc(x)) - a) <= 1e-13L * (sc2 + m * std::sqrt(sc2)), "the iso-value at %s is %.15g instead of %.15Lg", str(x).c_str(), (double)bi.iso_value(wc(x)), a); CHECK("iso-value-of-coordinates", bi.iso_value(co(x)) == bi.iso_value(wc(x)), "the two overloads differ"); }
#if KIND == 1
        { SofaCaribou::topology::CylinderIsoSurface::SPtr cyl(new SofaCaribou::topology::CylinderIsoSurface()); double rad = r.uni(0.5, 2), len = r.uni(1, 4); set_data<double>(cyl.get(), "radius", rad); set_data<double>(cyl.get(), "length", len); V3 x{rad * r.uni(-0.5, 0.5), rad * r.uni(-0.5, 0.5), len * r.uni(0.6, 2)}; CHECK("cylinder-length-ignored", cyl->iso_value(wc(x)) > 0, "a point beyond the end of a cylinder of length %g (z = %Lg) is inside", len, x[2]); x[2] = len * r.uni(-0.45, 0.45); CHECK("cylinder-inside", cyl->iso_value(wc(x)) < 0, "a point of the cylinder is outside"); }
#endif
        if (bad == 3) bad = 0;
    }
#else
    {
        int source = (int)r.irange(0, 2); mon::observe(fmt("triangles-source:%d", source)); auto *to = new sofa::component::topology::MeshTopology(); to->setName("surface"); hold.push_back(to); auto *mo = new MO(); mo->setName("mo"); hold.push_back(mo); if (bad == 1) source = 3;
        if (source == 1) node->addObject(to); if (source == 2) node->addObject(mo); if (source == 1 && r.flip(0.3)) { auto *t2 = new sofa::component::topology::MeshTopology(); t2->setName("other"); node->addObject(t2); mon::observe("several-topologies"); }
        update = [&, to, mo, source] { VC p; Tris t; for (auto &x : g.P) p.push_back(co(x)); for (auto &f : g.F) t.push_back(Tri{(sofa::Index)f[0], (sofa::Index)f[1], (sofa::Index)f[2]}); if (bad == 2) t[r.u64() % t.size()][r.u64() % 3] = (sofa::Index)(p.size() + (r.flip() ? 0 : r.irange(0, 100))); if (bad == 3) for (int d = 0; d < 3; ++d) p[0][d] = (double)(g.hi[d] + 3 * g.H[d]); if (source == 0) { set_data(fg, "surface_positions", p); set_data(fg, "surface_triangles", t); } if (source == 1) { to->d_tri.setValue(t); to->seqPoints.setValue(p); } if (source == 2) { set_data(fg, "surface_triangles", t); mo->setup(p, VC(p)); } if (source == 1 && built) { set_data(fg, "surface_triangles", t); } };
        if (bad == 3) auto_bounds = false; update();
    }
#endif
    if (!TESS && bad == 2) { VI n; for (int d = 0; d < D; ++d) n[d] = g.n[d] + 1; set_data<VI>(fg, "n", n); } else bounds(); node->addObject(fg); sofa::shim::log().clear(); fg->init(); built = true;
    if (bad) { bool err = sofa::shim::count(2) > 0; CHECK("error-reported", err, "invalid input %d was not reported", bad); if (bad == 1 || (!TESS && bad == 2)) CHECK("no-grid-without-input", fg->number_of_cells() == 0 && fg->number_of_nodes() == 0 && get_data<VC>(fg, "position").empty(), "a sparse grid was made without %s", bad == 1 ? "surface" : "bounds"); mon::observe(fmt("invalid:%d", bad)); return; }
    bool err = false; for (auto &e : sofa::shim::log()) if (e.level == 2) { err = true; CHECK("no-error", false, "%s", e.text.c_str()); } CHECK("no-error", !err, "error"); mon::observe(auto_bounds ? "bounds:automatic" : "bounds:given"); verify(r, fg, g, threshold);
    int again = (int)r.irange(0, 2); for (int k = 0; k < again; ++k) { // the grid is made again: unchanged, with another resolution, threshold or surface
        int what = (int)r.irange(0, 3); mon::observe(fmt("again:%d", what)); if (what == 1) threshold = r.u01(); if (what == 2) { g.L = (int)r.irange(0, D == 2 ? 3 : 2); for (int d = 0; d < D; ++d) g.n[d] = r.irange(1, 5); if (g.exact) for (int d = 0; d < D; ++d) { g.n[d] = g.n[d] == 3 || g.n[d] == 5 ? 4 : g.n[d]; } g.build(); if (g.ambiguous) break; if (auto_bounds) { VF lo, hi; auto_bounds = false; } bounds(); } if (what == 3 && TESS) { g.L = (int)r.irange(0, 2); auto_bounds = false; place(r, g, false); update(); bounds(); } if (what <= 1) bounds();
        mon::describe("again(%d) n=(%ld,%ld,%ld) lo=%s hi=%s levels=%d %s shape=%d", what, g.n[0], g.n[1], g.n[2], str(g.lo).c_str(), str(g.hi).c_str(), g.L, g.exact ? "dyadic" : "general", g.shape.kind); if (r.flip(0.3) && !auto_bounds) fg->init(); else fg->create_grid(); verify(r, fg, g, threshold); }
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(KIND == 0 ? 6000 : 1500, KIND == 0 ? 200000 : 60000);
    for (uint64_t t = 0; t < K; ++t) { Rng r; if (mon::begin(KIND == 0 ? "implicit2D" : KIND == 1 ? "implicit3D" : "triangulated", t, r)) scene(r); }
    return mon::finish();
}
