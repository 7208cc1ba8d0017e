// Grid monitors (P10 numbering, P11 edges/faces, P12 point location, P13 region queries). PROP, DIM.
#include "ref.h"
#include <Caribou/Topology/Grid/Grid.h>
#include <list>
using namespace caribou::topology;
constexpr int D = DIM;
using G = Grid<D>;
using BG = internal::BaseGrid<D, G>;
using W = G::WorldCoordinates; using GC = G::GridCoordinates; using Sub = G::Subdivisions;
using I = long long;
using A3 = std::array<I, 3>;

struct GridCase {
    A3 n{1,1,1}; double a[3] = {0,0,0}, h[3] = {1,1,1}, s[3] = {1,1,1};
    bool exact; G g;
    I cells() const { I r = 1; for (int d = 0; d < D; ++d) r *= n[d]; return r; }
    I nodes() const { I r = 1; for (int d = 0; d < D; ++d) r *= n[d] + 1; return r; }
    I cidx(const A3 &c) const { I r = 0; for (int d = D-1; d >= 0; --d) r = r * n[d] + c[d]; return r; }
    I nidx(const A3 &c) const { I r = 0; for (int d = D-1; d >= 0; --d) r = r * (n[d]+1) + c[d]; return r; }
    A3 ccoord(I i) const { A3 c{0,0,0}; for (int d = 0; d < D; ++d) { c[d] = i % n[d]; i /= n[d]; } return c; }
    A3 ncoord(I i) const { A3 c{0,0,0}; for (int d = 0; d < D; ++d) { c[d] = i % (n[d]+1); i /= n[d]+1; } return c; }
    std::string str() const { std::string r = exact ? "exact" : "general"; r += fmt(" n=%lldx%lldx%lld anchor=(%.17g,%.17g,%.17g) size=(%.17g,%.17g,%.17g)", n[0], n[1], n[2], a[0], a[1], a[2], s[0], s[1], s[2]); return r; }
};
static GC gc(const A3 &c) { GC r; for (int d = 0; d < D; ++d) r[d] = c[d]; return r; }
static A3 ga(const GC &c) { A3 r{0,0,0}; for (int d = 0; d < D; ++d) r[d] = (I)c[d]; return r; }
static std::string s3(const A3 &c) { return fmt("(%lld,%lld,%lld)", c[0], c[1], c[2]); }
static std::string sw(const W &p) { std::string r = "("; for (int d = 0; d < D; ++d) r += fmt("%.17g ", p[d]); return r + ")"; }

static GridCase make(Rng &r, int mode) { // mode 0 small exact, 1 small general, 2 huge exact
    double a[3] = {0,0,0}, h[3] = {1,1,1}, s[3] = {1,1,1}; A3 n{1,1,1}; bool exact = mode != 1;
    int big = (int)r.irange(0, D-1);
    for (int d = 0; d < D; ++d) {
        n[d] = r.flip(0.25) ? 1 : r.irange(1, D == 3 ? 9 : D == 2 ? 17 : 200);
        if (mode == 2) { n[d] = D == 1 ? r.irange(2000000000ll, 60000000000ll) : D == 2 ? r.irange(30000, 400000) : r.irange(1200, 9000); if (r.flip(0.3) && d != big) n[d] = r.irange(1, 5); if (d == big && D == 2) n[d] = r.irange(70000, 5000000000ll); if (d == big && D == 3 && r.flip()) n[d] = r.irange(100000, 3000000); }
        if (exact) {
            double u = std::ldexp(1.0, (int)r.irange(-8, 6));
            h[d] = u * r.irange(1, 12); a[d] = r.flip(0.2) ? 0 : u * r.irange(-1000, 1000); s[d] = h[d] * n[d];
        } else {
            s[d] = r.logu(1e-4, 1e4); h[d] = s[d] / n[d]; a[d] = r.flip(0.2) ? 0 : r.uni(-50, 50) * s[d];
        }
    }
    W an; Sub su; G::Dimensions sz;
    for (int d = 0; d < D; ++d) { an[d] = a[d]; su[d] = n[d]; sz[d] = s[d]; }
    GridCase c{n, {a[0],a[1],a[2]}, {h[0],h[1],h[2]}, {s[0],s[1],s[2]}, exact, G(an, su, sz)};
    return c;
}
static uint64_t ghash(const GridCase &c) { uint64_t h = 17; for (int d = 0; d < D; ++d) { h = mon::mix(h, c.n[d]); h = mon::mix(h, mon::hash_d(c.a[d])); h = mon::mix(h, mon::hash_d(c.h[d])); } return h; }
template <class V> static LD err(const GridCase &c, const V &p, const LD *q) { LD e = 0; for (int d = 0; d < D; ++d) { LD sc = std::fabs((LD)c.a[d]) + std::fabs(q[d]) + c.s[d]; LD x = std::fabs((LD)p[d] - q[d]) / sc; if (!(x <= e)) e = x; } return e; }

// ---------------------------------------------------------------- P10
static void numbering() {
    Rng r;
    uint64_t N = M().n(700, 20000);
    for (uint64_t t = 0; t < N; ++t) {
        if (!mon::begin(fmt("numbering%dD", D), t, r)) continue;
        int mode = (int)(t % 5 == 0 ? 2 : t % 2);
        GridCase c = make(r, mode); G &g = c.g; BG &b = g;
        mon::describe("%s", c.str().c_str()); mon::sample(2); mon::distinct(ghash(c));
        mon::observe(mode == 2 ? "grid:huge" : mode ? "grid:general" : "grid:exact");
        if (c.n[0] == 1 || (D > 1 && c.n[1] == 1) || (D > 2 && c.n[2] == 1)) mon::observe("grid:has-single-subdivision-axis");
        CHECK("counts", (I)g.number_of_cells() == c.cells() && (I)g.number_of_nodes() == c.nodes(), "cells %lld (expected %lld) nodes %lld (expected %lld)", (I)g.number_of_cells(), c.cells(), (I)g.number_of_nodes(), c.nodes());
        for (int d = 0; d < D; ++d) {
            CHECK("attributes", (I)g.N()[d] == c.n[d] && g.anchor_position()[d] == c.a[d] && g.size()[d] == c.s[d], "axis %d: N=%lld anchor=%.17g size=%.17g", d, (I)g.N()[d], g.anchor_position()[d], g.size()[d]);
            CHECK("spacing", std::fabs((LD)g.H()[d] - (LD)c.s[d]/c.n[d]) <= 4e-16L * c.h[d], "axis %d: H=%.17g expected %.17g", d, g.H()[d], c.h[d]);
        }
        bool full = mode != 2;
        I nc = full ? c.cells() : 60, nn = full ? c.nodes() : 60;
        LD tol = c.exact ? 0 : 8e-16L;
        if (mode == 2) tol = 8e-16L;
        for (I q = 0; q < nc; ++q) {
            A3 cc; I idx;
            if (full) { idx = q; cc = c.ccoord(q); }
            else { for (int d = 0; d < D; ++d) cc[d] = q < 4 ? ((q >> (d % 2)) & 1 ? c.n[d]-1 : 0) : r.irange(0, c.n[d]-1); for (int d = D; d < 3; ++d) cc[d] = 0; idx = c.cidx(cc); }
            CHECK("cell-index", (I)g.cell_index_at(gc(cc)) == idx, "cell_index_at%s=%lld expected %lld", s3(cc).c_str(), (I)g.cell_index_at(gc(cc)), idx);
            A3 back = ga(g.cell_coordinates_at((G::CellIndex)idx));
            CHECK("cell-coordinates", back == cc, "cell_coordinates_at(%lld)=%s expected %s", idx, s3(back).c_str(), s3(cc).c_str());
            auto e1 = g.cell_at((G::CellIndex)idx); auto e2 = g.cell_at(gc(cc));
            auto n1 = g.node_indices_of((G::CellIndex)idx); auto n2 = g.node_indices_of(gc(cc));
            const Ref &rf = ref(D == 1 ? SEG : D == 2 ? QUAD : HEX, 1);
            CHECK("vertex-count", n1.size() == (size_t)(1 << D) && e1.number_of_nodes() == (1 << D), "cell has %zu node indices and %d nodes", n1.size(), (int)e1.number_of_nodes());
            for (int v = 0; v < (1 << D); ++v) {
                A3 nd{0,0,0}; LD p[3];
                for (int d = 0; d < D; ++d) { nd[d] = cc[d] + (rf.nodes[v][d] > 0); p[d] = (LD)c.a[d] + (LD)c.s[d] / c.n[d] * nd[d]; }
                CHECK("cell-node-indices", (I)n1[v] == c.nidx(nd) && (I)n2[v] == c.nidx(nd), "vertex %d of cell %s: %lld / %lld, expected node %lld", v, s3(cc).c_str(), (I)n1[v], (I)n2[v], c.nidx(nd));
                auto x1 = e1.node(v), x2 = e2.node(v);
                CHECK("cell-vertices", err(c, x1, p) <= std::max(tol, 2e-15L) && err(c, x2, p) <= std::max(tol, 2e-15L), "vertex %d of cell %s: error %.3Lg / %.3Lg relative", v, s3(cc).c_str(), err(c, x1, p), err(c, x2, p));
            }
        }
        for (I q = 0; q < nn; ++q) {
            A3 cc; I idx;
            if (full) { idx = q; cc = c.ncoord(q); }
            else { for (int d = 0; d < D; ++d) cc[d] = q < 4 ? ((q >> (d % 2)) & 1 ? c.n[d] : 0) : r.irange(0, c.n[d]); for (int d = D; d < 3; ++d) cc[d] = 0; idx = c.nidx(cc); }
            CHECK("node-index", (I)g.node_index_at(gc(cc)) == idx, "node_index_at%s=%lld expected %lld", s3(cc).c_str(), (I)g.node_index_at(gc(cc)), idx);
            A3 back = ga(g.node_coordinates_at((G::NodeIndex)idx));
            CHECK("node-coordinates", back == cc, "node_coordinates_at(%lld)=%s expected %s", idx, s3(back).c_str(), s3(cc).c_str());
            LD p[3]; for (int d = 0; d < D; ++d) p[d] = (LD)c.a[d] + (LD)c.s[d] / c.n[d] * cc[d];
            W x = g.node((G::NodeIndex)idx), y = b.node(gc(cc));
            CHECK("node-position", err(c, x, p) <= tol && err(c, y, p) <= tol, "node %lld %s at %s / %s, relative error %.3Lg / %.3Lg", idx, s3(cc).c_str(), sw(x).c_str(), sw(y).c_str(), err(c, x, p), err(c, y, p));
        }
    }
}

// ---------------------------------------------------------------- P11
#if DIM > 1
static bool neighbours(const GridCase &c, I a, I b, int &axis) {
    if (a < 0 || b < 0 || a >= c.nodes() || b >= c.nodes()) return false;
    A3 x = c.ncoord(a), y = c.ncoord(b); int diff = 0;
    for (int d = 0; d < D; ++d) { I t = std::llabs(x[d] - y[d]); diff += t; if (t) axis = d; if (t > 1) return false; }
    return diff == 1;
}
static I n_edges(const GridCase &c) { I t = 0; for (int d = 0; d < D; ++d) { I k = c.n[d]; for (int e = 0; e < D; ++e) if (e != d) k *= c.n[e] + 1; t += k; } return t; }
static I n_faces(const GridCase &c) { I t = 0; for (int d = 0; d < 3; ++d) { I k = c.n[d] + 1; for (int e = 0; e < 3; ++e) if (e != d) k *= c.n[e]; t += k; } return t; }
static void enumeration() {
    Rng r; uint64_t N = M().n(900, 25000);
    for (uint64_t t = 0; t < N; ++t) {
        if (!mon::begin(fmt("enumeration%dD", D), t, r)) continue;
        int mode = t % 6 == 0 ? 2 : 0; GridCase c = make(r, mode); G &g = c.g;
        if (mode == 2 && n_edges(c) > (1ll << 61)) continue;
        mon::describe("%s", c.str().c_str()); mon::sample(2); mon::distinct(ghash(c)); mon::observe(mode == 2 ? "grid:huge" : "grid:small");
        CHECK("edge-count", (I)g.number_of_edges() == n_edges(c), "number_of_edges=%lld expected %lld", (I)g.number_of_edges(), n_edges(c));
        std::set<std::pair<I,I>> seen; std::set<I> used; I total = n_edges(c);
        I K = mode == 2 ? 200 : total;
        for (I q = 0; q < K; ++q) {
            I i = mode == 2 ? (q < 5 ? q : q < 10 ? total - 1 - (q - 5) : (I)(r.u64() % (uint64_t)total)) : q;
            if (!used.insert(i).second) continue;
            auto e = g.edge((G::EdgeIndex)i); int ax = 0;
            bool ok = neighbours(c, e[0], e[1], ax);
            CHECK("edge-neighbours", ok, "edge %lld = {%lld,%lld} does not join two neighbouring nodes", i, (I)e[0], (I)e[1]);
            bool fresh = seen.insert({std::min<I>(e[0], e[1]), std::max<I>(e[0], e[1])}).second;
            CHECK("edge-once", fresh, "edge %lld = {%lld,%lld} was already enumerated", i, (I)e[0], (I)e[1]);
            if (ok) mon::observe(fmt("edge-axis-%d", ax));
        }
        if (mode != 2) CHECK("edge-all", (I)seen.size() == total, "only %zu of %lld distinct edges enumerated", seen.size(), total);
#if DIM == 3
        I tf = n_faces(c);
        CHECK("face-count", (I)g.number_of_faces() == tf, "number_of_faces=%lld expected %lld", (I)g.number_of_faces(), tf);
        std::set<std::array<I,4>> fs; used.clear(); K = mode == 2 ? 200 : tf;
        for (I q = 0; q < K; ++q) {
            I i = mode == 2 ? (q < 5 ? q : q < 10 ? tf - 1 - (q - 5) : (I)(r.u64() % (uint64_t)tf)) : q;
            if (!used.insert(i).second) continue;
            auto f = g.face((G::FaceIndex)i); bool ok = true; int ax[4] = {0,0,0,0};
            for (int k = 0; k < 4; ++k) ok = ok && neighbours(c, f[k], f[(k+1)%4], ax[k]);
            ok = ok && ax[0] == ax[2] && ax[1] == ax[3] && ax[0] != ax[1] && f[0] != f[2] && f[1] != f[3];
            CHECK("face-cycle", ok, "face %lld = {%lld,%lld,%lld,%lld} is not a cell face in cyclic order", i, (I)f[0], (I)f[1], (I)f[2], (I)f[3]);
            std::array<I,4> k{f[0], f[1], f[2], f[3]}; std::sort(k.begin(), k.end());
            CHECK("face-once", fs.insert(k).second, "face %lld was already enumerated", i);
            if (ok) mon::observe(fmt("face-normal-%d", 3 - ax[0] - ax[1]));
        }
        if (mode != 2) CHECK("face-all", (I)fs.size() == tf, "only %zu of %lld distinct faces enumerated", fs.size(), tf);
#endif
    }
}
#endif

// A query point: per axis an exact abscissa in cell units (multiple of 2^-30), relative to the anchor
struct Pt { LD u[3] = {0,0,0}; W p; };
static Pt point(Rng &r, const GridCase &c, int bias = -1) {
    Pt q;
    for (int d = 0; d < D; ++d) {
        I n = c.n[d]; LD u;
        int k = (int)r.irange(0, 9);
        if (bias == 1 && k >= 5) k = 0;               // mostly inside
        switch (k) {
            case 0: case 1: u = r.irange(0, n-1) + (LD)r.irange(1, 15) / 16; break;                  // inside a cell
            case 2: u = r.irange(0, n); break;                                                       // on a plane
            case 3: u = r.flip() ? 0 : n; break;                                                     // outer boundary
            case 4: u = r.irange(0, n) + r.sgn() * std::ldexp(1.0L, -(int)r.irange(8, 26)); break;   // next to a plane
            case 5: u = r.flip() ? -(LD)r.irange(1, 3*n + 3) : n + (LD)r.irange(1, 3*n + 3); break;          // outside, on the prolongated planes
            case 6: u = r.flip() ? -(LD)r.irange(1, 47) / 16 : n + (LD)r.irange(1, 47) / 16; break;  // outside, near
            case 7: u = r.flip() ? -(LD)r.irange(1, 1000000) / 8 : n + (LD)r.irange(1, 1000000) / 8; break; // far outside
            default: u = r.irange(0, n-1) + (LD)r.irange(1, 15) / 16;
        }
        if (!c.exact) { // general grids: stay clear of the planes, the exact grids decide those
            LD f = std::floor(u), fr = u - f; if (fr < 0.001L || fr > 0.999L) u = f + (r.flip() ? 0.01L : 0.4L);
        }
        q.u[d] = u; q.p[d] = c.exact ? c.a[d] + c.h[d] * (double)u : (double)((LD)c.a[d] + (LD)c.s[d] / n * u);
    }
    return q;
}
// inclusive range of existing cells whose closure contains abscissa u (empty: lo > hi)
static void range(LD u, I n, I &lo, I &hi) {
    LD f = std::floor(u); lo = hi = (I)f; if (f == u) lo = hi - 1;
    lo = std::max<I>(lo, 0); hi = std::min<I>(hi, n-1);
}
static std::vector<I> box_cells(const GridCase &c, const I *lo, const I *hi) {
    std::vector<I> out;
    for (int d = 0; d < D; ++d) if (lo[d] > hi[d]) return out;
    A3 x{0,0,0};
    for (x[0] = lo[0]; x[0] <= hi[0]; ++x[0]) {
        if (D == 1) { out.push_back(c.cidx(x)); continue; }
        for (x[1] = lo[1]; x[1] <= hi[1]; ++x[1]) {
            if (D == 2) { out.push_back(c.cidx(x)); continue; }
            for (x[2] = lo[2]; x[2] <= hi[2]; ++x[2]) out.push_back(c.cidx(x));
        }
    }
    std::sort(out.begin(), out.end()); return out;
}
static std::string sl(const std::vector<I> &v) { std::string r = "{"; for (size_t i = 0; i < v.size() && i < 40; ++i) r += fmt("%lld ", v[i]); return r + (v.size() > 40 ? "...}" : "}"); }
static bool inside(const GridCase &c, const Pt &q) { for (int d = 0; d < D; ++d) if (q.u[d] < 0 || q.u[d] > c.n[d]) return false; return true; }

// ---------------------------------------------------------------- P12
static void location() {
    Rng r; uint64_t N = M().n(3000, 60000);
    for (uint64_t t = 0; t < N; ++t) {
        if (!mon::begin(fmt("location%dD", D), t, r)) continue;
        int mode = (int)(t % 10 == 9 ? 2 : t % 3 == 2 ? 1 : 0);
        GridCase c = make(r, mode); G &g = c.g; BG &b = g;
        mon::describe("%s", c.str().c_str()); mon::sample(1);
        for (int k = 0; k < 24; ++k) {
            Pt q = point(r, c, k % 3 == 0 ? 1 : -1);
            if (mode == 2) for (int d = 0; d < D; ++d) { q.u[d] = std::floor(q.u[d] * 16) / 16; q.p[d] = c.a[d] + c.h[d] * (double)q.u[d]; }
            if (mode == 2 && D == 1) { double back = (q.p[0] - c.a[0]) / c.h[0]; if ((LD)back != q.u[0]) continue; }
            mon::describe("%s p=%s", c.str().c_str(), sw(q.p).c_str());
            uint64_t hh = ghash(c); for (int d = 0; d < D; ++d) hh = mon::mix(hh, mon::hash_d(q.p[d])); mon::distinct(hh);
            bool in = inside(c, q); int on = 0; bool upper = false;
            for (int d = 0; d < D; ++d) { on += q.u[d] == std::floor(q.u[d]); upper = upper || q.u[d] == c.n[d]; }
            mon::observe(fmt("%s-on-%d-planes", in ? "inside" : "outside", on));
            CHECK("contains", g.contains(q.p) == in, "contains(%s)=%d expected %d", sw(q.p).c_str(), (int)g.contains(q.p), (int)in);
            { // tolerance relative to the grid size
                double eps = r.logu(1e-6, 0.3); LD over = 0; bool margin = true;
                for (int d = 0; d < D; ++d) over = std::max(over, std::max(-q.u[d], q.u[d] - c.n[d]) / c.n[d]);
                if (std::fabs(over - eps) < 1e-9L) margin = false;
                if (margin) CHECK("contains-tolerance", g.contains(q.p, eps) == (over <= eps), "contains(%s, %g)=%d but the point exceeds the box by %.6Lg of its size", sw(q.p).c_str(), eps, (int)g.contains(q.p, eps), over);
            }
            I lo[3], hi[3]; for (int d = 0; d < D; ++d) range(q.u[d], c.n[d], lo[d], hi[d]);
            auto want = box_cells(c, lo, hi);
            auto got0 = g.cells_around(q.p); std::vector<I> got(got0.begin(), got0.end()); std::sort(got.begin(), got.end());
            bool exist = true; for (I x : got) exist = exist && x >= 0 && x < c.cells();
            CHECK("cells-exist", exist, "cells_around returns a cell that does not exist: %s of %lld cells", sl(got).c_str(), c.cells());
            CHECK("cells-around", got == want, "cells_around(%s)=%s expected %s", sw(q.p).c_str(), sl(got).c_str(), sl(want).c_str());
            mon::observe(fmt("around-%zu-cells", want.size()));
            if (in) {
                I ci = (I)g.cell_index_containing(q.p, true);
                CHECK("containing-with-boundary", std::binary_search(want.begin(), want.end(), ci), "cell_index_containing(%s, true)=%lld, the cells holding it are %s", sw(q.p).c_str(), ci, sl(want).c_str());
                A3 cc = ga(b.cell_coordinates_at(q.p, true)); bool ok = true; for (int d = 0; d < D; ++d) ok = ok && cc[d] >= lo[d] && cc[d] <= hi[d];
                CHECK("coordinates-with-boundary", ok, "cell_coordinates_at(%s, true)=%s", sw(q.p).c_str(), s3(cc).c_str());
                if (!upper) {
                    ci = (I)g.cell_index_containing(q.p);
                    CHECK("containing", std::binary_search(want.begin(), want.end(), ci), "cell_index_containing(%s)=%lld, the cells holding it are %s", sw(q.p).c_str(), ci, sl(want).c_str());
                    A3 c1 = ga(b.cell_coordinates_at(q.p)), c2 = ga(b.cell_coordinates_at(q.p, false)); ok = true;
                    for (int d = 0; d < D; ++d) ok = ok && c1[d] >= lo[d] && c1[d] <= hi[d] && c2[d] >= lo[d] && c2[d] <= hi[d];
                    CHECK("coordinates", ok, "cell_coordinates_at(%s)=%s / %s", sw(q.p).c_str(), s3(c1).c_str(), s3(c2).c_str());
                }
            }
        }
        // every node of every cell is located around that cell
        if (mode == 0) for (int k = 0; k < 6; ++k) {
            I ci = r.irange(0, c.cells()-1); auto nn = g.node_indices_of((G::CellIndex)ci);
            for (auto n : nn) { auto v = g.cells_around(g.node(n)); CHECK("node-around-cell", std::find(v.begin(), v.end(), (G::CellIndex)ci) != v.end(), "cell %lld is not around its own node %lld", ci, (I)n); }
            auto ctr = g.cell_at((G::CellIndex)ci).center(); W w; for (int d = 0; d < D; ++d) w[d] = ctr[d];
            auto v = g.cells_around(w); CHECK("center-in-cell", v.size() == 1 && (I)v[0] == ci && (I)g.cell_index_containing(w) == ci, "the center of cell %lld is located in %lld (%zu cells around)", ci, (I)g.cell_index_containing(w), v.size());
        }
    }
}

// ---------------------------------------------------------------- P13
template <size_t... K> static std::vector<I> enclosing(const G &g, const std::vector<W> &p, std::index_sequence<K...>) {
    auto l = g.cells_enclosing(p[0], W(p[K + 1])...);
    return std::vector<I>(l.begin(), l.end());
}
static std::vector<I> query(const G &g, const std::vector<W> &p) {
    switch (p.size()) {
        case 1: return enclosing(g, p, std::make_index_sequence<0>());
        case 2: return enclosing(g, p, std::make_index_sequence<1>());
        case 3: return enclosing(g, p, std::make_index_sequence<2>());
        case 4: return enclosing(g, p, std::make_index_sequence<3>());
        case 5: return enclosing(g, p, std::make_index_sequence<4>());
        default: return enclosing(g, p, std::make_index_sequence<7>());
    }
}
static void region() {
    Rng r; uint64_t N = M().n(9000, 200000);
    for (uint64_t t = 0; t < N; ++t) {
        if (!mon::begin(fmt("region%dD", D), t, r)) continue;
        GridCase c = make(r, t % 3 == 2); G &g = c.g;
        for (int rep = 0; rep < 6; ++rep) {
            static const int sizes[] = {1, 2, 3, 4, 5, 8}; int np = sizes[r.irange(0, 5)];
            std::vector<Pt> q; std::vector<W> p; int nin = 0; int bias = r.flip(0.4) ? 1 : -1;
            std::string d; uint64_t hh = ghash(c);
            for (int k = 0; k < np; ++k) { q.push_back(point(r, c, bias)); p.push_back(q.back().p); nin += inside(c, q.back()); d += sw(p.back()); for (int a = 0; a < D; ++a) hh = mon::mix(hh, mon::hash_d(p.back()[a])); }
            mon::describe("%s points=%s", c.str().c_str(), d.c_str()); mon::sample(2); mon::distinct(hh);
            mon::observe(nin == np ? "all-inside" : nin ? "partly-outside" : "all-outside"); mon::observe(fmt("%d-points", np));
            I lo[3], hi[3];
            for (int a = 0; a < D; ++a) {
                lo[a] = c.n[a] - 1; hi[a] = 0;
                for (auto &x : q) { LD f = std::floor(x.u[a]); I l = (I)f, h = (I)f; if (f == x.u[a]) l--; l = std::min(std::max<I>(l, 0), c.n[a]-1); h = std::min(std::max<I>(h, 0), c.n[a]-1); lo[a] = std::min(lo[a], l); hi[a] = std::max(hi[a], h); }
            }
            auto want = nin ? box_cells(c, lo, hi) : std::vector<I>();
            auto got = query(g, p); auto raw = got; std::sort(got.begin(), got.end());
            bool exist = true; for (I x : got) exist = exist && x >= 0 && x < c.cells();
            CHECK("cells-exist", exist, "cells_enclosing returns a cell that does not exist: %s of %lld cells", sl(got).c_str(), c.cells());
            CHECK("once", std::adjacent_find(got.begin(), got.end()) == got.end(), "a cell is returned twice: %s", sl(raw).c_str());
            CHECK("enclosing", got == want, "cells_enclosing = %s expected %s (%d of %d points inside)", sl(got).c_str(), sl(want).c_str(), nin, np);
            for (size_t k = p.size(); k > 1; --k) std::swap(p[k-1], p[r.u64() % k]);
            auto g2 = query(g, p); std::sort(g2.begin(), g2.end());
            CHECK("order-independent", g2 == got, "permuting the points gives %s instead of %s", sl(g2).c_str(), sl(got).c_str());
            if (p.size() < 5) { // lvalue arguments
            }
        }
    }
}

int main(int argc, char **argv) {
    mon::init(argc, argv);
#if PROP == 10
    numbering();
#elif PROP == 11
    enumeration();
#elif PROP == 12
    location();
#else
    region();
#endif
    return mon::finish();
}
