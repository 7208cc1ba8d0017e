// Mesh file monitor (P19): legacy files written by an independent writer, read back through VTKReader. DIM, IDX.
#include "ref.h"
#include <Caribou/Topology/IO/VTKReader.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <sstream>
#include <fstream>
using namespace caribou; using namespace caribou::topology;
constexpr int D = DIM; using NI = IDX;
using Reader = io::VTKReader<D, NI>; using MeshT = Mesh<D>;

struct CT { int vtk; int n; const char *name; Fam fam; int order; int mindim; };
static const CT SUP[] = {{3, 2, "line", SEG, 1, 1}, {21, 3, "quadratic-edge", SEG, 2, 1}, {5, 3, "triangle", TRI, 1, 2}, {22, 6, "quadratic-triangle", TRI, 2, 2}, {9, 4, "quad", QUAD, 1, 2}, {23, 8, "quadratic-quad", QUAD, 2, 2},
    {10, 4, "tetra", TET, 1, 3}, {24, 10, "quadratic-tetra", TET, 2, 3}, {12, 8, "hexahedron", HEX, 1, 3}, {25, 20, "quadratic-hexahedron", HEX, 2, 3}};
static const CT UNS[] = {{1, 1, "vertex", SEG, 0, 9}, {4, 5, "poly-line", SEG, 0, 9}, {13, 6, "wedge", SEG, 0, 9}, {14, 5, "pyramid", SEG, 0, 9}, {7, 5, "polygon", SEG, 0, 9}};

struct File {
    std::vector<V3> X; std::vector<std::pair<int, std::vector<int>>> cells; // (vtk type, nodes)
    bool binary = false, dbl = true, v51 = false, data = false; int version = 0; std::string header;
};
template <class T> static void be(std::string &o, T v) { unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); for (size_t i = sizeof(T); i-- > 0;) o += (char)b[i]; }
static std::string render(const File &f, Rng &r) {
    std::string o; o += f.v51 ? "# vtk DataFile Version 5.1\n" : f.version == 0 ? "# vtk DataFile Version 2.0\n" : f.version == 1 ? "# vtk DataFile Version 3.0\n" : "# vtk DataFile Version 4.2\n";
    o += f.header + "\n"; o += f.binary ? "BINARY\n" : "ASCII\n"; o += "DATASET UNSTRUCTURED_GRID\n";
    o += fmt("POINTS %zu %s\n", f.X.size(), f.dbl ? "double" : "float");
    for (auto &x : f.X) for (int d = 0; d < 3; ++d) { if (f.binary) { if (f.dbl) be(o, (double)x[d]); else be(o, (float)x[d]); } else o += fmt(f.dbl ? "%.17g" : "%.9g", (double)x[d]) + (d == 2 ? "\n" : " "); }
    if (f.binary) o += "\n";
    size_t total = 0; for (auto &c : f.cells) total += c.second.size();
    if (f.v51) {
        o += fmt("CELLS %zu %zu\nOFFSETS vtktypeint64\n", f.cells.size() + 1, total); int64_t off = 0;
        auto put = [&](int64_t v) { if (f.binary) be(o, v); else o += fmt("%lld ", (long long)v); };
        put(0); for (auto &c : f.cells) { off += c.second.size(); put(off); } o += "\nCONNECTIVITY vtktypeint64\n"; for (auto &c : f.cells) for (int n : c.second) put(n); o += "\n";
    } else {
        o += fmt("CELLS %zu %zu\n", f.cells.size(), total + f.cells.size());
        for (auto &c : f.cells) { if (f.binary) { be(o, (int32_t)c.second.size()); for (int n : c.second) be(o, (int32_t)n); } else { o += fmt("%zu", c.second.size()); for (int n : c.second) o += fmt(" %d", n); o += "\n"; } }
        if (f.binary) o += "\n";
    }
    o += fmt("CELL_TYPES %zu\n", f.cells.size());
    for (auto &c : f.cells) { if (f.binary) be(o, (int32_t)c.first); else o += fmt("%d\n", c.first); }
    if (f.binary) o += "\n";
    if (f.data && !f.binary) {
        if (!f.cells.empty()) { o += fmt("CELL_DATA %zu\nSCALARS material int 1\nLOOKUP_TABLE default\n", f.cells.size()); for (size_t i = 0; i < f.cells.size(); ++i) o += fmt("%d\n", (int)r.irange(0, 9)); }
        if (!f.X.empty()) { o += fmt("POINT_DATA %zu\nSCALARS temperature double 1\nLOOKUP_TABLE default\n", f.X.size()); for (size_t i = 0; i < f.X.size(); ++i) o += fmt("%g\n", r.uni(-1, 1)); }
    }
    return o;
}

// documented node order of each element kind == the reader's output; only the quadratic hexahedron is reordered by the code
static const int KNOWN_HEX20[20] = {0,1,2,3,4,5,6,7,8,9,18,11,10,14,15,12,13,16,19,17};

template <class E> static bool match_domain(const BaseDomain *bd, const CT &t, const std::vector<std::vector<int>> &want, const File &f, const int *axes) {
    auto *d = dynamic_cast<const Domain<E, NI> *>(bd);
    if (!d) return false;
    CHECK("cell-count", d->number_of_elements() == want.size() && (int)d->number_of_nodes_per_elements() == t.n, "%s: %d elements of %d nodes, the file has %zu cells of %d", t.name, (int)d->number_of_elements(), (int)d->number_of_nodes_per_elements(), want.size(), t.n);
    if (d->number_of_elements() != want.size() || (int)d->number_of_nodes_per_elements() != t.n) return true;
    for (size_t e = 0; e < want.size(); ++e) {
        auto id = d->element_indices(e); auto el = d->element(e); bool same = true, known = t.vtk == 25;
        for (int k = 0; k < t.n; ++k) { same &= (long long)id[k] == want[e][k]; if (t.vtk == 25) known &= (long long)id[k] == want[e][KNOWN_HEX20[k]]; }
        std::string got, exp; if (!same) for (int k = 0; k < t.n; ++k) { got += fmt("%lld ", (long long)id[k]); exp += fmt("%d ", want[e][k]); }
        if (t.vtk == 25 && !same && known) CHECK("hex20-node-order", false, "the cells of a VTK file are reordered by 10<-18 12<-10 13<-14 14<-15 15<-12 16<-13 17<-16 18<-19 19<-17");
        else CHECK(t.vtk == 25 ? std::string("connectivity-hex20") : std::string("connectivity"), same, "%s cell %zu: nodes [%s] expected [%s]", t.name, e, got.c_str(), exp.c_str());
        bool pos = true; for (int k = 0; k < t.n; ++k) for (int a = 0; a < D; ++a) pos &= (long long)id[k] >= 0 && (size_t)id[k] < f.X.size() && el.node(k)[a] == (double)f.X[id[k]][axes[a]];
        CHECK("element-positions", pos, "%s cell %zu: the element is not built from its nodes", t.name, e);
    }
    mon::observe(fmt("cells:%s", t.name), want.size());
    return true;
}
static bool dispatch(const BaseDomain *d, const CT &t, const std::vector<std::vector<int>> &w, const File &f, const int *ax) {
    switch (t.vtk) {
        case 3: return match_domain<cg::Segment<D, Linear>>(d, t, w, f, ax);
        case 21: return match_domain<cg::Segment<D, Quadratic>>(d, t, w, f, ax);
#if DIM > 1
        case 5: return match_domain<cg::Triangle<D, Linear>>(d, t, w, f, ax);
        case 22: return match_domain<cg::Triangle<D, Quadratic>>(d, t, w, f, ax);
        case 9: return match_domain<cg::Quad<D, Linear>>(d, t, w, f, ax);
        case 23: return match_domain<cg::Quad<D, Quadratic>>(d, t, w, f, ax);
#endif
#if DIM > 2
        case 10: return match_domain<cg::Tetrahedron<Linear>>(d, t, w, f, ax);
        case 24: return match_domain<cg::Tetrahedron<Quadratic>>(d, t, w, f, ax);
        case 12: return match_domain<cg::Hexahedron<Linear>>(d, t, w, f, ax);
        case 25: return match_domain<cg::Hexahedron<Quadratic>>(d, t, w, f, ax);
#endif
    }
    return false;
}

int main(int argc, char **argv) {
    mon::init(argc, argv);
    const char *sd = getenv("VERIF_SCRATCH"); std::string dir = sd ? sd : ".";
    uint64_t N = M().n(500, 12000);
    for (uint64_t t = 0; t < N; ++t) {
        Rng r; if (!mon::begin(fmt("file%dD", D), t, r)) continue;
        File f; f.binary = r.flip(0.3); f.dbl = r.flip(0.6); f.v51 = r.flip(0.3); f.data = r.flip(0.3); f.version = (int)r.irange(0, 2); f.header = r.flip() ? "mesh" : "written by a test # 3D";
        int np = t % 25 == 0 ? 0 : (int)r.irange(1, r.flip(0.2) ? 400 : 40);
        int vary = 0; bool va[3]; // which axes vary
        int mode = (int)r.irange(0, 5);   // 0: wrong number of varying axes
        for (;;) { vary = 0; for (auto &b : va) { b = r.flip(); vary += b; } if (D == 3 ? true : (mode == 0 ? vary != D : vary == D)) break; }
        double cst[3], sc = r.logu(1e-3, 1e3); for (auto &c : cst) c = r.flip(0.4) ? 0 : r.flip(0.1) ? -0.0 : r.uni(-50, 50);
        for (int i = 0; i < np; ++i) { V3 x; for (int d = 0; d < 3; ++d) { double v = va[d] ? (r.flip(0.2) ? (double)r.irange(-3, 3) : r.uni(-1, 1) * sc) : cst[d]; x[d] = f.dbl ? (LD)v : (LD)(float)v; } f.X.push_back(x); }
        if (mode == 1 && np > 1) { // every coordinate equal but the last point (or only the last differs)
            for (int i = 0; i + 1 < np; ++i) for (int d = 0; d < 3; ++d) f.X[i][d] = f.X[0][d];
            for (int d = 0; d < 3; ++d) if (va[d]) { double v = (double)f.X[0][d] + 1; f.X[np-1][d] = f.dbl ? (LD)v : (LD)(float)v; }
            mon::observe("points:only-last-differs");
        }
        bool rv[3]; int nv = 0, axes[3] = {0,1,2}; for (int d = 0; d < 3; ++d) { rv[d] = false; for (auto &x : f.X) rv[d] |= x[d] != f.X[0][d]; nv += rv[d]; }
        bool expressible = D == 3 || np == 0 || nv == D;
        if (D < 3) { int c = 0; for (int d = 0; d < 3; ++d) if (rv[d] && c < D) axes[c++] = d; }
        if (np > 0) {
            int nt = (int)r.irange(1, 4); std::vector<CT> ty; for (int k = 0; k < nt; ++k) ty.push_back(r.flip(0.15) ? UNS[r.u64() % 5] : SUP[r.u64() % 10]);
            int nc = (int)r.irange(0, r.flip(0.2) ? 200 : 30); bool grouped = r.flip();
            for (int c = 0; c < nc; ++c) { const CT &k = grouped ? ty[(size_t)c * ty.size() / nc] : ty[r.u64() % ty.size()]; std::vector<int> n; for (int i = 0; i < k.n; ++i) n.push_back((int)(r.u64() % np)); f.cells.push_back({k.vtk, n}); }
            mon::observe(grouped ? "cells-grouped" : "cells-interleaved");
        }
        std::string path = dir + fmt("/m%llu.vtk", (unsigned long long)(t % 7)); { std::ofstream o(path, std::ios::binary); o << render(f, r); }
        std::string desc = fmt("%s %s %s points=%d varying=%d%d%d cells=%zu", f.binary ? "binary" : "ascii", f.dbl ? "double" : "float", f.v51 ? "5.1" : "legacy", np, rv[0], rv[1], rv[2], f.cells.size());
        mon::describe("%s", desc.c_str()); mon::sample(3);
        uint64_t h = mon::mix(np, f.cells.size()); for (auto &c : f.cells) { h = mon::mix(h, c.first); for (int n : c.second) h = mon::mix(h, n); } if (np) h = mon::mix(h, mon::hash_d((double)f.X.back()[0])); mon::distinct(h);
        mon::observe(f.binary ? "file:binary" : "file:ascii"); mon::observe(f.v51 ? "file:5.1" : "file:old"); if (np == 0) mon::observe("file:empty");
        // missing file
        if (t % 20 == 3) { bool th = false; try { Reader::Read(path + ".absent"); } catch (const std::invalid_argument &) { th = true; } catch (const std::exception &) {} CHECK("missing-file-error", th, "reading an absent file is not refused as an invalid argument"); mon::observe("refusal:missing-file"); }
        bool threw = false; std::string what;
        try {
            Reader rd = Reader::Read(path);
            if (r.flip(0.3)) std::remove(path.c_str());
            std::ostringstream ps; rd.print(ps);
            CHECK("print-counts", ps.str().find(fmt("%d points", np)) != std::string::npos && ps.str().find(fmt("%zu cells", f.cells.size())) != std::string::npos, "print: %s", ps.str().c_str());
            { std::map<int, size_t> tc; for (auto &c : f.cells) ++tc[c.first]; bool ok = ps.str().find(fmt("\n%zu types", tc.size())) != std::string::npos; for (auto &k : tc) ok = ok && ps.str().find(fmt(" : %zu\n", k.second)) != std::string::npos; CHECK("print-types", ok, "print: %s", ps.str().c_str()); }
            MeshT m = rd.mesh(); MeshT m2 = rd.mesh();
            if (!expressible) { CHECK("inexpressible-error", false, "%d axes vary but a %dD mesh was read", nv, D); continue; }
            CHECK("node-count", (int)m.number_of_nodes() == np && (int)m2.number_of_nodes() == np, "%d nodes, the file has %d", (int)m.number_of_nodes(), np);
            if ((int)m.number_of_nodes() == np) {
                bool ok = true; int bad = 0; for (int i = 0; i < np; ++i) for (int a = 0; a < D; ++a) if (!(m.position(i)[a] == (double)f.X[i][axes[a]] && m2.position(i)[a] == (double)f.X[i][axes[a]])) { ok = false; bad = i; }
                CHECK("node-positions", ok, "node %d is not at the position of the file (axes %d %d %d)", bad, axes[0], axes[1], axes[2]);
            }
            // one domain per supported cell type present
            std::vector<CT> present; for (auto &k : SUP) if (k.mindim <= D) for (auto &c : f.cells) if (c.first == k.vtk) { present.push_back(k); break; }
            for (auto *mm : {&m, &m2}) {
                CHECK("domain-count", mm->number_of_domains() == present.size(), "%d domains, the file has %zu supported cell types", (int)mm->number_of_domains(), present.size());
                std::set<std::string> names; size_t i = 0; for (auto &p : mm->domains()) { names.insert(p.first); CHECK("domain-name", p.first == fmt("domain_%zu", ++i), "domain %zu is called %s", i, p.first.c_str()); }
                for (auto &k : present) {
                    std::vector<std::vector<int>> w; for (auto &c : f.cells) if (c.first == k.vtk) w.push_back(c.second);
                    int hits = 0; for (auto &p : mm->domains()) hits += dispatch(p.second, k, w, f, axes);
                    CHECK("one-domain-per-type", hits == 1, "%d domains of %s", hits, k.name);
                }
            }
            // a registered builder replaces the default one
            if (!present.empty() && r.flip(0.3)) {
                const CT &k = present[r.u64() % present.size()]; long rows = -1, cols = -1; bool same = true; size_t cnt = 0;
                std::vector<std::vector<int>> w; for (auto &c : f.cells) if (c.first == k.vtk) w.push_back(c.second);
                rd.register_element_type((VTKCellType)k.vtk, [&](MeshT &, const typename Reader::ElementsIndices &ix) -> BaseDomain * { ++cnt; rows = ix.rows(); cols = ix.cols(); for (long a = 0; a < rows && a < (long)w.size(); ++a) for (long b = 0; b < cols && b < k.n; ++b) same &= (long long)ix(a, b) == w[a][b]; return nullptr; });
                MeshT m3 = rd.mesh();
                CHECK("registered-builder", cnt == 1 && rows == (long)w.size() && cols == k.n && same, "the registered builder of %s was called %zu times with %ldx%ld indices", k.name, cnt, rows, cols);
                CHECK("registered-builder-only", m3.number_of_domains() == present.size() - 1, "%d domains", (int)m3.number_of_domains()); mon::observe("custom-builder");
            }
            if (np > 0) mon::observe(fmt("axes-%d%d%d", axes[0], D > 1 ? axes[1] : 9, D > 2 ? axes[2] : 9));
        } catch (const std::runtime_error &x) { threw = true; what = x.what(); }
        if (threw) { CHECK("reads", !expressible, "reading failed with: %s", what.c_str()); }
        if (!expressible) { CHECK("inexpressible-error", threw, "no error"); mon::observe("refusal:axes"); }
    }
    return mon::finish();
}
