// P27: the Eigen matrices and vectors given to SOFA, against a dense model over histories of operations. PART selects the storage.
#include "sofa.h"
#include <Eigen/Sparse>
#include <SofaCaribou/Algebra/EigenMatrix.h>
#include <SofaCaribou/Algebra/EigenVector.h>
#include <SofaCaribou/Algebra/BaseVectorOperations.h>
using BM = sofa::defaulttype::BaseMatrix; using BV = sofa::defaulttype::BaseVector;
using SofaCaribou::Algebra::EigenMatrix; using SofaCaribou::Algebra::EigenVector;
template <class T> constexpr bool is_sparse = std::is_base_of_v<Eigen::SparseMatrixBase<T>, T>;
static double val(Rng &r) { return r.flip(0.1) ? 0 : r.irange(-400, 400) / 4.; }   // sums of these are exact in single precision
struct Model { int n = 0, m = 0; std::vector<double> a; void size(int r, int c) { n = r; m = c; a.assign((size_t)r * c, 0.); } double &at(int i, int j) { return a[(size_t)i * m + j]; } };

// T: Eigen type; REF: the wrapper refers to the user's matrix instead of copying it
template <class T, bool REF> static void matrix_history(const char *name, Rng &r, uint64_t t) {
    constexpr bool SP = is_sparse<T>; using W = EigenMatrix<std::conditional_t<REF, T &, T>>;
    Model md; md.size((int)r.irange(1, 9), (int)r.irange(1, 9)); bool sym = SP && r.flip(0.3); if (sym) md.size(md.n, md.n);
    T ext(md.n, md.m); bool loaded = false; Model before;
    if constexpr (!SP) { ext.setZero(); } 
    if (r.flip(0.5)) { loaded = true; mon::observe("external:with-content");
        for (int k = 0; k < 12; ++k) { int i = (int)(r.u64() % md.n), j = (int)(r.u64() % md.m); double v = val(r); if constexpr (SP) { ext.coeffRef(i, j) = (typename T::Scalar)v; if (sym) ext.coeffRef(j, i) = (typename T::Scalar)v; } else ext(i, j) = (typename T::Scalar)v; md.at(i, j) = v; if (sym) md.at(j, i) = v; }
        if constexpr (SP) { if (r.flip()) ext.makeCompressed(); else if (!ext.isCompressed()) mon::observe("external:uncompressed"); } }
    before = md; T original = ext;
    bool by_size = !REF && !loaded && r.flip(0.4); std::unique_ptr<W> w;
    if constexpr (!REF) { if (by_size) { if (r.flip() || SP) w.reset(new W(md.n, md.m)); else { w.reset(new W()); } } }
    if (!w) w.reset(new W(ext)); BM *b = w.get(); bool ready = !SP;      // whether coefficients may be read
    if (by_size && !SP) { b->resize(md.n, md.m); }
    if constexpr (SP) { if (sym) w->set_symmetric(true); CHECK("symmetric-flag", w->symmetric() == sym, "symmetric() does not tell what was set"); }
    std::string head = fmt("%s%s %dx%d%s%s", name, REF ? "&" : "", md.n, md.m, loaded ? " loaded" : "", sym ? " symmetric" : ""); mon::describe("%s", head.c_str()); mon::sample(2);
    uint64_t hist = mon::mix(t, mon::hash_str(head.c_str())); int ops = (int)r.irange(3, 25); std::string trace;
    auto verify = [&](const char *op) {
        CHECK("dimensions", b->rowSize() == md.n && b->colSize() == md.m, "%s: %dx%d instead of %dx%d after%s", op, (int)b->rowSize(), (int)b->colSize(), md.n, md.m, trace.c_str()); if (b->rowSize() != md.n || b->colSize() != md.m) return false;
        if (!ready) return true; bool ok = true;
        const T &e = w->matrix(); CHECK("eigen-dimensions", e.rows() == md.n && e.cols() == md.m, "%s: Eigen matrix of a wrong size after%s", op, trace.c_str());
        T snap = e; Eigen::MatrixXd dense = Eigen::MatrixXd::Zero(md.n, md.m); if constexpr (SP) { for (int k = 0; k < snap.outerSize(); ++k) for (typename T::InnerIterator it(snap, k); it; ++it) dense(it.row(), it.col()) += it.value(); } else dense = snap.template cast<double>();
        for (int i = 0; i < md.n && ok; ++i) for (int j = 0; j < md.m && ok; ++j) { double v = b->element(i, j), g = dense(i, j); CHECK("coefficient", v == md.at(i, j) && g == md.at(i, j), "%s: (%d,%d) reads %.9g, the Eigen matrix has %.9g, expected %.9g after%s", op, i, j, v, g, md.at(i, j), trace.c_str()); ok = v == md.at(i, j) && g == md.at(i, j); }
        if constexpr (REF) CHECK("refers-to-external", (const void *)&w->matrix() == (const void *)&ext, "the wrapper does not refer to the external matrix");
        return ok;
    };
    if (!verify("construction")) return;
    for (int o = 0; o < ops; ++o) {
        int op = (int)r.irange(0, 14), n = md.n, m = md.m; if (!n || !m) op = 12; int i = n ? (int)(r.u64() % n) : 0, j = m ? (int)(r.u64() % m) : 0; const char *nm = "add";
        if constexpr (SP) if (!ready && op >= 4 && op != 12 && r.flip(0.7)) op = (int)r.irange(0, 3);   // assemble for a while
        switch (op) {
        case 0: case 1: { double v = val(r); b->add(i, j, v); md.at(i, j) += v; if (sym && i != j) { b->add(j, i, v); md.at(j, i) += v; } if (SP && ready) mon::observe("add-after-compress"); } break;
        case 2: case 3: { int s = r.flip() ? 3 : 2; if (n < s || m < s) break; i = (int)(r.u64() % (n - s + 1)); j = (int)(r.u64() % (m - s + 1)); nm = "add-block"; double q[3][3]; for (auto &x : q) for (auto &y : x) y = val(r); if (sym) { for (int a = 0; a < 3; ++a) for (int c = 0; c < a; ++c) q[a][c] = q[c][a]; j = i; }
            for (int a = 0; a < s; ++a) for (int c = 0; c < s; ++c) md.at(i + a, j + c) += q[a][c]; bool f = r.flip();
            if (s == 3 && !f) { sofa::type::Mat3x3d x; for (int a = 0; a < s; ++a) for (int c = 0; c < s; ++c) x[a][c] = q[a][c]; b->add(i, j, x); } if (s == 3 && f) { sofa::type::Mat3x3f x; for (int a = 0; a < s; ++a) for (int c = 0; c < s; ++c) x[a][c] = (float)q[a][c]; b->add(i, j, x); }
            if (s == 2 && !f) { sofa::type::Mat2x2d x; for (int a = 0; a < s; ++a) for (int c = 0; c < s; ++c) x[a][c] = q[a][c]; b->add(i, j, x); } if (s == 2 && f) { sofa::type::Mat2x2f x; for (int a = 0; a < s; ++a) for (int c = 0; c < s; ++c) x[a][c] = (float)q[a][c]; b->add(i, j, x); } mon::observe(fmt("block:%d%s", s, f ? "f" : "d")); } break;
        case 4: case 5: { nm = "set"; double v = val(r); b->set(i, j, v); md.at(i, j) = v; if (sym && i != j) { b->set(j, i, v); md.at(j, i) = v; } mon::observe(ready ? "set" : "set-before-compress"); ready = true; } break;
        case 6: { if (sym) break; nm = "clearRow"; b->clearRow(i); for (int c = 0; c < m; ++c) md.at(i, c) = 0; ready = true; mon::observe(nm); } break;
        case 7: { if (sym) break; nm = "clearCol"; b->clearCol(j); for (int c = 0; c < n; ++c) md.at(c, j) = 0; ready = true; mon::observe(nm); } break;
        case 8: { if (sym) break; nm = "clearRows"; int k = (int)r.irange(i, n - 1); b->clearRows(i, k); for (int q = i; q <= k; ++q) for (int c = 0; c < m; ++c) md.at(q, c) = 0; ready = true; mon::observe(nm); } break;
        case 9: { if (sym) break; nm = "clearCols"; int k = (int)r.irange(j, m - 1); b->clearCols(j, k); for (int q = j; q <= k; ++q) for (int c = 0; c < n; ++c) md.at(c, q) = 0; ready = true; mon::observe(nm); } break;
        case 10: { nm = "clearRowCol"; i = (int)(r.u64() % std::min(n, m)); b->clearRowCol(i); for (int c = 0; c < m; ++c) md.at(i, c) = 0; for (int c = 0; c < n; ++c) md.at(c, i) = 0; ready = true; mon::observe(sym ? "clearRowCol:symmetric" : "clearRowCol");
            if (r.flip()) { b->set(i, i, 1.); md.at(i, i) = 1; mon::observe("fix-a-degree-of-freedom"); } } break;
        case 11: { nm = "clear"; b->clear(); std::fill(md.a.begin(), md.a.end(), 0.); ready = !SP; mon::observe(nm); } break;
        case 12: { nm = "resize"; if (r.flip(0.6) && n && m) break; int a = (int)r.irange(r.flip(0.05) ? 0 : 1, 9), c = (int)r.irange(1, 9); if (sym) c = a; b->resize(a, c); md.size(a, c); ready = !SP; mon::observe(a * c > n * m ? "resize:larger" : "resize:smaller"); } break;
        default: { nm = "compress"; b->compress(); mon::observe(ready ? "compress:again" : "compress:first"); ready = true; if constexpr (SP) CHECK("compressed", w->matrix().isCompressed(), "the matrix is not compressed after compress()"); }
        }
        trace += fmt(" %s(%d,%d)", nm, i, j); hist = mon::mix(hist, op * 100 + i * 10 + j); mon::distinct(hist); mon::describe("%s step=%d", head.c_str(), o);
        if constexpr (SP) if (ready && !w->matrix().isCompressed() && op >= 6 && op <= 10) mon::observe("clear-in-uncompressed");
        if (!verify(nm)) return;
    }
    if (!ready) { b->compress(); ready = true; if (!verify("final compress")) return; }
    if (!REF) { bool same = ext.rows() == original.rows() && ext.cols() == original.cols(); Eigen::MatrixXd A(ext.rows(), ext.cols()), B(original.rows(), original.cols()); if constexpr (SP) { A = Eigen::MatrixXd(ext.template cast<double>()); B = Eigen::MatrixXd(original.template cast<double>()); } else { A = ext.template cast<double>(); B = original.template cast<double>(); } CHECK("copy-is-independent", same && A == B, "the copied matrix changed with the wrapper"); mon::observe("copied"); }
}
template <class T, bool REF> static void vector_history(const char *name, Rng &r, uint64_t t) {
    using S = typename T::Scalar; using W = EigenVector<std::conditional_t<REF, T &, T>>; int n = (int)r.irange(0, 9); T ext(n); std::vector<double> md(n); for (int i = 0; i < n; ++i) { md[i] = std::trunc(val(r)); ext[i] = (S)md[i]; }
    std::unique_ptr<W> w; T original = ext; if constexpr (!REF) { if (r.flip(0.3)) { w.reset(r.flip() ? new W() : new W(n)); w->resize(n); std::fill(md.begin(), md.end(), 0.); } } if (!w) w.reset(new W(ext)); BV *b = w.get(); std::string head = fmt("vector %s%s %d", name, REF ? "&" : "", n); mon::describe("%s", head.c_str()); uint64_t hist = mon::mix(t, mon::hash_str(head.c_str()));
    int ops = (int)r.irange(2, 15);
    for (int o = 0; o <= ops; ++o) {
        int op = o == 0 ? 9 : (int)r.irange(0, 5), i = md.empty() ? 0 : (int)(r.u64() % md.size()); double v = std::trunc(val(r));
        if (md.empty() && op < 4) op = 5;
        if (op <= 1) { b->set(i, v); md[i] = v; } else if (op <= 3) { b->add(i, v); md[i] += v; } else if (op == 4) { b->clear(); std::fill(md.begin(), md.end(), 0.); mon::observe("vector:clear"); } else if (op == 5) { int k = (int)r.irange(0, 9); b->resize(k); md.assign(k, 0.); mon::observe("vector:resize"); }
        hist = mon::mix(hist, op * 10 + i); mon::distinct(hist); CHECK("vector-size", b->size() == (int)md.size() && w->vector().size() == (int)md.size(), "size %d instead of %zu", (int)b->size(), md.size()); if (b->size() != (int)md.size()) return;
        bool ok = true; for (size_t k = 0; k < md.size(); ++k) ok &= b->element((int)k) == md[k] && (double)w->vector()[k] == md[k] && (!REF || (double)ext[k] == md[k]); CHECK("vector-coefficients", ok, "%s: wrong coefficients after step %d (operation %d)", head.c_str(), o, op);
    }
    CHECK("element-type", b->getElementSize() == sizeof(S) && b->getElementType() == (std::is_integral_v<S> ? BV::ELEMENT_INT : BV::ELEMENT_FLOAT), "wrong element type or size");
    if (!REF) CHECK("copy-is-independent", ext == original, "the copied vector changed with the wrapper"); mon::observe(REF ? "vector:by-reference" : "vector:by-copy");
}
struct Other : BV { std::vector<double> v; Index size() const override { return (int)v.size(); } SReal element(Index i) const override { return v.at(i); } void resize(Index n) override { v.assign(n, 0.); } void clear() override { std::fill(v.begin(), v.end(), 0.); } void set(Index i, SReal x) override { v.at(i) = x; } void add(Index i, SReal x) override { v.at(i) += x; } };
static void dots(Rng &r, uint64_t t) {
    static const char *kn[] = {"full<double>", "full<float>", "eigen<double>", "eigen<float>", "eigen<double>&", "eigen-row", "other"}; int n = (int)r.irange(0, 12); std::vector<double> x[2]; std::unique_ptr<BV> p[2]; int k[2]; Eigen::VectorXd ext[2];
    for (int s = 0; s < 2; ++s) { k[s] = (int)r.irange(0, 6); for (int i = 0; i < n; ++i) x[s].push_back((double)r.irange(-300, 300)); ext[s].resize(n);
        switch (k[s]) { case 0: p[s].reset(new sofa::component::linearsolver::FullVector<double>(n)); break; case 1: p[s].reset(new sofa::component::linearsolver::FullVector<float>(n)); break; case 2: p[s].reset(new EigenVector<Eigen::VectorXd>(n)); break; case 3: p[s].reset(new EigenVector<Eigen::VectorXf>(n)); break; case 4: p[s].reset(new EigenVector<Eigen::VectorXd &>(ext[s])); break; case 5: p[s].reset(new EigenVector<Eigen::RowVectorXd>(n)); break; default: p[s].reset(new Other); p[s]->resize(n); }
        for (int i = 0; i < n; ++i) p[s]->set(i, x[s][i]); }
    double ref = 0; for (int i = 0; i < n; ++i) ref += x[0][i] * x[1][i]; mon::describe("dot %s . %s n=%d", kn[k[0]], kn[k[1]], n); mon::observe(std::string("dot:") + kn[k[0]] + "." + kn[k[1]]); double d = SofaCaribou::Algebra::dot(p[0].get(), p[1].get());
    CHECK("dot", d == ref, "%.17g instead of %.17g", d, ref); double s = SofaCaribou::Algebra::dot(p[0].get(), p[0].get()), rs = 0; for (double v : x[0]) rs += v * v; CHECK("dot-self", s == rs, "%.17g instead of %.17g", s, rs); bool kept = true; for (int q = 0; q < 2; ++q) for (int i = 0; i < n; ++i) kept &= p[q]->element(i) == x[q][i]; CHECK("dot-leaves-operands", kept, "an operand changed"); mon::distinct(mon::mix(t, mon::hash_d(ref)));
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(6000, 400000);
    for (uint64_t t = 0; t < K; ++t) {
        Rng r; if (!mon::begin("algebra", t, r)) continue;
        using namespace Eigen;
#if PART == 0
        switch (t % 4) { case 0: matrix_history<Matrix<float, Dynamic, Dynamic>, false>("dense<float>", r, t); break; case 1: matrix_history<Matrix<double, Dynamic, Dynamic, RowMajor>, false>("dense<double,row>", r, t); break; case 2: matrix_history<Matrix<double, Dynamic, Dynamic>, true>("dense<double>", r, t); break; default: matrix_history<Matrix<float, Dynamic, Dynamic, RowMajor>, true>("dense<float,row>", r, t); }
#elif PART == 1
        switch (t % 4) { case 0: matrix_history<SparseMatrix<double>, false>("sparse<double>", r, t); break; case 1: matrix_history<SparseMatrix<float>, true>("sparse<float>", r, t); break; case 2: matrix_history<SparseMatrix<double>, true>("sparse<double>", r, t); break; default: matrix_history<SparseMatrix<double, ColMajor, long>, false>("sparse<double,long>", r, t); }
#elif PART == 2
        switch (t % 3) { case 0: matrix_history<SparseMatrix<double, RowMajor>, false>("sparse<double,row>", r, t); break; case 1: matrix_history<SparseMatrix<float, RowMajor>, false>("sparse<float,row>", r, t); break; default: matrix_history<SparseMatrix<double, RowMajor>, true>("sparse<double,row>", r, t); }
#else
        switch (t % 6) { case 0: vector_history<VectorXd, false>("double", r, t); break; case 1: vector_history<VectorXf, true>("float", r, t); break; case 2: vector_history<RowVectorXd, false>("row double", r, t); break; case 3: vector_history<VectorXi, false>("int", r, t); break; case 4: vector_history<VectorXd, true>("double", r, t); break; default: for (int q = 0; q < 4; ++q) dots(r, t * 4 + q); }
#endif
    }
    return mon::finish();
}
