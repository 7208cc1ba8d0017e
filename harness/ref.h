// Independent oracle for the geometric elements: documented reference nodes + polynomial space ->
// Lagrange basis obtained by solving the Vandermonde system in long double. Shares no code with /repo.
#pragma once
#include "mon.h"
#include <array>
#include <vector>
#include <algorithm>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
#include <Eigen/Dense>

using LD = long double;
using V3 = std::array<LD, 3>;
using mon::Rng; using mon::M; using mon::fmt;

inline V3 operator+(const V3 &a, const V3 &b) { return {a[0]+b[0], a[1]+b[1], a[2]+b[2]}; }
inline V3 operator-(const V3 &a, const V3 &b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
inline V3 operator*(LD s, const V3 &b) { return {s*b[0], s*b[1], s*b[2]}; }
inline LD dot(const V3 &a, const V3 &b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V3 cross(const V3 &a, const V3 &b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline LD norm(const V3 &a) { return std::sqrt(dot(a, a)); }
inline LD maxabs(const V3 &a) { return std::max(std::fabs(a[0]), std::max(std::fabs(a[1]), std::fabs(a[2]))); }
inline std::string str(const V3 &a) { return fmt("(%.17Lg,%.17Lg,%.17Lg)", a[0], a[1], a[2]); }
using M3 = std::array<V3, 3>;  // M3[i][j]: row i, column j
inline V3 mul(const M3 &m, const V3 &v) { return {dot(m[0], v), dot(m[1], v), dot(m[2], v)}; }
inline LD det3(const M3 &m) { return dot(m[0], cross(m[1], m[2])); }

enum Fam { SEG, TRI, QUAD, TET, HEX };

struct Ref {
    Fam fam; int order, c; bool simplex; LD measure; int ncorner;
    std::vector<V3> nodes;
    std::vector<std::array<int,3>> monos;
    std::vector<std::vector<LD>> Vinv; // Vinv[k][i]: coefficient of monomial k in basis function i
    std::vector<std::array<int,2>> mid; // mid[i] = {a,b} corners of mid node i (i>=ncorner)

    static LD pw(LD x, int e) { LD r = 1; while (e-- > 0) r *= x; return r; }
    LD mono(int k, const V3 &x) const { return pw(x[0], monos[k][0]) * pw(x[1], monos[k][1]) * pw(x[2], monos[k][2]); }
    LD dmono(int k, int d, const V3 &x) const {
        LD r = 1;
        for (int j = 0; j < 3; ++j) {
            int e = monos[k][j];
            if (j == d) { if (e == 0) return 0; r *= e * pw(x[j], e - 1); } else r *= pw(x[j], e);
        }
        return r;
    }
    int deg() const { int m = 0; for (auto &a : monos) m = std::max(m, a[0]+a[1]+a[2]); return m; }

    Ref(Fam f, int o) : fam(f), order(o) {
        auto add = [&](LD a, LD b, LD cc) { nodes.push_back({a, b, cc}); };
        if (f == SEG) { c = 1; simplex = false; measure = 2; ncorner = 2; add(-1,0,0); add(1,0,0); if (o == 2) add(0,0,0); }
        if (f == TRI) { c = 2; simplex = true; measure = 0.5L; ncorner = 3; add(0,0,0); add(1,0,0); add(0,1,0);
            if (o == 2) { add(.5,0,0); add(.5,.5,0); add(0,.5,0); } }
        if (f == QUAD) { c = 2; simplex = false; measure = 4; ncorner = 4; add(-1,-1,0); add(1,-1,0); add(1,1,0); add(-1,1,0);
            if (o == 2) { add(0,-1,0); add(1,0,0); add(0,1,0); add(-1,0,0); } }
        if (f == TET) { c = 3; simplex = true; measure = 1/6.L; ncorner = 4; add(0,0,0); add(1,0,0); add(0,1,0); add(0,0,1);
            if (o == 2) { add(.5,0,0); add(.5,.5,0); add(0,.5,0); add(0,0,.5); add(.5,0,.5); add(0,.5,.5); } }
        if (f == HEX) { c = 3; simplex = false; measure = 8; ncorner = 8;
            add(-1,-1,-1); add(1,-1,-1); add(1,1,-1); add(-1,1,-1); add(-1,-1,1); add(1,-1,1); add(1,1,1); add(-1,1,1);
            if (o == 2) { add(0,-1,-1); add(1,0,-1); add(0,1,-1); add(-1,0,-1); add(0,-1,1); add(1,0,1); add(0,1,1); add(-1,0,1);
                          add(-1,-1,0); add(1,-1,0); add(1,1,0); add(-1,1,0); } }
        int E = o == 1 ? 1 : 2;
        for (int a = 0; a <= E; ++a) for (int b = 0; b <= (c > 1 ? E : 0); ++b) for (int d = 0; d <= (c > 2 ? E : 0); ++d) {
            bool ok;
            if (simplex) ok = a + b + d <= o;
            else { int two = (a == 2) + (b == 2) + (d == 2); ok = two <= 1; }  // serendipity
            if (ok) monos.push_back({a, b, d});
        }
        size_t n = nodes.size();
        if (monos.size() != n) { fprintf(stderr, "oracle: bad space\n"); abort(); }
        // Solve V * C = I with V[i][k] = mono_k(node_i)
        std::vector<std::vector<LD>> A(n, std::vector<LD>(2*n, 0));
        for (size_t i = 0; i < n; ++i) { for (size_t k = 0; k < n; ++k) A[i][k] = mono(k, nodes[i]); A[i][n+i] = 1; }
        for (size_t p = 0; p < n; ++p) {
            size_t best = p; for (size_t r = p; r < n; ++r) if (std::fabs(A[r][p]) > std::fabs(A[best][p])) best = r;
            std::swap(A[p], A[best]);
            if (std::fabs(A[p][p]) < 1e-9L) { fprintf(stderr, "oracle: singular\n"); abort(); }
            LD inv = 1 / A[p][p]; for (auto &x : A[p]) x *= inv;
            for (size_t r = 0; r < n; ++r) if (r != p && A[r][p] != 0) { LD t = A[r][p]; for (size_t k = 0; k < 2*n; ++k) A[r][k] -= t * A[p][k]; }
        }
        Vinv.assign(n, std::vector<LD>(n));
        for (size_t k = 0; k < n; ++k) for (size_t i = 0; i < n; ++i) Vinv[k][i] = A[k][n+i];
        mid.assign(n, {-1, -1});
        for (size_t i = ncorner; i < n; ++i) for (int a = 0; a < ncorner; ++a) for (int b = a+1; b < ncorner; ++b)
            if (maxabs(nodes[i] - 0.5L*(nodes[a] + nodes[b])) < 1e-9L) mid[i] = {a, b};
    }
    std::vector<LD> L(const V3 &x) const {
        std::vector<LD> r(nodes.size(), 0);
        for (size_t k = 0; k < monos.size(); ++k) { LD m = mono(k, x); for (size_t i = 0; i < r.size(); ++i) r[i] += m * Vinv[k][i]; }
        return r;
    }
    std::vector<V3> dL(const V3 &x) const {
        std::vector<V3> r(nodes.size(), V3{0,0,0});
        for (size_t k = 0; k < monos.size(); ++k) for (int d = 0; d < c; ++d) { LD m = dmono(k, d, x); for (size_t i = 0; i < r.size(); ++i) r[i][d] += m * Vinv[k][i]; }
        return r;
    }
    // signed margin of x w.r.t. the reference domain: >0 inside
    LD margin(const V3 &x) const {
        LD m = 1e30L;
        if (simplex) { LD s = 1; for (int d = 0; d < c; ++d) { m = std::min(m, x[d]); s -= x[d]; } return std::min(m, s); }
        for (int d = 0; d < c; ++d) m = std::min(m, 1 - std::fabs(x[d]));
        return m;
    }
    // exact integral of a monomial over the reference domain
    static LD fact(int n) { LD r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
    LD integral(int a, int b, int d) const {
        if (simplex) return fact(a) * fact(b) * fact(d) / fact(a + b + d + c);
        LD r = 1; int e[3] = {a, b, d};
        for (int j = 0; j < c; ++j) r *= (e[j] % 2) ? 0.L : 2.L / (e[j] + 1);
        return r;
    }
};
inline const Ref &ref(Fam f, int o) {
    static std::vector<Ref> t = [] { std::vector<Ref> v; for (int f = 0; f < 5; ++f) for (int o = 1; o <= 2; ++o) v.emplace_back((Fam)f, o); return v; }();
    return t[(int)f * 2 + (o - 1)];
}

namespace cg = caribou::geometry;
using caribou::Linear; using caribou::Quadratic;

template <class E> struct Info;
#define INFO(TYPE, NAME, FAM, ORDER, DIM, RECT) template <> struct Info<TYPE> { \
    static constexpr const char *name = NAME; static constexpr Fam fam = FAM; static constexpr int order = ORDER, dim = DIM; static constexpr bool rect = RECT; }
#define COMMA ,
INFO(cg::Segment<1 COMMA Linear>, "Segment1L", SEG, 1, 1, false);
INFO(cg::Segment<2 COMMA Linear>, "Segment2L", SEG, 1, 2, false);
INFO(cg::Segment<3 COMMA Linear>, "Segment3L", SEG, 1, 3, false);
INFO(cg::Segment<1 COMMA Quadratic>, "Segment1Q", SEG, 2, 1, false);
INFO(cg::Segment<2 COMMA Quadratic>, "Segment2Q", SEG, 2, 2, false);
INFO(cg::Segment<3 COMMA Quadratic>, "Segment3Q", SEG, 2, 3, false);
INFO(cg::Triangle<2 COMMA Linear>, "Triangle2L", TRI, 1, 2, false);
INFO(cg::Triangle<3 COMMA Linear>, "Triangle3L", TRI, 1, 3, false);
INFO(cg::Triangle<2 COMMA Quadratic>, "Triangle2Q", TRI, 2, 2, false);
INFO(cg::Triangle<3 COMMA Quadratic>, "Triangle3Q", TRI, 2, 3, false);
INFO(cg::Quad<2 COMMA Linear>, "Quad2L", QUAD, 1, 2, false);
INFO(cg::Quad<3 COMMA Linear>, "Quad3L", QUAD, 1, 3, false);
INFO(cg::Quad<2 COMMA Quadratic>, "Quad2Q", QUAD, 2, 2, false);
INFO(cg::Quad<3 COMMA Quadratic>, "Quad3Q", QUAD, 2, 3, false);
INFO(cg::RectangularQuad<2 COMMA Linear>, "RectQuad2L", QUAD, 1, 2, true);
INFO(cg::RectangularQuad<3 COMMA Linear>, "RectQuad3L", QUAD, 1, 3, true);
INFO(cg::RectangularQuad<2 COMMA Quadratic>, "RectQuad2Q", QUAD, 2, 2, true);
INFO(cg::RectangularQuad<3 COMMA Quadratic>, "RectQuad3Q", QUAD, 2, 3, true);
INFO(cg::Tetrahedron<Linear>, "TetrahedronL", TET, 1, 3, false);
INFO(cg::Tetrahedron<Quadratic>, "TetrahedronQ", TET, 2, 3, false);
INFO(cg::Hexahedron<Linear>, "HexahedronL", HEX, 1, 3, false);
INFO(cg::Hexahedron<Quadratic>, "HexahedronQ", HEX, 2, 3, false);
INFO(cg::RectangularHexahedron<Linear>, "RectHexahedronL", HEX, 1, 3, true);
INFO(cg::RectangularHexahedron<Quadratic>, "RectHexahedronQ", HEX, 2, 3, true);

template <class E> const Ref &R() { return ref(Info<E>::fam, Info<E>::order); }
template <class E> constexpr int NN = E::NumberOfNodesAtCompileTime;
template <class E> constexpr int CD = E::CanonicalDimension;
template <class E> constexpr int WD = E::Dimension;

template <class E> typename E::LocalCoordinates to_local(const V3 &x) { typename E::LocalCoordinates r; for (int i = 0; i < CD<E>; ++i) r[i] = (double)x[i]; return r; }
template <class E> typename E::WorldCoordinates to_world(const V3 &x) { typename E::WorldCoordinates r; for (int i = 0; i < WD<E>; ++i) r[i] = (double)x[i]; return r; }
template <class T> V3 from(const T &x, int n) { V3 r{0,0,0}; for (int i = 0; i < n; ++i) r[i] = (LD)x[i]; return r; }

inline V3 rnd(const V3 &x) { return {(LD)(double)x[0], (LD)(double)x[1], (LD)(double)x[2]}; }

// random rotation (proper), exact enough in long double
inline M3 random_rotation(Rng &r, int dim) {
    M3 m{V3{1,0,0}, V3{0,1,0}, V3{0,0,1}};
    if (dim == 1) return m;
    if (dim == 2) { LD a = r.uni(-3.2, 3.2); m[0] = {std::cos(a), -std::sin(a), 0}; m[1] = {std::sin(a), std::cos(a), 0}; return m; }
    LD q[4], n = 0; for (auto &x : q) { x = r.normal(); n += x*x; } n = std::sqrt(n); for (auto &x : q) x /= n;
    LD w = q[0], x = q[1], y = q[2], z = q[3];
    m[0] = {1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)};
    m[1] = {2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)};
    m[2] = {2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)};
    return m;
}

enum Kind { K_REF, K_AXIS, K_AFFINE, K_STRAIGHT, K_CURVED };

template <class E> struct Case {
    E e; Kind kind; bool affine; LD size; V3 off;
    std::vector<V3> X;          // the node positions handed to (or implied by) the constructor
    V3 center{0,0,0}, H{2,2,2}; M3 rot{V3{1,0,0},V3{0,1,0},V3{0,0,1}};   // rectangular elements
    V3 world(const V3 &xi) const { auto L = R<E>().L(xi); V3 x{0,0,0}; for (size_t i = 0; i < L.size(); ++i) x = x + L[i] * X[i]; return x; }
    // J[d][c]: derivative of world coordinate d w.r.t. local coordinate c
    M3 jac(const V3 &xi) const {
        auto d = R<E>().dL(xi); M3 J{}; for (auto &r : J) r = {0,0,0};
        for (size_t i = 0; i < d.size(); ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J[a][b] += X[i][a] * d[i][b];
        return J;
    }
    LD maxX() const { LD m = 0; for (auto &x : X) m = std::max(m, maxabs(x)); return m; }
    // measure density sqrt(det(J^T J)), signed when square
    LD density(const V3 &xi) const {
        M3 J = jac(xi); int c = CD<E>, d = WD<E>;
        V3 u{J[0][0],J[1][0],J[2][0]}, v{J[0][1],J[1][1],J[2][1]}, w{J[0][2],J[1][2],J[2][2]};
        if (c == 1) return d == 1 ? u[0] : norm(u);
        if (c == 2) return d == 2 ? u[0]*v[1]-u[1]*v[0] : norm(cross(u, v));
        return dot(u, cross(v, w));
    }
    std::string str() const {
        std::string s = fmt("%s kind=%d size=%.3Lg", Info<E>::name, (int)kind, size);
        if (Info<E>::rect) s += " center=" + ::str(center) + " H=" + ::str(H);
        s += " X=["; for (size_t i = 0; i < X.size() && i < 8; ++i) s += ::str(X[i]); return s + "]";
    }
};

template <class E> E build_from_nodes(const std::vector<V3> &X) {
    Eigen::Matrix<double, NN<E>, WD<E>> m;
    for (int i = 0; i < NN<E>; ++i) for (int d = 0; d < WD<E>; ++d) m(i, d) = (double)X[i][d];
    return E(m);
}

struct GeomOpt { double smin = 1e-3, smax = 1e3, offmax = 100; double distort = 0.2, curve = 0.08; int kind = -1; };

template <class E> Case<E> make_case(Rng &r, GeomOpt o = {}) {
    const Ref &q = R<E>();
    Case<E> c; int D = WD<E>, C = CD<E>;
    for (int attempt = 0;; ++attempt) {
        int k = o.kind >= 0 ? o.kind : (int)r.irange(0, 4);
        c.kind = (Kind)k;
        LD s = k == K_REF ? 1 : (LD)r.logu(o.smin, o.smax);
        c.size = s;
        LD om = k == K_REF ? 0 : (r.flip(0.2) ? 0 : r.uni(0, o.offmax)) * s;
        c.off = {0,0,0}; for (int d = 0; d < D; ++d) c.off[d] = om * r.uni(-1, 1);
        M3 rot{V3{1,0,0}, V3{0,1,0}, V3{0,0,1}};
        if (k >= K_AFFINE) rot = random_rotation(r, D);
        V3 H{1,1,1}; if (k >= K_AXIS) for (int d = 0; d < 3; ++d) H[d] = r.logu(0.3, 3);
        if constexpr (Info<E>::rect) {
            // centre / size / rotation, rounded to double first so that they are the exact inputs
            c.center = rnd(c.off); c.H = rnd(2*s*H); for (int i = 0; i < 3; ++i) c.rot[i] = rnd(rot[i]);
            typename E::WorldCoordinates ce = to_world<E>(c.center);
            typename E::Size h; for (int d = 0; d < C; ++d) h[d] = (double)c.H[d];
            typename E::Rotation rr; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) rr(i, j) = (double)c.rot[i][j];
            c.e = E(ce, h, rr);
            c.X.clear();
            for (auto &n : q.nodes) { V3 p{0,0,0}; for (int d = 0; d < C; ++d) p[d] = n[d]*c.H[d]/2; c.X.push_back(c.center + mul(c.rot, p)); }
            c.affine = true;
            return c;
        } else {
            M3 A{}; // linear map: rot * (shear) * diag(H) * s, restricted to the first C columns
            M3 sh{V3{1,0,0}, V3{0,1,0}, V3{0,0,1}};
            if (k >= K_AFFINE) for (int i = 0; i < C; ++i) for (int j = i+1; j < C; ++j) sh[i][j] = r.uni(-0.4, 0.4);
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { A[i][j] = 0; for (int l = 0; l < 3; ++l) A[i][j] += rot[i][l]*sh[l][j]*H[j]*s; }
            std::vector<V3> X;
            for (auto &n : q.nodes) X.push_back(c.off + mul(A, n));
            c.affine = k <= K_AFFINE;
            if (k >= K_STRAIGHT) {
                LD d0 = o.distort * s * 0.3 * (q.simplex ? 0.5 : 1);
                for (int i = 0; i < q.ncorner; ++i) for (int d = 0; d < D; ++d) if (!(q.fam == SEG && d >= D)) X[i][d] += d0 * r.uni(-1, 1);
                for (size_t i = q.ncorner; i < X.size(); ++i) X[i] = 0.5L * (X[q.mid[i][0]] + X[q.mid[i][1]]);
                if (q.simplex || q.fam == SEG) c.affine = true;
            }
            if (k == K_CURVED) {
                LD d1 = o.curve * s * 0.3;
                for (size_t i = q.ncorner; i < X.size(); ++i) for (int d = 0; d < D; ++d) X[i][d] += d1 * r.uni(-1, 1);
                if (X.size() > (size_t)q.ncorner) c.affine = false;
            }
            for (auto &x : X) { x = rnd(x); for (int d = D; d < 3; ++d) x[d] = 0; }
            c.X = X;
            // validity: density bounded away from zero over the element
            LD lo = 1e30L, hi = -1e30L;
            for (auto &n : q.nodes) { LD d = c.density(n); lo = std::min(lo, d); hi = std::max(hi, d); }
            { V3 g{0,0,0}; if (q.simplex) for (int d = 0; d < C; ++d) g[d] = 1.L/(C+1); LD d = c.density(g); lo = std::min(lo, d); hi = std::max(hi, d); }
            if (!(lo > 0.25L * hi && hi > 0) && attempt < 50) continue;
            c.e = build_from_nodes<E>(X);
            return c;
        }
    }
}

// local coordinates: specials, interior, boundary, just in/outside, far outside
template <class E> V3 gen_xi(Rng &r, int mode = -1) {
    const Ref &q = R<E>();
    static const double sp[] = {0, 1, -1, 0.5, -0.5, 1/3., 0.25, -0.577350269189625764, 0.577350269189625764, 1e-9, -1e-9, 1e-16, 0.999999999, 1.0000001, -1.0000001, 2, -2, 0.1, 0.7745966692414834};
    V3 x{0,0,0};
    if (mode < 0) mode = (int)r.irange(0, 6);
    switch (mode) {
        case 0: return q.nodes[r.u64() % q.nodes.size()];
        case 1: for (int d = 0; d < q.c; ++d) x[d] = sp[r.u64() % (sizeof sp / sizeof *sp)]; return x;
        case 2: for (int d = 0; d < q.c; ++d) x[d] = r.uni(-3, 3); return x;
        case 3: { // mixed special/random
            for (int d = 0; d < q.c; ++d) x[d] = r.flip() ? sp[r.u64() % (sizeof sp / sizeof *sp)] : r.uni(-1.2, 1.2); return x; }
        default: { // inside
            if (q.simplex) { LD s = 0; LD e[4]; for (int d = 0; d <= q.c; ++d) { e[d] = -std::log(r.u01() + 1e-300); s += e[d]; } for (int d = 0; d < q.c; ++d) x[d] = e[d]/s; }
            else for (int d = 0; d < q.c; ++d) x[d] = r.uni(-1, 1);
            if (mode == 6) { // snap one coordinate on a side
                int d = (int)r.irange(0, q.c - 1); x[d] = q.simplex ? 0 : r.sgn();
            }
            return rnd(x);
        }
    }
}
template <class E> V3 gen_inside(Rng &r) {
    for (;;) { int m = (int)r.irange(0, 6); if (m == 2) m = 5; V3 x = rnd(gen_xi<E>(r, m)); if (R<E>().margin(x) >= 0) return x; }
}
template <class E> uint64_t hash_xi(const V3 &x, uint64_t h) { for (int d = 0; d < CD<E>; ++d) h = mon::mix(h, mon::hash_d((double)x[d])); return h; }
