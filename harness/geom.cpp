// Monitors for the geometric element properties (one binary per property and element family).
#include "ref.h"
#ifndef PROP
#error PROP
#endif
using namespace caribou;

#if PROP == 1
template <class E> void run() {
    const Ref &q = R<E>();
    std::string nm = Info<E>::name;
    uint64_t N = M().n(4000, 60000);
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin("L/" + nm, i, r)) continue;
        auto c = (i % 3 == 0) ? make_case<E>(r) : make_case<E>(r, {1e-3, 1e3, 100, 0.2, 0.08, K_REF});
        V3 xi = rnd(i < q.nodes.size() ? q.nodes[i] : gen_xi<E>(r));
        mon::describe("xi=%s kind=%d", str(xi).c_str(), (int)c.kind);
        auto L = c.e.L(to_local<E>(xi));
        auto l = q.L(xi);
        LD g = 1; for (int k = 0; k < q.deg(); ++k) g *= 1 + maxabs(xi);
        LD tol = 1e-12L * g, sum = 0; bool ok = true; int bad = -1;
        for (int k = 0; k < NN<E>; ++k) { sum += L[k]; if (!(std::fabs((LD)L[k] - l[k]) <= tol)) { ok = false; bad = k; } }
        CHECK("shape_value/" + nm, ok, "node %d: L=%.17g expected %.17Lg", bad, (double)L[bad < 0 ? 0 : bad], l[bad < 0 ? 0 : bad]);
        CHECK("partition_of_unity", std::fabs(sum - 1) <= tol * NN<E>, "sum=%.17Lg", sum);
        if (i < q.nodes.size()) CHECK("node_values", std::fabs((LD)L[i] - 1) < 1e-13L, "L[%d](node)=%.17g", (int)i, (double)L[i]);
        CHECK("number_of_nodes", c.e.number_of_nodes() == q.nodes.size() && NN<E> == (long)q.nodes.size(), "count");
        // the shape functions do not depend on where the element is
        if (q.margin(xi) < 0) mon::observe("outside"); else mon::observe("inside");
        mon::distinct(hash_xi<E>(xi, mon::hash_str(nm.c_str()))); mon::sample();
    }
}
#elif PROP == 2
template <class E> void run() {
    const Ref &q = R<E>();
    std::string nm = Info<E>::name;
    uint64_t N = M().n(4000, 60000);
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin("dL/" + nm, i, r)) continue;
        auto c = make_case<E>(r, {1e-6, 1e6, 100, 0.3, 0.15, -1});
        V3 xi = rnd(gen_xi<E>(r));
        mon::describe("xi=%s %s", str(xi).c_str(), c.str().c_str());
        auto g = c.e.dL(to_local<E>(xi));
        auto l = q.dL(xi);
        LD gr = 1; for (int k = 0; k < q.deg(); ++k) gr *= 1 + maxabs(xi);
        LD tol = 4e-12L * gr; bool ok = true; int bi = 0, bj = 0;
        for (int k = 0; k < NN<E>; ++k) for (int d = 0; d < CD<E>; ++d) if (!(std::fabs((LD)g(k, d) - l[k][d]) <= tol)) { ok = false; bi = k; bj = d; }
        CHECK("shape_derivative/" + nm, ok, "dL(%d,%d)=%.17g expected %.17Lg", bi, bj, (double)g(bi, bj), l[bi][bj]);
        for (int d = 0; d < CD<E>; ++d) { LD s = 0; for (int k = 0; k < NN<E>; ++k) s += g(k, d); CHECK("derivative_sum_zero", std::fabs(s) <= tol * NN<E>, "col %d sum %.3Lg", d, s); }
        auto J = c.e.jacobian(to_local<E>(xi));
        M3 jr = c.jac(xi); LD jt = 1e-11L * gr * (c.maxX() + c.size); ok = true; bi = bj = 0;
        for (int a = 0; a < WD<E>; ++a) for (int b = 0; b < CD<E>; ++b) if (!(std::fabs((LD)J(a, b) - jr[a][b]) <= jt)) { ok = false; bi = a; bj = b; }
        CHECK("jacobian/" + nm, ok, "J(%d,%d)=%.17g expected %.17Lg tol %.3Lg", bi, bj, (double)J(bi, bj), jr[bi][bj], jt);
        // central difference of the implementation's own mapping
        LD h = 1e-4L; ok = true;
        for (int b = 0; b < CD<E>; ++b) {
            V3 p = xi, m = xi; p[b] += h; m[b] -= h; p = rnd(p); m = rnd(m); LD hh = p[b] - m[b];
            auto wp = c.e.world_coordinates(to_local<E>(p)); auto wm = c.e.world_coordinates(to_local<E>(m));
            for (int a = 0; a < WD<E>; ++a) { LD fd = ((LD)wp[a] - (LD)wm[a]) / hh; if (!(std::fabs(fd - (LD)J(a, b)) <= 1e-5L * gr * (c.maxX() * 1e-4L + c.size))) { ok = false; bi = a; bj = b; } }
        }
        CHECK("jacobian_vs_mapping/" + nm, ok, "J(%d,%d)=%.17g differs from the finite difference of world_coordinates", bi, bj, (double)J(bi, bj));
        mon::observe(fmt("kind%d", (int)c.kind));
        mon::distinct(hash_xi<E>(xi, mon::mix(mon::hash_str(nm.c_str()), mon::hash_d((double)c.X[0][0])))); mon::sample();
    }
}
#elif PROP == 3
// The documented Newton / Gauss-Newton iteration, evaluated in long double.
template <class E> bool newton_step(const Case<E> &c, const V3 &x, V3 &xi) {
    M3 J = c.jac(xi); V3 res = x - c.world(xi); int C = CD<E>, D = WD<E>;
    LD A[3][4] = {};
    for (int i = 0; i < C; ++i) { for (int j = 0; j < C; ++j) for (int d = 0; d < D; ++d) A[i][j] += J[d][i]*J[d][j]; for (int d = 0; d < D; ++d) A[i][3] += J[d][i]*res[d]; }
    if (D == C) for (int i = 0; i < C; ++i) { for (int j = 0; j < C; ++j) A[i][j] = J[i][j]; A[i][3] = res[i]; }
    for (int p = 0; p < C; ++p) {
        int b = p; for (int k = p; k < C; ++k) if (std::fabs(A[k][p]) > std::fabs(A[b][p])) b = k;
        if (A[b][p] == 0) return false;
        for (int k = 0; k < 4; ++k) std::swap(A[p][k], A[b][k]);
        for (int k = 0; k < C; ++k) if (k != p) { LD t = A[k][p]/A[p][p]; for (int j = 0; j < 4; ++j) A[k][j] -= t*A[p][j]; }
    }
    for (int i = 0; i < C; ++i) xi[i] += A[i][3]/A[i][i];
    return true;
}
// smallest singular value bound of J via the density and the column norms
template <class E> LD smin(const Case<E> &c, const V3 &xi) {
    M3 J = c.jac(xi); LD f = 0; for (int d = 0; d < 3; ++d) for (int j = 0; j < CD<E>; ++j) f += J[d][j]*J[d][j];
    f = std::sqrt(f); LD den = std::fabs(c.density(xi)); for (int k = 1; k < CD<E>; ++k) den /= f; return den;
}
template <class E> void run() {
    std::string nm = Info<E>::name;
    const Ref &q = R<E>();
    uint64_t N = M().n(4000, 80000);
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin("map/" + nm, i, r)) continue;
        GeomOpt go; go.smin = 1e-9; go.smax = 1e9; go.offmax = r.flip() ? 10 : 1000; go.distort = 0.6; go.curve = 0.3;
        auto c = make_case<E>(r, go);
        V3 xi = gen_inside<E>(r);
        mon::describe("xi=%s %s", str(xi).c_str(), c.str().c_str());
        LD mx = c.maxX() + c.size;
        V3 xw = c.world(xi);
        V3 w = from(c.e.world_coordinates(to_local<E>(xi)), WD<E>);
        CHECK("world/" + nm, norm(w - xw) <= 1e-13L * NN<E> * mx, "world=%s expected %s", str(w).c_str(), str(xw).c_str());
        // an arbitrary (also outside) local point still follows the polynomial mapping
        V3 xo = rnd(gen_xi<E>(r, 2)); V3 wo = from(c.e.world_coordinates(to_local<E>(xo)), WD<E>);
        CHECK("world_outside/" + nm, norm(wo - c.world(xo)) <= 1e-11L * NN<E> * mx, "world(%s)=%s expected %s", str(xo).c_str(), str(wo).c_str(), str(c.world(xo)).c_str());
        V3 x = rnd(xw);
        LD sm = smin<E>(c, xi); LD cond = c.size * 10 / sm; LD noise = 2.3e-16L * mx * NN<E>;
        LD tolx = 200 * noise / sm * (1 + cond);
        V3 xb = from(c.e.local_coordinates(to_world<E>(x)), CD<E>);
        if (c.affine) {
            CHECK("roundtrip_affine/" + nm, maxabs(xb - xi) <= tolx + 1e-12L, "local=%s expected %s tol %.3Lg", str(xb).c_str(), str(xi).c_str(), tolx);
            mon::observe("affine");
        } else {
            // documented default: start 0, relative residual 1e-5, 5 iterations
            V3 z{0,0,0}; LD r0 = norm(x - c.world(z)); V3 k = z; int it = 0; bool conv = r0 == 0;
            while (!conv && it < 4) { if (!newton_step<E>(c, x, k)) break; ++it; conv = norm(x - c.world(k)) < 0.5e-5L * r0; }
            if (conv) {
                LD rr = norm(x - c.world(xb));
                CHECK("roundtrip_default/" + nm, rr <= 1.01e-5L * r0 + 20 * noise && maxabs(xb - xi) <= 1.01e-5L * r0 / sm * 10 + tolx, "local=%s expected %s residual %.3Lg (initial %.3Lg)", str(xb).c_str(), str(xi).c_str(), rr, r0);
                mon::observe("distorted_converging");
            } else mon::observe("distorted_hard");
        }
        // explicit start / tolerance / iteration limit
        {
            const auto &el = static_cast<const cg::Element<E> &>(c.e);
            static const double tols[] = {1e-1, 1e-2, 1e-3, 1e-5, 1e-8, 1e-11}; static const int its[] = {1, 2, 3, 4, 5, 10, 30};
            double tol = tols[r.u64() % 6]; int mi = its[r.u64() % 7];
            V3 st = gen_inside<E>(r);
            V3 k = st; LD r0 = norm(x - c.world(st)); bool amb = r0 <= 1e4L * noise / tol || r0 < 1e-3L * c.size; int it = 0;
            if (!amb) {
                do {
                    if (!newton_step<E>(c, x, k)) { amb = true; break; }
                    ++it; LD ratio = norm(x - c.world(k)) / r0;
                    if (!(maxabs(k) < 50)) { amb = true; break; }
                    if (std::fabs(ratio - tol) <= 0.05L * tol) { amb = true; break; }
                    if (ratio < tol) break;
                } while (it < mi);
            }
            if (!amb) {
                V3 g = from(el.local_coordinates(to_world<E>(x), to_local<E>(st), tol, mi), CD<E>);
                LD s2 = std::min(sm, smin<E>(c, k));
                LD t2 = 1e-9L + 1e4L * noise / s2 * (1 + cond);
                CHECK("newton_contract/" + nm, maxabs(g - k) <= t2, "start=%s tol=%g maxit=%d: local=%s, documented iteration gives %s after %d steps (tol %.3Lg)", str(st).c_str(), tol, mi, str(g).c_str(), str(k).c_str(), it, t2);
                if (it < mi) mon::observe(fmt("stopped_by_tolerance_at_%d", it)); else mon::observe("stopped_by_limit");
            } else mon::observe("newton_ambiguous_skipped");
            // tight tolerance and enough iterations: recover the point to (near) rounding accuracy, when the documented iteration does
            k = st; for (it = 0; it < 25; ++it) if (!newton_step<E>(c, x, k) || !(maxabs(k) < 1e3L)) break;
            if (it == 25 && maxabs(k - xi) < 1e-9L + tolx) {
                V3 g = from(el.local_coordinates(to_world<E>(x), to_local<E>(st), 1e-14, 40), CD<E>);
                LD s3 = std::min(sm, smin<E>(c, st));
                CHECK("roundtrip_tight/" + nm, maxabs(g - xi) <= 1e-8L + 1e4L * noise / s3 * (1 + cond), "start=%s local=%s expected %s", str(st).c_str(), str(g).c_str(), str(xi).c_str());
                mon::observe("tight_converging");
            }
            // starting at the solution stays there
            V3 g = from(el.local_coordinates(to_world<E>(x), to_local<E>(xi), 1e-5, 5), CD<E>);
            CHECK("fixed_point/" + nm, maxabs(g - xi) <= 10 * tolx + 1e-11L, "start at solution %s, got %s", str(xi).c_str(), str(g).c_str());
        }
        // points off the manifold project on it
        if constexpr (WD<E> > CD<E>) if (c.affine) {
            M3 J = c.jac(xi); V3 u{J[0][0],J[1][0],J[2][0]}, nrm;
            if (CD<E> == 2) { V3 v{J[0][1],J[1][1],J[2][1]}; nrm = cross(u, v); }
            else if (WD<E> == 2) nrm = {-u[1], u[0], 0};
            else { V3 t{(LD)r.uni(-1,1), (LD)r.uni(-1,1), (LD)r.uni(-1,1)}; nrm = cross(u, t); }
            LD nn = norm(nrm);
            if (nn > 1e-3L * norm(u) * (CD<E> == 2 ? c.size*0.1L : 1)) {
                V3 xp = rnd(x + (c.size * r.uni(-2, 2) / nn) * nrm);
                V3 g = from(c.e.local_coordinates(to_world<E>(xp)), CD<E>);
                CHECK("projection/" + nm, maxabs(g - xi) <= 10 * tolx + 1e-10L, "off-manifold point %s: local=%s expected %s", str(xp).c_str(), str(g).c_str(), str(xi).c_str());
                mon::observe("projected");
            }
        }
        mon::observe(fmt("kind%d", (int)c.kind)); mon::observe(fmt("scale1e%d", (int)std::floor(std::log10((double)c.size))));
        mon::distinct(hash_xi<E>(xi, mon::mix(mon::hash_str(nm.c_str()), mon::hash_d((double)c.X[0][0])))); mon::sample();
        (void)q;
    }
}
#elif PROP == 4
template <class E, class Mat> void interp_check(const Case<E> &c, const V3 &xi, const Mat &v, const char *what, double eps) {
    auto l = R<E>().L(xi); const int cols = (int)v.cols();
    const auto res = c.e.interpolate(to_local<E>(xi), v);
    for (int k = 0; k < cols; ++k) {
        LD ex = 0, ab = 0; for (int i = 0; i < NN<E>; ++i) { ex += l[i] * (LD)v(i, k); ab += std::fabs(l[i] * (LD)v(i, k)); }
        LD g; if constexpr (Mat::ColsAtCompileTime == 1) g = (LD)res; else g = (LD)res[k];
        CHECK(std::string("interpolate_") + what, std::fabs(g - ex) <= eps * (ab + 1e-30L) * 50 + eps * (LD)std::fabs(v.col(k).template cast<double>().cwiseAbs().maxCoeff()) * 50, "%s xi=%s col %d: %.17Lg expected %.17Lg", Info<E>::name, str(xi).c_str(), k, g, ex);
        if constexpr (Mat::ColsAtCompileTime != 1) CHECK("interpolate_shape", res.rows() == cols && res.cols() == 1, "%s result is %dx%d for %d components", Info<E>::name, (int)res.rows(), (int)res.cols(), cols);
    }
}
template <class E> void run() {
    const Ref &q = R<E>();
    std::string nm = Info<E>::name;
    uint64_t N = M().n(2500, 40000);
    constexpr int n = NN<E>;
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin("interp/" + nm, i, r)) continue;
        auto c = make_case<E>(r);
        V3 xi = rnd(i < q.nodes.size() ? q.nodes[i] : gen_xi<E>(r));
        mon::describe("xi=%s %s", str(xi).c_str(), c.str().c_str());
        auto val = [&]() { double s = r.flip(0.2) ? 0 : r.logu(1e-4, 1e4) * r.sgn(); return s; };
        Eigen::Matrix<double, n, 1> v1; for (int k = 0; k < n; ++k) v1[k] = val();
        Eigen::Matrix<float, n, 1> vf; for (int k = 0; k < n; ++k) vf[k] = (float)val();
        Eigen::Matrix<double, n, 3> v3; for (int k = 0; k < n*3; ++k) v3.data()[k] = val();
        Eigen::Matrix<double, n, 2> v2; for (int k = 0; k < n*2; ++k) v2.data()[k] = val();
        Eigen::Matrix<float, n, 3, Eigen::RowMajor> vfr; for (int k = 0; k < n*3; ++k) vfr.data()[k] = (float)val();
        Eigen::Matrix<double, n, 6, Eigen::RowMajor> v6; for (int k = 0; k < n*6; ++k) v6.data()[k] = val();
        Eigen::Matrix<double, n, Eigen::Dynamic> vd(n, (long)r.irange(2, 9)); for (long k = 0; k < vd.size(); ++k) vd.data()[k] = val();
        Eigen::Matrix<long double, n, 2> vl; for (int k = 0; k < n*2; ++k) vl.data()[k] = val();
        interp_check<E>(c, xi, v1, "scalar", 2.3e-16); interp_check<E>(c, xi, vf, "float_scalar", 1.3e-7);
        interp_check<E>(c, xi, v3, "vec3", 2.3e-16); interp_check<E>(c, xi, v2, "vec2", 2.3e-16);
        interp_check<E>(c, xi, vfr, "float_rowmajor", 1.3e-7); interp_check<E>(c, xi, v6, "vec6_rowmajor", 2.3e-16);
        interp_check<E>(c, xi, vd, "dynamic", 2.3e-16); interp_check<E>(c, xi, vl, "longdouble", 2.3e-16);
        // strided view inside a bigger buffer guarded by NaN
        std::vector<double> buf(n * 7 + 11, std::nan(""));
        Eigen::Map<Eigen::Matrix<double, n, 3>, 0, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> mp(buf.data() + 5, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>(2, 7));
        for (int a = 0; a < n; ++a) for (int b = 0; b < 3; ++b) mp(a, b) = val();
        interp_check<E>(c, xi, mp, "strided_map", 2.3e-16);
        Eigen::Matrix<double, 3, n> tr; for (int k = 0; k < 3*n; ++k) tr.data()[k] = val();
        { Eigen::Matrix<double, n, 3> cp = tr.transpose(); auto ra = c.e.interpolate(to_local<E>(xi), tr.transpose()); auto rb = c.e.interpolate(to_local<E>(xi), cp);
          CHECK("interpolate_expression", (ra - rb).cwiseAbs().maxCoeff() <= 1e-10 * (1 + cp.cwiseAbs().maxCoeff()), "%s transposed expression differs", nm.c_str()); }
        if (i < q.nodes.size()) { double g = c.e.interpolate(to_local<E>(xi), v1); CHECK("nodal_value", std::fabs(g - v1[i]) <= 1e-13 * v1.cwiseAbs().maxCoeff() * n, "%s node %d: %.17g expected %.17g", nm.c_str(), (int)i, g, v1[i]); }
        // reproduction: polynomial of the interpolation space in local coordinates, and affine fields in world coordinates
        { std::vector<double> co(q.monos.size()); for (auto &x : co) x = r.uni(-1, 1);
          auto pv = [&](const V3 &x) { LD s = 0; for (size_t k = 0; k < co.size(); ++k) s += co[k] * q.mono(k, x); return s; };
          for (int k = 0; k < n; ++k) v1[k] = (double)pv(q.nodes[k]);
          LD g = c.e.interpolate(to_local<E>(xi), v1), ex = pv(xi), sc = 1; for (int k = 0; k < q.deg(); ++k) sc *= 1 + maxabs(xi);
          CHECK("polynomial_reproduction/" + nm, std::fabs(g - ex) <= 1e-11L * sc * n, "xi=%s %.17Lg expected %.17Lg", str(xi).c_str(), g, ex); }
        { V3 a{(LD)r.uni(-1,1), (LD)r.uni(-1,1), (LD)r.uni(-1,1)}; auto nodes = c.e.nodes(); for (int k = 0; k < n; ++k) { LD s = 0; for (int d = 0; d < WD<E>; ++d) s += a[d] * (LD)nodes(k, d); v1[k] = (double)s; }
          LD g = c.e.interpolate(to_local<E>(xi), v1); V3 w = from(c.e.world_coordinates(to_local<E>(xi)), WD<E>); LD sc = 1; for (int k = 0; k < q.deg(); ++k) sc *= 1 + maxabs(xi);
          CHECK("isoparametric/" + nm, std::fabs(g - dot(a, w)) <= 1e-11L * sc * n * (c.maxX() + c.size), "%.17Lg vs %.17Lg", g, dot(a, w)); }
        mon::distinct(hash_xi<E>(xi, mon::mix(mon::hash_str(nm.c_str()), mon::hash_d(v3(0,0))))); mon::sample();
    }
}
#elif PROP == 5
template <class E> void run() {
    const Ref &q = R<E>();
    std::string nm = Info<E>::name;
    uint64_t N = M().n(1500, 30000);
    // degree integrated exactly by the rule of each family/order (total degree for simplices, per-variable otherwise)
    int deg = 0;
    switch (q.fam) { case SEG: deg = q.order == 1 ? 1 : 3; break; case TRI: case TET: deg = q.order == 1 ? 1 : 2; break; default: deg = 3; }
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin("gauss/" + nm, i, r)) continue;
        GeomOpt go; go.distort = 0.5; go.kind = i % 4 == 0 ? K_REF : (int)r.irange(K_AXIS, K_STRAIGHT);
        auto c = make_case<E>(r, go);
        mon::describe("%s", c.str().c_str());
        const auto &g = c.e.gauss_nodes();
        CHECK("count/" + nm, g.size() == c.e.number_of_gauss_nodes() && (long)g.size() == (long)E::NumberOfGaussNodesAtCompileTime, "gauss_nodes().size()=%zu number_of_gauss_nodes()=%zu compile-time %ld", g.size(), (size_t)c.e.number_of_gauss_nodes(), (long)E::NumberOfGaussNodesAtCompileTime);
        LD sw = 0; bool pos = true, in = true, same = true;
        for (size_t k = 0; k < g.size(); ++k) {
            sw += g[k].weight; pos &= g[k].weight > 0; in &= q.margin(from(g[k].position, CD<E>)) > 0;
            same &= c.e.gauss_node(k).weight == g[k].weight && c.e.gauss_node(k).position == g[k].position;
        }
        CHECK("weights_positive/" + nm, pos && !g.empty(), "non-positive weight");
        CHECK("points_inside/" + nm, in, "point outside the reference element");
        CHECK("indexed_access", same, "gauss_node(i) differs from gauss_nodes()[i]");
        CHECK("weight_sum/" + nm, std::fabs(sw - q.measure) <= 1e-13L * q.measure * 10, "sum %.17Lg expected %.17Lg", sw, q.measure);
        for (int a = 0; a <= deg; ++a) for (int b = 0; b <= (q.c > 1 ? deg : 0); ++b) for (int d = 0; d <= (q.c > 2 ? deg : 0); ++d) {
            if (q.simplex && a + b + d > deg) continue;
            LD s = 0; for (auto &n : g) { V3 x = from(n.position, CD<E>); s += (LD)n.weight * Ref::pw(x[0], a) * Ref::pw(x[1], b) * Ref::pw(x[2], d); }
            CHECK("exactness/" + nm, std::fabs(s - q.integral(a, b, d)) <= 1e-13L * 10 * q.measure, "integral of u^%d v^%d w^%d: %.17Lg expected %.17Lg", a, b, d, s, q.integral(a, b, d));
        }
        // measure of straight-sided elements: sum w |J| against an independent 4-point tensor rule on the oracle mapping
        bool planar = WD<E> == CD<E> || c.affine;
        if (planar) {
            LD vol = 0; 
            static const LD p4[] = {0.861136311594052575223946488892809505L, 0.339981043584856264802665759103244687L}, w4[] = {0.347854845137453857373063949221999407L, 0.652145154862546142626936050778000593L};
            std::vector<std::pair<LD, LD>> g1; for (int k = 0; k < 2; ++k) { g1.push_back({p4[k], w4[k]}); g1.push_back({-p4[k], w4[k]}); }
            if (q.simplex) { V3 x{0,0,0}; for (int d = 0; d < q.c; ++d) x[d] = 0.2L; vol = c.density(x) * q.measure; }
            else for (auto &u : g1) for (auto &v : g1) for (auto &w : g1) {
                LD W = u.second; V3 x{u.first, 0, 0};
                if (q.c > 1) { W *= v.second; x[1] = v.first; } else if (&v != &g1[0]) continue;
                if (q.c > 2) { W *= w.second; x[2] = w.first; } else if (&w != &g1[0]) continue;
                vol += W * c.density(x);
            }
            LD s = 0;
            for (auto &n : g) {
                auto J = c.e.jacobian(n.position);
                LD d; if constexpr (WD<E> == CD<E>) d = J.determinant(); else d = std::sqrt((J.transpose() * J).eval().determinant());
                s += (LD)n.weight * d;
            }
            LD mx = c.maxX() / c.size;
            CHECK("measure/" + nm, std::fabs(s - vol) <= 1e-11L * std::fabs(vol) * (1 + mx), "measure %.17Lg expected %.17Lg", s, vol);
            mon::observe("measure_checked");
        }
        mon::distinct(mon::mix(mon::hash_str(nm.c_str()), mon::mix(mon::hash_d((double)c.X[0][0]), mon::hash_d((double)c.X.back()[0])))); mon::sample();
    }
}
#elif PROP == 6
template <class E> struct BFam { static constexpr Fam fam = Info<E>::fam == TET ? TRI : Info<E>::fam == HEX ? QUAD : SEG; };
template <class E, class Tab> void check_edges(const E &, const Tab &tab, const std::string &nm) {
    const Ref &q = R<E>();
    // true edges of the reference element: corner pairs whose midpoint lies on an edge
    std::set<std::pair<int,int>> truth, seen;
    for (int a = 0; a < q.ncorner; ++a) for (int b = a+1; b < q.ncorner; ++b) {
        int diff = 0; for (int d = 0; d < 3; ++d) diff += q.nodes[a][d] != q.nodes[b][d];
        if (q.simplex || diff == 1) truth.insert({a, b});
    }
    bool ok = true; std::string why;
    for (auto &e : tab) {
        int a = (int)e[0], b = (int)e[1];
        if (a >= q.ncorner || b >= q.ncorner) { ok = false; why = "corner index"; break; }
        auto key = std::make_pair(std::min(a, b), std::max(a, b));
        if (!truth.count(key) || seen.count(key)) { ok = false; why = fmt("(%d,%d) is not an edge or repeated", a, b); }
        seen.insert(key);
        if (e.size() != (size_t)(q.order + 1)) { ok = false; why = "edge node count"; }
        if (q.order == 2) { int m = (int)e[2]; if (m >= (int)q.nodes.size() || maxabs(q.nodes[m] - 0.5L*(q.nodes[a] + q.nodes[b])) > 1e-9L) { ok = false; why = fmt("mid node %d of edge (%d,%d)", m, a, b); } }
    }
    CHECK("edges/" + nm, ok && seen.size() == truth.size() && tab.size() == truth.size(), "%s; %zu edges listed, %zu exist", why.c_str(), (size_t)tab.size(), truth.size());
}
template <class E> void run() {
    const Ref &q = R<E>();
    std::string nm = Info<E>::name;
    if constexpr (Info<E>::fam == SEG) {
        for (uint64_t i = 0; i < M().n(50, 500); ++i) { Rng r; if (!mon::begin("boundary/" + nm, i, r)) continue; auto c = make_case<E>(r); mon::describe("%s", c.str().c_str()); CHECK("segment_no_boundary", (long)c.e.number_of_boundary_elements() == 0, "count"); mon::distinct(mon::hash_d((double)c.X[0][0])); }
    } else {
        const Ref &b = ref(BFam<E>::fam, Info<E>::order);
        const Ref &b1 = ref(BFam<E>::fam, 1);
        const size_t nsides = Info<E>::fam == TRI ? 3 : Info<E>::fam == QUAD ? 4 : Info<E>::fam == TET ? 4 : 6;
        for (uint64_t i = 0; i < M().n(1200, 20000); ++i) {
            Rng r; if (!mon::begin("boundary/" + nm, i, r)) continue;
            GeomOpt go; go.distort = 0.5; go.curve = 0.3; auto c = make_case<E>(r, go);
            mon::describe("%s", c.str().c_str());
            const auto &tab = c.e.boundary_elements_node_indices();
            CHECK("side_count/" + nm, c.e.number_of_boundary_elements() == nsides && tab.size() == nsides, "announced %d, table %zu, expected %zu", (int)c.e.number_of_boundary_elements(), (size_t)tab.size(), nsides);
            std::set<std::set<int>> seen; V3 cen{0,0,0}; for (int k = 0; k < q.ncorner; ++k) cen = cen + (1.L / q.ncorner) * q.nodes[k];
            for (size_t s = 0; s < tab.size(); ++s) {
                CHECK("side_nodes/" + nm, tab[s].size() == b.nodes.size(), "side %zu has %zu nodes", s, (size_t)tab[s].size());
                if (tab[s].size() != b.nodes.size()) continue;
                bool rng = true; for (auto k : tab[s]) rng &= (size_t)k < q.nodes.size();
                CHECK("side_index_range/" + nm, rng, "side %zu index out of range", s); if (!rng) continue;
                // side of the reference element: all corners on one facet
                std::set<int> cs; for (int k = 0; k < b.ncorner; ++k) cs.insert((int)tab[s][k]);
                bool facet = false; int on = 0;
                if (q.simplex) { for (int f = 0; f <= q.c; ++f) { bool all = true; for (int k : cs) { LD v = f < q.c ? q.nodes[k][f] : 1 - q.nodes[k][0] - q.nodes[k][1] - q.nodes[k][2]; all &= std::fabs(v) < 1e-9L; } on += all; } }
                else for (int d = 0; d < q.c; ++d) for (int sg = -1; sg <= 1; sg += 2) { bool all = true; for (int k : cs) all &= q.nodes[k][d] == sg; on += all; }
                facet = on == 1 && (int)cs.size() == b.ncorner;
                CHECK("side_is_facet/" + nm, facet, "side %zu corners are not a facet", s);
                CHECK("side_once/" + nm, seen.insert(cs).second, "side %zu repeated", s);
                // local map eta -> xi through the corners; every node of the side must follow it
                auto emap = [&](const V3 &eta) { auto l = b1.L(eta); V3 x{0,0,0}; for (int k = 0; k < b.ncorner; ++k) x = x + l[k] * q.nodes[tab[s][k]]; return x; };
                bool nod = true; int bad = -1; for (size_t k = 0; k < b.nodes.size(); ++k) if (maxabs(emap(b.nodes[k]) - q.nodes[tab[s][k]]) > 1e-9L) { nod = false; bad = (int)k; }
                CHECK("side_node_order/" + nm, nod, "side %zu node %d (parent node %d) is misplaced", s, bad, bad < 0 ? -1 : (int)tab[s][bad]);
                // outward orientation in the reference frame
                V3 p0 = q.nodes[tab[s][0]], p1 = q.nodes[tab[s][1]], nrm, mid{0,0,0};
                for (int k = 0; k < b.ncorner; ++k) mid = mid + (1.L / b.ncorner) * q.nodes[tab[s][k]];
                if (b.c == 2) nrm = cross(p1 - p0, q.nodes[tab[s][2]] - p0); else nrm = V3{(p1 - p0)[1], -(p1 - p0)[0], 0};
                CHECK("side_orientation/" + nm, dot(nrm, mid - cen) > 1e-9L, "side %zu is not oriented outward", s);
                // the boundary element's geometry is the parent's side
                auto be = c.e.boundary_element(s);
                CHECK("side_element_nodes/" + nm, be.number_of_nodes() == b.nodes.size(), "boundary element %zu has %d nodes", s, (int)be.number_of_nodes());
                for (size_t k = 0; k < b.nodes.size(); ++k) { V3 g = from(be.node(k), WD<E>); CHECK("side_node_position/" + nm, norm(g - c.X[tab[s][k]]) <= 1e-12L * (c.maxX() + c.size) * 10, "side %zu node %zu at %s, parent node at %s", s, k, str(g).c_str(), str(c.X[tab[s][k]]).c_str()); }
                for (int t = 0; t < 3; ++t) {
                    V3 eta{0,0,0}; if (b.simplex) { LD x = r.u01(), y = r.u01(); if (x + y > 1) { x = 1-x; y = 1-y; } eta = {x, y, 0}; } else { eta[0] = r.uni(-1, 1); if (b.c > 1) eta[1] = r.uni(-1, 1); }
                    eta = rnd(eta);
                    typename decltype(be)::LocalCoordinates lc; for (int d = 0; d < b.c; ++d) lc[d] = (double)eta[d];
                    V3 wb = from(be.world_coordinates(lc), WD<E>), wp = c.world(emap(eta));
                    CHECK("side_mapping/" + nm, norm(wb - wp) <= 1e-11L * (c.maxX() + c.size), "side %zu eta=%s: %s, parent %s", s, str(eta).c_str(), str(wb).c_str(), str(wp).c_str());
                    V3 we = from(c.e.world_coordinates(to_local<E>(emap(eta))), WD<E>);
                    CHECK("side_mapping_impl/" + nm, norm(wb - we) <= 1e-11L * (c.maxX() + c.size), "side %zu eta=%s: %s, element %s", s, str(eta).c_str(), str(wb).c_str(), str(we).c_str());
                }
            }
            CHECK("sides_complete/" + nm, seen.size() == nsides, "%zu distinct sides", seen.size());
            check_edges<E>(c.e, c.e.edges(), nm);
            if constexpr (CD<E> == 3) { auto f = c.e.faces(); bool same = f.size() == tab.size(); for (size_t s = 0; same && s < f.size(); ++s) same &= std::equal(f[s].begin(), f[s].end(), tab[s].begin(), tab[s].end()); CHECK("faces_match/" + nm, same, "faces() differs from the boundary table"); }
            mon::observe(fmt("kind%d", (int)c.kind)); mon::distinct(mon::mix(mon::hash_str(nm.c_str()), mon::hash_d((double)c.X[1][0]))); mon::sample();
        }
    }
}
#elif PROP == 7
template <class E> void run() {
    const Ref &q = R<E>();
    std::string nm = Info<E>::name;
    uint64_t N = M().n(8000, 120000);
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin("contains/" + nm, i, r)) continue;
        auto c = make_case<E>(r);
        V3 xi = rnd(gen_xi<E>(r));
        bool def = r.flip(0.3); double eps = def ? 1e-10 : (r.flip(0.2) ? 0. : r.logu(1e-12, 0.5));
        int side = -1;
        if (r.flip(0.6)) { // place the point near one side, at a controlled signed distance
            side = (int)r.irange(0, q.simplex ? q.c : 2*q.c - 1);
            double dl = (r.flip() ? 1 : -1) * r.logu(1e-9, 0.3); double t = r.flip() ? -eps + dl * (r.flip() ? 1 : eps) : dl; // margin value
            for (int a = 0; a < 20; ++a) { xi = gen_xi<E>(r, 4); if (q.margin(xi) > 1e-3) break; }
            if (q.simplex) { if (side < q.c) { for (int d = 0; d < q.c; ++d) xi[d] *= 0.5L; xi[side] = t; } else { LD s = xi[0] + xi[1] + xi[2]; for (int d = 0; d < q.c; ++d) xi[d] *= (1 - t) / s; } }
            else { int d = side / 2; xi[d] = (side % 2 ? -1 : 1) * (1 - (LD)t); }
            xi = rnd(xi);
        }
        mon::describe("xi=%s eps=%g side=%d %s", str(xi).c_str(), eps, side, c.str().c_str());
        LD mg = q.margin(xi) + eps;
        if (std::fabs(mg) > 1e-14L + 1e-6L * eps) {
            bool in = def ? c.e.contains_local(to_local<E>(xi)) : c.e.contains_local(to_local<E>(xi), eps);
            CHECK("contains_local/" + nm, in == (mg > 0), "xi=%s eps=%g: reported %d, margin %.3Lg", str(xi).c_str(), eps, (int)in, mg);
            mon::observe(in ? "inside" : "outside"); if (side >= 0) mon::observe(fmt("%s/side%d/%s", nm.c_str(), side, in ? "in" : "out"));
        }
        if constexpr (Info<E>::rect && CD<E> == 3) {
            // world point at local xi
            V3 w = rnd(c.world(xi)); LD m2 = q.margin(xi) + 1e-10L; LD noise = 1e-14L * (c.maxX() + c.size) / std::min(c.H[0], std::min(c.H[1], c.H[2])) * 10;
            if (std::fabs(m2) > noise + 1e-13L) { bool in = c.e.contains(to_world<E>(w)); CHECK("contains_world/" + nm, in == (m2 > 0), "x=%s xi=%s: reported %d margin %.3Lg", str(w).c_str(), str(xi).c_str(), (int)in, m2); mon::observe(in ? "world_inside" : "world_outside"); }
        }
        mon::distinct(hash_xi<E>(xi, mon::mix(mon::hash_str(nm.c_str()), mon::hash_d(eps)))); mon::sample();
    }
}
#elif PROP == 8
// clip a polygon/segment against the box |x_d| <= b; nonempty remainder <=> intersection
static bool clip_nonempty(std::vector<V3> p, LD b) {
    bool poly = p.size() > 2;
    for (int d = 0; d < 3; ++d) for (int s = -1; s <= 1; s += 2) {
        std::vector<V3> o; size_t n = p.size(); if (n == 0) return false;
        if (n == 1) { if (s * p[0][d] <= b) continue; return false; }
        size_t m = (poly && n > 2) ? n : n - 1;
        if (m == n - 1 && s * p[0][d] <= b) o.push_back(p[0]);
        for (size_t i = 0; i < m; ++i) {
            const V3 &a = p[i], &c = p[(i + 1) % n]; LD fa = b - s * a[d], fc = b - s * c[d];
            if ((fa < 0) != (fc < 0)) { LD t = fa / (fa - fc); V3 x = a + t * (c - a); x[d] = s * b; o.push_back(x); }
            if (fc >= 0) o.push_back(c);
        }
        p = o;
    }
    return !p.empty();
}
template <class E> void run() {
    std::string nm = Info<E>::name;
    uint64_t N = M().n(40000, 600000);
    static const char *cfg[] = {"random", "near", "vertex_in", "pierce", "edge_graze", "big", "corner_cut", "axis_plane"};
    for (uint64_t i = 0; i < N; ++i) {
        Rng r; if (!mon::begin("isect/" + nm, i, r)) continue;
        GeomOpt go; go.offmax = 5; go.smin = 1e-4; go.smax = 1e4; go.kind = (int)r.irange(K_REF, K_AFFINE);
        auto c = make_case<E>(r, go);
        int k = (int)r.irange(0, 7);
        V3 t[3];
        auto rv = [&](LD a) { return V3{(LD)r.uni(-a, a), (LD)r.uni(-a, a), (LD)r.uni(-a, a)}; };
        switch (k) {
            case 0: for (auto &v : t) v = rv(4); break;
            case 1: { V3 o = rv(2.2); for (auto &v : t) v = o + rv(0.5); break; }
            case 2: t[0] = rv(1); t[1] = rv(5); t[2] = rv(5); break;
            case 3: { V3 o = rv(1), d = rv(1); LD s = 6 / (norm(d) + 1e-3L); t[0] = o + s*d; t[1] = o - s*d; t[2] = o + rv(6); break; }
            case 4: { // close to a cube edge, direction crossing it
                int a = (int)r.irange(0, 2); V3 e{(LD)r.sgn(), (LD)r.sgn(), (LD)r.sgn()}; e[a] = r.uni(-1, 1); LD g = r.sgn() * r.logu(1e-3, 0.5); V3 o = e; o[(a+1)%3] *= 1 + g; V3 d = rv(1); t[0] = o + 3.L*d; t[1] = o - 3.L*d; t[2] = o + r.sgn()*5.L*V3{e[0], e[1], e[2]} + rv(1); break; }
            case 5: { V3 o = rv(1.8); for (int j = 0; j < 3; ++j) { t[j] = rv(20); } V3 s = (1/3.L)*(t[0]+t[1]+t[2]); for (auto &v : t) v = v - s + o; break; }
            case 6: { V3 n{(LD)r.sgn(), (LD)r.sgn(), (LD)r.sgn()}; LD h = 3 + r.sgn()*r.logu(1e-3, 1.5); // plane n.x = h close to the cube corner
                V3 u = cross(n, rv(1)), v = cross(n, u); LD a = 1 + r.uni(0, 6); V3 o = (h/3)*n; u = (1/(norm(u)+1e-6L))*u; v = (1/(norm(v)+1e-6L))*v; t[0] = o + a*u; t[1] = o - (a/2)*u + (a*0.8L)*v; t[2] = o - (a/2)*u - (a*0.8L)*v; if (r.flip()) for (auto &x : t) x = x + rv(0.3); break; }
            default: { int a = (int)r.irange(0, 2); LD h = r.uni(-1.5, 1.5); for (auto &v : t) { v = rv(4); v[a] = h; } break; }
        }
        // to world, rounded; recompute the exact local points of the rounded world points (affine elements)
        V3 w[3], l[3]; bool okl = true;
        M3 J = c.jac({0,0,0}); LD dj = det3(J); V3 cen = c.world({0,0,0});
        M3 inv; { V3 a{J[0][0],J[1][0],J[2][0]}, b{J[0][1],J[1][1],J[2][1]}, d{J[0][2],J[1][2],J[2][2]}; V3 bc = cross(b, d), ca = cross(d, a), ab = cross(a, b); inv[0] = (1/dj)*bc; inv[1] = (1/dj)*ca; inv[2] = (1/dj)*ab; }
        for (int j = 0; j < 3; ++j) { w[j] = rnd(c.world(t[j])); l[j] = mul(inv, w[j] - cen); okl &= maxabs(l[j] - t[j]) < 1e-6L; }
        mon::describe("%s l0=%s l1=%s l2=%s %s", cfg[k], str(l[0]).c_str(), str(l[1]).c_str(), str(l[2]).c_str(), c.str().c_str());
        if (!okl) { mon::observe("ill_conditioned_skipped"); continue; }
        double eps = r.flip(0.7) ? 0. : r.logu(1e-12, 1e-9);
        const LD mg = 1e-5L;
        auto tri = [&](int a, int b, int d) { return cg::Triangle<3, Linear>(to_world<E>(w[a]), to_world<E>(w[b]), to_world<E>(w[d])); };
        auto seg = [&](int a, int b) { return cg::Segment<3, Linear>(to_world<E>(w[a]), to_world<E>(w[b])); };
        { bool in = clip_nonempty({l[0], l[1]}, 1 - mg), out = !clip_nonempty({l[0], l[1]}, 1 + mg);
          if ((in || out) && norm(l[0] - l[1]) > 1e-3L) {
            bool g = eps == 0 ? c.e.intersects(seg(0, 1)) : c.e.intersects(seg(0, 1), eps), g2 = c.e.intersects(seg(1, 0), eps);
            CHECK("segment/" + nm, g == in, "segment %s-%s: reported %d, expected %d (eps=%g)", str(l[0]).c_str(), str(l[1]).c_str(), (int)g, (int)in, eps);
            CHECK("segment_symmetry/" + nm, g == g2, "reversed segment gives a different answer");
            mon::observe(fmt("segment/%s/%s", cfg[k], in ? "hit" : "miss"));
          } else mon::observe("segment_grazing_skipped"); }
        { LD area = norm(cross(l[1]-l[0], l[2]-l[0])), lm = std::max(norm(l[1]-l[0]), std::max(norm(l[2]-l[0]), norm(l[2]-l[1])));
          bool in = clip_nonempty({l[0], l[1], l[2]}, 1 - mg), out = !clip_nonempty({l[0], l[1], l[2]}, 1 + mg);
          if ((in || out) && area > 1e-3L * lm * lm && lm > 1e-3L) {
            bool g = eps == 0 ? c.e.intersects(tri(0,1,2)) : c.e.intersects(tri(0,1,2), eps);
            CHECK("triangle/" + nm, g == in, "triangle reported %d, expected %d (eps=%g) %s %s %s", (int)g, (int)in, eps, str(l[0]).c_str(), str(l[1]).c_str(), str(l[2]).c_str());
            CHECK("triangle_vertex_order/" + nm, c.e.intersects(tri(1,2,0), eps) == g && c.e.intersects(tri(0,2,1), eps) == g && c.e.intersects(tri(2,1,0), eps) == g, "answer depends on the vertex order");
            bool anyin = false; for (auto &v : l) anyin |= maxabs(v) < 1; bool edge = clip_nonempty({l[0],l[1]}, 1) || clip_nonempty({l[1],l[2]}, 1) || clip_nonempty({l[2],l[0]}, 1);
            mon::observe(fmt("triangle/%s/%s%s", cfg[k], in ? "hit" : "miss", in ? (anyin ? "_vertex" : edge ? "_edge" : "_faceonly") : ""));
          } else mon::observe("triangle_grazing_skipped"); }
        uint64_t h = mon::hash_str(nm.c_str()); for (auto &v : w) for (auto x : v) h = mon::mix(h, mon::hash_d((double)x)); mon::distinct(h); mon::sample();
    }
}
#elif PROP == 9
template <class E> void check_nodes(const char *how, const E &e, const std::vector<V3> &X, LD tol) {
    std::string nm = Info<E>::name; bool ok = true, ok2 = true; int bad = -1;
    auto m = e.nodes();
    CHECK("node_count/" + nm, (size_t)m.rows() == X.size() && e.number_of_nodes() == X.size(), "%s", how);
    for (size_t i = 0; i < X.size(); ++i) { V3 a = from(e.node(i), WD<E>), b = from(m.row(i), WD<E>); if (!(norm(a - X[i]) <= tol)) { ok = false; bad = (int)i; } if (!(norm(b - a) <= tol)) { ok2 = false; bad = (int)i; } }
    CHECK(std::string("nodes_") + how + "/" + nm, ok, "node %d is %s expected %s", bad, str(from(e.node(bad < 0 ? 0 : bad), WD<E>)).c_str(), str(X[bad < 0 ? 0 : bad]).c_str());
    CHECK("node_vs_nodes/" + nm, ok2, "%s: nodes() row %d differs from node(%d)", how, bad, bad);
}
template <class Mat> LD ortho_err(const Mat &m, int D) { LD e = 0; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { LD s = 0; for (int k = 0; k < D; ++k) s += (LD)m(k,i)*(LD)m(k,j); e = std::max(e, std::fabs(s - (i == j))); } return e; }
template <class E, size_t... I> E from_list(const std::vector<V3> &X, std::index_sequence<I...>) { return E(to_world<E>(X[I])...); }
template <class E> void run() {
    const Ref &q = R<E>();
    std::string nm = Info<E>::name;
    constexpr int D = WD<E>, C = CD<E>, n = NN<E>;
    for (uint64_t i = 0; i < M().n(2500, 40000); ++i) {
        Rng r; if (!mon::begin("construct/" + nm, i, r)) continue;
        GeomOpt go; go.smin = 1e-6; go.smax = 1e6; go.distort = 0.4; go.curve = 0.3;
        auto c = make_case<E>(r, go); LD mx = c.maxX() + c.size; LD tol = 1e-12L * mx;
        mon::describe("%s", c.str().c_str());
        // default element is the reference element (segments have documented end points only when given)
        { E e{}; std::vector<V3> X = q.nodes; check_nodes<E>("default", e, X, 1e-14L); }
        { alignas(64) unsigned char buf[sizeof(E)]; memset(buf, 0x5b, sizeof buf); E *e = new (buf) E(); std::vector<V3> X = q.nodes; check_nodes<E>("default-over-used-memory", *e, X, 1e-14L); e->~E(); }
        V3 cc{0,0,0}; if (q.simplex) for (int d = 0; d < C; ++d) cc[d] = 1.L/(C+1);
        if constexpr (!Info<E>::rect) {
            Eigen::Matrix<double, n, D> m; for (int a = 0; a < n; ++a) for (int d = 0; d < D; ++d) m(a, d) = (double)c.X[a][d];
            const auto cm = m; E a(m), b(cm); check_nodes<E>("matrix", a, c.X, 0); check_nodes<E>("const_matrix", b, c.X, 0);
            if constexpr (D > 1) { Eigen::Matrix<double, n, D, Eigen::RowMajor> rm = m; E e(rm); check_nodes<E>("rowmajor", e, c.X, 0); }
            { Eigen::Matrix<float, n, D> fm = m.template cast<float>(); std::vector<V3> Xf; for (int a = 0; a < n; ++a) { V3 v{0,0,0}; for (int d = 0; d < D; ++d) v[d] = fm(a, d); Xf.push_back(v); } E e(fm); check_nodes<E>("float_matrix", e, Xf, 0); }
            { Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> big(n + 3, D + 2); big.setConstant(std::nan("")); big.template block<n, D>(2, 1) = m; E e(big.template block<n, D>(2, 1)); check_nodes<E>("block", e, c.X, 0); }
            { E e = from_list<E>(c.X, std::make_index_sequence<n>{}); check_nodes<E>("node_list", e, c.X, 0); }
            { E e(a); E f; f = a; check_nodes<E>("copy", e, c.X, 0); check_nodes<E>("assign", f, c.X, 0); }
            { V3 g = from(c.e.center(), D); CHECK("center/" + nm, norm(g - c.world(cc)) <= tol, "center %s expected %s", str(g).c_str(), str(c.world(cc)).c_str()); }
            // quadratic from linear / corners
            if constexpr (Info<E>::order == 2 && Info<E>::fam != SEG) {
                std::vector<V3> X(c.X.begin(), c.X.begin() + q.ncorner); std::vector<V3> Y = X; for (int k = q.ncorner; k < n; ++k) Y.push_back(0.5L * (X[q.mid[k][0]] + X[q.mid[k][1]]));
                auto go2 = [&](auto lin) { using LE = decltype(lin); LE le = build_from_nodes<LE>(X); E e(le); check_nodes<E>("from_linear", e, Y, tol); };
                if constexpr (Info<E>::fam == TRI) { go2(cg::Triangle<D, Linear>{}); auto p = [&](int k) { return to_world<E>(X[k]); }; const auto p0 = p(0), p1 = p(1), p2 = p(2); E e(p0, p1, p2); check_nodes<E>("from_corners", e, Y, tol); auto m0 = p(0), m1 = p(1), m2 = p(2); E e2(m0, m1, m2); check_nodes<E>("from_corners", e2, Y, tol); }
                if constexpr (Info<E>::fam == QUAD) { go2(cg::Quad<D, Linear>{}); auto p = [&](int k) { return to_world<E>(X[k]); }; const auto p0 = p(0), p1 = p(1), p2 = p(2), p3 = p(3); E e(p0, p1, p2, p3); check_nodes<E>("from_corners", e, Y, tol); auto m0 = p(0), m1 = p(1), m2 = p(2), m3 = p(3); E e2(m0, m1, m2, m3); check_nodes<E>("from_corners", e2, Y, tol); }
                if constexpr (Info<E>::fam == TET) { go2(cg::Tetrahedron<Linear>{}); auto p = [&](int k) { return to_world<E>(X[k]); }; const auto p0 = p(0), p1 = p(1), p2 = p(2), p3 = p(3); E e(p0, p1, p2, p3); check_nodes<E>("from_corners", e, Y, tol); auto m0 = p(0), m1 = p(1), m2 = p(2), m3 = p(3); E e2(m0, m1, m2, m3); check_nodes<E>("from_corners", e2, Y, tol); }
                if constexpr (Info<E>::fam == HEX) { go2(cg::Hexahedron<Linear>{}); auto p = [&](int k) { return to_world<E>(X[k]); }; const auto p0 = p(0), p1 = p(1), p2 = p(2), p3 = p(3), p4 = p(4), p5 = p(5), p6 = p(6), p7 = p(7); E e(p0, p1, p2, p3, p4, p5, p6, p7); check_nodes<E>("from_corners", e, Y, tol);
                    auto m0 = p(0), m1 = p(1), m2 = p(2), m3 = p(3), m4 = p(4), m5 = p(5), m6 = p(6), m7 = p(7); E e2(m0, m1, m2, m3, m4, m5, m6, m7); check_nodes<E>("from_corners", e2, Y, tol); }
            }
            if constexpr (Info<E>::fam == TRI && D == 3) {
                V3 nr = cross(c.X[1] - c.X[0], c.X[2] - c.X[0]); nr = (1 / norm(nr)) * nr; V3 g = from(c.e.normal(), 3); LD cd = mx / c.size;
                CHECK("normal/" + nm, norm(g - nr) <= 1e-13L * cd * 100, "normal %s expected %s", str(g).c_str(), str(nr).c_str());
            }
            if constexpr (Info<E>::fam == QUAD || Info<E>::fam == HEX || Info<E>::fam == TET) {
                LD ft = 1e-12L * (1 + mx / c.size) * 10;
                V3 xi{0,0,0}; if (Info<E>::fam != TET && r.flip(0.7)) { xi = gen_xi<E>(r, 4); for (int d = 0; d < C; ++d) if (std::fabs(xi[d]) > 0.9L) xi[d] = 0.5L; xi = rnd(xi); }
                M3 J = c.jac(xi); 
                V3 u, v; // directions toward the u=1 / v=1 sides, as documented
                if (Info<E>::fam == TET) { u = c.X[1] - c.X[0]; v = c.X[2] - c.X[0]; }
                else { V3 a = xi, b = xi; a[0] = 1; b[1] = 1; u = c.world(a) - c.world(xi); v = c.world(b) - c.world(xi); }
                u = (1/norm(u))*u; v = (1/norm(v))*v; (void)J;
                typename E::template Matrix<D, D> f;
                if constexpr (Info<E>::fam == TET) f = c.e.frame(); else { if (maxabs(xi) == 0 && r.flip()) f = c.e.frame(); else f = c.e.frame(to_local<E>(xi)); }
                V3 fu{0,0,0}, fv{0,0,0}, fw{0,0,0}; for (int d = 0; d < D; ++d) { fu[d] = f(d, 0); fv[d] = f(d, 1); if (D == 3) fw[d] = f(d, D - 1); }
                CHECK("frame_u/" + nm, norm(fu - u) <= ft, "frame u-axis %s expected %s", str(fu).c_str(), str(u).c_str());
                if (Info<E>::fam == QUAD) { // in-plane axes follow the element; the third one is their normal
                    CHECK("frame_v/" + nm, norm(fv - v) <= ft, "frame v-axis %s expected %s", str(fv).c_str(), str(v).c_str());
                    if (D == 3) { V3 w = cross(u, v); w = (1/norm(w))*w; CHECK("frame_w/" + nm, norm(fw - w) <= ft * 4, "frame normal %s expected %s", str(fw).c_str(), str(w).c_str()); }
                } else {
                    V3 w = cross(u, v); w = (1/norm(w))*w; V3 v2 = cross(w, u);
                    CHECK("frame_orthonormal/" + nm, ortho_err(f, D) <= ft, "frame not orthonormal (%.3Lg)", ortho_err(f, D));
                    CHECK("frame_axes/" + nm, norm(fv - v2) <= ft * 4 && norm(fw - w) <= ft * 4, "frame axes v=%s w=%s expected %s %s", str(fv).c_str(), str(fw).c_str(), str(v2).c_str(), str(w).c_str());
                }
                mon::observe("frames");
            }
        } else {
            using Gen = std::conditional_t<C == 2, std::conditional_t<Info<E>::order == 1, cg::Quad<D, Linear>, cg::Quad<D, Quadratic>>, std::conditional_t<Info<E>::order == 1, cg::Hexahedron<Linear>, cg::Hexahedron<Quadratic>>>;
            using Lin = std::conditional_t<C == 2, cg::Quad<D, Linear>, cg::Hexahedron<Linear>>;
            typename E::WorldCoordinates ce = to_world<E>(c.center); typename E::Size h; for (int d = 0; d < C; ++d) h[d] = (double)c.H[d];
            typename E::Rotation rr; for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) rr(a, b) = (double)c.rot[a][b];
            auto expect = [&](const char *how, const E &e, const V3 &H, const M3 &Rm, LD t) {
                std::vector<V3> X; for (auto &nd : q.nodes) { V3 p{0,0,0}; for (int d = 0; d < C; ++d) p[d] = nd[d]*H[d]/2; X.push_back(c.center + mul(Rm, p)); }
                check_nodes<E>(how, e, X, t * mx);
                bool ok = norm(from(e.center(), D) - c.center) <= t * mx; for (int d = 0; d < C; ++d) ok &= std::fabs((LD)e.size()[d] - H[d]) <= t * mx;
                for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) ok &= std::fabs((LD)e.rotation()(a, b) - Rm[a][b]) <= t * mx / c.size * 10;
                CHECK(std::string("csr_") + how + "/" + nm, ok, "centre/size/rotation differ from the given ones");
            };
            M3 Id{V3{1,0,0}, V3{0,1,0}, V3{0,0,1}}; V3 H2{2,2,2};
            expect("center", E(ce), H2, Id, 1e-12L * (1 + 2 / c.size)); expect("center_size", E(ce, h), c.H, Id, 1e-12L);
            expect("center_rotation", E(ce, rr), H2, c.rot, 1e-12L * (1 + 2 / c.size)); expect("center_size_rotation", c.e, c.H, c.rot, 1e-12L);
            std::vector<V3> Xr; for (auto &x : c.X) Xr.push_back(rnd(x));
            Gen g = build_from_nodes<Gen>(Xr); expect("from_general", E(g), c.H, c.rot, 1e-11L);
            Eigen::Matrix<double, n, D> m; for (int a = 0; a < n; ++a) for (int d = 0; d < D; ++d) m(a, d) = (double)Xr[a][d];
            const auto cm = m; expect("from_matrix", E(m), c.H, c.rot, 1e-11L); expect("from_const_matrix", E(cm), c.H, c.rot, 1e-11L);
            { std::vector<V3> Xl(Xr.begin(), Xr.begin() + q.ncorner); Lin l = build_from_nodes<Lin>(Xl); expect("from_linear_general", E(l), c.H, c.rot, 1e-11L);
              if constexpr (C == 3) { Eigen::Matrix<double, 8, 3> ml; for (int a = 0; a < 8; ++a) for (int d = 0; d < 3; ++d) ml(a, d) = (double)Xl[a][d]; const auto cml = ml; expect("from_linear_matrix", E(ml), c.H, c.rot, 1e-11L); expect("from_linear_matrix", E(cml), c.H, c.rot, 1e-11L); } }
            { E e(c.e), f; f = c.e; expect("copy", e, c.H, c.rot, 1e-12L); expect("assign", f, c.H, c.rot, 1e-12L); }
            if constexpr (C == 2) { V3 xi = gen_xi<E>(r, 4); V3 g2 = from(c.e.T(to_local<E>(xi)), D); CHECK("T/" + nm, norm(g2 - c.world(rnd(xi))) <= tol, "T(xi)=%s expected %s", str(g2).c_str(), str(c.world(xi)).c_str()); }
            // the general counterpart and the rectangular one are the same map
            V3 xi = rnd(gen_xi<E>(r, 4)); V3 a = from(c.e.world_coordinates(to_local<E>(xi)), D), b = from(g.world_coordinates(to_local<Gen>(xi)), D);
            CHECK("same_map/" + nm, norm(a - b) <= 1e-11L * mx, "rectangular %s general %s", str(a).c_str(), str(b).c_str());
        }
        mon::observe(fmt("kind%d", (int)c.kind)); mon::distinct(mon::mix(mon::hash_str(nm.c_str()), mon::hash_d((double)c.X[0][0]) ^ mon::hash_d((double)c.X.back()[0]))); mon::sample();
    }
}
#endif

template <class... E> void all() { (run<E>(), ...); }

int main(int argc, char **argv) {
    mon::init(argc, argv);
#if PROP != 8
 #if FAMILY == 0
    all<cg::Segment<1,Linear>, cg::Segment<2,Linear>, cg::Segment<3,Linear>>();
 #elif FAMILY == 1
    all<cg::Segment<1,Quadratic>, cg::Segment<2,Quadratic>, cg::Segment<3,Quadratic>>();
 #elif FAMILY == 2
    all<cg::Triangle<2,Linear>, cg::Triangle<3,Linear>, cg::Triangle<2,Quadratic>, cg::Triangle<3,Quadratic>>();
 #elif FAMILY == 3
    all<cg::Quad<2,Linear>, cg::Quad<3,Linear>, cg::Quad<2,Quadratic>, cg::Quad<3,Quadratic>>();
 #elif FAMILY == 4
    all<cg::RectangularQuad<2,Linear>, cg::RectangularQuad<3,Linear>, cg::RectangularQuad<2,Quadratic>, cg::RectangularQuad<3,Quadratic>>();
 #elif FAMILY == 5
    all<cg::Tetrahedron<Linear>, cg::Tetrahedron<Quadratic>>();
 #elif FAMILY == 6
    all<cg::Hexahedron<Linear>, cg::Hexahedron<Quadratic>>();
 #elif FAMILY == 7
    all<cg::RectangularHexahedron<Linear>, cg::RectangularHexahedron<Quadratic>>();
 #endif
#else
 #if FAMILY == 0
    all<cg::Hexahedron<Linear>>();
 #elif FAMILY == 1
    all<cg::Hexahedron<Quadratic>>();
 #elif FAMILY == 2
    all<cg::RectangularHexahedron<Linear>>();
 #elif FAMILY == 3
    all<cg::RectangularHexahedron<Quadratic>>();
 #endif
#endif
    return mon::finish();
}
