// Monitors for the deformation gradient and the compact fourth-order products.
#include "ref.h"
#include <Caribou/Mechanics/Elasticity/Strain.h>
#include <Caribou/Algebra/Tensor.h>
namespace st = caribou::mechanics::elasticity::strain;

static double val(Rng &r, double s) {
    switch (r.irange(0, 9)) { case 0: return 0; case 1: return s; case 2: return -s; case 3: return r.uni(-1, 1) * s * 1e-8; default: return r.uni(-1, 1) * s; }
}

// F on arbitrary inputs, every storage order and element size in use
template <int N, int D, int O> void raw() {
    std::string nm = fmt("%dx%d%s", N, D, O ? "R" : "C");
    uint64_t K = M().n(400, 20000);
    for (uint64_t i = 0; i < K; ++i) {
        Rng r; if (!mon::begin("F/" + nm, i, r)) continue;
        st::Matrix<N, D, O> dN, U;
        double sd = r.logu(1e-6, 1e6), su = r.logu(1e-6, 1e6); int mode = (int)r.irange(0, 4);
        for (int a = 0; a < N; ++a) for (int d = 0; d < D; ++d) { dN(a, d) = val(r, sd); U(a, d) = mode == 0 ? 0 : val(r, su); }
        if (mode == 1) { int keep = (int)r.irange(0, N - 1), kd = (int)r.irange(0, D - 1); for (int a = 0; a < N; ++a) for (int d = 0; d < D; ++d) if (a != keep || d != kd) U(a, d) = 0; mon::observe("single-node-displacement"); }
        mon::describe("mode=%d scales %g %g", mode, sd, su);
        const auto F = st::F(dN, U);
        LD sc = 1; for (int a = 0; a < N; ++a) for (int d = 0; d < D; ++d) for (int e = 0; e < D; ++e) sc += std::fabs((LD)dN(a, d) * U(a, e));
        bool ok = F.rows() == D && F.cols() == D; int bi = 0, bj = 0; LD bx = 0;
        for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) {
            LD x = a == b ? 1 : 0; for (int k = 0; k < N; ++k) x += (LD)U(k, a) * (LD)dN(k, b);
            if (!(std::fabs((LD)F(a, b) - x) <= 1e-14L * sc)) { ok = false; bi = a; bj = b; bx = x; }
        }
        CHECK("deformation_gradient/" + nm, ok, "F(%d,%d)=%.17g expected %.17Lg", bi, bj, (double)F(bi, bj), bx);
        if (mode == 0) { bool id = true; for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) id &= F(a, b) == (a == b ? 1. : 0.); CHECK("identity_at_rest/" + nm, id, "F is not the identity without displacement"); mon::observe("at-rest"); }
        mon::distinct(mon::mix(mon::hash_str(nm.c_str()), mon::hash_d(dN(0, 0)) ^ mon::hash_d(U(N - 1, D - 1)) ^ i)); mon::sample();
    }
}

// F on real elements: the shape derivatives come from the element itself
template <class E> void elem() {
    constexpr int N = NN<E>, D = WD<E>;
    std::string nm = Info<E>::name;
    const Ref &q = R<E>();
    uint64_t K = M().n(800, 40000);
    for (uint64_t i = 0; i < K; ++i) {
        Rng r; if (!mon::begin("Fe/" + nm, i, r)) continue;
        auto c = make_case<E>(r, {1e-3, 1e3, 10, 0.3, 0.1, -1});
        V3 xi = gen_inside<E>(r);
        const auto lx = to_local<E>(xi);
        st::Matrix<D, D> J = c.e.jacobian(lx);
        const st::Matrix<D, D> Ji = J.inverse();
        st::Matrix<N, D> dN = (Ji.transpose() * c.e.dL(lx).transpose()).transpose();
        // prescribed gradient G: rest, rigid translation, rotation, affine
        int mode = (int)r.irange(0, 4); M3 G{}; for (auto &g : G) g = {0,0,0};
        for (int a = 0; a < D; ++a) G[a][a] = 1;
        V3 tr{0,0,0}; for (int a = 0; a < D; ++a) tr[a] = mode ? r.uni(-5, 5) * c.size : 0;
        if (mode == 2 || mode == 4) G = random_rotation(r, D);
        if (mode >= 3) { M3 A{}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) A[a][b] = (a == b) + (a < D && b < D ? r.uni(-0.4, 0.4) : 0); M3 P{}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { P[a][b] = 0; for (int k = 0; k < 3; ++k) P[a][b] += G[a][k] * A[k][b]; } G = P; }
        st::Matrix<N, D> U; V3 ctr = c.X[0];
        for (int k = 0; k < N; ++k) { V3 dx = c.X[k] - ctr; V3 y = mul(G, dx) + tr; for (int d = 0; d < D; ++d) U(k, d) = mode == 0 ? 0. : (double)(y[d] - dx[d]); }
        mon::describe("mode=%d xi=%s %s", mode, str(xi).c_str(), c.str().c_str());
        const auto F = st::F(dN, U);
        LD mx = (c.maxX() + 10 * c.size) / c.size; LD tol = 1e-11L * mx * 10; bool ok = true; int bi = 0, bj = 0;
        for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) if (!(std::fabs((LD)F(a, b) - G[a][b]) <= tol)) { ok = false; bi = a; bj = b; }
        CHECK("affine_displacement/" + nm, ok, "F(%d,%d)=%.17g, the prescribed gradient is %.17Lg", bi, bj, (double)F(bi, bj), G[bi][bj]);
        mon::observe(mode == 0 ? "element:at-rest" : mode == 1 ? "element:translation" : mode == 2 ? "element:rotation" : mode == 3 ? "element:affine" : "element:rotated-affine");
        mon::distinct(mon::mix(mon::hash_str(nm.c_str()), mon::hash_d((double)c.X[0][0]) ^ mon::hash_d((double)xi[0]) ^ i)); mon::sample(); (void)q;
    }
}

template <class T, int O> void dyads(const char *nm) {
    static const int V[6][2] = {{0,0},{1,1},{2,2},{0,1},{1,2},{0,2}};
    uint64_t K = M().n(3000, 100000);
    for (uint64_t i = 0; i < K; ++i) {
        Rng r; if (!mon::begin(std::string("dyad/") + nm, i, r)) continue;
        Eigen::Matrix<T, 3, 3, O> a; double s = r.logu(1e-6, 1e6); int mode = (int)r.irange(0, 3);
        for (int x = 0; x < 3; ++x) for (int y = x; y < 3; ++y) { T v = (T)(mode == 0 ? (x == y ? val(r, s) : 0) : mode == 1 ? (double)r.irange(-9, 9) : val(r, s)); a(x, y) = v; a(y, x) = v; }
        mon::describe("a=[%g %g %g %g %g %g]", (double)a(0,0), (double)a(1,1), (double)a(2,2), (double)a(0,1), (double)a(1,2), (double)a(0,2));
        LD m = 0; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) m = std::max(m, std::fabs((LD)a(x, y)));
        LD tol = 4 * (LD)std::numeric_limits<T>::epsilon() * m * m;
        const auto A = caribou::algebra::symmetric_dyad_1(a); const auto B = caribou::algebra::symmetric_dyad_2(a);
        bool o1 = true, o2 = true; int p1 = 0, q1 = 0, p2 = 0, q2 = 0;
        for (int p = 0; p < 6; ++p) for (int q = 0; q < 6; ++q) {
            int I = V[p][0], J = V[p][1], Kk = V[q][0], L = V[q][1];
            LD e1 = (LD)a(I, J) * a(Kk, L), e2 = 0.5L * ((LD)a(I, Kk) * a(J, L) + (LD)a(I, L) * a(J, Kk));
            if (!(std::fabs((LD)A(p, q) - e1) <= tol)) { o1 = false; p1 = p; q1 = q; }
            if (!(std::fabs((LD)B(p, q) - e2) <= tol)) { o2 = false; p2 = p; q2 = q; }
        }
        CHECK(std::string("dyad_1/") + nm, o1, "entry (%d,%d) = %.17g", p1, q1, (double)A(p1, q1));
        CHECK(std::string("dyad_2/") + nm, o2, "entry (%d,%d) = %.17g", p2, q2, (double)B(p2, q2));
        // contraction with a symmetric strain: (a (x) a) : e = a tr(a e), and a e a for the second
        LD e[3][3]; for (int x = 0; x < 3; ++x) for (int y = x; y < 3; ++y) e[x][y] = e[y][x] = r.uni(-1, 1);
        LD tr = 0; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) tr += (LD)a(x, y) * e[y][x];
        bool oc = true;
        for (int p = 0; p < 6; ++p) {
            LD s1 = 0, s2 = 0, t2 = 0; for (int q = 0; q < 6; ++q) { LD w = (q < 3 ? 1 : 2) * e[V[q][0]][V[q][1]]; s1 += (LD)A(p, q) * w; s2 += (LD)B(p, q) * w; }
            for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) t2 += (LD)a(V[p][0], x) * e[x][y] * a(y, V[p][1]);
            if (!(std::fabs(s1 - (LD)a(V[p][0], V[p][1]) * tr) <= 40 * tol && std::fabs(s2 - t2) <= 40 * tol)) oc = false;
        }
        CHECK(std::string("contraction/") + nm, oc, "contraction with a symmetric tensor differs");
        mon::observe(mode == 0 ? "tensor:diagonal" : mode == 1 ? "tensor:integer" : "tensor:general");
        mon::distinct(mon::mix(mon::hash_str(nm), mon::hash_d((double)a(0,1)) ^ mon::hash_d((double)a(2,2)) ^ i)); mon::sample();
    }
}

int main(int argc, char **argv) {
    mon::init(argc, argv);
#if PART == 0
    raw<2,1,0>(); raw<3,1,0>(); raw<3,2,0>(); raw<4,2,0>(); raw<6,2,0>(); raw<8,2,0>(); raw<4,3,0>(); raw<8,3,0>(); raw<10,3,0>(); raw<20,3,0>(); raw<2,3,0>(); raw<1,3,Eigen::RowMajor>();
    raw<3,2,Eigen::RowMajor>(); raw<4,2,Eigen::RowMajor>(); raw<4,3,Eigen::RowMajor>(); raw<8,3,Eigen::RowMajor>(); raw<10,3,Eigen::RowMajor>(); raw<20,3,Eigen::RowMajor>();
#elif PART == 1
    elem<cg::Segment<1,Linear>>(); elem<cg::Segment<1,Quadratic>>(); elem<cg::Triangle<2,Linear>>(); elem<cg::Triangle<2,Quadratic>>(); elem<cg::Quad<2,Linear>>(); elem<cg::Quad<2,Quadratic>>(); elem<cg::RectangularQuad<2,Linear>>(); elem<cg::RectangularQuad<2,Quadratic>>();
#elif PART == 2
    elem<cg::Tetrahedron<Linear>>(); elem<cg::Tetrahedron<Quadratic>>(); elem<cg::Hexahedron<Linear>>(); elem<cg::Hexahedron<Quadratic>>(); elem<cg::RectangularHexahedron<Linear>>(); elem<cg::RectangularHexahedron<Quadratic>>();
#else
    dyads<double, 0>("double"); dyads<double, Eigen::RowMajor>("double-rowmajor"); dyads<float, 0>("float"); dyads<float, Eigen::RowMajor>("float-rowmajor"); dyads<long double, 0>("long-double");
#endif
    return mon::finish();
}
