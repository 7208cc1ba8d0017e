// P32: the (corotated) linear elastic force fields of hexahedra (KIND 0) and tetrahedra (KIND 1).
#include "material.h"
#if KIND == 0
#include <SofaCaribou/Forcefield/HexahedronElasticForce.h>
using E = caribou::geometry::Hexahedron<caribou::Linear>; using FF = SofaCaribou::forcefield::HexahedronElasticForce;
#else
#include <SofaCaribou/Forcefield/TetrahedronElasticForce.h>
using E = caribou::geometry::Tetrahedron<caribou::Linear>; using FF = SofaCaribou::forcefield::TetrahedronElasticForce;
#endif
constexpr int N = NN<E>;
using DT = sofa::defaulttype::Vec3Types; using VC = DT::VecCoord; using MO = sofa::component::container::MechanicalObject<DT>; using Topo = sofa::component::topology::MeshTopology;
using ElIdx = sofa::type::vector<sofa::type::fixed_array<sofa::Index, N>>; using LE = Eigen::Matrix<LD, 3 * N, 3 * N>; using LU = Eigen::Matrix<LD, 3 * N, 1>; using L3 = Eigen::Matrix<LD, 3, 1>;
static VC tovec(const std::vector<V3> &x) { VC r(x.size()); for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < 3; ++d) r[i][d] = (double)x[i][d]; return r; }
static L3 l3(const V3 &a) { return L3(a[0], a[1], a[2]); }
static LM3 frame_of(const std::vector<V3> &X) { // the documented frame: u toward the u=1 side (or second node), w normal to the (u, v) plane
    V3 u, v; if (KIND == 1) { u = X[1] - X[0]; v = X[2] - X[0]; } else { auto c = [&](V3 xi) { auto L = R<E>().L(xi); V3 p{0,0,0}; for (int i = 0; i < N; ++i) p = p + L[i] * X[i]; return p; }; V3 o = c({0,0,0}); u = c({1,0,0}) - o; v = c({0,1,0}) - o; }
    u = (1 / norm(u)) * u; V3 w = cross(u, v); w = (1 / norm(w)) * w; V3 v2 = cross(w, u); LM3 f; for (int d = 0; d < 3; ++d) { f(d, 0) = u[d]; f(d, 1) = v2[d]; f(d, 2) = w[d]; } return f;
}
struct Model {
    GMesh<E> m; std::vector<int> kept; std::vector<LE> K; std::vector<LM3> F0, Rc; size_t n = 0; LD volume = 0, kmax = 0; bool one = false;
    std::vector<V3> nodes(int e, const std::vector<V3> &x) const { std::vector<V3> o; for (int i : m.conn[e]) o.push_back(x[i]); return o; }
    static void jac(const std::vector<V3> &X, const V3 &xi, LM3 &J, std::vector<V3> &dL) { dL = R<E>().dL(xi); J.setZero(); for (int i = 0; i < N; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J(a, b) += X[i][a] * dL[i][b]; }
    void prepare(LD young, LD nu) {
        K.clear(); F0.clear(); Rc.clear(); volume = 0; kmax = 0; n = m.X.size(); LD l = young * nu / ((1 + nu) * (1 - 2 * nu)), mu = young / (2 * (1 + nu)); std::vector<std::pair<V3, LD>> q; LD g = 1 / std::sqrt(3.L);
        if (KIND == 1) q.push_back({{0.25L, 0.25L, 0.25L}, 1 / 6.L}); else if (one) q.push_back({{0,0,0}, 8}); else for (int a = 0; a < 8; ++a) q.push_back({{a & 1 ? g : -g, a & 2 ? g : -g, a & 4 ? g : -g}, 1});
        for (int e : kept) {
            auto X = nodes(e, m.X); LE k = LE::Zero(); for (auto &p : q) { LM3 J; std::vector<V3> dL; jac(X, p.first, J, dL); LM3 Ji = J.inverse(); LD w = p.second * J.determinant(); volume += w; std::vector<L3> d(N); for (int i = 0; i < N; ++i) d[i] = Ji.transpose() * l3(dL[i]);
                for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) k(3 * i + a, 3 * j + b) += w * (l * d[i](a) * d[j](b) + mu * d[i](b) * d[j](a) + (a == b ? mu * d[i].dot(d[j]) : 0)); }
            K.push_back(k); F0.push_back(frame_of(X)); Rc.push_back(LM3::Identity()); kmax = std::max(kmax, k.cwiseAbs().maxCoeff());
        }
    }
    void rotate(const std::vector<V3> &x) { for (size_t k = 0; k < kept.size(); ++k) Rc[k] = frame_of(nodes(kept[k], x)) * F0[k].transpose(); }
    std::vector<V3> product(const std::vector<V3> *x, const std::vector<V3> *u) const { // -R K (R^T x - x0), or -R K R^T u
        std::vector<V3> f(n, V3{0,0,0}); for (size_t k = 0; k < kept.size(); ++k) { LU d; for (int i = 0; i < N; ++i) { int a = m.conn[kept[k]][i]; d.segment<3>(3 * i) = x ? L3(Rc[k].transpose() * l3((*x)[a]) - l3(m.X[a])) : L3(Rc[k].transpose() * l3((*u)[a])); } LU F = K[k] * d; for (int i = 0; i < N; ++i) { L3 y = Rc[k] * F.segment<3>(3 * i); for (int a = 0; a < 3; ++a) f[m.conn[kept[k]][i]][a] -= y(a); } } return f; }
    LM matrix() const { LM A = LM::Zero(3 * n, 3 * n); for (size_t k = 0; k < kept.size(); ++k) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { LM3 b = Rc[k] * K[k].block<3, 3>(3 * i, 3 * j) * Rc[k].transpose(); A.block(3 * m.conn[kept[k]][i], 3 * m.conn[kept[k]][j], 3, 3) -= b; } return A; }
    LD minJ(const std::vector<V3> &x) const { LD s = 1e30L; for (int e : kept) { auto X = nodes(e, m.X), Y = nodes(e, x); std::vector<V3> pts; if (KIND == 1) pts.push_back({0.25L, 0.25L, 0.25L}); else { pts.push_back({0,0,0}); for (int a = 0; a < 8; ++a) pts.push_back({a & 1 ? 1.L : -1.L, a & 2 ? 1.L : -1.L, a & 4 ? 1.L : -1.L}); } for (auto &p : pts) { LM3 J, H; std::vector<V3> d; jac(X, p, J, d); jac(Y, p, H, d); s = std::min(s, H.determinant() / J.determinant()); } } return s; }
};
static LD maxof(const std::vector<V3> &x) { LD m = 0; for (auto &a : x) m = std::max(m, maxabs(a)); return m; }
static void scene(Rng &r, uint64_t t) {
    Model md; md.m = make_mesh<E>(r); for (size_t i = 0; i < md.m.conn.size(); ++i) if (!md.m.removed[i]) md.kept.push_back((int)i); while (md.kept.size() > (KIND ? 30u : 12u)) md.kept.pop_back();
    auto &X0 = md.m.X; const LD h = md.m.h; double young = r.logu(1, 1e7), nu = r.flip(0.15) ? 0 : r.uni(0, 0.49); bool corot = r.flip(0.7); md.one = KIND == 0 && r.flip(0.3); md.prepare(young, nu); const size_t n = md.n;
    // modes: 0 rest, 1 rigid, 2 small displacement, 3 small displacement of a rigidly moved shape, 4 general
    auto configuration = [&](int mode) { for (int att = 0;; ++att) { LM3 A = LM3::Identity(); if (mode == 1 || mode >= 3) A = lm3(random_rotation(r, 3)); if (mode == 4) { LM3 S; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) S(a, b) = (a == b) + r.uni(-0.25, 0.25); A = A * S; } V3 tr{0,0,0}; if (mode == 1 || mode >= 3) tr = {r.uni(-1, 1) * h, r.uni(-1, 1) * h, r.uni(-1, 1) * h}; LD noise = mode == 4 ? 0.01L * h : mode >= 2 ? 1e-4L * h : 0;
        std::vector<V3> x(n); for (size_t i = 0; i < n; ++i) { L3 y = A * l3(X0[i] - X0[0]); x[i] = X0[0] + V3{y(0), y(1), y(2)} + tr; for (int k = 0; k < 3; ++k) x[i][k] += noise * r.uni(-1, 1); if (mode == 0) x[i] = X0[i]; x[i] = rnd(x[i]); } LD mj = md.minJ(x); if (mj > 0.2L && mj < 5) return x; if (att > 60) return X0; } };
    sptr<sofa::simulation::Node> root(new sofa::simulation::Node()); auto *node = root->createChild("mechanics"); auto *mo = new MO(); mo->setName("mo"); node->addObject(mo); bool moved = r.flip(0.4); auto x = moved ? configuration(4) : X0; mo->setup(tovec(X0), tovec(x)); mon::observe(moved ? "init:deformed" : "init:at-rest");
    ElIdx idx(md.kept.size()); for (size_t k = 0; k < md.kept.size(); ++k) for (int i = 0; i < N; ++i) idx[k][i] = (sofa::Index)md.m.conn[md.kept[k]][i];
    int bad = r.flip(0.12) ? (int)r.irange(1, 5) : 0; sptr<MO> keepmo(mo); if (bad == 5) node->removeObject(mo); // 1 an index out of range, 2 no topology, 3 two topologies, 4 no positions, 5 no mechanical state
    if (bad == 1) idx[r.u64() % idx.size()][r.u64() % N] = (sofa::Index)(n + (r.flip() ? 0 : r.irange(0, 1000))); if (bad == 4) mo->setup(VC(), VC());
    auto *to = new Topo(); to->setName("topo");
#if KIND == 0
    to->d_hexa.setValue(idx);
#else
    to->d_tetra.setValue(idx);
#endif
    bool link = bad != 2 && bad != 3 && r.flip(0.3); auto *where = link && r.flip() ? root.get() : node; if (bad != 2) where->addObject(to); sptr<Topo> keep(to); if (bad == 3) { auto *t2 = new Topo(); t2->setName("topo2"); node->addObject(t2); }
    auto *ff = new FF(); ff->setName("ff"); node->addObject(ff); if (link) { set_link(ff, "topology_container", to); mon::observe("topology:linked"); } double rs = r.flip(0.4) ? 0 : r.uni(0, 0.2); ff->rayleighStiffness.setValue(rs);
    auto params = [&] { set_data<double>(ff, "youngModulus", young); set_data<double>(ff, "poissonRatio", nu); set_data<bool>(ff, "corotated", corot);
#if KIND == 0
        ff->set_integration_method(md.one ? FF::IntegrationMethod::OnePointGauss : FF::IntegrationMethod::Regular); mon::observe(md.one ? "integration:one-point" : "integration:regular");
#endif
        mon::observe(corot ? "corotated" : "not-corotated"); };
    params(); std::string head = fmt("%s elements=%zu nodes=%zu E=%.4g nu=%.4g corotated=%d one-point=%d bad=%d moved=%d rs=%.3g h=%.3Lg", Info<E>::name, md.kept.size(), n, young, nu, (int)corot, (int)md.one, bad, (int)moved, rs, h); mon::describe("%s", head.c_str()); mon::sample(3);
    sofa::shim::log().clear(); if (r.flip(0.2)) { ff->f_printLog.setValue(true); mon::observe("print-log"); } ff->init(); unsigned errs = sofa::shim::count(2); sofa::core::behavior::BaseForceField *b = ff;
    if (bad == 5) {
        CHECK("invalid-scene-is-an-error", errs > 0, "no error was reported for a force field without mechanical state"); sofa::core::MechanicalParams mp; sofa::core::ExecParams ep; sofa::core::visual::VisualParams vp; b->addForce(&mp, sc::VecDerivId::force()); b->addDForce(&mp, sc::VecDerivId::dforce()); ff->computeBBox(&ep, true); ff->draw(&vp); ff->reinit(); size_t nv = 0; for (auto &g : vp.tool.triangles) nv += g.size(); CHECK("invalid-scene-is-not-drawn", nv == 0 && vp.tool.depth == 0, "%zu vertices are drawn without mechanical state", nv);
#if KIND == 0
        CHECK("invalid-scene-has-no-stiffness", ff->K().nonZeros() == 0 && ff->K().rows() == 0, "a force field without mechanical state has a stiffness");
#endif
        DenseRecorder a(3, 3); unsigned o = 0; ff->addKToMatrix(&a, 1., o); bool z = a.oob == 0; for (double v : a.a) z = z && v == 0; CHECK("invalid-scene-has-no-effect", z, "a force field without mechanical state adds a stiffness"); mon::observe("invalid:no-state"); return;
    }
    if (bad) {
        CHECK("invalid-scene-is-an-error", errs > 0, "no error was reported for an invalid scene (%d)", bad); sofa::core::MechanicalParams mp; const size_t k = bad == 4 ? 0 : n; VC f0(k); for (auto &v : f0) for (int d = 0; d < 3; ++d) v[d] = r.uni(-1, 1); mo->write(sc::VecDerivId::force())->setValue(f0); mo->write(sc::VecDerivId::dforce())->setValue(f0); mo->write(sc::VecDerivId::dx())->setValue(f0); b->addForce(&mp, sc::VecDerivId::force()); b->addDForce(&mp, sc::VecDerivId::dforce());
#if KIND == 0
        { Eigen::MatrixXd S(ff->K()); CHECK("invalid-scene-has-no-stiffness", S.rows() == (int)(3 * k) && S.cols() == (int)(3 * k) && S.isZero(0), "K() of an invalid scene (%d) is not null", bad); }
#endif
        DenseRecorder a((int)(3 * k), (int)(3 * k)); unsigned o = 0; ff->addKToMatrix(&a, 1., o); bool z = a.oob == 0; for (double v : a.a) z = z && v == 0; CHECK("invalid-scene-has-no-effect", z && mo->read(sc::ConstVecDerivId::force())->getValue() == f0 && mo->read(sc::ConstVecDerivId::dforce())->getValue() == f0, "an invalid scene (%d) has an effect", bad); mon::observe(fmt("invalid:%d", bad)); mon::distinct(mon::mix(t, bad)); return;
    }
    CHECK("valid-scene-no-error", errs == 0, "an error was reported for a valid scene");
    std::vector<V3> xa = x; bool fresh = true; int ops = (int)r.irange(3, 9); std::string trace; // fresh: no force evaluated since the (re)initialisation
    for (int o = 0; o < ops; ++o) {
        int op = fresh && o ? 0 : (int)r.irange(0, 7); trace += fmt(" %d", op); mon::describe("%s steps:%s", head.c_str(), trace.c_str()); const LD cs = maxof(X0) + maxof(xa) + h, tk = 1e-12L * md.kmax * 50;
        if (op <= 1) {
            int mode = (int)r.irange(0, 4); auto y = configuration(mode); bool fp = r.flip(0.25); auto id = fp ? sc::VecCoordId::freePosition() : sc::VecCoordId::position(); mo->write(id)->setValue(tovec(y)); if (fp) mon::observe("force:free-position"); sofa::core::MechanicalParams mp; mp.setX(sc::ConstVecCoordId(id)); const LD c2 = maxof(X0) + maxof(y) + h, tol = 1e-13L * md.kmax * c2 * 100;
            VC f0(n); for (auto &v : f0) for (int d = 0; d < 3; ++d) v[d] = r.flip() ? 0 : r.uni(-1, 1) * (double)(md.kmax * h); mo->write(sc::VecDerivId::force())->setValue(f0); b->addForce(&mp, sc::VecDerivId::force()); xa = y; fresh = false; if (corot) md.rotate(y);
            const VC &f1 = mo->read(sc::VecDerivId::force())->getValue(); auto fr = md.product(&y, nullptr); LD w = 0; size_t wi = 0; std::vector<V3> df(n); V3 sf{0,0,0}; for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) { df[i][d] = (LD)f1[i][d] - f0[i][d]; LD e = std::fabs(df[i][d] - fr[i][d]); if (!(e <= w)) { w = e; wi = i; } sf[d] += df[i][d]; }
            CHECK("force", w <= tol, "node %zu: the force differs from the reference by %.3Lg (tolerance %.3Lg)", wi, w, tol); CHECK("force-resultant", maxabs(sf) <= tol * n, "the internal forces have a resultant of %.3Lg", maxabs(sf));
            if (mode == 0 || (mode == 1 && corot)) CHECK("rigid-motion-force-free", maxof(df) <= tol, "%s produces forces of %.3Lg (tolerance %.3Lg)", mode ? "a rigid motion" : "the rest shape", maxof(df), tol);
            static const char *mn[] = {"rest", "rigid", "small", "small-on-rigid", "general"}; mon::observe(std::string("configuration:") + mn[mode]); mon::distinct(mon::mix(t * 16 + o, mon::hash_d(f1[0][0])));
        } else if (op == 2) {
            std::vector<V3> u(n); for (auto &v : u) for (int d = 0; d < 3; ++d) v[d] = (double)(r.uni(-1, 1) * h); sofa::core::MechanicalParams mp; double kf = r.flip(0.2) ? 1 : r.uni(-2, 2), bf = r.flip(0.4) ? 0 : r.uni(-1, 1); mp.setKFactor(kf); mp.setBFactor(bf); mo->write(sc::VecDerivId::dx())->setValue(tovec(u)); VC f0(n); for (auto &v : f0) for (int d = 0; d < 3; ++d) v[d] = r.flip() ? 0 : r.uni(-1, 1) * (double)(md.kmax * h); mo->write(sc::VecDerivId::dforce())->setValue(f0); b->addDForce(&mp, sc::VecDerivId::dforce());
            const VC &f1 = mo->read(sc::VecDerivId::dforce())->getValue(); auto dr = md.product(nullptr, &u); LD k = (LD)kf + (LD)bf * rs, w = 0, tol = tk * h * 10 + tk * cs * 1e-2L; for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) { LD e = std::fabs((LD)f1[i][d] - f0[i][d] - k * dr[i][d]); if (!(e <= w)) w = e; } CHECK("tangent-product", w <= tol, "the force differential is wrong by %.3Lg (tolerance %.3Lg)", w, tol); mon::observe("tangent-product");
        } else if (op == 3) {
            unsigned before = (unsigned)r.irange(0, 7), offs = before; int after = (int)r.irange(0, 5), sz = (int)(before + 3 * n) + after; DenseRecorder a(sz, sz); double kf = r.flip(0.2) ? 1 : r.uni(-2, 2); ff->addKToMatrix(&a, kf, offs); LM K = md.matrix(); LD w = 0, out = 0; for (int i = 0; i < sz; ++i) for (int j = 0; j < sz; ++j) { LD v = a.element(i, j); int p = i - (int)before, q = j - (int)before; if (p < 0 || q < 0 || p >= (int)(3 * n) || q >= (int)(3 * n)) out = std::max(out, std::fabs(v)); else { LD e = std::fabs(v - kf * K(p, q)); if (!(e <= w)) w = e; } }
            CHECK("matrix-block-only", out == 0 && a.oob == 0, "coefficients added outside of the block of this state"); CHECK("assembled-matrix", w <= tk * (1 + cs / h * 1e-2L), "the assembled matrix is wrong by %.3Lg (tolerance %.3Lg)", w, tk); mon::observe(before ? "matrix:offset" : "matrix:no-offset");
        } else if (op == 4) {
#if KIND == 0
            Eigen::MatrixXd S(ff->K()); LM K = md.matrix(); LD w = 1e300L; if (S.rows() == K.rows() && S.cols() == K.cols()) { w = 0; for (int i = 0; i < S.rows(); ++i) for (int j = 0; j < S.cols(); ++j) { LD e = std::fabs((LD)S(i, j) - K(i, j)); if (!(e <= w)) w = e; } } CHECK("K", w <= tk * (1 + cs / h * 1e-2L), "K() is wrong by %.3Lg (tolerance %.3Lg)", w, tk); mon::observe("K()");
            LD v = 0; for (size_t k = 0; k < md.kept.size(); ++k) for (auto &g : ff->gauss_nodes_of(k)) v += (LD)g.weight * g.jacobian_determinant; CHECK("volume", std::fabs(v - md.volume) <= 1e-11L * md.volume * (1 + cs / h), "the quadrature sums to a volume of %.12Lg instead of %.12Lg", v, md.volume);
            if (3 * n <= 120 && r.flip(0.3)) { Eigen::VectorXd ev = ff->eigenvalues(); Eigen::SelfAdjointEigenSolver<LM> es(K, Eigen::EigenvaluesOnly); LD q = 1e300L; if (ev.size() == (int)(3 * n)) { std::vector<LD> a(ev.data(), ev.data() + ev.size()), c(es.eigenvalues().data(), es.eigenvalues().data() + es.eigenvalues().size()); std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end()); q = 0; for (size_t i = 0; i < a.size(); ++i) q = std::max(q, std::fabs(a[i] - c[i])); } CHECK("eigenvalues", q <= 1e-9L * md.kmax * (1 + cs / h), "the eigenvalues are wrong by %.3Lg", q); mon::observe("eigenvalues"); }
#endif
        } else if (op <= 6) {
            if (op == 5) { young = r.logu(1, 1e7); nu = r.uni(0, 0.49); if (r.flip(0.4)) corot = !corot; if (KIND == 0 && r.flip(0.4)) md.one = !md.one; params(); mon::observe("parameters-changed"); } else mon::observe("reinit"); ff->reinit(); md.prepare(young, nu); fresh = true; head = fmt("%s elements=%zu nodes=%zu E=%.4g nu=%.4g corotated=%d one-point=%d rs=%.3g h=%.3Lg", Info<E>::name, md.kept.size(), n, young, nu, (int)corot, (int)md.one, rs, h);
        } else {
            std::vector<V3> y = configuration(r.flip() ? 4 : 0); if (r.flip(0.3)) std::sort(y.begin(), y.end(), [](const V3 &a, const V3 &c) { return a[0] < c[0]; }); mo->write(sc::VecCoordId::position())->setValue(tovec(y)); sofa::core::ExecParams ep; ff->computeBBox(&ep, true); auto bb = ff->f_bbox.getValue(); bool ok = true; for (int d = 0; d < 3; ++d) { double lo = 1e300, hi = -1e300; for (auto &v : y) { lo = std::min(lo, (double)v[d]); hi = std::max(hi, (double)v[d]); } ok = ok && bb.minBBox()[d] == lo && bb.maxBBox()[d] == hi; } CHECK("bounding-box", ok, "the bounding box is not that of the positions"); mon::observe("bounding-box");
        }
    }
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(KIND ? 1500 : 1000, KIND ? 60000 : 40000);
    for (uint64_t t = 0; t < K; ++t) { Rng r; if (mon::begin(Info<E>::name, t, r)) scene(r, t); }
    return mon::finish();
}
