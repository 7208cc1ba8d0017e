// P35: hosts SofaCaribou scenes for the Python monitor (pysofa.py), which reads them through the SofaCaribou bindings and, here, directly.
// The module lives in the same library as the bindings, as the components do in the plugin.
#include "scene.h"
#include "../shim/sofapython3.h"
#include <pybind11/eigen.h>
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Hexahedron].h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Forcefield/HexahedronElasticForce.h>
#include <SofaCaribou/Topology/CaribouTopology[Triangle].h>
#include <SofaCaribou/Topology/CaribouTopology[Quad].h>
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
#include <SofaCaribou/Topology/FictitiousGrid.h>
#include <SofaCaribou/Topology/CircleIsoSurface.h>
#include <SofaCaribou/Topology/SphereIsoSurface.h>
#include <SofaCaribou/Solver/ConjugateGradientSolver.h>
#include <SofaCaribou/Ode/StaticODESolver.h>
#include <SofaCaribou/Ode/LegacyStaticODESolver.h>
namespace py = pybind11; using namespace caribou; using namespace caribou::geometry; using Node = sofa::simulation::Node; using BO = sofa::core::objectmodel::BaseObject; using sofapython3::PythonFactory;
using Mat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>; using IMat = Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>; using Vec = Eigen::VectorXd;
template <class D> using MO = sofa::component::container::MechanicalObject<D>; using V3T = sofa::defaulttype::Vec3Types; using V2T = sofa::defaulttype::Vec2Types;
template <class D> static typename D::VecCoord tov(const Mat &m) { typename D::VecCoord v((size_t)m.rows()); for (int i = 0; i < m.rows(); ++i) for (int d = 0; d < (int)D::spatial_dimensions; ++d) v[i][d] = m(i, d); return v; }
struct Scene { sofa::core::sptr<Node> root; sofa::core::sptr<BO> object; std::function<py::object()> get; std::function<void(const Mat &)> positions; std::function<py::dict()> truth; std::function<py::object(int)> item; std::function<void(double)> step; std::string name; int refs() const { return object->refCount(); } };
template <class T> static void expose(Scene &s, T *o) { s.object = sofa::core::sptr<BO>(o); s.get = [o] { return PythonFactory::toPython(o); }; s.name = T::GetClass()->className; if (!o->getTemplateName().empty()) s.name += "<" + o->getTemplateName() + ">"; }
static Vec vec(const std::vector<FLOATING_POINT_TYPE> &v) { return Eigen::Map<const Vec>(v.data(), v.size()); }
static Mat stiffness_of(sofa::core::behavior::ForceField<V3T> *ff, int n) { DenseRecorder rec(3 * n, 3 * n); unsigned off = 0; ff->addKToMatrix(&rec, -1, off); return Eigen::Map<Mat>(rec.a.data(), 3 * n, 3 * n); }

template <class E> static Scene hyper(const Mat &X0, const IMat &C, const Mat &x, int law, double young, double nu) {
    using FF = SofaCaribou::forcefield::HyperelasticForcefield<E>; using To = SofaCaribou::topology::CaribouTopology<E>; Scene s; s.root = sofa::core::sptr<Node>(new Node()); auto *node = s.root->createChild("mechanics"); auto *mo = new MO<V3T>(); mo->setName("mo"); node->addObject(mo); mo->setup(tov<V3T>(X0), tov<V3T>(x));
    sofa::type::vector<sofa::type::fixed_array<sofa::Index, NN<E>>> idx((size_t)C.rows()); for (int i = 0; i < C.rows(); ++i) for (int j = 0; j < NN<E>; ++j) idx[i][j] = (sofa::Index)C(i, j); auto *to = new To(); to->setName("topology"); node->addObject(to); set_data(to, "indices", idx); to->init();
    BO *mat; if (law == 0) mat = new SofaCaribou::material::NeoHookeanMaterial<V3T>(); else mat = new SofaCaribou::material::SaintVenantKirchhoffMaterial<V3T>(); mat->setName("material"); node->addObject(mat); set_data<double>(mat, "young_modulus", young); set_data<double>(mat, "poisson_ratio", nu);
    auto *ff = new FF(); ff->setName("ff"); node->addObject(ff); ff->init(); expose(s, ff); const int n = (int)X0.rows();
    s.positions = [=](const Mat &y) { // the components' own way: a force evaluation at these positions, then an assembly
        mo->write(sofa::core::VecCoordId::position())->setValue(tov<V3T>(y)); sofa::core::MechanicalParams mp; mp.setX(sofa::core::ConstVecCoordId::position()); SData<typename V3T::VecDeriv> f, v; f.setValue(typename V3T::VecDeriv((size_t)n)); v.setValue(typename V3T::VecDeriv((size_t)n)); ff->addForce(&mp, f, *mo->read(sofa::core::ConstVecCoordId::position()), v); };
    s.truth = [=] { py::dict d; d["K"] = stiffness_of(ff, n); return d; }; s.step = [=](double) { sofa::core::MechanicalParams mp; (void)mp; Eigen::SparseMatrix<double> k = ff->K(); (void)k; }; return s;
}
static Scene elastic(const Mat &X0, const IMat &C, const Mat &x, double young, double nu, bool corot, bool one) {
    using FF = SofaCaribou::forcefield::HexahedronElasticForce; Scene s; s.root = sofa::core::sptr<Node>(new Node()); auto *node = s.root->createChild("mechanics"); auto *mo = new MO<V3T>(); mo->setName("mo"); node->addObject(mo); mo->setup(tov<V3T>(X0), tov<V3T>(x));
    sofa::type::vector<sofa::type::fixed_array<sofa::Index, 8>> idx((size_t)C.rows()); for (int i = 0; i < C.rows(); ++i) for (int j = 0; j < 8; ++j) idx[i][j] = (sofa::Index)C(i, j); auto *to = new sofa::component::topology::MeshTopology(); to->setName("topology"); node->addObject(to); to->d_hexa.setValue(idx);
    auto *ff = new FF(); ff->setName("ff"); node->addObject(ff); set_data<double>(ff, "youngModulus", young); set_data<double>(ff, "poissonRatio", nu); set_data<bool>(ff, "corotated", corot); ff->set_integration_method(one ? FF::IntegrationMethod::OnePointGauss : FF::IntegrationMethod::Regular); ff->init(); expose(s, ff);
    s.positions = [=](const Mat &y) { mo->write(sofa::core::VecCoordId::position())->setValue(tov<V3T>(y)); sofa::core::MechanicalParams mp; SData<V3T::VecDeriv> f, v; f.setValue(V3T::VecDeriv((size_t)y.rows())); v.setValue(V3T::VecDeriv((size_t)y.rows())); ff->addForce(&mp, f, *mo->read(sofa::core::ConstVecCoordId::position()), v); };
    s.truth = [=] { py::dict d; d["K"] = Mat(ff->K()); d["cond"] = ff->cond(); d["eigenvalues"] = Vec(ff->eigenvalues()); return d; };
    s.item = [=](int e) -> py::object { py::list o; for (auto &g : ff->gauss_nodes_of((size_t)e)) { py::dict d; d["weight"] = (double)g.weight; d["jacobian_determinant"] = (double)g.jacobian_determinant; d["dN_dx"] = Mat(g.dN_dx); d["F"] = Mat(g.F); o.append(d); } py::dict d; d["gauss"] = o; d["stiffness"] = Mat(ff->stiffness_matrix_of((size_t)e)); return d; };
    return s;
}
static Scene solver_scene(const Mat &Mm, const Mat &Bm, const Mat &Km, bool assembled) {
    using S = SofaCaribou::solver::ConjugateGradientSolver<Eigen::SparseMatrix<FLOATING_POINT_TYPE, Eigen::RowMajor, int>>; Scene s; s.root = sofa::core::sptr<Node>(new Node()); auto *node = s.root->createChild("mechanics"); int n = (int)Mm.rows();
    auto *mo = new MO<V3T>(); mo->setName("mo"); node->addObject(mo); V3T::VecCoord x((size_t)(n / 3)); mo->setup(x, x); auto *ff = new TestFF<V3T>(); ff->setName("ff"); node->addObject(ff); ff->init(); ff->size(n); ff->M = Mm.cast<LD>(); ff->B = Bm.cast<LD>(); ff->K = Km.cast<LD>();
    sofa::core::sptr<S> sol(sofa::core::objectmodel::New<S>().get()); node->addObject(sol.get()); sol->init(); expose(s, sol.get()); S *p = sol.get(); (void)assembled; s.truth = [=] { py::dict d; if (p->A()) { int m = (int)p->A()->rowSize(); Mat a(m, m); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) a(i, j) = p->A()->element(i, j); d["A"] = a; } else d["A"] = py::none(); return d; };
    return s;
}
template <class Ode> static Scene ode(const Mat &Km, const Vec &c, const Vec &P, const Mat &x0, int its, double corr, double rel) {
    using S = SofaCaribou::solver::ConjugateGradientSolver<Eigen::SparseMatrix<FLOATING_POINT_TYPE, Eigen::RowMajor, int>>; Scene s; s.root = sofa::core::sptr<Node>(new Node()); auto *node = s.root->createChild("mechanics"); int n = (int)Km.rows(); sofa::core::sptr<Ode> o(new Ode()); node->addObject(o.get());
    auto *mo = new MO<V3T>(); mo->setName("mo"); node->addObject(mo); mo->setup(tov<V3T>(x0), tov<V3T>(x0)); auto *ff = new TestFF<V3T>(); ff->setName("ff"); node->addObject(ff); ff->init(); ff->size(n); ff->K = Km.cast<LD>(); ff->c = c.cast<LD>(); ff->P = P.cast<LD>();
    sofa::core::sptr<S> sol(sofa::core::objectmodel::New<S>().get()); node->addObject(sol.get()); sol->init(); set_data<unsigned>(sol.get(), "maximum_number_of_iterations", 2000); set_data<double>(sol.get(), "residual_tolerance_threshold", 1e-9); auto *pm = dynamic_cast<SData<sofa::helper::OptionsGroup> *>(sol->findData("preconditioning_method")); pm->beginEdit()->setSelectedItem("Identity"); pm->endEdit();
    set_data<unsigned>(o.get(), "newton_iterations", (unsigned)its); set_data<double>(o.get(), "correction_tolerance_threshold", corr); set_data<double>(o.get(), "residual_tolerance_threshold", rel); o->init(); Ode *p = o.get(); expose(s, p);
    s.positions = [=](const Mat &f) { for (int i = 0; i < n; ++i) ff->P[i] = f.data()[i]; }; s.step = [=](double h) { sofa::core::ExecParams ep; p->solve(&ep, h, sofa::core::VecCoordId::position(), sofa::core::VecDerivId::velocity()); };
    s.truth = [=] { py::dict d; d["squared_residuals"] = vec(p->squared_residuals()); d["squared_initial_residual"] = (double)p->squared_initial_residual(); py::list t; for (auto v : p->iteration_times()) t.append(py::int_(v)); d["iteration_times"] = t;
        if constexpr (std::is_same_v<Ode, SofaCaribou::ode::LegacyStaticODESolver>) { py::list l; for (auto &v : p->iterative_linear_solver_squared_residuals()) l.append(py::cast(vec(v))); d["iterative_linear_solver_squared_residuals"] = l; d["iterative_linear_solver_squared_rhs_norms"] = vec(p->iterative_linear_solver_squared_rhs_norms()); } return d; };
    return s;
}
template <class E> static Scene topo(const Mat &X, const IMat &C) {
    using To = SofaCaribou::topology::CaribouTopology<E>; using DT = typename To::DataTypes; Scene s; s.root = sofa::core::sptr<Node>(new Node()); auto *to = new To(); to->setName("topology"); s.root->addObject(to); expose(s, to);
    if (C.rows()) { sofa::type::vector<sofa::type::fixed_array<sofa::Index, NN<E>>> idx((size_t)C.rows()); for (int i = 0; i < C.rows(); ++i) for (int j = 0; j < NN<E>; ++j) idx[i][j] = (sofa::Index)C(i, j); set_data(to, "indices", idx); set_data(to, "position", tov<DT>(X)); to->init(); }
    return s;
}
template <class D> static Scene grid(const Vec &lo, const Vec &hi, const Eigen::VectorXi &n, int levels, const Vec &center, double radius) {
    using FG = SofaCaribou::topology::FictitiousGrid<D>; constexpr int N = D::spatial_dimensions; Scene s; s.root = sofa::core::sptr<Node>(new Node()); auto *node = s.root.get(); BO *iso; if constexpr (N == 2) iso = new SofaCaribou::topology::CircleIsoSurface(); else iso = new SofaCaribou::topology::SphereIsoSurface(); iso->setName("iso"); node->addObject(iso);
    set_data<double>(iso, "radius", radius); typename D::Coord c; for (int d = 0; d < N; ++d) c[d] = center[d]; set_data(iso, "center", c); sofa::core::sptr<FG> fg(new FG()); fg->setName("grid"); node->addObject(fg.get()); sofa::type::Vec<N, UNSIGNED_INTEGER_TYPE> nn; sofa::type::Vec<N, SReal> a, b; for (int d = 0; d < N; ++d) { nn[d] = (unsigned)n[d] + 1; a[d] = lo[d]; b[d] = hi[d]; }
    set_data(fg.get(), "n", nn); set_data(fg.get(), "min", a); set_data(fg.get(), "max", b); set_data<UNSIGNED_INTEGER_TYPE>(fg.get(), "maximum_number_of_subdivision_levels", levels); fg->init(); FG *p = fg.get(); expose(s, p);
    s.truth = [=] { py::dict d; d["number_of_cells"] = (long)p->number_of_cells(); d["number_of_nodes"] = (long)p->number_of_nodes(); d["number_of_subdivisions"] = (long)p->number_of_subdivisions(); return d; };
    s.item = [=](int dec) -> py::object { py::dict d; for (auto &kv : p->cell_volume_ratio_distribution(dec)) { py::list l; for (auto i : kv.second) l.append(py::int_((long)i)); d[py::float_(kv.first)] = l; } return d; };
    return s;
}
PYBIND11_MODULE(Sofa, m) { py::class_<BO, sofapython3::py_shared_ptr<BO>>(m, "BaseObject"); }
PYBIND11_MODULE(host, m) {
    py::class_<Scene>(m, "Scene").def("get", [](Scene &s) { return s.get(); }).def("positions", [](Scene &s, const Mat &x) { s.positions(x); }).def("truth", [](Scene &s) { return s.truth(); }).def("item", [](Scene &s, int i) { return s.item(i); }).def("step", [](Scene &s, double h) { s.step(h); }).def("refs", &Scene::refs).def("name", [](Scene &s) { return s.name; });
    m.def("hyper", [](int kind, const Mat &X, const IMat &C, const Mat &x, int law, double y, double nu) { return kind == 0 ? hyper<Hexahedron<Linear>>(X, C, x, law, y, nu) : hyper<Tetrahedron<Linear>>(X, C, x, law, y, nu); });
    m.def("elastic", &elastic); m.def("cg", &solver_scene); m.def("static", &ode<SofaCaribou::ode::StaticODESolver>); m.def("legacy", &ode<SofaCaribou::ode::LegacyStaticODESolver>);
    m.def("grid", [](int d, const Vec &a, const Vec &b, const Eigen::VectorXi &n, int l, const Vec &c, double r) { return d == 2 ? grid<V2T>(a, b, n, l, c, r) : grid<V3T>(a, b, n, l, c, r); });
    m.def("topology", [](const std::string &f, int d, int o, const Mat &X, const IMat &C) -> Scene {
        if (f == "Triangle") return d == 2 ? (o == 1 ? topo<Triangle<_2D, Linear>>(X, C) : topo<Triangle<_2D, Quadratic>>(X, C)) : (o == 1 ? topo<Triangle<_3D, Linear>>(X, C) : topo<Triangle<_3D, Quadratic>>(X, C));
        if (f == "Quad") return d == 2 ? (o == 1 ? topo<Quad<_2D, Linear>>(X, C) : topo<Quad<_2D, Quadratic>>(X, C)) : (o == 1 ? topo<Quad<_3D, Linear>>(X, C) : topo<Quad<_3D, Quadratic>>(X, C));
        if (f == "Tetrahedron") return o == 1 ? topo<Tetrahedron<Linear>>(X, C) : topo<Tetrahedron<Quadratic>>(X, C); return o == 1 ? topo<Hexahedron<Linear>>(X, C) : topo<Hexahedron<Quadratic>>(X, C); });
}
