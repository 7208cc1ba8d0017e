// P34: creation of the scene components and Caribou topologies. PART 0: topologies over histories of indices, positions and attached domains;
// PART 1: for which requests (template, backend, topology, content of the scene) the registered components are created, and on what.
#include "sofa.h"
#include <SofaCaribou/Topology/CaribouTopology[Triangle].h>
#include <SofaCaribou/Topology/CaribouTopology[Quad].h>
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
#if PART == 1
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Hexahedron].h>
#include <SofaCaribou/Forcefield/TractionForcefield[Triangle].h>
#include <SofaCaribou/Forcefield/TractionForcefield[Quad].h>
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Hexahedron].h>
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Tetrahedron].h>
#endif
using namespace caribou; using namespace caribou::geometry;
using sofa::core::objectmodel::BaseObject; using sofa::core::objectmodel::BaseObjectDescription; using sofa::simulation::Node;
template <class E> using Topo = SofaCaribou::topology::CaribouTopology<E>;
template <class E> using DT_ = typename Topo<E>::DataTypes;
template <class E> using Idx = sofa::type::vector<sofa::type::fixed_array<sofa::Index, NN<E>>>;
template <class E> static typename DT_<E>::VecCoord positions(Rng &r, size_t n) { typename DT_<E>::VecCoord x(n); for (auto &p : x) for (int d = 0; d < WD<E>; ++d) p[d] = r.uni(-10, 10); return x; }
template <class E> static Idx<E> indices(Rng &r, size_t ne, size_t nn) { Idx<E> x(ne); for (auto &e : x) for (int i = 0; i < NN<E>; ++i) e[i] = (sofa::Index)(r.u64() % nn); return x; }

#if PART == 0
template <class E> static void holds(Topo<E> *t, const Idx<E> &idx, const typename DT_<E>::VecCoord &x, const char *when) {
    CHECK("has-domain", t->domain() != nullptr, "%s: no domain although %zu elements and %zu positions are given", when, idx.size(), x.size()); if (!t->domain()) return;
    CHECK("number-of-elements", (size_t)t->number_of_elements() == idx.size() && (size_t)t->domain()->number_of_elements() == idx.size(), "%s: %zu elements instead of %zu", when, (size_t)t->number_of_elements(), idx.size()); if ((size_t)t->number_of_elements() != idx.size()) return;
    for (size_t e = 0; e < idx.size(); ++e) {
        auto ei = t->domain()->element_indices(e); bool ok = ei.size() == NN<E>; for (int i = 0; ok && i < NN<E>; ++i) ok = (size_t)ei[i] == (size_t)idx[e][i]; CHECK("element-indices", ok, "%s: the node indices of element %zu are not the given ones", when, e);
        E el = t->element(e); bool same = true; for (int i = 0; i < NN<E>; ++i) for (int d = 0; d < WD<E>; ++d) same = same && el.node(i)[d] == x[idx[e][i]][d]; CHECK("element-nodes", same, "%s: the nodes of element %zu are not at the given positions", when, e);
    }
}
template <class E> static void history(uint64_t k) {
    Rng r; if (!mon::begin(std::string("topology ") + Info<E>::name, k, r)) return; using DT = DT_<E>; using VC = typename DT::VecCoord; using MO = sofa::component::container::MechanicalObject<DT>; constexpr int D = WD<E>;
    sptr<Node> root(new Node()); auto *above = root->createChild("above"); auto *node = above->createChild("node"); sofa::shim::log().clear();
    int where = (int)r.irange(0, 3); VC rest = positions<E>(r, (size_t)r.irange(1, 40)); if (where == 1) where = 0; // 0 a state beside the topology, 2 one in the parent only, 3 none
    if (where != 3) { auto *mo = new MO(); mo->setName("mo"); (where == 0 ? node : above)->addObject(mo); mo->setup(rest, r.flip() ? rest : positions<E>(r, rest.size())); }
    sptr<Topo<E>> t(new Topo<E>()); t->setName("topology"); node->addObject(t.get()); if (r.flip(0.2)) t->f_printLog.setValue(true);
    bool ownpos = r.flip(0.5); VC x = rest; if (ownpos) { x = positions<E>(r, (size_t)r.irange(1, 40)); set_data<VC>(t.get(), "position", x); } const bool placed = ownpos || where == 0;
    CHECK("empty-before-init", t->number_of_elements() == 0 && t->domain() == nullptr, "a new topology is not empty");
    mon::observe(ownpos ? "positions:given" : where == 0 ? "positions:of-the-state" : where == 2 ? "positions:state-in-parent-only" : "positions:none");
    if (r.flip(0.1)) { t->init(); CHECK("nothing-given", t->number_of_elements() == 0 && t->domain() == nullptr, "elements although neither indices nor a domain were given"); mon::observe("init:nothing-given"); }
    std::vector<std::unique_ptr<topology::Mesh<D>>> meshes; uint64_t h = mon::mix(k, where); int steps = (int)r.irange(1, 4); bool filled = false; // filled: an earlier step gave it elements
    for (int s = 0; s < steps; ++s) {
        int op = (int)r.irange(0, 4); h = mon::mix(h, op);
        if (op == 0) {                  // a domain made elsewhere
            std::vector<typename topology::Mesh<D>::WorldCoordinates> p((size_t)r.irange(1, 30)); VC px(p.size()); for (size_t i = 0; i < p.size(); ++i) for (int d = 0; d < D; ++d) { px[i][d] = r.uni(-5, 5); p[i][d] = px[i][d]; }
            meshes.emplace_back(new topology::Mesh<D>(p)); Idx<E> id = indices<E>(r, (size_t)r.irange(1, 12), p.size()); auto *dom = meshes.back()->template add_domain<E, typename Topo<E>::PointID>(id[0].data(), id.size(), (size_t)NN<E>);
            t->attachDomain(dom); CHECK("attached-domain", t->domain() == dom, "the attached domain is not the one given"); holds<E>(t.get(), id, px, "after attachDomain");
            auto &data = get_data<Idx<E>>(t.get(), "indices"); CHECK("attached-indices", data == id, "the indices attribute is not the indices of the attached domain"); mon::observe(filled ? "attach:over-another" : "attach:first"); filled = true;
            if (r.flip(0.4)) {          // initialised again: from these indices when they fit the positions of the topology, else the attached domain is kept
                bool fits = placed && !x.empty(); for (auto &e : id) for (int i = 0; i < NN<E>; ++i) fits = fits && e[i] < x.size();
                t->init(); if (fits) { holds<E>(t.get(), id, x, "init after attachDomain"); mon::observe("attach:then-init"); } else mon::observe("attach:then-refused-init"); CHECK("indices-kept", get_data<Idx<E>>(t.get(), "indices") == id, "init changed the given indices");
            }
        } else {
            Idx<E> id; const char *why = nullptr; if (op == 1 && r.flip(0.6)) { why = "no-indices"; } else id = indices<E>(r, (size_t)r.irange(1, 15), x.size());
            if (op == 2 && r.flip(0.7)) { why = "index-out-of-range"; for (long b = r.irange(1, 3); b > 0; --b) id[r.u64() % id.size()][r.u64() % NN<E>] = (sofa::Index)(x.size() + (r.flip() ? 0 : r.irange(0, 9))); }
            if (!placed && !why) why = "no-positions";
            if (r.flip(0.3) && ownpos) { VC n = positions<E>(r, x.size()); x = n; set_data<VC>(t.get(), "position", x); mon::observe("positions:changed"); }
            set_data<Idx<E>>(t.get(), "indices", id); sofa::shim::log().clear(); t->init();
            if (why) {
                CHECK("refusal-reported", sofa::shim::count(1) + sofa::shim::count(2) > 0, "nothing reported for %s", why); mon::observe(std::string("refused:") + why); if (!filled) CHECK("refused-is-empty", t->number_of_elements() == 0 && t->domain() == nullptr, "%zu elements were made in spite of %s", (size_t)t->number_of_elements(), why);
            } else {
                if (!filled) CHECK("valid-is-not-reported", sofa::shim::count(1) + sofa::shim::count(2) == 0, "valid indices and positions are reported: %s", sofa::shim::log().empty() ? "" : sofa::shim::log()[0].text.c_str());
                holds<E>(t.get(), id, x, "after init"); mon::observe(filled ? "init:again" : "init:first"); filled = true; CHECK("indices-kept", get_data<Idx<E>>(t.get(), "indices") == id, "init changed the given indices");
            }
        }
        mon::distinct(h = mon::mix(h, mon::hash_d((double)t->number_of_elements())));
    }
    node->removeObject(t.get()); t = sptr<Topo<E>>();
    mon::observe("histories");
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(250, 20000);
    for (uint64_t t = 0; t < K; ++t) {
        history<Triangle<_2D, Linear>>(t); history<Triangle<_2D, Quadratic>>(t); history<Triangle<_3D, Linear>>(t); history<Triangle<_3D, Quadratic>>(t); history<Quad<_2D, Linear>>(t); history<Quad<_2D, Quadratic>>(t); history<Quad<_3D, Linear>>(t); history<Quad<_3D, Quadratic>>(t);
        history<Tetrahedron<Linear>>(t); history<Tetrahedron<Quadratic>>(t); history<Hexahedron<Linear>>(t); history<Hexahedron<Quadratic>>(t);
    }
    return mon::finish();
}
#else
using namespace SofaCaribou; namespace ct = sofa::component::topology; using V2T = sofa::defaulttype::Vec2Types; using V3T = sofa::defaulttype::Vec3Types;
enum Shape { KTRI, KQUAD, KTET, KHEX }; static const char *KN[] = {"triangle", "quad", "tetrahedron", "hexahedron"};
struct Elem { const char *name; int dim; Shape kind; bool linear; std::function<BaseObject *(Rng &, size_t &)> topo; std::function<bool(BaseObject *)> is; };
template <class E> static Elem elem(const char *n, Shape k, bool lin) { return {n, WD<E>, k, lin, [](Rng &r, size_t &ne) -> BaseObject * { auto *t = new Topo<E>(); ne = r.flip(0.1) ? 0 : (size_t)r.irange(1, 6); if (ne) { set_data<Idx<E>>(t, "indices", indices<E>(r, ne, 30)); set_data<typename DT_<E>::VecCoord>(t, "position", positions<E>(r, 30)); } t->init(); return t; }, [](BaseObject *o) { return dynamic_cast<Topo<E> *>(o) != nullptr; }}; }
static const std::vector<Elem> &ELEMS() {
    static std::vector<Elem> e; if (!e.empty()) return e;
    e.push_back(elem<Triangle<_2D, Linear>>("Triangle_2D", KTRI, true)); e.push_back(elem<Triangle<_2D, Quadratic>>("Triangle6_2D", KTRI, false)); e.push_back(elem<Triangle<_3D, Linear>>("Triangle", KTRI, true)); e.push_back(elem<Triangle<_3D, Quadratic>>("Triangle6", KTRI, false));
    e.push_back(elem<Quad<_2D, Linear>>("Quad_2D", KQUAD, true)); e.push_back(elem<Quad<_2D, Quadratic>>("Quad8_2D", KQUAD, false)); e.push_back(elem<Quad<_3D, Linear>>("Quad", KQUAD, true)); e.push_back(elem<Quad<_3D, Quadratic>>("Quad8", KQUAD, false));
    e.push_back(elem<Tetrahedron<Linear>>("Tetrahedron", KTET, true)); e.push_back(elem<Tetrahedron<Quadratic>>("Tetrahedron10", KTET, false)); e.push_back(elem<Hexahedron<Linear>>("Hexahedron", KHEX, true)); e.push_back(elem<Hexahedron<Quadratic>>("Hexahedron20", KHEX, false));
    return e;
}
// what the registered types must be: (class, template) -> is an instance of it, number of its elements
struct Made { std::function<bool(BaseObject *)> is; std::function<long(BaseObject *)> elements; };
template <class T> static Made made() { return {[](BaseObject *o) { return dynamic_cast<T *>(o) != nullptr; }, [](BaseObject *o) -> long { if constexpr (std::is_base_of_v<sofa::core::behavior::BaseForceField, T>) return (long)dynamic_cast<T *>(o)->number_of_elements(); else return -1; }}; }
static const std::map<std::pair<std::string, std::string>, Made> &WANT() {
    static std::map<std::pair<std::string, std::string>, Made> w{
        {{"HyperelasticForcefield", "Tetrahedron"}, made<forcefield::HyperelasticForcefield<Tetrahedron<Linear>>>()}, {{"HyperelasticForcefield", "Tetrahedron10"}, made<forcefield::HyperelasticForcefield<Tetrahedron<Quadratic>>>()},
        {{"HyperelasticForcefield", "Hexahedron"}, made<forcefield::HyperelasticForcefield<Hexahedron<Linear>>>()}, {{"HyperelasticForcefield", "Hexahedron20"}, made<forcefield::HyperelasticForcefield<Hexahedron<Quadratic>>>()},
        {{"TractionForcefield", "Triangle_2D"}, made<forcefield::TractionForcefield<Triangle<_2D, Linear>>>()}, {{"TractionForcefield", "Triangle6_2D"}, made<forcefield::TractionForcefield<Triangle<_2D, Quadratic>>>()}, {{"TractionForcefield", "Triangle"}, made<forcefield::TractionForcefield<Triangle<_3D, Linear>>>()}, {{"TractionForcefield", "Triangle6"}, made<forcefield::TractionForcefield<Triangle<_3D, Quadratic>>>()},
        {{"TractionForcefield", "Quad_2D"}, made<forcefield::TractionForcefield<Quad<_2D, Linear>>>()}, {{"TractionForcefield", "Quad8_2D"}, made<forcefield::TractionForcefield<Quad<_2D, Quadratic>>>()}, {{"TractionForcefield", "Quad"}, made<forcefield::TractionForcefield<Quad<_3D, Linear>>>()}, {{"TractionForcefield", "Quad8"}, made<forcefield::TractionForcefield<Quad<_3D, Quadratic>>>()},
        {{"CaribouBarycentricMapping", "Tetrahedron"}, made<mapping::CaribouBarycentricMapping<Tetrahedron<Linear>, V3T>>()}, {{"CaribouBarycentricMapping", "Tetrahedron10"}, made<mapping::CaribouBarycentricMapping<Tetrahedron<Quadratic>, V3T>>()},
        {{"CaribouBarycentricMapping", "Hexahedron"}, made<mapping::CaribouBarycentricMapping<Hexahedron<Linear>, V3T>>()}, {{"CaribouBarycentricMapping", "Hexahedron20"}, made<mapping::CaribouBarycentricMapping<Hexahedron<Quadratic>, V3T>>()}};
    if (w.size() < 20) for (auto &e : ELEMS()) w[{"CaribouTopology", e.name}] = Made{e.is, [](BaseObject *) { return -1l; }};
    return w;
}
using Entry = sofa::core::FactoryEntry; static std::vector<Entry> &ENTRIES() { return sofa::core::ObjectFactory::entries(); }
static const Elem *find_elem(const std::string &n) { for (auto &e : ELEMS()) if (n == e.name) return &e; return nullptr; }

static void registry() {
    Rng r; if (!mon::begin("registry", 0, r)) return;
    std::map<std::pair<std::string, std::string>, int> seen; for (auto &e : ENTRIES()) seen[{e.className, e.templateName}]++;
    for (auto &w : WANT()) CHECK("registered", seen[w.first] == 1, "%s<%s> is registered %d times", w.first.first.c_str(), w.first.second.c_str(), seen[w.first]);
    for (auto &e : ENTRIES()) { auto w = WANT().find({e.className, e.templateName}); if (w == WANT().end()) continue; auto o = e.make(); CHECK("registered-type", w->second.is(o.get()), "%s<%s> makes a %s", e.className.c_str(), e.templateName.c_str(), e.typeName.c_str()); CHECK("template-name", o->getTemplateName() == e.templateName, "a %s<%s> calls itself '%s'", e.className.c_str(), e.templateName.c_str(), o->getTemplateName().c_str()); mon::distinct(mon::hash_str(e.typeName.c_str())); }
    mon::observe("registry-verified");
}
struct Obj { BaseObject *o; int elem = -1; int container = -1; size_t count[4] = {0, 0, 0, 0}; Node *node; }; // a Caribou topology of ELEMS()[elem], a SOFA container of a kind, or something else
// a container of tetrahedra (hexahedra) is, in SOFA, also one of triangles (quads)
static bool compatible(const Obj &o, const Elem &e) { if (o.elem >= 0) return !strcmp(ELEMS()[o.elem].name, e.name); if (o.container < 0 || !e.linear) return false; return o.container == e.kind || (o.container == KTET && e.kind == KTRI) || (o.container == KHEX && e.kind == KQUAD); }
template <class S> static void fill(Rng &r, ct::MeshTopology *m, const char *name, size_t &n) { S s; n = (size_t)r.irange(0, 5); s.resize(n); for (auto &e : s) for (size_t i = 0; i < e.size(); ++i) e[i] = (sofa::Index)(r.u64() % 30); set_data<S>(m, name, s); }

static void scene(uint64_t t) {
    Rng r; if (!mon::begin("scene", t, r)) return; sofa::shim::log().clear();
    sptr<Node> root(new Node()); root->setName("root"); Node *a = root->createChild("a"), *b = a->createChild("b"), *c = root->createChild("c"); Node *nodes[] = {root.get(), a, b, c}; std::vector<Obj> objs; int id = 0;
    int deep = (int)r.irange(0, 2); Node *ctx = nodes[deep]; int state = (int)r.irange(0, 4) - 1; if (state < 2) state = state < 0 ? 0 : 3; // 0 none, 2, 3 dimensions
    if (r.flip(0.3)) state = 2;
    if (state == 2) { auto *m = new sofa::component::container::MechanicalObject<V2T>(); m->setName("mo"); ctx->addObject(m); auto x = positions<Quad<_2D>>(r, 30); m->setup(x, x); } else if (state == 3) { auto *m = new sofa::component::container::MechanicalObject<V3T>(); m->setName("mo"); ctx->addObject(m); auto x = positions<Quad<_3D>>(r, 30); m->setup(x, x); }
    mon::observe(fmt("state:%d", state));
    auto add = [&](Node *n) {
        Obj o; o.node = n; int what = (int)r.irange(0, 9);
        if (what < 5) { o.elem = (int)(r.u64() % ELEMS().size()); size_t ne = 0; o.o = ELEMS()[o.elem].topo(r, ne); o.count[0] = ne; }
        else if (what < 9) {
            o.container = (int)r.irange(0, 4); ct::MeshTopology *m; if (o.container == KTRI) m = new ct::TriangleSetTopologyContainer(); else if (o.container == KQUAD) m = new ct::QuadSetTopologyContainer(); else if (o.container == KTET) m = new ct::TetrahedronSetTopologyContainer(); else if (o.container == KHEX) m = new ct::HexahedronSetTopologyContainer(); else { m = new ct::EdgeSetTopologyContainer(); o.container = -1; }
            fill<sofa::core::topology::BaseMeshTopology::SeqTriangles>(r, m, "triangles", o.count[KTRI]); fill<sofa::core::topology::BaseMeshTopology::SeqQuads>(r, m, "quads", o.count[KQUAD]); fill<sofa::core::topology::BaseMeshTopology::SeqTetrahedra>(r, m, "tetrahedra", o.count[KTET]); fill<sofa::core::topology::BaseMeshTopology::SeqHexahedra>(r, m, "hexahedra", o.count[KHEX]); o.o = m;
        } else o.o = new sofa::component::container::MechanicalObject<sofa::defaulttype::Vec1Types>(), o.node = c, n = c;
        o.o->setName(fmt("o%d", id++)); n->addObject(o.o); objs.push_back(o);
    };
    int ml = (int)r.irange(0, 2); for (int i = 0; i < ml; ++i) add(ctx); if (ctx->getNbParents() && r.flip(0.5)) add(ctx->getFirstParent()); if (r.flip(0.6)) add(c);
    // the request
    std::string tmpl; int tk = (int)r.irange(0, 5); const Elem *asked = nullptr;
    if (tk < 3) mon::observe("template:none"); else { asked = &ELEMS()[r.u64() % ELEMS().size()]; tmpl = asked->name; if (tk == 4) { for (auto &ch : tmpl) if (r.flip()) ch = (char)(r.flip() ? toupper((unsigned char)ch) : tolower((unsigned char)ch)); mon::observe("template:other-case"); } else if (tk == 5 && r.flip(0.5)) { tmpl += r.flip() ? "_" : "3"; if (!find_elem(tmpl)) asked = nullptr; mon::observe("template:unknown"); } else mon::observe("template:exact"); }
    const Obj *linked = nullptr; std::string path; int pk = (int)r.irange(0, 4);
    if (pk < 2 || objs.empty()) mon::observe("path:none"); else if (pk == 4 && r.flip(0.4)) { path = r.flip() ? "@/nowhere/o0" : "@/o99"; mon::observe("path:broken"); } else { linked = &objs[r.u64() % objs.size()]; path = "@" + linked->o->getPathName(); mon::observe(linked->node == ctx ? "path:local" : "path:elsewhere"); }
    mon::describe("node %s, state %d, template '%s', topology '%s', %zu objects", ctx->getPathName().c_str(), state, tmpl.c_str(), path.c_str(), objs.size());
    uint64_t h = mon::mix(mon::hash_str(tmpl.c_str()), mon::mix(mon::hash_str(path.c_str()), state)); for (auto &o : objs) h = mon::mix(h, mon::mix(o.elem + 1, mon::mix(o.container + 1, o.node == ctx ? 1 : o.node == c ? 2 : 3))); mon::distinct(h);
    for (auto &e : ENTRIES()) {
        const Elem *el = find_elem(e.templateName); bool ff = e.className == "HyperelasticForcefield" || e.className == "TractionForcefield", mp = e.className == "CaribouBarycentricMapping"; if (!el || (!ff && !mp)) continue;
        BaseObjectDescription d; if (!tmpl.empty()) d.setAttribute("template", tmpl); if (!path.empty()) d.setAttribute("topology", path); const std::string who = e.className + "<" + e.templateName + ">";
        bool want, either = false, deduced = false;
        if (!tmpl.empty()) want = asked && !strcmp(asked->name, el->name);
        else if (!path.empty()) want = linked && (ff ? compatible(*linked, *el) : linked->elem >= 0 && compatible(*linked, *el));
        else if (ff) { want = false; for (auto &o : objs) want = want || (o.node == ctx && compatible(o, *el)); deduced = want; }
        else { want = false; Node *p = ctx->getNbParents() ? ctx->getFirstParent() : nullptr; for (auto &o : objs) if (o.elem >= 0 && compatible(o, *el)) { if (o.node == ctx || o.node == p) want = true; else if (o.node != c) either = true; } }
        if (ff) want = want && state == el->dim;
        bool got = e.can(ctx, &d); if (either && !want) continue;
        CHECK(ff ? "force-field-created-for" : "mapping-created-for", got == want, "%s is%s created although it should%s be", who.c_str(), got ? "" : " not", want ? "" : " not");
        if (!got) { CHECK("refusal-explained", !d.errors.empty(), "%s is refused without a word", who.c_str()); CHECK("refusal-leaves-the-request", std::string(d.getAttribute("topology", "")) == path && std::string(d.getAttribute("template", "")) == tmpl, "refusing %s changed the request", who.c_str()); mon::observe(ff ? "force-field:refused" : "mapping:refused"); continue; }
        if (!want) continue; mon::observe(std::string(ff ? "force-field:" : "mapping:") + (!tmpl.empty() ? "by-template" : !path.empty() ? "by-path" : "deduced"));
        if (!ff) continue;
        std::string p2 = d.getAttribute("topology", ""); const Obj *used = linked;
        if (deduced) { used = nullptr; for (auto &o : objs) if (o.node == ctx && "@" + o.o->getPathName() == p2) used = &o; CHECK("deduced-topology", used && compatible(*used, *el), "%s is to use '%s', which is not a topology of its elements in its node", who.c_str(), p2.c_str()); if (!used) continue; }
        else CHECK("given-topology-kept", p2 == path, "the topology '%s' of the request became '%s'", path.c_str(), p2.c_str());
        // made on that topology
        sptr<BaseObject> o = e.make(); o->setName("made"); ctx->addObject(o.get()); if (used) { auto *l = o->findLink("topology"); if (l) l->set_object(used->o); } if (auto *l = o->findLink("mstate")) l->set_object(ctx->getMechanicalState());
        if (o->findLink("topology")) {
            o->init(); const Made &m = WANT().at({e.className, e.templateName}); long n = m.elements(o.get()); std::vector<const Obj *> use; if (used) use.push_back(used); else for (auto &q : objs) if (q.node == ctx && compatible(q, *el)) use.push_back(&q);
            if (use.size() == 1) {      // with several compatible topologies and none given, init asks for a choice
                long exp = use[0]->elem >= 0 ? (compatible(*use[0], *el) ? (long)use[0]->count[0] : 0) : el->linear && dynamic_cast<ct::MeshTopology *>(use[0]->o) ? (long)use[0]->count[el->kind] : 0;
                CHECK("elements-of-the-topology", n == exp, "%s works on %ld elements, its topology has %ld (%s)", who.c_str(), n, exp, KN[el->kind]); mon::observe(use[0]->elem >= 0 ? (compatible(*use[0], *el) ? "made:on-caribou-topology" : "made:on-wrong-topology") : "made:on-container");
            } else { CHECK("no-topology-no-elements", n == 0, "%s works on %ld elements although no single topology is known", who.c_str(), n); mon::observe(use.empty() ? "made:without-topology" : "made:several-topologies"); }
        }
        ctx->removeObject(o.get());
    }
    // a force field put by hand in a node without mechanical state says so, and does nothing
    if (state == 0 && r.flip(0.4)) for (auto &e : ENTRIES()) {
        const Elem *el = find_elem(e.templateName); if (!el || (e.className != "HyperelasticForcefield" && e.className != "TractionForcefield") || !r.flip(0.3)) continue;
        sptr<BaseObject> o = e.make(); o->setName("stateless"); ctx->addObject(o.get()); auto *l = o->findLink("topology"); for (auto &q : objs) if (l && compatible(q, *el) && r.flip()) { l->set_object(q.o); break; }
        bool constant = r.flip(); if (e.className[0] == 'T') set_data<double>(o.get(), "slope", constant ? 0. : 0.3); sofa::shim::log().clear(); o->init(); CHECK("no-state-is-reported", sofa::shim::count(1) + sofa::shim::count(2) > 0, "%s<%s> is initialised without a mechanical state and says nothing", e.className.c_str(), e.templateName.c_str());
        auto *bf = dynamic_cast<sofa::core::behavior::BaseForceField *>(o.get()); sofa::core::MechanicalParams mp; sofa::core::ExecParams ep; sofa::core::visual::VisualParams vp; for (int k = 0; k < 5; ++k) { int op = (int)r.irange(0, 4); if (op == 0) o->reset(); else if (op == 1) o->computeBBox(&ep, true); else if (op == 2) o->draw(&vp); else if (op == 3) { sofa::simulation::AnimateBeginEvent ev; o->handleEvent(&ev); } else if (bf) bf->addForce(&mp, sc::VecDerivId::force()); }
        CHECK("no-state-nothing-drawn", vp.tool.triangles.empty() && vp.tool.depth == 0, "%s<%s> draws elements without a mechanical state", e.className.c_str(), e.templateName.c_str()); mon::observe("made:without-state"); ctx->removeObject(o.get());
    }
    // one request tried on every element type, as the factory does
    if (tmpl.empty()) for (const char *cls : {"HyperelasticForcefield", "TractionForcefield"}) {
        BaseObjectDescription d; if (!path.empty()) d.setAttribute("topology", path); const Elem *first = nullptr; for (auto &e : ENTRIES()) if (e.className == cls && e.can(ctx, &d) && !first) first = find_elem(e.templateName);
        bool any = false; for (auto &e : ENTRIES()) if (e.className == cls) { const Elem *el = find_elem(e.templateName); if (!el || el->dim != state) continue; if (!path.empty()) any = any || (linked && compatible(*linked, *el)); else for (auto &o : objs) any = any || (o.node == ctx && compatible(o, *el)); }
        CHECK("some-type-serves-the-request", (first != nullptr) == any, "%s: %s", cls, any ? "no element type is created although a topology fits" : "an element type is created although no topology fits"); mon::observe(any ? "request:served" : "request:refused");
    }
    for (auto &e : ENTRIES()) if (e.className == "SaintVenantKirchhoffMaterial" || e.className == "NeoHookeanMaterial") {
        BaseObjectDescription d; int k = (int)r.irange(0, 2); if (k == 1) d.setAttribute("template", V3T::Name()); if (k == 2) d.setAttribute("template", r.flip() ? V2T::Name() : "nothing"); bool want = k == 1 || (k == 0 && state == 3), got = e.can(ctx, &d);
        CHECK("material-created-for", got == want, "%s is%s created (state %d, template kind %d)", e.className.c_str(), got ? "" : " not", state, k); if (!got) CHECK("refusal-explained", !d.errors.empty(), "%s is refused without a word", e.className.c_str()); mon::observe(fmt("material:%d:%s", k, got ? "made" : "refused"));
    }
    for (auto &e : ENTRIES()) if (e.className == "LLTSolver" || e.className == "LDLTSolver" || e.className == "LUSolver") {
        BaseObjectDescription d; int k = (int)r.irange(0, 2); std::string be = k == 1 ? "Eigen" : k == 2 ? (r.flip() ? "Pardiso" : "unheard-of") : ""; if (k) d.setAttribute("backend", be); bool got = e.can(ctx, &d);
        CHECK("solver-created-for", got == (k < 2), "%s of the backend 'Eigen' is%s created for the backend '%s'", e.className.c_str(), got ? "" : " not", be.c_str()); if (got) CHECK("solver-backend", std::string(d.getAttribute("backend", "")) == "Eigen", "the backend became '%s'", d.getAttribute("backend", "")); else CHECK("refusal-explained", !d.errors.empty(), "%s is refused without a word", e.className.c_str()); mon::observe(fmt("solver:%d", k));
    }
}
int main(int c, char **v) {
    mon::init(c, v); uint64_t K = M().n(6000, 200000); registry();
    for (uint64_t t = 0; t < K; ++t) scene(t);
    return mon::finish();
}
#endif
