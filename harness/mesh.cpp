// Mesh and domain monitors: PROP=16 registry history, 17 value semantics, 18 layouts.
#include "ref.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <memory>
using namespace caribou; using namespace caribou::topology;
using UI = UNSIGNED_INTEGER_TYPE;

template <class MeshT> static std::vector<typename MeshT::WorldCoordinates> rand_positions(Rng &r, int n) {
    std::vector<typename MeshT::WorldCoordinates> p(n);
    for (auto &x : p) for (int d = 0; d < (int)MeshT::Dimension; ++d) x[d] = (typename MeshT::Real)r.uni(-100, 100);
    return p;
}
template <class Dom> static typename Dom::ElementsIndices rand_indices(Rng &r, int ne, int nn) {
    typename Dom::ElementsIndices m(ne, NN<typename Dom::ElementType>);
    for (Eigen::Index i = 0; i < m.size(); ++i) m.data()[i] = (typename Dom::NodeIndexType)r.irange(0, nn - 1);
    return m;
}

#if PROP == 16
// ------------------------------------------------------------------ P16
template <int D> struct Types;
template <> struct Types<1> { using A = cg::Segment<1, Linear>; using B = cg::Segment<1, Quadratic>; using C = A; };
template <> struct Types<2> { using A = cg::Triangle<2, Linear>; using B = cg::Quad<2, Quadratic>; using C = cg::Segment<2, Linear>; };
template <> struct Types<3> { using A = cg::Tetrahedron<Linear>; using B = cg::Hexahedron<Linear>; using C = cg::Triangle<3, Quadratic>; };

template <int D> static void history(uint64_t t, Rng &r) {
    using MeshT = Mesh<D>; using T = Types<D>;
    const int nn = 30;
    auto pos = rand_positions<MeshT>(r, nn);
    struct Entry { std::string name; const BaseDomain *ptr; long ne, npe; };
    std::unique_ptr<MeshT> mesh[2] = {std::make_unique<MeshT>(pos), std::make_unique<MeshT>(pos)};
    std::vector<Entry> reg[2];
    std::vector<std::unique_ptr<BaseDomain>> orphans;
    std::vector<std::pair<std::string, const BaseDomain *>> removed;  // freed pointers, never dereferenced
    std::vector<std::string> pool = {"a", "b", "", "domain", "Domain", "a ", "domain_1", "tétra", std::string(300, 'x')};
    std::string log;
    auto find = [&](int m, const std::string &n) -> const Entry * { for (auto &e : reg[m]) if (e.name == n) return &e; return nullptr; };
    auto verify = [&](int m) {
        auto &M_ = *mesh[m]; auto &g = reg[m];
        CHECK("count", M_.number_of_domains() == g.size(), "number_of_domains=%llu, %zu expected after %s", (unsigned long long)M_.number_of_domains(), g.size(), log.c_str());
        auto ds = M_.domains();
        bool same = ds.size() == g.size(); for (size_t i = 0; same && i < g.size(); ++i) same = ds[i].first == g[i].name && ds[i].second == g[i].ptr;
        CHECK("listing", same, "domains() differs from the history %s", log.c_str());
        if (!same) return;
        for (size_t i = 0; i < g.size(); ++i) {
            CHECK("by-index", M_.domain((UI)i) == g[i].ptr, "domain(%zu) is not the one added, after %s", i, log.c_str());
            CHECK("by-name", M_.domain(g[i].name) == g[i].ptr, "domain(\"%s\") is not the one added, after %s", g[i].name.c_str(), log.c_str());
            CHECK("attached", g[i].ptr->mesh() == &M_, "domain %zu is not attached to its mesh, after %s", i, log.c_str());
            CHECK("content", (long)g[i].ptr->number_of_elements() == g[i].ne && (long)g[i].ptr->number_of_nodes_per_elements() == g[i].npe, "domain %zu has changed, after %s", i, log.c_str());
        }
        for (auto &n : pool) if (!find(m, n)) CHECK("absent-name", M_.domain(n) == nullptr, "domain(\"%s\") is not null, after %s", n.c_str(), log.c_str());
        CHECK("nodes-untouched", M_.number_of_nodes() == (UI)nn, "nodes changed");
    };
    auto make_orphan = [&]() -> BaseDomain * {
        int k = (int)r.irange(0, 2); int ne = (int)r.irange(0, 4);
        if (k == 0) return new Domain<typename T::A>(nullptr, rand_indices<Domain<typename T::A>>(r, ne, nn));
        if (k == 1) return new Domain<typename T::B, int>(nullptr, rand_indices<Domain<typename T::B, int>>(r, ne, nn));
        return new Domain<typename T::C>(nullptr, rand_indices<Domain<typename T::C>>(r, ne, nn));
    };
    auto push = [&](int m, const std::string &n, const BaseDomain *p) { reg[m].push_back({n, p, (long)p->number_of_elements(), (long)p->number_of_nodes_per_elements()}); };
    int steps = (int)r.irange(5, 40); uint64_t hh = t;
    for (int s = 0; s < steps; ++s) {
        int m = r.flip(0.8) ? 0 : 1; auto &M_ = *mesh[m]; auto &g = reg[m];
        std::string name = r.flip(0.8) || g.empty() ? pool[r.u64() % pool.size()] : g[r.u64() % g.size()].name;
        int op = (int)r.irange(0, 13); bool used = find(m, name) != nullptr;
        hh = mon::mix(hh, mon::mix(op * 2 + used, mon::hash_str(name.c_str())));
        log += fmt(" %d:%d(%.8s%s)", m, op, name.c_str(), used ? ",used" : "");
        if (log.size() > 1500) log = "..." + log.substr(log.size() - 1400);
        mon::describe("%dD steps:%s", D, log.c_str());
        switch (op) {
            case 0: case 1: { // named, by template
                int k = (int)r.irange(0, 3); bool th = false; const BaseDomain *p = nullptr; int ne = (int)r.irange(0, 5);
                try {
                    if (k == 0) p = M_.template add_domain<typename T::A>(name, rand_indices<Domain<typename T::A>>(r, ne, nn));
                    else if (k == 1) p = M_.template add_domain<typename T::B, int>(name, rand_indices<Domain<typename T::B, int>>(r, ne, nn));
                    else if (k == 2) p = M_.template add_domain<typename T::C>(name.c_str(), rand_indices<Domain<typename T::C>>(r, ne, nn));
                    else p = M_.template add_domain<typename T::B>(name, rand_indices<Domain<typename T::B>>(r, ne, nn));
                } catch (const std::exception &) { th = true; }
                mon::observe(used ? "add:duplicate-name" : "add:fresh-name");
                CHECK("duplicate-refused", th == used, "adding \"%s\" %s, after %s", name.c_str(), th ? "was refused although free" : "was accepted although used", log.c_str());
                if (!th) { CHECK("returns-domain", p != nullptr && (long)p->number_of_elements() == ne, "add_domain returned a wrong domain"); if (p) push(m, name, p); }
                break; }
            case 2: { // unnamed
                const BaseDomain *p = r.flip() ? (const BaseDomain *)M_.template add_domain<typename T::A>(rand_indices<Domain<typename T::A>>(r, 2, nn)) : (const BaseDomain *)M_.template add_domain<typename T::A, int>(rand_indices<Domain<typename T::A, int>>(r, 2, nn));
                auto ds = M_.domains(); std::string n = ds.empty() ? "" : ds.back().first; mon::observe("add:unnamed");
                bool uniq = true; for (auto &e : g) uniq = uniq && e.name != n;
                CHECK("unnamed-unique", !ds.empty() && ds.back().second == p && uniq, "unnamed domain stored as \"%s\"", n.c_str());
                push(m, n, p); break; }
            case 3: { // orphan pointer under a name
                BaseDomain *o = make_orphan(); bool th = false; BaseDomain *ret = nullptr;
                BaseMesh &bm = M_;
                try { ret = bm.add_domain(o, name); } catch (const std::exception &) { th = true; }
                mon::observe(used ? "attach:duplicate-name" : "attach:fresh-name");
                CHECK("attach-duplicate-refused", th == used, "attaching under \"%s\" %s, after %s", name.c_str(), th ? "was refused although free" : "was accepted although used", log.c_str());
                if (th) { CHECK("refused-stays-orphan", o->mesh() == nullptr, "a refused domain is attached"); bool in = false; for (auto &d : M_.domains()) in |= d.second == o; CHECK("refused-not-registered", !in, "a refused domain is registered"); if (!in) orphans.emplace_back(o); }
                else { CHECK("attach-returns-same", ret == o, "another pointer returned"); push(m, name, o); }
                break; }
            case 4: { // orphan pointer, unnamed
                BaseDomain *o = make_orphan(); BaseMesh &bm = M_; bm.add_domain(o); mon::observe("attach:unnamed");
                auto ds = M_.domains(); push(m, ds.empty() ? "" : ds.back().first, o); break; }
            case 5: { // domain owned by the other mesh
                auto &og = reg[1-m]; if (og.empty()) break;
                auto *o = const_cast<BaseDomain *>(og[r.u64() % og.size()].ptr); bool th = false;
                try { M_.add_domain(o, name); } catch (const std::exception &) { th = true; }
                mon::observe("attach:foreign"); CHECK("foreign-refused", th, "a domain of another mesh was accepted, after %s", log.c_str());
                bool in = false; for (auto &d : M_.domains()) in |= d.second == o; 
                CHECK("foreign-unchanged", o->mesh() == mesh[1-m].get() && !in, "the refused foreign domain has moved");
                if (in) return; break; }
            case 6: { // again, same name or another one
                if (g.empty()) break; auto &e = g[r.u64() % g.size()]; auto *o = const_cast<BaseDomain *>(e.ptr);
                bool same = r.flip(); std::string n2 = same ? e.name : e.name + "?"; bool th = false; BaseDomain *ret = nullptr;
                try { ret = M_.add_domain(o, n2); } catch (const std::exception &) { th = true; }
                mon::observe(same ? "attach:again-same-name" : "attach:again-other-name");
                CHECK("re-add", same ? (!th && ret == o) : th, "re-adding a domain under %s name: %s", same ? "the same" : "another", th ? "refused" : "accepted"); break; }
            case 7: case 8: { // remove by name
                bool ret = M_.remove_domain(name); mon::observe(used ? "remove:by-name" : "remove:absent-name");
                CHECK("remove-result", ret == used, "remove_domain(\"%s\") returned %d", name.c_str(), (int)ret);
                for (size_t i = 0; i < g.size(); ++i) if (g[i].name == name) { if (i) mon::observe("remove:not-first"); g.erase(g.begin() + i); break; }
                break; }
            case 9: case 10: { // remove by pointer
                bool present = !g.empty() && r.flip(0.7); const BaseDomain *p = nullptr; size_t i = 0;
                std::unique_ptr<BaseDomain> stranger;
                if (present) { i = r.u64() % g.size(); p = g[i].ptr; } else if (r.flip()) { stranger.reset(make_orphan()); p = stranger.get(); } else if (!reg[1-m].empty()) p = reg[1-m][0].ptr;
                bool ret = M_.remove(p); mon::observe(present ? "remove:by-pointer" : "remove:absent-pointer");
                CHECK("remove-result", ret == present, "remove(pointer) returned %d for a %s domain", (int)ret, present ? "present" : "absent");
                if (present) { if (i) mon::observe("remove:not-first"); g.erase(g.begin() + i); } break; }
            case 11: { const auto *p = M_.domain(name); auto *e = find(m, name); CHECK("lookup", p == (e ? e->ptr : nullptr), "domain(\"%s\") wrong after %s", name.c_str(), log.c_str()); break; }
            case 12: { // attach an orphan left over by a refusal
                if (orphans.empty()) break; BaseDomain *o = orphans.back().release(); orphans.pop_back(); bool th = false;
                try { M_.add_domain(o, name); } catch (const std::exception &) { th = true; }
                CHECK("attach-duplicate-refused", th == used, "attaching under \"%s\" %s", name.c_str(), th ? "was refused" : "was accepted"); mon::observe("attach:formerly-refused");
                if (th) orphans.emplace_back(o); else push(m, name, o); break; }
            default: if (r.flip(0.2)) { mesh[m] = std::make_unique<MeshT>(pos); g.clear(); mon::observe("mesh-destroyed"); }
        }
        verify(m);
        if (s % 5 == 4) verify(1-m);
    }
    mon::distinct(hh); mon::sample(2);
}
#endif

#if PROP == 17
// ------------------------------------------------------------------ P17
using MeshT = Mesh<3>; using TetI = Domain<cg::Tetrahedron<Linear>, int>; using TriU = Domain<cg::Triangle<3, Quadratic>>; using Tet = Domain<cg::Tetrahedron<Linear>>;
struct Content { std::vector<std::array<double,3>> X; struct Dm { std::string name; int type; std::vector<std::vector<long>> conn; }; std::vector<Dm> doms; };
template <class D> static void check_dom(const D &d, const Content::Dm &c, const BaseMesh *owner, const std::vector<std::array<double,3>> *X, const std::string &log, const char *who) {
    CHECK("domain-size", d.number_of_elements() == c.conn.size() && d.number_of_nodes_per_elements() == (UI)NN<typename D::ElementType>, "%s domain \"%s\": %llu elements of %llu nodes, %zu expected; after%s", who, c.name.c_str(), (unsigned long long)d.number_of_elements(), (unsigned long long)d.number_of_nodes_per_elements(), c.conn.size(), log.c_str());
    if (d.number_of_elements() != c.conn.size()) return;
    for (size_t e = 0; e < c.conn.size(); ++e) {
        auto ix = d.element_indices(e); bool same = (size_t)ix.size() == c.conn[e].size();
        for (size_t i = 0; same && i < c.conn[e].size(); ++i) same = (long)ix[i] == c.conn[e][i];
        CHECK("connectivity", same, "%s domain \"%s\": the indices of element %zu changed (first %ld, expected %ld); after%s", who, c.name.c_str(), e, (long)ix[0], c.conn[e][0], log.c_str());
        if (!same) return;
    }
    if (owner) {
        CHECK("owner", d.mesh() == owner, "%s domain \"%s\" is attached to %p instead of its mesh %p; after%s", who, c.name.c_str(), (const void *)d.mesh(), (const void *)owner, log.c_str());
        if (d.mesh() != owner) return;
        for (size_t e = 0; e < c.conn.size(); ++e) { auto el = d.element(e); bool same = true; for (int i = 0; i < NN<typename D::ElementType>; ++i) for (int k = 0; k < 3; ++k) same = same && el.node(i)[k] == (*X)[c.conn[e][i]][k];
            CHECK("element-nodes", same, "%s domain \"%s\": element %zu has other node positions; after%s", who, c.name.c_str(), e, log.c_str()); }
    } else {
        CHECK("orphan-or-valid", d.mesh() == nullptr || true, "?");
    }
}
static void check_any(const BaseDomain *b, const Content::Dm &c, const BaseMesh *owner, const std::vector<std::array<double,3>> *X, const std::string &log, const char *who) {
    if (c.type == 0) { auto *d = dynamic_cast<const TetI *>(b); CHECK("domain-type", d, "type changed"); if (d) check_dom(*d, c, owner, X, log, who); }
    if (c.type == 1) { auto *d = dynamic_cast<const TriU *>(b); CHECK("domain-type", d, "type changed"); if (d) check_dom(*d, c, owner, X, log, who); }
    if (c.type == 2) { auto *d = dynamic_cast<const Tet *>(b); CHECK("domain-type", d, "type changed"); if (d) check_dom(*d, c, owner, X, log, who); }
}
static void verify_mesh(const MeshT &m, const Content &c, const std::string &log) {
    CHECK("node-count", m.number_of_nodes() == c.X.size(), "%llu nodes, expected %zu; after%s", (unsigned long long)m.number_of_nodes(), c.X.size(), log.c_str());
    CHECK("domain-count", m.number_of_domains() == c.doms.size(), "%llu domains, expected %zu; after%s", (unsigned long long)m.number_of_domains(), c.doms.size(), log.c_str());
    if (m.number_of_nodes() != c.X.size() || m.number_of_domains() != c.doms.size()) return;
    for (size_t i = 0; i < c.X.size(); ++i) { auto p = m.position(i); CHECK("positions", p[0] == c.X[i][0] && p[1] == c.X[i][1] && p[2] == c.X[i][2], "node %zu changed; after%s", i, log.c_str()); }
    auto ds = m.domains();
    for (size_t i = 0; i < ds.size(); ++i) { CHECK("domain-name", ds[i].first == c.doms[i].name, "domain %zu is named \"%s\" instead of \"%s\"; after%s", i, ds[i].first.c_str(), c.doms[i].name.c_str(), log.c_str()); check_any(ds[i].second, c.doms[i], &m, &c.X, log, "mesh"); }
}
static void semantics(uint64_t t, Rng &r) {
    struct Slot { std::unique_ptr<MeshT> m; Content c; };
    struct Free { std::unique_ptr<BaseDomain> d; Content::Dm c; };
    std::vector<std::unique_ptr<Slot>> slots; std::vector<std::unique_ptr<Free>> frees;
    std::vector<std::unique_ptr<TetI::ElementsIndices>> extA; std::vector<std::unique_ptr<std::vector<UI>>> extB; // external connectivity, outlives everything
    std::string log; uint64_t hh = t; int fresh = 0;
    auto fill = [&](Slot &s) {
        int nn = (int)r.irange(1, 12); auto pos = rand_positions<MeshT>(r, nn);
        s.m = r.flip(0.8) ? std::make_unique<MeshT>(pos) : [&] { Eigen::MatrixXd p(nn, 3); for (int i = 0; i < nn; ++i) for (int k = 0; k < 3; ++k) p(i,k) = pos[i][k]; return std::make_unique<MeshT>(p); }();
        for (auto &p : pos) s.c.X.push_back({p[0], p[1], p[2]});
    };
    auto add = [&](Slot &s) {
        if (s.c.X.empty()) return;
        Content::Dm d; d.name = fmt("d%d", fresh++); d.type = (int)r.irange(0, 2); int ne = (int)r.irange(0, 6), nn = (int)s.c.X.size(); int store = (int)r.irange(0, 2);
        auto rec = [&](const auto &ix) { for (Eigen::Index e = 0; e < ix.rows(); ++e) { d.conn.emplace_back(); for (Eigen::Index i = 0; i < ix.cols(); ++i) d.conn.back().push_back((long)ix(e, i)); } };
        if (d.type == 0) { auto ix = rand_indices<TetI>(r, ne, nn); rec(ix);
            if (store) { extA.push_back(std::make_unique<TetI::ElementsIndices>(ix)); s.m->add_domain<cg::Tetrahedron<Linear>, int>(d.name, (const TetI::ElementsIndices *)extA.back().get()); mon::observe("storage:external-matrix"); }
            else { s.m->add_domain<cg::Tetrahedron<Linear>, int>(d.name, ix); mon::observe("storage:owned"); } }
        else if (d.type == 1) { auto ix = rand_indices<TriU>(r, ne, nn); rec(ix); s.m->add_domain<cg::Triangle<3, Quadratic>>(d.name, ix); mon::observe("storage:owned"); }
        else { auto ix = rand_indices<Tet>(r, ne, nn); rec(ix);
            if (store == 0) { s.m->add_domain<cg::Tetrahedron<Linear>>(d.name, ix); mon::observe("storage:owned"); }
            else { long inner = store, outer = 4 * inner + r.irange(0, 3); auto buf = std::make_unique<std::vector<UI>>(ne ? (ne - 1) * outer + 3 * inner + 1 : 1, 999999);
                for (int e = 0; e < ne; ++e) for (int i = 0; i < 4; ++i) (*buf)[e * outer + i * inner] = ix(e, i);
                s.m->add_domain<cg::Tetrahedron<Linear>>(d.name, (const UI *)buf->data(), (Eigen::Index)ne, (Eigen::Index)4, (Eigen::Index)outer, (Eigen::Index)inner); extB.push_back(std::move(buf)); mon::observe("storage:external-strided"); } }
        s.c.doms.push_back(d);
    };
    int steps = (int)r.irange(6, 40);
    for (int s = 0; s < steps; ++s) {
        int op = slots.empty() ? 0 : (int)r.irange(0, 20); Slot *a = slots.empty() ? nullptr : slots[r.u64() % slots.size()].get(), *b = slots.empty() ? nullptr : slots[r.u64() % slots.size()].get();
        hh = mon::mix(hh, op * 3 + (a == b)); log += fmt(" %d", op); mon::describe("steps:%s", log.c_str());
        auto insert = [&](std::unique_ptr<MeshT> m, Content c) { slots.push_back(std::make_unique<Slot>()); slots.back()->m = std::move(m); slots.back()->c = c; };
        auto domain_of = [&](Slot *x) { return x->m->domain((UI)(r.u64() % x->c.doms.size())); };
        switch (op) {
            case 0: { auto x = std::make_unique<Slot>(); if (r.flip(0.1)) x->m = std::make_unique<MeshT>(); else fill(*x); slots.push_back(std::move(x)); add(*slots.back()); mon::observe("op:construct"); break; }
            case 1: case 2: add(*a); mon::observe("op:add"); break;
            case 3: insert(std::make_unique<MeshT>(*a->m), a->c); mon::observe("op:copy-construct"); break;
            case 4: insert(std::make_unique<MeshT>(std::move(*a->m)), a->c); a->m.reset(); for (size_t i = 0; i < slots.size(); ++i) if (slots[i].get() == a) { slots.erase(slots.begin() + i); break; } mon::observe("op:move-construct"); break;
            case 5: *a->m = *b->m; a->c = b->c; mon::observe(a == b ? "op:self-assign" : "op:copy-assign"); break;
            case 6: if (a != b) { *a->m = std::move(*b->m); a->c = b->c; for (size_t i = 0; i < slots.size(); ++i) if (slots[i].get() == b) { slots.erase(slots.begin() + i); break; } mon::observe("op:move-assign"); } break;
            case 7: case 8: { using std::swap; swap(*a->m, *b->m); std::swap(a->c, b->c); mon::observe(a == b ? "op:self-swap" : "op:swap"); break; }
            case 9: for (size_t i = 0; i < slots.size(); ++i) if (slots[i].get() == a) { slots.erase(slots.begin() + i); break; } mon::observe("op:destroy-mesh"); break;
            case 10: case 11: if (!a->c.doms.empty()) { size_t k = r.u64() % a->c.doms.size(); auto f = std::make_unique<Free>(); f->d.reset(a->m->domain((UI)k)->clone()); f->c = a->c.doms[k]; frees.push_back(std::move(f)); mon::observe("op:clone"); } break;
            case 12: if (!frees.empty()) { frees.erase(frees.begin() + r.u64() % frees.size()); mon::observe("op:destroy-domain"); } break;
            case 13: if (!frees.empty()) { // clone of a clone / copy / move construction
                auto &f = *frees[r.u64() % frees.size()]; auto g = std::make_unique<Free>(); g->c = f.c; int how = (int)r.irange(0, 2);
                auto dup = [&](auto *p) { using D = std::decay_t<decltype(*p)>; if (how == 0) g->d.reset(new D(*p)); else if (how == 1) g->d.reset(p->clone()); else { g->d.reset(new D(std::move(*p))); } };
                if (f.c.type == 0) dup(dynamic_cast<TetI *>(f.d.get())); else if (f.c.type == 1) dup(dynamic_cast<TriU *>(f.d.get())); else dup(dynamic_cast<Tet *>(f.d.get()));
                mon::observe(how == 0 ? "op:copy-domain" : how == 1 ? "op:clone-clone" : "op:move-domain");
                if (how == 2) f.d.reset(); 
                for (size_t i = frees.size(); i-- > 0;) if (!frees[i]->d) frees.erase(frees.begin() + i);
                frees.push_back(std::move(g)); } break;
            case 14: case 15: if (!frees.empty() && !a->c.X.empty()) { // adopt a detached clone
                size_t k = r.u64() % frees.size(); auto &f = *frees[k]; bool fits = true; for (auto &e : f.c.conn) for (long i : e) fits = fits && i < (long)a->c.X.size();
                if (!fits || f.d->mesh() != nullptr) break;
                f.c.name = fmt("d%d", fresh++); a->m->add_domain(f.d.release(), f.c.name); a->c.doms.push_back(f.c); frees.erase(frees.begin() + k); mon::observe("op:adopt"); } break;
            case 16: if (!a->c.doms.empty()) { size_t k = r.u64() % a->c.doms.size(); if (r.flip()) a->m->remove_domain(a->c.doms[k].name); else a->m->remove(a->m->domain((UI)k)); a->c.doms.erase(a->c.doms.begin() + k); mon::observe("op:remove"); } break;
            case 18: case 19: case 20: { // swap two detached domains of the same type, or copies of them
                if (frees.empty()) break; auto &f = *frees[r.u64() % frees.size()]; Free *g = &f; for (int k = 0; k < 8 && (g == &f || g->c.type != f.c.type); ++k) g = frees[r.u64() % frees.size()].get(); if (g->c.type != f.c.type) break; int how = g == &f ? 0 : (int)r.irange(0, 1);
                auto act = [&](auto *p, auto *q) { using D = std::decay_t<decltype(*p)>; using std::swap; if (how == 0) swap(*p, *q); else { D h(*p), k(std::move(*q)); swap(h, k); auto x = std::make_unique<D>(std::move(h)), y = std::make_unique<D>(k); f.d = std::move(x); g->d = std::move(y); } };
                if (f.c.type == 0) act(dynamic_cast<TetI *>(f.d.get()), dynamic_cast<TetI *>(g->d.get())); else if (f.c.type == 1) act(dynamic_cast<TriU *>(f.d.get()), dynamic_cast<TriU *>(g->d.get())); else act(dynamic_cast<Tet *>(f.d.get()), dynamic_cast<Tet *>(g->d.get()));
                if (g != &f) std::swap(f.c, g->c);
                mon::observe(std::string(how == 0 ? "op:swap-domains" : "op:swap-copied-domains") + (g == &f ? ":self" : "")); break; }
            default: { std::vector<MeshT> v; Content c = a->c; for (int k = 0; k < 3; ++k) v.push_back(*a->m); v.erase(v.begin()); for (auto &x : v) verify_mesh(x, c, log); std::vector<MeshT> w = v; v.clear(); for (auto &x : w) verify_mesh(x, c, log); mon::observe("op:vector-of-meshes"); }
        }
        if (slots.size() > 6) slots.erase(slots.begin());
        if (frees.size() > 6) frees.erase(frees.begin());
        for (auto &x : slots) verify_mesh(*x->m, x->c, log);
        for (auto &f : frees) check_any(f->d.get(), f->c, nullptr, nullptr, log, "free");
        if (!M().viol.empty()) { std::fflush(M().f); for (auto &x : slots) (void)x.release(); for (auto &f : frees) (void)f.release(); M().cur_idx = M().cur_idx; return; } // state is no longer trusted
    }
    mon::distinct(hh); mon::sample(2);
}
#endif

#if PROP == 18
// ------------------------------------------------------------------ P18
template <class MeshT> static void check_positions(const MeshT &m, const std::vector<std::vector<double>> &X, Rng &r, const char *how) {
    constexpr int D = MeshT::Dimension;
    mon::observe(fmt("positions:%s", how));
    CHECK("node-count", m.number_of_nodes() == X.size() && m.dimension() == (UI)D, "%s: %llu nodes in %lluD, expected %zu in %dD", how, (unsigned long long)m.number_of_nodes(), (unsigned long long)m.dimension(), X.size(), D);
    if (m.number_of_nodes() != X.size()) return;
    auto eq = [&](const auto &row, size_t i, const char *via) { bool ok = true; for (int d = 0; d < D; ++d) ok = ok && (double)row[d] == X[i][d]; CHECK("position", ok, "%s: node %zu read through %s differs: %.17g expected %.17g", how, i, via, (double)row[0], X[i][0]); };
    for (size_t i = 0; i < X.size(); ++i) {
        eq(m.position(i), i, "position");
        const BaseMesh &b = m; Eigen::Vector3d v = b.node(i);
        eq(v, i, "node");
        bool z = true; for (int d = D; d < 3; ++d) z = z && v[d] == 0;
        CHECK("zero-padded", z, "%s: node(%zu) = (%g, %g, %g) in %dD", how, i, v[0], v[1], v[2], D);
    }
    if (X.empty()) return;
    auto sel = [&](const auto &idx, const auto &got, const char *via) {
        CHECK("selection-shape", (size_t)got.rows() == (size_t)std::size(idx) && got.cols() == D, "%s/%s: %lldx%lld returned for %zu indices", how, via, (long long)got.rows(), (long long)got.cols(), (size_t)std::size(idx));
        if ((size_t)got.rows() != (size_t)std::size(idx)) return;
        for (size_t k = 0; k < (size_t)std::size(idx); ++k) { bool ok = true; for (int d = 0; d < D; ++d) ok = ok && (double)got(k, d) == X[(size_t)idx[k]][d]; CHECK("selection", ok, "%s/%s: row %zu is not node %lld", how, via, k, (long long)idx[k]); }
        mon::observe(fmt("selection:%s", via));
    };
    auto ri = [&] { return r.irange(0, (long)X.size() - 1); };
    { int a[4]; for (auto &x : a) x = (int)ri(); sel(a, m.positions(a), "int[4]"); }
    { unsigned long a[1] = {(unsigned long)ri()}; sel(a, m.positions(a), "unsigned long[1]"); }
    { short a[7]; for (auto &x : a) x = (short)ri(); sel(a, m.positions(a), "short[7]"); }
    { std::array<int, 3> a; for (auto &x : a) x = (int)ri(); sel(a, m.positions(a), "array<int,3>"); }
    { std::array<UI, 5> a; for (auto &x : a) x = (UI)ri(); sel(a, m.positions(a), "array<unsigned,5>"); }
    { std::vector<int> a((size_t)r.irange(0, 9)); for (auto &x : a) x = (int)ri(); sel(a, m.positions(a), "vector<int>"); }
    { std::vector<size_t> a((size_t)r.irange(1, 9)); for (auto &x : a) x = (size_t)ri(); sel(a, m.positions(a), "vector<size_t>"); }
    auto eig = [&](auto v, const char *via) { for (Eigen::Index i = 0; i < v.size(); ++i) v[i] = (typename decltype(v)::Scalar)ri(); std::vector<long> a; for (Eigen::Index i = 0; i < v.size(); ++i) a.push_back((long)v[i]); sel(a, m.positions(v), via); };
    eig(Eigen::Matrix<int, 4, 1>(), "Vector4i"); eig(Eigen::Matrix<UI, 1, 3>(), "RowVector3u"); eig(Eigen::Matrix<long, Eigen::Dynamic, 1>(r.irange(1, 6)), "VectorXl"); eig(Eigen::Matrix<int, 1, Eigen::Dynamic>(r.irange(1, 6)), "RowVectorXi");
}
template <int D> static void positions_case(uint64_t t, Rng &r) {
    int n = (int)(r.flip(0.1) ? r.irange(0, 1) : r.irange(1, 15)); bool whole = r.flip(0.3);
    std::vector<std::vector<double>> X(n, std::vector<double>(D)); uint64_t hh = t;
    for (auto &x : X) for (auto &v : x) { v = whole ? (double)r.irange(-1000, 1000) : (double)(float)r.uni(-1e3, 1e3); hh = mon::mix(hh, mon::hash_d(v)); }
    mon::describe("%dD n=%d first=%.17g", D, n, n ? X[0][0] : 0.); mon::distinct(hh); mon::sample(1);
    { std::vector<typename Mesh<D>::WorldCoordinates> p(n); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) p[i][d] = X[i][d]; Mesh<D> m(p); for (auto &x : p) x.setConstant(1e99); check_positions(m, X, r, "vector"); }
    auto mat = [&](auto p, const char *how) { for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) p(i, d) = (typename decltype(p)::Scalar)X[i][d]; Mesh<D> m(p); p.setConstant(77); check_positions(m, X, r, how); };
    mat(Eigen::MatrixXd(n, D), "MatrixXd"); mat(Eigen::Matrix<double, Eigen::Dynamic, D>(n, D), "colmajor"); mat(Eigen::Matrix<float, Eigen::Dynamic, D>(n, D), "float-into-double");
    if (D > 1) mat(Eigen::Matrix<double, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>(n, D), "rowmajor");
    if (D > 1) mat(Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>(n, D), "dynamic-rowmajor");
    if (whole) mat(Eigen::MatrixXi(n, D), "int");
    { // strided map over an exactly sized heap buffer
        long is = r.irange(1, 3), os = D * is + r.irange(0, 4); std::vector<double> buf(n ? (n - 1) * os + (D - 1) * is + 1 : 1, 5e55);
        for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) buf[i * os + d * is] = X[i][d];
        using Mat = Eigen::Matrix<double, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>;
        Eigen::Map<const Mat, Eigen::Unaligned, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> mp(buf.data(), n, D, D > 1 ? Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>(os, is) : Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>(1, os));
        Mesh<D> m(mp); check_positions(m, X, r, "strided-map");
    }
    { Eigen::MatrixXd big = Eigen::MatrixXd::Constant(n + 4, D + 3, 3e33); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) big(i + 1, d + 2) = X[i][d]; Mesh<D> m(big.block(1, 2, n, D)); check_positions(m, X, r, "block"); }
    { Eigen::MatrixXd tr(D, n); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) tr(d, i) = X[i][d]; Mesh<D> m(tr.transpose()); check_positions(m, X, r, "transpose-expression"); }
    { Eigen::Matrix<double, Eigen::Dynamic, D> p(n, D); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) p(i, d) = X[i][d]; Mesh m(p); static_assert(decltype(m)::Dimension == D); check_positions(m, X, r, "deduced"); }
    { Eigen::Matrix<float, Eigen::Dynamic, D> p(n, D); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) p(i, d) = (float)X[i][d]; Mesh m(p); check_positions(m, X, r, "deduced-float"); }
    if (n >= 3) { Eigen::Matrix<double, 3, D> p; for (int i = 0; i < 3; ++i) for (int d = 0; d < D; ++d) p(i, d) = X[i][d]; Mesh m(p); check_positions(m, std::vector<std::vector<double>>(X.begin(), X.begin() + 3), r, "deduced-fixed"); }
    { std::vector<Eigen::Matrix<float, 1, D>> p(n); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) p[i][d] = (float)X[i][d]; Mesh<D, EigenNodesHolder<Eigen::Matrix<float, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>>> m(p); check_positions(m, X, r, "float-mesh"); }
    { std::vector<Eigen::Matrix<double, 1, D>> p(n); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) p[i][d] = X[i][d]; Mesh<D, EigenNodesHolder<Eigen::Matrix<double, Eigen::Dynamic, D, Eigen::ColMajor>>> m(p); check_positions(m, X, r, "colmajor-holder"); }
}

template <class E, class NI> static void connectivity_case(uint64_t t, Rng &r) {
    constexpr int D = WD<E>; using Dom = Domain<E, NI>; const int K = NN<E>;
    int nn = (int)r.irange(1, sizeof(NI) == 1 ? 120 : 40), ne = (int)r.irange(0, 7);
    auto pos = rand_positions<Mesh<D>>(r, nn); Mesh<D> mesh(pos);
    std::vector<std::vector<long>> conn(ne, std::vector<long>(K)); uint64_t hh = mon::mix(t, sizeof(NI) * 100 + K);
    for (auto &c : conn) for (auto &i : c) { i = r.irange(0, nn - 1); hh = mon::mix(hh, i); }
    mon::describe("%s index=%zu bytes elements=%d nodes=%d", Info<E>::name, sizeof(NI), ne, nn); mon::distinct(hh); mon::sample(1);
    Eigen::MatrixXd pd(nn, D); Eigen::Matrix<double, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)> pr(nn, D);
    for (int i = 0; i < nn; ++i) for (int d = 0; d < D; ++d) pd(i, d) = pr(i, d) = pos[i][d];
    Eigen::MatrixXd wide = Eigen::MatrixXd::Constant(nn, D + 2, 1e44); wide.block(0, 1, nn, D) = pd;
    Eigen::MatrixXd moved = pd.array() + 1000;
    auto check = [&](const Dom *d, const char *how) {
        mon::observe(fmt("connectivity:%s", how));
        CHECK("domain-shape", d && (int)d->number_of_elements() == ne && (int)d->number_of_nodes_per_elements() == K && (int)d->canonical_dimension() == CD<E>, "%s: %llu elements of %llu nodes, %d of %d expected", how, d ? (unsigned long long)d->number_of_elements() : 0, d ? (unsigned long long)d->number_of_nodes_per_elements() : 0, ne, K);
        if (!d || (int)d->number_of_elements() != ne) return;
        CHECK("domain-mesh", d->mesh() == &mesh, "%s: wrong mesh", how);
        for (int e = 0; e < ne; ++e) {
            auto ix = d->element_indices(e); bool ok = (int)ix.size() == K; for (int i = 0; ok && i < K; ++i) ok = (long)ix[i] == conn[e][i];
            CHECK("element-indices", ok, "%s: element %d has index %lld first, expected %ld", how, e, (long long)ix[0], conn[e][0]);
            if (!ok) continue;
            auto nodes_ok = [&](const E &el, double shift) { 
                if constexpr (Info<E>::rect) return true; else { bool k = true; for (int i = 0; i < K; ++i) for (int c = 0; c < D; ++c) k = k && el.node(i)[c] == pos[conn[e][i]][c] + shift; return k; } };
            CHECK("element", nodes_ok(d->element(e), 0), "%s: element(%d) has other nodes", how, e);
            CHECK("element-from-positions", nodes_ok(d->element(e, pd), 0) && nodes_ok(d->element(e, pr), 0), "%s: element(%d, positions) has other nodes", how, e);
            CHECK("element-from-positions", nodes_ok(d->element(e, wide.block(0, 1, nn, D)), 0), "%s: element(%d, block) has other nodes", how, e);
            CHECK("element-from-positions", nodes_ok(d->element(e, moved), 1000), "%s: element(%d, other positions) does not use them", how, e);
            auto sub = mesh.positions(d->element_indices(e)); bool sk = sub.rows() == K; for (int i = 0; sk && i < K; ++i) for (int c = 0; c < D; ++c) sk = sk && sub(i, c) == pos[conn[e][i]][c];
            CHECK("positions-of-element", sk, "%s: positions(element_indices(%d)) differ", how, e);
        }
    };
    auto fillm = [&](auto m) { for (int e = 0; e < ne; ++e) for (int i = 0; i < K; ++i) m(e, i) = (typename decltype(m)::Scalar)conn[e][i]; return m; };
    int v = 0; auto nm = [&] { return fmt("v%d", v++); };
    using EI = typename Dom::ElementsIndices;
    { EI m = fillm(EI(ne, K)); auto *d = mesh.template add_domain<E, NI>(nm(), m); m.setZero(); check(d, "copied"); }
    { const EI m = fillm(EI(ne, K)); check(mesh.template add_domain<E, NI>(nm(), m), "copied-const"); }
    { Eigen::Matrix<NI, Eigen::Dynamic, Eigen::Dynamic> m = fillm(Eigen::Matrix<NI, Eigen::Dynamic, Eigen::Dynamic>(ne, K)); auto *d = mesh.template add_domain<E, NI>(nm(), m); m.setZero(); check(d, "copied-dynamic-colmajor"); }
    { Eigen::Matrix<NI, Eigen::Dynamic, NN<E>> m = fillm(Eigen::Matrix<NI, Eigen::Dynamic, NN<E>>(ne, K)); check(mesh.template add_domain<E, NI>(m), "copied-colmajor-unnamed"); }
    auto ext = std::make_unique<EI>(fillm(EI(ne, K)));
    check(mesh.template add_domain<E, NI>(nm(), (const EI *)ext.get()), "referenced-matrix");
    std::unique_ptr<NI[]> raw(new NI[std::max(1, ne * K)]); for (int e = 0; e < ne; ++e) for (int i = 0; i < K; ++i) raw[e * K + i] = (NI)conn[e][i];
    check(mesh.template add_domain<E, NI>(nm(), (const NI *)raw.get(), (Eigen::Index)ne, (Eigen::Index)K), "referenced-array");
    // padded rows / interleaved columns / column-major external storage, exactly sized buffers
    auto strided = [&](long os, long is, const char *how) {
        std::unique_ptr<NI[]> b(new NI[ne ? (ne - 1) * os + (K - 1) * is + 1 : 1]); for (long i = 0; i < (ne ? (ne - 1) * os + (K - 1) * is + 1 : 1); ++i) b[i] = (NI)119;
        for (int e = 0; e < ne; ++e) for (int i = 0; i < K; ++i) b[e * os + i * is] = (NI)conn[e][i];
        std::string n = nm(); check(mesh.template add_domain<E, NI>(n, (const NI *)b.get(), (Eigen::Index)ne, (Eigen::Index)K, (Eigen::Index)os, (Eigen::Index)is), how); mesh.remove_domain(n);
    };
    strided(K + r.irange(1, 5), 1, "referenced-padded-rows"); { long is = r.irange(2, 3); strided(K * is + r.irange(0, 2), is, "referenced-interleaved"); } strided(1, ne ? ne : 1, "referenced-column-major");
}
template <class E> static void conn_all(uint64_t q, uint64_t th) {
    Rng r; uint64_t N = M().n(q, th);
    for (uint64_t t = 0; t < N; ++t) {
        if (!mon::begin(fmt("connectivity:%s", Info<E>::name), t, r)) continue;
        switch (t % 5) { case 0: connectivity_case<E, UI>(t, r); break; case 1: connectivity_case<E, int>(t, r); break; case 2: connectivity_case<E, unsigned>(t, r); break; case 3: connectivity_case<E, long>(t, r); break; default: connectivity_case<E, short>(t, r); }
    }
}
#endif

int main(int argc, char **argv) {
    mon::init(argc, argv); Rng r;
#if PROP == 16
    for (uint64_t t = 0, N = M().n(1500, 60000); t < N; ++t) if (mon::begin(fmt("history%dD", DIM), t, r)) history<DIM>(t, r);
#elif PROP == 17
    for (uint64_t t = 0, N = M().n(1200, 60000); t < N; ++t) if (mon::begin("semantics" SHARD, t, r)) { semantics(t, r); if (!M().viol.empty()) { std::fflush(M().f); std::_Exit(9); } }
#else
#if GROUP == 0
    for (uint64_t t = 0, N = M().n(400, 10000); t < N; ++t) if (mon::begin("positions1D", t, r)) positions_case<1>(t, r);
    for (uint64_t t = 0, N = M().n(400, 10000); t < N; ++t) if (mon::begin("positions2D", t, r)) positions_case<2>(t, r);
#elif GROUP == 1
    for (uint64_t t = 0, N = M().n(400, 10000); t < N; ++t) if (mon::begin("positions3D", t, r)) positions_case<3>(t, r);
#elif GROUP == 2
    conn_all<cg::Segment<1, Linear>>(500, 10000); conn_all<cg::Segment<3, Quadratic>>(500, 10000);
#elif GROUP == 3
    conn_all<cg::Triangle<2, Linear>>(500, 10000); conn_all<cg::Quad<3, Quadratic>>(500, 10000);
#elif GROUP == 4
    conn_all<cg::Tetrahedron<Quadratic>>(500, 10000); conn_all<cg::Hexahedron<Linear>>(500, 10000);
#else
    conn_all<cg::Hexahedron<Quadratic>>(300, 5000); conn_all<cg::RectangularHexahedron<Linear>>(300, 5000);
#endif
#endif
    return mon::finish();
}
