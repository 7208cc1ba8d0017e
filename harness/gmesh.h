// Seeded conforming meshes: perturbed lattices of any element kind, renumbered, scaled, rotated, with holes.
#pragma once
#include "ref.h"
#include <map>
template <class E> struct GMesh {
    static constexpr int C = CD<E>, D = WD<E>;
    std::vector<V3> X; std::vector<std::vector<int>> conn; std::vector<char> removed; LD h; bool affine; V3 lo, hi; M3 A; V3 off; int n[3];
};
template <class E> static GMesh<E> make_mesh(Rng &r) {
    constexpr int C = CD<E>, D = WD<E>; const Ref &rf = R<E>();
    GMesh<E> m; int n[3] = {1,1,1}, N[3] = {1,1,1};
    for (int d = 0; d < C; ++d) { n[d] = (int)r.irange(1, C == 1 ? 8 : C == 2 ? 4 : 3); N[d] = n[d] + 1; m.n[d] = n[d]; }
    for (int d = C; d < 3; ++d) m.n[d] = 0;
    std::vector<V3> P; // lattice nodes, perturbed
    LD pert = Info<E>::rect ? 0 : r.flip(0.2) ? 0 : rf.simplex || C == 1 ? 0.2 : (C == 2 ? 0.15 : 0.1);
    for (int k = 0; k < (C > 2 ? N[2] : 1); ++k) for (int j = 0; j < (C > 1 ? N[1] : 1); ++j) for (int i = 0; i < N[0]; ++i) { V3 p{(LD)i, (LD)j, (LD)k}; for (int d = 0; d < C; ++d) p[d] += pert * r.uni(-1, 1); P.push_back(p); }
    auto id = [&](int i, int j, int k) { return (k * (C > 1 ? N[1] : 1) + j) * N[0] + i; };
    std::vector<std::vector<int>> corner;
    for (int k = 0; k < (C > 2 ? n[2] : 1); ++k) for (int j = 0; j < (C > 1 ? n[1] : 1); ++j) for (int i = 0; i < n[0]; ++i) {
        if (rf.fam == SEG) corner.push_back({id(i,0,0), id(i+1,0,0)});
        if (rf.fam == QUAD) corner.push_back({id(i,j,0), id(i+1,j,0), id(i+1,j+1,0), id(i,j+1,0)});
        if (rf.fam == TRI) {
            if (r.flip()) { corner.push_back({id(i,j,0), id(i+1,j,0), id(i+1,j+1,0)}); corner.push_back({id(i,j,0), id(i+1,j+1,0), id(i,j+1,0)}); }
            else { corner.push_back({id(i,j,0), id(i+1,j,0), id(i,j+1,0)}); corner.push_back({id(i+1,j,0), id(i+1,j+1,0), id(i,j+1,0)}); }
        }
        if (rf.fam == HEX) corner.push_back({id(i,j,k), id(i+1,j,k), id(i+1,j+1,k), id(i,j+1,k), id(i,j,k+1), id(i+1,j,k+1), id(i+1,j+1,k+1), id(i,j+1,k+1)});
        if (rf.fam == TET) { // Kuhn subdivision, orientation fixed below
            int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
            for (int q = 0; q < 6; ++q) { int c[3] = {i,j,k}; std::vector<int> t{id(c[0],c[1],c[2])}; for (int s = 0; s < 3; ++s) { c[perm[q][s]]++; t.push_back(id(c[0],c[1],c[2])); }
                V3 a = P[t[1]] - P[t[0]], b = P[t[2]] - P[t[0]], d = P[t[3]] - P[t[0]]; if (dot(a, cross(b, d)) < 0) std::swap(t[1], t[2]); corner.push_back(t); }
        }
    }
    // linear map
    LD s = r.logu(1e-3, 1e3); M3 rot = (Info<E>::rect ? r.flip(0.7) : r.flip(0.3)) ? M3{V3{1,0,0},V3{0,1,0},V3{0,0,1}} : random_rotation(r, D);
    V3 sc{1,1,1}; if (r.flip()) for (int d = 0; d < C; ++d) sc[d] = r.logu(0.3, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.A[i][j] = rot[i][j] * sc[j] * s;
    m.off = {0,0,0}; LD om = r.flip(0.3) ? 0 : r.uni(0, 100) * s; for (int d = 0; d < D; ++d) m.off[d] = om * r.uni(-1, 1);
    m.h = s;
    std::map<std::pair<int,int>, int> mids; std::vector<V3> L = P;
    for (auto &c : corner) {
        std::vector<int> full = c;
        for (size_t q = rf.ncorner; q < rf.nodes.size(); ++q) {
            int a = c[rf.mid[q][0]], b = c[rf.mid[q][1]]; auto key = std::make_pair(std::min(a,b), std::max(a,b));
            auto f = mids.find(key); if (f == mids.end()) { f = mids.emplace(key, (int)L.size()).first; L.push_back(0.5L * (P[a] + P[b])); }
            full.push_back(f->second);
        }
        m.conn.push_back(full);
    }
    for (auto &p : L) { V3 x = m.off + mul(m.A, p); for (int d = D; d < 3; ++d) x[d] = 0; m.X.push_back(rnd(x)); }
    // random renumbering of nodes and element order; some unused nodes
    std::vector<int> perm(m.X.size() + (r.flip(0.3) ? 2 : 0)); for (size_t i = 0; i < perm.size(); ++i) perm[i] = (int)i;
    for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i-1], perm[r.u64() % i]);
    std::vector<V3> Y(perm.size(), V3{0,0,0}); for (size_t i = 0; i < m.X.size(); ++i) Y[perm[i]] = m.X[i];
    m.X = Y; for (auto &c : m.conn) for (auto &i : c) i = perm[i];
    for (size_t i = m.conn.size(); i > 1; --i) std::swap(m.conn[i-1], m.conn[r.u64() % i]);
    m.removed.assign(m.conn.size(), 0);
    if (m.conn.size() > 1) for (size_t i = 1; i < m.conn.size(); ++i) if (r.flip(0.2)) m.removed[i] = 1;
    m.affine = rf.simplex || C == 1 || Info<E>::rect || pert == 0;
    return m;
}
template <class E> static V3 world(const GMesh<E> &m, int e, const V3 &xi) { auto L = R<E>().L(xi); V3 p{0,0,0}; for (size_t i = 0; i < L.size(); ++i) p = p + L[i] * m.X[m.conn[e][i]]; return p; }
