// What a force field shows: the bounding box of the current positions, and the (shrunk) faces of its elements.
#pragma once
#include "sofa.h"
template <class E, class FF> static void check_display(Rng &r, FF *ff, const std::vector<std::vector<int>> &conn, const std::vector<int> &kept, const std::vector<V3> &y, LD h, bool draw) {
    constexpr int D = WD<E>, C = CD<E>; sofa::core::ExecParams ep; ff->computeBBox(&ep, true); auto bb = ff->f_bbox.getValue(); bool ok = true;
    for (int d = 0; d < 3; ++d) { double lo = d < D ? 1e300 : 0, hi = d < D ? -1e300 : 0; if (d < D) for (auto &v : y) { lo = std::min(lo, (double)v[d]); hi = std::max(hi, (double)v[d]); } ok = ok && bb.minBBox()[d] == lo && bb.maxBBox()[d] == hi; }
    CHECK("bounding-box", ok, "the bounding box is not that of the positions"); mon::observe("bounding-box"); if (!draw) return;
    double sc_ = r.flip(0.2) ? 1 : r.uni(0.3, 1); set_data<double>(ff, "draw_scale", sc_); sofa::core::visual::VisualParams vp; vp.flags.ff = !r.flip(0.1); vp.flags.wire = r.flip(0.2); ff->draw(&vp); CHECK("drawing-state-restored", vp.tool.depth == 0 && !vp.tool.polygon, "the drawing state is not restored");
    size_t nv = 0; for (auto &g : vp.tool.triangles) nv += g.size(); if (!vp.flags.ff) { CHECK("hidden-is-not-drawn", nv == 0, "%zu vertices drawn although force fields are hidden", nv); return; }
    const Ref &q = R<E>(); std::vector<V3> want; LD vol = 0, drawn = 0, coord = h; V3 va{0,0,0}; for (auto &v : y) coord = std::max(coord, maxabs(v)); const V3 o = y[conn[kept[0]][0]];
    for (int e : kept) { V3 c{0,0,0}; auto Lc = q.L(C == 3 && q.simplex ? V3{0.25L, 0.25L, 0.25L} : q.simplex ? V3{1 / 3.L, 1 / 3.L, 0} : V3{0,0,0}); for (size_t i = 0; i < q.nodes.size(); ++i) c = c + Lc[i] * y[conn[e][i]]; std::vector<V3> p; for (int i = 0; i < q.ncorner; ++i) p.push_back(c + (LD)sc_ * (y[conn[e][i]] - c)); want.insert(want.end(), p.begin(), p.end()); if (C == 3 && q.simplex) vol += std::fabs(dot(p[1] - p[0], cross(p[2] - p[0], p[3] - p[0]))) / 6; if (C == 2 && q.simplex) vol += norm(cross(p[1] - p[0], p[2] - p[0])) / 2; }
    const LD tol = 1e-12L * coord * 10; std::vector<char> seen(want.size(), 0); bool stray = false; size_t nt = 0; for (auto &g : vp.tool.triangles) { CHECK("whole-triangles", g.size() % 3 == 0, "a group of %zu vertices", g.size()); std::vector<V3> p; for (auto &v : g) { V3 a{v[0], v[1], v[2]}; bool f = false; for (size_t i = 0; i < want.size(); ++i) if (maxabs(want[i] - a) <= tol) { seen[i] = 1; f = true; } stray |= !f; p.push_back(a); } for (size_t i = 0; i + 2 < p.size(); i += 3) { ++nt; V3 n = cross(p[i + 1] - p[i], p[i + 2] - p[i]); va = va + n; if (C == 2) drawn += norm(n) / 2; else drawn += dot(p[i] - o, n) / 6; } }
    const size_t per = C == 2 ? (q.simplex ? 1 : 2) : q.simplex ? 4 : 12; bool all = true; for (char s : seen) all = all && s; CHECK("drawn-at-the-current-positions", !stray, "a drawn vertex is not the scaled corner of an element"); CHECK("every-corner-drawn", all, "a corner of an element is not drawn"); CHECK("every-face-drawn", nt == per * kept.size(), "%zu triangles for %zu elements", nt, kept.size());
    if (C == 3) CHECK("closed-surface", maxabs(va) <= 1e-11L * coord * coord * kept.size() * 10, "the drawn faces do not form closed surfaces (%.3Lg)", maxabs(va)); if (q.simplex) CHECK("drawn-measure", std::fabs(std::fabs(drawn) - vol) <= 1e-11L * (1 + coord / h) * h * h * (C == 3 ? h : 1) * kept.size() * 100 * (1 + coord / h), "the drawn faces measure %.9Lg instead of %.9Lg", drawn, vol); mon::observe("drawing");
}
