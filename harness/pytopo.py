import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymon import *
M = Mon()
package(next(a.split('=', 1)[1] for a in sys.argv if a.startswith('--scratch=')))
import Caribou
from Caribou import Geometry as G, Topology as T
DIM = {1: Caribou._1D, 2: Caribou._2D, 3: Caribou._3D}; ORD = {1: Caribou.Linear, 2: Caribou.Quadratic}
KINDS = [('Segment', d, o) for d in (1, 2, 3) for o in (1, 2)] + [('Triangle', d, o) for d in (2, 3) for o in (1, 2)] + [('Quad', d, o) for d in (2, 3) for o in (1, 2)] + \
        [(f, 3, o) for f in ('Tetrahedron', 'Hexahedron') for o in (1, 2)]
def prototype(f, d, o):
    return getattr(G, f)(dimension=DIM[d], order=ORD[o]) if f in ('Segment', 'Triangle', 'Quad') else getattr(G, f)(order=ORD[o])
INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]

def mesh_of(r, X):
    X1 = X[:, 0] if X.shape[1] == 1 and r.rand() < .5 else X
    k, a = layouts(r, X1); M.see('positions:' + k)
    return T.Mesh(a) if r.rand() < .5 else T.Mesh(nodes=a)
def indices_of(r, C):
    dt = INTS[r.randint(len(INTS))]
    if C.size and C.max() > np.iinfo(dt).max: dt = np.int64
    k, a = layouts(r, C.astype(dt)); M.see('connectivity:' + k); M.see('connectivity:' + np.dtype(dt).name)
    return a

def verify_mesh(r, m, X, tag='mesh'):
    n, d = X.shape
    M.check(f'{tag}/dimension', m.dimension() == d); M.check(f'{tag}/number_of_nodes', m.number_of_nodes() == n)
    if n == 0: return
    i = int(r.randint(n)); M.same(f'{tag}/position', np.atleast_1d(m.position(i)), X[i], f'node {i}')
    sel = r.randint(0, n, r.randint(1, 6))
    for v in (sel.tolist(), sel.astype(INTS[2 + r.randint(6)]) if r.rand() < .5 else sel, np.repeat(sel, 2)[::2]):
        M.same(f'{tag}/positions', np.asarray(m.positions(v)).reshape(len(sel), -1), X[sel], f'positions({v!r})')

def verify_domain(r, d, kind, X, C, tag='domain'):
    f, dim, o = kind; ref = Ref(f, o)
    M.check(f'{tag}/counts', (d.canonical_dimension(), d.number_of_nodes_per_elements(), d.number_of_elements()) == (ref.c, len(ref.nodes), len(C)), lambda: (d.canonical_dimension(), d.number_of_nodes_per_elements(), d.number_of_elements()))
    if len(C) == 0: return
    for e in {0, len(C) - 1, int(r.randint(len(C)))}:
        M.same(f'{tag}/element_indices', d.element_indices(e), C[e], f'element {e}')
        el = d.element(e); M.same(f'{tag}/element_nodes', np.asarray(el.nodes()).reshape(len(ref.nodes), -1), X[C[e]], f'element {e}')
        M.check(f'{tag}/element_type', type(el) is type(prototype(*kind)))

def add(r, m, name, kind, a):
    p = prototype(*kind); st = r.randint(2)
    if name is None: return m.add_domain(p, a) if st else m.add_domain(element_type=p, node_indices=a)
    return m.add_domain(name, p, a) if st else m.add_domain(domain_name=name, element_type=p, node_indices=a)

def case_registry(r):
    """histories of additions and refused additions on one or two meshes"""
    dim = int(r.randint(1, 4)); n = int(r.randint(20, 60)); X = r.normal(size=(n, dim)) * np.exp(r.uniform(-2, 3)); m = mesh_of(r, X)
    kinds = [k for k in KINDS if k[1] == dim]; model = []; M.describe(f'dim={dim} n={n}'); M.distinct('registry', X)
    verify_mesh(r, m, X)
    for step in range(int(r.randint(2, 9))):
        kind = kinds[r.randint(len(kinds))]; nn = len(Ref(kind[0], kind[2]).nodes); C = r.randint(0, n, (int(r.randint(1, 7)), nn)); a = indices_of(r, C)
        op = r.randint(5)
        if op == 0 and model and model[0][0]:
            name = [x[0] for x in model if x[0]][r.randint(sum(1 for x in model if x[0]))]
            M.raises('registry/refuse-duplicate', lambda: add(r, m, name, kind, a), f'second domain named {name}'); M.see('refused:duplicate')
        elif op == 1:
            b = [np.zeros((2, nn + 1), int), np.zeros((2, nn - 1), int), 'abc', None, np.zeros((2, 2, 2), int)][r.randint(5)]
            M.raises('registry/refuse-malformed', lambda: add(r, m, f'bad{step}', kind, b), f'{b!r}'); M.see('refused:malformed')
        else:
            name = None if op == 2 else f'd{step}'
            d = add(r, m, name, kind, a); model.append((name, kind, C)); verify_domain(r, d, kind, X, C); M.check('registry/mesh-of-domain', d.mesh() is m)
            M.see('added:' + ('unnamed' if name is None else 'named'))
            if not isinstance(a, list) and a.flags.writeable:   # the domain holds a copy: later changes of the array do not matter
                a[...] = 0; verify_domain(r, d, kind, X, C, 'domain-after-array-changed')
        M.check('registry/count', m.number_of_domains() == len(model), lambda: (m.number_of_domains(), len(model)))
        ds = m.domains(); M.check('registry/domains', len(ds) == len(model) and all(x[0] is None or x[0] == y[0] for x, y in zip(model, ds)), lambda: [y[0] for y in ds])
        M.check('registry/unique-names', len({y[0] for y in ds}) == len(ds))
        for i, (nm, kd, C) in enumerate(model):
            if r.rand() < .4: verify_domain(r, m.domain(i), kd, X, C, 'domain-by-index'); verify_domain(r, m.domain(ds[i][0]), kd, X, C, 'domain-by-name'); verify_domain(r, ds[i][1], kd, X, C, 'domain-listed')
        M.check('registry/absent-name', m.domain('no such domain') is None)

def lattice(r, f, o, size):
    """structured mesh of quads/hexes/segments/triangles/tets, mildly perturbed; returns X, C (quadratic ones straight-sided)"""
    c = {'Segment': 1, 'Triangle': 2, 'Quad': 2, 'Tetrahedron': 3, 'Hexahedron': 3}[f]; n = r.randint(1, 4, c)
    N = n + 1; grid = np.array(list(itertools.product(*[range(k) for k in N])), float); idx = lambda p: int(sum(int(p[i]) * int(np.prod(N[i + 1:])) for i in range(c)))
    X = grid + r.uniform(-.12, .12, grid.shape) * (r.rand() < .6); C = []
    for q in itertools.product(*[range(k) for k in n]):
        q = np.array(q); box = lambda ps: [idx(q + np.array(p)) for p in ps]
        if f == 'Segment': C.append(box([[0], [1]]))
        if f == 'Quad': C.append(box([[0, 0], [1, 0], [1, 1], [0, 1]]))
        if f == 'Triangle': C += [box([[0, 0], [1, 0], [0, 1]]), box([[1, 0], [1, 1], [0, 1]])]
        if f == 'Hexahedron': C.append(box([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]))
        if f == 'Tetrahedron':
            for p in itertools.permutations(range(3)):
                v = [np.zeros(3, int)]
                for a in p: w = v[-1].copy(); w[a] += 1; v.append(w)
                t = box(v); A = X[t[1:]] - X[t[0]]
                if np.linalg.det(A) < 0: t[2], t[3] = t[3], t[2]
                C.append(t)
    if o == 2:
        ref = Ref(f, 2); lin = Ref(f, 1); X = X.tolist(); mid = {}; C2 = []
        for t in C:
            t2 = list(t)
            for x in ref.nodes[ref.ncorner:]:
                w = lin.L(x); k = tuple(sorted(t[i] for i in range(len(t)) if w[i] > .25))
                if k not in mid: mid[k] = len(X); X.append(np.mean([X[j] for j in k], axis=0).tolist())
                t2.append(mid[k])
            C2.append(t2)
        C = C2; X = np.array(X)
    C = np.array(C); p = r.permutation(len(X)); Y = np.empty_like(X); Y[p] = X
    return Y * size, p[C][r.permutation(len(C))]

def case_embed(r):
    kind = [k for k in KINDS if k[1] == {'Segment': 1, 'Triangle': 2, 'Quad': 2}.get(k[0], 3)][r.randint(10)]; f, dim, o = kind; ref = Ref(f, o)
    size = float(np.exp(r.uniform(-3, 3))); X, C = lattice(r, f, o, size); X = X + r.uniform(-2, 2, dim) * size * (r.rand() < .7)
    m = mesh_of(r, X); d = add(r, m, 'd', kind, indices_of(r, C)); verify_domain(r, d, kind, X, C)
    M.describe(f'{kind} elements={len(C)} size={size:g}'); M.see('embed:' + f)
    k = int(r.randint(1, 12)); own = r.randint(len(C), size=k); P = []
    for e in own:
        x = ref.random_local(r)
        if ref.margin(x) < .02: x = .8 * x + .2 * ref.nodes[:ref.ncorner].mean(0)
        P.append(ref.L(x) @ X[C[e]])
    P = np.array(P); out = sorted(r.choice(k, int(r.randint(0, k)), replace=False).tolist()) if k > 1 else []
    span = X.max(0) - X.min(0)
    for i in out: P[i] = X.max(0) + span * r.uniform(.5, 3, dim) if r.rand() < .5 else X.min(0) - span * r.uniform(.5, 3, dim)
    M.distinct('embed', X, P)
    P2 = P
    kk, a = layouts(r, P2); b = d.embed(a) if r.rand() < .5 else d.embed(embedded_points=a)
    M.same('embed/outside', sorted(b.outside_nodes), out); bp = b.barycentric_points; M.check('embed/count', len(bp) == k)
    for i, q in enumerate(bp):
        if i in out: M.check('embed/outside-index', q.element_index < 0, lambda: q.element_index); continue
        ok = M.check('embed/index', 0 <= q.element_index < len(C), lambda: q.element_index)
        if ok:
            y = np.atleast_1d(q.local_coordinates); M.check('embed/inside', ref.margin(y) > -1e-6, lambda: y.tolist()); M.close('embed/point', ref.L(y) @ X[C[q.element_index]], P[i], 1e-5 * np.abs(span).max() + 1e-9 * np.abs(P).max())
            M.check('embed/closest', q.element_index in [z.element_index for z in b.closest_elements(P[i])])
    w = int(r.randint(1, 5)); A = r.normal(size=(dim, w)); field = X @ A + r.normal(size=w); want = P @ A + (field[0] - X[0] @ A)
    # exact on every element: affine in space; a random field is compared through the local coordinates
    for fld, ex in ((field, want), (r.normal(size=(len(X), w)), None)):
        v = fld[:, 0] if w == 1 and r.rand() < .5 else fld
        g = np.asarray(b.interpolate(layouts(r, v)[1])).reshape(k, -1)
        M.check('interpolate/shape', g.shape == (k, w), lambda: g.shape)
        for i, q in enumerate(bp):
            if q.element_index < 0: continue
            M.close('interpolate/element', g[i], ref.L(np.atleast_1d(q.local_coordinates)) @ fld[C[q.element_index]], 1e-11 * (1 + np.abs(fld).max()))
            if ex is not None: M.close('interpolate/affine', g[i], ex[i], 1e-4 * (np.abs(A).max() * np.abs(span).max()) + 1e-9 * (1 + np.abs(fld).max()))
    M.see('interpolate:' + ('scalar' if w == 1 else 'vector'))
    M.raises('embed/refuse-dimension', lambda: d.embed(np.zeros((3, dim % 3 + 1)) if dim != 1 else np.zeros((3, 2))), 'points of another dimension')
    M.raises('interpolate/refuse-rows', lambda: b.interpolate(np.zeros((len(X) + 1, w))), 'field with another number of rows')
    e0 = add(r, m, 'empty', kind, np.zeros((0, len(ref.nodes)), int)); M.raises('embed/refuse-empty', lambda: e0.embed(P), 'empty domain')

def case_lifetime(r):
    """any subset of the objects of a mesh is dropped in any order; what is left is used"""
    kind = KINDS[r.randint(len(KINDS))]; f, dim, o = kind; ref = Ref(f, o); emb = dim == ref.c
    live = {}; rec = {}; nmesh = int(r.randint(1, 4)); ops = []
    for q in range(nmesh):
        if emb: X, C = lattice(r, f, o, 1.)
        else: n = int(r.randint(12, 40)); X = r.normal(size=(n, dim)); C = np.array([r.choice(n, len(ref.nodes), replace=False) if n >= len(ref.nodes) else r.randint(0, n, len(ref.nodes)) for _ in range(int(r.randint(1, 8)))])
        m = mesh_of(r, X); live[('mesh', q)] = m; rec[q] = (X, C)
        d = add(r, m, f'dom{q}', kind, indices_of(r, C))
        if r.rand() < .7: live[('domain', q)] = d
        if r.rand() < .4: live[('domain', q, 'by-index')] = m.domain(0)
        if r.rand() < .4: live[('domain', q, 'by-name')] = m.domain(f'dom{q}')
        if r.rand() < .4: live[('domains', q)] = m.domains()
        if r.rand() < .5: live[('indices', q)] = d.element_indices(0)
        if r.rand() < .3: live[('element', q)] = d.element(0)
        if r.rand() < .3: live[('position', q)] = m.position(0)
        if r.rand() < .3: live[('selection', q)] = m.positions([0, 1])
        if r.rand() < .3: live[('meshof', q)] = d.mesh()
        if emb and r.rand() < .7:
            P = np.array([ref.L(ref.nodes[:ref.ncorner].mean(0)) @ X[c] for c in C]); b = d.embed(P); live[('container', q)] = b
            if r.rand() < .4: live[('points', q)] = b.barycentric_points
        del m, d
        if emb: b = None
    keys = list(live); r.shuffle(keys); M.describe(f'{kind} drop order {keys}'[:800]); M.distinct('lifetime', str(keys), str(kind))
    keys = [tuple(x) for x in keys]
    while keys:
        drop = keys.pop(); live.pop((drop[0], int(drop[1])) + tuple(drop[2:])); M.see('dropped:' + drop[0])
        if r.rand() < .7: gc.collect()
        junk = [np.full(r.randint(4, 200), 170, np.uint8) for _ in range(20)]   # reuse what was freed
        for k, v in live.items():
            X, C = rec[k[1]]; what = k[0]; M.see('used-after:' + what)
            if what in ('mesh', 'meshof'): verify_mesh(r, v, X, 'survivor-mesh'); M.check('survivor-mesh/domains', [y[0] for y in v.domains()] == [f'dom{k[1]}'])
            elif what == 'domain':
                verify_domain(r, v, kind, X, C, 'survivor-domain'); M.check('survivor-domain/mesh', v.mesh().number_of_nodes() == len(X))
            elif what == 'domains':
                M.check('survivor-list/names', [y[0] for y in v] == [f'dom{k[1]}']); verify_domain(r, v[0][1], kind, X, C, 'survivor-list')
            elif what == 'indices': M.same('survivor-indices', v, C[0])
            elif what == 'element': M.same('survivor-element', np.asarray(v.nodes()).reshape(-1, dim), X[C[0]])
            elif what == 'position': M.same('survivor-position', np.atleast_1d(v), X[0])
            elif what == 'selection': M.same('survivor-selection', np.asarray(v).reshape(2, -1), X[:2])
            elif what == 'container':
                g = np.asarray(v.interpolate(X)).reshape(len(C), -1); M.close('survivor-container', g, np.array([ref.L(ref.nodes[:ref.ncorner].mean(0)) @ X[c] for c in C]), 1e-4); M.check('survivor-container/closest', len(v.closest_elements(X[C[0]][0])) > 0)
            elif what == 'points': M.check('survivor-points', all(0 <= p.element_index < len(C) and np.all(np.isfinite(p.local_coordinates)) for p in v))
        del junk

def case_grid(r):
    dim = int(r.randint(2, 4)); n = r.randint(1, 6, dim); dy = r.rand() < .5; H = r.randint(1, 9, dim) / 4. if dy else r.uniform(.1, 3, dim); da = r.rand() < .5; a = r.randint(-9, 9, dim) / 2. if da else r.normal(size=dim) * 5; S = H * n
    K = T.Grid2D if dim == 2 else T.Grid3D; kn, nn_ = layouts(r, n); g = K(layouts(r, a)[1], nn_, layouts(r, S)[1]) if r.rand() < .5 else K(anchor_position=a, n=n, size=S)
    M.describe(f'n={n.tolist()} H={H.tolist()} anchor={a.tolist()}'); M.distinct('grid', a, n, S); M.see(f'grid:{dim}D')
    tol = 1e-12 * (np.abs(a).max() + np.abs(S).max())
    M.same('grid/N', g.N(), n); M.close('grid/H', g.H(), S / n, tol); M.same('grid/size', g.size(), S); M.same('grid/anchor', g.anchor_position(), a)
    M.check('grid/counts', (g.number_of_cells(), g.number_of_nodes()) == (int(np.prod(n)), int(np.prod(n + 1))))
    nodes = np.array(list(itertools.product(*[range(k + 1) for k in n[::-1]])))[:, ::-1]; cells = np.array(list(itertools.product(*[range(k) for k in n[::-1]])))[:, ::-1]
    for i in {0, len(nodes) - 1, int(r.randint(len(nodes)))}:
        p = a + nodes[i] * (S / n); M.close('grid/node', g.node(i), p, tol, f'node {i}'); M.close('grid/node-at-coordinates', g.node(layouts(r, nodes[i])[1]), p, tol, f'node {nodes[i].tolist()}')
        M.check('grid/node_index_at', g.node_index_at(layouts(r, nodes[i])[1]) == i); M.same('grid/node_coordinates_at', g.node_coordinates_at(i), nodes[i])
    corner = np.array([[0, 0], [1, 0], [1, 1], [0, 1]] if dim == 2 else Ref.N[('Hexahedron', 1)]); corner = (corner > 0).astype(int)
    nid = lambda c: int(sum(int(c[k]) * int(np.prod(n[:k] + 1)) for k in range(dim)))
    for i in {0, len(cells) - 1, int(r.randint(len(cells)))}:
        c = cells[i]; M.check('grid/cell_index_at', g.cell_index_at(layouts(r, c)[1]) == i); M.same('grid/cell_coordinates_at', g.cell_coordinates_at(i), c)
        ids = [nid(c + k) for k in corner]; M.same('grid/node_indices_of', g.node_indices_of(i), ids); M.same('grid/node_indices_of-coordinates', g.node_indices_of(layouts(r, c)[1]), ids)
        if dim == 3:
            for e in (g.cell_at(i), g.cell_at(layouts(r, c)[1])): M.close('grid/cell_at', e.nodes(), a + (c + corner) * (S / n), tol)
        p = a + (c + r.uniform(.1, .9, dim)) * (S / n)
        lp = layouts(r, p)[1]
        M.check('grid/cell_index_containing', g.cell_index_containing(lp) == i); M.same('grid/cell_coordinates_at-position', g.cell_coordinates_at(lp), c); M.same('grid/cell_coordinates_at-position-boundary', g.cell_coordinates_at(lp, True), c)
        M.same('grid/cells_around', sorted(g.cells_around(lp)), [i]); M.check('grid/contains', g.contains(lp) and not g.contains(p + 2 * S) and not g.contains(p - 2 * S))
        k = int(r.randint(dim)); q = np.array(p); out = r.uniform(.02, .3); q[k] = a[k] - out * S[k] if r.rand() < .5 else a[k] + (1 + out) * S[k]; M.check('grid/contains-epsilon', g.contains(q, out * 1.01) and g.contains(q, epsilon=out * 2) and not g.contains(q, out * .99) and not g.contains(q), lambda: f'{q.tolist()} is outside by {out:g}')
        if dy and da: q[k] = a[k] + S[k] * int(r.randint(2)); M.check('grid/contains-border', g.contains(q) and g.contains(q, 0))
        if not (dy and da): continue   # a corner computed in floating point may be off the cell planes by more than the code's tolerance
        up = r.rand(dim) < .6; w = np.where(up, n - 1, c); q = np.where(up, a + S, a + (c + .5) * (S / n)); wi = int(sum(int(w[k]) * int(np.prod(n[:k])) for k in range(dim))); M.see('grid:upper-border' if up.any() else 'grid:no-border')
        M.check('grid/upper-border', g.cell_index_containing(q) == wi and g.cell_index_containing(q, True) == wi and g.cell_index_containing(q, test_for_boundary=True) == wi, lambda: f'{q.tolist()}: cell {g.cell_index_containing(q)} instead of {wi}')
        M.same('grid/upper-border-coordinates', g.cell_coordinates_at(q, True), w, f'{q.tolist()}'); M.same('grid/upper-border-raw', g.cell_coordinates_at(q), np.where(up, n, c), f'{q.tolist()}')
        q = a + c * (S / n); around = [k for k in range(len(cells)) if np.all(np.abs(2 * (c - cells[k]) - 1) <= 1)]; M.same('grid/cells_around-corner', sorted(g.cells_around(q)), around)
    M.same('grid/cells_around-outside', list(g.cells_around(a - S)), [])
    E = {tuple(sorted(g.edge(i))) for i in range(g.number_of_edges())}; W = {(nid(c), nid(c + u)) for c in nodes for u in np.eye(dim, dtype=int) if np.all(c + u <= n)}
    M.check('grid/edges', E == W and g.number_of_edges() == len(W), lambda: f'missing {list(W - E)[:5]} spurious {list(E - W)[:5]} announced {g.number_of_edges()} of {len(W)}')
    if dim == 3:
        F = [tuple(sorted(g.face(i))) for i in range(g.number_of_faces())]; W = {tuple(sorted(nid(c + x * u + y * v) for x in (0, 1) for y in (0, 1))) for c in nodes for u, v in itertools.combinations(np.eye(3, dtype=int), 2) if np.all(c + u + v <= n)}
        M.check('grid/faces', set(F) == W and len(F) == len(W), lambda: f'missing {list(W - set(F))[:5]} announced {len(F)} of {len(W)}')

def case_hash(r):
    f, o = ('Tetrahedron', 'Hexahedron', 'RectangularHexahedron')[r.randint(3)], int(r.randint(1, 3)); fam = 'Hexahedron' if f == 'RectangularHexahedron' else f; ref = Ref(fam, o); size = float(np.exp(r.uniform(-2, 2)))
    els, cell = [], size * float(np.exp(r.uniform(-1, 1))); proto = getattr(G, f)(order=ORD[o])
    h = T.HashGrid(type(proto), cell) if r.rand() < .5 else T.HashGrid(element_type=type(proto), cell_size=cell, number_of_elements=5)
    cls = getattr(T, f'{f}{len(ref.nodes)}HashGrid'); M.check('hash/class-name', type(h) is cls, lambda: f'the hash grid of a {len(ref.nodes)} nodes {f} is a {type(h).__name__}')
    if r.rand() < .4 and type(h) is cls: h = cls(cell) if r.rand() < .5 else cls(cell_size=cell, number_of_elements=3); M.see('hash:by-class')
    for i in range(int(r.randint(1, 8))):
        x0 = r.uniform(-4, 4, 3) * size
        if f == 'RectangularHexahedron': e = getattr(G, f)(order=ORD[o], center=x0, size=r.uniform(.2, 1.5, 3) * size, rotation=rotation(r)); X = np.asarray(e.nodes())
        else: X = x0 + (ref.nodes * r.uniform(.2, 1, 3) * size) @ rotation(r).T; e = getattr(G, f)(X)
        i2 = int(r.randint(1000)) * 10 + i; h.add(e, i2); els.append((i2, X))
    M.describe(f'{f}{o} elements={len(els)} cell={cell:g} size={size:g}'); M.distinct('hash', *[x[1] for x in els]); M.see('hash:' + f)
    for i, X in els:
        for q in range(3):
            p = ref.L(ref.random_local(r)) @ X; got = h.get(layouts(r, p)[1]); M.check('hash/contains', i in got, lambda: f'{p.tolist()} in element {i}, got {got}')
            M.check('hash/near', all(np.all(p >= Y.min(0) - 2.01 * cell) and np.all(p <= Y.max(0) + 2.01 * cell) for j, Y in els if j in got) and set(got) <= {j for j, _ in els}, lambda: got)
    M.check('hash/far', len(h.get(np.full(3, 1000.) * size)) == 0)

def case_io(r):
    p = os.path.join(os.environ['VERIF_SCRATCH'], f'mesh_{M.group}.vtk'); n = int(r.randint(3, 20)); dim = int(r.randint(1, 4)); X = np.zeros((n, 3)); X[:, :dim] = np.round(r.normal(size=(n, dim)) * 8) / 8; X[0, :dim] = 0; X[1, :dim] = 1
    ne = int(r.randint(1, 6)); C = r.randint(0, n, (ne, 2))
    with open(p, 'w') as o:
        o.write('# vtk DataFile Version 3.0\nx\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS %d double\n' % n + ''.join('%.17g %.17g %.17g\n' % tuple(x) for x in X) + 'CELLS %d %d\n' % (ne, 3 * ne) + ''.join('2 %d %d\n' % tuple(c) for c in C) + 'CELL_TYPES %d\n' % ne + '3\n' * ne)
    M.describe(f'points={n} cells={ne} dim={dim}'); M.distinct('io', X, C); M.see('io')
    rd = T.IO.VTKReader(p, dim) if r.rand() < .5 else T.IO.VTKReader(filepath=p, dimension=dim); s = str(rd)
    M.check('io/str', f'{n} points' in s and f'{ne} cells' in s, lambda: s)
    os.unlink(p); M.check('io/str-after', str(rd) == s)
    M.raises('io/missing', lambda: T.IO.VTKReader(p, dim)); M.raises('io/dimension', lambda: T.IO.VTKReader(p, 4))

def case_leak(r):
    """conservation: after the objects of a history are dropped the heap is back where it was, refused calls included"""
    if M.heap is None: return
    kind = KINDS[r.randint(len(KINDS))]; f, dim, o = kind; nn = len(Ref(f, o).nodes); X = r.normal(size=(200, dim)); C = r.randint(0, 200, (500, nn)).astype(np.uint32); p = prototype(*kind); which = ['refused', 'kept', 'whole'][r.randint(3)]
    M.describe(f'{kind} {which}'); M.see('leak:' + which)
    keep = T.Mesh(X); keep.add_domain('a', p, C)
    def once():
        if which == 'refused':
            try: keep.add_domain('a', p, C)
            except Exception: return
            raise AssertionError('accepted')
        elif which == 'kept':
            d = keep.domain(0); d.element_indices(3); d.element(1); keep.domains(); keep.positions([0, 1, 2]); d.mesh()
        else:
            m = T.Mesh(X); d = m.add_domain('b', p, C); d2 = m.domain('b'); i = d.element_indices(0); del m, d; str(d2); del d2
    for _ in range(3): once()
    gc.collect(); a = M.heap()
    for _ in range(20): once()
    gc.collect(); b = M.heap(); M.check('heap-conserved', b - a < 20 * C.nbytes // 4, lambda: f'{(b - a) / 20:.0f} bytes per round stay allocated ({C.nbytes} bytes of indices per domain)')

CASES = [('registry', case_registry, 60, 2000), ('embed', case_embed, 60, 2000), ('lifetime', case_lifetime, 120, 4000), ('grid', case_grid, 30, 800), ('hash', case_hash, 40, 1500), ('io', case_io, 10, 300), ('leak', case_leak, 6, 100)]
for name, fn, q, t in CASES:
    for i in range(M.n(q, t)):
        r = M.begin(f'{name}{M.group}', i)
        if r is None: continue
        M.guard(lambda: fn(r))
        gc.collect() if name == 'lifetime' else None
M.finish()
