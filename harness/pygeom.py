import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymon import *
M = Mon()
package(next(a.split('=', 1)[1] for a in sys.argv if a.startswith('--scratch=')))
import Caribou
from Caribou import Geometry as G
DIM = {1: Caribou._1D, 2: Caribou._2D, 3: Caribou._3D}; ORD = {1: Caribou.Linear, 2: Caribou.Quadratic}
TYPES = [('Segment', d, o) for d in (1, 2, 3) for o in (1, 2)] + [('Triangle', d, o) for d in (2, 3) for o in (1, 2)] + [('Quad', d, o) for d in (2, 3) for o in (1, 2)] + \
        [('Tetrahedron', 3, o) for o in (1, 2)] + [('Hexahedron', 3, o) for o in (1, 2)] + [('RectangularHexahedron', 3, o) for o in (1, 2)]

def geometry(r, ref, dim, rect):
    """node positions; kind"""
    c = ref.c; size = float(np.exp(r.uniform(np.log(.05), np.log(50)))); x0 = r.uniform(-3, 3, dim) * size * (r.rand() < .7)
    if rect:
        H = r.uniform(.3, 2, 3) * size; R = rotation(r) if r.rand() < .7 else np.eye(3)
        return 'rectangular', x0 + (ref.nodes * H / 2) @ R.T, (x0, H, R)
    k = ['dyadic', 'affine', 'distorted'][r.randint(3)]
    if k == 'dyadic':
        A = np.zeros((dim, c)); A[np.arange(c), np.arange(c)] = r.randint(1, 4, c) * 2.; return k, ref.nodes @ A.T + r.randint(-4, 5, dim), None
    A = r.normal(size=(dim, dim))
    while abs(np.linalg.det(A)) < .25 * np.linalg.norm(A) ** dim / dim ** (dim / 2) * .3: A = r.normal(size=(dim, dim))
    A = A[:, :c] * size
    X = ref.nodes @ A.T
    if k == 'distorted':
        smin = np.linalg.svd(A, compute_uv=False)[-1]
        X = X + r.uniform(-1, 1, X.shape) * smin * .06
    return k, X + x0, None

def build(r, fam, dim, o, X, prm):
    """a random one of the documented ways to construct that element"""
    ref = Ref('Hexahedron' if fam == 'RectangularHexahedron' else fam, o); F = getattr(G, fam); nn = len(X)
    ways = ['nodes', 'n0..']
    if prm is not None: ways += ['center-size-rotation']
    straight = o == 2 and fam != 'Segment'
    if straight:
        lin = Ref(ref.fam, 1); Xs = np.array([lin.L(x) for x in ref.nodes]) @ X[:ref.ncorner]
        if np.allclose(Xs, X, rtol=0, atol=1e-13 * np.abs(X).max()): ways += ['corner-nodes', 'corner-n0..']
    w = ways[r.randint(len(ways))]; lay = ''
    if w == 'center-size-rotation':
        x0, H, R = prm; M.see('construct:' + w)
        if np.allclose(R, np.eye(3)):
            if r.rand() < .5: return w, F(order=ORD[o], center=layouts(r, x0)[1], size=layouts(r, H)[1])
        return w, F(order=ORD[o], center=layouts(r, x0)[1], size=layouts(r, H)[1], rotation=layouts(r, R)[1])
    Y = X[:ref.ncorner] if w.startswith('corner') else X
    kw = {'order': ORD[2]} if w.startswith('corner') else ({'order': ORD[1]} if o == 1 and fam != 'Segment' and r.rand() < .3 else {})
    if w.endswith('nodes'):
        Z = Y[:, 0] if dim == 1 and r.rand() < .5 else Y
        lay, Z = layouts(r, Z); M.see('layout:' + lay)
        e = F(Z, **kw) if r.rand() < .5 else F(nodes=Z, **kw)
    else:
        ns = [float(y[0]) for y in Y] if dim == 1 else [layouts(r, y)[1] for y in Y]
        e = F(*ns, **kw) if r.rand() < .7 else F(**{f'n{i}': v for i, v in enumerate(ns)}, **kw)
    M.see('construct:' + w)
    return w + '/' + lay, e

def default(fam, dim, o, r):
    F = getattr(G, fam); kw = {}
    d0 = {'Segment': 1, 'Triangle': 2, 'Quad': 2}.get(fam)
    if d0 and (dim != d0 or r.rand() < .5): kw['dimension'] = DIM[dim]
    if o != 1 or r.rand() < .5: kw['order'] = ORD[o]
    return F(**kw)

def examine(r, e, fam, dim, o, X, tag):
    ref = Ref('Hexahedron' if fam == 'RectangularHexahedron' else fam, o); nn = len(X); c = ref.c
    ext = np.abs(X).max() + 1e-30; size = np.linalg.norm(X.max(0) - X.min(0)); tol = 4e-12 * ext + 1e-12 * size
    want = {'Segment': f'Segment{dim}D', 'Triangle': f'Triangle{dim}D', 'Quad': f'Quad{dim}D'}.get(fam, fam) + {1: 'Linear', 2: 'Quadratic'}[o]
    M.check(f'type/{tag}', type(e).__name__ == want, lambda: f'{type(e).__name__} instead of {want}')
    M.check(f'number_of_nodes/{tag}', e.number_of_nodes() == nn, lambda: e.number_of_nodes())
    M.check(f'number_of_boundary_elements/{tag}', e.number_of_boundary_elements() == ref.boundaries, lambda: e.number_of_boundary_elements())
    M.close(f'nodes/{tag}', np.asarray(e.nodes()).reshape(nn, -1), X, tol)
    i = r.randint(nn); M.close(f'node/{tag}', np.atleast_1d(e.node(i)), X[i], tol)
    M.close(f'center/{tag}', np.atleast_1d(e.center()), (ref.L(np.full(c, 1 / (c + 1.)) if ref.simplex else np.zeros(c)) @ X) if True else 0, tol)
    gs = e.gauss_nodes(); M.check(f'gauss_count/{tag}', len(gs) == e.number_of_gauss_nodes(), lambda: (len(gs), e.number_of_gauss_nodes()))
    M.close(f'gauss_weights/{tag}', sum(g.weight for g in gs), ref.measure, 1e-12)
    j = r.randint(len(gs)); g = e.gauss_node(j); M.same(f'gauss_node/{tag}', np.append(np.atleast_1d(g.position), g.weight), np.append(np.atleast_1d(gs[j].position), gs[j].weight))
    M.check(f'gauss_inside/{tag}', all(ref.margin(np.atleast_1d(g.position)) > 0 and g.weight > 0 for g in gs))
    # measure of the element by its own rule against a fine independent rule is P05; here: the first moment of the reference domain
    M.close(f'gauss_centroid/{tag}', sum(g.weight * np.atleast_1d(g.position) for g in gs) / ref.measure, np.full(c, 1 / (c + 1.)) if ref.simplex else np.zeros(c), 1e-12)
    for q in range(3):
        x = ref.dyadic_local(r) if r.rand() < .3 else ref.random_local(r)
        if q == 2 and r.rand() < .5: x = x + r.uniform(-2, 2, c)
        lx = layouts(r, x); M.see('layout:' + lx[0])
        L, dL = ref.L(x), ref.dL(x); amp = 1 + np.abs(x).max() ** 3
        M.close(f'L/{tag}', e.L(lx[1]), L, 2e-13 * amp)
        M.close(f'dL/{tag}', np.asarray(e.dL(lx[1])).reshape(nn, -1), dL, 4e-13 * amp)
        M.close(f'world/{tag}', np.atleast_1d(e.world_coordinates(lx[1])), L @ X, tol * amp * 10)
        M.close(f'jacobian/{tag}', np.asarray(e.jacobian(lx[1])).reshape(dim, c), (X.T @ dL), tol * amp * 30)
        m = ref.margin(x)
        if abs(m) > 1e-9: M.check(f'contains/{tag}', e.contains_local(lx[1]) == (m > 0), lambda: f'{x.tolist()} margin {m}')
        eps = float(10. ** r.uniform(-6, -1))
        if abs(m + eps) > 1e-9: M.check(f'contains_eps/{tag}', e.contains_local(lx[1], eps) == (m > -eps), lambda: f'{x.tolist()} margin {m} eps {eps}')
        if m > 0:
            p = L @ X; y = np.atleast_1d(e.local_coordinates(layouts(r, p)[1]))
            M.close(f'inverse/{tag}', ref.L(y) @ X, p, 2e-5 * size + tol)
            M.close(f'inverse_local/{tag}', y, x, 5e-4 + tol / size * 100)
        M.distinct(tag, X, x)
    if fam == 'Triangle' and dim == 3 and hasattr(e, 'normal'):
        n = np.cross(X[1] - X[0], X[2] - X[0]); n /= np.linalg.norm(n); M.close(f'normal/{tag}', e.normal(), n, 1e-7)
    s = str(e); M.check(f'str/{tag}', fam in s and len(s) > 10, lambda: s)
    if fam != 'RectangularHexahedron':
        import re
        nums = [float(v) for v in re.findall(r'-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?', s.split(':', 1)[1])]
        M.close(f'str_nodes/{tag}', nums, np.asarray(X).ravel(), 1e-9 * ext)

def malformed(r, fam, dim, o, e):
    F = getattr(G, fam); ref = Ref('Hexahedron' if fam == 'RectangularHexahedron' else fam, o); c = ref.c
    bad = [np.zeros((17, 5)), np.zeros((0, 3)), np.zeros((2, 2, 2)), 'nodes', None, {}, np.array([['a', 'b']]), np.zeros((9, 3)), [[1, 2], [3]], object()]
    b = bad[r.randint(len(bad))]; M.raises('refuse/constructor', lambda: F(b), f'{fam}({b!r})')
    name = ('L', 'dL', 'world_coordinates', 'jacobian', 'contains_local', 'local_coordinates')[r.randint(6)]
    b = [np.zeros(c + 4), np.zeros((c + 3, 2)), 'x', None, np.zeros((2, 2, 2)), np.zeros(0), [[0, 1], [0]]][r.randint(7)]
    M.raises('refuse/method', lambda: getattr(e, name)(b), f'{fam}.{name}({b!r})')
    M.raises('refuse/arguments', lambda: getattr(e, name)(), f'{fam}.{name}()')
    M.see('malformed')

shard = int(M.group or 0); sub = [t for i, t in enumerate(TYPES) if i % 4 == shard]
for fam, dim, o in sub:
    tag = f'{fam}{dim}D{o}'; ref = Ref('Hexahedron' if fam == 'RectangularHexahedron' else fam, o)
    for i in range(M.n(60, 1200)):
        r = M.begin(tag, i)
        if r is None: continue
        def body():
            if i % 12 == 0:
                e = default(fam, dim, o, r); X = np.zeros((len(ref.nodes), dim)); X[:, :ref.c] = ref.nodes; M.describe('default'); M.see('construct:default')
            else:
                k, X, prm = geometry(r, ref, dim, fam == 'RectangularHexahedron')
                w, e = build(r, fam, dim, o, X, prm); M.describe(f'{k} {w} X={np.round(X, 6).tolist()}'); M.see('geometry:' + k)
            examine(r, e, fam, dim, o, X, tag)
            malformed(r, fam, dim, o, e)
        M.guard(body)
M.finish()
