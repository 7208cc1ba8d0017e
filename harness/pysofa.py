"""P35: the Python face of the SofaCaribou components, compared with the components themselves."""
import os, sys, importlib.machinery, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymon import *
M = Mon(); scratch = next(a.split('=', 1)[1] for a in sys.argv if a.startswith('--scratch=')); package(scratch)
def load(name, pkg=None):
    full = f'{pkg}.{name}' if pkg else name; so = f'{scratch}/pySofaCaribou.so'; l = importlib.machinery.ExtensionFileLoader(full, so); m = importlib.util.module_from_spec(importlib.util.spec_from_loader(full, l)); l.exec_module(m); sys.modules[full] = m; return m
Sofa = load('Sofa'); Sofa.Core = Sofa; sys.modules['Sofa.Core'] = Sofa
# the package as it is installed: its __init__.py beside the extension module
site = os.path.join(os.environ['VERIF_SCRATCH'], 'site', 'SofaCaribou'); os.makedirs(site, exist_ok=True); shutil.copy(f"{os.environ['VERIF_REPO']}/src/SofaCaribou/Python/__init__.py", f'{site}/__init__.py')
if not os.path.exists(f'{site}/SofaCaribou.so'): os.symlink(f'{scratch}/pySofaCaribou.so', f'{site}/SofaCaribou.so')
import SofaCaribou
host = load('host')
def dense(a): return np.asarray(a.todense()) if hasattr(a, 'todense') else np.asarray(a)
def bound(r, s, name):
    """the Python object of a scene object: of the bound class, always the same one, and sharing the ownership"""
    n0 = s.refs(); o = s.get(); M.check('object/class', type(o).__name__ == name, lambda: f'a {name} is a {type(o).__name__} in Python'); M.check('object/identity', s.get() is o); M.check('object/base', isinstance(o, Sofa.BaseObject)); M.check('object/shared-ownership', s.refs() == n0 + 1, lambda: f'{s.refs()} references instead of {n0 + 1}'); return o
def lattice(r, f):
    n = r.randint(1, 3, 3); h = np.exp(r.uniform(-2, 2)); P = np.array([[i, j, k] for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)], float); idx = lambda i, j, k: i + (n[0] + 1) * (j + (n[1] + 1) * k); C = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                v = [idx(i, j, k), idx(i + 1, j, k), idx(i + 1, j + 1, k), idx(i, j + 1, k), idx(i, j, k + 1), idx(i + 1, j, k + 1), idx(i + 1, j + 1, k + 1), idx(i, j + 1, k + 1)]
                if f == 'Hexahedron': C.append(v)
                else: C += [[v[a] for a in t] for t in ((0, 1, 3, 4), (1, 2, 3, 6), (1, 3, 4, 6), (1, 4, 5, 6), (3, 4, 6, 7))]
    C = np.array(C); C = C[r.permutation(len(C))][:max(1, len(C) - int(r.randint(0, 2)))]; X = h * (P + r.uniform(-.08, .08, P.shape)); p = r.permutation(len(X)); q = np.empty_like(p); q[p] = np.arange(len(p)); return np.ascontiguousarray(X[p]), q[C].astype(np.int32), h
def deform(r, X, h, amount=.15):
    A = rotation(r) @ (np.eye(3) + r.uniform(-amount, amount, (3, 3))); return np.ascontiguousarray(X @ A.T + h * r.uniform(-1, 1, 3) + h * r.uniform(-.02, .02, X.shape))

def case_hyper(r):
    f = ['Hexahedron', 'Tetrahedron'][r.randint(2)]; X, C, h = lattice(r, f); law = int(r.randint(2)); E, nu = float(np.exp(r.uniform(0, 12))), float(r.uniform(0, .45)); x = deform(r, X, h) if r.rand() < .5 else X
    mk = lambda y: host.hyper(0 if f == 'Hexahedron' else 1, X, C, y, law, E, nu)
    s = mk(x); o = bound(r, s, f'HyperelasticForcefield<{f}>'); M.describe(f'{f} n={len(X)} law={law} E={E:.3g} nu={nu:.3g}'); M.distinct('hyper', X, x); n = 3 * len(X)
    def verify(tag, want):
        K = o.K(); d = dense(K); scale = np.abs(want).max(); M.check(f'hyper/{tag}-K-shape', d.shape == (n, n), lambda: d.shape)
        if d.shape == (n, n): M.close(f'hyper/{tag}-K', d, want, 1e-12 * scale)
        return K, d
    K0, d0 = verify('initial', s.truth()['K'])
    for step in range(int(r.randint(1, 5))):
        op = int(r.randint(4)); M.see(f'hyper:op{op}')
        if op == 0:      # assembled from Python at other positions
            y = deform(r, X, h); k, a = layouts(r, y, ['C', 'F', 'strided', 'negative-strides', 'readonly', 'offset'][r.randint(6)]); M.see('assemble:' + k)
            ref = mk(y).truth()['K']; o.assemble_stiffness(a) if r.rand() < .5 else o.assemble_stiffness(x=a); verify('assembled', ref); M.same('hyper/argument-unchanged', a, y)
        elif op == 1:    # in single precision
            y = deform(r, X, h).astype(np.float32); ref = mk(y.astype(float)).truth()['K']; o.assemble_stiffness(y); d = dense(o.K()); M.close('hyper/float-K', d, ref, 3e-5 * np.abs(ref).max()); M.see('assemble:float32')
        elif op == 2:    # the components move on: Python sees what they assembled
            y = deform(r, X, h); s.positions(y); ref = s.truth()['K']; verify('after-force', ref); M.close('hyper/after-force-value', ref, mk(y).truth()['K'], 1e-10 * np.abs(ref).max())
        else:
            d = dense(o.K()); w = np.sort(np.linalg.eigvalsh(d)); ev = np.asarray(o.eigenvalues()); M.check('hyper/eigenvalues-shape', ev.shape == (n,), lambda: ev.shape)
            if ev.shape == (n,): M.close('hyper/eigenvalues', np.sort(ev), w, 1e-9 * np.abs(w).max()); M.check('hyper/cond', o.cond() == ev.min() / ev.max(), lambda: (o.cond(), ev.min() / ev.max()))
        M.same('hyper/K-is-a-snapshot', dense(K0), d0)
    bad = [X.tolist(), X[:, :2], np.zeros((4, 4)), 'abc', None, X[:-1], X[:1], np.zeros((0, 3)), X.astype(int)][r.randint(9)]
    before = dense(o.K()); M.raises('hyper/malformed', lambda: o.assemble_stiffness(bad), f'assemble_stiffness({type(bad).__name__} {getattr(bad, "shape", "")})'); M.same('hyper/malformed-changes-nothing', dense(o.K()), before); M.see('malformed')
    after = np.concatenate([X, X[:1]]); del s; gc.collect(); M.same('hyper/usable-after-scene', dense(o.K()), before); M.see('used-after:scene')

def case_elastic(r):
    X, C, h = lattice(r, 'Hexahedron'); E, nu, cor, one = float(np.exp(r.uniform(0, 12))), float(r.uniform(0, .45)), bool(r.randint(2)), bool(r.randint(2)); x = deform(r, X, h) if r.rand() < .3 else X; s = host.elastic(X, C, x, E, nu, cor, one); o = bound(r, s, 'HexahedronElasticForce')
    M.describe(f'n={len(X)} elements={len(C)} E={E:.3g} nu={nu:.3g} corotated={cor} one={one}'); M.distinct('elastic', X, x); kept = []
    for step in range(int(r.randint(1, 4))):
        if step: s.positions(deform(r, X, h)); M.see('elastic:moved')
        want = s.truth() if r.rand() < .5 else None; K = dense(o.K()); want = want or s.truth(); M.same('elastic/K', K, want['K'])
        if len(X) <= 27: M.same('elastic/eigenvalues', o.eigenvalues(), want['eigenvalues']); M.check('elastic/cond', o.cond() == want['cond'])
        for e in {0, len(C) - 1, int(r.randint(len(C)))}:
            t = s.item(e); g = o.gauss_nodes_of(e) if r.rand() < .5 else o.gauss_nodes_of(hexahedron_id=e); M.check('elastic/gauss-count', len(g) == len(t['gauss']) == (1 if one else 8), lambda: len(g))
            for a, b in zip(g, t['gauss']):
                M.check('elastic/gauss-scalars', (a.weight, a.jacobian_determinant) == (b['weight'], b['jacobian_determinant']), lambda: (a.weight, a.jacobian_determinant, b)); M.same('elastic/gauss-dN', a.dN_dx, b['dN_dx']); M.same('elastic/gauss-F', a.F, b['F'])
            k = o.stiffness_matrix_of(e) if r.rand() < .5 else o.stiffness_matrix_of(hexahedron_id=e); M.same('elastic/stiffness', k, t['stiffness']); kept.append((k, g, t))
            try: k[0, 0] = 1e300; M.check('elastic/stiffness-protected', s.item(e)['stiffness'][0, 0] != 1e300, 'the stiffness matrix of an element was overwritten from Python')
            except ValueError: pass
            # volume and the local stiffness from what Python sees
            dN = np.array([a.dN_dx for a in g]); w = np.array([a.weight * a.jacobian_determinant for a in g]); lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu)); k2 = np.zeros((24, 24))
            for wi, d in zip(w, dN): k2 += wi * (lam * np.einsum('ia,jb->iajb', d, d) + mu * np.einsum('ib,ja->iajb', d, d) + mu * np.einsum('ic,jc,ab->iajb', d, d, np.eye(3))).reshape(24, 24)
            M.close('elastic/stiffness-from-gauss-nodes', np.triu(k), np.triu(k2), 1e-11 * np.abs(k2).max())   # the upper part is what is stored
    for i in (len(C), len(C) + 1 + int(r.randint(1000)), 2 ** 40): M.raises('elastic/out-of-range', lambda: o.gauss_nodes_of(i), f'gauss_nodes_of({i}) of {len(C)} elements'); M.raises('elastic/out-of-range', lambda: o.stiffness_matrix_of(i), f'stiffness_matrix_of({i}) of {len(C)} elements')
    M.raises('elastic/negative', lambda: o.gauss_nodes_of(-1)); M.raises('elastic/negative', lambda: o.stiffness_matrix_of(-1)); M.see('malformed')
    del o, s; gc.collect(); junk = [bytes(4600) for _ in range(64)]
    for k, g, t in kept: M.same('elastic/stiffness-after-drop', k, t['stiffness']); M.check('elastic/gauss-after-drop', [a.weight for a in g] == [b['weight'] for b in t['gauss']]); M.see('used-after:scene')

def spd(r, n, s):
    A = r.normal(size=(n, n)) * (r.rand(n, n) < .4); A = A + A.T; return s * (A + (np.abs(A).sum() / n + 1) * np.eye(n))
def case_solver(r):
    n = 3 * int(r.randint(1, 6)); m_, b_, k_ = (spd(r, n, np.exp(r.uniform(-3, 3))) for _ in range(3)); s = host.cg(m_, b_, k_, True); o = bound(r, s, 'ConjugateGradientSolver'); M.describe(f'n={n}'); M.distinct('solver', m_, k_)
    M.check('solver/nothing-assembled', o.A() is None, 'a matrix before any assembly'); prev = None
    for step in range(int(r.randint(1, 6))):
        m, b, k = (float(np.exp(r.uniform(-3, 3)) * r.choice([-1, 0, 1])) for _ in range(3)); op = int(r.randint(4)); M.see(f'assemble:op{op}')
        if op == 0: o.assemble(); m = b = k = 1.
        elif op == 1: o.assemble(m, b, k)
        elif op == 2: o.assemble(k=k, m=m, b=b)
        else: o.assemble(k=k); m = b = 1.
        want = m * m_ + b * b_ - k * k_; A = o.A(); M.check('solver/A-exists', A is not None)
        if A is not None: d = dense(A); M.check('solver/A-shape', d.shape == (n, n)); M.close('solver/A', d, want, 1e-12 * (np.abs(m * m_).max() + np.abs(b * b_).max() + np.abs(k * k_).max())); M.same('solver/A-of-component', d, s.truth()['A'])
        if prev: M.same('solver/A-is-a-snapshot', dense(prev[0]), prev[1])
        prev = (A, dense(A))
    M.raises('solver/malformed', lambda: o.assemble('a')); M.raises('solver/malformed', lambda: o.assemble(None, 1, 1)); M.see('malformed')
    del o, s; gc.collect(); junk = [bytes(8 * n * k) for k in range(1, 40)]; M.same('solver/A-after-drop', dense(prev[0]), prev[1]); M.see('used-after:scene')

def case_ode(r, kind):
    n = 3 * int(r.randint(1, 5)); K = spd(r, n, np.exp(r.uniform(-2, 2))); c = np.abs(K).max() * r.uniform(0, .3, n) * (r.rand() < .6); s = getattr(host, kind)(K, c, np.zeros(n), np.zeros((n // 3, 3)), int(r.randint(1, 9)), float(10 ** r.uniform(-9, -3)), float(10 ** r.uniform(-9, -3)))
    o = bound(r, s, 'StaticODESolver' if kind == 'static' else 'LegacyStaticODESolver'); M.describe(f'{kind} n={n}'); M.distinct(kind, K, c); x = np.zeros(n); held = None
    seqs = ['squared_residuals', 'iteration_times'] + (['iterative_linear_solver_squared_rhs_norms'] if kind == 'legacy' else [])
    M.check(f'{kind}/nothing-before', all(len(getattr(o, q)) == 0 for q in seqs))
    for step in range(int(r.randint(1, 5))):
        P = np.abs(K).max() * r.uniform(-1, 1, (n // 3, 3)); s.positions(P); s.step(.01); t = s.truth()
        for q in seqs: M.same(f'{kind}/{q}', list(getattr(o, q)), t[q])
        M.check(f'{kind}/squared_initial_residual', o.squared_initial_residual == t['squared_initial_residual'])
        if kind == 'legacy':
            a, b = o.iterative_linear_solver_squared_residuals, t['iterative_linear_solver_squared_residuals']; M.check('legacy/linear-count', len(a) == len(b), lambda: (len(a), len(b)))
            for u, v in zip(a, b): M.same('legacy/iterative_linear_solver_squared_residuals', list(u), v); M.see('linear-iterations' if len(v) else 'no-linear-iteration')
        if step == 0: w = float((P ** 2).sum()); M.close(f'{kind}/initial-residual-value', o.squared_initial_residual, w, 1e-10 * w)   # from rest, the residual is the load
        M.check(f'{kind}/times', all(isinstance(v, int) and v >= 0 for v in o.iteration_times)); M.see('iterations:several' if len(o.squared_residuals) > 1 else 'iterations:one')
        held = o.squared_residuals; want = list(t['squared_residuals'])
        for q in seqs[:1] + ['squared_initial_residual']:
            try: setattr(o, q, 1.); M.check(f'{kind}/read-only', False, f'{q} can be assigned')
            except AttributeError: M.check(f'{kind}/read-only', True)
    del o, s; gc.collect(); junk = [bytes(8 * k) for k in range(1, 60)]
    M.same(f'{kind}/residuals-after-drop', list(held), want); M.see('used-after:scene')

KINDS = [(f, d, o) for f in ('Triangle', 'Quad') for d in (2, 3) for o in (1, 2)] + [(f, 3, o) for f in ('Tetrahedron', 'Hexahedron') for o in (1, 2)]
def case_topology(r):
    f, d, o = KINDS[r.randint(len(KINDS))]; ref = Ref(f, o); n = int(r.randint(len(ref.nodes), 40)); X = r.normal(size=(n, d)) * np.exp(r.uniform(-2, 3)); C = r.randint(0, n, (int(r.randint(0, 8)), len(ref.nodes))).astype(np.int32); s = host.topology(f, d, o, X, C); M.see('name:' + s.name()); t = bound(r, s, s.name()); M.describe(f'{f} {d}D order {o} n={n} elements={len(C)}'); M.distinct('topology', X, C); M.see(f'topology:{f}')
    dom = t.domain()
    if len(C) == 0: M.check('topology/no-domain', dom is None, lambda: dom); M.see('topology:empty'); return
    def verify(tag):
        M.check(f'topology/{tag}counts', (dom.canonical_dimension(), dom.number_of_nodes_per_elements(), dom.number_of_elements()) == (ref.c, len(ref.nodes), len(C)))
        for e in {0, len(C) - 1, int(r.randint(len(C)))}: M.same(f'topology/{tag}indices', dom.element_indices(e), C[e], f'element {e}'); M.same(f'topology/{tag}nodes', np.asarray(dom.element(e).nodes()).reshape(len(ref.nodes), -1), X[C[e]], f'element {e}')
    verify(''); M.check('topology/same-domain', t.domain().number_of_elements() == len(C))
    if r.rand() < .5: del dom; gc.collect(); junk = [bytes(int(k)) for k in r.randint(16, 900, 60)]; dom = t.domain(); verify('again-'); M.see('domain:dropped')
    what = int(r.randint(3)); M.see(f'topology:drop{what}')
    if what != 1: del s
    if what != 0: del t
    gc.collect(); junk = [bytes(int(k)) for k in r.randint(16, 900, 200)]; verify('after-drop-'); M.see('used-after:scene')

def case_grid(r):
    d = int(r.randint(2, 4)); n = r.randint(1, 6 if d == 2 else 4, d); lo = r.uniform(-3, 0, d); hi = lo + r.uniform(1, 4, d); c = lo + (hi - lo) * r.uniform(.2, .8, d); R = float((hi - lo).min() * r.uniform(.1, .6)); L = int(r.randint(0, 4 if d == 2 else 3)); s = host.grid(d, lo, hi, n.astype(np.int32), L, c, R); o = bound(r, s, f'FictitiousGridVec{d}d'); M.describe(f'{d}D n={n.tolist()} levels={L}'); M.distinct('grid', lo, hi, c); t = s.truth()
    for q in ('number_of_cells', 'number_of_nodes', 'number_of_subdivisions'): M.check('grid/' + q, getattr(o, q)() == t[q], lambda: (q, getattr(o, q)(), t[q]))
    M.check('grid/levels', o.number_of_subdivisions() == L)
    for dec in (None, 0, 1, 3):
        got = o.cell_volume_ratio_distribution() if dec is None else o.cell_volume_ratio_distribution(dec) if r.rand() < .5 else o.cell_volume_ratio_distribution(number_of_decimals=dec); want = s.item(dec or 0); M.check('grid/distribution', {k: list(v) for k, v in got.items()} == want, lambda: (dec, got, want)); M.check('grid/every-cell-once', sorted(i for v in got.values() for i in v) == list(range(int(np.prod(n)))))
        if not dec: M.check('grid/ratios', all(-1e-12 <= k <= 1 + 1e-12 and abs(k * 2 ** (d * L) - round(k * 2 ** (d * L))) < 1e-9 for k in got), lambda: list(got))
    M.see(f'grid:{d}D'); M.raises('grid/malformed', lambda: o.cell_volume_ratio_distribution('a')); del s; gc.collect(); M.check('grid/after-drop', o.number_of_cells() == t['number_of_cells']); M.see('used-after:scene')

CASES = {'hyper': (case_hyper, 120, 6000), 'elastic': (case_elastic, 120, 6000), 'solver': (case_solver, 800, 40000), 'static': (lambda r: case_ode(r, 'static'), 500, 25000), 'legacy': (lambda r: case_ode(r, 'legacy'), 500, 25000), 'topology': (case_topology, 1500, 60000), 'grid': (case_grid, 250, 12000)}
f, q, t = CASES[M.group]
for i in range(M.n(q, t)):
    r = M.begin(f'py-{M.group}', i)
    if r is not None: M.guard(lambda: f(r))
M.finish()
