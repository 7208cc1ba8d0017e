"""Python side of the runtime monitors: same result log as mon.h. Also assembles the package from the modules built in the scratch directory."""
import sys, os, json, gc, zlib, signal, random, ctypes, shutil, traceback
import numpy as np

class Mon:
    def __init__(self):
        a = dict(x[2:].split('=', 1) for x in sys.argv[1:] if x.startswith('--') and '=' in x)
        self.seed = int(a.get('seed', os.environ.get('VERIF_SEED', 1))); self.tier = a.get('tier', 'quick'); self.only = a.get('only')
        self.scale = float(a.get('scale', 1)); self.group = a.get('group', '')
        self.f = open(a['out'], 'w') if 'out' in a else sys.stdout
        self.obs, self.viol, self.cls, self.hashes, self.evals, self.samples, self.cur = {}, {}, {}, set(), 0, [], ''
        self.persample = {}
        lib = ctypes.CDLL(None)
        try:
            self._cb = ctypes.CFUNCTYPE(None)(self.on_death); getattr(lib, "__sanitizer_set_death_callback")(self._cb)
            self.heap = getattr(lib, "__sanitizer_get_current_allocated_bytes"); self.heap.restype = ctypes.c_size_t
        except AttributeError: self.heap = None
        signal.signal(signal.SIGALRM, self.on_alarm)
    def on_death(self): os.write(2, ('\n@@CASE ' + self.cur + '\n').encode())
    def on_alarm(self, *a):
        self.on_death(); os.write(2, b'@@EXC no termination within the time limit of one case\n'); os._exit(87)
    def n(self, q, t): return max(1, int((t if self.tier == 'thorough' else q) * self.scale))
    def begin(self, name, idx):
        c = f'{name}#{idx}'; self.cur = c; self.base = c
        if self.only and self.only != c: return None
        self.evals += 1; signal.alarm(120)
        return np.random.RandomState((zlib.crc32(c.encode()) ^ (self.seed * 2654435761)) & 0x7fffffff)
    def describe(self, s):
        self.cur = f'{self.base} {s}'
        k = self.base.split('#')[0]
        if len(self.samples) < 12 and self.persample.get(k, 0) < 1: self.persample[k] = 1; self.samples.append(self.cur[:300])
    def distinct(self, *x): self.hashes.add(hash(tuple(v.tobytes() if isinstance(v, np.ndarray) else v for v in x)))
    def see(self, c, k=1): self.cls[c] = self.cls.get(c, 0) + k
    def violation(self, key, msg):
        k = self.viol[key] = self.viol.get(key, 0) + 1
        if k <= 5: self.f.write(json.dumps({'type': 'violation', 'key': key, 'case': self.cur[:3000], 'msg': str(msg)[:2500]}) + '\n'); self.f.flush()
    def check(self, key, ok, msg=''):
        self.obs[key] = self.obs.get(key, 0) + 1
        if not ok: self.violation(key, msg() if callable(msg) else msg)
        return bool(ok)
    def close(self, key, got, want, tol, what=''):
        got = np.asarray(got); want = np.asarray(want)
        ok = got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)) if got.dtype != object else False
        return self.check(key, ok, lambda: f'{what} got {got.tolist()} expected {want.tolist()} (tolerance {np.max(tol):g})')
    def same(self, key, got, want, what=''):
        got = np.asarray(got); want = np.asarray(want)
        return self.check(key, got.shape == want.shape and bool(np.all(got == want)), lambda: f'{what} got {got.tolist()} expected {want.tolist()}')
    def raises(self, key, f, what=''):
        try: r = f()
        except Exception as e: return self.check(key, True)
        return self.check(key, False, lambda: f'{what}: accepted, returned {r!r}')
    def guard(self, f):
        """an exception from a supported call is a violation, not a harness failure"""
        try: f(); return True
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.violation('exception', f'{type(e).__name__}: {str(e)[:600]} (line {tb.lineno}: {tb.line})'); return False
    def finish(self):
        signal.alarm(0)
        self.f.write(json.dumps({'type': 'summary', 'obs': self.obs, 'viol': self.viol, 'cls': self.cls, 'evaluations': self.evals, 'distinct': len(self.hashes), 'samples': self.samples}) + '\n'); self.f.flush()

def package(scratch):
    """lay the freshly built modules out as the installed package is"""
    repo = os.environ['VERIF_REPO']; d = os.path.join(os.environ['VERIF_SCRATCH'], 'site'); src = f'{repo}/src/Caribou/Python'
    for sub, mod, init in (('', 'Caribou', 'Config'), ('Geometry', 'Geometry', 'Geometry'), ('Topology', 'Topology', 'Topology')):
        t = os.path.join(d, 'Caribou', sub); os.makedirs(t, exist_ok=True)
        shutil.copy(f'{src}/{init}/__init__.py', f'{t}/__init__.py')
        so = f'{scratch}/py{mod}.so'
        if os.path.exists(so):
            dst = f'{t}/{mod}.so'
            if not os.path.exists(dst): os.symlink(so, dst)
    sys.dont_write_bytecode = True
    sys.path.insert(0, d)

def layouts(r, a, kinds=None):
    """the same values in another memory layout; returns (name, array-like)"""
    a = np.asarray(a)
    opts = ['C', 'F', 'strided', 'negative-strides', 'list', 'readonly', 'byteswapped', 'offset']
    if a.dtype.kind == 'f' and np.all(a == a.astype(np.float32)): opts.append('float32')
    if a.dtype.kind == 'f' and np.all(a == np.round(a)) and np.all(np.abs(a) < 1e6): opts.append('int64')
    k = opts[r.randint(len(opts))] if kinds is None else kinds
    if k == 'C': return k, np.ascontiguousarray(a)
    if k == 'F': return k, np.asfortranarray(a)
    if k == 'strided':
        b = np.full(tuple(3 * s for s in a.shape), 77 if a.dtype.kind != 'f' else np.nan, dtype=a.dtype); v = b[tuple(slice(1, None, 3) for _ in a.shape)]; v[...] = a; return k, v
    if k == 'negative-strides': return k, np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
    if k == 'list': return k, a.tolist()
    if k == 'readonly': b = a.copy(); b.flags.writeable = False; return k, b
    if k == 'byteswapped': return k, a.astype(a.dtype.newbyteorder('>'))
    if k == 'offset': b = np.zeros(a.size + 5, dtype=a.dtype); v = b[3:3 + a.size].reshape(a.shape); v[...] = a; return k, v
    if k == 'float32': return k, a.astype(np.float32)
    if k == 'int64': return k, a.astype(np.int64)

class Ref:
    """independent Lagrange basis from the documented reference nodes"""
    N = {('Segment', 1): [[-1], [1]], ('Triangle', 1): [[0, 0], [1, 0], [0, 1]], ('Quad', 1): [[-1, -1], [1, -1], [1, 1], [-1, 1]],
         ('Tetrahedron', 1): [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
         ('Hexahedron', 1): [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]]}
    N[('Segment', 2)] = N[('Segment', 1)] + [[0]]
    N[('Triangle', 2)] = N[('Triangle', 1)] + [[.5, 0], [.5, .5], [0, .5]]
    N[('Quad', 2)] = N[('Quad', 1)] + [[0, -1], [1, 0], [0, 1], [-1, 0]]
    N[('Tetrahedron', 2)] = N[('Tetrahedron', 1)] + [[.5, 0, 0], [.5, .5, 0], [0, .5, 0], [0, 0, .5], [.5, 0, .5], [0, .5, .5]]
    N[('Hexahedron', 2)] = N[('Hexahedron', 1)] + [[0, -1, -1], [1, 0, -1], [0, 1, -1], [-1, 0, -1], [0, -1, 1], [1, 0, 1], [0, 1, 1], [-1, 0, 1], [-1, -1, 0], [1, -1, 0], [1, 1, 0], [-1, 1, 0]]
    def __init__(s, fam, order):
        s.fam, s.order = fam, order; s.nodes = np.array(s.N[(fam, order)], float); s.c = s.nodes.shape[1]; s.simplex = fam in ('Triangle', 'Tetrahedron')
        s.ncorner = len(s.N[(fam, 1)]); E = range(order + 1) if order == 1 else range(3)
        import itertools
        s.m = np.array([e for e in itertools.product(E, repeat=s.c) if (sum(e) <= order if s.simplex else sum(x == 2 for x in e) <= 1)])
        s.V = np.linalg.inv(np.array([[np.prod(x ** e) for e in s.m] for x in s.nodes]))  # V[k][i]
        s.measure = {'Segment': 2, 'Triangle': .5, 'Quad': 4, 'Tetrahedron': 1 / 6, 'Hexahedron': 8}[fam]
        s.boundaries = {'Segment': 0, 'Triangle': 3, 'Quad': 4, 'Tetrahedron': 4, 'Hexahedron': 6}[fam]
    def L(s, x): return np.prod(np.asarray(x)[None, :] ** s.m, axis=1) @ s.V
    def dL(s, x):
        x = np.asarray(x, float); out = np.zeros((len(s.nodes), s.c))
        for d in range(s.c):
            e = s.m.copy(); f = e[:, d].astype(float); e[:, d] = np.maximum(e[:, d] - 1, 0)
            out[:, d] = (f * np.prod(x[None, :] ** e, axis=1)) @ s.V
        return out
    def margin(s, x):
        x = np.asarray(x)
        return min(x.min(), 1 - x.sum()) if s.simplex else 1 - np.abs(x).max()
    def random_local(s, r, inside=True):
        if s.simplex:
            w = r.dirichlet(np.ones(s.c + 1)); return w[:s.c]
        return r.uniform(-1, 1, s.c)
    def dyadic_local(s, r):
        while True:
            x = r.randint(-8, 9, s.c) / 8.
            if s.margin(x) > 0: return x

def rotation(r):
    q = r.normal(size=4); q /= np.linalg.norm(q); w, x, y, z = q
    return np.array([[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)], [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)], [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])
