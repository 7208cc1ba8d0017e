"""What each property check builds and runs."""
import os, re, glob, subprocess, sysconfig
FAMS = ['seg1', 'seg2', 'tri', 'quad', 'rquad', 'tet', 'hex', 'rhex']

VTK_INC = ['-isystem', '/usr/include/vtk-9.1']
VTK_LIBS = ['-lvtkIOLegacy-9.1', '-lvtkIOCore-9.1', '-lvtkCommonExecutionModel-9.1', '-lvtkCommonDataModel-9.1', '-lvtkCommonCore-9.1', '-lvtkCommonMisc-9.1', '-lvtksys-9.1']

def geom(prop, fams=range(8), names=FAMS, weights=None):
    out = []
    for f in fams:
        out.append({'name': f'{prop}_{names[f]}', 'weight': 3 if f in (2, 3, 4) else 2,
                    'build': {'src': ['geom.cpp'], 'defs': [f'PROP={int(prop[1:])}', f'FAMILY={f}']}})
    return out

REPO = os.environ.get('VERIF_REPO', '/repo')
PYFLAGS = ['-fPIC', '-fvisibility=hidden', '-isystem', sysconfig.get_paths()['include']]
def _libfile(n): return subprocess.run(['gcc', f'-print-file-name={n}'], capture_output=True, text=True).stdout.strip()
def pymods(*mods):
    """the Python extension modules, built object by object with the sanitizers"""
    out = []
    for m in mods:
        d = {'Caribou': ['Config'], 'Geometry': ['Geometry'], 'Topology': ['Topology', 'Topology/IO']}[m]
        objs = []
        for s in d:
            for f in sorted(glob.glob(f'{REPO}/src/Caribou/Python/{s}/*.cpp')):
                n = f"py_{m}_{s.replace('/', '_')}_{os.path.basename(f)[:-4]}"; objs.append(f'@scratch@/{n}.o')
                out.append({'name': n, 'weight': 20 if f.endswith('Domain.cpp') else 2, 'build': {'src': [f], 'flags': PYFLAGS + VTK_INC + ['-c'], 'suffix': '.o'}})
        libs = []
        if m == 'Topology':
            objs.append('@scratch@/py_VTKReader.o'); libs = VTK_LIBS
            out.append({'name': 'py_VTKReader', 'weight': 2, 'build': {'src': ['@repo/src/Caribou/Topology/IO/VTKReader.cpp'], 'flags': PYFLAGS + VTK_INC + ['-c'], 'suffix': '.o'}})
        out.append({'name': f'py{m}', 'stage': 1, 'build': {'src': objs, 'flags': ['-shared'], 'libs': libs, 'suffix': '.so'}})
    return out
def pyjob(name, script, pre, args):
    return {'name': name, 'leaks': False, 'pre': pre, 'cmd': ['/usr/bin/python3', f'@harness@/{script}'], 'args': ['--scratch=@scratch@'] + args,
            'env': {'LD_PRELOAD': _libfile('libasan.so') + ' ' + os.path.realpath(_libfile('libstdc++.so.6')), 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONFAULTHANDLER': '', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0'}}

SOFA = ['CARIBOU_BUILD_SOFACARIBOU']
def sofaobj(*files, **kw):
    """objects of SofaCaribou sources (each its own translation unit), built against the SOFA stand-in"""
    out = []
    for f in files:
        n = 'sc' + kw.get('tag', '') + '_' + re.sub(r'\W', '_', f)
        out.append({'name': n, 'weight': 6, 'build': {'src': [f'@repo/src/SofaCaribou/{f}.cpp'], 'defs': SOFA, 'flags': ['-c'] + kw.get('flags', []), 'suffix': '.o', 'san': kw.get('san', 'asan')}})
    return out
def sofajob(name, src, files, defs=[], flags=[], san='asan', tag='', **kw):
    pre = sofaobj(*files, flags=flags, san=san, tag=tag)
    h = {'name': name + '_main', 'weight': 8, 'build': {'src': [src], 'defs': SOFA + defs, 'flags': ['-c'] + flags, 'suffix': '.o', 'san': san}}
    return dict({'name': name, 'stage': 1, 'pre': pre + [h], 'build': {'src': [f'@scratch@/{name}_main.o'] + [f"@scratch@/{p['name']}.o" for p in pre], 'flags': flags, 'san': san}}, **kw)

def shards(job, n): return [dict(job, name=f"{job['name']}_{k}", args=job.get('args', []) + [f'--shard={k}/{n}']) for k in range(n)]

def JOBS(prop, tier):
    if prop == 'P20':
        pre = pymods('Caribou', 'Geometry')
        return [pyjob(f'P20_{k}', 'pygeom.py', pre, [f'--group={k}']) for k in range(4)]
    if prop == 'P21':
        pre = pymods('Caribou', 'Geometry', 'Topology')
        return [pyjob(f'P21_{k}', 'pytopo.py', pre, [f'--group={k}']) for k in range(8)]
    if prop == 'P35':
        F = ['Triangle', 'Quad', 'Tetrahedron', 'Hexahedron']
        files = [f'Topology/CaribouTopology[{f}]' for f in F] + [f'{c}[{f}]' for f in F[2:] for c in ('Forcefield/HyperelasticForcefield', 'Forcefield/CaribouForcefield')] + ['Material/HyperelasticMaterial', 'Forcefield/HexahedronElasticForce', 'Topology/FictitiousGrid', 'Topology/IsoSurface',
                 'Visitor/AssembleGlobalMatrix', 'Visitor/ConstrainGlobalMatrix', 'Visitor/MultiVecEqualVisitor', 'Algebra/BaseVectorOperations', 'Solver/ConjugateGradientSolver', 'Ode/NewtonRaphsonSolver', 'Ode/StaticODESolver', 'Ode/LegacyStaticODESolver']
        bind = sorted(os.path.relpath(f, f'{REPO}/src/SofaCaribou')[:-4] for f in glob.glob(f'{REPO}/src/SofaCaribou/Python/**/*.cpp', recursive=True))
        objs = sofaobj(*(files + bind), flags=PYFLAGS, tag='py') + [{'name': 'pyhost', 'weight': 12, 'build': {'src': ['pyhost.cpp'], 'defs': SOFA, 'flags': PYFLAGS + ['-c'], 'suffix': '.o'}}]
        lib = {'name': 'pySofaCaribou', 'stage': 1, 'build': {'src': [f"@scratch@/{o['name']}.o" for o in objs], 'flags': ['-shared'], 'suffix': '.so'}}
        pre = pymods('Caribou', 'Geometry', 'Topology') + objs + [lib]
        return [pyjob(f'P35_{n}', 'pysofa.py', pre, [f'--group={n}']) for n in ('hyper', 'elastic', 'solver', 'static', 'legacy', 'topology', 'grid')]
    if prop in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P09'): return geom(prop)
    if prop == 'P08': return geom(prop, range(4), ['hexL', 'hexQ', 'rhexL', 'rhexQ'])
    if prop in ('P10', 'P11', 'P12', 'P13'):
        return [{'name': f'{prop}_{d}D', 'weight': d, 'build': {'src': ['grid.cpp'], 'defs': [f'PROP={int(prop[1:])}', f'DIM={d}']}} for d in (1, 2, 3) if d > 1 or prop != 'P11']
    if prop in ('P14', 'P15'):
        return [{'name': f'{prop}_{n}', 'weight': 3, 'build': {'src': ['topo.cpp'], 'defs': [f'PROP={int(prop[1:])}', f'GROUP={g}']}} for g, n in enumerate(['seg', 'tri2', 'tri3', 'quad2', 'quad3', 'tet', 'hex', 'rhex'])]
    if prop == 'P16': return [{'name': f'P16_{d}D', 'build': {'src': ['mesh.cpp'], 'defs': ['PROP=16', f'DIM={d}']}} for d in (1, 2, 3)]
    if prop == 'P17':
        j = [{'name': f'P17_asan{k}', 'build': {'src': ['mesh.cpp'], 'defs': ['PROP=17', f'SHARD="{k}"']}} for k in range(4)]
        # uninitialised reads are invisible to AddressSanitizer: the same histories under memcheck
        j.append({'name': 'P17_memcheck', 'build': {'src': ['mesh.cpp'], 'defs': ['PROP=17', 'SHARD="m"'], 'san': 'none', 'flags': ['-ftrivial-auto-var-init=uninitialized']},
                  'cmd': ['valgrind', '-q', '--error-exitcode=78', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect', '--track-origins=no', '@scratch@/P17_memcheck'], 'args': ['--scale=0.08' if tier == 'quick' else '--scale=0.05']})
        return j
    if prop == 'P18': return [{'name': f'P18_{n}', 'weight': 3, 'build': {'src': ['mesh.cpp'], 'defs': ['PROP=18', f'GROUP={g}']}} for g, n in enumerate(['pos12', 'pos3', 'seg', 'surf', 'vol', 'vol2'])]
    if prop == 'P22': return [{'name': f'P22_{n}', 'weight': 2, 'build': {'src': ['mech.cpp'], 'defs': [f'PART={k}']}} for k, n in enumerate(['F', 'F_2D', 'F_3D', 'dyads'])]
    if prop == 'P23': return [{'name': f'P23_{n}', 'weight': 3, 'build': {'src': ['conc.cpp'], 'san': 'tsan', 'defs': [f'GROUP={k}']}} for k, n in enumerate(['seg', 'tri', 'quad', 'rquad', 'tethex', 'rhexgrid', 'topo2', 'topo3'])]
    if prop == 'P19':
        return [{'name': f'P19_{d}D{i}', 'weight': 2, 'build': {'src': ['vtk.cpp', '@repo/src/Caribou/Topology/IO/VTKReader.cpp'], 'defs': [f'DIM={d}', f'IDX={t}'], 'flags': VTK_INC, 'libs': VTK_LIBS}}
                for d, i, t in ((1, 'ull', 'unsigned long long'), (2, 'ul', 'unsigned long'), (2, 'u', 'unsigned int'), (3, 'ull', 'unsigned long long'), (3, 'u', 'unsigned int'))]
    if prop == 'P24': return [{'name': 'P24_laws', 'build': {'src': ['mat.cpp'], 'defs': SOFA}}]
    if prop == 'P25':
        j = []
        for k, (n, f) in enumerate([('hexL', 'Hexahedron'), ('hexQ', 'Hexahedron'), ('tetL', 'Tetrahedron'), ('tetQ', 'Tetrahedron')]):
            files = [f'Forcefield/HyperelasticForcefield[{f}]', f'Forcefield/CaribouForcefield[{f}]', f'Topology/CaribouTopology[{f}]', 'Material/HyperelasticMaterial']
            j.append(sofajob(f'P25_{n}', 'hyper.cpp', files, [f'ELEM={k}']))
            if k in (1, 2): j.append(sofajob(f'P25_{n}_omp', 'hyper.cpp', files, [f'ELEM={k}', 'CARIBOU_WITH_OPENMP'], ['-fopenmp'], tag='omp', env={'OMP_NUM_THREADS': '4'}))
        return j
    if prop == 'P26':
        j = []
        for k in range(8):
            f = 'Quad' if k < 4 else 'Triangle'
            j.append(sofajob(f'P26_{f}{k % 4}', 'traction.cpp', [f'Forcefield/TractionForcefield[{f}]', f'Forcefield/CaribouForcefield[{f}]', f'Topology/CaribouTopology[{f}]'], [f'ELEM={k}']))
        return j
    if prop == 'P27': return [sofajob(f'P27_{n}', 'algebra.cpp', ['Algebra/BaseVectorOperations'], [f'PART={k}']) for k, n in enumerate(['dense', 'sparsecol', 'sparserow', 'vector'])]
    if prop == 'P28': return [sofajob(f'P28_{f}{k % 2}', 'mapping.cpp', [f'Mapping/CaribouBarycentricMapping[{f}]', f'Topology/CaribouTopology[{f}]'], [f'ELEM={k}']) for k, f in enumerate(['Hexahedron', 'Hexahedron', 'Tetrahedron', 'Tetrahedron'])]
    if prop == 'P34':
        F = ['Triangle', 'Quad', 'Tetrahedron', 'Hexahedron']; topo = [f'Topology/CaribouTopology[{f}]' for f in F]
        comp = [f'Forcefield/CaribouForcefield[{f}]' for f in F] + [f'Forcefield/TractionForcefield[{f}]' for f in F[:2]] + [f'Forcefield/HyperelasticForcefield[{f}]' for f in F[2:]] + [f'Mapping/CaribouBarycentricMapping[{f}]' for f in F[2:]] + ['Material/HyperelasticMaterial', 'Visitor/AssembleGlobalMatrix', 'Visitor/ConstrainGlobalMatrix', 'Solver/LDLTSolver', 'Solver/LLTSolver', 'Solver/LUSolver']
        return shards(sofajob('P34_topology', 'factory.cpp', topo, ['PART=0']), 2) + shards(sofajob('P34_creation', 'factory.cpp', topo + comp, ['PART=1']), 4)
    if prop == 'P32': return [j for k, f in enumerate(['Hexahedron', 'Tetrahedron']) for j in shards(sofajob(f'P32_{f}', 'elastic.cpp', [f'Forcefield/{f}ElasticForce'], [f'KIND={k}']), 3)]
    if prop == 'P33':
        iso = ['Topology/FictitiousGrid', 'Topology/IsoSurface']; j = []
        for k, n in enumerate(['implicit2D', 'implicit3D', 'triangulated']): j += shards(sofajob(f'P33_{n}', 'fict.cpp', iso, [f'KIND={k}']), 2)
        return j + [sofajob('P33_omp', 'fict.cpp', iso, ['KIND=1', 'CARIBOU_WITH_OPENMP'], ['-fopenmp'], tag='omp', env={'OMP_NUM_THREADS': '4'}, args=['--scale=0.1'])]
    if prop == 'P29':
        vis = ['Visitor/AssembleGlobalMatrix', 'Visitor/ConstrainGlobalMatrix']
        return [sofajob(f'P29_{n}{p}', 'solver.cpp', vis + (['Solver/ConjugateGradientSolver'] if k == 3 else []), [f'KIND={k}', f'PART={p}']) for k, n in enumerate(['LDLT', 'LLT', 'LU', 'CG']) for p in (0, 1)]
    ode = ['Visitor/AssembleGlobalMatrix', 'Visitor/ConstrainGlobalMatrix', 'Visitor/MultiVecEqualVisitor', 'Algebra/BaseVectorOperations', 'Solver/ConjugateGradientSolver', 'Solver/LDLTSolver', 'Solver/LLTSolver', 'Solver/LUSolver']
    if prop == 'P30': return shards(sofajob('P30_static', 'ode.cpp', ode + ['Ode/NewtonRaphsonSolver', 'Ode/StaticODESolver'], ['KIND=0']), 4) + shards(sofajob('P30_legacy', 'ode.cpp', ode + ['Ode/LegacyStaticODESolver'], ['KIND=2']), 4)
    if prop == 'P31': return shards(sofajob('P31_euler', 'ode.cpp', ode + ['Ode/NewtonRaphsonSolver', 'Ode/BackwardEulerODESolver'], ['KIND=1']), 8)
    raise SystemExit(f'no such property {prop}')

GEO_RULE = 'seeded cases over 24 element types x placement kinds (reference, axis-aligned, affine, straight-sided distorted, curved) x local points (nodes, special values, sides, interior, outside); distinct = different (type, geometry, point) hashes'
META = {p: {'rule': GEO_RULE} for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09')}

for p, req in (('P10', ['grid:huge', 'grid:general', 'grid:exact', 'grid:has-single-subdivision-axis']), ('P11', ['grid:huge', 'edge-axis-[012]', 'face-normal-[012]']),
               ('P12', ['inside-on-0-planes', 'inside-on-3-planes', 'outside-on-0-planes', 'outside-on-2-planes', 'around-8-cells', 'around-0-cells']), ('P13', ['all-inside', 'partly-outside', 'all-outside'])):
    META[p] = {'rule': 'seeded grids (dimension, anisotropic subdivisions incl. 1 and 64-bit counts, anchor, spacing; dyadic ones for exact boundary decisions) x indices or query points (inside, on planes, next to planes, on prolonged planes, outside); distinct = different (grid, query) hashes', 'must_observe': req}

META['P14'] = {'rule': 'seeded spatial hashes (element kind, cell size, element sizes from a tenth of to several cells, near and far from the origin; dyadic ones put nodes and queries exactly on cell planes) x query points; distinct = different (hash, point)',
  'must_observe': ['within-rounding-on-[123]-cell-planes', 'node-on-[12]-cell-planes', 'inside-on-0-cell-planes', 'edge-on-1-cell-planes', 'negative-coordinates', 'returned-none', 'returned-several']}
META['P15'] = {'rule': 'seeded meshes (element kind, lattice size, perturbation, holes, renumbering, scale, rotation, offset) x embedded points (strictly inside, on sides and nodes, in holes, outside) x nodal fields; distinct = different (mesh, point)',
  'must_observe': ['point:interior', 'point:on-side-or-node', 'point:in-hole', 'point:outside', 'field:.*', 'refusal:empty-domain', 'refusal:wrong-dimension']}

META['P16'] = {'rule': 'seeded operation histories (5-40 adds, refused adds, lookups and removals on two meshes) compared step by step with a sequential model; distinct = different histories of (operation, name, whether used)',
  'must_observe': ['add:duplicate-name', 'add:fresh-name', 'add:unnamed', 'attach:duplicate-name', 'attach:foreign', 'attach:again-same-name', 'attach:again-other-name', 'remove:not-first', 'remove:absent-name', 'remove:absent-pointer', 'remove:by-pointer']}
META['P17'] = {'rule': 'seeded histories of 6-40 value operations on a pool of meshes and detached domains, every survivor re-read after every step under AddressSanitizer+LeakSanitizer and memcheck; distinct = different operation sequences',
  'must_observe': ['op:copy-construct', 'op:move-construct', 'op:copy-assign', 'op:self-assign', 'op:move-assign', 'op:swap', 'op:self-swap', 'op:clone', 'op:copy-domain', 'op:move-domain', 'op:swap-domains', 'op:swap-copied-domains', 'op:adopt', 'op:vector-of-meshes', 'storage:owned', 'storage:external-matrix', 'storage:external-strided'],
  'technique': 'operation-history monitor with full re-reading of survivors, under AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck'}
META['P18'] = {'rule': 'seeded positions and connectivities fed through every container/layout, read back through every accessor, with exactly sized heap buffers watched by AddressSanitizer; distinct = different (type, positions or connectivity)',
  'must_observe': ['positions:strided-map', 'positions:block', 'positions:transpose-expression', 'positions:deduced.*', 'selection:array<int,3>', 'selection:RowVectorXi', 'connectivity:referenced-padded-rows', 'connectivity:referenced-column-major', 'connectivity:copied-dynamic-colmajor']}

META['P22'] = {'rule': 'seeded shape-derivative/displacement matrices of every element size and storage order, prescribed displacement gradients on real elements, and symmetric tensors of three scalar types; distinct = different inputs',
  'must_observe': ['at-rest', 'single-node-displacement', 'element:rotation', 'element:rotated-affine', 'tensor:general', 'deformation_gradient/20x3R']}

META['P23'] = {'rule': 'forked rounds: 3-8 threads run every read-only operation of a set of shared objects twice (same, shuffled or rotated order, injected yields and spins), then sequentially; distinct = different global orders of the operation starts across threads',
  'must_observe': ['first-use-rounds', 'read-operations', 'result-comparisons'], 'technique': 'ThreadSanitizer on concurrent read-only workloads with first-use processes, plus an offline comparison of every result with a sequential execution'}

META['P19'] = {'rule': 'seeded legacy files (ASCII/binary, float/double, three old versions and 5.1, mixed and interleaved supported and unsupported cells, constant or varying axes, empty) written by an independent writer and read back; distinct = different file contents',
  'must_observe': ['file:binary', 'file:5.1', 'file:empty', 'refusal:axes', 'refusal:missing-file', 'custom-builder', 'cells:line', 'cells:quadratic-hexahedron', 'cells:quadratic-quad', 'cells:tetra', 'cells-interleaved', 'axes-12.', 'axes-02.', 'axes-01.']}

META['P20'] = {'rule': 'seeded elements of the 18 bound types built through every constructor form and array layout, every bound method compared with an independent numpy basis; malformed arguments must raise; distinct = different (type, geometry, local point)',
  'must_observe': ['construct:nodes', 'construct:n0\\.\\.', 'construct:corner-nodes', 'construct:center-size-rotation', 'construct:default', 'layout:F', 'layout:strided', 'layout:list', 'layout:negative-strides', 'malformed'],
  'technique': 'the real extension modules, rebuilt with AddressSanitizer and UndefinedBehaviorSanitizer, driven by a Python monitor with an independent oracle'}

META['P21'] = {'rule': 'seeded histories of Python calls (mesh and domain construction in every layout and integer type, refused calls, embeddings, grids, spatial hashes, file reading) and object lifetimes (objects of up to three meshes dropped in random order, memory reused, survivors re-read); distinct = different inputs or drop orders',
  'must_observe': ['added:unnamed', 'refused:duplicate', 'refused:malformed', 'embed:Hexahedron', 'dropped:mesh', 'used-after:domain', 'used-after:indices', 'used-after:container', 'used-after:domains', 'leak:refused', 'grid:2D', 'grid:3D', 'grid:upper-border', 'hash:Tetrahedron', 'io', 'connectivity:F', 'connectivity:uint64', 'interpolate:scalar'],
  'technique': 'the real extension modules, rebuilt with AddressSanitizer and UndefinedBehaviorSanitizer, driven by a Python history monitor with object-lifetime stress, freed-memory reuse and a heap conservation monitor'}

META['P24'] = {'rule': 'seeded material histories (1-3 materials alive, parameter changes of 15 orders of magnitude) x strain states (rest, rotation, tiny, moderate, large); distinct = different (law, parameters, strain)',
  'must_observe': ['parameters:changed', 'parameters:default-or-kept', 'deformation:identity', 'deformation:rotation', 'deformation:tiny-strain', 'deformation:moderate', 'deformation:large']}

META['P25'] = {'rule': 'seeded scenes (element kind, mesh with holes and renumbering, law, parameters, topology source, initial configuration) x histories of force evaluations, tangent products, matrix assemblies and material changes; distinct = different force evaluations',
  'must_observe': ['bounding-box', 'drawing', 'topology:ambiguous', 'print-log', 'configuration:rest', 'configuration:rigid', 'configuration:affine', 'configuration:general', 'init:deformed', 'topology:sofa', 'topology:caribou', 'topology:caribou-own-positions', 'force:free-position', 'material-changed', 'matrix:offset', 'K\\(\\)', 'tangent-product', 'multithreaded', 'rest:curved']}

META['P26'] = {'rule': 'seeded surfaces (quad/triangle, linear/quadratic, 2D/3D, holes, renumbering, reversed elements) x loads (constant, slopes, waits) x histories of time steps, other events, force evaluations at moved positions and resets; distinct = different histories',
  'must_observe': ['print-log', 'bounding-box', 'drawing', 'load:reached', 'load:incremented', 'load:waiting', 'load:constant', 'load:already-reached', 'reset:again', 'event:other', 'force:moved', 'init:deformed', 'topology:sofa', 'topology:caribou', 'topology:caribou-own-positions', 'rest:not-planar', 'rest:curved', 'element:reversed']}

META['P27'] = {'rule': 'seeded histories of 3-25 operations on wrapped matrices (dense/sparse, row/column-major, float/double, by copy/by reference, empty or with content) and vectors, every coefficient compared with a dense model after every step; distinct = different operation histories',
  'must_observe': ['external:with-content', 'external:uncompressed', 'add-after-compress', 'block:3d', 'block:3f', 'block:2d', 'block:2f', 'set', 'set-before-compress', 'clearRow', 'clearCol', 'clearRows', 'clearCols', 'clearRowCol', 'clearRowCol:symmetric', 'clear-in-uncompressed', 'fix-a-degree-of-freedom', 'clear', 'resize:larger', 'resize:smaller', 'compress:first', 'compress:again', 'copied', 'vector:resize', 'vector:by-reference', 'dot:full<double>.other', 'dot:full<float>.full<double>', 'dot:other.eigen<float>', 'dot:full<float>.full<float>'],
  'technique': 'operation-history monitor comparing every coefficient with a dense model after every step, under AddressSanitizer and UndefinedBehaviorSanitizer'}

META['P28'] = {'rule': 'seeded embedding meshes (hexahedra/tetrahedra, linear/quadratic, holes, renumbering) x mapped nodes (inside, on sides and nodes, outside) x initial configurations x histories of position, velocity, force and constraint mappings; distinct = different (mesh, mapped node)',
  'must_observe': ['print-log', 'mapped:inside', 'mapped:on-side-or-node', 'init:deformed', 'mapped-rest:from-positions', 'mapped-rest:given-other-positions', 'topology:in-the-mapped-node', 'topology:linked', 'outside', 'apply:position', 'apply:free-position', 'applyJ', 'applyJT', 'constraint:rows', 'constraint:empty', 'constraint:accumulates']}

META['P29'] = {'rule': 'seeded histories of linear systems (dimension, sparsity pattern and values changed or kept, fixed unknowns, singular or indefinite ones, null and tiny right-hand sides, initial guesses) given to each solver through its interface and through the scene graph, the residual recomputed in extended precision; distinct = different histories',
  'must_observe': ['print-log', 'preconditioner:None', 'preconditioner:Identity', 'preconditioner:Diagonal', 'preconditioner:IncompleteCholesky', 'preconditioner:IncompleteLU', 'scene-preconditioner:None', 'scene-preconditioner:IncompleteLU', 'LU:symmetric', 'LU:unsymmetric', 'analysis:reused', 'analysis:again', 'fixed-unknown', 'bad:refused', 'guess:solution', 'guess:arbitrary', 'rhs:zero', 'rhs:tiny', 'not-converged', 'no-iteration', 'objects:3', 'scene:fixed', 'scene:zero-rhs', 'scene:assembled-again-without-reset']}

ODE_RULE = 'seeded scenes of 1 to 3 mechanical objects (2D and 3D nodes, linear or cubic forces, fixed unknowns, mapped children carrying loads, constraint solvers) taken through histories of time steps with other matrices, patterns, loads, tolerances and solvers, compared with the same scheme in extended precision; distinct = different histories'
META['P30'] = {'rule': ODE_RULE, 'must_observe': ['print-log', 'solver:LDLT', 'solver:LLT', 'solver:LU', 'solver:CG-None', 'solver:CG-Identity', 'solver:CG-Diagonal', 'solver:CG-IncompleteCholesky', 'mapped-object', 'fixed-unknowns', 'equilibrium', 'already-at-equilibrium', 'converged:linear', 'converged:cubic', 'not-converged', 'contacts:clamped', 'constraint-calls', 'foreign-linear-solver', 'no-linear-solver', 'pattern-strategy:0', 'pattern-strategy:1', 'pattern-strategy:2', 'pattern-strategy:3', 'reset', 'singular:refused']}
META['P31'] = {'rule': ODE_RULE, 'must_observe': ['print-log', 'solver:LDLT', 'solver:LLT', 'solver:LU', 'solver:CG-None', 'solver:CG-Identity', 'solver:CG-Diagonal', 'solver:CG-IncompleteCholesky', 'mapped-object', 'fixed-unknowns', 'equilibrium', 'already-at-equilibrium', 'converged:linear', 'converged:cubic', 'not-converged', 'contacts:clamped', 'constraint-calls', 'foreign-linear-solver', 'no-linear-solver', 'pattern-strategy:0', 'pattern-strategy:1', 'pattern-strategy:2', 'pattern-strategy:3', 'reset']}
META['P32'] = {'rule': 'seeded hexahedral and tetrahedral meshes (rotated, renumbered, with holes) x material, corotation and integration method x configurations (rest, rigid, small, general) x histories of force evaluations, tangent products, assemblies, parameter changes and reinitialisations, invalid scenes; distinct = different (mesh, step, force)',
  'must_observe': ['print-log', 'init:deformed', 'corotated', 'not-corotated', 'integration:one-point', 'integration:regular', 'configuration:rest', 'configuration:rigid', 'configuration:small', 'configuration:small-on-rigid', 'configuration:general', 'force:free-position', 'tangent-product', 'matrix:offset', 'K()', 'eigenvalues', 'parameters-changed', 'reinit', 'bounding-box', 'topology:linked', 'invalid:1', 'invalid:2', 'invalid:3', 'invalid:4', 'invalid:no-state']}
META['P33'] = {'rule': 'seeded grids (dimension, resolution, bounds given, swapped or automatic, subdivision levels 0-4, volume threshold) x surfaces (circle, sphere, cylinder, user level-sets, closed triangulations, one or two bodies; dyadic ones with nodes exactly on the surface) x histories of repeated constructions; distinct = different (grid, volume, cells) hashes', 'must_observe': ['nodes-on-surface', 'has-inside-cells', 'has-outside-cells', 'has-boundary-cells', 'levels:0', 'levels:2', 'gauss:deep-boundary-cell', 'gauss:level-below-depth', 'type-at:inside-shared', 'type-at:outside-off-grid', 'type-at:boundary-shared', 'several-surfaces', 'bounds:automatic', 'again:0', 'again:2', 'again:3', 'invalid:1', 'invalid:2', 'invalid:3', 'cell-below-threshold', 'corners-swapped', 'triangles-source:[012]', 'print-log']}
META['P35'] = {'rule': 'seeded scenes (meshes, laws, matrices, loads, grids of the SOFA stand-in) hosted in the process of the Python interpreter x histories of Python calls, component updates and releases of scenes and Python objects; distinct = different scenes',
  'must_observe': ['malformed', 'used-after:scene', 'assemble:F', 'assemble:strided', 'assemble:float32', 'hyper:op[23]', 'elastic:moved', 'assemble:op[0123]', 'linear-iterations', 'iterations:several', 'topology:Triangle', 'topology:Hexahedron', 'topology:empty', 'domain:dropped', 'grid:2D', 'grid:3D'],
  'technique': 'the SofaCaribou extension module, built with AddressSanitizer and UndefinedBehaviorSanitizer against the stand-ins of SOFA and SofaPython3, driven by a Python monitor that compares it with the components themselves, with object-lifetime stress and freed-memory reuse'}
META['P34'] = {'rule': 'seeded histories of topologies (12 element types; indices and positions given, taken from the state, missing, out of range, given again; attached domains) and seeded scenes (nodes, states, Caribou topologies and SOFA containers) x requests (template, path, backend) put to every registered component; distinct = different (scene, request) hashes and topology histories',
  'must_observe': ['positions:given', 'positions:of-the-state', 'positions:none', 'attach:first', 'attach:over-another', 'attach:then-init', 'refused:no-indices', 'refused:index-out-of-range', 'refused:no-positions', 'init:first', 'init:again', 'registry-verified', 'template:none', 'template:exact', 'template:other-case', 'template:unknown', 'path:none', 'path:local', 'path:elsewhere', 'path:broken', 'force-field:by-template', 'force-field:by-path', 'force-field:deduced', 'mapping:by-template', 'mapping:by-path', 'mapping:deduced', 'made:on-caribou-topology', 'made:on-wrong-topology', 'made:on-container', 'made:without-topology', 'made:without-state', 'request:served', 'request:refused']}
