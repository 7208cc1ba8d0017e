"""Regenerate /verif/known_findings.json:  python3 tools/findings.py"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # (property, subject of the fix commit)
 ('P03', 'fix: local_coordinates stops on the relative residual only'),
 ('P06', 'fix: mid-edge node indices of the quadratic rectangular hexahedron faces'),
 ('P05', 'fix: announced number of gauss nodes of quadratic rectangular elements'),
 ('P07', 'fix: missing contains_local of rectangular quads'),
 ('P09', 'fix: frame() of hexahedrons could not be instantiated'),
 ('P12', 'fix: cells_around returned wrapped or invalid cells for points outside of the grid'),
 ('P13', 'fix: cells_enclosing ignored the positions lying outside of the grid'),
 ('P16', 'fix: removing a domain which is not the first of the mesh never returned'),
 ('P16', 'fix: a domain could be added to a mesh under an already used name'),
 ('P18', 'fix: Mesh::positions(std::array) did not compile'),
 ('P18', 'fix: unset components of the 3D view of 1D and 2D mesh nodes'),
 ('P17', 'fix: copied and moved domains used the buffer of the original and an unset mesh pointer'),
 ('P17', 'fix: domains of copied, moved, assigned and swapped meshes stayed attached to the original mesh'),
 ('P16', 'fix: generated names of unnamed domains could already be used in the mesh'),
 ('P15', 'fix: points lying on the sides of distorted elements were found outside of the container domain'),
 ('P15', 'fix: embedded points were associated with elements for which the inverse mapping diverged'),
 ('P17', 'fix: the move constructor of domains aborted on an invalid stride in debug builds'),
 ('P18', 'fix: Domain::element(id, positions) did not compile in debug builds'),
 ('P19', 'fix: reading a mesh file without any points in 1D or 2D crashed'),
 ('P20', 'fix: RectangularHexahedron built from nodes in Python was a general hexahedron'),
 ('P21', 'fix: Python grids could not be queried by node coordinates or world position'),
 ('P21', 'fix: Python objects obtained from a mesh did not keep it alive'),
 ('P21', 'fix: asking a Python mesh for an unknown domain raised a type error'),
 ('P21', 'fix: a domain refused by a Python mesh was leaked'),
 ('P25', 'fix: forcefields on a SOFA topology took the current positions for the rest positions'),
 ('P26', 'fix: resetting a TractionForcefield lost its nodal forces and its constant load'),
 ('P27', 'fix: a sparse matrix wrapped with its content lost it at the first compression'),
 ('P27', 'fix: clearing a row or column of a sparse matrix without any entry wrote to a null pointer'),
 ('P27', 'fix: clearing rows and columns of an uncompressed sparse matrix missed some entries'),
 ('P29', 'fix: the Eigen solvers reused the pattern analysis of a different matrix of the same size'),
 ('P29', 'fix: LUSolver read the unset status of SparseLU after the pattern analysis'),
 ('P29', 'fix: the preconditioned CG reported a failure for already solved systems'),
 ('P29', 'fix: ConjugateGradientSolver read the unset status of the incomplete LU'),
 ('P30', 'fix: a system whose factorization failed was solved anyway'),
 ('P31', 'fix: the first residual of the backward Euler was not evaluated at its prediction'),
 ('P31', 'fix: the backward Euler accumulated the forces of mapped objects several times'),
 ('P32', 'fix: the corotated elastic forces assumed rest shapes aligned with the axes'),
 ('P32', 'fix: reinit of the hexahedral elastic force accumulated the quadrature nodes'),
 ('P32', 'fix: reinit of the elastic forces kept the previous rotations'),
 ('P32', 'fix: wrong, incomplete and stale sparse stiffness matrix of the hexahedral elastic force'),
 ('P32', 'fix: stiffness assembly of elastic forces whose topology was rejected'),
 ('P32', 'fix: the bounding box of the elastic forces missed some minima'),
 ('P25', 'fix: null topology in the report of several topologies'),
 ('P26', 'fix: the bounding box of the force fields missed some minima and overran 2D positions'),
 ('P33', 'fix: null iso-surface in the report of several iso-surfaces'),
 ('P33', 'fix: a fictitious grid was made without bounds'),
 ('P33', 'fix: fictitious grids of 3D iso-surfaces or made again used missing or stale cell data'),
 ('P33', 'fix: stack overflow for grid nodes lying on the iso-surface'),
 ('P33', 'fix: uncut cells of triangulated surfaces were left without type'),
 ('P33', 'fix: type of points shared by cells of the same type'),
 ('P33', 'fix: misplaced Gauss nodes of cells subdivided more than once'),
 ('P33', 'fix: Gauss weights of 2D cells were attributed to the wrong Gauss nodes'),
 ('P33', 'fix: bounding box of grids whose corners are not ordered'),
 ('P33', 'fix: iso_value of SOFA coordinates did not compile'),
 ('P21', 'fix: the Python names of the linear and quadratic hexahedron hash grids were swapped'),
 ('P35', 'fix: the system matrix pointer of the linear solvers was uninitialized before the first assembly'),
 ('P35', 'fix: the system matrix of the conjugate gradient could not be converted to Python'),
 ('P35', 'fix: the Gauss nodes and stiffness of a hexahedron out of range were read outside of the buffers'),
 ('P35', 'fix: assembling the stiffness from Python with a wrong number of positions read outside of the array'),
 ('P35', 'fix: the domain of a topology could not be converted to Python and did not keep its topology alive'),
 ('P34', 'fix: null mechanical state in the initialization of hyperelastic forces'),
 ('P34', 'fix: null mechanical state in the initialization and the events of traction forces'),
 ('P32', 'fix: null mechanical state in the display and the stiffness of elastic forces'),
]
OPEN = [
 {'property': 'P19', 'key': 'hex20-node-order', 'what': 'VTKReader permutes the mid-edge nodes of VTK_QUADRATIC_HEXAHEDRON cells (10<-18 12<-10 13<-14 14<-15 15<-12 16<-13 17<-16 18<-19 19<-17), although the node order of VTK is the documented one of Hexahedron<Quadratic>'},
 {'property': 'P33', 'key': 'cylinder-length-ignored', 'what': 'CylinderIsoSurface ignores its length parameter: points beyond the ends of the cylinder have a negative iso-value'},
]
log = {}
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1); log[s] = h
out = []
for n, f in enumerate(OPEN): out.append({'id': f'K{n+1}', 'status': 'open', **f})
for n, (p, s) in enumerate(FIXED): out.append({'id': f'F{n+1}', 'status': 'fixed', 'property': p, 'commit': log[s], 'what': s[5:], 'line': f'fixed: property={p} {log[s]} {s[5:]}'})
json.dump({'findings': out}, open(f'{H}/known_findings.json', 'w'), indent=1)
print(len(OPEN), 'open', len(FIXED), 'fixed')
missing = set(s for s in log if s.startswith('fix:')) - set(s for _, s in FIXED)
assert not missing, missing
