import json
G='src/Caribou/Geometry/'; T='src/Caribou/Topology/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe,hook_needed=hook)))
ALLG=[G+x for x in ('Segment.h','Triangle.h','Quad.h','RectangularQuad.h','Tetrahedron.h','Hexahedron.h','RectangularHexahedron.h')]
p('P01','Shape functions are the documented Lagrange basis of each element',
 'For every element type, order and space dimension, the shape functions evaluated at any local point (inside or outside the element) are the unique nodal Lagrange basis of that element for its documented node positions: 1 at the own node, 0 at all others, summing to 1, and reproducing every polynomial of the element\'s interpolation space.',
 ['inputs','configurations'],'every element type (segment, triangle, quad, rectangular quad, tetrahedron, hexahedron, rectangular hexahedron), linear and quadratic, each space dimension; every local coordinate',
 'The unit tests evaluate shape functions at nodes or a few points of a few elements; a wrong coefficient that vanishes at the sampled points, or in an element/dimension without such a test, passes.',
 ALLG,[('per-type shape function formulas',G+'*.h get_L'),('canonical node tables',G+'BaseQuad.h, Triangle.h')],['L(xi) return value'])
p('P02','Shape derivatives and Jacobians are the exact derivatives of the mapping',
 'For every element type, order and dimension and at every local point, the returned shape derivatives equal the partial derivatives of the shape functions, and the returned Jacobian equals the derivative of the local-to-world mapping of that element.',
 ['inputs','configurations'],'every element type, order, dimension; arbitrary (curved, sheared, rotated, scaled) node placements; every local coordinate',
 'Tests only integrate simple volumes, which many wrong derivative entries survive; mixed terms at general points are never compared with anything.',
 ALLG+[G+'Element.h'],[('per-type derivative formulas',G+'*.h get_dL'),('Jacobian assembly',G+'Element.h jacobian')],['dL(xi)','jacobian(xi)'])
p('P03','World-to-local mapping inverts local-to-world at any scale and position',
 'For every valid element, mapping a local point of the element to world coordinates yields the point interpolated from the element\'s node positions, and mapping it back yields the same local point to within the requested relative residual tolerance, whatever the size, position and orientation of the element. Elements that are affine images of the reference element are inverted to rounding accuracy, an explicit starting point, tolerance and iteration limit are honoured, and for elements embedded in a higher dimension points off the element are mapped to their projection.',
 ['inputs','configurations'],'every element type, order, dimension; element sizes over many orders of magnitude, offsets, rotations, moderate distortion; every local point of the element; every tolerance and start',
 'Tests round-trip Gauss points of a few unit-size elements; scale-dependent stopping criteria, iteration limits and distorted elements are not reached.',
 [G+'Element.h',G+'BaseRectangularQuad.h',G+'BaseRectangularHexahedron.h'],[('Newton-Raphson inversion',G+'Element.h local_coordinates'),('closed-form rectangular mapping',G+'BaseRectangularQuad.h, BaseRectangularHexahedron.h')],['world_coordinates(xi)','local_coordinates(x)','local_coordinates(x, start, tol, maxit)'])
p('P04','Interpolation reproduces nodal fields',
 'Interpolating node values at a local point gives, for scalar and vector values of any supported scalar type and storage layout, the sum of the node values weighted by the shape functions: node values are returned exactly at the nodes, constants and fields polynomial in the interpolation space are reproduced everywhere, and values at different nodes or components never mix.',
 ['inputs','configurations'],'every element type and order; scalar, fixed-size vector and many-component values, float/double, row- or column-major storage; every local point',
 'Tests interpolate one or two polynomials with one value layout.',
 [G+'Element.h']+ALLG,[('generic interpolation',G+'Element.h interpolate')],['interpolate(xi, values)'])
p('P05','Gauss quadrature integrates exactly to the documented order',
 'Every element\'s integration points number what the element announces, lie inside the element, have positive weights summing to the reference measure, and integrate exactly every polynomial up to the order of the rule; consequently the integral of the Jacobian determinant gives the exact length, area or volume of any straight-sided element.',
 ['inputs','configurations'],'every element type, order and dimension; all monomials up to the rule\'s degree; arbitrary straight-sided node placements',
 'Tests check volume or one polynomial for a couple of elements; swapped or perturbed points and weights of other element kinds go unseen.',
 ALLG,[('quadrature tables',G+'*.h get_gauss_nodes'),('announced counts',G+'*.h traits NumberOfGaussNodesAtCompileTime')],['gauss_nodes()','gauss_node(i)','number_of_gauss_nodes()'])
p('P06','Boundary elements conform to the element and close its surface',
 'For every element with a boundary, the announced boundary faces (or edges) are each exactly the restriction of the element to one of its sides - same nodes in an order that makes the boundary element\'s own mapping coincide with the parent\'s side - every side occurs exactly once, orientation is consistent and outward for positively oriented elements, and the enumerated edges and faces of an element are its actual edges and faces.',
 ['inputs','configurations'],'every element type with boundaries, both orders; arbitrary valid node placements; every point of every side',
 'Tests check centres or normals of linear faces only; mid-side node order of quadratic faces and rectangular variants is not compared.',
 [G+x for x in ('BaseTriangle.h','Triangle.h','Quad.h','RectangularQuad.h','Tetrahedron.h','Hexahedron.h','RectangularHexahedron.h','Element.h')],
 [('boundary node tables',G+'*.h get_boundary_elements_nodes'),('boundary element construction',G+'Element.h boundary_element')],['boundary_elements_node_indices()','boundary_element(i)','number_of_boundary_elements()','edges()','faces()','edge(i)','face(i)'])
p('P07','Point containment agrees with the element\'s geometric domain',
 'A local point is reported inside an element exactly when it belongs to the reference domain of that element up to the given tolerance (in both directions of every coordinate), and a world point is reported inside a rectangular solid exactly when it lies within its rotated box up to that tolerance.',
 ['inputs','configurations'],'every element type/order/dimension; every local or world point, including points just inside and just outside each side, and every non-negative tolerance',
 'Tests try a few points with default tolerance; one missing or reversed side inequality passes.',
 [G+x for x in ('BaseSegment.h','BaseTriangle.h','BaseQuad.h','BaseTetrahedron.h','BaseHexahedron.h','BaseRectangularQuad.h','BaseRectangularHexahedron.h')],
 [('side inequalities',G+'Base*.h get_contains_local'),('world containment',G+'BaseRectangularHexahedron.h contains')],['contains_local(xi, eps)','contains(x, eps)'])
p('P08','Box-segment and box-triangle intersection tests are geometrically correct',
 'For every rectangular (possibly rotated and anisotropic) hexahedron and every general cuboid hexahedron, the segment and triangle intersection queries return true exactly when the two closed sets meet (away from grazing contact within tolerance), independently of vertex order, and consistently under rigid motion and uniform scaling of both.',
 ['inputs'],'every box size, position and rotation; every segment and triangle including large ones that pierce the box with no vertex inside and near-miss configurations on each separating axis',
 'Tests use a few axis-aligned configurations; each of the 13+ separating axes has to be exercised in both signs.',
 [G+'BaseRectangularHexahedron.h',G+'BaseHexahedron.h'],[('separating-axis tests',G+'BaseRectangularHexahedron.h intersects_polygon')],['intersects(segment, eps)','intersects(triangle, eps)'])
p('P09','Equivalent constructions give the same element and frames are orthonormal',
 'An element built from a node matrix, a node list, its lower-order counterpart, its corner nodes or, for rectangular elements, centre/size/rotation or an equivalent general element, exposes the same nodes, centre, size and rotation; default elements are the reference elements, quadratic elements built from linear ones have their mid nodes exactly midway, and normals and frames are right-handed orthonormal and aligned with the element.',
 ['inputs','configurations'],'every element type, order, dimension and constructor; every valid placement, size and rotation',
 'Tests construct with one or two of the constructor forms at fixed data.',
 [G+x for x in ('BaseSegment.h','BaseTriangle.h','BaseQuad.h','BaseRectangularQuad.h','BaseTetrahedron.h','BaseHexahedron.h','BaseRectangularHexahedron.h')]+ALLG,
 [('constructors','all element classes'),('frames',G+'Base*.h frame')],['nodes()','node(i)','center()','size()','rotation()','frame()','normal()'])
p('P10','Grid numbering is a bijection consistent with grid geometry',
 'For every regular grid (1D, 2D, 3D; any anchor, subdivision and size) cell and node indices, integer coordinates and positions are mutually consistent: index-to-coordinate maps are bijections inverse to each other, node positions are anchor plus spacing times coordinates, and each cell object and its node indices are that cell\'s box with vertices in the element\'s documented order.',
 ['inputs','configurations'],'every dimension, anisotropic subdivision, anchor and size; every cell and node',
 'Tests use a few fixed small grids, mostly isotropic, where axis mix-ups cancel.',
 [T+'Grid/Grid.h',T+'Grid/Internal/BaseGrid.h',T+'Grid/Internal/BaseUnidimensionalGrid.h',T+'Grid/Internal/BaseMultidimensionalGrid.h'],
 [('numbering formulas',T+'Grid/Internal/Base*Grid.h'),('cell vertices',T+'Grid/Grid.h')],['number_of_cells/nodes','node_index_at','node_coordinates_at','cell_index_at','cell_coordinates_at','node','cell_at','node_indices_of','N/H/size/anchor'])
p('P11','Grid edges and faces enumerate every edge and face exactly once',
 'For every 2D or 3D grid, the enumerated edges are exactly the pairs of neighbouring nodes, each once, and for every 3D grid the enumerated faces are exactly the four-node cell faces, each once and in cyclic order, with the announced counts.',
 ['inputs','configurations'],'every subdivision (including 1 and strongly anisotropic)',
 'Tests check a handful of indices on fixed grids.',
 [T+'Grid/Grid.h'],[('edge/face decoding arithmetic',T+'Grid/Grid.h edge, face')],['number_of_edges','edge(i)','number_of_faces','face(i)'])
p('P12','Grid point location finds the cells that contain a point',
 'For every grid and point, the grid reports containment exactly for points of its box, a point inside a cell is located in that cell, the cells around a point are exactly the existing cells whose closure contains it up to the given tolerance (up to 8 when it lies on shared corners, edges or faces, none when outside), and every returned cell index exists.',
 ['inputs','configurations'],'every grid; every point: interior, on cell corners/edges/faces, on the outer boundary and outside',
 'Tests query a few points on fixed grids; boundary x outside combinations in each axis are not covered.',
 [T+'Grid/Internal/BaseGrid.h',T+'Grid/Grid.h'],[('cell lookup',T+'Grid/Internal/BaseGrid.h cell_index_containing, cells_around, contains')],['contains','cell_index_containing','cell_coordinates_at(point)','cells_around'])
p('P13','Grid region queries return every cell meeting a bounding box',
 'For every grid and set of points, the cells enclosing the points are exactly the grid cells touching the points\' axis-aligned bounding box clipped to the grid (and none when every point lies outside of the grid, as documented): no cell is missing, none is returned twice, none lies outside the grid, and the result does not depend on the order of the points.',
 ['inputs','configurations'],'every grid; every non-empty point set inside, partly outside or around the grid',
 'Tests use a few boxes on fixed grids; partially outside sets are explicitly not tested.',
 [T+'Grid/Internal/BaseGrid.h'],[('bounding box to index range',T+'Grid/Internal/BaseGrid.h cells_enclosing')],['cells_enclosing(points...)'])
p('P14','Spatial hash lookup never misses an element containing the point',
 'For every collection of elements stored in a spatial hash with any positive cell size, looking up any position (positive, negative or exactly on a cell boundary) returns the data of every stored element that contains that position (to within rounding when the position lies exactly on a cell boundary), and only data of stored elements whose bounding box is within about a cell of it.',
 ['inputs','histories'],'every cell size relative to the elements; elements of any kind with straight sides anywhere in space; every query point',
 'Tests insert a small fixed mesh; negative coordinates, boundary alignment and hash collisions are not explored.',
 [T+'HashGrid.h'],[('cell binning',T+'HashGrid.h add/get')],['add','get'])
p('P15','Embedding finds the right element and interpolates the field',
 'For every domain and set of embedded points, each point inside some element is associated with an element that contains it together with its true local coordinates, every point outside all elements is reported as outside (for segments or surfaces in a higher dimension: points lying on the manifold), and interpolating any nodal field at the embedded points reproduces the element interpolation; an empty domain or points of another dimension are refused with an error.',
 ['inputs','configurations'],'every domain type (tetrahedra, hexahedra, quads, triangles, quadratic variants; any dimension), mesh scale and position; every embedded point set; every nodal field',
 'Tests embed points in one or two structured meshes.',
 [T+'BarycentricContainer.h',T+'HashGrid.h',T+'Domain.h'],[('candidate search and inversion',T+'BarycentricContainer.h'),('interpolation',T+'BarycentricContainer.h interpolate')],['Domain::embed','barycentric_points','outside_nodes','barycentric_point','closest_elements','interpolate'])
p('P16','The domain registry of a mesh follows its history of additions and removals',
 'After any sequence of adding, looking up and removing domains, a mesh holds exactly the domains added and not yet removed, in insertion order and under the given names; adding a second domain under a used name or a domain owned by another mesh is refused with an error that leaves the registry unchanged, and every operation terminates.',
 ['histories','fault_sequences'],'every sequence of add (named, unnamed, duplicate, foreign), lookup and remove (by name, by pointer, present or absent) operations',
 'Tests add and fetch a few domains in one order and remove at most the first.',
 [T+'Mesh.h',T+'BaseMesh.h',T+'Domain.h'],[('domain list',T+'Mesh.h add_domain, remove_domain, remove, domain')],['add_domain','remove_domain','remove','domain','domains','number_of_domains'],
 state=[dict(name='p_domains',meaning='ordered (name, domain) list',where=T+'Mesh.h')])
p('P17','Meshes and domains survive copy, move, swap and destruction safely',
 'Any sequence of constructing, copying, moving, assigning, swapping and destroying meshes and domains (including clones outliving their originals) never reads freed or uninitialised memory, never frees twice or leaks, and leaves every surviving mesh and domain with the same nodes and element connectivity it was given.',
 ['histories'],'every sequence of value-semantics operations on meshes with domains (owned and externally stored connectivity)',
 'Tests copy or move once and compare; dangling references are only visible to a memory checker after the source is destroyed.',
 [T+'Mesh.h',T+'Domain.h',T+'BaseDomain.h',T+'BaseMesh.h'],[('copy/move/swap members',T+'Mesh.h, Domain.h')],['Mesh copy/move/assign/swap','Domain clone','element','element_indices','mesh()'])
p('P18','Mesh positions and domain connectivity are read faithfully from any layout',
 'Whatever container, scalar type, stride or memory order the node positions and element indices are given in (copied or referenced in place), a mesh returns each node\'s position (zero-padded in 3D views), sub-selections of positions, and each domain returns exactly the given node indices per element and elements built from the corresponding node positions, without touching memory outside the given buffers.',
 ['inputs','configurations'],'every position container and index container layout (row/column major, padded strides, fixed or dynamic size, different integer types), every dimension, every selection of indices',
 'Tests use one contiguous layout.',
 [T+'Mesh.h',T+'Domain.h'],[('position holders',T+'Mesh.h'),('index maps',T+'Domain.h')],['node','position','positions','element','element_indices','number_of_elements','number_of_nodes_per_elements'])
p('P19','Reading a mesh file reproduces its points and cells',
 'For every legacy mesh file with supported cells, reading yields exactly the file\'s nodes (reduced to the requested axes) and, per cell type, one domain with the file\'s cells in order and their nodes in the documented node order of the element; a missing file or points not expressible in the requested dimension are reported as errors.',
 ['inputs','configurations','fault_sequences'],'every file of supported cell types (segments, triangles, quads, tetrahedra, hexahedra, both orders) in any mixture and order, any requested dimension and axis placement',
 'Tests read a fixed set of files with one cell type layout each.',
 [T+'IO/VTKReader.h',T+'IO/VTKReader.cpp'],[('cell-to-domain conversion',T+'IO/VTKReader.cpp'),('axis extraction',T+'IO/VTKReader.cpp extract_axes_from_3D_vectors')],['VTKReader::Read','mesh()','print'])
p('P20','The Python geometry API gives the same results as the C++ library',
 'For every element type exposed to Python, every constructor and method called with any supported array layout returns the values the documented mathematics prescribes (node positions, shape functions, derivatives, Jacobians, Gauss points, mappings to and from the reference element, containment, element counts), and arguments of an unsupported shape or type raise a Python exception instead of crashing.',
 ['inputs','configurations'],'every bound element class and method; every numpy layout (C/Fortran order, slices, integer arrays, lists)',
 'The Python tests exercise a few methods per class with one layout.',
 ['src/Caribou/Python/Geometry/'+x for x in ('Element.h','Segment.cpp','Triangle.cpp','Quad.cpp','Tetrahedron.cpp','Hexahedron.cpp','RectangularHexahedron.cpp')],[('pybind11 bindings','src/Caribou/Python/Geometry/*.cpp')],['Python element methods'])
p('P21','The Python topology API is faithful and memory-safe',
 'For every sequence of Python calls building meshes, domains, grids, spatial hashes, embeddings and reading files, results match the given arrays (any layout) and the same documented behaviour as the C++ library, refused calls (duplicate domain name, index array of the wrong shape or type, missing file) surface as Python exceptions, leave the mesh unchanged and leak nothing, and objects obtained from a mesh stay valid while they are referenced, whatever the order in which the others are released.',
 ['inputs','histories'],'every sequence of calls and object lifetimes; every numpy layout and integer type',
 'The Python tests keep everything alive in one function and use one layout.',
 ['src/Caribou/Python/Topology/'+x for x in ('Mesh.cpp','Domain.h','Domain.cpp','Grid.cpp','HashGrid.cpp','BarycentricContainer.h','IO/IO.cpp')],[('pybind11 bindings and lifetimes','src/Caribou/Python/Topology/*')],['Python Mesh/Domain/Grid/HashGrid/BarycentricContainer'])
p('P22','Deformation gradient and tensor products follow their definitions',
 'For every element, local point and displacement field, the deformation gradient computed from the shape derivatives equals its definition (identity at rest, exact for affine displacements whatever the element, objective under rigid motion, accurate for any scale), and the tensor product helpers return the documented fourth-order products in the documented compact notation.',
 ['inputs'],'every element with 3D nodes, every displacement and local point; every pair of second-order tensors',
 'One fixed displacement is tested.',
 ['src/Caribou/Mechanics/Elasticity/Strain.h','src/Caribou/Algebra/Tensor.h'],[('deformation gradient','src/Caribou/Mechanics/Elasticity/Strain.h'),('dyads','src/Caribou/Algebra/Tensor.h')],['elasticity::strain::F','symmetric_dyad_1, symmetric_dyad_2'])
p('P23','Concurrent read-only use of the library is race-free and deterministic',
 'Any number of threads may, without synchronisation, use the same elements, grids, meshes, domains, spatial hashes and embeddings through their read-only operations, including the very first use in the process: there is no data race and every thread obtains the results of a sequential execution.',
 ['schedules'],'every interleaving of read-only calls on shared objects, including first-time use',
 'Tests are single-threaded.',
 [G+'Element.h',T+'Mesh.h',T+'Domain.h',T+'HashGrid.h',T+'BarycentricContainer.h',T+'Grid/Grid.h'],[('const member functions and function-local static tables',G+'*.h, '+T+'*')],['ThreadSanitizer on read-only API'])
p('P24','Hyperelastic materials are consistent derivatives of their energy',
 'For every material parameter and admissible deformation, the stress of each hyperelastic material is the derivative of its strain energy, its elasticity tensor is the derivative of that stress in the documented compact notation (symmetric), the undeformed state is stress-free with the classical linear-elastic stiffness, and values do not change until parameters are updated.',
 ['inputs','configurations'],'every Young modulus and Poisson ratio in range; every symmetric positive-definite right Cauchy-Green tensor',
 'The plugin that contains the materials is not built by the tests available here; in any case derivative consistency must hold everywhere.',
 ['src/SofaCaribou/Material/HyperelasticMaterial.h','src/SofaCaribou/Material/NeoHookeanMaterial.h','src/SofaCaribou/Material/SaintVenantKirchhoffMaterial.h'],[('closed-form stress and tangent','src/SofaCaribou/Material/*.h')],['strain_energy_density','PK2_stress','PK2_stress_jacobian'])
SC='src/SofaCaribou/'
NOTEST='The SOFA plugin cannot be built by the tests available here; its own tests follow a single scenario each.'
p('P25','Hyperelastic force field is the derivative of the stored energy',
 'For every hexahedral or tetrahedral mesh, hyperelastic material and configuration, the force field adds to the nodal forces minus the gradient of the stored strain energy with respect to the nodal positions (zero resultant and moment, no force for a rigid motion of the rest shape), reports that energy, and its tangent products and assembled stiffness matrices are the (symmetric) derivative of that force scaled by the requested factors, added at the requested offset only; the rest shape is the rest position whatever the configuration at initialisation and wherever the elements come from; a changed material parameter takes effect at the next force evaluation; and the results do not depend on multithreading. What it displays is the bounding box of the current positions and the faces of its elements at those positions, shrunk by the draw scale; an ambiguous choice of topology is reported and has no other effect.',
 ['inputs','configurations','histories'],'every mesh of linear or quadratic hexahedra or tetrahedra, material and parameters, topology source, initial configuration; every sequence of force evaluations (at any position vector), tangent products, assemblies and parameter changes; sequential or multithreaded',
 NOTEST,
 [SC+'Forcefield/HyperelasticForcefield.h',SC+'Forcefield/HyperelasticForcefield.inl',SC+'Forcefield/CaribouForcefield.inl',SC+'Topology/CaribouTopology.inl'],[('force and stiffness assembly',SC+'Forcefield/HyperelasticForcefield.inl addForce, addDForce, addKToMatrix, assemble_stiffness'),('rest shape and quadrature data',SC+'Forcefield/HyperelasticForcefield.inl initialize_elements')],['addForce','addDForce','addKToMatrix','K()','getPotentialEnergy'])
p('P26','Traction force field applies exactly the prescribed load history',
 'After any sequence of time steps, other events, force evaluations and resets, the nodal forces of a traction force field are the integral over the rest surface of the shape functions times the traction reached so far, whose resultant is that traction times the rest area, equal to the reported total load; the traction reached is the whole prescribed one when the slope is zero, otherwise the slope times the number of increments done, never more than prescribed, with one increment at the first step and then one every requested number of steps; it depends neither on the current positions nor on the orientation of the elements, force evaluations add it without changing it, it has no stiffness, and a reset restores the state following the initialisation. What it displays is the bounding box of the current positions and the faces of its elements at those positions, shrunk by the draw scale.',
 ['inputs','histories'],'every surface of linear or quadratic triangles or quads in 2D or 3D, load, slope and waiting count; every sequence of events, force evaluations and resets',
 NOTEST,
 [SC+'Forcefield/TractionForcefield.h',SC+'Forcefield/TractionForcefield.inl',SC+'Forcefield/CaribouForcefield.inl'],[('load increments',SC+'Forcefield/TractionForcefield.inl handleEvent, increment_load, reset'),('surface quadrature',SC+'Forcefield/TractionForcefield.inl get_gauss_nodes')],['nodal_forces','total_load','addForce'])
p('P27','Eigen matrices and vectors wrapped for SOFA behave as plain ones',
 'For every sequence of operations on a dense or sparse, row- or column-major Eigen matrix or vector wrapped for SOFA, by copy or by reference, empty or already holding content, every coefficient reads as in a plain matrix that underwent the same additions, block additions, assignments, row and column clearings (inclusive ranges), compressions, clears and resizes; the external matrix of a reference wrapper always is that matrix, a copied one never changes; and the dot product of any two vectors of any kinds is the sum of the products of their elements.',
 ['inputs','histories'],'every operation history, size, storage order, scalar type, compressed or uncompressed state, declared symmetry; every pair of vector kinds',
 NOTEST,
 [SC+'Algebra/EigenMatrix.h',SC+'Algebra/EigenVector.h',SC+'Algebra/BaseVectorOperations.cpp'],[('deferred triplets and in-place sparse edition',SC+'Algebra/EigenMatrix.h'),('dot product dispatch',SC+'Algebra/BaseVectorOperations.cpp')],['element(i,j)','matrix()','vector()','Algebra::dot'])
p('P28','Barycentric mapping moves embedded nodes with the mesh and transposes forces',
 'For every embedding mesh and set of mapped nodes lying in it, each mapped node follows a single element containing its rest position: mapped positions, free positions and velocities are the shape-function interpolation of those of that element\'s nodes, so that the rest shape maps to the rest positions whatever the configuration at initialisation and wherever the mesh comes from; the forces and constraint rows of the mapped nodes are transferred by exactly the transpose of that interpolation, added to what is already there; and when mapped nodes are outside of the mesh an error is reported and neither positions nor forces are changed.',
 ['inputs','histories'],'every mesh of linear or quadratic hexahedra or tetrahedra, with holes; every set of mapped nodes, rest positions given or not, initial configuration and topology source; every sequence of position, velocity, force and constraint mappings',
 NOTEST,
 [SC+'Mapping/CaribouBarycentricMapping.h',SC+'Mapping/CaribouBarycentricMapping.inl','src/Caribou/Topology/BarycentricContainer.h'],[('initialisation',SC+'Mapping/CaribouBarycentricMapping.inl init'),('mapping and its transpose',SC+'Mapping/CaribouBarycentricMapping.inl apply, applyJ, applyJT')],['apply','applyJ','applyJT'])
p('P29','Linear solvers solve what they are given, or say that they could not',
 'For every linear solver of the plugin (LDLT, LLT, LU, conjugate gradient with any preconditioner), every sequence of matrices of any size and sparsity, assembled directly or from the mechanical objects of a scene with fixed unknowns, and every right-hand side: an analysis and factorization of a regular matrix succeed and the solution satisfies the system to rounding (direct) or to the requested relative threshold (iterative, within the allowed iterations); success is never reported for a solution that does not; indefinite matrices are refused by Cholesky; a null right-hand side gives a null solution; the matrix and right-hand side are left unchanged; the recorded residuals are the actual ones; and nothing of a previous system affects the next.',
 ['inputs','histories','configurations'],'every sequence of systems (regular, singular, indefinite; same size with another pattern, other size), solver, preconditioner, thresholds, scene of several mechanical objects of any dimension',
 NOTEST,
 [SC+'Solver/EigenSolver.h',SC+'Solver/EigenSolver.inl',SC+'Solver/LDLTSolver.inl',SC+'Solver/LLTSolver.inl',SC+'Solver/LUSolver.inl',SC+'Solver/ConjugateGradientSolver.inl',SC+'Solver/LinearSolver.h',SC+'Visitor/AssembleGlobalMatrix.cpp',SC+'Visitor/ConstrainGlobalMatrix.cpp',SC+'Visitor/MultiVecEqualVisitor.cpp'],[('assembly, analysis, factorization, solve',SC+'Solver/EigenSolver.inl'),('(preconditioned) conjugate gradient iterations',SC+'Solver/ConjugateGradientSolver.inl')],['analyze_pattern','factorize','solve','setSystemMBKMatrix','solveSystem','squared_residuals'])
p('P30','Static solvers find the equilibrium and report convergence truthfully',
 'For every scene of mechanical objects with fixed unknowns, mapped objects, linear or nonlinear forces and constraint solvers, and every sequence of time steps with changing matrices, patterns, loads and thresholds, the static and legacy static solvers apply the Newton-Raphson iteration: each iterate is that of the exact scheme to rounding, the recorded residuals are those of the configurations reached, a linear problem is solved by one iteration, fixed unknowns do not move, mapped objects follow, constraints are solved once per iteration, the iterations stop at the first one that satisfies an enabled criterion and convergence is reported only if one is satisfied; no iteration is done only at equilibrium; and a singular system is never reported as solved.',
 ['inputs','histories','configurations'],'every scene, load history, linear solver, pattern analysis strategy and threshold',
 NOTEST,
 [SC+'Ode/NewtonRaphsonSolver.h',SC+'Ode/NewtonRaphsonSolver.cpp',SC+'Ode/StaticODESolver.cpp',SC+'Ode/LegacyStaticODESolver.cpp'],[('Newton iterations and criteria',SC+'Ode/NewtonRaphsonSolver.cpp solve'),('residual, matrix and propagation',SC+'Ode/StaticODESolver.cpp'),('legacy iterations',SC+'Ode/LegacyStaticODESolver.cpp solve')],['solve','converged','squared_residuals','squared_initial_residual'])
p('P31','Backward Euler steps satisfy the discrete equation of motion',
 'For every scene of mechanical objects with masses, dampings, linear or nonlinear forces, Rayleigh coefficients, fixed unknowns, mapped objects and constraint solvers, and every sequence of time steps of any size, the backward Euler solver starts from the prediction x0 + h v0 and iterates on the accelerations so that x = x0 + h v, v = v0 + h a and (1 + h rm) M a + h B a + (Rayleigh stiffness) balance the forces at x: linear problems are solved to rounding by one iteration, a force-free body keeps its velocity, the recorded residuals are those of the states reached, forces of mapped objects count once, fixed unknowns stay fixed, velocity and position constraints are solved once per iteration, and convergence is reported exactly when a criterion is met.',
 ['inputs','histories','configurations'],'every scene, time step, Rayleigh coefficient, linear solver, pattern analysis strategy and threshold; every sequence of steps',
 NOTEST,
 [SC+'Ode/BackwardEulerODESolver.h',SC+'Ode/BackwardEulerODESolver.cpp',SC+'Ode/NewtonRaphsonSolver.cpp'],[('residual',SC+'Ode/BackwardEulerODESolver.cpp assemble_rhs_vector'),('system matrix',SC+'Ode/BackwardEulerODESolver.cpp assemble_system_matrix'),('propagation',SC+'Ode/BackwardEulerODESolver.cpp propagate_solution_increment')],['solve','converged','squared_residuals'])
p('P32','Linear elastic force fields obey the corotated linear elastic law',
 'For every hexahedral or tetrahedral mesh, Young modulus, Poisson ratio and configuration, the forces added by the (hexahedron and tetrahedron) elastic force fields are minus the element stiffness matrices (integral of the linear elastic law over the rest shape, with the chosen quadrature) times the displacements seen in the frame rotating with each element when corotated, or the plain displacements otherwise: a corotated body moved rigidly, however its rest shape is oriented, feels no force. The tangent products, assembled matrices, sparse matrix and eigenvalues are those of that law with the rotations of the last force evaluation, scaled as requested and at the requested offset only; parameters take effect at reinit, which forgets all that preceded it; a missing mechanical state and missing, ambiguous or invalid topologies are reported and produce no force; the bounding box is that of the current positions.',
 ['inputs','configurations','histories'],'every mesh, orientation of the rest shape, material, corotation and integration method; every sequence of force evaluations (at any position vector), tangent products, assemblies, parameter changes and reinitialisations; invalid topologies',
 NOTEST,
 [SC+'Forcefield/HexahedronElasticForce.h',SC+'Forcefield/HexahedronElasticForce.cpp',SC+'Forcefield/TetrahedronElasticForce.h',SC+'Forcefield/TetrahedronElasticForce.cpp'],[('hexahedra',SC+'Forcefield/HexahedronElasticForce.cpp addForce, addDForce, addKToMatrix, K, compute_K, reinit'),('tetrahedra',SC+'Forcefield/TetrahedronElasticForce.cpp addForce, addDForce, addKToMatrix, compute_K, reinit')],['addForce','addDForce','addKToMatrix','K()','eigenvalues'])
p('P33','Fictitious grids hold exactly the cells and volume of the immersed body',
 'For every regular 2D or 3D grid and every immersed surface (circle, sphere, cylinder, user level-set, or closed triangulation in 3D), with any number of subdivision levels and volume threshold, the sparse grid contains, each once, exactly the cells that are not outside of the surface and whose volume ratio reaches the threshold, with exactly their nodes, at the positions and in the order of the regular grid; a cell is inside (outside) when the level-set is negative (positive) at all its corners, or when no triangle meets it and it cannot (can) be reached from the border of the grid without crossing a cell that one meets, and is a boundary cell otherwise, subdivided up to the requested level. The volume ratios, the Gauss nodes of a cell at any requested level (in its local frame) and their weights are those of the resulting quadtree or octree, so they integrate its volume; the type of a point is that of the cells around it; the bounding box is that of the grid whatever the order of the corners; and making the grid again yields what a new grid would. Missing or invalid input is reported.',
 ['inputs','configurations','histories'],'every resolution, bounds (given in any order, or those of the surface), surface, subdivision level, threshold, query point and level; nodes lying exactly on the surface; repeated constructions; sequential or multithreaded',
 NOTEST,
 [SC+'Topology/FictitiousGrid.h',SC+'Topology/FictitiousGrid.inl',SC+'Topology/FictitiousGrid.cpp',SC+'Topology/IsoSurface.h',SC+'Topology/CircleIsoSurface.h',SC+'Topology/SphereIsoSurface.h',SC+'Topology/CylinderIsoSurface.h'],[('classification',SC+'Topology/FictitiousGrid.inl tag_intersected_cells_from_implicit_surface, create_regions_from_same_type_cells, tag_outside_cells'),('subdivision',SC+'Topology/FictitiousGrid.cpp subdivide_intersected_cells'),('sparse grid',SC+'Topology/FictitiousGrid.inl create_sparse_grid'),('integration',SC+'Topology/FictitiousGrid.inl get_gauss_nodes_of_cell')],['get_gauss_nodes_of_cell','get_type_at','cell_volume_ratio_distribution','position','hexahedra','quads'])
p('P34','Scene components are made for the elements requested; topologies hold them',
 'A Caribou topology given element indices and node positions (or a mechanical state beside it, whose rest positions are then used), or attached to a domain, holds exactly these elements, in that order, with their nodes at these positions, however often it is filled again, and its indices attribute is that of its elements; missing or out of range indices and missing positions are reported and make no element. The element type of a Caribou force field or barycentric mapping is the one requested by template (in any letter case), or else the one of the topology it is linked to, or else the one of a topology of its node (for mappings: of its node or its parent); it is refused, with an explanation and without changing the request, for every other element type and, for force fields, when the mechanical state of its node has another dimension. A force field that is created works on exactly the elements of its topology; one put in a node without mechanical state reports it and does nothing. Materials are created for the data type requested or that of the state of their node, linear solvers for their own backend only. Every element type has its own template name and makes components of that type.',
 ['inputs','configurations','histories'],'every element type, scene (nodes, states, Caribou topologies, SOFA containers) and request (template, topology path, backend); every history of indices, positions and attached domains given to a topology',
 NOTEST,
 [SC+'Topology/CaribouTopology.h',SC+'Topology/CaribouTopology.inl',SC+'Forcefield/CaribouForcefield.inl',SC+'Mapping/CaribouBarycentricMapping.inl',SC+'Material/HyperelasticMaterial.h',SC+'Solver/EigenSolver.inl'],[('topologies',SC+'Topology/CaribouTopology.inl init, initializeFromIndices, attachDomain'),('force fields',SC+'Forcefield/CaribouForcefield.inl canCreate, init'),('mappings',SC+'Mapping/CaribouBarycentricMapping.inl canCreate'),('solvers',SC+'Solver/EigenSolver.inl canCreate')],['domain','element','number_of_elements','canCreate','created components'])
p('P35','The Python face of the scene components is faithful and memory-safe',
 'What the SofaCaribou Python module shows of a scene component is what the component holds: the complete tangent stiffness, eigenvalues and condition number of hyperelastic and hexahedral elastic force fields, the Gauss nodes and (upper half of the) stiffness of every hexahedron, the matrix of the conjugate gradient solver assembled for the factors given (None before any assembly), the residuals and times of the last step of the static solvers, the domain of a topology (None when it has no elements) and the counts and volume ratios of a fictitious grid. Assembling the stiffness from Python at given positions, in double or single precision and any array layout, gives the stiffness at these positions and changes neither the array nor the matrices handed out before. Malformed arguments and indices out of range raise an exception and change nothing. Whatever is obtained stays valid while it is referenced, even after the scene is released.',
 ['inputs','histories'],'every component, mesh, array layout, sequence of calls and order in which Python objects and scenes are released',
 NOTEST,
 [SC+'Python/Forcefield/HyperelasticForcefield.h',SC+'Python/Forcefield/HexahedronElasticForce.cpp',SC+'Python/Solver/ConjugateGradientSolver.h',SC+'Python/Ode/StaticODESolver.cpp',SC+'Python/Ode/LegacyStaticODESolver.cpp',SC+'Python/Topology/CaribouTopology.h',SC+'Python/Topology/FictitiousGrid.cpp',SC+'Python/SofaCaribou.cpp'],[('pybind11 bindings, return policies and lifetimes',SC+'Python/*')],['K','cond','eigenvalues','assemble_stiffness','gauss_nodes_of','stiffness_matrix_of','A','assemble','squared_residuals','iteration_times','domain','number_of_cells','cell_volume_ratio_distribution'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
