#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(zip(('name', 'where'), m)) for m in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Assembling a coupled form never depends on what was assembled before',
     'The tensor obtained by assembling a form with a reduction (trace, average, restriction, injection, point or gradient evaluation, mean) '
     'equals the tensor obtained by assembling that form first, on freshly built meshes and spaces, whatever other forms were assembled earlier on the same meshes; fields, markers and weights that parametrize the reduction enter with the values they have at the time of assembly. '
     'In particular two requests that differ in any parameter the user chose (side, normal, marker tags, shape, point, direction, method, element) never share an operator. '
     'Assembling, converting or applying boundary conditions never alters the result of a later, identical request.',
     ['histories', 'inputs'],
     'every finite history of assembly requests over any mix of reductions, their parameters and element types on shared background/embedded meshes',
     'The operators are memoised on the mesh objects; each test assembles one form once on a fresh mesh, so no test ever takes a cache hit with different parameters.',
     ['xii/assembler/trace_matrix.py', 'xii/assembler/average_matrix.py', 'xii/assembler/restriction_matrix.py',
      'xii/assembler/injection_matrix.py', 'xii/assembler/point_trace_matrix.py', 'xii/assembler/gradient_point_trace_matrix.py',
      'xii/assembler/interpolation_matrix.py', 'xii/assembler/mean_matrix.py', 'xii/assembler/patch_average_matrix.py',
      'xii/assembler/flux_average_matrix.py', 'xii/assembler/transpose_trace_matrix.py', 'xii/assembler/surface_mean_matrix.py'],
     [('memo keys of every reduction operator', 'memoize_* decorators in xii/assembler/*_matrix.py'),
      ('key construction for the trace', 'xii/assembler/trace_matrix.py:18 memoize_trace')],
     ['result of ii_assemble + ii_convert after each step of a history'],
     [('operator caches', 'memoised reduction matrices stored on mesh objects', 'mesh.trace_cache, mesh.average_cache, ...')])

prop('C02', 'Extracting an embedded or sub-domain mesh reproduces the marked set exactly',
     'The mesh extracted from a marking function and a set of tags contains exactly the marked entities, each once, with exactly the vertices they use, at the same coordinates. '
     'Its parent maps send every vertex and cell of the new mesh to the background entity it came from, and its cell markers repeat the tag of that entity. '
     'The marking function and the background mesh are not modified, and several tags combine as a union.',
     ['inputs', 'configurations'],
     'every background mesh (interval, triangle, tetrahedron), every marking function of cells, facets or edges, every non-empty set of tags (integer, list, tuple or set), and nested extraction',
     'The tests extract a handful of fixed interfaces and compare integrals over them; a wrong vertex map, dropped vertex or shifted marker is invisible to an integral.',
     ['xii/meshing/embedded_mesh.py', 'xii/meshing/subdomain_mesh.py', 'xii/meshing/make_mesh_cpp.py'],
     [('EmbeddedMesh', 'xii/meshing/embedded_mesh.py'), ('SubDomainMesh, OverlapMesh', 'xii/meshing/subdomain_mesh.py'),
      ('mesh construction from arrays', 'xii/meshing/make_mesh_cpp.py')],
     ['coordinates, cells, marking_function, parent_entity_map of the extracted mesh'])

prop('C03', 'Geometric embedding maps are sound, complete for the tags, and grow safely',
     'When the embedding of a mesh into a background mesh is computed from geometry, every mapped vertex and cell of the embedded mesh is sent to the background entity at the same coordinates, and every cell with a requested tag is mapped. '
     'Asking for further tags later extends what is known and never corrupts it; asking again changes nothing. '
     'A mesh that is not embedded is refused instead of being mapped wrongly.',
     ['histories', 'inputs'],
     'every pair of background/embedded mesh with arbitrary renumbering of vertices and cells, every cell marking, every sequence of tag requests',
     'Tests exercise one identity-numbered embedding with all tags at once; incremental requests and renumbered meshes are never run.',
     ['xii/meshing/embedded_mesh.py', 'xii/assembler/trace_matrix.py'],
     [('build_embedding_map', 'xii/meshing/embedded_mesh.py'), ('incremental request of the map', 'xii/assembler/trace_matrix.py:513'),
      ('compute_embedding', 'xii/meshing/embedded_mesh.py')],
     ['parent_entity_map after each request, marking functions produced'],
     [('parent entity map', 'per background mesh: vertex and cell maps plus the tags covered', 'mesh.parent_entity_map')])

prop('C04', 'Trace operators evaluate the right side, sign, component and tagged part',
     'On a conforming codimension-one mesh the trace of a continuous function is its value on the mesh; the one-sided traces of a discontinuous function are the values from the cells on the two sides determined by the chosen normal (it points out of the + cell); the jump is + minus -, the average their mean. '
     'On the boundary of the domain every one-sided trace, jump and average takes the value of the only cell there is. '
     'With tags given, rows belonging to the tagged part agree with the untagged operator and the other rows are zero.',
     ['inputs', 'configurations'],
     'every background mesh and embedded mesh in two and three dimensions, element of the supported families (scalar, vector), side selection, normal orientation and tag set',
     'The tests compare L2 norms of traces of smooth functions, for which both sides agree, so side, sign and tag errors cannot show.',
     ['xii/assembler/trace_matrix.py', 'xii/assembler/trace_form.py', 'xii/assembler/trace_assembly.py', 'xii/assembler/nonconforming_trace_matrix.py'],
     [('trace_mat and its variants', 'xii/assembler/trace_matrix.py:34'), ('Trace', 'xii/assembler/trace_form.py:82')],
     ['matrix of ii_assemble(inner(Trace(u, mesh, ...), v)*dx)'])

prop('C05', 'Assembly is the sum of its integrals with reduced arguments substituted',
     'Assembling a form equals the sum over its integrals of the integral assembled with each reduced argument replaced by its reduction: test and trial reductions multiply from the left (transposed) and from the right, reduced coefficient functions are evaluated with their current values. '
     'Coefficients, signs, marked parts of the domain, the order of integrals and mixing ordinary with reduced integrals do not change this. '
     'Nested lists of forms give the block tensor of the same shape with each entry in its place; plain numbers pass through.',
     ['programs', 'inputs'],
     'every form built by sums, scalings and products from reduced/unreduced test, trial and coefficient functions, and every nesting of lists of such forms and numbers',
     'Tests assemble functionals with a single reduced coefficient and one integral; forms with several integrals or reductions of both arguments are untested.',
     ['xii/assembler/xii_assembly.py', 'xii/assembler/reduced_assembler.py', 'xii/assembler/ufl_utils.py', 'xii/linalg/list_utils.py'],
     [('ReducedFormAssembler.assemble', 'xii/assembler/reduced_assembler.py:48'), ('assemble', 'xii/assembler/xii_assembly.py:24'),
      ('replace', 'xii/assembler/ufl_utils.py:98')],
     ['ii_convert(ii_assemble(form)) entries; shape and entries of block results'])

prop('C06', 'Converting a block operator expression preserves its algebraic meaning',
     'Converting any well-formed expression of products, sums, differences, transposes and scalar multiples of matrices, or a block matrix/vector of such expressions, yields the matrix (vector) that the expression denotes. '
     'Zero entries take the size their row and column demand, a number on the diagonal stands for that multiple of the identity. '
     'The operands are not modified, and the block and monolithic results agree entry by entry.',
     ['programs', 'inputs'],
     'every type-correct operator expression over matrices and numbers, every block layout including rectangular blocks and zero blocks',
     'No test converts an expression with more than one operator or compares entries.',
     ['xii/linalg/convert.py', 'xii/linalg/matrix_utils.py'],
     [('convert', 'xii/linalg/convert.py:21'), ('collapse_*', 'xii/linalg/convert.py:138'), ('zero/diagonal blocks', 'xii/linalg/matrix_utils.py:46')],
     ['entries of ii_convert(expr) and of the operands afterwards'])

prop('C07', 'The non-recursive collapse agrees with the meaning of the expression',
     'Collapsing an expression by repeated replacement of collapsible sub-expressions yields the matrix the expression denotes, for any nesting depth, any order of operands and any sharing of operands or sub-expressions, also inside block matrices. '
     'It always terminates and does not modify its operands.',
     ['programs', 'schedules'],
     'every type-correct operator expression, with repeated operands and shared sub-expressions, and every order in which collapsible parts are picked',
     'The routine has no test; a graph-rewriting algorithm keyed by operand identity fails only for particular sharing patterns.',
     ['xii/linalg/collapse_iter.py'],
     [('expr2graph', 'xii/linalg/collapse_iter.py:37'), ('replace_tree', 'xii/linalg/collapse_iter.py:127'), ('collapse', 'xii/linalg/collapse_iter.py:246')],
     ['entries of monolithic(expr)'],
     [('expression graph', 'operator/operand graph shrunk step by step', 'collapse_iter.collapse')])

prop('C08', 'Boundary conditions constrain exactly the prescribed unknowns',
     'After applying boundary conditions every solution of the new system takes the prescribed values at the constrained unknowns and satisfies the original equations of all others; no other row is touched. '
     'In symmetric mode the constrained columns are eliminated with the right-hand side adjusted, so a symmetric matrix stays symmetric and has the same solution. '
     'The way the conditions are given (per block list, dictionary, values by unknown, several conditions per block, none at all, a single matrix) does not matter, and the returned re-application treats later right-hand sides identically.',
     ['inputs', 'configurations', 'histories'],
     'every block system, every placement and form of conditions in the blocks, symmetric or not, any diagonal value, any later sequence of right-hand sides',
     'No test applies conditions; convergence demos would hide a wrong coupling column or a misaligned value.',
     ['xii/linalg/bc_apply.py'],
     [('apply_bc', 'xii/linalg/bc_apply.py:14'), ('re-application', 'xii/linalg/bc_apply.py:125')],
     ['blocks of A and b returned, apply_b on further vectors'])

prop('C09', 'Block-space operators are the index maps they claim, with exact adjoints',
     'Selecting, reducing, regrouping, rearranging and vectorising block vectors moves every entry to the announced position and nothing else; applying the transpose gives the adjoint. '
     'Composition with the inverse arrangement is the identity. '
     'Viewing a block system as nested/PETSc objects or block functions keeps order and values in both directions.',
     ['inputs', 'programs'],
     'every block layout, every selection/offset/permutation, every vector',
     'None of these operators has a test.',
     ['xii/linalg/block_utils.py', 'xii/linalg/nest.py', 'xii/linalg/function.py', 'xii/linalg/matrix_utils.py', 'xii/linalg/bc_apply.py'],
     [('SubSelect/Rearange/Reduction/Regroup/Vectorized operators', 'xii/linalg/block_utils.py:184-416'),
      ('nest', 'xii/linalg/nest.py'), ('ii_Function', 'xii/linalg/function.py:19'), ('block_reshape', 'xii/linalg/matrix_utils.py:73')],
     ['results of operator*vector and operator.T*vector, entries of views'])

prop('C10', 'Block form algebra commutes with assembly',
     'Adding, permuting, transposing and completing block forms before assembly gives the same block tensor as doing the operation on the assembled tensor: a permuted form assembles to the permuted blocks, the adjoint to the transpose, the self-adjoint completion of an upper triangular form to a symmetric operator. '
     'Forms that are not triangular or are mis-sized are refused. '
     'The input forms are not changed.',
     ['programs', 'inputs'],
     'every block form (linear, bilinear, with missing blocks) and every sequence of the operations',
     'No test covers block forms.',
     ['xii/assembler/block_form.py'],
     [('_block_form', 'xii/assembler/block_form.py:66'), ('form_adjoint', 'xii/assembler/block_form.py:179'),
      ('make_selfadjoint', 'xii/assembler/block_form.py:211'), ('permute', 'xii/assembler/block_form.py:232')],
     ['blocks of ii_assemble of the derived form'])

prop('C11', 'Mesh refinements tile the parent and know their parents',
     'Every refinement or dual mesh tiles the original domain exactly: each parent cell is the union of its own children, which do not overlap, and the child mesh is conforming. '
     'Original vertices stay where they are, and the parent maps of vertices and cells are correct after any number of refinement steps. '
     'The parent mesh is untouched.',
     ['inputs', 'histories'],
     'every simplicial mesh, every supported refinement and every number of refinement rounds',
     'Tests check one or two fixed meshes through volume sums.',
     ['xii/meshing/refinement.py', 'xii/meshing/dual_mesh.py'],
     [('centroid/circumcenter/inner point refinement', 'xii/meshing/refinement.py'), ('dual mesh', 'xii/meshing/dual_mesh.py')],
     ['cells, coordinates and parent maps of the refined mesh'])

prop('C12', 'Mortar interfaces connect exactly the neighbouring sub-domains',
     'Splitting a marked mesh gives one sub-mesh per tag and an interface made of exactly the facets between different tags, each interface cell labelled by the unordered pair of tags it separates. '
     'The maps from the interface to both neighbouring sub-meshes lead to entities that coincide with the interface cell, and into the background mesh likewise.',
     ['inputs'],
     'every mesh and every cell marking with two or more tags',
     'No test covers mortar meshes.',
     ['xii/meshing/mortar_mesh.py', 'xii/meshing/subdomain_mesh.py'],
     [('mortar_meshes', 'xii/meshing/mortar_mesh.py')],
     ['sub-meshes, interface mesh, colour map and parent maps returned'])

prop('C13', 'Markers survive transfer between meshes',
     'Transferring markers of facets (edges, vertices) to a sub-mesh, an embedded mesh, an overlap mesh or a mortar interface gives every entity present in both the colour it had, if it is among the tags transferred, and leaves the default to every other entity. '
     'The order of entities, their numbering in either mesh and the set of tags transferred do not matter.',
     ['inputs', 'configurations'],
     'every pair of parent/child meshes, every marking, every selection of tags',
     'No passing test covers marker transfer.',
     ['xii/meshing/transfer_markers.py', 'xii/meshing/embedded_mesh.py'],
     [('transfer_markers', 'xii/meshing/transfer_markers.py'), ('translate_markers', 'xii/meshing/embedded_mesh.py')],
     ['marking function returned on the target mesh'])

prop('C14', 'One-dimensional networks decompose into maximal unbranched paths',
     'Colouring a network of line segments assigns every cell exactly one colour; cells of one colour form one connected path or loop whose interior vertices have exactly two cells, and whose ends are end points or bifurcations of the network. '
     'Walking a path visits each of its cells and vertices once, in order, with the announced orientation. ',
     ['inputs'],
     'every network mesh: trees, loops, several components, any numbering',
     'No test covers the walks; a greedy graph traversal fails only for particular topologies and numberings.',
     ['xii/meshing/branching.py'],
     [('color_branches', 'xii/meshing/branching.py'), ('walk_vertices, walk_cells', 'xii/meshing/branching.py')],
     ['colours per cell, terminals, vertex/cell walks'])

prop('C15', 'Building meshes from pieces glues them without loss',
     'The union of meshes contains every cell of every input exactly once with its coordinates, vertices shared geometrically are merged, and the recorded maps lead from each input to its image; the inputs are not modified. '
     'A mesh built from line branches contains exactly the prescribed segments, consecutive points of each branch, with common end points merged. A mesh built from gmsh node and element tables consists of exactly those cells, and carries exactly the tags of the given elements.',
     ['inputs', 'histories'],
     'every number and order of input meshes or branches, shared or disjoint, nested unions',
     'Tests cover a single union of two meshes or none.',
     ['xii/meshing/union_mesh.py', 'xii/meshing/line_mesh.py', 'xii/meshing/gmsh_interopt.py'],
     [('union_mesh', 'xii/meshing/union_mesh.py'), ('line_mesh', 'xii/meshing/line_mesh.py')],
     ['cells, coordinates and leaf maps of the result'])

prop('C16', 'Transfer operators between meshes reproduce functions both meshes can represent',
     'Restriction to a sub-mesh takes the values the function has there; injection into a nested or overlapping mesh reproduces the function; the interpolation matrix between any two spaces on the same region reproduces functions of the coarser space. '
     'Lifting from the interface (transposed trace) is the exact transpose of the trace; the uniform extension from a line takes the value at the nearest point of the line.',
     ['inputs', 'configurations'],
     'every pair of meshes (sub-mesh, refined mesh, unrelated mesh), supported element and method',
     'Tests compare norms for one or two smooth functions; most of the injection tests fail at the pinned commit.',
     ['xii/assembler/restriction_matrix.py', 'xii/assembler/injection_matrix.py', 'xii/assembler/interpolation_matrix.py',
      'xii/assembler/transpose_trace_matrix.py'],
     [('restriction_mat', 'xii/assembler/restriction_matrix.py:25'), ('injection_matrix', 'xii/assembler/injection_matrix.py'),
      ('interpolation_mat', 'xii/assembler/interpolation_matrix.py:23')],
     ['matrices of the corresponding ii_assemble calls'])

prop('C17', 'Derivatives of coupled forms are exact',
     'The derivative of a form with respect to a coefficient function, including coefficients inside reductions to other meshes, assembles to the true directional derivative of the assembled form. '
     'The block Jacobian has one row per form and one column per unknown, with structural zeros exactly where there is no dependence.',
     ['programs', 'inputs'],
     'every polynomial form in reduced and unreduced coefficients, every block of unknowns, every state',
     'No test covers derivatives.',
     ['xii/nonlin/jacobian.py'],
     [('ii_derivative', 'xii/nonlin/jacobian.py'), ('block_jacobian', 'xii/nonlin/jacobian.py')],
     ['assembled derivative against exact differences of assembled forms'])

prop('C18', 'Normals and tangents of embedded meshes are unit and consistently oriented',
     'The outer (inner) normal of an embedded hypersurface is a unit vector orthogonal to every cell and points away from (towards) the chosen orientation points on all cells. '
     'The tangent of a curve is the unit vector along every cell and keeps its direction along each component of the curve, closed or open. The curve normal is a rotation of the tangent; '
     'for a closed curve in the plane it points to the side away from the enclosed region when the outside point is not enclosed (and the opposite way otherwise), whichever way the curve is walked, and enclosed points are recognised as such. '
     'The oriented facet normal of a marked background points from the higher to the lower marked cell, and outwards on the boundary.',
     ['inputs'],
     'every embedded curve/surface in two and three dimensions, any numbering of cells and vertices, any valid orientation points',
     'No test looks at the orientation of individual cells.',
     ['xii/meshing/embedded_mesh.py', 'xii/meshing/dg_utils.py'],
     [('OuterNormal, InnerNormal', 'xii/meshing/embedded_mesh.py'), ('TangentCurve, NormalCurve', 'xii/meshing/embedded_mesh.py'),
      ('OrientedFacetNormal', 'xii/meshing/dg_utils.py')],
     ['cell-wise values of the returned function'])

prop('C19', 'Averaging reproduces constants and linear fields and stays local',
     'The average of a function over a circle, disk, square or rim of a square around a line is the integral over that shape (in the plane orthogonal to the line, of the size given at that point) divided by its measure: '
     'constants are reproduced exactly, linear functions at the centre, quadratics up to their known spread, and the quadrature of a requested degree is exact to that degree. It involves only cells within reach of the shape; '
     'parts of a shape outside of the mesh contribute nothing. The measure function gives the measure of the shapes. Flux averages are those of the component normal to the circle. Without a shape the average is the value on the line. '
     'Patch averages are means over the cells of the patch assigned to the unknown (zero for unknowns without a patch), with and without a colouring of patches; Mean is the integral of the function times the weight over the measure and SurfaceMean the mean over the embedded surface.',
     ['inputs', 'configurations'],
     'every line position and direction, shape type, (variable) size, quadrature degree, element, patch marking and colouring, weight and measure',
     'Two tests measure norms for single smooth functions.',
     ['xii/assembler/average_matrix.py', 'xii/assembler/average_shape.py', 'xii/assembler/patch_average_matrix.py',
      'xii/assembler/flux_average_matrix.py', 'xii/assembler/mean_matrix.py', 'xii/assembler/surface_mean_matrix.py'],
     [('avg_mat', 'xii/assembler/average_matrix.py:28'), ('shapes', 'xii/assembler/average_shape.py'), ('patch_avg_mat', 'xii/assembler/patch_average_matrix.py:30')],
     ['rows of the averaging matrix'])

prop('C20', 'Projections and null-space handling remove exactly the given directions',
     'Orthogonalising against a null-space basis removes exactly its components: the result is orthogonal to every basis vector, vectors already orthogonal are unchanged, and applying it twice is applying it once. '
     'The mean-free inner product and its Riesz map are symmetric and inverse to each other on mean-free functions.',
     ['inputs', 'histories'],
     'every basis (independent vectors, constants per block), every vector and number of applications',
     'No test covers these operators.',
     ['xii/linalg/block_nullspace.py', 'xii/linalg/sherman_morrison.py'],
     [('BlockNullspace', 'xii/linalg/block_nullspace.py'), ('Projector, L20_*', 'xii/linalg/sherman_morrison.py')],
     ['results of applying the operators'])

prop('C21', 'PETSc and SciPy wrappers act as the operator they wrap',
     'Wrapping a block operator or preconditioner for PETSc or SciPy, a PETSc preconditioner for cbc.block, an operator applied to each component of a vector space, or an operator between finite element spaces yields an operator of the same size whose product (and transposed product and matrix, where offered) equals that of the wrapped one, for whatever sequence of applications, without changing the argument or depending on what the result vector held. '
     'A null space given with an operator is attached as given. '
     'The supplied Krylov drivers return a solution of the system they were given in the layout of its right-hand side, which is not changed.',
     ['inputs', 'histories'],
     'every block operator, every sequence of applications to every vector, with or without a null space',
     'No test covers the wrappers.',
     ['xii/linalg/block_utils.py', 'xii/linalg/krylov_api.py', 'xii/linalg/fe_space_op.py'],
     [('ii_PETScOperator, ii_PETScPreconditioner', 'xii/linalg/block_utils.py:26'), ('krylov drivers', 'xii/linalg/krylov_api.py')],
     ['results of mult/multTranspose/apply, solver output'])

prop('C22', 'Point evaluations read the function and its gradient at the chosen place',
     'The point trace of a function is its value (all components) at the chosen vertex read from the chosen cell; the gradient point trace is its derivative along the chosen direction there. '
     'Values of the function in other cells do not matter, and evaluations at different vertices, cells or directions of the same space are independent of each other and of their order. '
     'Evaluating does not change the function: the same function can be used as it is afterwards.',
     ['inputs', 'histories'],
     'every mesh, continuous and discontinuous element, vertex, choice of cell, tangent, sequence of evaluations',
     'The passing tests use one function on one mesh.',
     ['xii/assembler/point_trace_matrix.py', 'xii/assembler/gradient_point_trace_matrix.py'],
     [('point_trace_mat', 'xii/assembler/point_trace_matrix.py:33'), ('gradient_point_trace_mat', 'xii/assembler/gradient_point_trace_matrix.py:12')],
     ['vector/matrix assembled'])

prop('C23', 'Cell and facet centres, and distances between them, are the geometry\'s',
     'The centroid of a cell or facet is the mean of its vertices, the circumcentre of a cell is the point of its plane with the same distance to all vertices. '
     'For meshes of triangles and tetrahedra the vector of a facet joins the centres of its two cells, on the boundary it goes from the centre of the facet to that of the cell; '
     'the distance of a facet is the length of that vector, the distance of the second kind (CentroidDistance2, CircumDistance2) is the sum of the distances of the centres of its cells to the centroid of the facet. '
     'All are those of the mesh as it is at the time of the call (also after its vertices were moved), for any numbering and unit of length, and asking does not change the mesh. '
     'Not covered: distances on meshes of lines, whose meaning the code leaves open, and circumcentres on an interval, which are not offered.',
     ['inputs', 'histories'],
     'every mesh (also embedded in more dimensions), numbering, unit of length, sequence of moves of its vertices and calls',
     'The passing tests look at centroids and circumcentres of structured meshes; the distances are not tested.',
     ['xii/meshing/cell_centers.py'],
     [('CellCentroid, CellCircumcenter, FacetCentroid', 'xii/meshing/cell_centers.py'), ('_CenterVector, _CenterDistance, _CenterDistance2', 'xii/meshing/cell_centers.py')],
     ['values of the returned functions per cell and facet'])


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as out:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            out.write(json.dumps(p) + '\n')


if __name__ == '__main__':
    main()
