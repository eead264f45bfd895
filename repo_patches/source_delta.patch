From 9e079a883ca812f01ecf0f88e4b57c93e7c11540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 01/37] fix: converting transposes of composed operators,
 differences with zero, scalar chains

---
 xii/linalg/convert.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 5149ff8..1e59828 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -146,7 +146,7 @@ def collapse_tr(bmat):
         A_.transpose(C_)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_tr(collapse(bmat))
+    return collapse_tr(block_transpose(collapse(A)))
 
 
 def collapse_add(bmat):
@@ -172,6 +172,10 @@ def collapse_add(bmat):
 def collapse_sub(bmat):
     '''A - B to single matrix'''
     A, B = bmat.A, bmat.B
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
+    if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
+        return collapse_mul(block_mul(-1, B))
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -182,7 +186,7 @@ def collapse_sub(bmat):
         C_.axpy(-1., B_, PETSc.Mat.Structure.DIFFERENT)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_sub(collapse(A) - collapse(B))
+    return collapse_sub(block_sub(collapse(A), collapse(B)))
 
 
 def collapse_mul(bmat):
@@ -218,7 +222,7 @@ def collapse_mul(bmat):
             return collapse(collapse(A)*collapse(B))
     # Recurse
     else:
-        return collapse_mul(collapse(A)*collapse(reduce(operator.mul, B)))                                    
+        return collapse_mul(collapse(A)*collapse(reduce(block_mul, B)))                                    
 
     
 # Conversion via numpy
@@ -320,7 +324,7 @@ def get_dims(thing):
             assert dims_A[1] == dims_B[0], (dims_A, dims_B) 
             return (dims_A[0], dims_B[1])
         else:
-            dims_B = get_dims(reduce(operator.mul, B))
+            dims_B = get_dims(reduce(block_mul, B))
             
             assert len(dims_A) == len(dims_B) 
             assert dims_A[1] == dims_B[0], (dims_A, dims_B)
-- 
2.43.0


From 7c7e1e03261e524270ed277178a10a2eac81f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 02/37] fix: graph collapse of shared subexpressions, repeated
 results, scalar chains and differences with zero

---
 xii/linalg/collapse_iter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 176621c..2f7ce0c 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -1,5 +1,6 @@
 from collections import defaultdict
 from functools import reduce
+from copy import copy
 from itertools import chain
 import operator
 
@@ -73,8 +74,9 @@ def expr2graph(expr):
                 terminal_labels[child].append(child_node)
                 terminal_counter += 1
             else:
-                subexpr.append(child)
-                child_node = child
+                # ... shared subexpressions get a node for each occurence
+                child_node = copy(child) if child in g else child
+                subexpr.append(child_node)
             # ... index to edge
             g.add_edge(parent, child_node, index=index)
             
@@ -201,6 +203,10 @@ def collapse_add(A, B):
 
 def collapse_sub(A, B):
     '''A - B to single matrix'''
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
+    if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
+        return collapse_mul(-1, B)
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -238,6 +244,9 @@ def collapse_mul(A, B):
         C_ = B_.copy()
         C_.scale(A)
         return df.PETScMatrix(C_)
+
+    if is_number(A) and is_number(B):
+        return A*B
     
     # Otherwise
     raise ValueError
@@ -261,7 +270,7 @@ def collapse(expr):
             # FIXME: this is a mock up
             # terminal = collapse_tree(sub_expr)
             mat = collapse_tree(tree, terminals)
-            node = str(mat)
+            node = f'{mat}_{len(terminals)}'  # Unique also if mat is reused
             # In graph we put name ...
             graph, done = replace_tree(graph, tree, node)
             # ... and we have a lookup
-- 
2.43.0


From 1711357646fcace191070121db9e199f7542c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 03/37] fix: embedding maps for tags requested later, vertices
 of computed embeddings, embeddings of a single cell

---
 xii/assembler/trace_matrix.py | 11 +++++------
 xii/meshing/embedded_mesh.py  | 11 +++++++++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index c659b10..3d5ba23 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -527,12 +527,11 @@ def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
             parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
             trace_mesh.parent_entity_map[mesh_id] = parent_entity_map
         else:
-            needed_tags = trace_mesh.tagged_cells - tags
-            compute = True
-            if needed_tags:
-                tagged_trace_entities = set(np.hstack([subdomains.where_equal(tag) for tag in needed_tags]))
-                mapped_trace_entities = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
-                compute = tagged_trace_entities <= mapped_trace_entities
+            # We need to compute if some cell with requested tag is not mapped
+            mapped_trace_entities = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
+            needed_tags = set(tag for tag in tags
+                              if not set(subdomains.where_equal(tag)) <= mapped_trace_entities)
+            compute = bool(needed_tags)
                 
             if compute:
                 info('\tMissing map for tags %r of mesh %d' % (needed_tags, mesh_id))
diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 23b4dd0..96609bb 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -181,7 +181,9 @@ class EmbeddedMesh(df.Mesh):
 
                 entity_mapping[the_cell] = entity
 
-                # FIXME: do we need vertex embedding here?
+                for v in c2v(the_cell):
+                    dists = np.linalg.norm(entity_x-x[v], 2, axis=1)
+                    vertex_mapping[v] = entity_vertices[np.argmin(dists)]
         self.parent_entity_map[parent_mesh.id()] = {0: vertex_mapping, tdim: entity_mapping}
 
         if not any(pmesh.id() == parent_mesh.id() for pmesh in self.parent_meshes):
@@ -373,7 +375,12 @@ def InnerNormal(mesh, orientation):
 
 def is_1_sequence(iterable):
     '''value mathces the index (-offset)'''
-    steps = np.unique(np.diff(np.sort(np.fromiter(iterable, dtype='uintp'))))
+    values = np.sort(np.fromiter(iterable, dtype='uintp'))
+    # Single item
+    if len(values) == 1:
+        return True
+
+    steps = np.unique(np.diff(values))
     if not len(steps) == 1:
         return False
 
-- 
2.43.0


From b7173a461db240e69f9d086b88a5a809aabeca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 04/37] fix: jump and average traces, one-sided traces on the
 boundary

---
 xii/assembler/trace_matrix.py | 51 +++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 3d5ba23..8c458fe 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -252,8 +252,9 @@ def DLT_trace_mat(V, TV, trace_mesh=None, tag_data=None):
 def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
     Compute the trace values using +/- restriction. A + plus is the one 
-    for which the vector cell.midpoint - facet.midpoint agrees in orientation
-    with the normal on the facet.
+    for which the vector facet.midpoint - cell.midpoint agrees in orientation
+    with the normal on the facet, i.e. the normal points out of the + cell. 
+    On the boundary the only cell is used.
     '''
     assert normal.function_space().ufl_element().family() == 'Discontinuous Lagrange'
     assert normal.function_space().ufl_element().degree() == 0
@@ -322,6 +323,10 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
             r = r / np.linalg.norm(r)
             sign = '+' if np.inner(r, trace_cell_normal) > 0 else '-'
             signs.append(sign)
+        # On the boundary there is no other choice
+        if len(facet_cells) == 1:
+            return facet_cells[0]
+
         cell = facet_cells[signs.index(restriction)]
 
         return cell
@@ -412,19 +417,29 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
                                  csr=(mat.indptr, mat.indices, mat.data))
 
 
-def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
+def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
     Compute the trace values using avg/jump restriction. A + plus is the one 
-    for which the vector cell.midpoint - facet.midpoint agrees in orientation
-    with the normal on the facet.
+    for which the vector facet.midpoint - cell.midpoint agrees in orientation
+    with the normal on the facet, i.e. the normal points out of the + cell.
     '''
     mesh = V.mesh()
     fdim = mesh.topology().dim() - 1
     
     if trace_mesh is None: trace_mesh = TV.mesh()
 
+    # None means all
+    if tag_data is None:
+        try:
+            marking_function = trace_mesh.marking_function
+            tag_data = (marking_function, set(marking_function.array()))
+        except AttributeError:
+            tag_data = (MeshFunction('size_t', trace_mesh, trace_mesh.topology().dim(), 0),
+                        set((0, )))
+
+    trace_mesh_subdomains, tags = tag_data
     # Init/extract entity map
-    assert get_entity_map(mesh, trace_mesh)
+    assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     # We can get it
     mapping = trace_mesh.parent_entity_map[mesh.id()][fdim]  # Map cell of TV to cells of V
 
@@ -448,9 +463,17 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
     visited_dofs = [False]*TV.dim()
     # Column values
     dof_values = np.zeros(V_basis_f.elm.space_dimension(), dtype='double')
+
+    # Only look at tagged cells
+    trace_cells = list(itertools.chain(*[map(operator.methodcaller('index'),
+                                             SubsetIterator(trace_mesh_subdomains, tag))
+                                         for tag in tags]))
+
+    normal_values = normal.vector().get_local().reshape((-1, gdim))
+
     with petsc_serial_matrix(TV, V) as mat:
 
-        for trace_cell in range(trace_mesh.num_cells()):
+        for trace_cell in trace_cells:
             TV_dof.cell = trace_cell
             trace_dofs = Tdmap.cell_dofs(trace_cell)
 
@@ -469,7 +492,7 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                 t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
                 mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
 
-                sign = '+' if np.inner(mp - t_mp, normal(t_mp)) > 0 else '-'
+                sign = '+' if np.inner(t_mp - mp, normal_values[trace_cell]) > 0 else '-'
                 # Need to flip
                 if sign == '-':
                     facet_cells = facet_cells[::-1]
@@ -487,7 +510,6 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                 TV_dof.dof = local_T
                 
                 # Two sweeps to set the values in the row
-                ADD_VALUES = False
                 for modify, cell in zip(modifiers, facet_cells):
                     V_basis_f.cell = cell
                     dofs = dmap.cell_dofs(cell)
@@ -499,14 +521,9 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                         dof_values[local] = modify(TV_dof.eval(V_basis_f))
                     # Can fill the matrix now
                     col_indices = np.array(dofs, dtype='int32')
-
-                    if not ADD_VALUES:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.INSERT_VALUES)
-                        ADD_VALUES = True
-                        #print 'setting', dof_T, col_indices, dof_values
-                    else:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.ADD_VALUES)
-                        #print 'adding', dof_T, col_indices, dof_values
+                    # NOTE: the cells might share dofs (so contributions add up)
+                    # and PETSc does not allow for mixing the insert modes
+                    mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.ADD_VALUES)
     return mat
 
 
-- 
2.43.0


From b67821d674b49d1e919573b18da4accd0a71c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 05/37] fix: apply_bc re-application with values by unknown,
 diagonal value, single matrices or non-symmetric mode; empty conditions;
 missing diagonals

---
 xii/linalg/bc_apply.py | 70 +++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index ed85140..de741ef 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -17,7 +17,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     '''
     # Specs of do nothing
     if bcs is None or not bcs or (isinstance(bcs, list) and not any(bc for bc in bcs)):
-        return A, b
+        return (A, b, lambda bb: bb) if return_apply_b else (A, b)
     
     # Allow for A, b be simple matrices. To proceed we wrap them as
     # block objects
@@ -53,8 +53,6 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             bcs_.append(bc)
     bcs = bcs_
 
-    if not bcs or not any(bcs): return A, b
-
     # Obtain a monolithic matrix
     AA, bb = list(map(convert, (A, b)))
 
@@ -71,21 +69,23 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
 
     assert AA.size[0] == AA.size[1] == offsets[-1], (AA.size[0], AA.size[1], offsets)
         
-    rows = []
-    x_values = []
-    # Each bc in the group has dofs numbered only wrt to its space.
-    # We're after global numbering
-    for shift, bcs_sub in zip(offsets, bcs): 
-        for bc in bcs_sub:
-            # NOTE: bcs can be a dict or DirichletBC in which case we extract
-            # the dict
-            if isinstance(bc, DirichletBC): bc = bc.get_boundary_values()
-            # Dofs and values for rhs
-            rows.extend(shift + np.array(list(bc.keys()), dtype='int32'))
-            x_values.extend(list(bc.values()))
+    def bc_data(bcs=bcs, offsets=offsets):
+        '''Dofs and (current) values of the conditions'''
+        rows, x_values = [], []
+        # Each bc in the group has dofs numbered only wrt to its space.
+        # We're after global numbering
+        for shift, bcs_sub in zip(offsets, bcs): 
+            for bc in bcs_sub:
+                # NOTE: bcs can be a dict or DirichletBC in which case we extract
+                # the dict
+                if isinstance(bc, DirichletBC): bc = bc.get_boundary_values()
+                # Dofs and values for rhs
+                rows.extend(shift + np.array(list(bc.keys()), dtype='int32'))
+                x_values.extend(list(bc.values()))
             
-    rows = np.hstack(rows)
-    x_values = np.array(x_values)
+        return np.array(rows, dtype='int32'), np.array(x_values, dtype=float)
+
+    rows, x_values = bc_data()
 
     x = bb.copy()
     x.zeroEntries()
@@ -97,37 +97,43 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         blocks.append(PETSc.IS().createStride(last-first, first, 1))
 
         
-    if return_apply_b and symmetric:
+    if return_apply_b:
         # We don't want to reassemble system and apply bcs (when they are 
         # updated) to the (new) matrix and the rhs. Matrix is expensive 
         # AND the change of bcs only effects the rhs. So what we build
         # here is a function which applies updated bcs only to rhs as
         # if by assemble_system (i.e. in a symmetric way)
-        def apply_b(bb, AA=AA.copy(), dofs=rows, bcs=bcs, blocks=blocks):
+        def apply_b(bb, AA=AA.copy() if symmetric else None, blocks=blocks):
             # Pick up the updated values
-            values = np.array(sum((list(bc.get_boundary_values().values()) if isinstance(bc, DirichletBC) else []
-                                   for bcs_sub in bcs for bc in bcs_sub),
-                                  []))
+            dofs, values = bc_data()
+            
+            b = convert(bb if isinstance(bb, block_vec) else block_vec([bb]))  # We cond't get view here ...
+            b_vec = as_backend_type(b).vec()
             # Taken from cbc.block
-            c, Ac = AA.createVecs()
-
+            c = b_vec.copy()
             c.zeroEntries()
             c.setValues(dofs, values)  # Forward
             c.assemble()
 
-            AA.mult(c, Ac)  # Note: we work with the deep copy of A
-            
-            b = convert(bb)  # We cond't get view here ...
-            b_vec = as_backend_type(b).vec()
-            b_vec.axpy(-1, Ac)  # Elliminate
-            b_vec.setValues(dofs, values)
+            if symmetric:
+                Ac = b_vec.copy()
+                AA.mult(c, Ac)  # Note: we work with the deep copy of A
+                b_vec.axpy(-1, Ac)  # Elliminate
+            # As on the diagonal of the matrix
+            b_vec.setValues(dofs, diag_val*c.getValues(dofs))
             b_vec.assemble()
 
+            new, = (as_block(b, blocks), ) if isinstance(bb, block_vec) else as_block(b, blocks)
             bb *= 0  # ... so copy
-            bb += as_block(b, blocks)
+            bb += new
                 
             return bb
 
+    # Zeroing needs all the diagonal entries to be present
+    AA.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
+    for row in rows:
+        AA.setValue(row, row, 0., addv=PETSc.InsertMode.ADD_VALUES)
+    AA.assemble()
     # Apply to monolithic
     if symmetric:
         len(rows) and AA.zeroRowsColumns(rows, diag=diag_val, x=x, b=bb)
@@ -137,7 +143,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     b = as_block(bb, blocks)
     A = as_block(AA, blocks)
     
-    if has_wrapped_A: return A[0][0], b[0]
+    if has_wrapped_A: A, b = A[0][0], b[0]
 
     if return_apply_b:
         return A, b, apply_b
-- 
2.43.0


From 5d5d82d29adae099b50c356564eabc932fc7cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:55 +0000
Subject: [PATCH 06/37] fix: block operators with tuple offsets, single blocks
 and lists of spaces; numbers on the diagonal in nest; detached views after
 interpolate; helpers that could not run

---
 xii/linalg/bc_apply.py    |  2 +-
 xii/linalg/block_utils.py | 12 +++++++++---
 xii/linalg/convert.py     |  8 ++++----
 xii/linalg/function.py    |  3 ++-
 xii/linalg/nest.py        |  8 ++++++--
 5 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index de741ef..5d2a945 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -179,7 +179,7 @@ def as_block(monolithic, blocks):
     if isinstance(monolithic, (GenericVector, Vector)):
         return as_block(as_backend_type(monolithic).vec(), blocks)
 
-    if isinstance(monolithic, (Matrix, )):
+    if isinstance(monolithic, (Matrix, PETScMatrix)):
         return as_block(as_backend_type(monolithic).mat(), blocks)
 
     if isinstance(monolithic, PETSc.Vec):
diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 853d7ff..c223dcf 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -197,7 +197,7 @@ class VectorizedOperator(block_base):
             size,  = set(Wi.dim() for Wi in W)
 
             # Matches A
-            n, n = get_dims(bmat)
+            n, m = get_dims(bmat)
             assert n == m == size
 
             A = block_diag_mat([bmat]*len(W))
@@ -292,6 +292,9 @@ class RearangeOperator(block_base):
     '''R*[u0, u1, u2] = [(u0, u2), u1] ((0, 2), 1)'''
     def __init__(self, mapping, W):
         # mapping = RearangeOperator.check(mapping)
+        # Groups of one block can be given by just the index of the block
+        mapping = tuple((indices, ) if isinstance(indices, int) else tuple(indices)
+                        for indices in mapping)
         # FIXME: Check assumptions
         # With matvec R*u we will recombine
         self.mapping = mapping
@@ -378,7 +381,7 @@ class ReductionOperator(RearangeOperator):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
         
-        offsets = [0] + offsets
+        offsets = [0] + list(offsets)
         mapping = tuple(tuple(range(f, l)) for f, l in zip(offsets[:-1], offsets[1:]))
         RearangeOperator.__init__(self, mapping, W)
         self.offsets = offsets
@@ -388,7 +391,7 @@ class RegroupOperator(block_base):
     def __init__(self, offsets, W):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
-        self.offsets = [0] + offsets
+        self.offsets = [0] + list(offsets)
 
     def matvec(self, b):
         '''Reduce'''
@@ -403,6 +406,9 @@ class RegroupOperator(block_base):
 
     def transpmult(self, b):
         '''Unpack'''
+        if isinstance(b, (Vector, GenericVector)):
+            b = [b]
+
         b_block = []
         for bi in b:
             if isinstance(bi, (Vector, GenericVector)):
diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 1e59828..12ffd8f 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -273,9 +273,9 @@ def block_mat_to_petsc(bmat):
         for i in range(matrix.size(0)):
             yield matrix.getrow(i)
 
-    row_sizes, col_sizes = get_sizes(bmat)
-    row_offsets = np.cumsum([0] + list(row_sizes))
-    col_offsets = np.cumsum([0] + list(col_sizes))
+    row_sizes, col_sizes = bmat_sizes(bmat)
+    row_offsets = [int(offset) for offset in np.cumsum([0] + list(row_sizes))]
+    col_offsets = [int(offset) for offset in np.cumsum([0] + list(col_sizes))]
 
     with petsc_serial_matrix(row_offsets[-1], col_offsets[-1]) as mat:
         row = 0
@@ -363,7 +363,7 @@ def get_dims(thing):
 def bmat_sizes(bmat):
     '''Return a tuple which represents sizes of (blocks of) bmat'''
     if isinstance(bmat, block_vec):
-        return tuple(map(get_dims, block_vec.blocks))
+        return tuple(map(get_dims, bmat.blocks))
 
     if isinstance(bmat, block_mat):
         vec = bmat.create_vec(0)
diff --git a/xii/linalg/function.py b/xii/linalg/function.py
index 34474d3..e36a846 100644
--- a/xii/linalg/function.py
+++ b/xii/linalg/function.py
@@ -81,7 +81,8 @@ class ii_Function(object):
         Interpolate other ii_Function/ntuple of interpolable things into self.
         '''
         assert len(self) == len(g)
-        [fi.assign(df.interpolate(gi, fi.function_space())) for (fi, gi) in zip(self, g)]
+        # In place, so that the vectors handed out before stay wired up
+        [fi.interpolate(gi) for (fi, gi) in zip(self, g)]
 
         return self
 
diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index dfdd1b9..dce612d 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -3,7 +3,7 @@ petsc4py.init(sys.argv)
 from petsc4py import PETSc
 
 from xii.linalg.matrix_utils import as_petsc, diagonal_matrix
-from xii.linalg.convert import convert
+from xii.linalg.convert import convert, bmat_sizes
 from block.algebraic.petsc import LU, SUPERLU_LU, AMG, Elasticity
 from block.algebraic.petsc.precond import precond
 from block import block_mat, block_vec, block_mul, block_add
@@ -143,8 +143,12 @@ def nest(tensor, elim_zeros_tol=1E-15, W=None):
             for j in range(ncols):
 
                 if isinstance(tensor[i][j], (int, float)):
-                    # assert i != j, (i, j, tensor[i][j])
                     block = None
+                    # On the diagonal a number is a multiple of identity
+                    if i == j and tensor[i][j] != 0:
+                        row_sizes, col_sizes = bmat_sizes(tensor)
+                        assert row_sizes[i] == col_sizes[i]
+                        block = as_petsc(diagonal_matrix(row_sizes[i], tensor[i][j]))
                 else:
                     # Optimize for zeros and insert None                       
                     block = as_petsc(convert(tensor[i][j]))
-- 
2.43.0


From 243745d859f28581e61bb9a46d5c7816796cff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 07/37] fix: adjoint of forms with both arguments in one space
 or with other reductions; permuting a single block; bilinear forms in blocks
 of a linear form

---
 xii/assembler/block_form.py | 46 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index cb0620c..abdff73 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -1,4 +1,4 @@
-from xii.assembler.ufl_utils import traverse_terminals, replace as ii_replace
+from xii.assembler.ufl_utils import traverse_terminals
 from dolfin.function.argument import Argument
 from itertools import dropwhile
 from dolfin import *
@@ -82,7 +82,7 @@ class _block_form(list):
     def __setitem__(self, index, value):
         '''self[i][j] 0 value'''
         if self.V1 is None:
-            assert is_number(value) or ((Argument(self.V0[index], 0), ), None) == (test_function(value), None), (Argument(self.V0[index], 0), test_function(value))
+            assert is_number(value) or ((Argument(self.V0[index], 0), ), ()) == (test_function(value), trial_function(value)), (Argument(self.V0[index], 0), test_function(value))
             return list.__setitem__(self, index, value)
 
         assert is_number(value) or (Argument(self.V1, 0), ) == test_function(value), (Argument(self.V1, 0), test_function(value))
@@ -176,6 +176,12 @@ def is_lower_triangular(form):
                                    for i in range(len(form.V0)) for j in range(i))
 
 
+# How the reductions mark the functions
+ii_attrs = ('trace_', 'transpose_trace_', 'restriction_', 'extension_',
+            'injection_', 'average_', 'flux_average_', 'patch_average_',
+            'mean_', 'surface_mean_', 'dirac_', 'grad_dirac_')
+
+
 def form_adjoint(expr):
     '''Like UFL adjoint but keeping track of ii attributes'''
     if is_number(expr):
@@ -188,24 +194,21 @@ def form_adjoint(expr):
         return expr.reconstruct(integrand=form_adjoint(expr.integrand()))
 
     # For adjoint we need one trial and one test function. The idea is
-    # then exchange the two while keeping track of trace attributes
-    arguments = set([f for f in traverse_terminals(expr) if isinstance(f, Argument)])
-
-    ii_attrs = ('trace_', 'restriction_', 'average_')
-
-    adj_type = {0: TrialFunction, 1: TestFunction}
-    for arg in arguments:
-        adj_arg = adj_type[arg.number()](arg.function_space())
+    # then exchange the two while keeping track of trace attributes. Note
+    # that the exchange has to be simultaneous as both can be in one space
+    if isinstance(expr, Argument):
+        adj_type = {0: TrialFunction, 1: TestFunction}
+        adj_arg = adj_type[expr.number()](expr.function_space())
         # Record trace attributes
-        attrs = []
         for attr in ii_attrs:
-            if hasattr(arg, attr):
-                setattr(adj_arg, attr, getattr(arg, attr))
-                attrs.append(attr)
-        # Substitute
-        expr = ii_replace(expr, arg, adj_arg, attrs)
+            if hasattr(expr, attr):
+                setattr(adj_arg, attr, getattr(expr, attr))
+        return adj_arg
 
-    return expr
+    if not any(isinstance(f, Argument) for f in traverse_terminals(expr)):
+        return expr
+    # Reconstruct the node with the exchanged arguments
+    return type(expr)(*map(form_adjoint, expr.ufl_operands))
 
 
 def make_selfadjoint(bform):
@@ -238,13 +241,8 @@ def permute(bform, ordering):
     # We can have [0, 2, 3, 1] meaning that old[0] is new[0]
     #                                       old[2] is new[1]
     #                                          [3] is new[2]    
-    # Continuous range
-    step,  = set(np.diff(np.sort(ordering)))
-    assert abs(step) == 1
-
-    # Sensible 
-    assert len(ordering) == len(bform.V0)
-    assert 0 == min(ordering) and len(bform.V0) -1 == max(ordering)
+    # Each block once
+    assert sorted(ordering) == list(range(len(bform.V0)))
 
     # Permute space
     W = [bform.V0[i] for i in ordering]
-- 
2.43.0


From 0a6f493bc281da03a24b563a669748ef4f8c6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 08/37] fix: transposed trace was assembled with its spaces
 exchanged

---
 xii/assembler/transpose_trace_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/transpose_trace_matrix.py b/xii/assembler/transpose_trace_matrix.py
index 77ffaa6..b47c77e 100644
--- a/xii/assembler/transpose_trace_matrix.py
+++ b/xii/assembler/transpose_trace_matrix.py
@@ -21,6 +21,6 @@ def memoize_trace(trace_mat):
 @memoize_trace
 def transpose_trace_mat(V, TV, reduced_mesh, tag_data):
     '''TODO'''
-    E = trace_mat_no_restrict(V, TV, trace_mesh=reduced_mesh)
+    E = trace_mat_no_restrict(TV, V, trace_mesh=reduced_mesh)
     T = E.transpose()
     return df.PETScMatrix(T)
-- 
2.43.0


From c086b9b9ba17342f1b60c481d2ddf26f0ba5bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 09/37] fix: circumcentre of intervals in three dimensions did
 not compile

---
 xii/meshing/cell_centers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 87fec56..0f2eee1 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -73,12 +73,13 @@ public:
     std::vector<double> coordinates;
     cell.get_vertex_coordinates(coordinates);
 
-    Eigen::Vector2d v0(coordinates[0], coordinates[1], coordinates[2]);
-    Eigen::Vector2d v1(coordinates[3], coordinates[4], coordinates[5]);
-    Eigen::Vector2d y = 0.5*(v0 + v1);
+    Eigen::Vector3d v0(coordinates[0], coordinates[1], coordinates[2]);
+    Eigen::Vector3d v1(coordinates[3], coordinates[4], coordinates[5]);
+    Eigen::Vector3d y = 0.5*(v0 + v1);
     // Just midpoint
     values[0] = y[0];
     values[1] = y[1];
+    values[2] = y[2];
   }
 
   std::shared_ptr<dolfin::Mesh> mesh;
-- 
2.43.0


From db385a698a3f9d7035f6a507f8b144c91b90430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:49 +0000
Subject: [PATCH 10/37] fix: mortar interfaces of sub-domains were mapped to
 wrong or no facets of the sub-meshes

---
 xii/meshing/mortar_mesh.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/xii/meshing/mortar_mesh.py b/xii/meshing/mortar_mesh.py
index ed94252..3715dd7 100644
--- a/xii/meshing/mortar_mesh.py
+++ b/xii/meshing/mortar_mesh.py
@@ -69,8 +69,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     subdomain_meshes = {tag: EmbeddedMesh(subdomains, tag) for tag in markers}
 
     # Alloc the entity maps for the embedded mesh
-    interface_map = {subdomain_meshes[tag].id(): [None]*interface_mesh.num_cells()
-                     for tag in markers}
+    interface_map = {subdomain_meshes[tag].id(): {0: {}, tdim-1: {}} for tag in markers}
     
     # THe maps are filled by the following idea. Using marking function
     # of interface mesh one cat get cells of that color and useing entity
@@ -80,14 +79,18 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     # final step is to lean to map submesh cells to mesh cells
 
     # local submesh <- global of parent mesh
-    sub_mesh_map = lambda tag: dict(
-        (mesh_c, submesh_c)
-        for submesh_c, mesh_c in
-        enumerate(subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim])
+    sub_mesh_map = lambda tag, dim: dict(
+        (mesh_e, submesh_e)
+        for submesh_e, mesh_e in
+        subdomain_meshes[tag].parent_entity_map[mesh.id()][dim].items()
     )
 
     # Thec cell-cell connectivity of each submesh
-    c2c = {tag: sub_mesh_map(tag) for tag in markers}
+    c2c = {tag: sub_mesh_map(tag, tdim) for tag in markers}
+    # The same for vertices
+    v2v = {tag: sub_mesh_map(tag, 0) for tag in markers}
+    # Vertices of the interface mesh in the global numbering
+    iv2v = interface_mesh.parent_entity_map[mesh.id()][0]
     # A connectivity of interface mesh cells to facets of global mesh
     c2f = interface_mesh.parent_entity_map[mesh.id()][tdim-1]
 
@@ -107,11 +110,13 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
                 local_cell = c2c[tag][gc]
                 mesh_id = submesh.id()
                 
-                found = False
+                # It has the same vertices
+                vertices = {v: v2v[tag][iv2v[v]] for v in map(int, cell.entities(0))}
+                interface_map[mesh_id][0].update(vertices)
+
                 for submesh_facet in df.facets(df.Cell(submesh, local_cell)):
-                    found = df.near(cell.midpoint().distance(submesh_facet.midpoint()), 0, tol)
-                    if found:
-                        interface_map[mesh_id][cell_index] = submesh_facet.index()
+                    if set(submesh_facet.entities(0)) == set(vertices.values()):
+                        interface_map[mesh_id][tdim-1][cell_index] = submesh_facet.index()
                         break
 
     # Collapse to list; I want list indexing
@@ -120,9 +125,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
 
     # Parent in the sense that the colored piece of interface
     # could have been created from mesh
-    interface_mesh.parent_entity_map.update(
-        dict((k, {tdim-1: v}) for k, v in list(interface_map.items()))
-    )
+    interface_mesh.parent_entity_map.update(interface_map)
 
     return subdomain_meshes, interface_mesh, color_map
 
-- 
2.43.0


From de17f5476786475dfe8b28e8a4aab8289b0539a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 11/37] fix: marker transfer to overlap meshes and to partly
 mapped meshes failed

---
 xii/meshing/subdomain_mesh.py   | 6 +++---
 xii/meshing/transfer_markers.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xii/meshing/subdomain_mesh.py b/xii/meshing/subdomain_mesh.py
index 2a690a8..5e47fbe 100644
--- a/xii/meshing/subdomain_mesh.py
+++ b/xii/meshing/subdomain_mesh.py
@@ -50,7 +50,7 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
     # Get som idea of mesh size to make relative comparison of coords
     scale = max(emesh_x.max(axis=0) - emesh_x.min(axis=0))
     # Also build the map for vertices
-    entity_map = {0: [None]*emesh.num_vertices(), tdim: [None]*emesh.num_cells()}
+    entity_map = {0: {}, tdim: {}}
     vertex_map = entity_map[0]
     cell_map = entity_map[tdim]
 
@@ -85,8 +85,8 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
         # Insert
         cell_map[cell.index()] = the_cell.pop()
     # Sanity
-    assert not any(v is None for v in entity_map[0])
-    assert not any(v is None for v in entity_map[tdim])
+    assert len(entity_map[0]) == emesh.num_vertices()
+    assert len(entity_map[tdim]) == emesh.num_cells()
     # At this point we can build add the map
     emesh.parent_entity_map[mesh2.id()] = entity_map
 
diff --git a/xii/meshing/transfer_markers.py b/xii/meshing/transfer_markers.py
index 18c4dd0..0096c27 100644
--- a/xii/meshing/transfer_markers.py
+++ b/xii/meshing/transfer_markers.py
@@ -45,9 +45,9 @@ def transfer_markers(mesh, f, markers=None):
 
     for entity in range(len(ch_values)):
         # As vertices in parent
-        e_as_vertex = set(child_parent_vertex[v] for v in ch_e2v(entity))
-
-        ch_cells = iter(ch_e2c(entity))
+        e_as_vertex = set(child_parent_vertex.get(v) for v in ch_e2v(entity))
+        # NOTE: the mapping might only cover a part of mesh
+        ch_cells = (c for c in ch_e2c(entity) if c in child_parent_cell)
         # One of the cells entities should match
         for ch_cell in ch_cells:
             for p_entity in p_c2e(child_parent_cell[ch_cell]):
-- 
2.43.0


From 303fc387c30fab9c520df5d7759f71e0a1938f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 12/37] fix: loops apart from the rest of a network were not
 coloured or shared one colour; walk of the vertices of a whole mesh

---
 xii/meshing/branching.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/xii/meshing/branching.py b/xii/meshing/branching.py
index 69dc265..a3dc013 100644
--- a/xii/meshing/branching.py
+++ b/xii/meshing/branching.py
@@ -31,9 +31,6 @@ def color_branches(mesh):
     terminals = {v: set(v2c(v)) for v in range(mesh.num_vertices()) if len(v2c(v)) != 2}
     
     cell_f = df.MeshFunction('size_t', mesh, 1, 0)
-    if not terminals:
-        cell_f.set_all(1)
-        return cell_f, [], [1]
 
     def next_vertex(c, v, c2v=c2v):
         v0, v1 = c2v(c)
@@ -46,7 +43,7 @@ def color_branches(mesh):
     values = cell_f.array()
     branch_colors, loop_colors, color = [], [], 0
 
-    exhausted = False
+    exhausted = not terminals
     while not exhausted:
         vertex = max(terminals, key=lambda v: terminals[v])
         vertex_cells = terminals[vertex]
@@ -81,6 +78,23 @@ def color_branches(mesh):
             # same way we arrived
             v0 in terminals and link_cell in terminals[v0] and terminals[v0].remove(link_cell)
 
+    # Cells that were not reached make up loops without terminals
+    for cell in range(mesh.num_cells()):
+        if values[cell] > 0: continue
+
+        link_cell, (vertex, _) = cell, c2v(cell)
+        v0 = vertex
+
+        loop = [link_cell]
+        while next_vertex(link_cell, v0) != vertex:
+            v0 = next_vertex(link_cell, v0)
+            link_cell = next_cell(v0, link_cell)
+            loop.append(link_cell)
+
+        color += 1
+        loop_colors.append(color)
+        values[loop] = color
+
     return cell_f, branch_colors, loop_colors
 
 
@@ -93,6 +107,9 @@ def walk_vertices(arg, tag=None, is_loop=False):
         assert arg.dim() == 1
     else:
         mesh = arg
+        # All of it
+        tag = 1 if tag is None else tag
+        arg = df.MeshFunction('size_t', mesh, 1, tag)
         
     assert mesh.topology().dim() == 1 and mesh.geometry().dim() > 1
     # The boring cese
-- 
2.43.0


From 2ebf501d0c37ad6b9845613406a725a03b1a34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 13/37] fix: union of more than two meshes, of closed or
 branching pieces and its maps; line meshes with single-segment or closed
 first branches; tetrahedra and unused nodes in gmsh data

---
 xii/meshing/gmsh_interopt.py |  6 +++---
 xii/meshing/line_mesh.py     |  5 +++--
 xii/meshing/union_mesh.py    | 17 ++++++++++-------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/xii/meshing/gmsh_interopt.py b/xii/meshing/gmsh_interopt.py
index cbc1aca..6b874d5 100644
--- a/xii/meshing/gmsh_interopt.py
+++ b/xii/meshing/gmsh_interopt.py
@@ -97,7 +97,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     # We only support lines, triangles and tets
     assert set(element_data.keys()) <= set((1, 2, 4))
 
-    elm_tdim = {1: 1, 2: 2, 4: 2}    
+    elm_tdim = {1: 1, 2: 2, 4: 3}    
     # The idea is first build the mesh (and cell function) and later
     # descent over entities to tag them
     cell_elm = max(list(element_data.keys()), key=lambda elm: elm_tdim[elm])  # 
@@ -107,7 +107,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     vtx_idx = np.unique(cells_as_nodes)
     mesh_vertices = nodes[vtx_idx]  # Now we have our numbering
     # Want to make from old to new to redefine cells
-    node_map = {old: new for old, new in enumerate(vtx_idx)}
+    node_map = {old: new for new, old in enumerate(vtx_idx)}
 
     cells_as_nodes = np.fromiter((node_map[c] for c in cells_as_nodes.ravel()),
                                  dtype=cells_as_nodes.dtype).reshape(cells_as_nodes.shape)
@@ -124,7 +124,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     else:
         gdim = 3
 
-    cell = ufl.Cell(elm_name[cell_tdim], gdim)
+    cell = ufl.Cell(elm_name[cell_elm], gdim)
     mesh = build_mesh(mesh_vertices, cells_as_nodes, cell)
     
     entity_functions = {}
diff --git a/xii/meshing/line_mesh.py b/xii/meshing/line_mesh.py
index 6350b08..47bdd10 100644
--- a/xii/meshing/line_mesh.py
+++ b/xii/meshing/line_mesh.py
@@ -15,6 +15,9 @@ def line_mesh(branches, tol=1E-13):
     ext_nodes = branch[[0, -1]]
 
     ext_bounds = [(0, 1)]
+    # Unless it is closed
+    if np.linalg.norm(ext_nodes[0] - ext_nodes[1]) < tol:
+        ext_nodes, ext_bounds = ext_nodes[:1], [(0, 0)]
     # For the other ones need to check collisions
     for branch in it_branches:
         endpoints = branch[[0, -1]]
@@ -36,8 +39,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 2042e07..f51bb99 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -13,8 +13,8 @@ def union_mesh(meshes, tol=1E-12):
         return meshes[0]
     # Recurse
     if num_meshes > 2:
-        return union_mesh([union_mesh(meshes[:num_meshes/2+1]),
-                           union_mesh(meshes[num_meshes/2+1:])])
+        return union_mesh([union_mesh(meshes[:num_meshes//2+1]),
+                           union_mesh(meshes[num_meshes//2+1:])])
 
     gdim, = set(m.geometry().dim() for m in meshes)
     tdim, = set(m.topology().dim() for m in meshes)
@@ -27,14 +27,16 @@ def union_mesh(meshes, tol=1E-12):
     [m.init(fdim) for m in meshes]
     [m.init(fdim, 0) for m in meshes]
 
-    bdry_vertices0, bdry_vertices1 = list(map(list, (set(np.concatenate([f.entities(0) for f in SubsetIterator(bdry, 1)]))
-                                                for bdry in bdries)))
+    # In a union we have to consider the boundary vertices of its pieces
+    bdry_vertices = [getattr(m, 'leafs_bdry', None) or set(int(v) for f in SubsetIterator(bdry, 1) for v in f.entities(0))
+                     for m, bdry in zip(meshes, bdries)]
+    bdry_vertices0, bdry_vertices1 = list(map(list, bdry_vertices))
     
     x0, x1 = [m.coordinates() for m in meshes]
 
     x1 = x1[bdry_vertices1]
     shared_vertices = {}
-    while bdry_vertices0:
+    while bdry_vertices0 and bdry_vertices1:
         i = bdry_vertices0.pop()
         x = x0[i]
         # Try to match it
@@ -73,14 +75,15 @@ def union_mesh(meshes, tol=1E-12):
     if not hasattr(mesh0, 'leafs'):
         merged_mesh.leafs = [(mesh0.id(), lg0)]
     else:
-        merged_mesh.leafs = mesh0.leafs
+        merged_mesh.leafs = list(mesh0.leafs)
         
     if not hasattr(mesh1, 'leafs'):
         merged_mesh.leafs.append([mesh1.id(), lg1])
     else:
         for id_, map_ in mesh1.leafs:
             merged_mesh.leafs.append((id_, lg1[map_]))
-                
+    merged_mesh.leafs_bdry = bdry_vertices[0] | set(int(lg1[v]) for v in bdry_vertices[1])
+
     return merged_mesh
 
 #          [xxxxxxxx]
-- 
2.43.0


From ea816b4b48f5245a7cc7343fd637d534d44c877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 14/37] fix: injection: DG, H(div), H(curl) and mixed elements,
 lookup method

create_transfer_matrix finds dofs by their locations: spaces with several
dofs in a point got zero rows, H(div)/H(curl) corrupted memory. These use
the interpolation by lookup of the (parent) cell, which is made to work.
---
 xii/assembler/injection_matrix.py | 50 +++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 19f450a..f87bcf2 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -26,6 +26,15 @@ def memoize_inj(inj_mat):
     return cached_inj_mat
 
 
+def has_distinct_dof_points(elm):
+    '''Do different degrees of freedom (of a component) sit in different points'''
+    if type(elm) in (df.VectorElement, df.TensorElement):
+        return has_distinct_dof_points(elm.sub_elements()[0])
+
+    return (elm.family() in ('Lagrange', 'Crouzeix-Raviart') or
+            (elm.family() == 'Discontinuous Lagrange' and elm.degree() == 0))
+
+
 @memoize_inj
 def injection_matrix(Vc, Vf, fine_mesh, data):
     '''Injection mapping from Vc to Vf'''
@@ -33,20 +42,32 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
     assert fine_mesh.id() == Vf.mesh().id()
     mesh_f = Vf.mesh()
 
-    if data['not_nested_method'] == 'interpolate':
-        return df.PETScDMCollection.create_transfer_matrix(Vc, Vf)
-    elif data['not_nested_method'] == 'project':
+    if data['not_nested_method'] == 'project':
         raise ValueError('Missing projection')
 
+    # `create_transfer_matrix` goes by the locations of the dofs and needs
+    # that these are distinct
+    if data['not_nested_method'] == 'interpolate' and has_distinct_dof_points(Vf.ufl_element()):
+        return df.PETScDMCollection.create_transfer_matrix(Vc, Vf)
+
     # Fallback to our interpolate with lookup, which, however is slower
     # to `create_transfer_matrix`
 
     tdim = mesh_f.topology().dim()
     # Refine was used to create it
-    keys, fine_to_coarse = list(zip(*list(fine_mesh.parent_entity_map[mesh_c.id()][tdim].items())))
-    fine_to_coarse = np.array(fine_to_coarse, dtype='uintp')
-    fine_to_coarse[np.argsort(keys)] = fine_to_coarse
-        
+    if mesh_c.id() in getattr(fine_mesh, 'parent_entity_map', {}):
+        mapping = fine_mesh.parent_entity_map[mesh_c.id()][tdim]
+        coarse_cell = lambda cell, dof: int(mapping[cell])
+    else:
+        tree, Vf_elm = mesh_c.bounding_box_tree(), Vf.element()
+
+        def coarse_cell(cell, dof):
+            '''Some cell with the point'''
+            x = df.Point(Vf_elm.tabulate_dof_coordinates(df.Cell(mesh_f, cell))[dof])
+            found = tree.compute_first_entity_collision(x)
+            # Might have been missed by round off
+            return found if found < mesh_c.num_cells() else tree.compute_closest_entity(x)[0]
+
     # The idea is to evaluate Vf's degrees of freedom at basis functions of Vc
     fdmap = Vf.dofmap()
     Vf_dof = DegreeOfFreedom(Vf)
@@ -59,11 +80,7 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
     row_values = np.zeros(Vc_basis_f.elm.space_dimension(), dtype='double')
 
     ii, jj, vals = [], [], []
-    for f_cell, c_cell in enumerate(fine_to_coarse):
-
-        Vc_basis_f.cell = c_cell
-        # These are the colums
-        coarse_dofs = cdmap.cell_dofs(c_cell)
+    for f_cell in range(mesh_f.num_cells()):
 
         Vf_dof.cell = f_cell
 
@@ -76,6 +93,11 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
                 visited_rows[dof] = True
 
             Vf_dof.dof = local
+
+            c_cell = coarse_cell(f_cell, local)
+            Vc_basis_f.cell = c_cell
+            # These are the colums
+            coarse_dofs = cdmap.cell_dofs(c_cell)
             # Evaluete coarse basis foos here
             for local_c, dof_c in enumerate(coarse_dofs):
                 Vc_basis_f.dof = local_c
@@ -84,8 +106,6 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
             ii.extend([dof]*len(coarse_dofs))
             jj.extend(coarse_dofs)
             vals.extend(row_values)
-            # Insert
-            mat.setValues([dof], coarse_dofs, row_values, PETSc.InsertMode.INSERT_VALUES)
 
     mat = csr_matrix((vals, (ii, jj)), shape=(Vf.dim(), Vc.dim()))        
 
@@ -95,4 +115,4 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
 
     mat.assemble()
 
-    return mat
+    return df.PETScMatrix(mat)
-- 
2.43.0


From 0784afdb475fa211d4229b8155b96ad1376d7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 15/37] fix: uniform extension of vector valued functions
 (integer columns)

---
 xii/assembler/extension_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/extension_matrix.py b/xii/assembler/extension_matrix.py
index 605b46b..499f153 100644
--- a/xii/assembler/extension_matrix.py
+++ b/xii/assembler/extension_matrix.py
@@ -85,7 +85,7 @@ def uniform_extension_matrix(V, EV):
     columns = np.argmin(lookup, axis=1)
     # Every scalar can be used used to set all the components
     if is_tensor_elm:
-        shift = V.dim()/len(V_dofs_x)
+        shift = V.dim()//len(V_dofs_x)
         component_idx = np.arange(shift)
         # shift*dof + components
         columns = (shift*np.array([columns]).T + component_idx).flatten()
-- 
2.43.0


From f228fe8a22cd24d67db38ac4f53d2a456c70c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 16/37] fix: Newton linearization recognizes every reduction,
 not only trace, average and restriction

---
 xii/nonlin/jacobian.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index 10148d6..4215c5e 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -34,9 +34,15 @@ def block_jacobian(bf, foos):
     return [[ii_derivative(bfi, fj) for fj in foos] for bfi in bf]
 
 
+# Attributes by which the reductions mark their (copies of) functions
+RESTRICTION_TYPES = ('trace_', 'transpose_trace_', 'average_', 'flux_average_',
+                     'patch_average_', 'mean_', 'surface_mean_', 'dirac_',
+                     'grad_dirac_', 'restriction_', 'injection_', 'extension_')
+
+
 def is_restricted(x):
     '''Is x marked for restriction (in some way we support)'''
-    for rtype in ('trace_', 'average_', 'restriction_'):
+    for rtype in RESTRICTION_TYPES:
         if hasattr(x, rtype):
             return True
         
@@ -47,7 +53,7 @@ def restriction_type(x):
     '''How is x restricted'''
     assert is_restricted(x)
 
-    for rtype in ('trace_', 'average_', 'restriction_'):
+    for rtype in RESTRICTION_TYPES:
         if hasattr(x, rtype):
             return rtype
 
-- 
2.43.0


From dc53b2deb4cd866e8402adff09a8228ef6f679fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 17/37] fix: point and gradient evaluation of a function does
 not mark the function of the caller

---
 xii/assembler/ufl_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index bd692b8..47f15e7 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -133,6 +133,10 @@ def reconstruct(f):
 
     if is_test_function(f):
         return df.TestFunction(f.function_space())
+
+    # The copy shares the values
+    if isinstance(f, df.Function):
+        return df.Function(f.function_space(), f.vector())
     
     # Others?
     return f
-- 
2.43.0


From 5085645756af3c48bce8e383dc29ce60a4ac729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 18/37] fix: point evaluation of continuous functions takes the
 vertex and cell chosen by the caller, all components

---
 xii/assembler/point_trace_matrix.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 5f312c8..ee1d7bb 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -43,8 +43,11 @@ def point_trace_mat(V, TV, trace_mesh, data):
 
     x0, cell = data['point'], data['cell']
     if V.ufl_element().family() == 'Lagrange':
-        assert len(x0) == V.mesh().geometry().dim()        
-        Tmat = point_trace_matrix_CG(V, TV, x0)
+        # The point is given as an index of the vertex
+        assert isinstance(x0, (np.int32, np.int64, np.uint32, np.uint64, int)), x0
+        assert isinstance(cell, (np.int32, np.int64, np.uint32, np.uint64, int)), cell        
+
+        Tmat = point_trace_matrix_CG(V, TV, x0, cell=cell)
     else:
         assert V.ufl_element().family() == 'Discontinuous Lagrange'
         assert V.mesh().topology().dim() == 1
@@ -112,30 +115,27 @@ def point_trace_matrix_DG(V, TV, x0, cell):
                                  csr=(mat.indptr, mat.indices, mat.data))
 
 
-def point_trace_matrix_CG(V, TV, x0):
+def point_trace_matrix_CG(V, TV, x0, cell):
     '''
     Let u in V; u = ck phi_k then u(x0) \in TV = ck phi_k(x0). So this 
     is a 1 by dim(V) matrix where the column values are phi_k(x0).
     '''
     mesh = V.mesh()
-    tree = mesh.bounding_box_tree()
-    cell = tree.compute_first_entity_collision(Point(*x0))
-    assert cell < mesh.num_cells()
+    assert x0 in mesh.cells()[cell]
+    x0 = mesh.coordinates()[x0]
 
     # Cell for restriction
     Vcell = Cell(mesh, cell)
     vertex_coordinates = Vcell.get_vertex_coordinates()
-    cell_orientation = Vcell.orientation()
-    x0 = np.fromiter(x0, dtype=float)
+    cell_orientation = 0
 
     # Columns - get all components at once
     all_dofs = V.dofmap().cell_dofs(cell).tolist()
     Vel = V.element()
     value_size = V.ufl_element().value_size()
-    basis_values = np.zeros(V.element().space_dimension()*value_size)
-
-    Vel.evaluate_basis_all(basis_values, x0, vertex_coordinates, cell_orientation)
-
+    # Basis functions in rows, their components in columns
+    basis_values = Vel.evaluate_basis_all(x0, vertex_coordinates, cell_orientation)
+    basis_values = np.asarray(basis_values).reshape((-1, value_size))
 
     # Scalar gets all
     if value_size == 1:
@@ -151,7 +151,7 @@ def point_trace_matrix_CG(V, TV, x0):
 
         rows.extend([row]*len(sub_dofs))
         cols.extend(sub_dofs)
-        values.extend(basis_values[sub_dofs_local].flat)
+        values.extend(basis_values[sub_dofs_local, row])
 
     mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))        
 
-- 
2.43.0


From c838f331917b6bbb6828d94d61afd0af290ad276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 19/37] fix: gradient evaluations at one point along different
 tangents are different operators

---
 xii/assembler/gradient_point_trace_matrix.py | 44 +++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/xii/assembler/gradient_point_trace_matrix.py b/xii/assembler/gradient_point_trace_matrix.py
index ec91bd8..5209779 100644
--- a/xii/assembler/gradient_point_trace_matrix.py
+++ b/xii/assembler/gradient_point_trace_matrix.py
@@ -5,10 +5,39 @@ from petsc4py import PETSc
 import numpy as np
 import ufl_legacy as ufl
 
-from xii.assembler.point_trace_matrix import memoize_point_trace
 
 
-@memoize_point_trace
+def tangent_value(V, data):
+    '''Components of the tangent in the cell'''
+    tangent, mesh = data['tangent'], V.mesh()
+    if isinstance(tangent, df.Constant):
+        return tangent.values()
+    
+    if isinstance(tangent, df.Function):
+        gdim = mesh.geometry().dim()
+        return tangent(Cell(mesh, data['cell']).midpoint().array()[:gdim])
+
+    return tangent
+
+
+def memoize_gradient_point_trace(foo):
+    '''Cached trace'''
+    cache = {}
+    def cached_trace_mat(V, TV, trace_mesh, data):
+        # The tangent is part of the operator
+        tangent = tangent_value(V, data)
+        key = ((V.ufl_element(), V.mesh().id()),
+               (TV.ufl_element(), TV.mesh().id()),
+               data['point'], data['cell'],
+               tuple(np.asarray(tangent, dtype=float).flatten()))
+
+        if key not in cache:
+            cache[key] = foo(V, TV, trace_mesh, data)
+        return cache[key]
+    return cached_trace_mat
+
+
+@memoize_gradient_point_trace
 def gradient_point_trace_mat(V, TV, trace_mesh, data):
     '''
     Let u in V; u = ck phi_k then u(x0) \in TV = ck phi_k(x0). So this 
@@ -20,7 +49,7 @@ def gradient_point_trace_mat(V, TV, trace_mesh, data):
     assert V.ufl_element().value_shape() == TV.ufl_element().value_shape()
     assert V.mesh().id() == TV.mesh().id() == trace_mesh.id()
 
-    x0, cell, tangent = data['point'], data['cell'], data['tangent']
+    x0, cell, tangent = data['point'], data['cell'], tangent_value(V, data)
     if V.ufl_element().family() == 'Lagrange':
         raise NotImplementedError
     else:
@@ -61,13 +90,6 @@ def gradient_point_trace_matrix_DG(V, TV, x0, cell, tangent):
     rows, cols, values = [], [], []
     for cell in cells:
 
-        if isinstance(tangent, df.Constant):
-            tau = tangent.values()
-        elif isinstance(tangent, df.Function):
-            tau = tangent(Cell(mesh, cell).midpoint().array()[:gdim])
-        else:
-            tau = tangent
-        
         # Cell for restriction
         Vcell = Cell(mesh, cell)
         vertex_coordinates = Vcell.get_vertex_coordinates()
@@ -92,7 +114,7 @@ def gradient_point_trace_matrix_DG(V, TV, x0, cell, tangent):
         cols.extend(all_dofs)
 
         # Now we need sign of the dof
-        values.extend(np.dot(basis_values, tau).flatten())
+        values.extend(np.dot(basis_values, tangent).flatten())
 
     mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))        
 
-- 
2.43.0


From 8e4187e7872f13ebef90fac7f3304caf5f0c2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 20/37] fix: tangent of curves with loops or with several
 components is consistent along each component

---
 xii/meshing/embedded_mesh.py | 53 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 96609bb..6832549 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -563,33 +563,42 @@ class TangentCurve(df.Function):
 
         roots = [v for v in range(mesh.num_vertices()) if len(v2c(v)) == 1]
         values = np.zeros(V.dim()).reshape((-1, gdim))
-        visited = np.zeros(mesh.num_cells(), dtype=bool)        
-        if roots:
-            if root is not None:
-                assert root in roots
-            else:
-                root = roots.pop()
-                
-            g = nx.Graph()
-            g.add_edges_from(mesh.cells())
+        visited = np.zeros(mesh.num_cells(), dtype=bool)
 
-            for (v0, v1) in nx.algorithms.traversal.dfs_edges(g, root):
-                cell, = set(v2c(v0)) & set(v2c(v1))
-                v0, v1 = X[v0], X[v1]
+        if root is not None:
+            assert root in roots
+            # First from the given one
+            roots.append(root)
 
-                t = (v1 - v0)/np.linalg.norm(v1-v0)
-                values[cell, :] = t
-                visited[cell] = True
+        g = nx.Graph()
+        g.add_edges_from(mesh.cells())
 
-        np.any(visited) and print('Found unvisited edges in tangent curve computation')
-                
-        for cell in np.where(~visited)[0]:
-            v0, v1 = c2v(cell)
-            v0, v1 = X[v0], X[v1]
-
-            t = (v1 - v0)/np.linalg.norm(v1-v0)
+        def set_tangent(v0, v1):
+            '''Unit tangent of the edge going from v0 to v1'''
+            cell, = set(v2c(v0)) & set(v2c(v1))
+            t = (X[v1] - X[v0])/np.linalg.norm(X[v1] - X[v0])
             values[cell, :] = t
             visited[cell] = True
+
+        # Each piece of the curve is walked through from some end, those 
+        # without any, i.e. loops, from any vertex
+        while not np.all(visited):
+            if roots:
+                root = roots.pop()
+                # End of a piece which has been walked
+                if all(visited[cell] for cell in v2c(root)): continue
+            else:
+                root = c2v(np.where(~visited)[0][0])[0]
+            
+            for (v0, v1) in nx.algorithms.traversal.dfs_edges(g, root):
+                set_tangent(v0, v1)
+
+            # The remaining edges lead back to some vertex on the way
+            order = {v: i for i, v in enumerate(nx.dfs_preorder_nodes(g, root))}
+            for v0 in order:
+                for cell in v2c(v0):
+                    if not visited[cell]:
+                        set_tangent(*sorted(c2v(cell), key=lambda v: -order[v]))
         assert np.all(visited)
 
         if gdim == 1:
-- 
2.43.0


From 00d03c85f94574c2234956898676d210dc200036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 21/37] fix: normal of a closed curve is oriented with respect
 to the outside point whichever way the curve goes

---
 xii/meshing/embedded_mesh.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 6832549..c2a0a9c 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -4,6 +4,7 @@ from functools import reduce
 from itertools import chain, dropwhile, repeat
 from .make_mesh_cpp import make_mesh
 from .dg_utils import OrientedFacetNormal, pcws_constant
+from .branching import is_loop
 import networkx as nx
 from collections import defaultdict
 import ufl_legacy as ufl
@@ -517,7 +518,8 @@ def wind_number(mesh, points):
 
 def encloses_points(mesh, points, tol=1E-2):
     '''Point is outside/not enclosed if it wind number is > tol'''
-    return wind_number(mesh, points) > tol
+    # The sign is that of the tangent
+    return np.abs(wind_number(mesh, points)) > tol
 
 
 def NormalCurve(mesh, outside=None, tol=1E-2):
@@ -529,13 +531,16 @@ def NormalCurve(mesh, outside=None, tol=1E-2):
     assert outside.shape == (2, )
     
     n,  = wind_number(mesh, np.array([outside]))
-    if abs(n) < tol:
-        # Orient with
-        R = df.Constant(((0, 1), (-1, 0)))
-    else:
+    t = TangentCurve(mesh)
+    
+    R = df.Constant(((0, 1), (-1, 0)))
+    # Going counterclockwise this is the normal pointing out of the loop
+    x = df.SpatialCoordinate(mesh)
+    is_ccw = df.assemble(df.inner(x, df.dot(R, t))*df.dx) > 0
+    # Orient with
+    if is_ccw != (abs(n) < tol):
         R = df.Constant(((0, -1), (1, 0)))
         
-    t = TangentCurve(mesh)
     V = t.function_space()
     v = df.TestFunction(V)
 
-- 
2.43.0


From 02bb559f75713b839e960c006db3ba39c61f5060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 22/37] fix: disk quadrature of degree 11 integrates
 polynomials of that degree, degrees above 19 fall back to 19

---
 xii/assembler/disk_quadrature.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xii/assembler/disk_quadrature.py b/xii/assembler/disk_quadrature.py
index 537c813..36fa51c 100644
--- a/xii/assembler/disk_quadrature.py
+++ b/xii/assembler/disk_quadrature.py
@@ -12,7 +12,7 @@ def disk_quadrature(degree):
         print(f'REQUESTED EVEN DEGREE {degree-1}. ADJUSTING TO ODD {degree}')                
     if degree > 19:
         print('EXCEEDING MAXIMUM SUPPORTED DEGREE. FALLING BACK TO 19')
-        degree == 19
+        degree = 19
 
     # Templates for weight
     if degree == 1:
@@ -32,12 +32,11 @@ def disk_quadrature(degree):
                 (0.005591341512851, 0.834794942216211, 0.834794942216211, 3),
                 (0.190570560169519, 0.740334457173511, 0.379016937530835, 4)]
     elif degree == 11:
-        data = [(-0.103220620849181, 0.000000000000000, 0.000000000000000, 1),
-                (0.000561120485457, 10.081713912649978, 10.081713912649978, 3),
-                (0.234185472691706, 0.329855087221954, 0.329855087221954, 3),
-                (0.123731369524117, 0.163309595229403, 0.163309595229403, 3),
-                (0.194337435615691, 0.582963679648472, 0.582963679648472, 3),
-                (0.129193960146342, 0.862551409331466, 0.191706749096887, 4)]
+        data = [(0.156346360781415, 0.660902014078108, 0.000000000000000, 2),
+                (0.060065293189449, 0.675041284660923, 0.675041284660923, 3),
+                (0.210440727163920, 0.233704001821458, 0.233704001821458, 3),
+                (0.102517408022203, 0.623851215448678, 0.394153874987422, 4),
+                (0.076755483109129, 0.906833137147121, 0.239279362066583, 4)]
     elif degree == 13:
         data = [(0.156239869837333, 0.283402832348825, 0.000000000000000, 2),
                 (0.069447409266977, 0.920575474036251, 0.000000000000000, 2),
-- 
2.43.0


From cd1f9310c2ad3b8a7bb59fedb2f8a9945ea20574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 23/37] fix: coloured patch average sets all unknowns which
 share the patch, once

---
 xii/assembler/patch_average_matrix.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 81994c0..66205c5 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -129,7 +129,7 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
     color_ids = vertex_f.vector().get_local()    
     # We will do the integration a group at a time
     groups = defaultdict(list)
-    for color in np.asarray(color_ids, dtype='uintp'):
+    for color in np.unique(np.asarray(color_ids, dtype='uintp')):
         if color not in coloring:
             continue
         group = coloring[color]
@@ -167,9 +167,9 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
             volumes[color] = patch_volume
             columns[color] = patch_dofs
 
-            d = np.abs(color_ids - color)
-            index = np.argmin(d)
-            assert d[index] < 1E-13
+            # All the dofs of that color
+            index, = np.where(np.abs(color_ids - color) < 1E-13)
+            assert len(index)
             
             rows[color] = index
         # Integrate over group!
@@ -179,9 +179,10 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
         for color in group_colors:
             patch_values = v_dofs_arr[columns[color]]/volumes[color]
             # Update matrix
-            ii.extend(rows[color]*np.ones_like(columns[color]))
-            jj.extend(columns[color])
-            values.extend(patch_values)
+            for row in rows[color]:
+                ii.extend(row*np.ones_like(columns[color]))
+                jj.extend(columns[color])
+                values.extend(patch_values)
             
         # Reset for next round
         chi_array[:] = 0
-- 
2.43.0


From f94a00e715de48cebd696662af3c8e3fbb843ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 24/37] fix: the rim of a square accepts the corner as a tuple
 of numbers

---
 xii/assembler/average_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/assembler/average_shape.py b/xii/assembler/average_shape.py
index 764ae8c..de5704d 100644
--- a/xii/assembler/average_shape.py
+++ b/xii/assembler/average_shape.py
@@ -34,7 +34,7 @@ class Square(BoundingSurface):
     def __init__(self, P, degree):
         if isinstance(P, (tuple, list, np.ndarray)):
             assert all(is_number(Pi) for Pi in P)
-            self.P = lambda x0, p=P: p
+            self.P = lambda x0, p=np.array(P): p
         else:
             self.P = P
 
@@ -90,7 +90,7 @@ class SquareRim(BoundingSurface):
     def __init__(self, P, degree):
         if isinstance(P, (tuple, list, np.ndarray)):
             assert all(is_number(Pi) for Pi in P)
-            self.P = lambda x0, p=P: p
+            self.P = lambda x0, p=np.array(P): p
         else:
             self.P = P
 
-- 
2.43.0


From 6c2825e217f6c5705026bf8b4644babc07424eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 25/37] fix: BlockNullspace accepts constants and numbers as
 components

---
 xii/linalg/block_nullspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/block_nullspace.py b/xii/linalg/block_nullspace.py
index 005b076..2480ac2 100644
--- a/xii/linalg/block_nullspace.py
+++ b/xii/linalg/block_nullspace.py
@@ -26,11 +26,11 @@ class BlockNullspace(object):
         # Substite constancts
         for i, vi in enumerate(vec):
             if isinstance(vi, dolfin.Constant):
-                vec[i] = interpolate(vi, self.W[i]).vector()
+                vec[i] = dolfin.interpolate(vi, self.W[i]).vector()
             elif isinstance(vi, (float, int)):
-                vec[i] = interpolate(Constant(vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
             elif isinstance(vi, (list, tuple)):
-                vec[i] = interpolate(Constant(*vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(tuple(vi)), self.W[i]).vector()
                 
         for b, alpha in zip(self, self.angles(vec)):
             assert abs(abs(alpha/vec.norm())-1) > 1E-10
-- 
2.43.0


From 5ba1fb2b2fbccb8144267185e16c58795440d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 26/37] fix: L20 Riesz map inverts the inner product; repeated
 Gram eigenvalues are accepted

---
 xii/linalg/sherman_morrison.py | 37 +++++++++-------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/xii/linalg/sherman_morrison.py b/xii/linalg/sherman_morrison.py
index 6bb8dc3..8419788 100644
--- a/xii/linalg/sherman_morrison.py
+++ b/xii/linalg/sherman_morrison.py
@@ -17,14 +17,11 @@ def orthonormalize(basis, M, tol=1E-10):
             G[i, j] = zi.inner(M*zj)
             G[j, i] = G[i, j]
 
-    vals, vecs = np.linalg.eig(G)
-    # Symmatric matrices have real spectra so something would be wrong if
-    assert np.all(np.abs(vals.imag) < tol)
-    vals = vals.real
+    # G is symmetric so there is an orthonormal basis of eigenvectors, also
+    # when some eigenvalue is repeated
+    vals, vecs = np.linalg.eigh(G)
     # The matrix should have been an inner product so 
-    assert np.all(vals > 0)
-    # Want invariant subspaces of dim 1 for each eigenvalue, so unique eigenvalues
-    assert len(np.unique(np.round(vals, int(-np.log10(tol))))) == len(vals)
+    assert np.all(vals > tol*np.max(vals))
 
     vecs = vecs.T 
 
@@ -100,29 +97,15 @@ class L20_riesz_map(block_base):
         block_base.__init__(self)
         self.P = Projector(V, nullspace)
         self.iM = inv(self.P.M)
-        # M - (M*Z)*Z.T*M = M*P and so we want inv(P)*inv(M)
-        # inv(P) uses woodbory formula applied to id - outer(pi, di)
-        #
-        #   inv(id - outer(pi, di)) = id + outer(pi, di)/(1-sum(inner(pi, di)))
-        #
+        # M - (M*Z)*Z.T*M = M*P is singular; on the functions orthogonal to
+        # nullspace it is inverted by P*inv(M), which is symmetric
         self.primal_basis = self.P.primal_basis
         self.dual_basis = self.P.dual_basis
-        # The denominator 1-sum(inner(pi, di)) can be precomputed and since
-        # inner(pi, di) = 1 we have
-        self.scale = 1 - len(self.primal_basis)
 
     def matvec(self, x):
-        '''Sherman-Woodburry'''
-        y = self.iM*x  # From dual to primal
-        basis = zip(self.primal_basis, self.dual_basis)
-
-        pi, di = next(basis)
-        w = di.inner(y)*pi
-        for pi, di in basis:
-            w.axpy(di.inner(y), pi)
-        w *= (1/self.scale)
-        
-        return x + w
+        '''From dual to primal, without the component in the nullspace'''
+        y = self.iM*x
+        return self.P*y
     
 # -------------------------------------------------------------------
 
@@ -156,4 +139,4 @@ if __name__ == '__main__':
     iL20 = L20_riesz_map(V, nullspace)
     y = iL20*x  # Apply some operator that is "blind" on the nullspace
     # Check inverse
-    assert norm(x-y) < 1E-13
+    assert norm(Pfh.vector()-y) < 1E-13
-- 
2.43.0


From d09200976f9134dd26ebc0bc8918efb4228d7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 27/37] fix: ii_PETScOperator attaches the given null space

---
 xii/linalg/block_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index c223dcf..01b25d7 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -23,7 +23,7 @@ def block_diag_mat(diagonal):
     return block_mat(blocks)
 
 
-def ii_PETScOperator(bmat, nullspace):
+def ii_PETScOperator(bmat, nullspace=None):
     '''Return an object with mult method which acts like bmat*'''
     colspace_vec, rowspace_vec = bmat.create_vec(0), bmat.create_vec(1)
 
@@ -100,9 +100,11 @@ def ii_PETScOperator(bmat, nullspace):
     mat.setPythonContext(Foo(bmat))
 
     if nullspace is not None:
-        Z = PETSc.NullSpace(constant=True,
-                            vectors=[as_backend_type(v).vec() for v in map(convert, nullspace)],
-                            comm=PETSc.COMM_WORLD)
+        # The layout of the vectors is that of vectors that bmat acts on
+        as_vec = as_petsc_nest if is_block else as_petsc
+        Z = PETSc.NullSpace().create(constant=False,
+                                     vectors=[as_vec(v) for v in nullspace],
+                                     comm=PETSc.COMM_WORLD)
         mat.setNullSpace(Z)
     mat.setUp()
 
-- 
2.43.0


From a009eb7f6b1e0de702ea83339fb3ba958ad802ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 28/37] fix: ScipyLinOp of rectangular operators; Krylov
 drivers without maxiter

---
 xii/linalg/krylov_api.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/krylov_api.py b/xii/linalg/krylov_api.py
index 35e2f68..b0d76fd 100644
--- a/xii/linalg/krylov_api.py
+++ b/xii/linalg/krylov_api.py
@@ -16,7 +16,7 @@ class ScipyLinOp(sp.LinearOperator):
         col_sizes = [v.local_size() for v in bmat.create_vec(1)]
 
         self.shape = (sum(row_sizes), sum(col_sizes))
-        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in row_sizes])
+        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in col_sizes])
             
     def _matvec(self, xarr):
         # Fill
@@ -81,12 +81,16 @@ def scipy_solve(method, AA, bb, tol, M, x0, maxiter=None, **kwargs):
 
     krylov_solve = getattr(sp, method)
 
+    # None stands for the default of the method
+    if maxiter is not None:
+        kwargs['maxiter'] = maxiter
+
     residuals = []
     callback = lambda x, res=residuals: (residuals.append(np.linalg.norm(x)),
                                          print('{} residual norm {}'.format(len(res), res[-1])))
     
     xarr, status = krylov_solve(A=AA_, b=bb_, M=M_, x0=x0_, tol=tol,
-                                maxiter=maxiter, callback=callback,
+                                callback=callback,
                                 **kwargs)
 
     assert status == 0, status
@@ -114,12 +118,16 @@ def cbc_solve(method, AA, bb, tol, M, x0, maxiter=None, **kwargs):
                     'tfqmr': cbc.TFQMR,
                     'minres': cbc.MinRes}[method]
 
+    # None stands for the default of the method
+    if maxiter is not None:
+        kwargs['maxiter'] = maxiter
+
     AAinv = krylov_solve(A=AA,
                          precond=M,
                          tolerance=tol,
                          initial_guess=x0,
-                         maxiter=maxiter,
-                         relativeconv=True)
+                         relativeconv=True,
+                         **kwargs)
     residuals = []
 
     x0 = AAinv*bb
-- 
2.43.0


From 3817336a646a28748681b112e938ec2c8a9f14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 29/37] fix: memoized operators know the method of injection,
 and the values which normals, markers, weights and patches have now

---
 xii/assembler/injection_matrix.py     |  3 ++-
 xii/assembler/mean_matrix.py          | 18 ++----------------
 xii/assembler/patch_average_matrix.py |  5 +++++
 xii/assembler/trace_matrix.py         |  6 +++++-
 4 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index f87bcf2..7dfcbcf 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -17,7 +17,8 @@ def memoize_inj(inj_mat):
     def cached_inj_mat(Vc, Vf, fine_mesh, data):
         key = ((Vc.ufl_element(), Vc.mesh().id()),
                (Vf.ufl_element(), Vf.mesh().id()),
-               fine_mesh.id())
+               fine_mesh.id(),
+               data['not_nested_method'])
                
         if key not in cache:
             cache[key] = inj_mat(Vc, Vf, fine_mesh, data)
diff --git a/xii/assembler/mean_matrix.py b/xii/assembler/mean_matrix.py
index 2153987..b86a13f 100644
--- a/xii/assembler/mean_matrix.py
+++ b/xii/assembler/mean_matrix.py
@@ -11,22 +11,8 @@ import numpy as np
 import tqdm
 
 
-def memoize_average(average_mat):
-    '''Cached average'''
-    cache = {}
-    def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['weight'], data['measure'])
-
-        if key not in cache:
-            cache[key] = average_mat(V, TV, reduced_mesh, data)
-        return cache[key]
-    
-    return cached_average_mat
-
-
-@memoize_average
+# NOTE: not memoized as the operator depends on the present values of weight and
+# subdomain data of the measure. It is one linear form
 def mean_mat(V, TV, reduced_mesh, data):
     '''
     A mapping for computing the patch averages of function in V in the 
diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 66205c5..b87dd57 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -18,6 +18,11 @@ def memoize_average(average_mat):
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
                data['vertex_f'], data['patch_f'])
+        # The operator depends on the present values of these
+        patch_f, coloring = data['patch_f'], data['patch_coloring']
+        key = key + (data['vertex_f'].vector().get_local().tobytes(),
+                     None if patch_f is None else patch_f.array().tobytes(),
+                     None if coloring is None else tuple(sorted(coloring.items())))
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 8c458fe..17184b3 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -22,7 +22,11 @@ def memoize_trace(trace_mat):
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
                data['restriction'], data['normal'], tuple(data['tag_data'][1]))
-               
+        # The operator depends on the present values of orientation and markers
+        if data['normal'] is not None:
+            key = key + (data['normal'].vector().get_local().tobytes(), )
+        key = key + (data['tag_data'][0].array().tobytes(), )
+
         if key not in cache:
             cache[key] = trace_mat(V, TV, trace_mesh, data)
         return cache[key]
-- 
2.43.0


From b092a5d720ed060620bc600a7946b4e4b26f054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 30/37] fix: NormalCurve finds the default outside point far
 enough from coarse curves

---
 xii/meshing/embedded_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index c2a0a9c..503d5bd 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -527,7 +527,9 @@ def NormalCurve(mesh, outside=None, tol=1E-2):
     # The idea is to use a given point to figure out wind number and orient
     # accordingly
     if outside is None:
-        outside = np.max(mesh.coordinates(), axis=0) + np.ones(2)
+        # Keep distance, the wind number is computed by quadrature on the cells
+        X = mesh.coordinates()
+        outside = np.max(X, axis=0) + np.max(np.ptp(X, axis=0))*np.ones(2)
     assert outside.shape == (2, )
     
     n,  = wind_number(mesh, np.array([outside]))
-- 
2.43.0


From 43f0f3997f107be70a9620376d8f4ebc8fdc3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 31/37] fix: CentroidDistance2 sums the distances of the
 centroids to the facet centre

It took the magnitude of the stacked coordinates of the two centroids.
---
 xii/meshing/cell_centers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 0f2eee1..2dabf8c 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -457,7 +457,7 @@ def CentroidVector(mesh):
 
 def CentroidDistance2(mesh):
     '''Magnitude of CentroidVector as a DLT function'''
-    return _CenterDistance(mesh, Center=CentroidVector2)
+    return _CenterDistance2(mesh, Center=CentroidVector2)
 
                            
 def CentroidVector2(mesh):
-- 
2.43.0


From 58c4f1c35a113bae004c7190d9c02016cf05223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 32/37] fix: FacetCentroid of a mesh of an interval

---
 xii/meshing/cell_centers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 2dabf8c..2a6da45 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -492,6 +492,11 @@ def FacetCentroid(mesh):
         V = df.VectorFunctionSpace(mesh, 'Discontinuous Lagrange Trace', 0)
         
     x = df.Function(V)
+    if mesh.geometry().dim() == 1:
+        # One dimensional vectors have no components to assign to
+        x.vector()[:] = xi_foos[0].vector()
+        return x
+
     for i, xi in enumerate(xi_foos):
         df.assign(x.sub(i), xi)
 
-- 
2.43.0


From 4ba4bcdf424d89ee47d5b39fd1ce34847a77325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 33/37] fix: keep gmsh tags when some elements are untagged

---
 xii/meshing/gmsh_interopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/gmsh_interopt.py b/xii/meshing/gmsh_interopt.py
index 6b874d5..72d3801 100644
--- a/xii/meshing/gmsh_interopt.py
+++ b/xii/meshing/gmsh_interopt.py
@@ -129,7 +129,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     
     entity_functions = {}
     # Is there cell_function to build?
-    if np.min(element_data[cell_elm]['cell_data']) > 0:
+    if np.max(element_data[cell_elm]['cell_data']) > 0:
         f = df.MeshFunction('size_t', mesh, cell_tdim)
         f.array()[:] = element_data[cell_elm]['cell_data']
         entity_functions[cell_tdim] = f
@@ -141,7 +141,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
         if elm == cell_elm:
             continue
         # All zeros is not interesting either
-        if np.min(element_data[elm]['cell_data']) == 0:
+        if np.max(element_data[elm]['cell_data']) == 0:
             continue
 
         tdim = elm_tdim[elm]
-- 
2.43.0


From 6bac1e7a015738011b95ce649c8969ea60dd979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 34/37] fix: line_mesh keeps single segment branches and closes
 a closed first branch

---
 xii/meshing/generation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/generation.py b/xii/meshing/generation.py
index 8b82948..53f83fa 100644
--- a/xii/meshing/generation.py
+++ b/xii/meshing/generation.py
@@ -15,6 +15,9 @@ def line_mesh(branches, tol=1E-13):
     ext_nodes = branch[[0, -1]]
 
     ext_bounds = [(0, 1)]
+    # Unless it is closed
+    if np.linalg.norm(ext_nodes[0] - ext_nodes[1]) < tol:
+        ext_nodes, ext_bounds = ext_nodes[:1], [(0, 0)]
     # For the other ones need to check collisions
     for branch in it_branches:
         endpoints = branch[[0, -1]]
@@ -36,8 +39,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
-- 
2.43.0


From 0aa2dd506dc1d1435d8fe2310088a9ddec3904ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 35/37] fix: repeated markers do not duplicate cells of
 EmbeddedMesh

---
 xii/meshing/embedded_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 503d5bd..76b3f0b 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -23,6 +23,8 @@ class EmbeddedMesh(df.Mesh):
     '''
     def __init__(self, marking_function, markers):
         if not isinstance(markers, (list, tuple, set)): markers = [markers]
+        # Repeating a marker does not repeat the entities
+        markers = list(dict.fromkeys(markers))
         
         base_mesh = marking_function.mesh()
         assert base_mesh.topology().dim() >= marking_function.dim()
-- 
2.43.0


From d8134446dcf36127a900b0d24b418f6ec2b097c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 36/37] fix: sums of preconditioners in pc_nest

---
 xii/linalg/nest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index dce612d..ca679af 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -44,7 +44,7 @@ def pc_mat(pc, block):
             pc_ = PETSc.PC().create()
             A = pc_mat(pc_, op)
 
-            pc.addCompositePC(pc_.getType())
+            pc.addCompositePCType(pc_.getType())
 
             pc_sub = pc.getCompositePC(sub)            
             # Make it
-- 
2.43.0


From 9b70e65109cd669f708b3afb560751e446a742c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 37/37] fix: ii_derivative of forms with expressions

---
 xii/nonlin/jacobian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index 4215c5e..8af7ef8 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -80,7 +80,9 @@ def ii_derivative(f, x):
     # zeros is useless
     for fi in [c for c in f.coefficients() if not isinstance(c, df.Constant)]:
         # Short circuit if (partial fi)/(partial x) is 0
-        if not ((fi == x) or fi.vector().id() == x.vector().id()): continue
+        # NOTE: there are coefficients without vectors, e.g. expressions
+        if not ((fi == x) or
+                (isinstance(fi, df.Function) and fi.vector().id() == x.vector().id())): continue
 
         if is_restricted(fi):
             rtype = restriction_type(fi)
-- 
2.43.0

