"""Finite element helpers for the workers (dolfin only, independent of the code under test)."""
import numpy as np
import dolfin as df
from core import scaled


def element(name, cell):
    """'CG1', 'DG0', 'vCG1', 'RT1', 'N1', 'DLT0', 'vDLT0', 'mix' ..."""
    if name == 'mix':
        return df.MixedElement([df.FiniteElement('Lagrange', cell, 2), df.FiniteElement('Discontinuous Lagrange', cell, 1)])
    if name.startswith('v'):
        e = element(name[1:], cell)
        return df.VectorElement(e)
    fam = {'CG': 'Lagrange', 'DG': 'Discontinuous Lagrange', 'RT': 'Raviart-Thomas', 'BDM': 'Brezzi-Douglas-Marini',
           'N': 'Nedelec 1st kind H(curl)', 'DLT': 'Discontinuous Lagrange Trace', 'CR': 'Crouzeix-Raviart'}[name.rstrip('0123456789')]
    return df.FiniteElement(fam, cell, int(name[-1]))


def space(msh, name):
    return df.FunctionSpace(msh, element(name, msh.ufl_cell()))


def leaves(V):
    if V.num_sub_spaces() == 0:
        return [V]
    return [l for i in range(V.num_sub_spaces()) for l in leaves(V.sub(i))]


def cell_entries(V):
    """For every cell list of (dof, point, component) of a (vector/mixed) Lagrange space, components from 1"""
    msh = V.mesh()
    x = dofx(V)
    maps = [l.dofmap() for l in leaves(V)]
    return [[(int(d), x[d], i+1) for i, m in enumerate(maps) for d in m.cell_dofs(c)] for c in range(msh.num_cells())]


def dofx(V):
    """Coordinates of dofs, also of vector and mixed spaces"""
    gd = V.mesh().geometry().dim()
    if V.num_sub_spaces() == 0:
        return V.tabulate_dof_coordinates().reshape((-1, gd))
    out = np.zeros((V.dim(), gd))
    for l in leaves(V):
        C = l.collapse()
        xs = C.tabulate_dof_coordinates().reshape((-1, gd))
        for c in range(V.mesh().num_cells()):
            for a, b in zip(l.dofmap().cell_dofs(c), C.dofmap().cell_dofs(c)):
                out[a] = xs[b]
    return out


def poly(p, x):
    """Value of the polynomial [[coef, e1, ..]..]"""
    return sum(m[0]*np.prod([x[i]**e for i, e in enumerate(m[1:])]) for m in p)


def random_poly(rng, gd, degree):
    out = []
    for _ in range(rng.randint(2, 4)):
        e = [0]*gd
        for _ in range(rng.randint(0, degree)):
            e[rng.randrange(gd)] += 1
        out.append([rng.choice([-3, -2, -1, 1, 2, 4])] + e)
    return out


class PolyExpr(df.UserExpression):
    """Global polynomial field [poly per component]; scalar if shape is empty"""
    def __init__(self, polys, shape, **kw):
        self._polys, self._shape = polys, shape
        super().__init__(**kw)

    def eval(self, values, x):
        for i, p in enumerate(self._polys):
            values[i] = poly(p, x)

    def value_shape(self):
        return self._shape


def set_cellwise(V, polys):
    """Function in discontinuous Lagrange space: polys[cell][component]"""
    f = df.Function(V)
    v = np.zeros(V.dim())
    for c, es in enumerate(cell_entries(V)):
        for d, x, i in es:
            v[d] = poly(polys[c][i-1], x)
    f.vector().set_local(v)
    f.vector().apply('insert')
    return f


def set_global(V, polys):
    shape = V.ufl_element().value_shape()
    if all(l.ufl_element().family() in ('Lagrange', 'Discontinuous Lagrange') for l in leaves(V)):
        return set_cellwise(V, [polys]*V.mesh().num_cells())
    f = df.Function(V)
    deg = V.ufl_element().degree()
    f.interpolate(PolyExpr(polys, shape, degree=max(deg, 1)))
    return f


def solve_mass(TV, b, dx_=None):
    """Coefficients of the function with the given moments"""
    u, v = df.TrialFunction(TV), df.TestFunction(TV)
    M = df.assemble(df.inner(u, v)*df.dx(domain=TV.mesh())).array()
    return np.linalg.solve(M, np.asarray(b))


def points(V, coefs, S=1, X=1):
    """[[point, component, value]..] per cell"""
    return [[[[scaled(t, X) for t in x], i, scaled(coefs[d], S)] for d, x, i in es] for es in cell_entries(V)]
