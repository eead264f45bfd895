"""C04  Trace operators evaluate the right side, sign, component and tagged part."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
NOTE = ('Every configuration (element, restriction, tag set, dimension) of the model is replayed on several renumbered meshes with random piecewise polynomials and '
        'random normal orientations; values at all trace points are compared exactly. Lowest-order families, conforming meshes, serial.')
TRACE = 'TraceOpTrace'
TECHNIQUE = ('TLA+ meaning of one-sided/jump/average traces of piecewise polynomials (TraceOp); TLC enumerates configurations and checks its laws, '
             'the assembled operators are applied to functions and validated by TLC')
PER_CASE = 120
TV = {'CG1': 'DG1', 'CG2': 'DG2', 'DG0': 'DG0', 'DG1': 'DG1', 'DG2': 'DG2', 'vCG1': 'vDG1', 'vCG2': 'vDG2', 'vDG0': 'vDG0', 'vDG1': 'vDG1',
      'RT1': 'vDG1', 'N1': 'vDG1', 'BDM1': 'vDG1', 'DLT0': 'DG0', 'vDLT0': 'vDG0', 'CR1': 'DG1', 'mix': 'tmix'}
ALL = sorted(TV)


def configs(ctx):
    cfg = ('SPECIFICATION Spec\nCONSTANTS Elements={%s} Restrs={"","+","-","avg","jump"} TagSets={{},{1},{2},{1,2}} Dims={2,3}\n'
           'INVARIANTS AvgJump Flip OneCell Either Emit\nCHECK_DEADLOCK FALSE\n' % ','.join('"%s"' % e for e in ALL))
    r = tlc('TraceOpMC', cfg, workers=8, timeout=600)
    ctx.model(r, 'TraceOpMC')
    return sorted(r.tagged('CFG'), key=lambda c: json.dumps(c, sort_keys=True))


def plan(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    for c in configs(ctx):
        if c['elem'] in ('DLT0', 'vDLT0') and c['restr'] in ('jump', 'avg'):
            continue
        for _ in range(ctx.pick(1, 8)):
            cases.append(dict(what='trace', cfg=c, seed=rng.randint(0, 10**6), how=rng.choice(['matrix', 'vector', 'transpose'])))
    # group by element to profit from the compiled forms of a worker
    return cases


def group(c):
    return c['cfg']['elem'], c['cfg']['dim']


def setup():
    global df, np, xii, F
    import dolfin as df, numpy as np, xii
    import fe as F
    df.set_log_level(50)


def random_function(rng, V, elem, msh, maxdeg=2):
    """(function, its description) in the space of a background mesh"""
    gd = msh.geometry().dim()
    vs = V.ufl_element().value_shape()
    nc = int(np.prod(vs)) if vs else 1
    base = elem[1:] if elem[0] == 'v' else elem
    if base.startswith('DG'):
        k = int(base[-1])
        polys = [[F.random_poly(rng, gd, k) for _ in range(nc)] for _ in range(msh.num_cells())]
        return F.set_cellwise(V, polys), dict(kind='cells', data=polys)
    if base == 'CG1':
        vals = [[rng.randint(-9, 9) for _ in range(nc)] for _ in range(msh.num_vertices())]
        f = df.Function(V)
        v = np.zeros(V.dim())
        key = {tuple(np.round(p, 8)): i for i, p in enumerate(msh.coordinates())}
        for es in F.cell_entries(V):
            for d, x, i in es:
                v[d] = vals[key[tuple(np.round(x, 8))]][i-1]
        f.vector().set_local(v)
        return f, dict(kind='vertices', data=vals)
    if base == 'DLT0':
        td = msh.topology().dim()
        tab = M.ents(msh, td-1)
        vals = [[rng.randint(-9, 9) for _ in range(nc)] for _ in tab]
        f = df.Function(V)
        v = np.zeros(V.dim())
        for i, l in enumerate(F.leaves(V)):
            for e, d in enumerate(l.dofmap().entity_dofs(msh, td-1)):
                v[d] = vals[e][i]
        f.vector().set_local(v)
        return f, dict(kind='facets', facets=tab, data=vals)
    if base == 'mix':
        polys = [F.random_poly(rng, gd, 2), F.random_poly(rng, gd, 1)]
    elif base == 'RT1':
        c = rng.choice([0, -1, 2])
        polys = [[[rng.randint(-5, 5)] + [0]*gd, [c] + [int(i == j) for j in range(gd)]] for i in range(gd)]
    elif base == 'N1':
        const = [[rng.randint(-5, 5)] + [0]*gd for i in range(gd)]
        if gd == 2:
            c = rng.choice([0, -1, 2])
            polys = [[const[0], [-c, 0, 1]], [const[1], [c, 1, 0]]]
        else:
            b = [rng.randint(-2, 2) for _ in range(3)]
            cross = [[[b[1], 0, 0, 1], [-b[2], 0, 1, 0]], [[b[2], 1, 0, 0], [-b[0], 0, 0, 1]], [[b[0], 0, 1, 0], [-b[1], 1, 0, 0]]]
            polys = [[const[i]] + cross[i] for i in range(3)]
    else:
        polys = [F.random_poly(rng, gd, int(base[-1])) for _ in range(nc)]
    return F.set_global(V, polys), dict(kind='global', data=polys)


def normal_of(p):
    """An integer vector orthogonal to the edge/triangle with the vertices p"""
    if len(p) == 2:
        return [p[1][1]-p[0][1], p[0][0]-p[1][0]]
    a = [p[1][k]-p[0][k] for k in range(3)]
    b = [p[2][k]-p[0][k] for k in range(3)]
    return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]


def scene(rng, dims, maxf=7):
    """Background and tagged facets"""
    m = M.tri_grid(rng.randint(1, 3), rng.randint(1, 2), rng) if dims == 2 else M.tet_grid(1, 1, 1)
    m = M.permuted(M.sheared(m, rng), rng)
    fs = M.entities(m, dims-1)
    rng.shuffle(fs)
    fs = fs[:rng.randint(3, maxf)]
    tags = [1, 2, 3] + [rng.randint(1, 3) for _ in fs[3:]]
    return m, fs, tags


def embedded(rng, m, fs, tags, fdim, bg):
    """Embedded mesh of the facets: extracted from bg or built on its own"""
    if rng.random() < .5:
        f = df.MeshFunction('size_t', bg, fdim, 0)
        col = dict(zip(fs, tags))
        for i, e in enumerate(M.ents(bg, fdim)):
            f[i] = col.get(tuple(sorted(v-1 for v in e)), 0)
        em = xii.EmbeddedMesh(f, [1, 2, 3])
    else:
        order = list(range(len(fs)))
        rng.shuffle(order)
        em = M.mesh(M.subset(dict(m, td=fdim), [fs[i] for i in order]))
        mf = df.MeshFunction('size_t', em, fdim, 0)
        for k, i in enumerate(order):
            mf[k] = tags[i]
        em.marking_function = mf
    return em


def set_normal(rng, em):
    """Unit normals of random orientation; the integer multiples of them"""
    gd = em.geometry().dim()
    X = M.coords(em)
    ns = []
    for c in M.ents(em, em.topology().dim()):
        n = normal_of([X[v-1] for v in c])
        s = rng.choice([-1, 1])
        ns.append([s*t for t in n])
    N = df.VectorFunctionSpace(em, 'DG', 0, gd)
    f = df.Function(N)
    v = np.zeros(N.dim())
    for c, es in enumerate(F.cell_entries(N)):
        for d, x, i in es:
            v[d] = ns[c][i-1]/np.linalg.norm(ns[c])
    f.vector().set_local(v)
    f.vector().apply('insert')
    return f, ns


def trace_space(em, elem):
    if elem == 'mix':
        c = em.ufl_cell()
        return df.FunctionSpace(em, df.MixedElement([df.FiniteElement('Discontinuous Lagrange', c, 2),
                                                     df.FiniteElement('Discontinuous Lagrange', c, 1)]))
    return F.space(em, TV[elem])


def run(case):
    from xii import Trace, ii_assemble, ii_convert
    rng = random.Random(case['seed'])
    c = case['cfg']
    dims = c['dim']
    m, fs, tags = scene(rng, dims)
    bg = M.mesh(m)
    em = embedded(rng, m, fs, tags, dims-1, bg)
    mark = M.vals(em.marking_function)
    V, T = F.space(bg, c['elem']), trace_space(em, c['elem'])
    f, desc = random_function(rng, V, c['elem'], bg)
    n, ns = set_normal(rng, em)
    ev = [dict(ev='mesh', em=dict(mark=mark, **M.snapshot(em)), **M.snapshot(bg))]
    kw = {}
    if c['restr']:
        kw.update(restriction=c['restr'], normal=n)
    if c['tags']:
        kw.update(tag=c['tags'][0] if len(c['tags']) == 1 and rng.random() < .5 else set(c['tags']))
    e = dict(ev='trace', restr=c['restr'], tags=c['tags'], all=not c['tags'], u=desc, normal=ns)
    ev.append(e)
    dx_ = df.Measure('dx', domain=em)
    S = 2 if c['restr'] == 'avg' else 1
    try:
        u, v, p, q = df.TrialFunction(V), df.TestFunction(V), df.TrialFunction(T), df.TestFunction(T)
        if case['how'] == 'matrix':
            A = ii_convert(ii_assemble(df.inner(Trace(u, em, **kw), q)*dx_))
            b = A.array().dot(f.vector().get_local())
        elif case['how'] == 'transpose':
            A = ii_convert(ii_assemble(df.inner(Trace(v, em, **kw), p)*dx_))
            b = A.array().T.dot(f.vector().get_local())
        else:
            b = ii_assemble(df.inner(Trace(f, em, **kw), q)*dx_)
            b = ii_convert(b).get_local()
        e['vals'] = F.points(T, F.solve_mass(T, b), S)
        e['out'] = 'ok'
    except Exception as x:
        import traceback; traceback.print_exc()
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return ev
