"""C22  Point evaluations read the function and its gradient at the chosen place."""
import random
from core import tlc, scaled
import meshes as M
NOTE = ('Sessions of readings and changes on chains, branchings and loops from the model, and random readings on curves in 1 - 3 dimensions and on bulk meshes; '
        'the point is a vertex, slopes and discontinuous functions on curves only (as in the code).')
TRACE = 'PointReadTrace'
TECHNIQUE = ('TLA+ meaning of one-cell values and slopes (PointRead); TLC checks locality, uniqueness and linearity on all small curves and generates sessions, '
             'recorded assembled readings validated by TLC')
PER_CASE = 120
ASSUMPTIONS = ['slopes of piecewise constants are refused by the code and not asked for']


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('PointReadMC', 'SPECIFICATION Spec\nCONSTANTS Mode="all" MaxOps=1 Graphs={"chain","star","loop"}\nINVARIANTS Local Single Undirected Linear Difference\nCHECK_DEADLOCK FALSE\n',
            workers=8, timeout=600)
    ctx.model(r, 'PointReadMC laws')
    r = tlc('PointReadMC', 'SPECIFICATION Spec\nCONSTANTS Mode="sim" MaxOps=6 Graphs={"chain","star","loop"}\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n',
            args=['-simulate', 'num=%d' % ctx.pick(60, 600), '-depth', '12', '-seed', str(ctx.seed)], timeout=600)
    ctx.model(r, 'PointReadMC sessions')
    ops = r.tagged('OPS')
    rng.shuffle(ops)
    cases = [dict(what='session', elem=rng.choice(['DG1', 'DG2', 'DG2', 'DG3']), model=o, seed=rng.randint(0, 10**6)) for o in ops[:ctx.pick(50, 600)]]
    for e in ('CG1', 'CG2', 'CG3', 'vCG1', 'vCG2', 'tCG1'):
        for d in (1, 2, 3):
            if d == 1 and e[0] in 'vt':
                continue
            for _ in range(ctx.pick(2, 16)):
                cases.append(dict(what='bulk', elem=e, dim=d, seed=rng.randint(0, 10**6)))
    for e in ('DG0', 'DG1', 'DG2', 'CG1', 'CG2'):
        for d in (1, 2, 3):
            for _ in range(ctx.pick(2, 16)):
                cases.append(dict(what='line', elem=e, dim=d, seed=rng.randint(0, 10**6)))
    return cases


def group(c):
    return c['elem'], c.get('dim', 2)


def setup():
    global df, np, xii, F, C4
    import dolfin as df, numpy as np, xii
    import fe as F, c04 as C4
    C4.setup()


def fields(rng, V, elem, msh):
    """Random function and its description"""
    gd = msh.geometry().dim()
    if elem == 'tCG1':
        polys = [F.random_poly(rng, gd, 1) for _ in range(gd*gd)]
        return F.set_global(V, polys), dict(kind='global', data=polys)
    return C4.random_function(rng, V, elem, msh)


def reading(rng, msh, V, op, f, nc, form):
    """Components of the reading of f, by one of the ways to assemble it"""
    el = df.FiniteElement('Real', msh.ufl_cell(), 0)
    if nc > 1:
        sh = V.ufl_element().value_shape()
        el = df.VectorElement('Real', msh.ufl_cell(), 0, nc) if len(sh) == 1 else df.TensorElement('Real', msh.ufl_cell(), 0, sh)
    R = df.FunctionSpace(msh, el)
    q, p = df.TestFunction(R), df.TrialFunction(R)
    if form == 'dS':
        scale = df.assemble(df.Constant(1)*df.dS(domain=msh))
        dx, at = df.dS(domain=msh), df.avg
        test_ = lambda a, b: df.inner(df.avg(a), df.avg(b))
    else:
        scale = df.assemble(df.Constant(1)*df.dx(domain=msh))
        dx = df.dx(domain=msh)
        test_ = df.inner
    how = rng.choice(['matrix', 'transpose', 'vector'])
    if how == 'matrix':
        A = xii.ii_convert(xii.ii_assemble(test_(op(df.TrialFunction(V)), q)*dx)).array()
        x = A.dot(f.vector().get_local())
    elif how == 'transpose':
        A = xii.ii_convert(xii.ii_assemble(test_(p, op(df.TestFunction(V)))*dx)).array()
        x = A.T.dot(f.vector().get_local())
    else:
        x = xii.ii_convert(xii.ii_assemble(test_(op(f), q)*dx)).get_local()
    return x/scale


def direction(rng, msh, t):
    """Forms in which a direction can be given"""
    gd = msh.geometry().dim()
    k = rng.choice(['constant', 'list', 'array', 'real', 'dg'])
    if k == 'constant' and gd > 1:
        return df.Constant(t)
    if k == 'real' and gd > 1:
        return df.interpolate(df.Constant(t), df.VectorFunctionSpace(msh, 'R', 0, gd))
    if k == 'dg' and gd > 1:
        return df.interpolate(df.Constant(t), df.VectorFunctionSpace(msh, 'DG', 0, gd))
    return list(t) if k == 'list' else np.array(t, dtype=float)


def do_value(rng, msh, V, f, v, c, nc):
    e = dict(ev='value', v=v+1, c=c+1, n=nc)
    # np or python integers
    if rng.random() < .3:
        v, c = np.int64(v), np.int32(c)
    form = 'dS' if msh.topology().dim() == 1 and nc == 1 and rng.random() < .5 else 'dx'
    if form == 'dS' and df.assemble(df.Constant(1)*df.dS(domain=msh)) < .5:
        form = 'dx'
    try:
        e['vals'] = [scaled(x) for x in reading(rng, msh, V, lambda t: xii.PointTrace(t, v, c), f, nc, form)]
        e['out'] = 'ok'
    except Exception as x:
        import traceback; traceback.print_exc()
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return e


def do_slope(rng, msh, V, f, v, c, t):
    a, b = msh.cells()[c]
    S = int(round(sum((msh.coordinates()[b] - msh.coordinates()[a])**2)))
    e = dict(ev='slope', v=v+1, c=c+1, t=list(t), S=S)
    form = rng.choice(['dx', 'dS'])
    if form == 'dS' and df.assemble(df.Constant(1)*df.dS(domain=msh)) < .5:
        form = 'dx'
    try:
        tau = direction(rng, msh, t)
        e['vals'] = [scaled(x, S) for x in reading(rng, msh, V, lambda w: xii.GradientPointTrace(w, v, c, tau), f, 1, form)]
        e['out'] = 'ok'
    except Exception as x:
        import traceback; traceback.print_exc()
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return e


def do_product(msh, f, v, c):
    d = msh.topology().dim()
    e = dict(ev='product', v=v+1, c=c+1)
    try:
        q = df.TestFunction(df.FunctionSpace(msh, 'R', 0))
        x, = xii.ii_convert(xii.ii_assemble(xii.PointTrace(f, v, c)*f*q*df.dx(domain=msh))).get_local()
        e['val'] = scaled(x, [0, 2, 6, 24][d])
        e['out'] = 'ok'
    except Exception as x:
        import traceback; traceback.print_exc()
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return e


def run(case):
    rng = random.Random(case['seed'])
    elem = case['elem']
    if case['what'] == 'session':
        return session(case, rng)
    d = case['dim']
    if case['what'] == 'bulk':
        m = M.chain(rng.randint(2, 5)) if d == 1 else M.tri_grid(rng.randint(1, 3), rng.randint(1, 2), rng) if d == 2 else M.tet_grid(1, 1, rng.randint(1, 2))
    else:
        m = M.chain(rng.randint(2, 5), d)
        m = dict(m, x=[[p[0]] + [rng.randint(-3, 3) for _ in p[1:]] for p in m['x']])
        if d > 1 and rng.random() < .7:
            # a further branch
            n = len(m['x'])
            m = dict(m, x=m['x'] + [[m['x'][1][0] + rng.choice([-1, 1]), 7] + [2]*(d-2)], cells=m['cells'] + [[1, n]])
    m = M.permuted(M.sheared(m, rng), rng)
    msh = M.mesh(m)
    V = df.FunctionSpace(msh, df.TensorElement('Lagrange', msh.ufl_cell(), 1)) if elem == 'tCG1' else F.space(msh, elem)
    vs = V.ufl_element().value_shape()
    nc = int(np.prod(vs)) if vs else 1
    f, u = fields(rng, V, elem, msh)
    ev = [dict(ev='mesh', m=M.snapshot(msh), u=u)]
    for k in range(rng.randint(2, 4)):
        c = rng.randrange(msh.num_cells())
        v = int(rng.choice(list(msh.cells()[c])))
        ev.append(do_value(rng, msh, V, f, v, c, nc))
        if elem.startswith('DG') and elem != 'DG0':
            ev.append(do_slope(rng, msh, V, f, v, c, [rng.randint(-2, 2) for _ in range(d)]))
    if u['kind'] == 'vertices' and nc == 1 and case['what'] == 'bulk':
        ev.append(do_product(msh, f, v, c))
    return ev


def session(case, rng):
    o, k = case['model'], int(case['elem'][-1])
    third = rng.random() < .4
    x = [p + ([p[0] - 2*p[1] + 1] if third else []) for p in o['x']]
    gd = len(x[0])
    perm = list(range(len(x)))
    rng.shuffle(perm)
    pos = [None]*len(x)
    for a, b in enumerate(perm):
        pos[b] = x[a]
    corder = list(range(len(o['cells'])))
    rng.shuffle(corder)
    msh = M.mesh(dict(td=1, gd=gd, x=pos, cells=[[perm[v-1] for v in o['cells'][i]] for i in corder]))
    V = df.FunctionSpace(msh, 'DG', k)
    polys = [[F.random_poly(rng, gd, k)] for _ in o['cells']]
    f = F.set_cellwise(V, polys)
    ev = [dict(ev='mesh', m=M.snapshot(msh), u=dict(kind='cells', data=[list(p) for p in polys]))]
    for op in o['ops']:
        c = corder.index(op['c']-1)
        if op['op'] == 'change':
            polys[c] = [F.random_poly(rng, gd, k)]
            f.vector().set_local(F.set_cellwise(V, polys).vector().get_local())
            ev.append(dict(ev='set', u=dict(kind='cells', data=[list(p) for p in polys])))
        elif op['op'] == 'value':
            ev.append(do_value(rng, msh, V, f, perm[op['v']-1], c, 1))
        else:
            t = op['t'] + ([rng.randint(-1, 1)] if third else [])
            ev.append(do_slope(rng, msh, V, f, perm[op['v']-1], c, t))
    return ev
