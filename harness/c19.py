"""C19  Averaging reproduces constants and linear fields and stays local."""
import random
from core import tlc, scaled
import meshes as M
NOTE = ('All shapes in all planes of small normals from the model, affine radii, global polynomials of degree <= 2 plus arbitrary values outside of reach; '
        'moments of the rules up to their degree; patches from the model; weights/functions cellwise linear; boxes for shapes partly outside. '
        'Circle rules with few points are only asked for constants; fluxes of arguments only (of functions they are refused by design).')
TRACE = 'AveragesTrace'
TECHNIQUE = ('TLA+ meaning of averages over shapes, patches and domains (Averages), its formulas checked by TLC against exact cubature in all small planes; planes and '
             'patch markings from TLC replayed, assembled averages validated by TLC')
PER_CASE = 120
ASSUMPTIONS = ['published disk rules of degrees 5, 9, 17, 19 have points outside of the disk and degree 19 negative weights: for disks only the reach of 1.42 radii is required']
STEP = 4


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('AveragesMC', 'SPECIFICATION Spec\nCONSTANTS Mode="shape"\nINVARIANTS Cubature Even Exact Order FluxLaw SecondMoment Far1 Emit\nCHECK_DEADLOCK FALSE\n', workers=8, timeout=600)
    ctx.model(r, 'AveragesMC shapes')
    planes = r.tagged('PLANE')
    r = tlc('AveragesMC', 'SPECIFICATION Spec\nCONSTANTS Mode="patch"\nINVARIANTS Consts Between Whole Emit\nCHECK_DEADLOCK FALSE\n', workers=8, timeout=600)
    ctx.model(r, 'AveragesMC patches')
    patches = r.tagged('PATCH')
    rng.shuffle(planes)
    rng.shuffle(patches)
    small = [p for p in planes if sum(t*t for t in p['n']) <= 9 and sum(t*t for t in p['d']) <= 9]
    cases = []
    for e in ('CG1', 'CG2', 'DG1', 'DG2', 'vCG1', 'vCG2', 'vDG1', 'DG0'):
        for kind in ('circle', 'disk', 'square', 'rim'):
            for _ in range(ctx.pick(2, 12)):
                cases.append(dict(what='shape', elem=e, kind=kind, plane=rng.choice(small)))
    # almost, but not quite along the last axis
    for e in ('CG2', 'DG2'):
        for kind in ('circle', 'disk', 'square', 'rim'):
            for _ in range(ctx.pick(1, 6)):
                n, d = rng.choice([([1, 0, 25], [0, 1, 0]), ([0, -1, 25], [-2, 0, 0]), ([-1, 0, -25], [0, 2, 0]), ([0, 1, 22], [2, 0, 0])])
                cases.append(dict(what='shape', elem=e, kind=kind, plane=dict(n=n, d=d), steep=True))
    for e in ('vCG1', 'vCG2', 'BDM1', 'RT1'):
        for _ in range(ctx.pick(3, 16)):
            cases.append(dict(what='flux', elem=e, kind='circle', plane=rng.choice(small)))
    for kind in ('circle', 'disk', 'square', 'rim'):
        for _ in range(ctx.pick(4, 24)):
            cases.append(dict(what='part', elem=rng.choice(['CG1', 'DG0', 'vCG1']), kind=kind))
    for d in range(1, 22):
        cases.append(dict(what='moments', kind='disk', deg=d))
    for d in range(1, 11):
        cases.append(dict(what='moments', kind='square', deg=d))
        cases.append(dict(what='moments', kind='rim', deg=d))
    for d in (1, 4, 16, 20, 24, 30):
        cases.append(dict(what='moments', kind='circle', deg=d))
    for e in ('CG1', 'vCG1'):
        for _ in range(ctx.pick(4, 24)):
            cases.append(dict(what='edges', elem=e))
    for k, p in enumerate(patches[:ctx.pick(60, 900)]):
        cases.append(dict(what='patch', elem=rng.choice(['DG0', 'DG1', 'CG1']), model=p, coloring=k % 2 == 1, dim=p['mesh']))
    for _ in range(ctx.pick(8, 60)):
        cases.append(dict(what='patch', elem=rng.choice(['DG0', 'DG1', 'CG1']), coloring=rng.random() < .5, dim=3))
    for d in (1, 2, 3):
        for _ in range(ctx.pick(2, 12)):
            cases.append(dict(what='node', elem='CG1', dim=d))
        for e in ('DG0', 'DG1', 'CG1'):
            for _ in range(ctx.pick(3, 16)):
                cases.append(dict(what='mean', elem=e, dim=d))
        if d > 1:
            for _ in range(ctx.pick(4, 24)):
                cases.append(dict(what='surface', elem='CG1', dim=d))
    for c in cases:
        c['seed'] = rng.randint(0, 10**6)
    return cases


def group(c):
    return c['what'], c.get('elem', ''), c.get('dim', 3)


def setup():
    global df, np, xii, F, C4, shapes
    import dolfin as df, numpy as np, xii
    import fe as F, c04 as C4
    import xii.assembler.average_shape as shapes
    C4.setup()


def reduced(rng, f, V, Q, op, dom, hows=('matrix', 'vector', 'transpose')):
    """Coefficients in Q (discontinuous) of the reduction of the function"""
    u, q, p, v = df.TrialFunction(V), df.TestFunction(Q), df.TrialFunction(Q), df.TestFunction(V)
    dx_ = df.Measure('dx', domain=dom)
    how = rng.choice(hows)
    if how == 'matrix':
        b = xii.ii_convert(xii.ii_assemble(df.inner(op(u), q)*dx_)).array().dot(f.vector().get_local())
    elif how == 'transpose':
        b = xii.ii_convert(xii.ii_assemble(df.inner(op(v), p)*dx_)).array().T.dot(f.vector().get_local())
    else:
        b = xii.ii_convert(xii.ii_assemble(df.inner(op(f), q)*dx_)).get_local()
    return F.solve_mass(Q, b)


def attempt(e, fun):
    try:
        fun()
        e['out'] = 'ok'
    except Exception as x:
        import traceback; traceback.print_exc()
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return e


def box(rng, n=4, high=1):
    m = M.tet_grid(n, n, n, step=STEP)
    return M.permuted(dict(m, x=[[x, y, high*z] for x, y, z in m['x']]), rng)


def curve(rng, n, start, cells):
    """Line along n (a few cells, random numbering and direction)"""
    x = [[s + 2*k*t for s, t in zip(start, n)] for k in range(cells+1)]
    cs = [rng.sample([k, k+1], 2) for k in range(cells)]
    return M.permuted(dict(td=1, gd=3, x=x, cells=cs), rng)


def shape_of(rng, kind, d, n, points, room, deg):
    """Shape which has all its points within the box; description for the specification"""
    if kind in ('circle', 'disk'):
        fits = lambda a, b: all(1 <= a + sum(s*t for s, t in zip(b, c)) and 1.45*(a + sum(s*t for s, t in zip(b, c))) <= min(min(t, r-t) for t, r in zip(c, room)) for c in points)
        opts = [(a, b) for a in range(-12, 13) for b in ([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, -1, 0], [-1, 0, 0], [1, -1, 0]) if fits(a, b)]
        if not opts:
            return None
        a, b = rng.choice([o for o in opts if o[1] != [0, 0, 0]] or opts)
        if b == [0, 0, 0] and rng.random() < .7:
            R = float(a)
        else:
            R = lambda x0: a + np.dot(b, x0)
        return getattr(shapes, kind.capitalize())(R, deg), dict(kind=kind, a=a, b=b, d=[0, 0, 0])
    D = sum(t*t for t in d)
    if not all(D <= min(min(t, r-t) for t, r in zip(c, room))**2 for c in points):
        return None
    cls = shapes.Square if kind == 'square' else shapes.SquareRim
    if len(points) == 1:
        P = [c + t for c, t in zip(points[0], d)]
        P = rng.choice([tuple(map(float, P)), np.array(P, dtype=float), lambda x0: x0 + np.array(d)])
    else:
        P = lambda x0: x0 + np.array(d)
    return cls(P, deg), dict(kind=kind, a=0, b=[0, 0, 0], d=list(d))


def scene(rng, case, qdeg):
    """Curve and shape which fits into the box"""
    n, d = case['plane']['n'], case['plane']['d']
    tall = [1, 1, 6] if case.get('steep') else [1, 1, 1]
    # as if the box was a cube
    room = 4*STEP
    deg = {'circle': rng.choice([16, 20, 25]), 'disk': rng.choice(list(range(2, 20))), 'square': rng.randint(2, 5), 'rim': rng.randint(2, 5)}[case['kind']]
    for _ in range(300):
        nc = rng.randint(1, 2)
        start = [rng.randint(1, k*room-1) for k in tall]
        lm = curve(rng, n, start, nc)
        if not all(0 < t < k*room for p in lm['x'] for t, k in zip(p, tall)):
            continue
        pts = lm['x'] if qdeg else []
        if qdeg != 1:
            pts = pts + [[(a+b)//2 for a, b in zip(lm['x'][c[0]], lm['x'][c[1]])] for c in lm['cells']]
        s = shape_of(rng, case['kind'], d, n, pts, [k*room for k in tall], deg)
        if s is not None:
            return lm, s, pts
    return None


def far_cells(m, lm, centres, s):
    """Cells out of reach of all shapes (the specification checks it)"""
    out = []
    c2 = lambda c: (s['a'] + sum(x*y for x, y in zip(s['b'], c)))**2 if s['kind'] in ('circle', 'disk') else sum(t*t for t in s['d'])
    for k, cell in enumerate(m['cells']):
        P = [m['x'][v] for v in cell]

        def apart(c, n):
            h = [sum(a*(p[i]-c[i]) for i, a in enumerate(n)) for p in P]
            if min(h) > 0 or max(h) < 0:
                return True
            g = sum(max(0, min(p[i] for p in P)-c[i], c[i]-max(p[i] for p in P))**2 for i in range(3))
            return g > (2 if s['kind'] == 'disk' else 1)*c2(c)
        if all(apart(c, n) for c, n in centres):
            out.append(k)
    return out


def run(case):
    return globals()['run_' + case['what']](case, random.Random(case['seed']))


def run_shape(case, rng):
    elem = case['elem']
    qdeg = int(elem[-1])
    sc = scene(rng, case, qdeg)
    if sc is None:
        return []
    lm, (shape, s), _ = sc
    m = box(rng, high=6 if case.get('steep') else 1)
    bg, line = M.mesh(m), M.mesh(lm)
    V = F.space(bg, elem)
    Q = F.space(line, ('v' if elem[0] == 'v' else '') + 'DG%d' % qdeg)
    nc = 3 if elem[0] == 'v' else 1
    polys = [F.random_poly(rng, 3, qdeg) for _ in range(nc)]
    if case.get('steep'):
        # numbers stay small enough
        polys = [[[rng.choice([-2, 1, 3]), 0, 1, 1], [rng.choice([-1, 2]), 1, 0, 1], [rng.choice([-3, 2]), 1, 1, 0]] for _ in range(nc)]
    f = F.set_global(V, polys)
    ns = [[b-a for a, b in zip(lm['x'][c[0]], lm['x'][c[1]])] for c in lm['cells']]
    entries = F.cell_entries(Q)
    centres = [([int(round(t)) for t in x], n) for es, n in zip(entries, ns) for _, x, _ in es]
    far = far_cells(m, lm, centres, s)
    V.mesh()
    if rng.random() < .7 and far:
        # anything goes where no shape reaches
        dm, v = V.dofmap(), f.vector().get_local()
        near = set(d for c in range(bg.num_cells()) if c not in set(far) for d in dm.cell_dofs(c))
        for d in range(V.dim()):
            if d not in near:
                v[d] = rng.randint(-10**4, 10**4)
        f.vector().set_local(v)
        f.vector().apply('insert')
    else:
        far = []
    ev = []
    e = dict(ev='shape', line=M.snapshot(line), shape=s, polys=polys, bg=dict(x=M.coords(bg)), far=[[v+1 for v in m['cells'][k]] for k in far], vals=[])

    def go():
        T = reduced(rng, f, V, Q, lambda t: xii.Average(t, line, shape), line)
        e['vals'] = [[[[int(round(t)) for t in x], i, scaled(T[d], 12*sum(t*t for t in n))] for d, x, i in es] for es, n in zip(entries, ns)]
    ev.append(attempt(e, go))
    g = dict(ev='measure', shape=s, vals=[])

    def go():
        mf = shapes_measure(xii.Average(f, line, shape))
        W = mf.function_space()
        g['vals'] = [[[int(round(t)) for t in x], int(round(1000*mf.vector()[int(d)]))] for es in F.cell_entries(W) for d, x, _ in es]
    ev.append(attempt(g, go))
    return ev


def shapes_measure(a):
    from xii.assembler.average_matrix import MeasureFunction
    return MeasureFunction(a)


def run_flux(case, rng):
    elem = case['elem']
    qdeg = int(elem[-1])
    sc = scene(rng, case, qdeg)
    if sc is None:
        return []
    lm, (shape, s), _ = sc
    bg, line = M.mesh(box(rng)), M.mesh(lm)
    V = F.space(bg, elem)
    Q = F.space(line, 'DG%d' % qdeg)
    if elem == 'RT1':
        k = rng.randint(-3, 3)
        polys = [[[rng.randint(-4, 4), 0, 0, 0], [k] + [int(i == j) for j in range(3)]] for i in range(3)]
    else:
        polys = [F.random_poly(rng, 3, 1) for _ in range(3)]
    f = F.set_global(V, polys)
    ns = [[b-a for a, b in zip(lm['x'][c[0]], lm['x'][c[1]])] for c in lm['cells']]
    e = dict(ev='flux', line=M.snapshot(line), shape=s, polys=polys, vals=[])

    def go():
        T = reduced(rng, f, V, Q, lambda t: xii.FluxAverage(t, line, shape), line, ('matrix', 'transpose'))
        e['vals'] = [[[[int(round(t)) for t in x], i, scaled(T[d], 2*sum(t*t for t in n))] for d, x, i in es] for es, n in zip(F.cell_entries(Q), ns)]
    return [attempt(e, go)]


def run_part(case, rng):
    """Shapes sticking out of the box"""
    kind, elem = case['kind'], case['elem']
    n = rng.choice([[0, 0, 1], [0, 1, 0], [1, 1, 0], [1, 2, 2], [-1, 0, 2]])
    L = 2*STEP
    for _ in range(200):
        start = [rng.randint(0, L) for _ in range(3)]
        lm = curve(rng, n, start, rng.randint(1, 2))
        if all(0 <= t <= L for p in lm['x'] for t in p):
            break
    else:
        return []
    m = box(rng, 2)
    bg, line = M.mesh(m), M.mesh(lm)
    deg = rng.choice([3, 4, 6])
    if kind in ('circle', 'disk'):
        shape = getattr(shapes, kind.capitalize())(rng.choice([1.37, 2.91, 5.23]), deg)
    else:
        d = {(0, 0, 1): [1, 2, 0], (0, 1, 0): [2, 0, 1], (1, 1, 0): [1, -1, 1], (1, 2, 2): [2, -1, 0], (-1, 0, 2): [2, 1, 1]}[tuple(n)]
        k = rng.choice([.73, 1.31, 2.17])
        shape = (shapes.Square if kind == 'square' else shapes.SquareRim)(lambda x0: x0 + k*np.array(d), deg)
    V, Q = F.space(bg, elem), F.space(line, {'CG1': 'DG1', 'DG0': 'DG0', 'vCG1': 'vDG1'}[elem])
    ncomp = 3 if elem[0] == 'v' else 1
    f = F.set_global(V, [[[1, 0, 0, 0]]]*ncomp)
    e = dict(ev='part', box=[L*1000]*3, rows=[])
    xs = lm['x']

    def go():
        T = reduced(rng, f, V, Q, lambda t: xii.Average(t, line, shape), line)
        rows = []
        for c, es in enumerate(F.cell_entries(Q)):
            a, b = line.coordinates()[line.cells()[c]]
            for d, x, i in es:
                q = shape.quadrature(x, a - b)
                P, w = np.array(q.points), np.array(q.weights)/sum(q.weights)
                rows.append(dict(pts=[[int(round(1000*t)) for t in p] for p in P], w=[int(round(10**6*t)) for t in w], val=int(round(10**6*T[d]))))
        e['rows'] = rows
    attempt(e, go)
    if any(abs(t) <= 6 or abs(t-L*1000) <= 6 for r in e['rows'] for p in r['pts'] for t in p):
        return []
    return [e]


def run_moments(case, rng):
    kind, deg = case['kind'], case['deg']
    top = {'disk': deg + 1 if deg % 2 == 0 else min(deg, 19), 'square': 2*deg-1, 'rim': 2*deg-1, 'circle': 6}[kind]
    top = min(top, 19)
    ev = []
    for _ in range(2):
        k = rng.randrange(3)
        i, j = [t for t in range(3) if t != k]
        n = np.zeros(3)
        n[k] = rng.choice([-3., .5, 1.])
        x0 = np.array([rng.uniform(-2, 2) for _ in range(3)])
        R = rng.choice([.25, 1., 3.])
        e = dict(ev='moments', kind=kind, deg=deg, m=[], off=0, neg=0)

        def go():
            if kind in ('circle', 'disk'):
                shape = getattr(shapes, kind.capitalize())(R, deg)
            else:
                d = np.zeros(3)
                d[i], d[j] = rng.choice([-R, R]), rng.choice([-R, R])
                shape = (shapes.Square if kind == 'square' else shapes.SquareRim)(lambda y: y + d, deg)
            q = shape.quadrature(x0, n)
            P, w = (np.array(q.points) - x0)/R, np.array(q.weights)
            W = w.sum()
            e['m'] = [[int(round(10**6*(w*P[:, i]**a*P[:, j]**b).sum()/W)) for b in range(top+1)] for a in range(top+1)]
            e['off'] = int(round(10**6*abs(P[:, k]).max()))
            e['neg'] = int((w < 0).sum())
        ev.append(attempt(e, go))
    return ev


def run_edges(case, rng):
    elem = case['elem']
    m = M.permuted(M.sheared(M.tet_grid(rng.randint(1, 2), 1, 1, step=STEP), rng), rng)
    bg = M.mesh(m)
    bg.init(1)
    ne = bg.num_entities(1)
    f = df.MeshFunction('size_t', bg, 1, 0)
    f.array()[rng.sample(range(ne), rng.randint(1, 4))] = 1
    line = xii.EmbeddedMesh(f, 1)
    V, Q = F.space(bg, elem), F.space(line, ('v' if elem[0] == 'v' else '') + rng.choice(['DG0', 'DG1']))
    nc = 3 if elem[0] == 'v' else 1
    X = M.coords(bg)
    u = [[rng.randint(-9, 9) for _ in range(nc)] for _ in X]
    g = df.Function(V)
    v = g.vector().get_local()
    for es in F.cell_entries(V):
        for d, x, i in es:
            v[d] = u[X.index([int(round(t)) for t in x])][i-1]
    g.vector().set_local(v)
    g.vector().apply('insert')
    e = dict(ev='edges', line=M.snapshot(line), bg=dict(x=X), u=u, vals=[])

    def go():
        T = reduced(rng, g, V, Q, lambda t: xii.Average(t, line, None), line)
        # midpoints of edges are kept as integers (coordinates are even)
        e['vals'] = F.points(Q, T, 2)
    return [attempt(e, go)]


def cellwise(rng, msh, elem):
    """Random function and its values at the vertices of cells"""
    V = F.space(msh, elem)
    td = msh.topology().dim()
    if elem == 'DG0':
        u = [[rng.randint(-9, 9)]*(td+1) for _ in range(msh.num_cells())]
    elif elem == 'DG1':
        u = [[rng.randint(-9, 9) for _ in range(td+1)] for _ in range(msh.num_cells())]
    else:
        at = [rng.randint(-9, 9) for _ in range(msh.num_vertices())]
        u = [[at[v] for v in c] for c in msh.cells()]
    f = df.Function(V)
    w = f.vector().get_local()
    X = msh.coordinates()
    for c, es in enumerate(F.cell_entries(V)):
        for d, x, _ in es:
            w[d] = u[c][0] if elem == 'DG0' else u[c][[k for k, v in enumerate(msh.cells()[c]) if np.allclose(X[v], x)][0]]
    f.vector().set_local(w)
    f.vector().apply('insert')
    return V, f, u


MESHES = [dict(td=1, gd=1, x=[[0], [1], [3], [4], [6]], cells=[[0, 1], [1, 2], [2, 3], [3, 4]]),
          dict(td=2, gd=2, x=[[0, 0], [2, 0], [0, 2], [2, 2], [4, 0], [4, 2]], cells=[[0, 1, 3], [0, 2, 3], [1, 3, 4], [3, 4, 5]])]


def run_patch(case, rng):
    elem, p = case['elem'], case.get('model')
    if p:
        m, mark, colors = MESHES[p['mesh']-1], p['mark'], p['colors']
        apart = [tuple(a) for a in p['apart']]
    else:
        m = M.permuted(M.tet_grid(2, 1, 1, step=2), rng)
        k = rng.randint(2, 4)
        mark = [rng.randint(0, k) for _ in m['cells']]
        have = [c for c in sorted(set(mark)) if c]
        colors = [rng.choice(have + [0]) for _ in range(rng.randint(3, 5))]
        near = lambda a, b: any(set(s) & set(t) for s, i in zip(m['cells'], mark) if i == a for t, j in zip(m['cells'], mark) if j == b)
        apart = [(a, b) for a in have for b in have if a < b and not near(a, b)]
    bg = M.mesh(m)
    gd = m['gd']
    V, f, u = cellwise(rng, bg, elem)
    pf = df.MeshFunction('size_t', bg, m['td'], 0)
    pf.array()[:] = mark
    # a curve with as many unknowns as there are colours
    tv = rng.choice(['DG0', 'CG1'])
    line = M.mesh(M.permuted(M.chain(len(colors) - (tv == 'CG1'), gd), rng))
    T = F.space(line, tv)
    vf = df.Function(T)
    vf.vector().set_local(np.array(colors, dtype=float))
    vf.vector().apply('insert')
    used = sorted(set(colors) - {0})
    skip = set()
    coloring = None
    if case['coloring'] and used:
        # patches which are apart may share the group, with discontinuous functions all may
        group = {}
        for k in used:
            ok = [g for g in set(group.values()) if all(elem != 'CG1' or (min(a, k), max(a, k)) in apart for a in group if group[a] == g)]
            group[k] = rng.choice(ok) if ok and rng.random() < .7 else 10 + k
        if rng.random() < .2:
            skip = {rng.choice(used)}
        coloring = {k: g for k, g in group.items() if k not in skip}
        if not coloring:
            return []
    e = dict(ev='patch', m=M.snapshot(bg), u=u, mark=mark, rows=[])

    def go():
        c = reduced(rng, f, V, T, lambda t: xii.CellPatchAverage(t, vf, pf, coloring), line)
        rows = []
        for d in range(T.dim()):
            k = colors[d]
            if k == 0 or k in skip:
                rows.append(dict(color=k, num=scaled(c[d], 1), den=1, skip=k in skip))
                continue
            fact = {1: 1, 2: 2, 3: 6}[m['td']]
            den = int(round((m['td']+1)*fact*sum(df.Cell(bg, i).volume() for i, t in enumerate(mark) if t == k)))
            rows.append(dict(color=k, num=scaled(c[d], den), den=den, skip=False))
        e['rows'] = rows
    return [attempt(e, go)]


def run_node(case, rng):
    d = case['dim']
    m = {1: M.chain(4), 2: M.tri_grid(2, 2, rng), 3: M.tet_grid(1, 1, 1)}[d]
    m = M.permuted(M.sheared(m, rng), rng)
    bg = M.mesh(m)
    V, f, u = cellwise(rng, bg, 'CG1')
    X = M.coords(bg)
    at = [None]*len(X)
    for c, us in zip(bg.cells(), u):
        for v, t in zip(c, us):
            at[v] = t
    es = M.entities(m, 1)
    line = M.mesh(M.permuted(M.subset(dict(m, td=1), rng.sample(es, rng.randint(1, min(4, len(es))))), rng))
    T = F.space(line, 'CG1')
    vf = df.Function(T)
    e = dict(ev='node', m=dict(x=X), u=at, rows=[])

    def go():
        c = reduced(rng, f, V, T, lambda t: xii.CellPatchAverage(t, vf, None), line)
        x = F.dofx(T)
        e['rows'] = [[[int(round(t)) for t in x[k]], scaled(c[k], 1)] for k in range(T.dim())]
    return [attempt(e, go)]


def run_mean(case, rng):
    d, elem = case['dim'], case['elem']
    m = {1: M.chain(4), 2: M.tri_grid(2, 1, rng), 3: M.tet_grid(1, 1, 1)}[d]
    m = M.permuted(M.sheared(m, rng), rng)
    bg = M.mesh(m)
    V, f, u = cellwise(rng, bg, elem)
    n = bg.num_cells()
    ev = []
    for _ in range(2):
        # one measure and weight after the other on the same mesh
        on = [rng.randint(0, 1) for _ in range(n)]
        cf = df.MeshFunction('size_t', bg, d, 0)
        cf.array()[:] = on
        kw = {}
        if rng.random() < .7:
            kw['measure'] = df.Measure('dx', domain=bg, subdomain_data=cf)(1)
        else:
            on = [1]*n
            if rng.random() < .5:
                kw['measure'] = df.Measure('dx', domain=bg)
        w = [1]*n
        k = rng.random()
        if k < .4:
            w = [rng.choice([2, 3, -4])]*n
            kw['weight'] = df.Constant(w[0])
        elif k < .8:
            w = [rng.randint(-3, 5) for _ in range(n)]
            kw['weight'] = F.set_cellwise(F.space(bg, 'DG0'), [[[[t] + [0]*d]] for t in w])
        Q = F.space(bg, 'DG0')
        e = dict(ev='mean', m=M.snapshot(bg), u=u, on=on, w=w, val=0)

        def go():
            dx_ = df.Measure('dx', domain=bg)
            op = lambda t: xii.Mean(t, **kw)
            c = reduced(rng, f, V, Q, op, bg)
            assert np.ptp(c) < 1E-8*(1 + abs(c).max())
            e['val'] = scaled(c[0], {1: 1, 2: 2, 3: 6}[d]*(d+1))
        ev.append(attempt(e, go))
    return ev


def run_surface(case, rng):
    d = case['dim']
    m = {2: M.tri_grid(2, 2, rng), 3: M.tet_grid(2, 1, 1)}[d]
    m = M.permuted(m, rng)
    bg = M.mesh(m)
    V, f, u = cellwise(rng, bg, 'CG1')
    flat = lambda s: any(len({m['x'][v][i] for v in s}) == 1 for i in range(d))
    fs = [s for s in M.entities(m, d-1) if flat(s)]
    pick = rng.sample(fs, rng.randint(1, 5))
    bg.init(d-1)
    mf = df.MeshFunction('size_t', bg, d-1, 0)
    es = M.ents(bg, d-1)
    for s in pick:
        mf[[sorted(t) for t in es].index([v+1 for v in s])] = 3
    em = xii.EmbeddedMesh(mf, 3)
    at = {tuple(bg.coordinates()[v]): t for c, us in zip(bg.cells(), u) for v, t in zip(c, us)}
    ue = [[at[tuple(em.coordinates()[v])] for v in c] for c in em.cells()]
    Q = F.space(em, 'DG0')
    snap = M.snapshot(em)
    e = dict(ev='surface', em=snap, u=ue, num=0, den=0)

    def go():
        c = reduced(rng, f, V, Q, lambda t: xii.SurfaceMean(t, em), em)
        assert np.ptp(c) < 1E-8*(1 + abs(c).max())
        area = sum(c.volume() for c in df.cells(em))*(2 if d == 3 else 1)
        e['den'] = int(round(d*area))
        e['num'] = scaled(c[0], e['den'])
    return [attempt(e, go)]
