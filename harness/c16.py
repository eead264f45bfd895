"""C16  Transfer operators between meshes reproduce functions both meshes can represent."""
import importlib, json, random
from core import tlc, scaled
import meshes as M
NOTE = ('Meshes refined by TLC, dolfin and centroid refinement, sub-meshes, overlaps and unrelated meshes; all elements with random piecewise polynomials, '
        'random vertex values for CG1; methods `interpolate` and lookup. Without parent data a discontinuous function may take the value of any cell at a point.')
TRACE = 'TransferTrace'
TECHNIQUE = ('TLA+ model of moving piecewise polynomials between meshes with exact point location (Transfer); TLC refines meshes and checks its laws, the meshes '
             'are replayed and the recorded transfers, lifts and extensions validated by TLC')
PER_CASE = 120
SCALAR = ['CG1', 'CG2', 'DG0', 'DG1', 'DG2', 'CR1']
VECTOR = ['vCG1', 'vCG2', 'vDG0', 'vDG1', 'RT1', 'N1', 'BDM1']
ALL = SCALAR + VECTOR + ['mix']
STEP = 48


def plan(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    fines = []
    for root, k in ctx.pick([('line', 3), ('tri2', 2), ('skew', 1), ('tet2', 1)], [('line', 4), ('tri2', 3), ('skew', 2), ('tet2', 2)]):
        r = tlc('TransferMC', 'SPECIFICATION Spec\nCONSTANTS Root="%s" MaxSplits=%d\nINVARIANTS Host OnPoint Filled Single Single2 Tower Weaker Transpose Emit\n'
                'CHECK_DEADLOCK FALSE\n' % (root, k), workers=8, timeout=800)
        ctx.model(r, 'TransferMC ' + root)
        fines += r.tagged('FINE')
    rng.shuffle(fines)
    for f in fines[:ctx.pick(40, 400)]:
        one = len(f['x'][0]) == 1
        e = rng.choice(['CG1', 'CG2', 'DG0', 'DG1', 'DG2'] if one else ALL)
        cases.append(dict(what='fine', fine=f, elem=e, method=rng.choice([None, 'interpolate']), data=True, seed=rng.randint(0, 10**6)))
        if cases[-1]['method'] and rng.random() < .5:
            cases[-1]['data'] = False
    for e in ALL:
        for d in (2, 3):
            for _ in range(ctx.pick(1, 8)):
                cases.append(dict(what='restrict', elem=e, dim=d, seed=rng.randint(0, 10**6), kind=rng.choice(['sub', 'emb', 'overlap'])))
            for m in (None, 'interpolate'):
                for _ in range(ctx.pick(1, 8)):
                    cases.append(dict(what='refined', elem=e, dim=d, method=m, kind=rng.choice(['refine', 'centroid', 'twice'] if d == 2 else ['refine', 'centroid']),
                                      seed=rng.randint(0, 10**6)))
            for _ in range(ctx.pick(1, 6)):
                cases.append(dict(what='unrelated', elem=e, dim=d, seed=rng.randint(0, 10**6)))
    pairs = [(a, b) for S in (SCALAR, VECTOR) for a in S for b in S]
    rng.shuffle(pairs)
    for k, (a, b) in enumerate(pairs):
        for d in ctx.pick([2 + k % 2], [2, 3, 2, 3]):
            cases.append(dict(what='interp', elem=a, to=b, dim=d, seed=rng.randint(0, 10**6)))
    for e in ('CG1', 'CG2', 'vCG1', 'vCG2'):
        for d in (2, 3):
            for _ in range(ctx.pick(2, 12)):
                cases.append(dict(what='lift', elem=e, dim=d, full=rng.random() < .5, seed=rng.randint(0, 10**6)))
    for e in ('CG1', 'CG2', 'DG0', 'DG1', 'vCG1', 'vDG0'):
        for d in (2, 3):
            for _ in range(ctx.pick(2, 10)):
                cases.append(dict(what='extend', elem=e, dim=d, td=rng.choice([1, 2]), seed=rng.randint(0, 10**6)))
    for c in cases:
        c['how'] = rng.choice(['matrix', 'vector', 'transpose'])
    return cases


def group(c):
    return c['elem'], c.get('dim', 0)


def setup():
    global df, np, xii, F, C4
    import dolfin as df, numpy as np, xii
    import fe as F, c04
    c04.setup()
    C4 = c04
    df.set_log_level(50)


def grid(rng, dim, shear=True):
    m = M.tri_grid(rng.randint(1, 3), rng.randint(1, 2), rng, step=STEP) if dim == 2 else M.tet_grid(1, 1, 1, step=STEP)
    if shear:
        m = M.sheared(m, rng)
    return M.permuted(m, rng)


def target(msh, elem):
    return C4.trace_space(msh, elem)


def apply(T, V, f, op, how, dom):
    """Coefficients in T of the operator applied to the function"""
    u, v, p, q = df.TrialFunction(V), df.TestFunction(V), df.TrialFunction(T), df.TestFunction(T)
    dx_ = df.Measure('dx', domain=dom)
    if how == 'matrix':
        b = xii.ii_convert(xii.ii_assemble(df.inner(op(u), q)*dx_)).array().dot(f.vector().get_local())
    elif how == 'transpose':
        b = xii.ii_convert(xii.ii_assemble(df.inner(op(v), p)*dx_)).array().T.dot(f.vector().get_local())
    else:
        b = xii.ii_convert(xii.ii_assemble(df.inner(op(f), q)*dx_)).get_local()
    return F.solve_mass(T, b)


def function(rng, V, elem, msh):
    """Random function; line meshes have no random_function of their own"""
    return C4.random_function(rng, V, elem, msh)


def move(case, rng, src, dst, how, op, strict, S, local=True):
    elem = case['elem']
    V = F.space(src, elem)
    if local:
        f, u = function(rng, V, elem, src)
    else:
        gd = src.geometry().dim()
        if elem.lstrip('v').startswith(('DG', 'CG')):
            nc = int(np.prod(V.ufl_element().value_shape() or (1,)))
            polys = [F.random_poly(rng, gd, int(elem[-1])) for _ in range(nc)]
            f, u = F.set_global(V, polys), dict(kind='global', data=polys)
        else:
            f, u = function(rng, V, elem, src)
    S = S if u['kind'] == 'vertices' else 1
    ev = [dict(ev='mesh', **{'from': M.snapshot(src), 'to': M.snapshot(dst)})]
    e = dict(ev='move', how=how, strict=strict, S=S, u=u)
    ev.append(e)
    try:
        T = target(dst, elem)
        e['vals'] = F.points(T, apply(T, V, f, op, case['how'], dst), S)
        e['out'] = 'ok'
    except Exception as x:
        import traceback; traceback.print_exc()
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return ev


def run(case):
    from xii import Restriction, Injection, TransposeTrace
    rng = random.Random(case['seed'])
    what, elem = case['what'], case['elem']
    disc = elem.lstrip('v').startswith('DG')
    if what == 'fine':
        f = case['fine']
        td = len(f['cells'][0]) - 1
        root = dict(td=td, gd=td, x=ROOTS[f['root']][0], cells=ROOTS[f['root']][1])
        k = 3
        cm = dict(root, x=[[k*t for t in p] for p in root['x']])
        order = list(range(len(f['cells'])))
        rng.shuffle(order)
        corder = list(range(len(cm['cells'])))
        rng.shuffle(corder)
        src = M.mesh(dict(cm, cells=[cm['cells'][i] for i in corder]))
        dst = M.mesh(dict(td=td, gd=td, x=[[k*t for t in p] for p in f['x']], cells=[[v-1 for v in f['cells'][i]] for i in order]))
        if case['data']:
            items = [(n, corder.index(f['par'][i]-1)) for n, i in enumerate(order)]
            rng.shuffle(items)
            dst.parent_entity_map = {src.id(): {td: dict(items)}}
        return move(case, rng, src, dst, 'nested', lambda t: Injection(t, dst, not_nested_method=case['method']), disc and case['data'], 48)
    if what == 'refined':
        src = M.mesh(grid(rng, case['dim']))
        if case['kind'] == 'centroid':
            dst = importlib.import_module("xii.meshing.refinement").centroid_refine(src)
        else:
            dst = df.refine(src)
            if case['kind'] == 'twice':
                mid, dst = dst, df.refine(dst)
                td = case['dim']
                a, b = mid.data().array('parent_cell', td), dst.data().array('parent_cell', td)
                dst.parent_entity_map = {src.id(): {td: {i: int(a[b[i]]) for i in range(dst.num_cells())}}}
        return move(case, rng, src, dst, 'refined', lambda t: Injection(t, dst, not_nested_method=case['method']), disc, 48)
    if what == 'unrelated':
        d = case['dim']
        n = [rng.randint(1, 2) for _ in range(d)]
        m = M.permuted(M.tri_grid(n[0], n[1], rng, step=STEP) if d == 2 else M.tet_grid(n[0], 1, 1, step=STEP), rng)
        if d == 3:
            n[1:] = [1, 1]
        src = M.mesh(m)
        k = [rng.randint(1, 3 if d == 2 else 2) for _ in range(d)]
        o = M.tri_grid(k[0], k[1], rng, step=1) if d == 2 else M.tet_grid(k[0], k[1], k[2], step=1)
        size = [rng.choice([12, 24]) for _ in range(d)]
        off = [rng.choice([0, 12, 36]) if d == 2 else rng.choice([0, 0, 12]) for _ in range(d)]
        size = [min(s, (STEP*n[i] - off[i])//k[i]//12*12) for i, s in enumerate(size)]
        size = [max(s, 12) for s in size]
        off = [min(off[i], STEP*n[i] - size[i]*k[i]) for i in range(d)]
        o = M.permuted(dict(o, x=[[off[i] + t*size[i] for i, t in enumerate(p)] for p in o['x']]), rng)
        dst = M.mesh(o)
        return move(case, rng, src, dst, 'unrelated', lambda t: Injection(t, dst), False, 1, local=disc)
    if what == 'restrict':
        src = M.mesh(grid(rng, case['dim']))
        td = case['dim']
        c = df.MeshFunction('size_t', src, td, 0)
        n = src.num_cells()
        vals = [rng.choice([1, 2, 3]) for _ in range(n)]
        for i, v in zip(rng.sample(range(n), min(3, n)), (3, 1, 2)):
            vals[i] = v
        c.array()[:] = vals
        if case['kind'] == 'overlap' and len(set(vals)) == 3:
            m1, m2 = xii.SubDomainMesh(c, (1, 3)), xii.SubDomainMesh(c, (2, 3))
            dst = xii.OverlapMesh(m1, m2)
            src = rng.choice([m1, m2])
        else:
            tags = rng.sample(sorted(set(vals)), rng.randint(1, max(1, len(set(vals))-1)))
            dst = (xii.SubDomainMesh if case['kind'] == 'sub' else xii.EmbeddedMesh)(c, tags)
        return move(case, rng, src, dst, 'restricted', lambda t: Restriction(t, dst), disc, 1)
    if what == 'interp':
        msh = M.mesh(grid(rng, case['dim']))
        V, Q = F.space(msh, elem), F.space(msh, case['to'])
        lag = lambda e: e.lstrip('v').startswith(('CG', 'DG'))
        S = 1
        strict = case['to'].lstrip('v').startswith('DG')
        ev = [dict(ev='mesh', **{'from': M.snapshot(msh), 'to': M.snapshot(msh)})]
        if lag(elem) and lag(case['to']):
            f, u = function(rng, V, elem, msh)
            S = 12 if u['kind'] == 'vertices' else 1
        else:
            two = {elem, case['to']}
            gd = case['dim']
            nc = 1 if elem in SCALAR else gd
            if two & {'vDG0', 'DG0'} or two >= {'RT1', 'N1'}:
                polys = [[[rng.randint(-5, 5)] + [0]*gd] for _ in range(nc)]
            elif 'RT1' in two or 'N1' in two:
                r = 'RT1' if 'RT1' in two else 'N1'
                polys = C4.random_function(rng, F.space(msh, r), r, msh)[1]['data']
            else:
                polys = [F.random_poly(rng, gd, 1) for _ in range(nc)]
            f, u = F.set_global(V, polys), dict(kind='global', data=polys)
        e = dict(ev='move', how='interpolated', strict=strict, S=S, u=u)
        ev.append(e)
        try:
            from xii.assembler.interpolation_matrix import interpolation_mat
            A = interpolation_mat(V, Q)
            if not isinstance(A, df.PETScMatrix):
                A = df.PETScMatrix(A)
            x = A.array().dot(f.vector().get_local())
            if lag(case['to']):
                e['vals'] = F.points(Q, x, S)
            else:
                g = df.Function(Q)
                g.vector().set_local(x)
                T = target(msh, case['to'])
                e['vals'] = F.points(T, F.solve_mass(T, df.assemble(df.inner(g, df.TestFunction(T))*df.dx).get_local()), S)
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return ev
    if what == 'lift':
        dims = case['dim']
        m, fs, tags = C4.scene(rng, dims)
        bg = M.mesh(m)
        g = df.MeshFunction('size_t', bg, dims-1, 0)
        for i, t in enumerate(M.ents(bg, dims-1)):
            g[i] = 1 if tuple(sorted(v-1 for v in t)) in set(map(tuple, fs)) else 0
        em = xii.EmbeddedMesh(g, 1)
        V, T = F.space(em, elem), F.space(bg, elem)
        deg = int(elem[-1])
        nc = int(np.prod(V.ufl_element().value_shape() or (1,)))
        polys = [F.random_poly(rng, dims, deg) for _ in range(nc)]
        f = F.set_global(V, polys)
        ev = [dict(ev='mesh', **{'from': M.snapshot(em), 'to': M.snapshot(bg)})]
        e = dict(ev='lift', degree=deg, u=dict(kind='global', data=polys))
        ev.append(e)
        try:
            op = (lambda t: TransposeTrace(t, em, bg)) if case['full'] else (lambda t: TransposeTrace(t, em))
            x = apply(T, V, f, op, case['how'], bg)
            seen = {}
            for es in F.cell_entries(T):
                for d, p, i in es:
                    seen[d] = [[scaled(t, 1) for t in p], i, scaled(x[d], 1)]
            e['vals'] = [seen[d] for d in sorted(seen)]
            e['out'] = 'ok'
        except Exception as x:
            import traceback; traceback.print_exc()
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return ev
    if what == 'extend':
        gd = case['dim']
        line = M.chain(rng.randint(1, 4), gd, step=STEP)
        line = M.permuted(M.sheared(line, rng), rng)
        if case['td'] == 1:
            o = M.chain(rng.randint(1, 4), gd, step=STEP)
            o = dict(o, x=[[p[0]] + [12*rng.randint(1, 3)]*(gd-1) for p in o['x']])
        else:
            o = M.tri_grid(rng.randint(1, 2), rng.randint(1, 2), rng, step=STEP)
            o = dict(o, gd=gd, x=[[p[0], p[1] + 12] + ([p[0] - p[1]] if gd == 3 else []) for p in o['x']])
        o = M.permuted(o, rng)
        lm, om = M.mesh(line), M.mesh(o)
        V, Q = F.space(lm, elem), F.space(om, elem)
        nc = int(np.prod(V.ufl_element().value_shape() or (1,)))
        polys = [F.random_poly(rng, gd, 2) for _ in range(nc)]
        f = F.set_global(V, polys)
        ev = [dict(ev='mesh', **{'from': M.snapshot(lm), 'to': M.snapshot(om)})]
        pts = sorted({tuple(scaled(t, 1) for t in p) for es in F.cell_entries(V) for d, p, i in es})
        e = dict(ev='extend', u=dict(kind='global', data=polys), pts=[list(p) for p in pts])
        ev.append(e)
        try:
            from xii.assembler.extension_matrix import extension_mat
            A = extension_mat(V, Q, om, {'type': 'uniform', 'data': None})
            x = A.array().dot(f.vector().get_local())
            seen = {}
            for es in F.cell_entries(Q):
                for d, p, i in es:
                    seen[d] = [[scaled(t, 1) for t in p], i, scaled(x[d], 1)]
            e['vals'] = [seen[d] for d in sorted(seen)]
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return ev


ROOTS = {'tri2': ([[0, 0], [16, 0], [0, 16], [16, 16]], [[0, 1, 2], [1, 2, 3]]),
         'skew': ([[0, 0], [16, 8], [8, 24], [32, 32], [40, 8]], [[0, 1, 2], [1, 2, 3], [1, 3, 4]]),
         'line': ([[0], [16], [32]], [[0, 1], [1, 2]]),
         'tet2': ([[0, 0, 0], [16, 0, 0], [0, 16, 0], [0, 0, 16], [16, 16, 16]], [[0, 1, 2, 3], [1, 2, 3, 4]])}
