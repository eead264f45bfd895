"""C20  Projections and null-space handling remove exactly the given directions."""
import random
from core import tlc, scaled
import meshes as M
NOTE = ('Histories of added (also dependent) directions and cleaned vectors from the model, components given as vectors, constants, numbers or tuples; '
        'projectors, inner products and Riesz maps on spaces with integer mass matrices, up to three directions, by product and as matrices.')
TRACE = 'NullSpaceTrace'
TECHNIQUE = ('TLA+ model of removing directions (NullSpace); TLC checks its laws on all histories of small vectors and generates histories which are replayed, '
             'all results compared exactly by TLC')
PER_CASE = 90
ASSUMPTIONS = ['directions are linearly independent or exactly dependent; the Riesz map is applied with a direct solver']


def plan(ctx):
    rng = random.Random(ctx.seed)
    hist = []
    for I in ('id', 'diag', 'chain'):
        r = tlc('NullSpaceMC', 'SPECIFICATION Spec\nCONSTANTS N=3 MaxAdd=3 MaxOps=%d Inner="%s"\nINVARIANTS Orthogonal Idempotent Gone Untouched InSpan SelfAdjoint Rebased Refusal%s\n'
                'CHECK_DEADLOCK FALSE\n' % (ctx.pick(2, 3) if I == 'id' else 2, I, ''), workers=8, timeout=800)
        ctx.model(r, 'NullSpaceMC ' + I)
    for n in (3, 4):
        r = tlc('NullSpaceMC', 'SPECIFICATION SpecR\nCONSTANTS N=%d MaxAdd=3 MaxOps=8 Inner="id"\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n' % n,
                args=['-simulate', 'num=%d' % ctx.pick(40, 500), '-depth', '12', '-seed', str(ctx.seed)], timeout=600)
        ctx.model(r, 'NullSpaceMC histories %d' % n)
        hist += [h['h'] for h in r.tagged('HIST')]
    rng.shuffle(hist)
    cases = [dict(what='block', hist=h, seed=rng.randint(0, 10**6)) for h in hist[:ctx.pick(60, 800)]]
    for e in ('CG1', 'DG0', 'DG0t', 'vDG0', 'CG1t', 'R'):
        for op in ('project', 'inner', 'riesz'):
            for n in (1, 2, 3):
                if e == 'R' and n > 1:
                    continue
                for _ in range(ctx.pick(2, 14)):
                    cases.append(dict(what='space', elem=e, op=op, n=n, seed=rng.randint(0, 10**6)))
    return cases


def group(c):
    return c['what'], c.get('elem', ''), c.get('op', '')


def setup():
    global df, np, xii, F, block, SM
    import dolfin as df, numpy as np, xii, block
    import fe as F
    import xii.linalg.sherman_morrison as SM
    df.set_log_level(50)


def det(G):
    return int(round(np.linalg.det(np.array(G, dtype=float)))) if len(G) else 1


def run(case):
    return globals()['run_' + case['what']](case, random.Random(case['seed']))


def run_block(case, rng):
    hist = case['hist']
    n = len(hist[0]['v'])
    sizes = rng.choice([p for p in ([3], [2, 1], [1, 2], [1, 1, 1], [4], [2, 2], [3, 1], [1, 3], [1, 2, 1], [2, 1, 1]) if sum(p) == n])
    W, kinds = [], []
    for k in sizes:
        if k == 2 and rng.random() < .5:
            W.append(F.space(M.mesh(dict(td=2, gd=2, x=[[0, 0], [1, 0], [0, 1]], cells=[[0, 1, 2]])), 'vDG0'))
            kinds.append('vector')
        elif k == 1 and rng.random() < .3:
            W.append(df.FunctionSpace(M.mesh(M.chain(2)), 'R', 0))
            kinds.append('scalar')
        else:
            W.append(F.space(M.mesh(M.chain(k)), 'DG0') if rng.random() < .5 or k == 1 else F.space(M.mesh(M.chain(k-1)), 'CG1'))
            kinds.append('scalar')
    off = [sum(sizes[:i]) for i in range(len(sizes)+1)]

    def vector(V, a):
        v = df.Function(V).vector()
        v.set_local(np.array(a, dtype=float))
        v.apply('insert')
        return v

    def component(i, a, plain):
        V = W[i]
        if plain or rng.random() < .4:
            return vector(V, a)
        if kinds[i] == 'vector':
            k = [int(V.sub(j).dofmap().cell_dofs(0)[0]) for j in (0, 1)]
            b = [a[k[0]], a[k[1]]]
            return rng.choice([df.Constant(tuple(b)), tuple(b), list(map(float, b))])
        if len(set(a)) == 1:
            return rng.choice([df.Constant(a[0]), a[0], float(a[0])])
        return vector(V, a)
    make = lambda v, plain: block.block_vec([component(i, v[off[i]:off[i+1]], plain) for i in range(len(W))])

    def content(c):
        if isinstance(c, df.GenericVector):
            return c.get_local().tolist()
        if isinstance(c, df.Constant):
            return c.values().tolist()
        return c
    one = [[int(i == j) for j in range(n)] for i in range(n)]
    ev = [dict(ev='new', M=one, Z=[], out='ok')]
    Z = []
    hist = list(hist)
    Q = xii.BlockNullspace(W)
    # all the vectors at once
    first = 0
    if rng.random() < .3:
        while first < len(hist) and hist[first]['op'] == 'add' and hist[first]['ok']:
            first += 1
        if first:
            vs = [make(h['v'], False) for h in hist[:first]]
            e = ev[0]
            try:
                Q = xii.BlockNullspace(W, vs)
                e['Z'] = [h['v'] for h in hist[:first]]
                Z = list(e['Z'])
            except Exception as x:
                e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
                return ev
    for h in hist[first:]:
        if h['op'] == 'add':
            v = make(h['v'], False)
            before = [content(c) for c in v]
            types = [type(c) for c in v]
            e = dict(ev='add', v=h['v'])
            try:
                Q.add_vector(v)
                e['out'] = 'ok'
                Z.append(h['v'])
            except Exception as x:
                e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
            e['kept'] = before == [content(c) for c in v] and types == [type(c) for c in v]
            e['n'] = len(Q)
            ev.append(e)
            if e['out'] != 'ok' and h['ok'] or e['out'] == 'ok' and not h['ok']:
                return ev
        else:
            e = dict(ev='clean', u=h['v'], w=[], same=True)
            G = (np.array(Z).dot(np.array(Z).T)).tolist() if Z else []
            e['D'] = det(G)
            # how big it is does not matter
            k = rng.choice([1, 1, 2**-34, 2**30])
            u = make([k*t for t in h['v']], True)
            try:
                y = Q.orthogonalize(u)
                e['w'] = [scaled(t/k, e['D']) for c in y for t in c.get_local()]
                e['same'] = all(np.array_equal(a.get_local(), b.get_local()) for a, b in zip(u, y))
                e['out'] = 'ok'
            except Exception as x:
                e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
            ev.append(e)
            if rng.random() < .5:
                b = dict(ev='basis', out='ok')
                vs = [np.hstack([c.get_local() for c in z]) for z in Q]
                b['g'] = [[int(round(10**6*a.dot(c))) for c in vs] for a in vs]
                ev.append(b)
    return ev


def run_space(case, rng):
    e, n = case['elem'], case['n']
    if e in ('CG1', 'DG0'):
        m = dict(td=1, gd=1, x=[[0]], cells=[])
        for k in range(rng.randint(max(n, 2), 4)):
            m['x'].append([m['x'][-1][0] + (6 if e == 'CG1' else rng.choice([2, 4]))])
            m['cells'].append([k, k+1])
    elif e == 'CG1t':
        m = dict(td=2, gd=2, x=[[0, 0], [12, 0], [0, 2], [12, 2]], cells=[[0, 1, 2], [1, 2, 3]])
    elif e == 'R':
        m = M.chain(3)
    else:
        m = dict(td=2, gd=2, x=[[0, 0], [6, 0], [0, 6], [6, 6], [12, 0]], cells=[[0, 1, 2], [1, 2, 3], [1, 3, 4]])
        if e == 'vDG0':
            m['x'] = [[t//3 for t in p] for p in m['x']]
            m['cells'] = m['cells'][:2]
    msh = M.mesh(M.permuted(m, rng))
    V = df.FunctionSpace(msh, 'R', 0) if e == 'R' else F.space(msh, {'DG0t': 'DG0', 'CG1t': 'CG1'}.get(e, e))
    N, gd = V.dim(), m['gd']
    u_, v_ = df.TrialFunction(V), df.TestFunction(V)
    A = df.assemble(df.inner(u_, v_)*df.dx).array()
    Mm = [[scaled(t) for t in r] for r in A]
    nc = 2 if e == 'vDG0' else 1

    def direction():
        """What is given and its values at the unknowns"""
        k = rng.random()
        if k < .35:
            c = [rng.choice([-2, -1, 1, 2]) for _ in range(nc)]
            if nc == 1:
                return df.Constant(c[0]), [c[0]]*N
            if rng.random() < .5:
                c[rng.randrange(2)] = 0
            f = F.set_global(V, [[[t, 0, 0]] for t in c])
            return df.Constant(tuple(c)), [int(round(t)) for t in f.vector().get_local()]
        if k < .6 and nc == 1 and e in ('CG1',):
            return df.Expression('x[0]/6-1', degree=1), [int(round(x[0]/6-1)) for x in F.dofx(V)]
        f = df.Function(V)
        a = [rng.choice([-1, 0, 1, 2]) for _ in range(N)]
        f.vector().set_local(np.array(a, dtype=float))
        f.vector().apply('insert')
        return f, a
    for _ in range(100):
        given = [direction() for _ in range(n)]
        Z = np.array([z for _, z in given])
        if n <= N and np.linalg.matrix_rank(Z) == n:
            break
    else:
        return []
    Z = Z.tolist()
    D = det((np.array(Z).dot(A).dot(np.array(Z).T)).tolist())
    ev = [dict(ev='new', M=Mm, Z=Z, out='ok')]
    arg = [g for g, _ in given]
    arg = tuple(arg) if rng.random() < .5 else arg
    try:
        op = {'project': SM.Projector, 'inner': SM.L20_inner_product, 'riesz': SM.L20_riesz_map}[case['op']](V, arg)
    except Exception as x:
        import traceback; traceback.print_exc()
        ev[0]['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return ev
    for _ in range(4):
        u = [rng.randint(-3, 3) for _ in range(N)]
        # something which is to vanish or to stay
        if rng.random() < .2:
            u = list(rng.choice(Z))
        k = rng.choice([1, 1, 2**-34, 2**30])
        x = df.Function(V).vector()
        x.set_local(k*(np.array(u, dtype=float) if case['op'] != 'riesz' else A.dot(u)))
        x.apply('insert')
        before = x.get_local()
        how = rng.choice(['product', 'matrix']) if case['op'] != 'riesz' else 'product'
        e = dict(ev='apply', op=case['op'], how=how, u=u, D=D, w=[], kept=True)
        try:
            y = op*x if how == 'product' else op.collapse()*x
            e['w'] = [scaled(t/k, D) for t in y.get_local()]
            e['out'] = 'ok'
        except Exception as x_:
            import traceback; traceback.print_exc()
            e['out'] = '%s: %s' % (type(x_).__name__, str(x_)[:80])
        e['kept'] = bool(np.array_equal(before, x.get_local()))
        ev.append(e)
    return ev
