"""C08  Boundary conditions constrain exactly the prescribed unknowns."""
import json, random
from core import tlc, scaled, BAD
import alg
NOTE = ('Random block systems (1-3 blocks, zero/number/composed blocks, wrapped single matrices) and every form in which conditions can be given; '
        'matrix, right-hand side and later re-applications with changed values compared entry by entry with the model.')
TRACE = 'BcApplyTrace'
TECHNIQUE = ('TLA+ model of constraining a system (BcApply); TLC proves on all small systems that its solutions are the prescribed ones, '
             'recorded apply_bc histories validated by TLC')
PER_CASE = 60


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('BcApplyMC', 'SPECIFICATION Spec\nCONSTANTS Sizes <- S21 Vals <- V12 Entr = {0, 1} Diags = {1, 3}\n'
            'INVARIANTS Meaning KeepsSymmetry Untouched Idempotent Nothing\nCHECK_DEADLOCK FALSE\n', workers=8, timeout=800)
    ctx.model(r, 'BcApplyMC')
    return [random_case(rng) for _ in range(ctx.pick(500, 8000))]


def random_case(rng):
    n = rng.choice([1, 1, 2, 2, 3, 3])
    sizes = [rng.randint(2, 5) for _ in range(n)]
    wrap = n == 1 and rng.random() < .6
    symA = rng.random() < .4
    ents = []
    for i in range(n):
        row = []
        for j in range(n):
            u = rng.random()
            if wrap or u < .6:
                k = 'mat'
            elif u < .75:
                k = 'zero' if i != j else 'num'
            elif u < .9:
                k = 'tr'
            else:
                k = 'prod'
            row.append(dict(k=k, v=rng.choice([0, 1, 2, -3]), seed=rng.randint(0, 10**6)))
        ents.append(row)
    # each row and column of blocks has a matrix, otherwise its size is unknown
    for i in range(n):
        if not any(ents[i][j]['k'] not in ('zero', 'num') for j in range(n)) or not any(ents[j][i]['k'] not in ('zero', 'num') for j in range(n)):
            ents[i][i]['k'] = 'mat'
    conds = []
    for i in range(n):
        cs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            dofs = rng.sample(range(sizes[i]), rng.randint(0, min(3, sizes[i])))
            cs.append(dict(k=rng.choice(['dirichlet', 'dirichlet', 'dict']), dofs=dofs, vals=[rng.randint(-4, 4) for _ in dofs]))
        bare = len(cs) == 1 and cs[0]['k'] == 'dirichlet' and rng.random() < .5
        conds.append(dict(list=cs, bare=bare))
    asdict = rng.random() < .3
    what = 'none' if not any(c['list'] for c in conds) else 'apply'
    return dict(what=what, sizes=sizes, ents=ents, sym=symA, wrap=wrap, conds=conds, asdict=asdict,
                empty=rng.choice(['none', 'list', 'dict', 'lists']) if what == 'none' else '',
                symmetric=rng.random() < .6, diag=rng.choice([1, 1, 2, -1]), again=rng.random() < .6, norhs=rng.random() < .15,
                seed=rng.randint(0, 10**6))


def setup():
    global df, np, xii, block
    import dolfin as df, numpy as np, xii, block
    df.set_log_level(50)
    alg.setup()


def vec(v):
    x = df.Vector(df.MPI.comm_world, len(v))
    x.set_local(np.array(v, dtype=float))
    return x


def ints(rng, r, c):
    return np.array([[rng.choice([-3, -1, 0, 0, 0, 1, 2, 4]) for _ in range(c)] for _ in range(r)])


def make(rng, e, r, c):
    """(operand of the block matrix, its entries)"""
    if e['k'] == 'zero':
        return 0, np.zeros((r, c), dtype=int)
    if e['k'] == 'num':
        return e['v'], e['v']*np.eye(r, dtype=int)
    if e['k'] == 'tr':
        a = ints(rng, c, r)
        return block.block_transpose(alg.mkmat(a.tolist(), 0)), a.T
    if e['k'] == 'prod':
        k = rng.randint(1, 3)
        a, b = ints(rng, r, k), ints(rng, k, c)
        return alg.mkmat(a.tolist(), 0)*alg.mkmat(b.tolist(), 0), a.dot(b)
    a = ints(rng, r, c)
    return alg.mkmat(a.tolist(), rng.randint(0, 1)), a


class Points(object):
    def __init__(self, n, dofs):
        self.n, self.dofs = n, dofs


def dirichlet(V, x, c, const):
    pts = [x[d] for d in c['dofs']]

    class D(df.SubDomain):
        def inside(self, y, on):
            return any(abs(y[0] - p) < 1E-8 for p in pts)
    return df.DirichletBC(V, const, D(), 'pointwise')


def entries(obj, scale=1):
    """[[dof, value]..] of a condition as it is now"""
    d = obj if isinstance(obj, dict) else obj.get_boundary_values()
    return [[int(k)+1, scaled(v)] for k, v in d.items()]


def run(case):
    rng = random.Random(case['seed'])
    sizes, n = case['sizes'], len(case['sizes'])
    ops, arrs = [], []
    for i in range(n):
        ops.append([]); arrs.append([])
        for j in range(n):
            o, a = make(rng, case['ents'][i][j], sizes[i], sizes[j])
            if case['sym'] and j < i and case['ents'][i][j]['k'] in ('mat', 'tr') and case['ents'][j][i]['k'] in ('mat', 'tr'):
                a = arrs[j][i].T
                o = alg.mkmat(a.tolist(), 0)
            if case['sym'] and i == j and case['ents'][i][j]['k'] in ('mat', 'tr'):
                a = a + a.T
                o = alg.mkmat(a.tolist(), 0)
            ops[-1].append(o); arrs[-1].append(a)
    A0 = np.block(arrs)
    rhs = lambda: [[rng.randint(-9, 9) for _ in range(s)] for s in sizes]
    b0 = [[0]*s for s in sizes] if case['norhs'] else rhs()
    ev = [dict(ev='system', sizes=sizes, A=A0.tolist(), b=sum(b0, []))]
    wrap = case['wrap']
    A = ops[0][0] if wrap else block.block_mat(ops)
    mk = (lambda b: vec(b[0])) if wrap else (lambda b: block.block_vec([vec(bi) for bi in b]))
    b = None if case['norhs'] else mk(b0)
    # conditions
    spaces = [df.FunctionSpace(df.UnitIntervalMesh(s-1), 'CG', 1) for s in sizes]
    objs, consts = [], []
    for i, c in enumerate(case['conds']):
        objs.append([])
        x = spaces[i].tabulate_dof_coordinates().flatten()
        for k in c['list']:
            if k['k'] == 'dict':
                objs[-1].append({int(d): float(v) for d, v in zip(k['dofs'], k['vals'])})
            else:
                const = df.Constant(k['vals'][0] if k['vals'] else 1)
                consts.append(const)
                objs[-1].append(dirichlet(spaces[i], x, k, const))
    now = lambda: [[entries(o) for o in os] for os in objs]
    bcs = [os[0] if c['bare'] else os for os, c in zip(objs, case['conds'])]
    if case['empty']:
        bcs = {'none': None, 'list': [], 'dict': {}, 'lists': [[] for _ in sizes]}[case['empty']]
        if wrap and case['empty'] == 'lists':
            bcs = []
    elif case['asdict']:
        bcs = {i: os for i, os in enumerate(objs) if os}
    elif wrap:
        bcs = bcs[0]
    sym, d = case['symmetric'], case['diag']
    e = dict(ev='apply', conds=now(), sym=sym, d=d, plain=bool(wrap), asked=bool(case['again']))
    ev.append(e)
    mats = lambda M: [[alg.dense(M[i][j]) for j in range(n)] for i in range(n)]
    vecs = lambda v: [[scaled(t) for t in w.get_local()] for w in v]
    try:
        out = xii.apply_bc(A, b, bcs, diag_val=float(d), symmetric=sym, return_apply_b=case['again'])
        e['reapply'] = len(out) == 3
        A1, b1 = out[:2]
        e['wrapped'] = not isinstance(A1, block.block_mat)
        if e['wrapped']:
            A1, b1 = block.block_mat([[A1]]), block.block_vec([b1])
        if not any(any(es for es in c) for c in e['conds']):
            # nothing to do: the system may be handed back as it came
            A1 = xii.ii_convert(A1, '')
            if b1 is None or any(x is None for x in b1):
                b1 = block.block_vec([vec([0]*s) for s in sizes])
        e['A'], e['b'] = mats(A1), vecs(b1)
        e['out'] = 'ok'
    except Exception as x:
        import traceback; traceback.print_exc()
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return ev
    if not e['reapply']:
        return ev
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .6:
            for c in consts:
                c.assign(df.Constant(rng.randint(-4, 4)))
            for os in objs:
                for o in os:
                    if isinstance(o, dict):
                        for k in o:
                            o[k] = float(rng.randint(-4, 4))
            ev.append(dict(ev='update', conds=now()))
        r = rhs()
        bb = mk(r)
        e = dict(ev='again', rhs=r)
        ev.append(e)
        try:
            got = out[2](bb)
            e['b'] = vecs([got] if wrap else got)
            e['out'] = 'ok'
        except Exception as x:
            import traceback; traceback.print_exc()
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return ev
