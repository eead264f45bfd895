"""C09  Block-space operators are the index maps they claim, with exact adjoints."""
import json, random
from core import tlc, scaled, BAD
import alg
NOTE = ('Random layouts and groupings for selection, rearrangement, reduction, regrouping and vectorised operators (operator, transpose, both composed, '
        'around a block matrix, applied again); small matrix constructors, cutting and nesting of systems, list reshaping; sequences of writes through '
        'every view of a block function, all views read after each write.')
TRACE = 'BlockIndexTrace'
TECHNIQUE = ('TLA+ index-map model (BlockIndex): adjoint, inverse and grouping laws model checked by TLC for all groupings of small layouts; '
             'recorded operator applications and view histories validated by TLC')
PER_CASE = 60


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('BlockIndexMC', 'SPECIFICATION Spec\nCONSTANTS N=%d MaxSize=%d\nINVARIANTS AdjointLaw RightInverse Isometry Projects InverseArrangement '
            'GroupingIsFree LayoutFits ReductionIsRearrangement\nCHECK_DEADLOCK FALSE\n' % ctx.pick((3, 2), (4, 3)), workers=8, timeout=800)
    ctx.model(r, 'BlockIndexMC')
    cases = [op_case(rng) for _ in range(ctx.pick(500, 8000))]
    cases += [mat_case(rng) for _ in range(ctx.pick(300, 4000))]
    cases += [view_case(rng) for _ in range(ctx.pick(150, 3000))]
    cases += [vector_case(rng) for _ in range(ctx.pick(60, 600))]
    cases += [list_case(rng) for _ in range(ctx.pick(60, 600))]
    return cases


def group(case):
    return case.get('el', '')


def splits(rng, seq):
    out = []
    while seq:
        k = rng.randint(1, len(seq))
        out.append(seq[:k])
        seq = seq[k:]
    return out


def op_case(rng):
    n = rng.randint(1, 5)
    sizes = [rng.randint(1, 4) for _ in range(n)]
    op = rng.choice(['select', 'rearange', 'reduction', 'regroup', 'rearange'])
    c = dict(what='op', op=op, sizes=sizes, seed=rng.randint(0, 10**6), nested=rng.random() < .5, tup=rng.random() < .5,
             bare=rng.random() < .4, mono=rng.random() < .3)
    if op == 'select':
        c['spec'] = [rng.sample(range(n), rng.randint(1, n))]
    elif op == 'rearange':
        c['spec'] = splits(rng, rng.sample(range(n), n))
    else:
        ls = [len(g) for g in splits(rng, list(range(n)))]
        c['spec'] = [[sum(ls[:k+1]) for k in range(len(ls))]]
    return c


def mat_case(rng):
    fn = rng.choice(['identity', 'diagonal', 'zero', 'rows', 'transpose', 'nest', 'nest', 'petsc', 'collapse', 'blockdiag',
                     'as_block', 'as_block', 'as_block_vec', 'nestvec', 'reshape', 'reshape', 'nestblocks', 'sizes'])
    return dict(what='mat', fn=fn, seed=rng.randint(0, 10**6))


def view_case(rng):
    n = rng.randint(1, 4)
    sizes = [rng.randint(1, 4) for _ in range(n)]
    return dict(what='view', sizes=sizes, init=rng.choice(['none', 'vectors', 'functions']), seed=rng.randint(0, 10**6), n=rng.randint(2, 6))


def vector_case(rng):
    return dict(what='vectorized', el=rng.choice(['CG1', 'CG2', 'DG0', 'DG1', 'CR']), mesh=rng.choice(['tri', 'int', 'tri']), dim=rng.choice([2, 3]),
                aslist=rng.random() < .35, seed=rng.randint(0, 10**6))


def list_case(rng):
    n = rng.choice([4, 6, 8, 12, 24, 7, 1])

    def shape(n):
        s = []
        for p in [2, 2, 2, 3, 5, 7]:
            if n % p == 0:
                n //= p
                if s and rng.random() < .4:
                    s[-1] *= p
                else:
                    s.append(p)
        while rng.random() < .2 or not s:
            s.insert(rng.randint(0, len(s)), 1)
        rng.shuffle(s)
        return s
    return dict(what='list', **{'from': shape(n), 'to': shape(n)})


# ------------------------------------------------------------------ execution
def setup():
    global df, np, xii, block, PETSc, block_mul
    import dolfin as df, numpy as np, xii, block
    from petsc4py import PETSc
    from block.block_compose import block_mul
    df.set_log_level(50)
    alg.setup()


def vec(v):
    x = df.Vector(df.MPI.comm_world, len(v))
    x.set_local(np.array(v, dtype=float))
    return x


def space(n):
    return df.FunctionSpace(df.UnitIntervalMesh(n), 'DG', 0)


def pvals(v):
    """entries of a (nested) PETSc vector"""
    if v.getType() == 'nest':
        return sum([pvals(w) for w in v.getNestSubVecs()], [])
    return list(v.array)


def entries(x):
    return [scaled(t) for t in pvals(df.as_backend_type(x).vec())]


def value(x):
    if isinstance(x, block.block_vec):
        lay, flat = [], []
        for g in x.blocks:
            if isinstance(g, block.block_vec):
                lay.append([len(entries(b)) for b in g.blocks])
                flat += sum([entries(b) for b in g.blocks], [])
            else:
                lay.append([len(entries(g))])
                flat += entries(g)
        return dict(flat=flat, layout=lay, wrapped=True)
    f = entries(x)
    return dict(flat=f, layout=[[len(f)]], wrapped=False)


def ints(rng, r, c):
    return [[rng.choice([-3, -1, 0, 0, 1, 2, 4]) for _ in range(c)] for _ in range(r)]


def run(case):
    return globals()['run_' + case['what']](case)


def attempt(ev, f):
    try:
        f()
        ev['out'] = 'ok'
    except Exception as e:
        import traceback; traceback.print_exc()
        ev['out'] = '%s: %s' % (type(e).__name__, str(e)[:80])
    return [ev]


def run_op(case):
    rng = random.Random(case['seed'])
    sizes, op, spec, n = case['sizes'], case['op'], case['spec'], len(case['sizes'])
    ev = dict(ev='op', op=op, sizes=sizes, spec=[[i+1 for i in g] for g in spec] if op in ('select', 'rearange') else spec)
    W = [space(s) for s in sizes]
    r = lambda: [rng.randint(-9, 9) for _ in range(sum(sizes))]
    off = [sum(sizes[:k]) for k in range(n+1)]
    bv = lambda x: block.block_vec([vec(x[off[k]:off[k+1]]) for k in range(n)])
    x, x2 = r(), r()
    groups = {'select': lambda: [[i] for i in spec[0]], 'rearange': lambda: spec}.get(
        op, lambda: [list(range(([0]+spec[0])[k], spec[0][k])) for k in range(len(spec[0]))])()
    merge = op in ('rearange', 'reduction')
    y = [rng.randint(-9, 9) for g in groups for i in g for _ in range(sizes[i])]
    ev.update(x=x, x2=x2, y=y, B=[], congr=[], mono=[], dims=[])

    def make_y():
        out, p = [], 0
        for g in groups:
            parts = []
            for i in g:
                parts.append(y[p:p+sizes[i]])
                p += sizes[i]
            if len(g) == 1:
                out.append(vec(parts[0]))
            elif not merge:
                out.append(block.block_vec([vec(q) for q in parts]))
            elif case['nested']:
                out.append(df.PETScVector(xii.linalg.function.as_petsc_nest(block.block_vec([vec(q) for q in parts]))))
            else:
                out.append(vec(sum(parts, [])))
        return out[0] if len(out) == 1 else block.block_vec(out)

    def f():
        if op == 'select':
            ind = tuple(spec[0]) if case['tup'] else list(spec[0])
            if len(ind) == 1 and case['bare']:
                ind = ind[0]
            R = xii.SubSelectOperator(ind, W) if hasattr(xii, 'SubSelectOperator') else BU().SubSelectOperator(ind, W)
        elif op == 'rearange':
            m = tuple(g[0] if len(g) == 1 and case['bare'] else tuple(g) for g in spec)
            R = BU().RearangeOperator(m if case['tup'] else list(m), W)
        else:
            o = tuple(spec[0]) if case['tup'] else list(spec[0])
            R = (BU().ReductionOperator if op == 'reduction' else BU().RegroupOperator)(o, W)
        X, X2, Y = bv(x), bv(x2), make_y()
        RX = R*X
        ev['Rx'] = value(RX)
        ev['Rty'] = value(R.T*Y)
        ev['RtRx'] = value(R.T*RX)
        ev['again'] = value(R*X2)
        ev['keptRx'] = value(RX)
        ev['xafter'] = value(X)['flat']
        ev['yafter'] = value(Y)['flat']
        if hasattr(R, 'create_vec'):
            ev['dims'] = [len(value(R.create_vec(0))['flat']), len(value(R.create_vec(1))['flat'])]
        if merge and case['mono']:
            ev['mono'] = value(R*df.PETScVector(df.as_backend_type(vec(x)).vec()))['flat']
        if op != 'regroup' and len(groups) > 1:
            rs = [sum(sizes[i] for i in g) for g in groups]
            if not (merge and any(len(g) > 1 for g in groups)):     # a matrix does not act on nested vectors
                B = [[ints(rng, a, b) for b in rs] for a in rs]
                ev['congr'] = value((R.T)*(block.block_mat([[alg.mkmat(b, 0) for b in row] for row in B])*(R*X)))['flat']
                ev['B'] = B
        # what comes out can be used: in particular nothing stays locked
        for v in (RX, Y, X):
            for b in (v.blocks if isinstance(v, block.block_vec) else [v]):
                for t in (b.blocks if isinstance(b, block.block_vec) else [b]):
                    t *= 1.0
    return attempt(ev, f)


def BU():
    import xii.linalg.block_utils as bu
    return bu


def split(rng, n, kmax=3):
    k = rng.randint(1, min(kmax, n))
    cuts = sorted(rng.sample(range(1, n), k-1)) if k > 1 else []
    return [b - a for a, b in zip([0]+cuts, cuts+[n])]


def run_mat(case):
    import xii.linalg.matrix_utils as mu
    import xii.linalg.convert as cv
    from xii.linalg.nest import nest
    from xii.linalg.bc_apply import as_block
    from xii.linalg.fe_space_op import FESpaceOperator
    rng = random.Random(case['seed'])
    fn = case['fn']
    r, c = rng.randint(1, 5), rng.randint(1, 5)
    A = ints(rng, r, c)
    mk = lambda a: alg.mkmat(a, rng.randint(0, 1))
    ev = dict(ev='mat', fn=fn)
    got = lambda M: ev.__setitem__('got', [[scaled(t) for t in row] for row in M])
    offs = lambda s: [sum(s[:k]) for k in range(len(s)+1)]
    dense_petsc = lambda M: M.convert('dense').getDenseArray() if M.getType() != 'nest' else None
    if fn == 'identity':
        n = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
        how = rng.choice(['int', 'space', 'list', 'ints'])
        if how in ('int', 'space'):
            n = n[:1]
        ev['n'] = n

        def f():
            V = {'int': lambda: n[0], 'space': lambda: space(n[0]), 'list': lambda: [space(k) for k in n], 'ints': lambda: list(n)}[how]()
            got(xii.ii_convert(mu.identity_matrix(V)).array())
    elif fn == 'diagonal':
        ev['n'] = [r]
        v = [rng.randint(-3, 3)]*r if rng.random() < .5 else [rng.randint(-3, 3) for _ in range(r)]
        ev['v'] = v
        f = lambda: got(mu.diagonal_matrix(r, v[0] if len(set(v)) == 1 and rng.random() < .7 else vec(v)).array())
    elif fn == 'zero':
        ev['n'] = [r, c]
        f = lambda: got(mu.zero_matrix(r, c).array())
    elif fn == 'rows':
        ev['A'] = A
        f = lambda: got(mu.row_matrix([vec(a) for a in A]).array())
    elif fn == 'transpose':
        ev['A'] = A

        def f():
            M = mk(A)
            if rng.random() < .5:
                M = mu.transpose_matrix(df.as_backend_type(M).mat())
                got(df.PETScMatrix(M).array())
            else:
                got(mu.transpose_matrix(M).array())
    elif fn == 'blockdiag':
        n = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
        B = [ints(rng, k, k) for k in n]
        ev.update(n=n, B=B)
        f = lambda: got(xii.ii_convert(xii.block_diag_mat([mk(b) for b in B])).array())
    elif fn == 'collapse':
        ev['A'] = A

        def f():
            class Op(FESpaceOperator):
                def matvec(self, b):
                    y = self.create_vec(0)
                    y.set_local(np.array(A, dtype=float).dot(b.get_local()))
                    return y
            o = Op(space(c), space(r))
            M = o.collapse() if rng.random() < .5 else xii.ii_convert(o)
            got(M.array())
            assert np.allclose(o.collapse().array(), np.array(ev['got']))
            v = [rng.randint(-3, 3) for _ in range(c)]
            assert np.allclose((o*vec(v)).get_local(), np.dot(A, v))
    elif fn in ('nest', 'petsc', 'nestblocks'):
        square = rng.random() < .6
        if square:
            c = r
            A = ints(rng, r, r)
        rs = split(rng, r)
        cs = list(rs) if square else split(rng, c)
        ro, co = offs(rs), offs(cs)
        A = np.array(A).reshape((r, c))
        bl = []
        for i in range(len(rs)):
            row = []
            for j in range(len(cs)):
                sl = (slice(ro[i], ro[i+1]), slice(co[j], co[j+1]))
                u = rng.random()
                if fn != 'petsc' and u < .3 and i != j:
                    A[sl] = 0
                    row.append(0 if rng.random() < .6 else mk(A[sl].tolist()))
                elif fn != 'petsc' and u < .5 and i == j and rs[i] == cs[j]:
                    k = rng.choice([0, 1, 2, -1])
                    A[sl] = k*np.eye(rs[i], dtype=int)
                    row.append(k)
                elif fn != 'petsc' and u < .6:
                    row.append(block.block_transpose(mk(A[sl].T.tolist())))
                else:
                    row.append(mk(A[sl].tolist()))
            bl.append(row)
        # sizes are known only through matrices, and zero ones are dropped off the diagonal
        gone = lambda i, j: isinstance(bl[i][j], int) or (i != j and not A[ro[i]:ro[i+1], co[j]:co[j+1]].any())
        for i in range(len(rs)):
            if all(gone(i, j) for j in range(len(cs))) or any(all(gone(k, j) for k in range(len(rs))) for j in range(len(cs))):
                for k in range(len(rs)):
                    for j in range(len(cs)):
                        A[ro[k], co[j]] = 1
                bl = [[mk(A[ro[i]:ro[i+1], co[j]:co[j+1]].tolist()) for j in range(len(cs))] for i in range(len(rs))]
                break
        A = A.tolist()
        ev['A'] = A
        ev['fn'] = 'petsc' if fn == 'petsc' else 'nest'

        def f():
            bm = block.block_mat(bl)
            if fn == 'petsc':
                got(cv.block_mat_to_petsc(bm).array())
                return
            M = nest(bm)
            if M.getType() != 'nest':
                raise ValueError('not nested')
            if fn == 'nest':
                # the action of the nested matrix on the unit vectors
                cols = []
                for j in range(c):
                    e = np.zeros(c); e[j] = 1
                    x = nest(block.block_vec([vec(e[co[k]:co[k+1]]) for k in range(len(cs))]))
                    y = nest(block.block_vec([vec([7]*k) for k in rs]))
                    M.mult(x, y)
                    cols.append(pvals(y))
                got(np.array(cols).T)
            else:
                out = np.zeros((r, c))
                for i in range(len(rs)):
                    for j in range(len(cs)):
                        S = M.getNestSubMatrix(i, j)
                        if S.handle:
                            out[ro[i]:ro[i+1], co[j]:co[j+1]] = df.PETScMatrix(S).array()
                got(out)
    elif fn in ('as_block', 'as_block_vec', 'nestvec'):
        n = rng.randint(2, 6)
        how = rng.choice(['spaces', 'list', 'array', 'is', 'tuplemix'])
        if how == 'spaces' or fn == 'nestvec':
            sz = split(rng, n)
            o = offs(sz)
            I = [list(range(o[k], o[k+1])) for k in range(len(sz))]
        else:
            p = rng.sample(range(n), n)
            I = splits(rng, p)
        blocks = lambda: {'spaces': lambda: [space(len(i)) for i in I], 'list': lambda: [list(i) for i in I],
                          'array': lambda: [np.array(i) for i in I], 'is': lambda: [PETSc.IS().createGeneral(np.array(i, dtype='int32')) for i in I],
                          'tuplemix': lambda: [np.array(i, dtype='int64') for i in I]}[how]()
        I1 = [[t+1 for t in i] for i in I]
        if fn == 'as_block':
            A = ints(rng, n, n)
            ev = dict(ev='blocks', A=A, I=I1, J=I1)

            def f():
                M = mk(A)
                if rng.random() < .3:
                    M = df.as_backend_type(M).mat()
                B = as_block(M, blocks())
                ev['got'] = [[[[scaled(t) for t in row] for row in B[a][b].array()] for b in range(len(I))] for a in range(len(I))]
        else:
            x = [rng.randint(-9, 9) for _ in range(n)]
            ev = dict(ev='vblocks', x=x, I=I1)

            def f():
                if fn == 'nestvec':
                    v = nest(block.block_vec([vec([x[t] for t in i]) for i in I]))
                    ev['got'] = [[scaled(t) for t in w.array] for w in v.getNestSubVecs()]
                else:
                    v = vec(x)
                    if rng.random() < .3:
                        v = df.as_backend_type(v).vec()
                    B = as_block(v, blocks())
                    ev['got'] = [entries(b) for b in B.blocks]
    elif fn == 'sizes':
        rs, cs = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))], [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
        ev = dict(ev='sizes', rs=rs, cs=cs)

        def f():
            M = [[mk(ints(rng, a, b)) for b in cs] for a in rs]
            if len(rs) > 1 and len(cs) > 1:
                M[0][1] = 0
                M[1][0] = block.block_transpose(mk(ints(rng, cs[0], rs[1])))
            ev['got'] = [list(t) for t in cv.bmat_sizes(block.block_mat(M))]
            ev['vec'] = list(cv.bmat_sizes(block.block_vec([vec([1]*t) for t in rs])))
            X, Y, Z = mk(ints(rng, r, c)), mk(ints(rng, c, r)), mk(ints(rng, r, c))
            ev['dims'] = [list(cv.get_dims(e)) for e in (X, X.T if hasattr(X, 'T') else block.block_transpose(X), X*Y, 2*X*Y*Z, X + Z, X - 0*Z, block.block_transpose(X*Y*Z))]
            ev['rc'] = [r, c]
    elif fn == 'reshape':
        n = rng.randint(1, 4)
        sz = [rng.randint(1, 3) for _ in range(n)]
        B = [[ints(rng, a, b) for b in sz] for a in sz]
        ls = [len(g) for g in splits(rng, list(range(n)))]
        o = [sum(ls[:k+1]) for k in range(len(ls))]
        ev = dict(ev='reshape', offsets=o, B=B)

        def f():
            M = mu.block_reshape(block.block_mat([[mk(b) for b in row] for row in B]), rng.choice([list, tuple])(o))
            out = []
            for row in M.blocks:
                out.append([])
                for b in row:
                    if isinstance(b, block.block_mat):
                        out[-1].append(dict(bare=False, blocks=[[alg.dense(t) for t in q] for q in b.blocks]))
                    else:
                        out[-1].append(dict(bare=True, blocks=[[alg.dense(b)]]))
            ev['got'] = out
    return attempt(ev, f)


def run_list(case):
    from xii.linalg.list_utils import shape_list, flatten_list, reshape_list
    s, t = case['from'], case['to']
    ev = dict(ev='list', **{'from': s, 'to': t})

    def f():
        a = np.arange(1, int(np.prod(s))+1).reshape(s).tolist()
        ev['flat'] = flatten_list(a)
        b = reshape_list(a, tuple(t))
        ev['shapes'] = [list(shape_list(a)), list(shape_list(b))]
        got = []
        for idx in np.ndindex(*t):
            w = b
            for i in idx:
                w = w[i]
            got.append([[i+1 for i in idx], [int(w)]])
        ev['got'] = got
    return attempt(ev, f)


def run_vectorized(case):
    rng = random.Random(case['seed'])
    msh = df.UnitIntervalMesh(rng.randint(1, 4)) if case['mesh'] == 'int' else df.UnitSquareMesh(rng.randint(1, 2), rng.randint(1, 2))
    if case['el'] == 'CR' and case['mesh'] == 'int':
        return []
    fam, deg = ('CR', 1) if case['el'] == 'CR' else (case['el'][:2], int(case['el'][2]))
    V = df.FunctionSpace(msh, fam, deg)
    n = V.dim()
    A = ints(rng, n, n)
    ev = dict(ev='vectorized', A=A)

    def f():
        x = [rng.randint(-9, 9) for _ in range(n*case['dim'])]
        ev['x'] = x
        if case['aslist']:
            d = case['dim']
            W = [V]*d
            O = BU().VectorizedOperator(alg.mkmat(A, 0), W)
            b = block.block_vec([vec(x[k*n:(k+1)*n]) for k in range(d)])
            y = O*b
            ev['got'] = value(y)['flat']
            ev['xafter'] = value(b)['flat']
            ev['comp'] = [[k*n + i + 1 for i in range(n)] for k in range(d)]
            return
        W = df.VectorFunctionSpace(msh, fam, deg, dim=case['dim'])
        # unknowns at the same place: the same cell and local number
        comp = []
        for j in range(case['dim']):
            c = [0]*n
            Wj = W.sub(j)
            for cell in range(msh.num_cells()):
                for p, q in zip(V.dofmap().cell_dofs(cell), Wj.dofmap().cell_dofs(cell)):
                    c[int(p)] = int(q)+1
            comp.append(c)
        ev['comp'] = comp
        O = BU().VectorizedOperator(alg.mkmat(A, 0), W)
        b = df.Function(W).vector()
        b.set_local(np.array(x, dtype=float))
        y0 = O*b
        b2 = b.copy()
        b2 *= 2
        O*b2
        ev['got'] = entries(y0)
        ev['xafter'] = entries(b)
        b *= 1.0
    return attempt(ev, f)


def run_view(case):
    rng = random.Random(case['seed'])
    sizes, n = case['sizes'], len(case['sizes'])
    off = [sum(sizes[:k]) for k in range(n+1)]
    N = off[-1]
    W = [space(s) for s in sizes]
    r = lambda k: [rng.randint(-5, 5) for _ in range(k)]
    x = [0]*N
    ev = dict(ev='function', sizes=sizes)
    out = [ev]
    V = {}

    def views():
        """the coefficients as seen through everything handed out so far"""
        f = V['f']
        res = []
        for held in V['held']:
            res.append(held())
        res.append(sum([entries(g.vector()) for g in f], []))
        res.append(sum([entries(v) for v in f.vectors()], []))
        res.append(entries(xii.ii_convert(f.block_vec())))
        res.append(sum([[scaled(g.vector()[i]) for i in range(g.function_space().dim())] for g in [f[k] for k in range(len(f))]], []))
        return res

    def hold():
        f = V['f']
        k = rng.randint(0, 3)
        if k == 0:
            b = f.block_vec()
            V['held'].append(lambda: sum([entries(t) for t in b.blocks], []))
            V['w'].append(('block', b))
        elif k == 1:
            v = f.vector()
            V['held'].append(lambda: entries(v))
            V['w'].append(('petsc', v.vec()))
        elif k == 2:
            p = f.petsc_vec()
            V['held'].append(lambda: [scaled(t) for t in pvals(p)])
            V['w'].append(('petsc', p))
        else:
            from xii.linalg.nest import nest
            p = nest(f.block_vec())
            V['held'].append(lambda: [scaled(t) for t in pvals(p)])
            V['w'].append(('petsc', p))

    def start():
        V['held'], V['w'] = [], []
        if case['init'] == 'none':
            V['f'] = xii.ii_Function(W)
        elif case['init'] == 'vectors':
            x[:] = r(N)
            V['f'] = xii.ii_Function(W, [vec(x[off[k]:off[k+1]]) for k in range(n)])
        else:
            x[:] = r(N)
            fs = [df.Function(w) for w in W]
            for k, g in enumerate(fs):
                g.vector().set_local(np.array(x[off[k]:off[k+1]], dtype=float))
            V['f'] = xii.ii_Function(W, fs)
        ev['x'] = list(x)
        hold()
        ev['views'] = views()
    attempt(ev, start)
    if ev['out'] != 'ok':
        return out
    for _ in range(case['n']):
        k = rng.randint(0, n-1)
        e = dict(ev='write', k=k+1, how='set', v=r(sizes[k]))
        out.append(e)

        def step():
            f = V['f']
            u = rng.choice(['comp', 'comp', 'held', 'held', 'interpolate', 'inplace'])
            a = np.array(e['v'], dtype=float)
            if u == 'comp':
                f[k].vector().set_local(a)
            elif u == 'inplace':
                v = f[k].vector()
                v.zero()
                v.axpy(1., vec(e['v']))
            elif u == 'interpolate':
                e['how'], e['v'] = 'all', r(N)
                gs = []
                for q in range(n):
                    g = df.Function(W[q])
                    g.vector().set_local(np.array(e['v'][off[q]:off[q+1]], dtype=float))
                    gs.append(g)
                res = f.interpolate(gs if rng.random() < .5 else xii.ii_Function(W, gs))
                assert res is f
            else:
                kind, w = rng.choice(V['w'])
                if kind == 'block':
                    w[k].set_local(a)
                else:
                    t = rng.choice(['sub', 'scale', 'axpy'])
                    if t == 'sub':
                        w.getNestSubVecs()[k].array[:] = a
                    elif t == 'scale':
                        e['how'], e['v'] = 'scale', [rng.choice([-1, 2, 1])]
                        w.scale(float(e['v'][0]))
                    else:
                        e['how'], e['v'] = 'axpy', r(N)
                        from xii.linalg.function import as_petsc_nest
                        w.axpy(1., as_petsc_nest(block.block_vec([vec(e['v'][off[q]:off[q+1]]) for q in range(n)])))
            if rng.random() < .4:
                hold()
            e['views'] = views()
        attempt(e, step)
        if e['out'] != 'ok':
            break
    return out
