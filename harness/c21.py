"""C21  PETSc and SciPy wrappers act as the operator they wrap."""
import random
from core import tlc, scaled
import alg, c08
import meshes as M
NOTE = ('Histories of applications from the model (products, transposed products, registers changed in between) replayed on PETSc operators, preconditioners, SciPy operators, '
        'wrapped preconditioners, field splits of nested matrices, component-wise and space operators of random block structure; Krylov drivers of all three back ends on systems with known solutions.')
TRACE = 'WrapTrace'
TECHNIQUE = ('TLA+ register machine for wrapped operators (Wrap), laws model checked by TLC, simulated histories replayed on the wrappers with all registers compared after every step; '
             'solutions validated by TLC')
PER_CASE = 60
ASSUMPTIONS = ['systems given to the Krylov drivers are well conditioned; transposed products only where the wrapper has them (not SciPy) and for as many block rows as block columns (cbc.block)']

# methods without breakdowns on definite systems
SCIPY = ['cg', 'gmres', 'lgmres', 'minres', 'gcrotmk']
PYAMG = ['cg', 'gmres', 'fgmres']
CBC = ['cg', 'cgn', 'symmlq', 'minres']
NONSYM = {'scipy': ['gmres', 'lgmres', 'gcrotmk'], 'pyamg': ['gmres', 'fgmres'], 'cbc': ['cgn']}


def plan(ctx):
    rng = random.Random(ctx.seed)
    for R, C, m in ((2, 2, 2), (2, 3, 2), (3, 1, 2)):
        r = tlc('WrapMC', 'SPECIFICATION Spec\nCONSTANTS R=%d C=%d Vals={0, %s} MaxOps=%d\nINVARIANTS Adjoint Linear Repeatable ByComponent\nPROPERTIES OneRegister\n'
                'CHECK_DEADLOCK FALSE\n' % (R, C, ctx.pick('2' if C == 3 else '1, 2', '1, 2'), m), workers=8, timeout=800)
        ctx.model(r, 'WrapMC %dx%d' % (R, C))
    hists = {}
    for R, C in ((2, 2), (2, 3)):
        r = tlc('WrapMC', 'SPECIFICATION SpecH\nCONSTANTS R=%d C=%d Vals={0} MaxOps=%d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n' % (R, C, ctx.pick(7, 10)),
                args=['-simulate', 'num=%d' % ctx.pick(100, 800), '-depth', '14', '-seed', str(ctx.seed)], workers=1, timeout=600)
        ctx.model(r, 'WrapMC histories %dx%d' % (R, C))
        hists[R == C] = [h['h'] for h in r.tagged('HIST')]
    cases = []

    def hist(square):
        return rng.choice(hists[square])
    for kind in ('petsc', 'pc', 'scipy', 'blockpc', 'nestpc', 'vectorized', 'fe'):
        for _ in range(ctx.pick(40 if kind in ('petsc', 'pc', 'scipy') else 24, 400)):
            sq = kind in ('pc', 'blockpc', 'nestpc', 'vectorized') or rng.random() < .5
            cases.append(dict(what=kind, square=sq, hist=hist(sq), seed=rng.randint(0, 10**6)))
    for how, methods in (('scipy', SCIPY), ('pyamg', PYAMG), ('cbc', CBC), ('ksp', ['cg', 'gmres', 'minres'])):
        for m in methods:
            for _ in range(ctx.pick(8, 80)):
                cases.append(dict(what='solve', how=how, method=m, seed=rng.randint(0, 10**6)))
    return cases


def group(c):
    return c['what'], c.get('how', '')


def setup():
    global df, np, xii, block, PETSc, sp, F, K
    import dolfin as df, numpy as np, xii, block
    from petsc4py import PETSc
    import scipy.sparse.linalg as sp
    import xii.linalg.krylov_api as K
    import fe as F
    alg.setup()
    c08.setup()
    df.set_log_level(50)


def run(case):
    return globals()['run_' + case['what']](case, random.Random(case['seed']))


def pvec(a):
    v = df.PETScVector(df.MPI.comm_world, len(a))
    v.set_local(np.array(a, dtype=float))
    v.apply('insert')
    return v


def cut(a, sizes):
    o = np.cumsum([0] + list(sizes))
    return [a[i:j] for i, j in zip(o[:-1], o[1:])]


def bvec(a, sizes):
    return block.block_vec([pvec(b) for b in cut(a, sizes)])


def operand(rng, square, single=None):
    """(operator, its entries, row sizes, column sizes, whether in blocks)"""
    single = rng.random() < .35 if single is None else single
    if single:
        r = rng.randint(1, 4)
        c = r if square else rng.choice([k for k in range(1, 5) if k != r])
        o, a = c08.make(rng, dict(k=rng.choice(['mat', 'mat', 'tr', 'prod'])), r, c)
        if rng.random() < .3:
            b = c08.ints(rng, r, c)
            o, a = o + alg.mkmat(b.tolist(), 0), a + b
        return o, a, [r], [c], False
    n = rng.randint(1, 3)
    rs = [rng.randint(1, 3) for _ in range(n)]
    if square:
        cs = list(rs)
    else:
        m = rng.choice([n, n, rng.randint(1, 3)])
        while True:
            cs = [rng.randint(1, 3) for _ in range(m)]
            if sum(cs) != sum(rs):
                break
    diag = square and n > 1 and rng.random() < .3
    ops, arrs = [], []
    for i in range(n):
        ops.append([]), arrs.append([])
        for j in range(len(cs)):
            k = rng.choice(['mat', 'mat', 'mat', 'tr', 'prod', 'zero'])
            if square and i == j and rng.random() < .2:
                k = 'num'
            if diag and i != j:
                k = 'zero'
            o, a = c08.make(rng, dict(k=k, v=rng.choice([2, -3])), rs[i], cs[j])
            ops[-1].append(o), arrs[-1].append(a)
    # each row and column of blocks has a matrix, otherwise its size is unknown
    plain = lambda o: np.isscalar(o)
    for i in range(n):
        if all(plain(o) for o in ops[i]):
            j = min(i, len(cs)-1)
            ops[i][j], arrs[i][j] = c08.make(rng, dict(k='mat'), rs[i], cs[j])
    for j in range(len(cs)):
        if all(plain(ops[i][j]) for i in range(n)):
            i = min(j, n-1)
            ops[i][j], arrs[i][j] = c08.make(rng, dict(k='mat'), rs[i], cs[j])
    A = xii.block_diag_mat([ops[i][i] for i in range(n)]) if diag and all(plain(ops[i][j]) for i in range(n) for j in range(n) if i != j) else block.block_mat(ops)
    a = np.block(arrs)
    u = rng.random()
    if square and n > 1 and u < .15:
        # a composed operator in blocks
        A, a = A*A, a.dot(a)
    return A, a, rs, cs, True


class Registers(object):
    """Vectors of domain and range in some representation"""
    def __init__(self, mk, get, put, cs, rs, rng):
        self.mk, self.get, self.put, self.sizes = mk, get, put, dict(X=cs, Y=rs)
        self.X = [mk([rng.randint(-3, 3) for _ in range(sum(cs))], cs) for _ in range(2)]
        self.Y = [mk([rng.randint(-3, 3) for _ in range(sum(rs))], rs) for _ in range(2)]

    def units(self, s):
        """Hold vectors s times as big"""
        get, put = self.get, self.put
        self.get = lambda v: [t/s for t in get(v)]
        self.put = lambda v, a: put(v, [s*t for t in a])
        for v in self.X + self.Y:
            self.put(v, get(v))
        return self

    def state(self):
        return [[scaled(t) for t in self.get(v)] for v in self.X], [[scaled(t) for t in self.get(v)] for v in self.Y]


NOTHING = dict(comps=[], inv=[])


def replay(case, rng, a, rs, cs, size, regs, mult, tmult, extra=NOTHING, garbage=True):
    """mult(x, y): y or None when written in place"""
    regs.units(rng.choice([1, 1, 2**-34, 2**30]))
    X, Y = regs.state()
    ev = [dict(ev='new', A=np.array(a).tolist(), X=X, Y=Y, size=list(size), out='ok', **extra)]
    for h in case['hist']:
        op, i, j = h['op'], h['i']-1, h['j']-1
        if op == 'tmult' and tmult is None:
            continue
        if op == 'feed' and sum(rs) != sum(cs):
            continue
        e = dict(ev='step', op=op, i=i+1, j=j+1, v=[], X=[], Y=[])
        try:
            x, y = regs.X[i], regs.Y[j]
            if op == 'mult':
                # whatever is in the result does not matter
                if garbage and rng.random() < .2:
                    regs.put(y, [float('nan')]*sum(rs))
                z = mult(x, y)
                if z is not None:
                    regs.Y[j] = z
            elif op == 'tmult':
                if garbage and rng.random() < .2:
                    regs.put(x, [float('inf')]*sum(cs))
                z = tmult(y, x)
                if z is not None:
                    regs.X[i] = z
            elif op in ('setx', 'sety'):
                e['v'] = [rng.randint(-4, 4) for _ in range(sum(cs if op == 'setx' else rs))]
                regs.put(x if op == 'setx' else y, e['v'])
            elif op == 'scalex':
                regs.put(x, [-2*t for t in regs.get(x)])
            elif op == 'scaley':
                regs.put(y, [-2*t for t in regs.get(y)])
            elif op == 'feed':
                regs.put(x, list(regs.get(y)))
            else:
                regs.put(x, [s+t for s, t in zip(regs.get(regs.X[0]), regs.get(regs.X[1]))])
            e['out'] = 'ok'
            e['X'], e['Y'] = regs.state()
        except Exception as ex:
            e['out'] = '%s: %s' % (type(ex).__name__, str(ex)[:80])
        ev.append(e)
        if e['out'] != 'ok':
            break
        # numbers stay small
        if max(abs(t) for v in e['X'] + e['Y'] for t in v) > 10**5:
            break
    return ev


def petsc_regs(rng, cs, rs, nested):
    from xii.linalg.function import as_petsc_nest
    if nested:
        mk = lambda a, sizes: as_petsc_nest(bvec(a, sizes))
        get = lambda v: [t for w in v.getNestSubVecs() for t in w.getArray(readonly=1).tolist()]

        def put(v, a):
            subs = v.getNestSubVecs()
            for w, b in zip(subs, cut(a, [w.size for w in subs])):
                w.setArray(np.array(b, dtype=float))
                w.assemble()
            v.assemble()
    else:
        mk = lambda a, sizes: PETSc.Vec().createWithArray(np.array(a, dtype=float), comm=PETSc.COMM_WORLD)
        get = lambda v: v.getArray(readonly=1).tolist()

        def put(v, a):
            v.setArray(np.array(a, dtype=float))
            v.assemble()
    return Registers(mk, get, put, cs, rs, rng)


def nullspace(rng, rs, blk):
    """Orthonormal directions: integer vectors and the coefficient vectors"""
    n = sum(rs)
    idx = list(range(n))
    rng.shuffle(idx)
    Z, vs = [], []
    while idx and len(Z) < 2:
        k = rng.choice([t for t in (1, 2, 4) if t <= len(idx)])
        z = [0]*n
        for t in idx[:k]:
            z[t] = rng.choice([-1, 1])
        idx = idx[k:]
        Z.append(z)
        u = np.array(z, dtype=float)/np.sqrt(k)
        vs.append(bvec(u, rs) if blk else pvec(u))
    return Z, vs


def run_petsc(case, rng):
    A, a, rs, cs, blk = operand(rng, case['square'])
    Z = []
    if case['square'] and rng.random() < .4:
        Z, vs = nullspace(rng, rs, blk)
        if rng.random() < .4 and blk:
            vs = xii.BlockNullspace([None]*len(rs), vs)
    op = xii.ii_PETScOperator(A, vs if Z else None) if rng.random() < .8 or Z else xii.ii_PETScOperator(A)
    regs = petsc_regs(rng, cs, rs, blk)

    def mult(x, y):
        op.mult(x, y)

    def tmult(y, x):
        op.multTranspose(y, x)
    ev = replay(case, rng, a, rs, cs, op.size, regs, mult, tmult if not blk or len(rs) == len(cs) else None)
    if Z:
        ns = op.getNullSpace()
        u = [rng.randint(-3, 3) for _ in range(sum(rs))]
        D = 1
        for z in Z:
            D *= sum(t*t for t in z)
        e = dict(ev='null', Z=Z, u=u, D=D, w=[])
        try:
            v = regs.mk(u, rs)
            regs.put(v, u)
            if not ns:
                e['out'] = 'none'
            else:
                ns.remove(v)
                e['w'] = [scaled(t, D) for t in regs.get(v)]
                e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        ev.append(e)
    return ev


def run_pc(case, rng):
    A, a, rs, cs, blk = operand(rng, True)
    ksp = PETSc.KSP().create()
    other, _, _, _, _ = operand(rng, True)
    ksp.setOperators(xii.ii_PETScOperator(A, None))
    pc = xii.ii_PETScPreconditioner(A, ksp)
    if rng.random() < .3:
        # a preconditioner of another system in between
        k2 = PETSc.KSP().create()
        k2.setOperators(xii.ii_PETScOperator(other, None))
        xii.ii_PETScPreconditioner(other, k2)
    if rng.random() < .5:
        pc = ksp.getPC()
    regs = petsc_regs(rng, cs, rs, blk)

    def mult(x, y):
        pc.apply(x, y)

    def tmult(y, x):
        pc.applyTranspose(y, x)
    return replay(case, rng, a, rs, cs, [sum(rs), sum(cs)], regs, mult, tmult)


def run_scipy(case, rng):
    A, a, rs, cs, blk = operand(rng, case['square'], single=False)
    S = K.ScipyLinOp(A)
    mk = lambda a, sizes: np.array(a, dtype=float)

    def put(v, a):
        v[:] = a
    regs = Registers(mk, lambda v: v.tolist(), put, cs, rs, rng)

    def mult(x, y):
        how = rng.choice(['matvec', 'mul', 'at', 'column', 'mat', 'dot'])
        if how == 'matvec':
            return S.matvec(x)
        if how == 'mul':
            return S*x
        if how == 'at':
            return S @ x
        if how == 'dot':
            return S.dot(x)
        if how == 'column':
            return S.matvec(x.reshape(-1, 1)).reshape(-1)
        z = S.matmat(np.array([x, 2*x]).T)
        return z[:, 0] if rng.random() < .5 else z[:, 1]/2
    ev = replay(case, rng, a, rs, cs, S.shape, regs, mult, None)
    e = dict(ev='whole', got=[], again=[])
    try:
        e['got'] = [[scaled(t) for t in r] for r in S.matmat(np.eye(sum(cs)))]
        e['again'] = [[scaled(t) for t in r] for r in np.array([S*c for c in np.eye(sum(cs))]).T]
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return ev + [e]


def unimodular(rng, n, sym=False):
    L, U = np.eye(n, dtype=int), np.eye(n, dtype=int)
    for i in range(n):
        for j in range(i):
            L[i, j] = rng.choice([-1, 0, 1])
            U[j, i] = rng.choice([-1, 0, 2])
    a = L.dot(L.T) if sym else L.dot(U)
    b = np.rint(np.linalg.inv(a)).astype(int)
    return a, b


def dolfin_regs(rng, cs, rs):
    def put(v, a):
        v.set_local(np.array(a, dtype=float))
        v.apply('insert')
    return Registers(lambda a, s: pvec(a), lambda v: v.get_local().tolist(), put, cs, rs, rng)


def run_blockpc(case, rng):
    n = rng.randint(1, 4)
    kind = rng.choice(['lu', 'none', 'jacobi', 'python'])
    a, b = unimodular(rng, n)
    if kind == 'none':
        b = np.eye(n, dtype=int)
    if kind == 'jacobi':
        np.fill_diagonal(a, 1)
        b = np.eye(n, dtype=int)
    inv = a.tolist() if kind == 'lu' else []
    A = alg.mkmat(a.tolist(), 0)
    ksp = PETSc.KSP().create()
    ksp.setOperators(df.as_backend_type(A).mat())
    if kind == 'python':
        B, b, rs, cs, _ = None, c08.ints(rng, n, n), None, None, None
        xii.ii_PETScPreconditioner(alg.mkmat(b.tolist(), 0), ksp)
        pc = ksp.getPC()
    else:
        pc = ksp.getPC()
        pc.setType(kind)
        if kind == 'lu':
            # pivots of the given order are one
            pc.setFactorOrdering('natural')
        pc.setUp()
    P = xii.BlockPC(pc)
    regs = dolfin_regs(rng, [n], [n])
    Q = block.block_mat([[P]]) if rng.random() < .3 else None

    def mult(x, y):
        if Q is not None:
            return (Q*block.block_vec([x]))[0]
        return P*x
    return replay(case, rng, b, [n], [n], [P.create_vec(0).size(), P.create_vec(1).size()], regs, mult, None, dict(comps=[], inv=inv), garbage=False)


def run_nestpc(case, rng):
    """A block diagonal preconditioner as a field split of a nested matrix, perhaps on groups of its blocks"""
    from xii.linalg.nest import nest, pc_nest
    from block.algebraic.petsc import LU, SUPERLU_LU
    sizes = [rng.randint(1, 3) for _ in range(rng.choice([1, 2, 3, 4, 5, 5]))]
    n = len(sizes)
    ends = sorted(rng.sample(range(1, n), rng.randint(1, max(1, n-3)))) + [n] if n > 1 and rng.random() < .7 else list(range(1, n+1))
    if len(ends) == 1:              # everything in one group is not a split
        ends = list(range(1, n+1))
    groups = [list(range(f, l)) for f, l in zip([0] + ends[:-1], ends)]
    rows = [[c08.ints(rng, r, c) for c in sizes] for r in sizes]
    N = nest(block.block_mat([[alg.mkmat(a.tolist(), 0) for a in r] for r in rows]))
    total = sum(sizes)
    full, inv, diag, at, sums = np.zeros((total, total), dtype=int), np.zeros((total, total), dtype=int), [], 0, False
    for g in groups:
        k = sum(sizes[i] for i in g)
        a, b = unimodular(rng, k, sym=True)
        how = rng.choice(['lu', 'lu', 'superlu', 'sum'])
        P = (SUPERLU_LU if how == 'superlu' else LU)(alg.mkmat(a.tolist(), 0))
        if how == 'sum':
            c, d = unimodular(rng, k, sym=True)
            P, b, sums = P + LU(alg.mkmat(c.tolist(), 0)), b + d, True
        full[at:at+k, at:at+k], inv[at:at+k, at:at+k] = b, a
        diag.append(P)
        at += k
    B = block.block_mat([[diag[i] if i == j else 0 for j in range(len(diag))] for i in range(len(diag))])
    if len(groups) < n:
        line = lambda k: df.FunctionSpace(df.UnitIntervalMesh(max(k-1, 1)), 'CG' if k > 1 else 'R', 1 if k > 1 else 0)
        R = xii.linalg.block_utils.ReductionOperator(ends, [line(k) for k in sizes])
        B = R.T*B*R
    if rng.random() < .5:
        ksp = PETSc.KSP().create()
        ksp.setOperators(N)
        pc, owner = ksp.getPC(), ksp
    else:
        pc = PETSc.PC().create()
        pc.setOperators(N)
        owner = pc
    if n > 1:
        pc.setType('fieldsplit')
    owner.setOperators(N, pc_nest(pc, B, N))
    pc.setUp()
    # PETSc does not scatter a union of index sets from nested vectors
    regs = petsc_regs(rng, sizes, sizes, n > 1 and len(groups) == n and rng.random() < .5)

    def mult(x, y):
        pc.apply(x, y)

    def tmult(y, x):
        pc.applyTranspose(y, x)
    return replay(case, rng, full, sizes, sizes, list(N.size), regs, mult, None, dict(comps=[], inv=[] if sums else inv.tolist()))


def run_vectorized(case, rng):
    m = rng.choice(['edge', 'chain', 'tri', 'cell'])
    msh = {'edge': M.chain(1), 'chain': M.chain(rng.randint(1, 3)), 'tri': M.tri_grid(1, 1), 'cell': dict(td=2, gd=2, x=[[0, 0], [1, 0], [0, 1]], cells=[[0, 1, 2]])}[m]
    mesh = M.mesh(msh)
    k = rng.randint(1, 3)
    fam, deg = rng.choice([('DG', 0), ('CG', 1), ('DG', 1)])
    V = df.FunctionSpace(mesh, fam, deg)
    n = V.dim()
    if n > 6:
        V = df.FunctionSpace(mesh, 'DG', 0)
        fam, deg, n = 'DG', 0, V.dim()
    o, a = c08.make(rng, dict(k=rng.choice(['mat', 'tr', 'prod'])), n, n)
    aslist = rng.random() < .4
    if aslist:
        W = [V]*k
        comps = [[j*n + i + 1 for i in range(n)] for j in range(k)]
        sizes = [n]*k
        X = xii.VectorizedOperator(o, W)
        mk = lambda a, s: bvec(a, s)
        get = lambda v: [t for b in v for t in b.get_local().tolist()]

        def put(v, a):
            for w, b in zip(v, cut(a, sizes)):
                w.set_local(np.array(b, dtype=float))
                w.apply('insert')
        regs = Registers(mk, get, put, sizes, sizes, rng)
    else:
        k = max(k, 2)
        W = df.VectorFunctionSpace(mesh, fam, deg, k)
        comps = [[int(d)+1 for d in W.sub(j).dofmap().dofs()] for j in range(k)]
        sizes = [W.dim()]
        X = xii.VectorizedOperator(o, W)
        regs = dolfin_regs(rng, sizes, sizes)
    v0, v1 = X.create_vec(0), X.create_vec(1)
    size = [sum(b.size() for b in v) if isinstance(v, block.block_vec) else v.size() for v in (v0, v1)]

    def mult(x, y):
        return X*x
    return replay(case, rng, a, sizes, sizes, size, regs, mult, None, dict(comps=comps, inv=[]), garbage=False)


def run_fe(case, rng):
    from xii.linalg.fe_space_op import FESpaceOperator

    def space():
        n = rng.randint(1, 3)
        return df.FunctionSpace(M.mesh(M.chain(n)), *rng.choice([('CG', 1), ('DG', 0), ('DG', 1)]))
    V1 = space()
    V0 = V1 if case['square'] else space()
    while not case['square'] and V0.dim() == V1.dim():
        V0 = space()
    a = c08.ints(rng, V0.dim(), V1.dim())
    # how big the entries are does not matter
    s = rng.choice([1, 1, 2**-36, 2**30])
    A = alg.mkmat((s*a).tolist(), 0)

    class Op(FESpaceOperator):
        def matvec(self, b):
            return A*b

        def transpmult(self, b):
            y = A.create_vec(dim=1)
            A.transpmult(b, y)
            return y
    O = Op(V1, V0) if not case['square'] or rng.random() < .5 else Op(V1)
    if rng.random() < .5:
        O.collapse()
    regs = dolfin_regs(rng, [V1.dim()], [V0.dim()])
    ev = replay(case, rng, a, [V0.dim()], [V1.dim()], [O.create_vec(0).size(), O.create_vec(1).size()], regs,
                lambda x, y: (1/s)*(O*x), lambda y, x: (1/s)*(O.T*y), garbage=False)
    plain = lambda A: [[scaled(v/s) for v in row] for row in A.array()]
    e = dict(ev='whole', got=[], again=[])
    try:
        e['got'] = plain(O.collapse())
        e['again'] = plain(xii.ii_convert(O) if rng.random() < .5 else O.collapse())
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return ev + [e]


def run_solve(case, rng):
    from xii.linalg.function import as_petsc_nest
    how, method = case['how'], case['method']
    n = rng.randint(1, 3)
    sizes = [rng.randint(1, 3) for _ in range(n)]
    N = sum(sizes)
    Z = []
    if how == 'ksp' and method in ('cg', 'minres') and N > 1 and rng.random() < .5:
        # singular: graph Laplacian of a chain, constants in the kernel
        a = np.zeros((N, N), dtype=int)
        perm = list(range(N))
        rng.shuffle(perm)
        for i, j in zip(perm[:-1], perm[1:]):
            w = rng.randint(1, 2)
            a[[i, j], [i, j]] += w
            a[i, j] -= w
            a[j, i] -= w
        Z = [[1]*N]
    elif method in NONSYM.get(how, ['gmres']) and rng.random() < .5:
        a = c08.ints(rng, N, N)
        a = a + np.diag([1 + 2*int(abs(r).sum()) for r in a])
    else:
        a = c08.ints(rng, N, N)
        a = a + a.T
        a = a + np.diag([1 + 2*int(abs(r).sum()) for r in a])
    x0 = [rng.randint(-4, 4) for _ in range(N)]
    D = 1
    if Z:
        # the solution without the kernel component, times N
        D = N
        b = a.dot(np.array(x0))
    elif rng.random() < .5:
        b = a.dot(np.array(x0))
    else:
        b = np.array([rng.randint(-5, 5) for _ in range(N)])
        D = int(round(np.linalg.det(a)))
        if abs(D) > 2000:
            b, D = a.dot(np.array(x0)), 1
    o = np.cumsum([0] + sizes)
    A = block.block_mat([[alg.mkmat(a[o[i]:o[i+1], o[j]:o[j+1]].tolist(), 0) for j in range(n)] for i in range(n)])
    d = [2 if rng.random() < .5 else 1 for _ in range(N)]
    P = None
    if rng.random() < .6:
        P = block.block_mat([[alg.mkmat(np.diag(d[o[i]:o[i+1]]).tolist(), 0) if i == j else 0 for j in range(n)] for i in range(n)])
    bb = bvec(b, sizes)
    guess = bvec([0]*N if rng.random() < .5 else ([rng.randint(-3, 3) for _ in range(N)] if rng.random() < .7 else [round(t) for t in np.linalg.lstsq(a, b, rcond=None)[0]]), sizes)
    if how == 'cbc' and (method == 'symmlq' or (bvec(b, sizes) - A*guess).norm() < 1E-8):
        # cbc.block's symmlq adds the guess twice, others break down for the solution as guess
        guess = bvec([0]*N, sizes)
    ev = [dict(ev='new', A=a.tolist(), X=[[0]*N]*2, Y=[[0]*N]*2, size=[N, N], out='ok', **NOTHING)]
    e = dict(ev='solve', how='%s %s' % (how, method), b=[int(t) for t in b], x=[], D=D, Z=Z, sizes=sizes, layout=[], kept=True)
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if how == 'ksp':
                ksp = PETSc.KSP().create()
                vs = [bvec(np.ones(N)/np.sqrt(N), sizes)] if Z else None
                ksp.setOperators(xii.ii_PETScOperator(A, vs))
                xii.ii_PETScPreconditioner(P if P is not None else block.block_mat([[alg.mkmat(np.eye(sizes[i]).tolist(), 0) if i == j else 0 for j in range(n)] for i in range(n)]), ksp)
                ksp.setType(method)
                ksp.setTolerances(rtol=1E-13, atol=1E-14, max_it=200)
                x = bvec([0]*N, sizes)
                px = as_petsc_nest(x)
                ksp.solve(as_petsc_nest(bb), px)
            else:
                f = dict(scipy=K.scipy_solve, pyamg=K.pyamg_solve, cbc=K.cbc_solve)[how]
                kw = {}
                if rng.random() < .5:
                    kw['maxiter'] = 200 if how != 'pyamg' or 'gmres' not in method else N
                if how == 'cbc' and rng.random() < .3:
                    guess = None
                x, _ = f(method, A, bb, 1E-12, P, guess, **kw)
        e['layout'] = [v.size() for v in x]
        e['x'] = [scaled(t, D) for v in x for t in v.get_local()]
        e['kept'] = [t for v in bb for t in v.get_local().tolist()] == [float(t) for t in b]
        e['out'] = 'ok'
    except Exception as ex:
        e['out'] = '%s: %s' % (type(ex).__name__, str(ex)[:80])
    return ev + [e]
