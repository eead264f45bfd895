"""Driver for block operator expressions (C06: ii_convert, C07: graph collapse)."""
import json, random
from core import tlc, tlc_ok, scaled, BAD

LEAVES = [[[1, 2], [3, 5]], [[0, 1, -2], [4, 1, 0]], [[2, 0], [1, -1], [0, 3]]]


# ------------------------------------------------------------------ planning
def programs(depth, opq, simulate=None, seed=1, maxstack=3, timeout=300):
    cfg = ('SPECIFICATION Spec\nCONSTANTS MaxLen=%d MaxStack=%d WithOpq=%s\n'
           'INVARIANTS TypeOK Replayable Laws Emit\nCHECK_DEADLOCK FALSE\n'
           % (depth, maxstack, 'TRUE' if opq else 'FALSE'))
    args = []
    if simulate:
        args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 1), '-seed', str(seed)]
    r = tlc_ok(tlc('BlockAlgMC', cfg, args=args, workers=1 if simulate else 8, timeout=timeout), 'BlockAlgMC')
    progs = sorted({json.dumps(p['prog'], sort_keys=True) for p in r.tagged('PROG')})
    return [json.loads(p) for p in progs], r


def sparse_leaves(rng):
    """Leaves of the shapes of LEAVES, with zeros in different places"""
    if rng.random() < .4:
        return LEAVES
    return [[[v if rng.random() < .6 else 0 for v in row] for row in a] for a in
            [[[rng.choice([-3, -2, -1, 1, 2, 4]) for _ in row] for row in a] for a in LEAVES]]


# ------------------------------------------------------------------ execution
def setup():
    global df, np, xii, block, ii_convert, monolithic, block_mul, block_add, block_sub, block_transpose, \
        numpy_to_petsc, block_base, PETSc
    import dolfin as df, numpy as np, xii, block
    from xii import ii_convert
    from xii.linalg.collapse_iter import monolithic
    from block.block_compose import block_mul, block_add, block_sub, block_transpose
    from block.block_base import block_base
    from petsc4py import PETSc
    df.set_log_level(50)

    class Opaque(block_base):
        """Matrix-free operator with the action of a dense array"""
        def __init__(self, a):
            self.a = a

        def _apply(self, a, x):
            y = df.Vector(df.MPI.comm_world, a.shape[0])
            y.set_local(a.dot(x.get_local()))
            return y

        def matvec(self, x):
            return self._apply(self.a, x)

        def transpmult(self, x):
            return self._apply(self.a.T, x)

        def create_vec(self, dim=1):
            return df.Vector(df.MPI.comm_world, self.a.shape[dim])
    globals()['Opaque'] = Opaque


def mkmat(rows, kind=0):
    """Integer matrix as PETScMatrix / Matrix, independent of the library"""
    a = np.array(rows, dtype=float)
    A = PETSc.Mat().createAIJ(size=a.shape, comm=PETSc.COMM_WORLD)
    A.setUp()
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if a[i, j] != 0 or i == j:
                A.setValue(i, j, a[i, j])
    A.assemble()
    A = df.PETScMatrix(A)
    return df.Matrix(A) if kind else A


def dense(A):
    if hasattr(A, 'array'):
        return [[scaled(v) for v in row] for row in A.array()]
    raise ValueError('not a matrix')


def build(prog, leaves, arrays):
    """Expression for the program; the numpy value is only used to feed matrix-free operands"""
    st = []
    for o in prog:
        op, i = o['op'], o['i']
        if op == 'leaf':
            st.append((leaves[i-1], np.array(arrays[i-1], dtype=float)))
        elif op == 'num':
            st.append((i, i))
        elif op == 'dup':
            st.append(st[-i])
        elif op == 'tr':
            A, a = st.pop()
            st.append((A.T if hasattr(A, 'T') else block_transpose(A), a.T))
        elif op == 'neg':
            A, a = st.pop()
            st.append((-A, -a))
        elif op == 'opq':
            A, a = st.pop()
            st.append((Opaque(a), a))
        else:
            (A, a), (B, b) = st[-2:]
            st = st[:-2]
            cls, f, c = {'mul': (block_mul, lambda: A*B, lambda: a.dot(b) if np.ndim(a) and np.ndim(b) else a*b),
                         'add': (block_add, lambda: A+B, lambda: a+b),
                         'sub': (block_sub, lambda: A-B, lambda: a-b)}[op]
            try:
                C = f()
            except TypeError:          # operators cbc.block does not overload
                C = cls(A, B)
            st.append((C, c()))
    (A, a), = st
    return A


def run_prog(case, conv):
    leaves = [mkmat(a, k) for a, k in zip(case['leaves'], case['kinds'])]
    expr = build(case['prog'], leaves, case['leaves'])
    ev = dict(ev='prog', prog=case['prog'], leaves=case['leaves'])
    try:
        got = conv(expr)
        ev['got'] = dense(got)
        ev['again'] = dense(conv(expr))
        ev['after'] = [dense(a) for a in leaves]
        ev['out'] = 'ok'
    except RecursionError:
        ev['out'] = 'RecursionError'
    except Exception as e:
        ev['out'] = '%s: %s' % (type(e).__name__, str(e)[:80])
    return [ev]


def run_bmat(case, conv, blocks=True):
    leaves = [mkmat(a, k) for a, k in zip(case['leaves'], case['kinds'])]

    def entry(e):
        if e['k'] == 'zero':
            return 0
        if e['k'] == 'diag':
            return e['v'] if case.get('intdiag', True) else float(e['v'])
        return build(e['prog'], leaves, case['leaves'])
    bm = block.block_mat([[entry(e) for e in row] for row in case['ents']])
    ev = {k: case[k] for k in ('rs', 'cs', 'ents', 'leaves')}
    ev['ev'] = 'bmat'
    try:
        got = conv(bm)
        ev['got'] = dense(got)
        ev['blocks'] = []
        if blocks:
            B = ii_convert(bm, '')
            ev['blocks'] = [[dense(B[i][j]) for j in range(len(case['cs']))] for i in range(len(case['rs']))]
        ev['after'] = [dense(a) for a in leaves]
        ev['out'] = 'ok'
    except Exception as e:
        ev['out'] = '%s: %s' % (type(e).__name__, str(e)[:80])
    return [ev]


def run_bvec(case, conv):
    vs = []
    for v in case['vecs']:
        x = df.Vector(df.MPI.comm_world, len(v))
        x.set_local(np.array(v, dtype=float))
        vs.append(x)
    bv = block.block_vec(vs)
    ev = dict(ev='bvec', vecs=case['vecs'])
    try:
        ev['got'] = [scaled(x) for x in conv(bv).get_local()]
        ev['after'] = [[scaled(x) for x in v.get_local()] for v in vs]
        ev['out'] = 'ok'
    except Exception as e:
        ev['out'] = '%s: %s' % (type(e).__name__, str(e)[:80])
    return [ev]


# ------------------------------------------------------------------ layouts
def layouts(rng, n, progs_by_shape, nleaves):
    """Random well formed block layouts over the leaf shapes of LEAVES"""
    out = []
    shapes = list(progs_by_shape)
    while len(out) < n:
        nr, nc = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (2, 3), (3, 2), (3, 3)])
        rs = [rng.choice([2, 3]) for _ in range(nr)]
        cs = [rng.choice([2, 3]) for _ in range(nc)]
        ents, good = [], True
        for i in range(nr):
            row = []
            for j in range(nc):
                u = rng.random()
                if u < .25:
                    row.append(dict(k='zero', v=0, prog=[]))
                elif u < .5 and i == j and rs[i] == cs[j]:
                    row.append(dict(k='diag', v=rng.choice([0, 1, 2, -3]), prog=[]))
                else:
                    row.append(dict(k='prog', v=0, prog=rng.choice(progs_by_shape[(rs[i], cs[j])])))
            ents.append(row)
        ok = all(any(e['k'] == 'prog' for e in row) for row in ents) and \
            all(any(ents[i][j]['k'] == 'prog' for i in range(nr)) for j in range(nc))
        if ok:
            out.append(dict(what='bmat', rs=rs, cs=cs, ents=ents, leaves=sparse_leaves(rng),
                            kinds=[rng.randint(0, 1) for _ in range(nleaves)], intdiag=rng.random() < .7))
    return out


def shape_of(prog):
    st = []
    dims = [(len(a), len(a[0])) for a in LEAVES]
    for o in prog:
        op, i = o['op'], o['i']
        if op == 'leaf':
            st.append(dims[i-1])
        elif op == 'num':
            st.append(None)
        elif op == 'dup':
            st.append(st[-i])
        elif op == 'tr':
            s = st.pop()
            st.append((s[1], s[0]))
        elif op in ('neg', 'opq'):
            pass
        else:
            s, t = st[-2:]
            st = st[:-2]
            st.append(((s[0], t[1]) if s and t else (s or t)) if op == 'mul' else (s or t))
    return st[0]


def plan(ctx, opq, blockprogs):
    rng = random.Random(ctx.seed)
    progs, r1 = programs(ctx.pick(5, 7), opq)
    ctx.model(r1, 'BlockAlgMC exhaustive, %d programs' % len(progs))
    deep, r2 = programs(ctx.pick(10, 14), opq, simulate=ctx.pick(1500, 20000), seed=ctx.seed, maxstack=4)
    ctx.model(r2, 'BlockAlgMC simulation, %d programs' % len(deep))
    seen = {json.dumps(p) for p in progs}
    deep = [p for p in deep if json.dumps(p) not in seen]
    rng.shuffle(deep)
    deep = deep[:ctx.pick(2500, 40000)]
    if len(progs) > ctx.pick(6000, 60000):
        progs = rng.sample(progs, ctx.pick(6000, 60000))
    cases = []
    for n, p in enumerate(progs + deep):
        cases.append(dict(what='prog', prog=p, leaves=sparse_leaves(rng), kinds=[(n >> k) & 1 for k in range(3)]))
    by = {}
    small = [p for p in progs + deep[:400] if len(p) <= blockprogs and not any(o['op'] == 'opq' for o in p)]
    small += [[dict(op='leaf', i=k)] for k in (1, 2, 3)]*20
    small += [[dict(op='leaf', i=3), dict(op='leaf', i=2), dict(op='mul', i=0)]]*20
    for p in small:
        by.setdefault(shape_of(p), []).append(p)
    cases += layouts(rng, ctx.pick(400, 4000), by, 3)
    for _ in range(ctx.pick(20, 100)):
        cases.append(dict(what='bvec', vecs=[[rng.randint(-9, 9) for _ in range(rng.randint(1, 4))]
                                             for _ in range(rng.randint(1, 4))]))
    return cases
