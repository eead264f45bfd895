"""C10  Block form algebra commutes with assembly."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
import c04
NOTE = ('Histories of block forms over 1-4 (also repeated) spaces on a background mesh, an interface or sub-domain mesh generated by the model; terms are ordinary, '
        'traced or restricted, nonsymmetric integrals, each assembled on its own as the reference; every form is assembled after each operation that could have touched it.')
TRACE = 'BlockFormTrace'
TECHNIQUE = ('TLA+ model of block forms and their assembled tensors (BlockForm); TLC checks the laws on all short histories and generates long ones, '
             'replayed with real forms and validated by TLC')
PER_CASE = 150
SCALE = 24
# the spaces of a case (few combinations keep the number of compiled forms low)
TRIPLES = [[(0, 1, 3), (0, 2, 5), (4, 1, 2), (6, 5, 0), (3, 6, 4)], [(0, 1, 2), (4, 3, 2), (1, 3, 0)]]
POOLS = [[('bg', 'CG1'), ('bg', 'DG1'), ('gam', 'DG0'), ('gam', 'CG1'), ('bg', 'vCG1'), ('gam', 'R0'), ('gam', 'DG1')],
         [('bg', 'CG1'), ('bg', 'DG0'), ('sub', 'CG1'), ('sub', 'DG1'), ('bg', 'vCG1')]]


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('BlockFormMC', 'SPECIFICATION Spec\nCONSTANTS Mode="small" MaxOps=%d NForms=2 NSpaces=2\n'
            'INVARIANTS PermuteBack SumCommutes CompleteSymmetric AdjInvolution Reversal\nVIEW View\nCHECK_DEADLOCK FALSE\n' % ctx.pick(4, 5), workers=8, timeout=1500)
    ctx.model(r, 'BlockFormMC small')
    hs = []
    for n, num in ((8, ctx.pick(48, 600)), (18, ctx.pick(64, 800)), (30, ctx.pick(32, 400))):
        r = tlc('BlockFormMC', 'SPECIFICATION Spec\nCONSTANTS Mode="sim" MaxOps=%d NForms=3 NSpaces=3\nINVARIANTS PermuteBack CompleteSymmetric\nCHECK_DEADLOCK FALSE\n' % n,
                args=['-simulate', 'num=%d' % num, '-depth', '200', '-seed', str(ctx.seed + n)], timeout=800)
        ctx.model(r, 'BlockFormMC sim %d' % n)
        hs += r.tagged('HIST')
    cases = []
    for h in hs:
        k = rng.choice([0, 0, 1])
        t = list(rng.choice(TRIPLES[k]))
        rng.shuffle(t)
        cases.append(dict(what='history', pool=k, spaces=t, ops=h, seed=rng.randint(0, 10**6)))
    return cases


def group(case):
    return case['pool'], tuple(sorted(case['spaces']))


def setup():
    global df, np, xii, F, BF
    import dolfin as df, numpy as np, xii
    import importlib
    BF = importlib.import_module("xii.assembler.block_form")
    import fe as F
    df.set_log_level(50)
    c04.setup()


class Scene(object):
    def __init__(self, rng, spaces):
        m = M.permuted(M.tri_grid(rng.randint(1, 2), 1, None, 6), rng)
        self.bg = M.mesh(m)
        cf = df.MeshFunction('size_t', self.bg, 2, 1)
        for c in range(self.bg.num_cells()):
            cf[c] = rng.choice([1, 2])
        cf[0] = 1
        self.sub = xii.SubDomainMesh(cf, 1)
        fs = [f for f in M.entities(m, 1) if any(m['x'][f[0]][i] == m['x'][f[1]][i] for i in range(2))]
        rng.shuffle(fs)
        fs = fs[:rng.randint(2, 4)]
        self.gam = c04.embedded(rng, m, fs, [1]*len(fs), 1, self.bg)
        self.n, _ = c04.set_normal(rng, self.gam)
        self.mesh = dict(bg=self.bg, gam=self.gam, sub=self.sub)
        self.dx = dict(bg=df.Measure('dx', domain=self.bg, subdomain_data=cf), sub=df.Measure('dx', domain=self.sub), gam=df.Measure('dx', domain=self.gam))
        self.ds = df.Measure('ds', domain=self.bg)
        self.kinds = spaces
        g = M.ents(self.gam, 1)
        self.inner = [(p, [c for c, vs in enumerate(g) if p+1 in vs]) for p in range(self.gam.num_vertices())]
        self.inner = [pc for pc in self.inner if len(pc[1]) > 1]
        self.W = [df.FunctionSpace(self.gam, 'R', 0) if el == 'R0' else F.space(self.mesh[m], el) for m, el in spaces]


def scalar(rng, f, el):
    return f[rng.randrange(2)] if el[0] == 'v' else f


def piece(sc, rng, kt, v, ku, u):
    """One integral of test v and trial u (None: linear form)"""
    meshes = [kt[0]] + ([ku[0]] if u is not None else [])
    doms = ['gam'] if 'gam' in meshes else ['sub'] if 'sub' in meshes else ['bg', 'bg', 'bg', 'other']
    dom = rng.choice(doms)
    if dom == 'other':
        dom = rng.choice([d for d in ('gam', 'sub') if d in [k[0] for k in sc.kinds]] or ['bg'])
    c = df.Constant(rng.choice([1, -1, 2, 3, -2]))
    ks = [kt] + ([ku] if u is not None else [])
    other = rng.random() < .4
    if other and u is not None and all(k[0] == 'bg' and k[1] != 'vCG1' for k in ks):
        # one of the arguments enters by its mean
        f = [v, u]
        i = rng.randrange(2)
        f[i] = xii.Mean(f[i])
        return c*df.inner(f[1], f[0])*sc.dx['bg']
    if other and u is not None and sorted(k[0] for k in ks) == ['bg', 'gam'] and ('gam', 'CG1') in ks and hasattr(sc.gam, 'parent_meshes'):
        # or lifted from the interface
        f = [v, u]
        i = [k[0] for k in ks].index('gam')
        f[i] = xii.TransposeTrace(f[i], sc.gam, sc.bg)
        return c*f[i]*scalar(rng, f[1-i], ks[1-i][1])*sc.dx['bg']
    if u is not None and sc.inner and ('gam', 'R0') in ks and ks[0][0] == ks[1][0] and ks[0] != ks[1]:
        # or by its value at a point
        f = [v, u]
        i = 1 - ks.index(('gam', 'R0'))
        if ks[i][1] == 'DG1':
            p, cs = rng.choice(sc.inner)
            f[i] = xii.PointTrace(f[i], point=p, cell=rng.choice(cs))
            return df.inner(c*df.avg(f[i]), df.avg(f[1-i]))*df.Measure('dS', domain=sc.gam)

    def on(f, k, trial):
        """a scalar expression of the function in the domain"""
        if k[0] == dom:
            f = scalar(rng, f, k[1])
            if k[1] in ('CG1', 'DG1', 'vCG1') and dom == 'bg' and rng.random() < (.5 if trial else .15):
                return f.dx(rng.randrange(2))
            return f
        if dom == 'sub':
            f = xii.Restriction(f, sc.sub)
        else:
            f = xii.Trace(f, sc.gam, rng.choice(['+', '-']), sc.n)
        return scalar(rng, f, k[1])
    e = on(v, kt, False)
    if u is not None:
        # both or none on a boundary integral
        e = on(u, ku, True)*e
    if dom == 'bg' and rng.random() < .25:
        return c*e*sc.ds
    if dom == 'bg' and rng.random() < .3:
        return c*e*sc.dx['bg'](rng.choice([1, 2]))
    return c*e*sc.dx[dom]


def term(sc, rng, t, u):
    """(form, its matrix) of test space t and trial space u (0: linear)"""
    V = sc.W[t-1]
    v = df.TestFunction(V)
    w = df.TrialFunction(sc.W[u-1]) if u else None
    form = None
    for _ in range(rng.choice([1, 1, 2])):
        p = piece(sc, rng, sc.kinds[t-1], v, sc.kinds[u-1] if u else None, w)
        form = p if form is None else form + p
    return form, dict(t=t, u=u, m=matrix(form, sc.W[t-1].dim(), sc.W[u-1].dim() if u else 1))


def matrix(x, r, c):
    """Scaled entries of a form, tensor or number"""
    if isinstance(x, (int, float)):
        # zero stands for a block of any size
        return [[scaled(x)]*c for _ in range(r)]
    if not hasattr(x, 'get_local') and not hasattr(x, 'array') and not hasattr(x, 'blocks'):
        x = xii.ii_assemble(x) if hasattr(x, 'integrals') else x
    x = xii.ii_convert(x) if not hasattr(x, 'array') and not hasattr(x, 'get_local') else x
    a = x.get_local().reshape((-1, 1)) if hasattr(x, 'get_local') else x.array()
    return [[scaled(t, SCALE) for t in row] for row in a]


def failed(x):
    import traceback; traceback.print_exc()
    return '%s: %s' % (type(x).__name__, str(x)[:80])


def run(case):
    rng = random.Random(case['seed'])
    sc = Scene(rng, [POOLS[case['pool']][i] for i in case['spaces']])
    forms = {}
    ev = [dict(ev='spaces', size=[V.dim() for V in sc.W], n=3)]

    def assemble(f):
        a = forms[f]
        e = dict(ev='assemble', f=f, sp=[sc.W.index(V)+1 for V in a.V0])
        ev.append(e)
        try:
            T = xii.ii_assemble(a)
            if a.arity == 1:
                e['m'] = [[matrix(b, V.dim(), 1)] for b, V in zip(T.blocks, a.V0)]
            else:
                e['m'] = [[matrix(T.blocks[i][j], a.V0[i].dim(), a.V0[j].dim()) for j in range(len(a.V0))] for i in range(len(a.V0))]
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = failed(x)
        return e['out'] == 'ok'

    def attempt(e, f):
        ev.append(e)
        try:
            got = f()
            e['out'] = 'ok'
            return got
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    for o in case['ops']:
        k, f = o['op'], o['f']
        touched = [f]
        if k == 'new':
            W = [sc.W[s-1] for s in o['order']]
            a = attempt(dict(ev='new', f=f, sp=o['order'], ar=o['i']), lambda: xii.block_form(W, o['i']))
            if a is None:
                return ev
            forms[f] = a
        elif k == 'add':
            ts = [term(sc, rng, *t) for t in o['terms']]
            form = sum((t for t, _ in ts[1:]), ts[0][0])
            attempt(dict(ev='add', f=f, terms=[d for _, d in ts]), lambda: forms[f].add(form))
        elif k in ('set', 'inc'):
            form, d = term(sc, rng, *o['terms'][0])
            a = forms[f]

            def write():
                if k == 'set':
                    if a.arity == 1:
                        a[o['i']-1] = form
                    else:
                        a[o['i']-1][o['j']-1] = form
                else:
                    a[o['i']-1][o['j']-1] += form
            attempt(dict(ev=k, f=f, i=o['i'], j=o['j'], term=d), write)
        elif k == 'clear':
            def write():
                forms[f][o['i']-1][o['j']-1] = 0 if rng.random() < .5 else 0.
            attempt(dict(ev='clear', f=f, i=o['i'], j=o['j']), write)
        elif k == 'sum':
            a, b = forms[o['i']], forms[o['g']]
            got = attempt(dict(ev='sum', f=f, a=o['i'], b=o['g']), lambda: a + b)
            if got is not None:
                forms[f] = got
            touched = sorted({x for x in (f, o['i'], o['g']) if x in forms})
        elif k == 'permute':
            a, order = forms[o['g']], [i-1 for i in o['order']]
            # by numbers or by spaces
            how = [a.V0[i] for i in order] if o['i'] and all(i < len(a.V0) for i in order) else order if rng.random() < .7 else tuple(order)
            got = attempt(dict(ev='permute', f=f, a=o['g'], order=o['order']), lambda: BF.permute(a, how))
            if got is not None:
                forms[f] = got
            touched = sorted({x for x in (f, o['g']) if x in forms})
        elif k == 'complete':
            got = attempt(dict(ev='complete', f=f), lambda: BF.make_selfadjoint(forms[f]))
            if got is not None:
                forms[f] = got
        elif k == 'query':
            a = forms[f]
            ev.append(dict(ev='query', f=f, upper=bool(BF.is_upper_triangular(a)), lower=bool(BF.is_lower_triangular(a))))
            continue
        elif k == 'adjoint':
            a = forms[f]
            b = a[o['i']-1][o['j']-1]
            e = dict(ev='adjoint', f=f, i=o['i'], j=o['j'])
            got = attempt(e, lambda: matrix(BF.form_adjoint(b), a.V0[o['j']-1].dim(), a.V0[o['i']-1].dim()))
            if got is not None:
                e['m'] = got
            continue
        for x in touched:
            if x in forms and not assemble(x):
                return ev
    return ev
