"""C05  Assembly is the sum of its integrals with reduced arguments substituted."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
import c04
NOTE = ('Every single-term form of the model and random forms of several (merged) terms are assembled on random meshes, again after coefficients changed, and in nested blocks; '
        'values v\'Au for random piecewise linear integer fields are exact. Two dimensions, elements of degree <= 1, traces and restrictions.')
TRACE = 'FormAsmTrace'
TECHNIQUE = ('TLA+ meaning of forms as exact integrals of reduced fields (FormAsm); TLC checks laws on every single-term form and generates random forms, '
             'recorded assemblies validated by TLC')
PER_CASE = 200
ASSUMPTIONS = ['forms without any reduction are over a single mesh', 'an integrand that reduces one argument in two ways is a known finding and otherwise not generated']
SCALE = 960


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('FormAsmMC', 'SPECIFICATION Spec\nCONSTANTS Mode="one" MaxTerms=1\nINVARIANTS Commutes SplitTags SplitOn JumpLaw Linear Emit\nCHECK_DEADLOCK FALSE\n',
            workers=8, timeout=600)
    ctx.model(r, 'FormAsmMC one')
    ones = sorted(r.tagged('FORM'), key=lambda f: json.dumps(f, sort_keys=True))
    sims = []
    for n, num in ((2, ctx.pick(40, 600)), (3, ctx.pick(40, 600)), (5, ctx.pick(16, 300))):
        r = tlc('FormAsmMC', 'SPECIFICATION Spec\nCONSTANTS Mode="sim" MaxTerms=%d\nCHECK_DEADLOCK FALSE\n' % n,
                args=['-simulate', 'num=%d' % num, '-depth', '40', '-seed', str(ctx.seed + n)], timeout=600)
        ctx.model(r, 'FormAsmMC sim %d' % n)
        sims += [f for f in r.tagged('FORM') if proper(f)]
    # one of the single-term forms per (arity, reductions, domain), all in the thorough tier
    by = {}
    for f in ones:
        t = f['terms'][0]
        by.setdefault((f['arity'], t['dom'], tuple(g['r'] for g in t['fs']), tuple(len(g['tags']) for g in t['fs'])), []).append(f)
    if ctx.tier == 'quick':
        ones = [rng.choice(fs) for k, fs in sorted(by.items())]
    cases = [dict(what='single', form=f, seed=rng.randint(0, 10**6)) for f in ones]
    cases += [dict(what='sum', form=f, seed=rng.randint(0, 10**6)) for f in sims]
    lin = [f for f in sims if f['arity'] == 1]
    bil = [f for f in sims if f['arity'] == 2]
    for k in range(ctx.pick(24, 250)):
        rank = rng.choice([1, 2, 2])
        n, m = rng.randint(1, 3), 1 if rank == 1 else rng.randint(1, 3)
        pool = lin if rank == 1 else bil
        ent = [[rng.choice([0, 1, -2]) if rng.random() < .4 else cut(rng, rng.choice(pool)) for _ in range(m)] for _ in range(n)]
        if not any(isinstance(x, dict) for r in ent for x in r):
            ent[0][0] = cut(rng, rng.choice(pool))
        cases.append(dict(what='block', rank=rank, block=ent, seed=rng.randint(0, 10**6)))
    for kind in ('difference', 'integrand', 'sum'):
        cases.append(dict(what='two', kind=kind, seed=5))
    return cases


def proper(f):
    """dolfin alone does not integrate over several meshes: one of the functions has to be reduced"""
    return len({t['dom'] for t in f['terms']}) == 1 or any(f[g['w']]['m'] != t['dom'] for t in f['terms'] for g in t['fs'])


def cut(rng, f):
    """First term only of a random form"""
    return dict(f, terms=f['terms'][:1])


def key(case, fail):
    return 'two-reductions-in-one-integrand' if case['what'] == 'two' else ''


def setup():
    global df, np, xii, F
    import dolfin as df, numpy as np, xii
    import fe as F
    df.set_log_level(50)
    c04.setup()


class Scene(object):
    def __init__(self, rng):
        m = M.permuted(M.tri_grid(rng.randint(1, 3), rng.randint(1, 2), rng), rng)
        self.bg = M.mesh(m)
        cf = df.MeshFunction('size_t', self.bg, 2, 1)
        for c in range(self.bg.num_cells()):
            cf[c] = rng.choice([1, 2])
        cf[0] = 1
        self.cf = cf
        fs = [f for f in M.entities(m, 1) if any(m['x'][f[0]][i] == m['x'][f[1]][i] for i in range(2))]
        rng.shuffle(fs)
        fs = fs[:rng.randint(3, 6)]
        tags = [1, 2, 3] + [rng.randint(1, 2) for _ in fs[3:]]
        self.gam = c04.embedded(rng, m, fs, tags, 1, self.bg)
        self.sub = xii.SubDomainMesh(cf, 1)
        self.n, self.ns = c04.set_normal(rng, self.gam)
        self.mesh = dict(bg=self.bg, gam=self.gam, sub=self.sub)
        self.dx = dict(bg=df.Measure('dx', domain=self.bg, subdomain_data=cf), sub=df.Measure('dx', domain=self.sub),
                       gam=df.Measure('dx', domain=self.gam, subdomain_data=self.gam.marking_function))
        self.spaces = {}

    def space(self, f):
        k = f['m'], f['el']
        if k not in self.spaces:
            self.spaces[k] = F.space(self.mesh[f['m']], f['el'])
        return self.spaces[k]

    def event(self, coef):
        return dict(ev='scene', bg=dict(mark=M.vals(self.cf), **M.snapshot(self.bg)),
                    em=dict(mark=M.vals(self.gam.marking_function), **M.snapshot(self.gam)),
                    sub=dict(mark=[1], **M.snapshot(self.sub)), normal=self.ns, coef=coef)


def random_data(rng, msh, el):
    """Integer vertex values per cell of a random field"""
    nc = 2 if el[0] == 'v' else 1
    base = el.lstrip('v')
    r = lambda: [rng.randint(-3, 3) for _ in range(nc)]
    cells = msh.cells()
    if base == 'CG1':
        at = [r() for _ in range(msh.num_vertices())]
        return [[at[v] for v in c] for c in cells]
    if base == 'DG0':
        return [[v]*len(c) for v, c in ((r(), c) for c in cells)]
    return [[r() for _ in c] for c in cells]


def vector_of(V, data):
    """Coefficients of the field in V"""
    msh = V.mesh()
    X, cells = msh.coordinates(), msh.cells()
    v = np.zeros(V.dim())
    for c, es in enumerate(F.cell_entries(V)):
        for d, x, i in es:
            k = int(np.argmin([np.linalg.norm(X[w] - x) for w in cells[c]]))
            v[d] = data[c][k][i-1]
    return v


def fill(f, vec):
    f.vector().set_local(vec)
    f.vector().apply('insert')


class Build(object):
    """UFL forms of the descriptions"""
    def __init__(self, sc, rng, fields):
        """fields: who -> kind; v and u are arguments"""
        self.sc, self.rng, self.fields = sc, rng, fields
        self.who = {}
        for w, f in fields.items():
            V = sc.space(f)
            self.who[w] = df.TestFunction(V) if w == 'v' else df.TrialFunction(V) if w == 'u' else df.Function(V)
        self.cache = {}

    def reduced(self, f, dom):
        fld = self.fields[f['w']]
        if fld['m'] == dom:
            return self.who[f['w']]
        k = f['w'], dom, f['r'], tuple(f['tags'])
        if k not in self.cache:
            x = self.who[f['w']]
            if dom == 'sub':
                y = xii.Restriction(x, self.sc.sub)
            else:
                kw = dict(tag=set(f['tags'])) if f['tags'] else {}
                if f['r']:
                    kw.update(restriction=f['r'], normal=self.sc.n)
                y = xii.Trace(x, self.sc.gam, **kw)
            self.cache[k] = y
        return self.cache[k]

    def integrand(self, t):
        fs = []
        for f in t['fs']:
            r = self.reduced(f, t['dom'])
            if self.fields[f['w']]['el'][0] == 'v' and not (t['pair'] and f['w'] in 'vu'):
                r = r[f['comp'] - 1]
            fs.append(r)
        if t['pair']:
            out = df.inner(fs[1], fs[0])
            fs = fs[2:]
        else:
            self.rng.shuffle(fs)
            out = fs.pop()
        for f in fs:
            out = f*out if self.rng.random() < .5 else out*f
        c = t['c']
        if c == 1:
            return out
        if c == -1:
            return -out
        r = self.rng.random()
        if r < .3:
            return df.Expression('c', c=c, degree=0)*out
        return df.Constant(c)*out if r < .8 else c*out

    def form(self, terms):
        parts = []
        for t in terms:
            e = self.integrand(t)
            if t['merge']:
                parts[-1][0] = parts[-1][0] + e if self.rng.random() < .5 else e + parts[-1][0]
            else:
                parts.append([e, self.sc.dx[t['dom']](t['on']) if t['on'] else self.sc.dx[t['dom']]])
        form = None
        for e, m in parts:
            form = e*m if form is None else form + e*m
        return form


def evaluate(sc, rng, fields, arity, T, n=2):
    """Values of the tensor at random fields"""
    evals = []
    if arity == 0:
        return [dict(args={'none': 0}, val=scaled(T, SCALE))]
    T = T if isinstance(T, (df.cpp.la.GenericMatrix, df.cpp.la.GenericVector)) else xii.ii_convert(T)
    A = T.array() if arity == 2 else T.get_local()
    for _ in range(n):
        args, vec = {}, {}
        for w in ['v', 'u'][:arity]:
            f = fields[w]
            data = random_data(rng, sc.mesh[f['m']], f['el'])
            args[w] = dict(m=f['m'], data=data)
            vec[w] = vector_of(sc.space(f), data)
        val = vec['v'].dot(A.dot(vec['u'])) if arity == 2 else vec['v'].dot(A)
        evals.append(dict(args=args, val=scaled(val, SCALE)))
    return evals


def failed(x):
    import traceback; traceback.print_exc()
    return '%s: %s' % (type(x).__name__, str(x)[:80])


def change(rng, sc, B, w):
    """New values of the coefficient"""
    f, kind = B.who[w], B.fields[w]
    msh = sc.mesh[kind['m']]
    if isinstance(f, df.Expression):
        f.a, f.b, f.c = [rng.randint(-2, 2) for _ in range(3)]
        at = [[int(round(f.a + f.b*x[0] + f.c*x[1]))] for x in msh.coordinates()]
        return [[at[v] for v in c] for c in msh.cells()]
    data = random_data(rng, msh, kind['el'])
    fill(f, vector_of(sc.space(kind), data))
    return data


def run(case):
    rng = random.Random(case['seed'])
    sc = Scene(rng)
    if case['what'] == 'block':
        return run_block(case, rng, sc)
    if case['what'] == 'two':
        return run_two(case, rng, sc)
    fm = case['form']
    fields = {w: fm[w] for w in ['v', 'u'][:fm['arity']] + ['c1', 'c2']}
    B = Build(sc, rng, fields)
    coef = {}
    used = sorted({f['w'] for t in fm['terms'] for f in t['fs'] if f['w'][0] == 'c'})
    for w in ('c1', 'c2'):
        if w in used and fields[w]['el'] == 'CG1' and all(t['dom'] == fields[w]['m'] for t in fm['terms'] for f in t['fs'] if f['w'] == w) and rng.random() < .6:
            # What is not reduced can also be given by an expression
            B.who[w] = df.Expression('a+b*x[0]+c*x[1]', a=0, b=0, c=0, degree=1)
        coef[w] = dict(m=fields[w]['m'], data=change(rng, sc, B, w))
    ev = [sc.event(coef)]
    form = B.form(fm['terms'])
    for again in range(2 if used else 1):
        if again:
            w = rng.choice(used)
            ev.append(dict(ev='set', w=w, data=change(rng, sc, B, w)))
        e = dict(ev='form', terms=fm['terms'])
        ev.append(e)
        try:
            e['evals'] = evaluate(sc, rng, fields, fm['arity'], xii.ii_assemble(form))
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = failed(x)
    return ev


def run_block(case, rng, sc):
    rank, ent = case['rank'], case['block']
    coef = dict(c1=dict(m='bg', el='CG1'), c2=dict(m='gam', el='DG0'))
    fun = {}
    for w in coef:
        coef[w]['data'] = random_data(rng, sc.mesh[coef[w]['m']], coef[w]['el'])
        fun[w] = df.Function(sc.space(coef[w]))
        fill(fun[w], vector_of(sc.space(coef[w]), coef[w]['data']))
    ev = [sc.event(coef)]
    forms, want, flds = [], [], []
    for row in ent:
        forms.append([]); want.append([]); flds.append([])
        for x in row:
            if isinstance(x, dict):
                # coefficients are shared by the whole block
                t = x['terms'][0]
                t = dict(t, merge=False, fs=[f for f in t['fs'] if f['w'] in ('v', 'u')])
                if t['dom'] == 'gam':
                    t['fs'] = t['fs'] + [dict(w='c2', r='', tags=[], comp=1)]
                fields = {w: x[w] for w in ['v', 'u'][:x['arity']]}
                B = Build(sc, rng, dict(fields, **{w: dict(m=coef[w]['m'], el=coef[w]['el']) for w in coef}))
                B.who.update(fun)
                forms[-1].append(B.form([t]))
                want[-1].append(dict(kind='form', terms=[t]))
                flds[-1].append(fields)
            else:
                forms[-1].append(x)
                want[-1].append(dict(kind='number', val=x))
                flds[-1].append(None)
    e = dict(ev='block', rank=rank, want=want)
    ev.append(e)
    try:
        out = xii.ii_assemble([r[0] for r in forms] if rank == 1 else forms)
        e['type'] = type(out).__name__
        grid = [[b] for b in out.blocks] if rank == 1 else [list(r) for r in out.blocks]
        e['got'] = [[dict(kind='number', val=scaled(b)) if isinstance(b, (int, float)) else
                     dict(kind='tensor', evals=evaluate(sc, rng, flds[i][j], rank, b)) if flds[i][j] else dict(kind='other')
                     for j, b in enumerate(r)] for i, r in enumerate(grid)]
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = failed(x)
    return ev


def run_two(case, rng, sc):
    """The argument meets both of its one-sided traces in one integrand"""
    fields = dict(v=dict(m='gam', el='DG0'), u=dict(m='bg', el='DG1'))
    ev = [sc.event(dict(c1=dict(m='bg', data=[[[0]]]), c2=dict(m='bg', data=[[[0]]])))]
    v, u = df.TestFunction(sc.space(fields['v'])), df.TrialFunction(sc.space(fields['u']))
    p, m = [xii.Trace(u, sc.gam, r, sc.n) for r in '+-']
    dx = sc.dx['gam']
    form = {'difference': df.inner(p - m, v)*dx, 'integrand': (df.inner(p, v) - df.inner(m, v))*dx, 'sum': df.inner(p + m, v)*dx}[case['kind']]
    t = lambda c, r: dict(dom='gam', on=0, c=c, pair=False, merge=False, fs=[dict(w='v', r='', tags=[], comp=1), dict(w='u', r=r, tags=[], comp=1)])
    e = dict(ev='form', terms=[t(1, '+'), t(1 if case['kind'] == 'sum' else -1, '-')])
    ev.append(e)
    try:
        e['evals'] = evaluate(sc, rng, fields, 2, xii.ii_assemble(form))
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = failed(x)
    return ev
