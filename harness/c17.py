"""C17  Derivatives of forms with reduced unknowns are the derivatives of the assembled values."""
import random
from core import tlc, scaled
import meshes as M
import c04, c05
NOTE = ('Systems of two forms with powers of two unknowns on the bulk, a sub-mesh or an interface (traces, restrictions, markers, merged integrands), before and after the '
        'unknowns change; for the other reductions the derivative is compared with the exact five-point difference of the assembled form.')
TRACE = 'JacobianTrace'
TECHNIQUE = ('TLA+ product rule on the exact meaning of forms (Jacobian); TLC checks it against exact differences and generates random systems of forms, '
             'recorded block Jacobians and difference quotients validated by TLC')
PER_CASE = 200
SCALE = 5760
KINDS = ['injection', 'average', 'line', 'transpose', 'mean', 'surfmean', 'point', 'gradpoint', 'trace', 'restriction']


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('JacobianMC', 'SPECIFICATION Spec\nCONSTANTS Mode="laws" MaxTerms=1\nINVARIANTS Exact LinearDir ZeroIff Mixed\nCHECK_DEADLOCK FALSE\n', workers=8, timeout=600)
    ctx.model(r, 'JacobianMC laws')
    sys_ = []
    for n, num in ((1, ctx.pick(30, 400)), (2, ctx.pick(40, 500)), (3, ctx.pick(16, 300))):
        r = tlc('JacobianMC', 'SPECIFICATION Spec\nCONSTANTS Mode="sim" MaxTerms=%d\nCHECK_DEADLOCK FALSE\n' % n,
                args=['-simulate', 'num=%d' % num, '-depth', '40', '-seed', str(ctx.seed + n)], timeout=600)
        ctx.model(r, 'JacobianMC sim %d' % n)
        sys_ += [s for s in r.tagged('SYS')]
    cases = []
    for s in sys_:
        s = dict(s, rows=[proper(s, i) for i in range(2)])
        cases.append(dict(what='jac', sys=s, how=rng.choice(['block', 'single']), seed=rng.randint(0, 10**6)))
    for k in KINDS:
        for _ in range(ctx.pick(5, 40)):
            cases.append(dict(what='diff', kind=k, seed=rng.randint(0, 10**6)))
    return cases


def proper(s, i):
    """A term is on one mesh, or some function of it is reduced; else dropped (a row keeps a term over the domain of its unknown)"""
    kind = dict(v=s['kinds'][i], c1=s['kinds'][0], c2=s['kinds'][1])
    rows = s['rows'][i]
    if len({t['dom'] for t in rows}) == 1:
        return rows
    return [t for t in rows if kind['v']['m'] != t['dom']] or rows[:1]


def key(case, fail):
    return ''


def setup():
    global df, np, xii, F, jacobian, ufl
    import ufl_legacy as ufl
    c05.setup()
    import dolfin as df, numpy as np, xii
    import fe as F
    import importlib
    jacobian = importlib.import_module('xii.nonlin.jacobian')


def small(rng, msh, el):
    data = c05.random_data(rng, msh, el)
    return [[[(x > 0) - (x < 0) for x in k] for k in c] for c in data]


def evaluate(sc, rng, fv, fu, T):
    if isinstance(T, (int, float)):
        return dict(kind='zero' if T == 0 else 'number')
    if not isinstance(T, (df.cpp.la.GenericMatrix, df.cpp.la.GenericVector)):
        T = xii.ii_convert(T)
    A = T.array()
    evals = []
    for _ in range(2):
        args, vec = {}, {}
        for w, f in (('v', fv), ('u', fu)):
            data = small(rng, sc.mesh[f['m']], f['el'])
            args[w] = dict(m=f['m'], data=data)
            vec[w] = c05.vector_of(sc.space(f), data)
        evals.append(dict(args=args, val=scaled(vec['v'].dot(A.dot(vec['u'])), SCALE)))
    return dict(kind='tensor', evals=evals)


def run(case):
    rng = random.Random(case['seed'])
    if case['what'] == 'diff':
        return run_diff(case, rng)
    sc = c05.Scene(rng)
    s = case['sys']
    kinds = dict(c1=s['kinds'][0], c2=s['kinds'][1])
    fun, coef = {}, {}
    for w, k in kinds.items():
        coef[w] = dict(m=k['m'], data=small(rng, sc.mesh[k['m']], k['el']))
        fun[w] = df.Function(sc.space(k))
        c05.fill(fun[w], c05.vector_of(sc.space(k), coef[w]['data']))
    ev = [sc.event(coef)]
    forms = []
    for i in range(2):
        B = c05.Build(sc, rng, dict(v=s['kinds'][i], **kinds))
        B.who.update(fun)
        forms.append(B.form(s['rows'][i]))
    xs = [fun['c1'], fun['c2']]
    try:
        J = jacobian.block_jacobian(forms, xs) if case['how'] == 'block' else [[jacobian.ii_derivative(f, x) for x in xs] for f in forms]
        err = None
    except Exception as x:
        J, err = None, c05.failed(x)
    for again in range(2):
        if again:
            w = rng.choice(['c1', 'c2'])
            data = small(rng, sc.mesh[kinds[w]['m']], kinds[w]['el'])
            c05.fill(fun[w], c05.vector_of(sc.space(kinds[w]), data))
            ev.append(dict(ev='set', w=w, data=data))
        e = dict(ev='jac', rows=s['rows'])
        ev.append(e)
        if err:
            e['out'] = err
            continue
        try:
            if case['how'] == 'block' and any(not isinstance(x, int) for r in J for x in r):
                got = [list(r) for r in xii.ii_assemble(J).blocks]
                got = [[0 if J[i][j] == 0 and isinstance(J[i][j], int) else x for j, x in enumerate(r)] for i, r in enumerate(got)]
            else:
                got = [[x if isinstance(x, int) else xii.ii_assemble(x) for x in r] for r in J]
            e['got'] = [[evaluate(sc, rng, s['kinds'][i], s['kinds'][j], T) for j, T in enumerate(r)] for i, r in enumerate(got)]
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = c05.failed(x)
    return ev


def problem(kind, rng):
    """-> unknown f, list of forms which use it"""
    two = lambda: M.mesh(M.permuted(M.tri_grid(rng.randint(1, 3), rng.randint(1, 2), rng), rng))
    deg = rng.choice([1, 2])
    if kind in ('injection', 'restriction', 'mean', 'point', 'gradpoint', 'trace', 'surfmean', 'transpose'):
        bg = two()
    if kind == 'injection':
        dst = df.refine(bg) if rng.random() < .5 else two()
        V = df.FunctionSpace(bg, 'CG', deg)
        f = df.Function(V)
        T = xii.Injection(f, dst)
        q, dx = df.TestFunction(df.FunctionSpace(dst, 'DG', 0)), df.Measure('dx', domain=dst)
        return f, [T*T*q*dx, T*q*dx + T**3*q*dx]
    if kind == 'restriction':
        cf = df.MeshFunction('size_t', bg, 2, 1)
        cf[0] = 2
        sub = xii.SubDomainMesh(cf, 1)
        V = df.FunctionSpace(bg, 'DG', 1)
        f = df.Function(V)
        T, v = xii.Restriction(f, sub), xii.Restriction(df.TestFunction(V), sub)
        dx = df.Measure('dx', domain=sub)
        return f, [T*T*v*dx, T**3*v*dx + f*f*df.TestFunction(V)*df.dx(domain=bg)]
    if kind in ('trace', 'surfmean', 'transpose'):
        g = df.MeshFunction('size_t', bg, 1, 0)
        df.DomainBoundary().mark(g, 1)
        gam = xii.EmbeddedMesh(g, 1)
        dx = df.Measure('dx', domain=gam)
        V, Q = df.FunctionSpace(bg, 'CG', deg), df.FunctionSpace(gam, 'CG', 1)
        if kind == 'trace':
            f = df.Function(V)
            T, v = xii.Trace(f, gam), xii.Trace(df.TestFunction(V), gam)
            return f, [T**2*v*dx, (1 + T)**3*df.TestFunction(Q)*dx, df.inner(df.grad(f), df.grad(f))*df.TestFunction(V)*df.dx(domain=bg) + T**2*v*dx]
        if kind == 'surfmean':
            f, q = df.Function(V), df.TestFunction(Q)
            T = xii.SurfaceMean(f, gam)
            return f, [T*T*q*dx, T**3*q*dx]
        f = df.Function(Q)
        T = xii.TransposeTrace(f, gam)
        q = df.TestFunction(V)
        return f, [T*T*q*df.dx(domain=bg), (T + T**3)*q*df.dx(domain=bg), f*f*df.TestFunction(Q)*dx]
    if kind == 'mean':
        V = df.FunctionSpace(bg, 'CG', deg)
        f, q = df.Function(V), df.TestFunction(V)
        T = xii.Mean(f)
        return f, [T*T*q*df.dx(domain=bg), T*f*q*df.dx(domain=bg), f*f*q*df.dx(domain=bg) + T**3*q*df.dx(domain=bg)]
    if kind in ('point', 'gradpoint'):
        if kind == 'gradpoint' or rng.random() < .5:
            bg = M.mesh(M.permuted(M.sheared(M.chain(rng.randint(2, 4), 2), rng), rng))
        V = df.FunctionSpace(bg, 'DG' if bg.topology().dim() == 1 else 'CG', deg)
        c = rng.randrange(bg.num_cells())
        p = int(rng.choice(list(bg.cells()[c])))
        f, q = df.Function(V), df.TestFunction(V)
        T = xii.PointTrace(f, p, c) if kind == 'point' else xii.GradientPointTrace(f, p, c, df.Constant((1, 2)))
        return f, [T*T*q*df.dx(domain=bg), T**3*q*df.dx(domain=bg), T*f*q*df.dx(domain=bg)]
    if kind in ('average', 'line'):
        bg = df.UnitCubeMesh(2, 2, 2)
        e = df.MeshFunction('size_t', bg, 1, 0)
        df.CompiledSubDomain('near(x[0], 0.5) && near(x[1], 0.5)').mark(e, 1)
        line = xii.EmbeddedMesh(e, 1)
        V = df.FunctionSpace(bg, 'CG', 1)
        f, q = df.Function(V), df.TestFunction(df.FunctionSpace(line, 'CG', 1))
        T = xii.Average(f, line, xii.Circle(radius=lambda x: .2, degree=4) if kind == 'average' else None)
        dx = df.Measure('dx', domain=line)
        return f, [T*T*q*dx, (T + T**3)*q*dx]


def run_diff(case, rng):
    f, forms = problem(case['kind'], rng)
    L = rng.choice(forms)
    if rng.random() < .4:
        # quadrature which need not be exact
        meta = {'quadrature_degree': rng.choice([1, 2, 3])}
        L = ufl.Form([i.reconstruct(metadata=meta) for i in L.integrals()])
    n = f.vector().local_size()
    x0 = np.array([rng.randint(-2, 2) for _ in range(n)], float)
    h = np.array([rng.randint(-1, 1) for _ in range(n)], float)
    e = dict(ev='diff')
    vec = lambda b: (b if isinstance(b, df.cpp.la.GenericVector) else xii.ii_convert(b)).get_local()
    try:
        dL = jacobian.ii_derivative(L, f)
        probes = []
        Fs = []
        for k in range(-2, 3):
            c05.fill(f, x0 + k*h)
            Fs.append(vec(xii.ii_assemble(L)).copy())
        c05.fill(f, x0)
        if isinstance(dL, int):
            D = 0*Fs[0] + dL
        else:
            D = xii.ii_convert(xii.ii_assemble(dL)).array().dot(h)
        big = max(1E-9, max(abs(t).max() for t in Fs + [D]))
        S = 1E7/big
        for i in range(len(D)):
            probes.append(dict(D=int(round(S*D[i])), F=[int(round(S*t[i])) for t in Fs]))
        e['probes'] = rng.sample(probes, min(12, len(probes)))
        e['moving'] = bool(max(abs(Fs[0] - Fs[4]).max(), abs(D).max()) > 1E-9)
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = c05.failed(x)
    return [dict(ev='scene', bg=dict(mark=[1], x=[[0, 0]], cells=[[1]]), em=dict(mark=[1], x=[[0, 0]], cells=[[1]]), sub=dict(mark=[1], x=[[0, 0]], cells=[[1]]),
                 normal=[], coef=dict(c1=dict(m='bg', data=[[[0]]]), c2=dict(m='bg', data=[[[0]]]))), e]
