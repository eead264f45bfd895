"""C01  Assembling a coupled form never depends on what was assembled before."""
import importlib, os, pickle, random
from core import tlc, BAD
import meshes as M
NOTE = ('Histories in which a forgetful memory would be caught are replayed with every reduction operator: requests that differ in one parameter, data changed in place, '
        'results scaled or constrained in place; each answer is compared with that of a process where the request is the first one on freshly built meshes.')
TRACE = 'CacheTrace'
TECHNIQUE = ('TLA+ model of memories for operators (Cache); TLC enumerates the histories that tell a memory with an incomplete key or shared answers from none, '
             'they are replayed on the assembler and the recorded answers validated by TLC')
PER_CASE = 60
ASSUMPTIONS = ['coordinates of meshes and callables that give shapes are not changed in place', 'answers are compared up to 2e-6 relative to their largest entry']
# family -> elements of the space to be reduced
FAMILIES = dict(trace=['DG1', 'vDG1', 'CG1', 'DG0', 'RT1', 'vCG1'], restriction=['CG1', 'DG1', 'vCG1', 'RT1'], point=['CG1', 'CG2', 'vCG1', 'DG1'], slope=['DG1', 'DG2', 'DG3'],
                mean=['CG1', 'DG0', 'DG1'], surface=['CG1', 'CG2'], lift=['CG1', 'CG2', 'vCG1'], injection=['CG1', 'DG1', 'vCG1', 'RT1'],
                average=['CG1', 'DG1', 'vCG1'], edges=['CG1', 'vCG1'], flux=['vCG1', 'RT1'], patch=['CG1', 'DG0', 'DG1'], interp=['CG1', 'DG1', 'vCG1'], mixed=['CG1', 'DG1'], product=['DG1', 'CG1'])


def plan(ctx):
    rng = random.Random(ctx.seed)
    hist = []
    for n, ops in ctx.pick([((3, 2), 5)], [((3, 2), 5), ((3, 2), 6)]):
        r = tlc('CacheMC', 'SPECIFICATION Spec\nCONSTANTS NReq=%d NData=%d MaxOps=%d\nINVARIANTS Transparent NeedsTwo NeedsChange NeedsDamage Emit\nCHECK_DEADLOCK FALSE\n'
                % (n + (ops,)), workers=8, timeout=600)
        ctx.model(r, 'CacheMC up to %d steps' % ops)
        hist += r.tagged('HIST')
    hist.sort(key=str)
    by = {p: [h['h'] for h in hist if h['pol'] == p] for p in ('noreq', 'nodata', 'shared')}
    cases = []
    for fam in sorted(FAMILIES):
        for elem in FAMILIES[fam]:
            for _ in range(ctx.pick(6 if fam in ('trace', 'mean', 'patch') else 4, 40)):
                hs = [rng.choice(by['noreq']) for _ in range(2)] + [rng.choice(by['nodata']), rng.choice(by['shared'])]
                rng.shuffle(hs)
                cases.append(dict(what=fam, elem=elem, h=[s for h in hs for s in h], how=rng.choice(['matrix', 'vector', 'transpose']), seed=rng.randint(0, 10**6)))
    return cases


def group(c):
    return c['what'], c['elem']


def setup():
    global df, np, xii, F, C4, shapes
    import dolfin as df, numpy as np, xii
    import fe as F, c04 as C4
    import xii.assembler.average_shape as shapes
    C4.setup()


def form(op, V, T, how, f, dom):
    """Request for the reduction of a function, of trial or of test functions"""
    u, v, p, q = df.TrialFunction(V), df.TestFunction(V), df.TrialFunction(T), df.TestFunction(T)
    dx_ = df.Measure('dx', domain=dom)
    if how == 'matrix':
        return df.inner(op(u), q)*dx_
    if how == 'transpose':
        return df.inner(op(v), p)*dx_
    return df.inner(op(f), q)*dx_


def fill(rng, f):
    # every unknown gets another value
    n = f.vector().size()
    f.vector().set_local(np.array([rng.choice([-1, 1])*rng.randint(1, 99) for _ in range(n)], dtype=float))
    f.vector().apply('insert')


class World(object):
    """Meshes and spaces of one family; asks gives the requests, change moves the data between versions"""
    def __init__(self, case):
        self.rng = random.Random(case['seed'])
        self.elem, self.how = case['elem'], case['how']
        self.d = 1
        self.functions = {}
        self.spaces = {}
        self.changes = {}
        getattr(self, case['what'])()

    def space(self, msh, el):
        k = msh.id(), el
        if k not in self.spaces:
            self.spaces[k] = F.space(msh, el)
        return self.spaces[k]

    def function(self, V):
        k = V.mesh().id(), str(V.ufl_element())
        if k not in self.functions:
            self.functions[k] = df.Function(V)
            fill(random.Random(len(k[1]) + V.dim()), self.functions[k])
        return self.functions[k]

    def change(self, d):
        if d != self.d:
            self.changes[self.changed]()
            self.d = d

    def request(self, op, V, T, dom):
        return lambda: xii.ii_assemble(form(op, V, T, self.how, self.function(V), dom))

    # ------------------------------------------------------------- families
    def trace(self, squared=False):
        rng, elem = self.rng, self.elem
        dims = rng.choice([2, 2, 3])
        m, fs, tags = C4.scene(rng, dims, 5)
        bg = M.mesh(m)
        bg2 = M.mesh(M.permuted(m, rng))
        em = C4.embedded(rng, m, fs, tags, dims-1, bg)
        other = [f for f in M.entities(m, dims-1) if f not in fs][:len(fs)]
        other += fs[:len(fs) - len(other)]
        em2 = M.mesh(M.subset(dict(m, td=dims-1), other))
        em2.marking_function = df.MeshFunction('size_t', em2, dims-1, 1)
        em2.marking_function.array()[:] = em.marking_function.array()
        n1, n2 = C4.set_normal(rng, em)[0], C4.set_normal(rng, em)[0]
        k = rng.random()
        flip = np.array([rng.choice([-1., 1.]) for _ in range(em.num_cells())]).repeat(dims) if k < .7 else -1.
        N = n2.function_space()
        w = n1.vector().get_local()
        z = w.copy()
        for c in range(em.num_cells()):
            s = -1. if k >= .7 or c == 0 else rng.choice([-1., 1.])
            z[N.dofmap().cell_dofs(c)] *= s
        n2.vector().set_local(z)
        n2.vector().apply('insert')
        em2n = C4.set_normal(rng, em2)[0]
        restrs = ['+', '-', 'avg', 'jump'] if elem != 'CG1' and elem != 'vCG1' else ['', '+', '-']
        r0 = rng.choice(restrs)
        base = dict(bg=bg, em=em, r=r0, n=n1, tag=rng.choice([None, None, {1}, {2}, {1, 2}]), el=elem)
        base['tag'] = base['tag'] and frozenset(base['tag'])
        tv = C4.TV

        def op(kw):
            def tr(t):
                a = dict(restriction=kw['r'], normal=kw['n']) if kw['r'] else {}
                if kw['tag']:
                    a['tag'] = set(kw['tag'])
                return xii.Trace(t, kw['em'], **a)
            V, T = self.space(kw['bg'], kw['el']), self.space(kw['em'], tv[kw['el']])
            return self.request(tr, V, T, kw['em'])
        var = {}
        rest = [r for r in restrs if r != r0]
        var['side'] = dict(base, r=rng.choice(rest))
        if base['r']:
            var['normal'] = dict(base, n=n2)
        var['tag'] = dict(base, tag=frozenset(rng.choice([t for t in ({1}, {2}, {1, 2}, {3}) if t != base['tag']])))
        var['bg'] = dict(base, bg=bg2)
        var['em'] = dict(base, em=em2, n=em2n)
        alt = {'DG1': 'DG2', 'vDG1': 'vDG0', 'CG1': 'CG2', 'DG0': 'DG1', 'RT1': 'BDM1', 'vCG1': 'vCG2'}[elem]
        var['el'] = dict(base, el=alt)
        self.base, self.variants = op(base), {k: op(v) for k, v in var.items()}

        def negate():
            n1.vector().set_local(-n1.vector().get_local())
            n1.vector().apply('insert')
            n2.vector().set_local(-n2.vector().get_local())
            n2.vector().apply('insert')
        kept = em.marking_function.array().copy()
        swap = np.array([0, 2, 1, 3])[kept]

        def marks():
            a = em.marking_function.array()
            a[:] = swap if (a == kept).all() else kept
        self.changes = dict(normal=negate, marks=marks)

        def unknowns():
            for f in self.functions.values():
                f.vector().set_local(f.vector().get_local()[::-1].copy() if self.how == 'vector' else f.vector().get_local())
        self.changed = rng.choice(['normal', 'marks'] if base['r'] else ['marks'])

    def restriction(self):
        rng, elem = self.rng, self.elem
        dims = rng.choice([2, 2, 3])
        m = M.permuted(M.tri_grid(2, 2, rng), rng) if dims == 2 else M.permuted(M.tet_grid(1, 1, 1), rng)
        src = M.mesh(m)
        c = df.MeshFunction('size_t', src, dims, 0)
        vals = [1 + i % 3 for i in range(src.num_cells())]
        rng.shuffle(vals)
        c.array()[:] = vals
        s1, s2, s3 = xii.SubDomainMesh(c, 1), xii.SubDomainMesh(c, 2), xii.SubDomainMesh(c, (1, 2, 3))
        mk = lambda s, dst, el: self.request(lambda t: xii.Restriction(t, dst), self.space(s, el), self.space(dst, {'RT1': 'vDG1'}.get(el, el)), dst)
        alt = {'CG1': 'CG2', 'DG1': 'DG0', 'vCG1': 'vDG1', 'RT1': 'N1'}[elem]
        self.base = mk(src, s1, elem)
        self.variants = dict(to=mk(src, s2, elem), all=mk(src, s3, elem), el=mk(src, s1, alt))

        def cells():
            c.array()[:] = c.array()[::-1].copy()
        self.changes, self.changed = dict(cells=cells), 'cells'

    def read_from(self, msh, V, op, q='DG0'):
        nc = V.ufl_element().value_shape()
        R = df.FunctionSpace(msh, df.FiniteElement('Real', msh.ufl_cell(), 0) if nc == () else df.VectorElement('Real', msh.ufl_cell(), 0, nc[0]))
        return self.request(op, V, R, msh)

    def point(self):
        rng, elem = self.rng, self.elem
        dims = 1 if elem == 'DG1' else rng.choice([1, 2, 3]) if elem[0] != 'v' else rng.choice([2, 3])
        mk_ = lambda: M.mesh(M.permuted({1: M.chain(4), 2: M.tri_grid(2, 2, rng), 3: M.tet_grid(1, 1, 1)}[dims], rng))
        m1, m2 = mk_(), mk_()
        inc = [(int(v), c) for c in range(m1.num_cells()) for v in m1.cells()[c]]
        v, c = rng.choice(inc)
        mk = lambda msh, el, v, c: self.read_from(msh, self.space(msh, el), lambda t: xii.PointTrace(t, v, c))
        alt = {'CG1': 'CG2', 'CG2': 'CG1', 'vCG1': 'vCG2', 'DG1': 'DG2'}[elem]
        self.base = mk(m1, elem, v, c)
        self.variants = dict(point=mk(m1, elem, *rng.choice([i for i in inc if i[0] != v])), mesh=mk(m2, elem, int(m2.cells()[c][0]), c), el=mk(m1, alt, v, c))
        near = [i for i in inc if i[0] == v and i[1] != c]
        if near and elem == 'DG1':
            self.variants['cell'] = mk(m1, elem, *rng.choice(near))
        same = [i for i in inc if i[1] == c and i[0] != v]
        self.variants['vertex'] = mk(m1, elem, *rng.choice(same))
        self.field()

    def field(self):
        def again():
            for k in sorted(self.functions, key=lambda k: k[1]):
                f = self.functions[k]
                f.vector().set_local(-2*f.vector().get_local() if self.d == 1 else -f.vector().get_local()/2)
                f.vector().apply('insert')
        # functions that come into being later are scaled when made
        made = self.function

        def function(V):
            new = (V.mesh().id(), str(V.ufl_element())) not in self.functions
            f = made(V)
            if new and self.d == 2:
                f.vector()[:] *= -2
            return f
        self.function = function
        self.changes['field'] = again
        self.changed = 'field'

    def slope(self):
        rng, elem = self.rng, self.elem
        gd = rng.choice([2, 3])
        mk_ = lambda: M.mesh(M.permuted(M.sheared(dict(M.chain(4, gd), x=[[2*i, i % 2] + [i // 2]*(gd-2) for i in range(5)]), rng), rng))
        m1, m2 = mk_(), mk_()
        inc = [(int(v), c) for c in range(m1.num_cells()) for v in m1.cells()[c]]
        v, c = rng.choice(inc)
        t1 = [1, 2, 3][:gd]
        t2 = [2, -1, 1][:gd]
        C = df.Constant(t1)
        mk = lambda msh, el, v, c, t: self.read_from(msh, self.space(msh, el), lambda w: xii.GradientPointTrace(w, v, c, t))
        alt = {'DG1': 'DG2', 'DG2': 'DG1', 'DG3': 'DG2'}[elem]
        self.base = mk(m1, elem, v, c, C)
        self.variants = dict(point=mk(m1, elem, *rng.choice([i for i in inc if i[0] != v]), C), mesh=mk(m2, elem, int(m2.cells()[c][0]), c, C), el=mk(m1, alt, v, c, C),
                             tangent=mk(m1, elem, v, c, rng.choice([df.Constant(t2), np.array(t2, dtype=float)])),
                             vertex=mk(m1, elem, *rng.choice([i for i in inc if i[1] == c and i[0] != v]), C))
        near = [i for i in inc if i[0] == v and i[1] != c]
        if near:
            self.variants['cell'] = mk(m1, elem, *rng.choice(near), C)
        self.changes['tangent'] = lambda: C.assign(df.Constant(t2 if self.d == 1 else t1))
        self.changed = 'tangent'

    def mean(self):
        rng, elem = self.rng, self.elem
        d = rng.choice([1, 2])
        mk_ = lambda: M.mesh(M.permuted({1: M.chain(4), 2: M.tri_grid(2, 1, rng)}[d], rng))
        m1, m2 = mk_(), mk_()
        n = m1.num_cells()

        def mark(msh):
            f = df.MeshFunction('size_t', msh, d, 0)
            f.array()[:] = [1 + i % 2 for i in range(n)]
            return f
        cf = mark(m1)
        dx_ = df.Measure('dx', domain=m1, subdomain_data=cf)
        cf2 = mark(m1)
        cf2.array()[0] = 3 - cf2.array()[0]
        k1, k2 = df.Constant(2), df.Constant(5)
        w1 = df.Function(self.space(m1, 'DG0'))
        fill(rng, w1)
        w2 = df.Function(self.space(m1, 'DG0'))
        fill(rng, w2)
        e1 = df.Expression('1+a*x[0]', a=2, degree=1)
        mk = lambda msh, el, **kw: self.request(lambda t: xii.Mean(t, **kw), self.space(msh, el), self.space(msh, 'DG0'), msh)
        kind = rng.choice(['constant', 'field', 'marks', 'marks', 'expression', 'combined'])
        w = {'constant': k1, 'field': w1, 'marks': None, 'expression': e1, 'combined': k1*w1}[kind]
        ms = dx_(1) if kind == 'marks' or rng.random() < .3 else None
        kw = {k: v for k, v in (('weight', w), ('measure', ms)) if v is not None}
        alt = {'CG1': 'CG2', 'DG0': 'DG1', 'DG1': 'DG0'}[elem]
        self.base = mk(m1, elem, **kw)
        self.variants = dict(mesh=mk(m2, elem), el=mk(m1, alt, **kw), constant=mk(m1, elem, **dict(kw, weight=k2)), field=mk(m1, elem, **dict(kw, weight=w2)),
                             part=mk(m1, elem, **dict(kw, measure=dx_(2))),
                             data=mk(m1, elem, **dict(kw, measure=df.Measure('dx', domain=m1, subdomain_data=cf2)(1))), plain=mk(m1, elem))
        a, b = w1.vector().get_local(), w1.vector().get_local()*-3 + 1

        def field():
            w1.vector().set_local(b if self.d == 1 else a)
            w1.vector().apply('insert')

        def marks():
            cf.array()[:] = 3 - cf.array()

        def expression():
            e1.a = 7 if self.d == 1 else 2
        self.changes = dict(constant=lambda: k1.assign(9 if self.d == 1 else 2), field=field, marks=marks, expression=expression)
        self.changed = kind if kind != 'combined' else rng.choice(['constant', 'field'])

    def surface(self):
        rng, elem = self.rng, self.elem
        d = rng.choice([2, 3])
        bg = M.mesh(M.permuted({2: M.tri_grid(2, 2, rng), 3: M.tet_grid(1, 1, 1)}[d], rng))
        bg.init(d-1)

        def emb(i):
            mf = df.MeshFunction('size_t', bg, d-1, 0)
            mf.array()[[i, i+1, i+2]] = 1
            return xii.EmbeddedMesh(mf, 1)
        e1, e2 = emb(0), emb(3)
        mk = lambda em, el: self.request(lambda t: xii.SurfaceMean(t, em), self.space(bg, el), self.space(em, 'DG0'), em)
        self.base = mk(e1, elem)
        self.variants = dict(em=mk(e2, elem), el=mk(e1, {'CG1': 'CG2', 'CG2': 'CG1'}[elem]))
        self.field()

    def lift(self):
        rng, elem = self.rng, self.elem
        d = rng.choice([2, 3])
        m = M.permuted({2: M.tri_grid(2, 2, rng), 3: M.tet_grid(1, 1, 1)}[d], rng)
        bg = M.mesh(m)
        bg.init(d-1)

        def emb(i):
            mf = df.MeshFunction('size_t', bg, d-1, 0)
            mf.array()[[i, i+1, i+2]] = 1
            return xii.EmbeddedMesh(mf, 1)
        e1, e2 = emb(0), emb(3)
        mk = lambda em, el: self.request(lambda t: xii.TransposeTrace(t, em), self.space(em, el), self.space(bg, el), bg)
        self.base = mk(e1, elem)
        self.variants = dict(em=mk(e2, elem), el=mk(e1, {'CG1': 'CG2', 'CG2': 'CG1', 'vCG1': 'vCG2'}[elem]))
        self.field()

    def injection(self):
        rng, elem = self.rng, self.elem
        d = rng.choice([2, 2, 3])
        mk_ = lambda n: M.mesh(M.permuted({2: M.tri_grid(n, n, rng, step=12//n), 3: M.tet_grid(n, n, n, step=12//n)}[d], rng))
        c1, f1, f2 = mk_(1), mk_(2), mk_(2)
        c2 = mk_(1)
        mk = lambda c, f, el, **kw: self.request(lambda t: xii.Injection(t, f, **kw), self.space(c, el), self.space(f, {'RT1': 'RT1'}.get(el, el)), f)
        self.base = mk(c1, f1, elem)
        self.variants = dict(fine=mk(c1, f2, elem), coarse=mk(c2, f1, elem), el=mk(c1, f1, {'CG1': 'CG2', 'DG1': 'DG0', 'vCG1': 'vDG1', 'RT1': 'vCG1'}[elem]),
                             method=mk(c1, f1, elem, not_nested_method='project'))
        self.field()

    def average(self, op=None):
        rng, elem = self.rng, self.elem
        op = op or xii.Average
        S = 8
        bg = M.mesh(M.permuted(M.tet_grid(2, 2, 2, step=S), rng))
        line = M.mesh(M.permuted(dict(td=1, gd=3, x=[[S, S, 4], [S, S, 6], [S, S, 8], [S, S, 10]], cells=[[0, 1], [1, 2], [2, 3]]), rng))
        line2 = M.mesh(M.permuted(dict(td=1, gd=3, x=[[6, 4, S], [6, 6, S], [6, 8, S], [6, 10, S]], cells=[[0, 1], [1, 2], [2, 3]]), rng))
        sh = dict(circle=lambda: shapes.Circle(2., 10), wide=lambda: shapes.Circle(3., 10), finer=lambda: shapes.Circle(2., 16), disk=lambda: shapes.Disk(2., 6),
                  square=lambda: shapes.Square(lambda x: x + np.array([1., 2., 0.]), 3), rim=lambda: shapes.SquareRim(lambda x: x + np.array([1., 2., 0.]), 3))
        sh = {k: f() for k, f in sh.items()}
        if op is not xii.Average:
            sh = {k: s for k, s in sh.items() if k not in ('disk', 'square', 'rim')}
        k = rng.choice(sorted(sh))
        tv = ('v' if elem[0] == 'v' and op is xii.Average else '') + 'DG1'
        mk = lambda l, el, s: self.request(lambda t: op(t, l, s), self.space(bg, el), self.space(l, tv), l)
        self.base = mk(line, elem, sh[k])
        self.variants = {'shape ' + s: mk(line, elem, sh[s]) for s in sh if s != k}
        self.variants['line'] = mk(line2, elem, sh[k] if k in ('circle', 'wide', 'finer', 'disk') else sh['circle'])
        if elem != 'RT1':
            self.variants['el'] = mk(line, {'CG1': 'CG2', 'DG1': 'DG2', 'vCG1': 'vCG2'}[elem], sh[k])
        self.field()

    def flux(self):
        self.how = 'matrix' if self.how == 'vector' else self.how
        self.average(xii.FluxAverage)

    def edges(self):
        rng, elem = self.rng, self.elem
        bg = M.mesh(M.permuted(M.tet_grid(1, 1, 1), rng))
        bg.init(1)

        def emb(i):
            f = df.MeshFunction('size_t', bg, 1, 0)
            f.array()[[i, i+1, i+2]] = 1
            return xii.EmbeddedMesh(f, 1)
        l1, l2 = emb(0), emb(3)
        tv = ('v' if elem[0] == 'v' else '') + 'DG1'
        mk = lambda l, s: self.request(lambda t: xii.Average(t, l, s), self.space(bg, elem), self.space(l, tv), l)
        self.base = mk(l1, None)
        self.variants = dict(line=mk(l2, None), el=self.request(lambda t: xii.Average(t, l1, None), self.space(bg, {'CG1': 'CG2', 'vCG1': 'vCG2'}[elem]), self.space(l1, tv), l1))
        self.field()

    def patch(self):
        rng, elem = self.rng, self.elem
        m = M.permuted(M.tri_grid(3, 2, rng), rng)
        bg = M.mesh(m)
        gd, td, n = 2, 2, bg.num_cells()
        line = M.mesh(M.permuted(M.chain(4, gd), rng))
        T = self.space(line, 'DG0')
        V = self.space(bg, elem)

        def patches():
            p = df.MeshFunction('size_t', bg, td, 0)
            v = [1 + i % 3 for i in range(n)]
            rng.shuffle(v)
            p.array()[:] = v
            return p

        def colors(c):
            f = df.Function(T)
            f.vector().set_local(np.array(c, dtype=float))
            f.vector().apply('insert')
            return f
        p1, p2 = patches(), patches()
        v1, v2 = colors([1, 2, 3, 1]), colors([3, 1, 0, 2])
        g1, g2, g3 = {1: 1, 2: 2, 3: 3}, {1: 1, 3: 3}, {1: 1, 2: 2}
        mk = lambda v, p, g, el=elem: self.request(lambda t: xii.CellPatchAverage(t, v, p, g), self.space(bg, el), T, line)
        g = rng.choice([None, g1])
        self.base = mk(v1, p1, g)
        self.variants = dict(vertex=mk(v2, p1, g), patch=mk(v1, p2, g), coloring=mk(v1, p1, g2), other=mk(v1, p1, g3), el=mk(v1, p1, g, {'CG1': 'DG0', 'DG0': 'CG1', 'DG1': 'CG1'}[elem]))

        def vertex():
            v1.vector().set_local(v1.vector().get_local()[::-1].copy() if False else 4 - v1.vector().get_local())
            v1.vector().apply('insert')

        def patch():
            p1.array()[:] = 4 - p1.array()

        def coloring():
            # colour 2 comes and goes
            if 2 in g1:
                del g1[2]
            else:
                g1[2] = 2
        self.changes = dict(vertex=vertex, patch=patch, coloring=coloring)
        self.changed = rng.choice(['vertex', 'patch'] + (['coloring'] if g is g1 else []))

    def interp(self):
        from xii.assembler.interpolation_matrix import interpolation_mat
        rng, elem = self.rng, self.elem
        d = rng.choice([2, 3])
        mk_ = lambda: M.mesh(M.permuted({2: M.tri_grid(2, 2, rng), 3: M.tet_grid(1, 1, 1)}[d], rng))
        m1, m2 = mk_(), mk_()
        to = {'CG1': ['DG0', 'DG1', 'CG2'], 'DG1': ['DG0', 'DG2', 'CR1'], 'vCG1': ['vDG0', 'RT1', 'N1']}[elem]

        def mk(msh, el, q):
            # answers of this one are kept by the library: a copy is taken before anything is done to it
            def ask():
                A = interpolation_mat(self.space(msh, el), self.space(msh, q))
                return df.PETScMatrix(df.as_backend_type(A).mat().copy() if isinstance(A, df.cpp.la.GenericMatrix) else A.copy())
            return ask
        self.base = mk(m1, elem, to[0])
        self.variants = dict(to=mk(m1, elem, to[1]), to2=mk(m1, elem, to[2]), mesh=mk(m2, elem, to[0]), el=mk(m1, {'CG1': 'CG2', 'DG1': 'DG2', 'vCG1': 'vCG2'}[elem], to[0]))
        self.changes, self.changed = dict(nothing=lambda: None), 'nothing'

    def mixed(self):
        """Different operators on the same meshes and spaces"""
        rng, elem = self.rng, self.elem
        m, fs, tags = C4.scene(rng, 2, 5)
        bg = M.mesh(m)
        em = C4.embedded(rng, m, fs, tags, 1, bg)
        n1 = C4.set_normal(rng, em)[0]
        V, T, R = self.space(bg, elem), self.space(em, 'DG0'), self.space(bg, 'DG0')
        vf = df.Function(T)
        vf.vector().set_local(np.array([1. + i % 2 for i in range(T.dim())]))
        pf = df.MeshFunction('size_t', bg, 2, 1)
        pf.array()[::2] = 2
        sub = xii.SubDomainMesh(pf, 1)
        var = dict(patch=self.request(lambda t: xii.CellPatchAverage(t, vf, pf), V, T, em), plus=self.request(lambda t: xii.Trace(t, em, '+', n1), V, T, em),
                   restriction=self.request(lambda t: xii.Restriction(t, sub), V, self.space(sub, elem), sub), mean=self.request(lambda t: xii.Mean(t), V, R, bg))
        if elem == 'CG1':
            var.update(surface=self.request(lambda t: xii.SurfaceMean(t, em), V, T, em), trace=self.request(lambda t: xii.Trace(t, em), V, T, em),
                       point=self.read_from(bg, V, lambda t: xii.PointTrace(t, int(bg.cells()[0][0]), 0)))
        else:
            var['jump'] = self.request(lambda t: xii.Trace(t, em, 'jump', n1), V, T, em)
        names = sorted(var)
        self.base = var.pop(rng.choice(names))
        self.variants = var
        self.field()

    def product(self):
        """Nonlinear use: a reduced function in the integrand of a bilinear form"""
        rng, elem = self.rng, self.elem
        m, fs, tags = C4.scene(rng, 2, 5)
        bg = M.mesh(m)
        em = C4.embedded(rng, m, fs, tags, 1, bg)
        n1, n2 = C4.set_normal(rng, em)[0], C4.set_normal(rng, em)[0]
        n2.vector().set_local(-n1.vector().get_local())
        V, T = self.space(bg, elem), self.space(em, 'DG0')
        c = df.Function(V)
        fill(rng, c)
        u, q = df.TrialFunction(V), df.TestFunction(T)
        dx_ = df.Measure('dx', domain=em, subdomain_data=em.marking_function)

        def mk(r1, r2, n=n1, on=None):
            tr = lambda t, r: xii.Trace(t, em, r, n) if r else xii.Trace(t, em)
            return lambda: xii.ii_assemble(tr(c, r1)*tr(u, r2)*q*(dx_ if on is None else dx_(on)))
        self.base = mk('+', '+')
        self.variants = dict(side=mk('+', '-'), coefficient=mk('-', '+'), both=mk('jump', 'avg') if elem == 'DG1' else mk('-', '-'), normal=mk('+', '+', n2), part=mk('+', '+', n1, 1))

        def field():
            c.vector().set_local(-2*c.vector().get_local() if self.d == 1 else -c.vector().get_local()/2)
            c.vector().apply('insert')

        def negate():
            n1.vector().set_local(-n1.vector().get_local())
            n1.vector().apply('insert')
        self.changes = dict(field=field, normal=negate)
        self.changed = rng.choice(sorted(self.changes))


def answer(req):
    """Outcome of the request; the converted tensor"""
    try:
        A = req()
        if not isinstance(A, (df.cpp.la.GenericMatrix, df.cpp.la.GenericVector)):
            A = xii.ii_convert(A)
        return 'ok', A
    except Exception as x:
        import traceback; traceback.print_exc()
        return '%s: %s' % (type(x).__name__, str(x)[:80]), None


def numbers(A):
    if A is None:
        return []
    a = A.array() if isinstance(A, df.cpp.la.GenericMatrix) else A.get_local().reshape((-1, 1))
    return a.tolist()


def spoil(A, k):
    if A is None:
        return
    if isinstance(A, df.cpp.la.GenericVector):
        A.zero() if k == 0 else A.__imul__(3.)
    elif k == 0:
        A.zero()
    elif k == 1:
        A *= 3.
    else:
        df.as_backend_type(A).mat().scale(-1)


def apart(fun):
    """Result of the function in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fun()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            import traceback; traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def requests(case, W):
    rng = random.Random(case['seed'] + 1)
    names = sorted(W.variants)
    rng.shuffle(names)
    names = case.get('pick', names[:2])
    # projections are refused by the code
    return [W.base] + [W.variants[k] for k in names], [True] + [k != 'method' for k in names]


def run(case):
    h = case['h']
    pairs = sorted({(s['r'], s['d']) for s in h if s['op'] == 'ask'})
    # a family may have fewer variants

    def first(r, d):
        W = World(case)
        W.change(d)
        rs, due = requests(case, W)
        k = (r-1) % len(rs)
        out, A = answer(rs[k])
        return out, numbers(A), due[k]

    def whole():
        W = World(case)
        rs, _ = requests(case, W)
        rng = random.Random(case['seed'] + 2)
        out, last = [], None
        for s in h:
            if s['op'] == 'ask':
                W.change(s['d'])
                o, last = answer(rs[(s['r']-1) % len(rs)])
                out.append((s['r'], s['d'], o, numbers(last)))
            elif s['op'] == 'spoil':
                spoil(last, rng.randrange(3))
        return out
    fresh = {p: apart(lambda: first(*p)) for p in pairs}
    told = apart(whole)
    size = max([abs(t) for _, v, _ in list(fresh.values()) for r in v for t in r] + [1e-12])

    def scaled(v):
        return [[int(round(10**6*t/size)) if abs(t) < 2000*size else BAD for t in r] for r in v]
    ev = [dict(ev='new')]
    for (r, d), (o, v, due) in sorted(fresh.items()):
        ev.append(dict(ev='fresh', r=r, d=d, out=o, val=scaled(v), due=due))
    for r, d, o, v in told:
        ev.append(dict(ev='ask', r=r, d=d, out=o, val=scaled(v)))
    return ev
