"""C18  Normals and tangents of embedded meshes are unit and consistently oriented."""
import random
from core import tlc, scaled
import meshes as M
NOTE = ('Normals of boundaries and of random sets of facets for every way to orient them (point, list, centre, field, mesh, facet normal, markers), tangents of all graphs of the model and '
        'of bigger curves, normals of random polygons; flat integer coordinates, compared exactly.')
TRACE = 'NormalsTrace'
TECHNIQUE = ('TLA+ walk directing a curve and orientation of facets (Normals); TLC explores all walks on all small graphs and checks closed surfaces, '
             'the graphs are replayed and the recorded vectors validated by TLC')
PER_CASE = 120
ASSUMPTIONS = ['points whose winding number is asked for keep a distance of one edge or more from the curve']


def plan(ctx):
    rng = random.Random(ctx.seed)
    for mode, inv in (('walk', 'OnceEach Kept1 Reached Rigid Emit'), ('body', 'Closed Convex Opposite')):
        r = tlc('NormalsMC', 'SPECIFICATION Spec\nCONSTANTS Mode="%s" N=%d MaxE=5\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (mode, 5, inv), workers=8, timeout=800)
        ctx.model(r, 'NormalsMC ' + mode)
        if mode == 'walk':
            graphs = r.tagged('GRAPH')
    rng.shuffle(graphs)
    cases = [dict(what='graph', graph=g, dim=rng.choice([2, 2, 3]), seed=rng.randint(0, 10**6)) for g in graphs[:ctx.pick(80, 1777)]]
    for _ in range(ctx.pick(30, 300)):
        cases.append(dict(what='curve', dim=rng.choice([1, 2, 3]), seed=rng.randint(0, 10**6)))
    for mode in ('point', 'center', 'field', 'mesh', 'facet', 'marker'):
        for d in (2, 3):
            for _ in range(ctx.pick(6, 60)):
                cases.append(dict(what='normal', mode=mode, dim=d, inner=rng.random() < .4, seed=rng.randint(0, 10**6)))
    for _ in range(ctx.pick(30, 300)):
        cases.append(dict(what='polygon', seed=rng.randint(0, 10**6)))
    return cases


def group(c):
    return c['what'], c.get('mode', ''), c.get('dim', 2)


def setup():
    global df, np, xii, F, E
    import dolfin as df, numpy as np, xii
    import fe as F
    import xii.meshing.embedded_mesh as E
    df.set_log_level(50)


def vectors(n, em, lens):
    """Values of a piecewise constant vector function times the lengths, per cell"""
    out = []
    x = n.vector().get_local()
    if em.geometry().dim() == 1:
        dm = n.function_space().dofmap()
        return [[scaled(x[dm.cell_dofs(c)[0]]*lens[c])] for c in range(em.num_cells())]
    for c, es in enumerate(F.cell_entries(n.function_space())):
        v = [0]*em.geometry().dim()
        for d, _, i in es:
            v[i-1] = scaled(x[d]*lens[c])
        out.append(v)
    return out


def conormals(em):
    """Lengths of the integer conormals"""
    X = em.coordinates()
    out = []
    for c in em.cells():
        p = X[c]
        out.append(np.linalg.norm(p[1] - p[0]) if len(p) == 2 else np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])))
    return out


def failed(x):
    import traceback; traceback.print_exc()
    return '%s: %s' % (type(x).__name__, str(x)[:80])


def body(rng, d):
    m = M.tri_grid(rng.randint(1, 3), rng.randint(1, 3), rng) if d == 2 else M.tet_grid(1, 1, rng.randint(1, 2))
    cs = rng.sample(m['cells'], rng.randint(max(1, len(m['cells'])//2), len(m['cells'])))
    return M.permuted(M.sheared(M.subset(m, cs), rng), rng)


def run_normal(case, rng):
    d, mode = case['dim'], case['mode']
    m = body(rng, d)
    # units of length
    S = rng.choice([1, 1, 2**24, 64, 2**-8]) if mode != 'center' else 1
    bg = M.mesh(dict(m, S=S))
    f = df.MeshFunction('size_t', bg, d-1, 0)
    tab = M.ents(bg, d-1)
    bg.init(d-1, d)
    f2c = bg.topology()(d-1, d)
    if mode == 'mesh':
        pool = [i for i in range(len(tab)) if len(f2c(i)) == 1]
    else:
        pool = list(range(len(tab)))
    for i in rng.sample(pool, rng.randint(max(1, len(pool)//2), len(pool))):
        f[i] = rng.choice([1, 2])
    tags = [t for t in (1, 2) if t in set(f.array())]
    em = xii.EmbeddedMesh(f, tags)
    ev = [dict(ev='mesh', bg=M.snapshot(bg, S), em=M.snapshot(em, S))]
    e = dict(ev='normal', mode=mode, sgn=-1 if case['inner'] else 1)
    ev.append(e)
    make = xii.InnerNormal if case['inner'] else xii.OuterNormal
    try:
        if mode == 'point':
            o = [rng.randint(-1, 5) for _ in range(d)]
            e['o'] = o
            how = rng.choice(['list', 'tuple', 'array', 'expression'])
            o = [t/S for t in o]
            if how == 'expression':
                a = df.Expression(tuple('x[%d] - (%r)' % (i, o[i]) for i in range(d)), degree=1)
            else:
                a = dict(list=list, tuple=tuple, array=lambda t: np.array(t, float))[how](o)
        elif mode == 'center':
            # translate the centre of the vertices to an integer point
            n = em.num_vertices()
            em.coordinates()[:] *= n
            bg.coordinates()[:] *= n
            e.update(mode='point', o=[int(round(t)) for t in em.coordinates().mean(axis=0)])
            ev[0] = dict(ev='mesh', bg=M.snapshot(bg), em=M.snapshot(em))
            a = None
        elif mode == 'field':
            g = [rng.randint(-3, 3) for _ in range(d)]
            g[0] = g[0] or 1
            e['field'] = g
            a = df.Expression(tuple(map(str, g)), degree=0)
        elif mode == 'mesh':
            a = bg
        elif mode == 'facet':
            a = df.FacetNormal(bg)
        else:
            c = df.MeshFunction('size_t', bg, d, 0)
            c.array()[:] = [rng.randint(0, 3) for _ in range(bg.num_cells())]
            e['mark'] = M.vals(c)
            a = c
        e['w'] = vectors(make(em, a), em, [t*S**(d-1) for t in conormals(em)])
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = failed(x)
    return ev


def run_tangent(m, root, rng):
    S = rng.choice([1, 1, 2**24, 64, 2**-8])
    msh = M.mesh(dict(m, S=S))
    ev = [dict(ev='mesh', bg=M.snapshot(msh, S), em=M.snapshot(msh, S))]
    e = dict(ev='tangent', root=0 if root is None else root+1)
    ev.append(e)
    try:
        X = msh.coordinates()
        lens = [S*np.linalg.norm(X[b] - X[a]) for a, b in msh.cells()]
        e['w'] = vectors(xii.TangentCurve(msh, root) if root is not None else xii.TangentCurve(msh), msh, lens)
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = failed(x)
    return ev


def run(case):
    rng = random.Random(case['seed'])
    if case['what'] == 'normal':
        return run_normal(case, rng)
    if case['what'] == 'polygon':
        return run_polygon(case, rng)
    d = case['dim']
    if case['what'] == 'graph':
        g = case['graph']
        used = sorted({v for e in g['E'] for v in e})
        order = list(used)
        rng.shuffle(order)
        new = {v: i for i, v in enumerate(order)}
        pts = [[0, 0, 1], [4, 1, 0], [1, 5, 2], [-3, 2, 2], [2, -4, 3]]
        x = [pts[v-1][:d] for v in order]
        cells = [[new[v] for v in e] for e in g['E']]
        rng.shuffle(cells)
        root = new[g['root']] if g['root'] else None
        return run_tangent(dict(td=1, gd=d, x=x, cells=cells), root, rng)
    # several chains and loops
    x, cells = [], []
    ends = []
    for k in range(rng.randint(1, 3)):
        n = rng.randint(1, 6)
        a = len(x)
        loop = d > 1 and n > 2 and rng.random() < .5
        for i in range(n + (0 if loop else 1)):
            x.append([10*k + i] + [rng.randint(0, 3) + (i*i if loop else 0) for _ in range(d-1)])
        cells += [[a+i, a+i+1] for i in range(n - (1 if loop else 0))]
        if loop:
            cells.append([a+n-1, a])
        else:
            ends += [a, a+n]
        if d > 1 and not loop and n > 1 and rng.random() < .5:
            x.append([10*k + 1, -5] + [1]*(d-2))
            cells.append([a+1, len(x)-1])
            ends.append(len(x)-1)
    p = list(range(len(x)))
    rng.shuffle(p)
    pos = [None]*len(x)
    for v in range(len(x)):
        pos[p[v]] = x[v]
    cells = [[p[v] for v in c] for c in cells]
    rng.shuffle(cells)
    root = p[rng.choice(ends)] if ends and rng.random() < .5 else None
    return run_tangent(dict(td=1, gd=d, x=pos, cells=cells), root, rng)


def polygon(rng):
    """Boundary of a simply connected set of cells, with subdivided edges; None if it is not a simple loop"""
    m = M.tri_grid(rng.randint(1, 3), rng.randint(1, 3), rng)
    m = M.sheared(m, rng)
    cs = [rng.choice(m['cells'])]
    for _ in range(rng.randint(0, 8)):
        near = [c for c in m['cells'] if c not in cs and any(len(set(c) & set(b)) == 2 for b in cs)]
        if near:
            cs.append(rng.choice(near))
    count = {}
    for c in cs:
        for e in M.entities(dict(cells=[c]), 1):
            count[e] = count.get(e, 0) + 1
    E = [e for e, k in count.items() if k == 1]
    at = {}
    for e in E:
        for v in e:
            at.setdefault(v, []).append(e)
    if any(len(t) != 2 for t in at.values()):
        return None
    # connected?
    seen, todo = {E[0]}, [E[0]]
    while todo:
        for v in todo.pop():
            for e in at[v]:
                if e not in seen:
                    seen.add(e)
                    todo.append(e)
    if len(seen) != len(E):
        return None
    n = rng.choice([1, 2, 8, 8, 8])
    x, idx, cells = [], {}, []
    pt = lambda p: idx.setdefault(tuple(p), len(idx))
    for a, b in E:
        A, B = m['x'][a], m['x'][b]
        ps = [pt([(A[i]*(n-k) + B[i]*k)*16//n for i in range(2)]) for k in range(n+1)]
        cells += [[s, t] for s, t in zip(ps, ps[1:])]
    x = [list(p) for p, _ in sorted(idx.items(), key=lambda t: t[1])]
    return M.permuted(dict(td=1, gd=2, x=x, cells=cells), rng)


def run_polygon(case, rng):
    m = None
    while m is None:
        m = polygon(rng)
    S = rng.choice([1, 16, 64, 2**24])
    msh = M.mesh(dict(m, S=S))
    X = np.array(m['x'], float)
    h = max(np.linalg.norm(X[a] - X[b]) for a, b in m['cells'])
    snap = M.snapshot(msh, S)
    ev = [dict(ev='mesh', bg=snap, em=snap)]
    lo, hi = X.min(axis=0), X.max(axis=0)
    # odd coordinates off the lattice of the curve
    pts = []
    for _ in range(200):
        p = [rng.randint(int(lo[i]) - 8, int(hi[i]) + 8) for i in range(2)]
        if np.linalg.norm(X - np.array(p), axis=1).min() >= 1.5*h and len(pts) < 8:
            pts.append(p)
    lens = [S*np.linalg.norm(msh.coordinates()[b] - msh.coordinates()[a]) for a, b in msh.cells()]
    for o in [None] + pts[:3]:
        e = dict(ev='loop', o=o or [])
        ev.append(e)
        try:
            n = E.NormalCurve(msh, outside=None if o is None else np.array(o)/S)
            e['w'] = vectors(n, msh, lens)
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = failed(x)
    if pts:
        e = dict(ev='encloses', pts=pts)
        ev.append(e)
        try:
            e['got'] = [bool(b) for b in E.encloses_points(msh, np.array(pts)/S)]
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = failed(x)
    return ev
