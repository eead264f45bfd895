"""C14  One-dimensional networks decompose into maximal unbranched paths."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
NOTE = ('All graphs on few vertices (TLC) and random larger networks (trees, grids, several components, separate loops, loops at bifurcations), in the plane and in space, '
        'with ordered and unordered cells; colouring, walks of every colour by cells and by vertices. Point-in-contour tests on lattice polygons.')
TRACE = 'BranchesTrace'
TECHNIQUE = ('TLA+ model of networks and of the colouring walk under every schedule (Branches); TLC checks that all schedules give the maximal paths; '
             'the graphs are replayed and recorded colourings and walks validated by TLC')
PER_CASE = 60


def plan(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    for nv, me in ctx.pick([(4, 6), (5, 5)], [(4, 6), (5, 7)]):
        r = tlc('BranchesMC', 'SPECIFICATION Spec\nCONSTANTS NV=%d MaxE=%d\nINVARIANTS Disjoint ArePaths Complete Progress EndsOk Inner Emit\nCHECK_DEADLOCK FALSE\n' % (nv, me),
                workers=8, timeout=1500, heap='6g')
        ctx.model(r, 'BranchesMC %d' % nv)
        gs = r.tagged('GRAPH')
        rng.shuffle(gs)
        for g in gs[:ctx.pick(150, 1500)]:
            cases.append(dict(what='graph', cells=[[v-1 for v in c] for c in g['cells']], gd=rng.randint(2, 3), ordered=rng.random() < .5, seed=rng.randint(0, 10**6)))
    for k in range(ctx.pick(120, 1500)):
        cells = random_graph(rng)
        cases.append(dict(what='random', cells=cells, gd=rng.randint(2, 3), ordered=rng.random() < .5, seed=rng.randint(0, 10**6)))
    for k in range(ctx.pick(4, 40)):
        n = rng.randint(1, 6)
        cases.append(dict(what='line', cells=[[i, i+1] for i in range(n)], gd=1, ordered=rng.random() < .5, seed=rng.randint(0, 10**6)))
    for k in range(ctx.pick(20, 300)):
        cases.append(dict(what='contour', seed=rng.randint(0, 10**6)))
    return cases


def random_graph(rng):
    kind = rng.choice(['tree', 'grid', 'parts', 'flower', 'sparse'])
    if kind == 'tree':
        n = rng.randint(3, 14)
        return [[rng.randint(max(0, i-3), i-1), i] for i in range(1, n)]
    if kind == 'grid':
        m = M.tri_grid(rng.randint(1, 3), rng.randint(1, 3), rng)
        E = [list(e) for e in M.entities(m, 1)]
        return rng.sample(E, rng.randint(max(1, len(E)//3), len(E)))
    if kind == 'parts':
        cells, at = [], 0
        for _ in range(rng.randint(1, 4)):
            n = rng.randint(3, 6)
            if rng.random() < .6:
                cells += [[at+i, at+(i+1) % n] for i in range(n)]
            else:
                cells += [[at+i, at+i+1] for i in range(n-1)]
            at += n
        return cells
    if kind == 'flower':
        cells, at = [], 1
        for _ in range(rng.randint(1, 3)):        # loops through vertex 0
            n = rng.randint(2, 4)
            p = [0] + list(range(at, at+n)) + [0]
            cells += [list(t) for t in zip(p[:-1], p[1:])]
            at += n
        for _ in range(rng.randint(0, 2)):
            n = rng.randint(1, 3)
            p = [rng.choice([0, 0, 1])] + list(range(at, at+n))
            cells += [list(t) for t in zip(p[:-1], p[1:])]
            at += n
        return cells
    n = rng.randint(4, 10)
    S = set()
    while len(S) < n:
        a, b = rng.sample(range(n+1), 2)
        S.add((min(a, b), max(a, b)))
    return [list(e) for e in S]


def setup():
    global df, np, xii, B, make_mesh
    import dolfin as df, numpy as np, xii
    import xii.meshing.branching as B
    from xii.meshing.make_mesh_cpp import make_mesh
    df.set_log_level(50)


def contour(rng):
    """Star shaped lattice polygon around (0, 0) (times 12) and points off its edges"""
    import math
    n = rng.randint(3, 8)
    angles = sorted(rng.sample(range(24), n))
    if max((b-a) % 24 for a, b in zip(angles, angles[1:] + angles[:1])) >= 11:
        angles = [0, 6, 12, 18]
    P = [[round(24*r*math.cos(math.pi*a/12)), round(24*r*math.sin(math.pi*a/12))] for a, r in ((a, rng.randint(2, 4)) for a in angles)]
    off = [rng.randint(-20, 20), rng.randint(-20, 20)]
    P = [[x+off[0], y+off[1]] for x, y in P]
    if rng.random() < .5:
        P.reverse()
    P.append(list(P[0]))
    pts = []
    while len(pts) < 8:
        q = [rng.randint(-120, 120), rng.randint(-120, 120)]
        d = 1E9
        for a, b in zip(P, P[1:]):
            ax, ay, bx, by = a[0], a[1], b[0], b[1]
            L = (bx-ax)**2 + (by-ay)**2
            t = max(0, min(1, ((q[0]-ax)*(bx-ax) + (q[1]-ay)*(by-ay))/L))
            d = min(d, math.hypot(q[0]-ax-t*(bx-ax), q[1]-ay-t*(by-ay)))
        if d > 8:
            pts.append(q)
    return P, pts


def run(case):
    rng = random.Random(case['seed'])
    ev = []
    if case['what'] == 'contour':
        P, pts = contour(rng)
        e = dict(ev='contour', poly=P, points=pts)
        try:
            e['inside'] = [bool(t) for t in B.is_inside_contour(np.array(P, dtype=float), np.array(pts, dtype=float), nrefs=rng.choice([7, 8]))]
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return [e]
    used = sorted({v for c in case['cells'] for v in c})
    p = list(range(len(used)))
    rng.shuffle(p)
    new = {v: p[i] for i, v in enumerate(used)}
    cells = [[new[v] for v in c] for c in case['cells']]
    for c in cells:
        rng.shuffle(c)
    rng.shuffle(cells)
    n = len(used)
    gd = case['gd']
    x = [[i] + [rng.randint(-3, 3) for _ in range(gd-1)] for i in range(n)]
    if gd > 1:
        rng.shuffle(x)
    if case['ordered']:
        msh = M.mesh(dict(td=1, gd=gd, x=x, cells=cells))
    else:
        msh = make_mesh(np.array(x, dtype=float), np.array(cells, dtype='uintp').flatten(), 1, gd)
    cells = M.ents(msh, 1)
    ev.append(dict(ev='mesh', cells=cells))
    try:
        ev.append(dict(ev='isloop', out=bool(B.is_loop(msh))))
    except Exception as x:
        ev[-1]['out'] = str(x)
    e = dict(ev='colour')
    ev.append(e)
    try:
        f, branches, loops = B.color_branches(msh)
        e.update(vals=M.vals(f), branches=[int(b) for b in branches], loops=[int(b) for b in loops], after=M.ents(msh, 1), out='ok')
    except Exception as x:
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return ev
    c2v = msh.topology()(1, 0)
    msh.init(0, 1)
    v2c = msh.topology()(0, 1)
    todo = [(t, True) for t in e['loops']] + [(t, False) for t in e['branches']]
    rng.shuffle(todo)
    for tag, loop in todo[:6]:
        w = dict(ev='cells', tag=tag, loop=loop)
        ev.append(w)
        limit = 3*len(cells) + 3
        try:
            out = []
            for c, o in B.walk_cells(f.array(), tag, c2v, v2c, loop):
                out.append([int(c)+1, bool(o)])
                if len(out) > limit:
                    break
            w.update(walk=out, out='ok')
        except Exception as x:
            w['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        if len(cells) > 1 and gd > 1:
            verts(ev, f, tag, loop, limit, False)
    if len(todo) == 1 and len(cells) > 1 and gd > 1:
        verts(ev, msh, 0, todo[0][1], 3*len(cells) + 3, True)
    return ev


def verts(ev, arg, tag, loop, limit, whole):
    w = dict(ev='vertices', tag=tag, loop=loop, whole=whole)
    ev.append(w)
    try:
        out = []
        it = B.walk_vertices(arg, is_loop=loop) if whole else B.walk_vertices(arg, tag=tag, is_loop=loop)
        for v in it:
            out.append(int(v)+1)
            if len(out) > limit:
                break
        w.update(walk=out, out='ok')
    except Exception as x:
        w['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
