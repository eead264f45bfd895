"""C15  Building meshes from pieces glues them without loss."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
NOTE = ('Unions of 2 to 6 pieces (parts of random meshes of lines, triangles, tetrahedra and surfaces, every piece renumbered), one after another and nested, inputs and '
        'earlier unions watched; all sequences of branches of a pool (TLC) and random branches; gmsh style tables with unused nodes and tagged lower dimensional elements; '
        'models meshed by gmsh with physical groups on some of their parts.')
TRACE = 'GluingTrace'
TECHNIQUE = ('TLA+ model of gluing in every order and of line meshes (Gluing, GluingMC, LineMC) checked by TLC; branch sequences are replayed, '
             'recorded unions, line meshes and imports validated by TLC')
PER_CASE = 60


def plan(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    r = tlc('GluingMC', 'SPECIFICATION Spec\nCONSTANTS Pieces=4\nINVARIANTS Sound\nCHECK_DEADLOCK FALSE\n', workers=8, timeout=600)
    ctx.model(r, 'GluingMC')
    r = tlc('LineMC', 'SPECIFICATION Spec\nCONSTANTS MaxB=%d\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n' % ctx.pick(3, 4), workers=8, timeout=600)
    ctx.model(r, 'LineMC')
    ls = r.tagged('LINE')
    rng.shuffle(ls)
    for h in ls[:ctx.pick(160, 2000)]:
        cases.append(dict(what='line', branches=h['branches'], seed=rng.randint(0, 10**6)))
    for k in range(ctx.pick(40, 500)):
        cases.append(dict(what='line', branches=random_branches(rng), seed=rng.randint(0, 10**6)))
    for k in range(ctx.pick(12, 150)):
        for dim, gd in ((1, 2), (1, 3), (1, 1), (2, 2), (2, 2), (2, 3), (3, 3)):
            cases.append(dict(what='union', dim=dim, gd=gd, seed=rng.randint(0, 10**6)))
        for dim in (1, 2, 2, 3):
            cases.append(dict(what='table', dim=dim, seed=rng.randint(0, 10**6)))
        for dim in (1, 2, 2, 3):
            cases.append(dict(what='model', dim=dim, seed=rng.randint(0, 10**6)))
    return cases


def random_branches(rng):
    gd = rng.randint(2, 3)
    ends = [[rng.randint(0, 3)*10 for _ in range(gd)] for _ in range(rng.randint(2, 5))]
    out = []
    for _ in range(rng.randint(1, 5)):
        a, b = rng.choice(ends), rng.choice(ends)
        n = rng.randint(0, 4)
        inner = []
        while len(inner) < n or (a == b and len(inner) < 2):
            p = [rng.randint(0, 30) for _ in range(gd)]
            if any(t % 10 for t in p) and p not in inner and p not in [q for br in out for q in br]:
                inner.append(p)
        out.append([list(a)] + inner + [list(b)])
    # the same straight segment twice is not a mesh
    two = [tuple(sorted(map(tuple, b))) for b in out if len(b) == 2]
    return out if len(set(two)) == len(two) else random_branches(rng)


def setup():
    global df, np, xii, union_mesh, line_mesh
    import dolfin as df, numpy as np, xii
    from xii.meshing.union_mesh import union_mesh
    from xii.meshing.line_mesh import line_mesh
    import xii.meshing.generation as generation
    globals()['generation'] = generation
    df.set_log_level(50)


def run(case):
    rng = random.Random(case['seed'])
    if case['what'] == 'line':
        e = dict(ev='line', branches=case['branches'])
        try:
            b = [np.array(t, dtype=float) for t in case['branches']]
            if len(b) == 1 and len(b[0]) == 2 and rng.random() < .5:
                n = rng.randint(1, 4)
                e['branches'] = [[[int(u*n + (v-u)*k) for u, v in zip(*case['branches'][0])] for k in range(n+1)]]
                msh = xii.StraightLineMesh(b[0][0]*n, b[0][1]*n, n)
            else:
                msh = rng.choice([line_mesh, line_mesh, generation.line_mesh])(b)
            e['r'] = M.snapshot(msh)
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return [e]
    if case['what'] == 'table':
        return [table(case, rng)]
    if case['what'] == 'model':
        return model(case, rng)
    dim, gd = case['dim'], case['gd']
    if dim == 1:
        if gd == 1:
            m = M.chain(rng.randint(3, 8), 1)
        else:
            g = M.tri_grid(2, rng.randint(1, 2), rng) if gd == 2 else M.tet_grid(1, 1, 1)
            E = M.entities(g, 1)
            m = M.subset(dict(g, td=1), rng.sample(E, rng.randint(3, len(E))))
    elif dim == 2:
        if gd == 2:
            m = M.tri_grid(rng.randint(2, 3), rng.randint(1, 3), rng)
        else:
            g = M.tet_grid(1, 1, 1)
            E = M.entities(g, 2)
            m = M.subset(dict(g, td=2), rng.sample(E, rng.randint(3, 9)))
    else:
        m = M.tet_grid(rng.randint(1, 2), 1, rng.randint(1, 2))
    m = M.sheared(m, rng)
    n = rng.randint(2, min(6, len(m['cells'])))
    while True:
        owner = [rng.randrange(n) for _ in m['cells']] if rng.random() < .4 else grow(m, n, rng)
        if len(set(owner)) == n:
            break
    # interior vertices of a piece belong to no other: holds for parts of a mesh; all shared points must lie on facets of one cell
    parts = [M.permuted(M.subset(m, [c for c, o in zip(m['cells'], owner) if o == k]), rng) for k in range(n)]
    if not all(on_boundary(p, q) for p in parts for q in parts if p is not q):
        return []
    meshes = [M.mesh(p) for p in parts]
    ev = [dict(ev='meshes', meshes=[M.snapshot(t) for t in meshes])]
    world, leafs_seen = list(meshes), []

    def glue(idx, args):
        """args: the meshes as given, idx: the pieces they contain"""
        e = dict(ev='union', of=[i+1 for i in idx])
        ev.append(e)
        try:
            u = union_mesh(args)
            maps = {}
            for i, lg in u.leafs:
                maps.setdefault(i, []).append([int(t)+1 for t in lg])
            e['r'] = dict(M.snapshot(u), maps=[maps.get(meshes[i].id(), [[]])[0] for i in idx])
            if set(maps) != {meshes[i].id() for i in idx} or any(len(t) > 1 for t in maps.values()):
                e['r']['maps'] = []
            # the maps of unions made before
            e['leafs'] = all([(i, list(lg)) for i, lg in o.leafs] == old for o, old in leafs_seen)
            e['after'] = [M.snapshot(t) for t in world]
            e['out'] = 'ok'
            leafs_seen.append((u, [(i, list(lg)) for i, lg in u.leafs]))
            world.append(u)
            return u
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
            return None
    order = list(range(n))
    rng.shuffle(order)
    kind = rng.choice(['flat', 'flat', 'fold', 'tree'])
    if kind == 'flat':
        glue(order, [meshes[i] for i in order])
    elif kind == 'fold':
        cur, idx = meshes[order[0]], [order[0]]
        for i in order[1:]:
            idx = idx + [i]
            cur = glue(idx, [cur, meshes[i]])
            if cur is None:
                break
    else:
        k = rng.randint(1, n-1)
        a, b = order[:k], order[k:]
        A = glue(a, [meshes[i] for i in a]) if len(a) > 1 else meshes[a[0]]
        B = glue(b, [meshes[i] for i in b]) if len(b) > 1 else meshes[b[0]]
        if A is not None and B is not None:
            glue(a + b, [A, B])
            if rng.random() < .5:
                glue(b + a, [B, A])
    return ev


def on_boundary(p, q):
    """Points of p which q has as well lie on the boundary of p"""
    have = {tuple(x) for x in q['x']}
    count = {}
    import itertools
    for c in p['cells']:
        for f in itertools.combinations(sorted(c), p['td']):
            count[f] = count.get(f, 0) + 1
    bd = {v for f, k in count.items() if k == 1 for v in f}
    return all(v in bd for v, x in enumerate(p['x']) if tuple(x) in have)


def grow(m, n, rng):
    from c12 import regions
    try:
        return regions(m, list(range(n)), rng)
    except IndexError:
        return [rng.randrange(n) for _ in m['cells']]


def table(case, rng):
    dim = case['dim']
    if dim == 1:
        m = M.chain(rng.randint(1, 5), 3)
    elif dim == 2:
        m = M.tri_grid(rng.randint(1, 3), rng.randint(1, 2), rng)
    else:
        m = M.tet_grid(1, rng.randint(1, 2), 1)
    m = M.sheared(m, rng)
    plane = dim < 3 and rng.random() < .7
    x = [(list(p) + [0, 0])[:3] for p in m['x']]
    if not plane and dim < 3:
        for p in x:
            p[2] = 1 + p[0] - 2*p[1]
    elif plane:
        for p in x:
            p[2] = 0
    m = dict(m, gd=3, x=x)
    if rng.random() < .5:           # nodes which no element uses
        for _ in range(rng.randint(1, 3)):
            m['x'] = m['x'] + [[77 + rng.randint(0, 9), rng.randint(-9, 9), rng.choice([0, 5])]]
    m = M.permuted(m, rng)
    tagged = rng.random() < .8
    # some elements may be without a tag (0)
    low = rng.choice([0, 1, 1])
    ctags = [rng.randint(low, 4) if tagged else 0 for _ in m['cells']]
    e = dict(ev='table', nodes=m['x'] if not plane else [p[:2] for p in m['x']], cells=[[v+1 for v in c] for c in m['cells']], ctags=ctags, low=[])
    code = {1: 1, 2: 2, 3: 4}
    data = {code[dim]: dict(topology=np.array(m['cells']), cell_data=np.array(ctags))}
    for d in range(1, dim):
        if rng.random() < .7:
            E = M.entities(m, d)
            E = [rng.sample(c, d+1) for c in rng.sample(E, rng.randint(1, len(E)))]
            t = [rng.randint(low, 5) for _ in E]
            t[rng.randrange(len(t))] = 3
            data[code[d]] = dict(topology=np.array(E), cell_data=np.array(t))
            e['low'].append(dict(top=[[v+1 for v in c] for c in E], tags=t))
    if rng.random() < .5:
        data = dict(reversed(list(data.items())))
    return imported(e, dim, np.array(m['x'], dtype=float), data)


def imported(e, dim, nodes, data):
    try:
        from xii.meshing.gmsh_interopt import mesh_from_gmsh
        msh, fs = mesh_from_gmsh(nodes, data)
        r = dict(M.snapshot(msh), cvals=M.vals(fs[dim]) if dim in fs else [0]*msh.num_cells(), low=[])
        for q in e['low']:
            d = len(q['top'][0]) - 1
            r['low'].append(dict(ents=M.ents(msh, d), vals=M.vals(fs[d])))
        e['r'] = r
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return e


def model(case, rng):
    """A gmsh model of a grid of rectangles (or their edges, or boxes above them) with tagged parts; meshed with known nodes"""
    import gmsh
    from xii.meshing.gmsh_interopt import msh_gmsh_model
    if not gmsh.isInitialized():
        gmsh.initialize([], readConfigFiles=False, interruptible=False)
        gmsh.option.setNumber('General.Terminal', 0)
    dim = case['dim']
    n = rng.choice([1, 2]) if dim < 3 else 1           # parts of every edge
    k, l = rng.randint(1, 3), rng.randint(1, 2)
    level = 0 if dim == 3 or rng.random() < .6 else rng.choice([1, 3])
    h = 2*n                                             # side of the rectangles
    gmsh.model.add('m%d' % case['seed'])
    try:
        g = gmsh.model.geo
        at = {(i, j): g.addPoint(h*i, h*j, level) for i in range(k+1) for j in range(l+1)}
        curve = {}
        ends = [((i, j), (i+1, j)) for i in range(k) for j in range(l+1)] + [((i, j), (i, j+1)) for i in range(k+1) for j in range(l)]
        rng.shuffle(ends)
        for a, b in ends:
            curve[(a, b)] = g.addLine(at[a], at[b])
            g.mesh.setTransfiniteCurve(curve[(a, b)], n+1)
        parts = {1: [], 2: [], 3: []}                   # [corner, opposite corner], gmsh number
        for (a, b), c in curve.items():
            parts[1].append(([h*a[0], h*a[1], level], [h*b[0], h*b[1], level], c))
        if dim > 1:
            for i in range(k):
                for j in range(l):
                    loop = g.addCurveLoop([curve[((i, j), (i+1, j))], curve[((i+1, j), (i+1, j+1))], -curve[((i, j+1), (i+1, j+1))], -curve[((i, j), (i, j+1))]])
                    f = g.addPlaneSurface([loop])
                    g.mesh.setTransfiniteSurface(f)
                    parts[2].append(([h*i, h*j, level], [h*(i+1), h*(j+1), level], f))
                    if dim == 3:
                        out = g.extrude([(2, f)], 0, 0, h, numElements=[1])
                        parts[3].append(([h*i, h*j, 0], [h*(i+1), h*(j+1), h], [t for d, t in out if d == 3][0]))
        g.synchronize()
        # tags: all parts of one dimension and some others; those of lower dimension only where they belong to something tagged
        groups, told = {}, []
        keep = [p for p in parts[dim] if rng.random() < .8] or parts[dim][:1]
        for p in keep:
            groups.setdefault((dim, rng.randint(1, 3)), []).append(p)
        touches = lambda p: any(all(a[i] <= min(p[0][i], p[1][i]) and max(p[0][i], p[1][i]) <= b[i] for i in range(3)) for a, b, _ in keep)
        for d in range(1, dim):
            if rng.random() < .8:
                for p in parts[d]:
                    if touches(p) and rng.random() < .5:
                        groups.setdefault((d, rng.randint(1, 4)), []).append(p)
        gs = list(groups.items())
        rng.shuffle(gs)
        for (d, t), ps in gs:
            gmsh.model.addPhysicalGroup(d, [p[2] for p in ps], tag=t)
            told += [dict(dim=d, tag=t, lo=p[0], hi=p[1]) for p in ps]
        e = dict(ev='model', parts=told)
        try:
            nodes, data = msh_gmsh_model(gmsh.model, dim, number_options={'General.Terminal': 0, 'General.Verbosity': 0})
            nodes, data = np.array(nodes), {int(c): {q: np.array(v) for q, v in d.items()} for c, d in data.items()}
            e['nodes'] = [[scaled(t) for t in p] for p in nodes]
            e['els'] = [dict(dim={1: 1, 2: 2, 4: 3}[c], top=[[int(v)+1 for v in q] for q in d['topology']], tags=[int(t) for t in d['cell_data']]) for c, d in data.items()]
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
            return [e]
    finally:
        gmsh.model.remove()
    if not all(t != BAD for p in e['nodes'] for t in p):
        return [e]
    q = [r for r in e['els'] if r['dim'] == dim]
    if not q:
        return [e]
    f = dict(ev='table', nodes=[p[:2] for p in e['nodes']] if level == 0 and dim < 3 else e['nodes'], cells=q[0]['top'], ctags=q[0]['tags'],
             low=[dict(top=r['top'], tags=r['tags']) for r in e['els'] if r['dim'] < dim])
    return [e, imported(f, dim, nodes, data)]
