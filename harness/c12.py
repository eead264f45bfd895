"""C12  Mortar interfaces connect exactly the neighbouring sub-domains."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
NOTE = ('All markings of small complexes (TLC) and random renumbered 2d and 3d meshes with random connected or scattered sub-domains, subsets and orders of tags, '
        'restricted facet iterations, strict or not; followed by traces from every sub-mesh and the background to the interface. For surfaces which hang together only '
        'by single vertices either answer of the strict test is accepted.')
TRACE = 'MortarTrace'
TECHNIQUE = ('TLA+ model of splitting a marked complex along facets (Mortar); TLC enumerates the markings and checks the pairwise construction, '
             'the markings are replayed and recorded splittings validated by TLC')
PER_CASE = 60
COORDS = {'tri2': [[0, 0], [2, 0], [0, 2], [2, 2]],
          'tri4': [[0, 0], [4, 0], [4, 4], [0, 4], [2, 2]],
          'strip': [[0, 0], [1, 2], [2, 0], [3, 2], [4, 0], [5, 2]],
          'tet2': [[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2], [2, 2, 2]],
          'tet3': [[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2], [2, 2, 2], [0, 3, 5]]}


def plan(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    for root, colors in ctx.pick([('tri2', '1,2,3'), ('tri4', '1,2,3'), ('strip', '1,2,3'), ('tet3', '1,2,3')],
                                 [('tri2', '1,2,3'), ('tri4', '1,2,3,4'), ('strip', '1,2,3,4'), ('tet2', '1,2,3'), ('tet3', '1,2,3')]):
        r = tlc('MortarMC', 'SPECIFICATION Spec\nCONSTANTS Root="%s" Colors={%s} MinTags=2\n'
                'INVARIANTS Disjoint Complete Common2 TwoSubs Split Emit\nCHECK_DEADLOCK FALSE\n' % (root, colors), workers=8, timeout=600)
        ctx.model(r, 'MortarMC ' + root)
        ms = r.tagged('MARK')
        rng.shuffle(ms)
        for m in ms[:ctx.pick(25, 400)]:
            tags = list(m['tags'])
            rng.shuffle(tags)
            mesh = dict(td=len(m['cells'][0])-1, gd=len(m['cells'][0])-1, x=COORDS[root], cells=[[v-1 for v in c] for c in m['cells']])
            cases.append(dict(what='mc', mesh=mesh, vals=m['vals'], markers=tags, strict=rng.random() < .5, given=False, traces=rng.random() < .4,
                              S=1, seed=rng.randint(0, 10**6)))
    for k in range(ctx.pick(60, 900)):
        S = rng.choice([1, 1, 7])
        if rng.random() < .6:
            m = M.tri_grid(rng.randint(2, 5), rng.randint(2, 4), rng)
        else:
            m = M.tet_grid(rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2))
        m = M.sheared(m, rng)
        if S > 1:
            m['x'] = [[t*2001 + 12 for t in p] for p in m['x']]
        m['S'] = S
        ntags = rng.randint(2, 4)
        tags = rng.sample([0, 1, 2, 3, 5, 9], ntags)
        vals = regions(m, tags, rng) if rng.random() < .7 else [rng.choice(tags) for _ in m['cells']]
        if len(set(vals)) < 2:
            continue
        markers = sorted(set(vals))
        rng.shuffle(markers)
        markers = markers[:rng.randint(2, len(markers))]
        cases.append(dict(what='random', mesh=m, vals=vals, markers=markers, strict=rng.random() < .6, given=rng.random() < .25, traces=True, S=S, seed=rng.randint(0, 10**6)))
    return cases


def regions(m, tags, rng):
    """Grow connected regions from random cells"""
    n = len(m['cells'])
    near = [[j for j in range(n) if len(set(m['cells'][i]) & set(m['cells'][j])) == m['td']] for i in range(n)]
    own = {}
    for t, c in zip(tags, rng.sample(range(n), min(len(tags), n))):
        own[c] = t
    while len(own) < n:
        f = [(c, d) for c in own for d in near[c] if d not in own]
        c, d = rng.choice(f)
        own[d] = own[c]
    return [own[c] for c in range(n)]


def setup():
    global df, np, xii
    import dolfin as df, numpy as np, xii
    df.set_log_level(50)


def partial(map_, n):
    """The map as a list from 1, 0 where there is none"""
    out = [0]*n
    if hasattr(map_, 'items'):
        for k, v in map_.items():
            if v is not None and 0 <= k < n:
                out[int(k)] = int(v)+1
    else:
        for k, v in enumerate(map_):
            if v is not None and k < n:
                out[k] = int(v)+1
    return out


def sub_record(sub, key, S):
    td = sub.topology().dim()
    pm = sub.parent_entity_map[key]
    n, nc = sub.num_vertices(), sub.num_cells()
    return dict(M.snapshot(sub, S), mark=M.vals(sub.marking_function), vmap=M.seqmap(pm[0], n), cmap=M.seqmap(pm[td], nc))


def run(case):
    rng = random.Random(case['seed'])
    S = case['S']
    m = dict(case['mesh'])
    order = list(range(len(m['cells'])))
    # renumber cells and vertices, values follow the cells
    key = {frozenset(map(tuple, [m['x'][v] for v in c])): t for c, t in zip(m['cells'], case['vals'])}
    m = M.permuted(m, rng)
    vals = [key[frozenset(tuple(m['x'][v]) for v in c)] for c in m['cells']]
    msh = M.mesh(m)
    td = m['td']
    f = df.MeshFunction('size_t', msh, td, 0)
    for i, v in enumerate(vals):
        f[i] = v
    facets = M.ents(msh, td-1)
    ev = [dict(ev='mesh', **M.snapshot(msh, S), facets=facets, vals=M.vals(f))]
    e = dict(ev='split', markers=list(case['markers']), strict=bool(case['strict']), given=bool(case['given']), iter=[])
    kw = {}
    if case['given']:
        g = df.MeshFunction('size_t', msh, td-1, 0)
        pick = rng.sample(range(len(facets)), rng.randint(len(facets)//2, len(facets)))
        for i in pick:
            g[i] = 1
        e['iter'] = sorted(i+1 for i in pick)
        kw['ifacet_iter'] = df.SubsetIterator(g, 1)
    ev.append(e)
    try:
        markers = case['markers'] if rng.random() < .5 else tuple(case['markers'])
        subs, iface, colors = xii.mortar_meshes(f, markers, strict=case['strict'], **kw)
        n = iface.num_cells()
        for s in subs:
            s.init(td-1)
        maps = [partial(iface.parent_entity_map[s.id()][td-1], n) if s.id() in iface.parent_entity_map else [0]*n for s in subs]
        e['r'] = dict(subs=[sub_record(s, msh.id(), S) for s in subs], iface=sub_record(iface, msh.id(), S),
                      colors=[[int(i)+1 for i in c] for c in colors], maps=maps,
                      vmaps=[partial(iface.parent_entity_map.get(s.id(), {}).get(0, {}), iface.num_vertices()) for s in subs], facets=[M.ents(s, td-1) for s in subs])
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        return ev
    e['after'] = dict(mesh=M.snapshot(msh, S), vals=M.vals(f))
    if not case['traces']:
        return ev
    todo = [(i, c) for c, ps in enumerate(colors) for i in ps]
    rng.shuffle(todo)
    todo = todo[:4] + [(-1, -1)]
    rng.shuffle(todo)
    for i, c in todo:
        a = [rng.randint(-2, 2) for _ in range(td)]
        e = dict(ev='trace', sub=i+1, color=c, a=a)
        ev.append(e)
        try:
            bg = msh if i < 0 else subs[i]
            V, Q = df.FunctionSpace(bg, 'CG', 1), df.FunctionSpace(iface, 'DG', 0)
            u = df.interpolate(df.Expression('+'.join('(%d)*x[%d]' % (t, k) for k, t in enumerate(a)), degree=1), V)
            dx = df.Measure('dx', domain=iface, subdomain_data=iface.marking_function)
            if c >= 0:
                dx = dx(c)
            L = df.inner(xii.Trace(u, iface, tag=None if i < 0 else [k for k, ps in enumerate(colors) if i in ps]), df.TestFunction(Q))/df.CellVolume(iface)*dx
            b = xii.ii_convert(xii.ii_assemble(L)).get_local()
            dm = Q.dofmap()
            e['val'] = [scaled(b[dm.cell_dofs(k)[0]]*td*S) for k in range(iface.num_cells())]
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return ev
