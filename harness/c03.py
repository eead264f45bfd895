"""C03  Geometric embedding maps are sound, complete for the tags, and grow safely."""
import json, random
from core import tlc
import meshes as M
NOTE = ('All request histories up to the depth bound over two backgrounds (one possibly not containing some tag) are replayed on renumbered meshes; '
        'every map entry is compared with the geometry. Bounded meshes, serial, integer coordinates (tolerances of the code not probed).')
TRACE = 'EmbeddingTrace'
TECHNIQUE = ('TLA+ model of incremental embedding maps (Embedding); TLC enumerates request histories, they are replayed and every recorded '
             'state of knowledge validated by TLC against the geometry')


def plan(ctx):
    rng = random.Random(ctx.seed)
    hs = {}
    for nb, depth in [('{1}', 3), ('{1,2}', 2)]:
        cfg = ('SPECIFICATION Spec\nCONSTANTS Tags={1,2,3} Cells={1,2,3} Backgrounds=%s Depth=%d\n'
               'INVARIANTS Complete Sound Emit\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n' % (nb, depth))
        r = tlc('EmbeddingMC', cfg, workers=8, timeout=600)
        ctx.model(r, 'EmbeddingMC backgrounds %s depth %d' % (nb, depth))
        for h in r.tagged('HIST'):
            hs[json.dumps(h, sort_keys=True)] = h
    hs = [hs[k] for k in sorted(hs)]
    if len(hs) > ctx.pick(500, 4000):
        hs = rng.sample(hs, ctx.pick(500, 4000))
    cases = []
    for h in hs:
        kind = rng.choice(['plain', 'extracted', 'extracted', 'marked'])
        dims = rng.choice([2, 2, 3])
        cases.append(dict(what='history', kind=kind, dims=dims, seed=rng.randint(0, 10**6), steps=h['steps'], bad=h['bad']))
    for _ in range(ctx.pick(80, 800)):
        cases.append(dict(what='build', dims=rng.choice([2, 2, 3]), codim=rng.choice([1, 1, 2]), seed=rng.randint(0, 10**6),
                          all=rng.random() < .5, bad=rng.random() < .2))
    for _ in range(ctx.pick(60, 600)):
        cases.append(dict(what='embed', dims=rng.choice([2, 2, 3]), seed=rng.randint(0, 10**6), bad=rng.random() < .2))
    for what in ('embed', 'build', 'embed'):
        for k in ([1, 2], [1, 3], [2, 1], [3, 1], [2, 3]):
            for dims in (2, 3):
                for _ in range(ctx.pick(1, 8)):
                    cases.append(dict(what=what, units=k, dims=dims, codim=1, seed=rng.randint(0, 10**6), bad=False, all=rng.random() < .5))
    return cases


def setup():
    global df, np, xii
    import dolfin as df, numpy as np, xii
    df.set_log_level(50)


def background(rng, dims):
    m = M.tri_grid(rng.randint(1, 3), rng.randint(1, 3), rng) if dims == 2 else M.tet_grid(rng.randint(1, 2), 1, 1)
    return M.sheared(m, rng)


def known(em, bgs):
    out = []
    td = em.topology().dim()
    for b in bgs:
        k = getattr(em, 'parent_entity_map', {}).get(b.id(), {})
        out.append(dict(v=M.seqmap(k.get(0, {}), em.num_vertices()), c=M.seqmap(k.get(td, {}), em.num_cells())))
    return out


def bg_event(b, dim):
    return dict(ev='background', dim=dim, ents=M.ents(b, dim), **M.snapshot(b))


def run(case):
    rng = random.Random(case['seed'])
    return {'history': history, 'build': build, 'embed': embed}[case['what']](case, rng)


def pieces(rng, m, fdim, ntags, n):
    """Some facets of the mesh with tags 1..ntags (all used)"""
    fs = M.entities(m, fdim)
    rng.shuffle(fs)
    fs = fs[:max(ntags, n)]
    tags = [i+1 if i < ntags else rng.randint(1, ntags) for i in range(len(fs))]
    return fs, tags


def without(rng, m, facets):
    """Remove the cells next to the facets; None if nothing is left"""
    keep = [c for c in m['cells'] if not any(set(f) <= set(c) for f in facets)]
    return M.subset(m, keep) if keep else None


def history(case, rng):
    dims = case['dims']
    fdim = dims - 1
    while True:
        m = background(rng, dims)
        fs, tags = pieces(rng, m, fdim, 3, rng.randint(3, 8))
        nbg = max(s['bg'] for s in case['steps'])
        specs = []
        for b in range(1, nbg+1):
            k = without(rng, m, [f for f, t in zip(fs, tags) if t == 3]) if b in case['bad'] else m
            # the facets with other tags must survive
            if k is not None and b in case['bad']:
                xs = {frozenset(tuple(k['x'][v]) for v in e) for e in M.entities(k, fdim)}
                if not all(frozenset(tuple(m['x'][v]) for v in f) in xs for f, t in zip(fs, tags) if t != 3) or \
                        any(frozenset(tuple(m['x'][v]) for v in f) in xs for f, t in zip(fs, tags) if t == 3):
                    k = None
            specs.append(k)
        if all(k is not None for k in specs):
            break
        if rng.random() < .01 or True:
            # try again on other meshes; give up restricting after a while
            case = dict(case, tries=case.get('tries', 0) + 1)
            if case['tries'] > 60:
                case['bad'] = []
    bgs = [M.mesh(M.permuted(k, rng)) for k in specs]
    # the embedded mesh
    col = dict(zip(fs, tags))
    if case['kind'] == 'extracted':
        src = M.mesh(m)
        f = df.MeshFunction('size_t', src, fdim, 0)
        for i, e in enumerate(M.ents(src, fdim)):
            f[i] = col.get(tuple(sorted(v-1 for v in e)), 0)
        em = xii.EmbeddedMesh(f, [1, 2, 3])
        mark = M.vals(em.marking_function)
    else:
        order = list(range(len(fs)))
        rng.shuffle(order)
        p = M.subset(dict(m, td=fdim), [fs[i] for i in order])
        em = M.mesh(p)
        mark = [tags[i] for i in order]
        if case['kind'] == 'marked':
            mf = df.MeshFunction('size_t', em, fdim, 0)
            for i, t in enumerate(mark):
                mf[i] = t
            em.marking_function = mf
    ev = [dict(ev='mesh', mark=mark, **M.snapshot(em))] + [bg_event(b, fdim) for b in bgs]
    if case['kind'] == 'plain':
        ev[0]['mark'] = [0]*len(mark)
    for s in case['steps']:
        b = bgs[s['bg']-1]
        tags_ = sorted(s['tags'])
        e = dict(ev='request', bg=s['bg'], tags=tags_ if case['kind'] != 'plain' else [0])
        V = df.FunctionSpace(b, 'CG', 1)
        TV = df.FunctionSpace(em, 'DG', 0)
        u, v = df.TrialFunction(V), df.TestFunction(TV)
        dx_ = df.Measure('dx', domain=em)
        try:
            Tu = xii.Trace(u, em, tag=set(tags_)) if case['kind'] != 'plain' else xii.Trace(u, em)
            xii.ii_assemble(df.inner(Tu, v)*dx_)
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        e['known'] = known(em, bgs)
        ev.append(e)
    return ev


def build(case, rng):
    dims = case['dims']
    fdim = max(1, dims - case['codim'])
    m, b_ = nested(rng, dims, case['units']) if 'units' in case else [background(rng, dims)]*2
    fs, tags = pieces(rng, m, fdim, 1 if rng.random() < .3 else 2, rng.randint(1, 8))
    p = M.subset(dict(m, td=fdim), fs)
    if case['bad']:
        v = rng.randrange(len(p['x']))
        how = rng.choice(['move', 'outside'])
        q = list(p['x'][v])
        q[0] += 1 if how == 'move' else 50
        p['x'][v] = q
    em, bg = M.mesh(p), M.mesh(M.permuted(b_, rng))
    ev = [dict(ev='mesh', mark=tags, **M.snapshot(em)), bg_event(bg, fdim)]
    from xii.meshing.embedded_mesh import build_embedding_map
    asked = sorted(rng.sample(sorted(set(tags)), rng.randint(1, len(set(tags)))))
    e = dict(ev='build', bg=1, all=case['all'], tags=asked)
    td = fdim
    got = {}
    try:
        if case['all']:
            got = build_embedding_map(em, bg)
        else:
            f = df.MeshFunction('size_t', em, fdim, 0)
            for i, t in enumerate(tags):
                f[i] = t
            got = build_embedding_map(em, bg, esubdomains=f, tags=rng.choice([set, list])(asked))
        e['out'] = 'ok'
    except Exception as x:
        e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    e['got'] = dict(v=M.seqmap(got.get(0, {}), em.num_vertices()), c=M.seqmap(got.get(td, {}), em.num_cells()))
    ev.append(e)
    return ev


def nested(rng, dims, units):
    """The same box in cells of size units[0] and units[1]"""
    n = [rng.randint(1, 2 if max(units) == 2 or dims == 2 else 1) if max(units) < 3 or dims == 2 else 1 for _ in range(dims)]
    if dims == 3:
        n[1:] = [1, 1]
    size = units[0]*units[1]
    grid = M.tri_grid if dims == 2 else M.tet_grid
    return [grid(*[k*size//u for k in n], step=2*u) for u in units]


def inside(x, facet):
    """Is the point in the simplex"""
    p = np.array(facet, dtype=float)
    a = (p[1:] - p[0]).T
    t = np.linalg.lstsq(a, np.array(x, dtype=float) - p[0], rcond=None)[0]
    return np.abs(a.dot(t) + p[0] - x).max() < 1E-8 and t.min() > -1E-8 and t.sum() < 1 + 1E-8


def embed(case, rng):
    """Interface declared on one mesh, looked up on others"""
    dims = case['dims']
    fdim = dims - 1
    m, b_ = nested(rng, dims, case['units']) if 'units' in case else [background(rng, dims)]*2
    fs, tags = pieces(rng, m, fdim, 1, rng.randint(1, 8))
    src, bgs = M.mesh(m), [M.mesh(M.permuted(b_, rng)) for _ in range(2)]
    f = df.MeshFunction('size_t', src, fdim, 0)
    tab = {tuple(sorted(e)): i for i, e in enumerate(M.ents(src, fdim))}
    for e, t in zip(fs, tags):
        f[tab[tuple(sorted(v+1 for v in e))]] = t
    em = xii.EmbeddedMesh(f, 1)
    ev = [dict(ev='mesh', mark=M.vals(em.marking_function), **M.snapshot(em))] + [bg_event(b, fdim) for b in bgs]
    places = {frozenset(tuple(m['x'][v]) for v in e) for e in fs}
    for bi in (1, 2, 1):
        b = bgs[bi-1]
        x = b.coordinates()
        g = df.MeshFunction('size_t', b, fdim, 0)
        here = [i for i, e in enumerate(M.ents(b, fdim))
                if frozenset(tuple(int(round(t)) for t in x[v-1]) for v in e) in places]
        if 'units' in case:
            # All that is in the interface or contains some of it
            em_x = [[m['x'][v] for v in f_] for f_ in fs]
            bx = [[x[v-1] for v in e] for e in M.ents(b, fdim)]
            here = [i for i, e in enumerate(bx) if any(all(inside(p, f_) for p in e) or all(inside(p, e) for p in f_) for f_ in em_x)]
            if not here:
                here = [rng.randrange(len(bx))]
            here = rng.sample(here, rng.choice([1, 1, len(here)]))
        for i in here:
            g[i] = rng.choice([5, 6])
        if case['bad'] and b.num_entities(fdim) > len(here):
            g[rng.choice([i for i in range(b.num_entities(fdim)) if i not in here])] = 5
        T = sorted(set(M.vals(g)) & {5, 6})
        T = sorted(rng.sample(T, rng.randint(1, len(T))))
        e = dict(ev='embed', bg=bi, vals=M.vals(g), tags=T)
        try:
            em.compute_embedding(g, T[0] if len(T) == 1 and rng.random() < .5 else T)
            e['out'] = 'ok'
        except Exception as y:
            e['out'] = '%s: %s' % (type(y).__name__, str(y)[:80])
        e['known'] = known(em, bgs)
        ev.append(e)
    return ev
