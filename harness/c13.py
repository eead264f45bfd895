"""C13  Markers survive transfer between meshes."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
from c02 import ROOTS
from c12 import partial, regions
NOTE = ('Chains of extractions with markings of every dimension carried along (TLC histories and random larger meshes), overlap meshes, mortar interfaces which are only '
        'partly mapped, embeddings computed afterwards into a renumbered mesh; both interfaces (translate_markers, transfer_markers), all or some tags, onto markings made before.')
TRACE = 'MarkersTrace'
TECHNIQUE = ('TLA+ model of marker transfer through partial maps (Markers); TLC enumerates/simulates chains of transfers and checks that they compose, '
             'they are replayed and recorded transfers validated by TLC')
PER_CASE = 60


def plan(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    jobs = [('seg', 2, 1, 0), ('tri2', 1, 1, 0), ('tri2', 3, 3, ctx.pick(60, 800)), ('tri4', 3, 3, ctx.pick(80, 1500)), ('tet2', 3, 3, ctx.pick(100, 2000))]
    if ctx.tier != 'quick':
        jobs += [('tri2', 2, 1, 0), ('seg', 2, 2, 0)]
    for root, ncol, depth, sim in jobs:
        cfg = ('SPECIFICATION Spec\nCONSTANTS Root="%s" Colors={%s} Depth=%d Simulated=%s\nINVARIANTS Compose Covers Emit\nCHECK_DEADLOCK FALSE\n'
               % (root, ','.join(str(i+1) for i in range(ncol)), depth, 'TRUE' if sim else 'FALSE'))
        args = ['-simulate', 'num=%d' % sim, '-depth', str(depth+1), '-seed', str(ctx.seed)] if sim else []
        r = tlc('MarkersMC', cfg, args=args, workers=1 if sim else 8, timeout=900)
        ctx.model(r, 'MarkersMC %s%s' % (root, ' simulated' if sim else ''))
        hs = list({json.dumps(h, sort_keys=True): h for h in r.tagged('HIST')}.values())
        if sim:
            hs = [h for h in hs if len(h['steps']) == depth]
        else:
            rng.shuffle(hs)
            hs = hs[:ctx.pick(40, 1500)]
        for h in hs:
            cases.append(dict(what='hist', hist=h, seed=rng.randint(0, 10**6)))
    for k in range(ctx.pick(25, 400)):
        for w in ['nested', 'nested', 'overlap', 'mortar', 'computed', 'surface']:
            cases.append(dict(what=w, seed=rng.randint(0, 10**6)))
    return cases


def setup():
    global df, np, xii
    import dolfin as df, numpy as np, xii
    df.set_log_level(50)


class World(object):
    def __init__(self, rng):
        self.rng, self.meshes, self.fs, self.ev = rng, [], [], []

    def start(self, meshes):
        self.meshes = meshes
        self.ev.append(dict(ev='meshes', meshes=[M.snapshot(m) for m in meshes]))

    def index(self, mesh):
        return [i for i, m in enumerate(self.meshes) if m is mesh][0] + 1

    def marking(self, mesh, dim, values):
        f = df.MeshFunction('size_t', mesh, dim, 0)
        table = M.ents(mesh, dim)
        for i, v in enumerate(values(table)):
            f[i] = v
        self.fs.append(f)
        self.ev.append(dict(ev='marking', mesh=self.index(mesh), dim=dim, ents=table, vals=M.vals(f)))
        return f

    def transfer(self, f, child, tags=None, api=None, onto=None):
        rng, td = self.rng, child.topology().dim()
        api = api or rng.choice(['translate', 'transfer'])
        if onto is not None or not hasattr(child, 'translate_markers'):
            api = 'translate' if onto is not None else 'transfer'
        parent = [m for m in self.meshes if m.id() == f.mesh().id()][0]
        fi = [i for i, g in enumerate(self.fs) if g is f][0] + 1
        maps = child.parent_entity_map.get(parent.id(), {})
        e = dict(ev='transfer', to=self.index(child), api=api, all=tags is None, tags=sorted(tags or []), onto=0, ents=M.ents(child, f.dim()),
                 vmap=partial(maps.get(0, {}), child.num_vertices()), cmap=partial(maps.get(td, {}), child.num_cells()))
        e['from'] = fi
        if onto is not None:
            e['onto'] = [i for i, g in enumerate(self.fs) if g is onto][0] + 1
        self.ev.append(e)
        try:
            form = tags
            if tags is not None:
                tags = list(tags)
                rng.shuffle(tags)
                form = rng.choice([list, tuple, set])(tags)
                if len(tags) == 1 and api == 'translate' and rng.random() < .5:
                    form = tags[0]
            if api == 'translate':
                g = child.translate_markers(f, form, onto) if onto is not None else child.translate_markers(f, tags=form)
            else:
                g = xii.transfer_markers(child, f, form) if form is not None else xii.transfer_markers(child, f)
            e['out'] = 'ok' if g.dim() == f.dim() and g.mesh().id() == child.id() else 'other mesh or dimension'
            e['vals'] = M.vals(g)
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
            g = None
        e['after'] = M.vals(f)
        if g is not None and onto is None:
            self.fs.append(g)
        return g

    def colours(self, pool):
        return lambda T: [self.rng.choice(pool) for _ in T]

    def tags(self, pool):
        rng = self.rng
        pool = [p for p in pool if p] + ([12] if rng.random() < .2 else [])
        return None if rng.random() < .4 or not pool else rng.sample(pool, rng.randint(1, len(pool)))

    def sub(self, mesh, dim, frac=.6):
        f = df.MeshFunction('size_t', mesh, dim, 0)
        n = f.size()
        for i in self.rng.sample(range(n), max(1, int(n*frac))):
            f[i] = 1 + i % 2
        cls = xii.SubDomainMesh if dim == mesh.topology().dim() and self.rng.random() < .5 else xii.EmbeddedMesh
        tags = [t for t in (1, 2) if t in set(f.array())]
        return cls(f, tags)


def random_mesh(rng, dims=(1, 2, 3)):
    d = rng.choice(dims)
    if d == 1:
        m = M.chain(rng.randint(3, 8), rng.randint(1, 3))
    elif d == 2:
        m = M.tri_grid(rng.randint(1, 4), rng.randint(1, 3), rng)
        if rng.random() < .3:
            m['x'] = [p + [p[0] - 2*p[1]] for p in m['x']]
            m['gd'] = 3
    else:
        m = M.tet_grid(rng.randint(1, 2), 1, rng.randint(1, 2))
    return M.permuted(M.sheared(m, rng), rng)


def run(case):
    rng = random.Random(case['seed'])
    w = World(rng)
    pool = rng.choice([[0, 1], [0, 1, 2, 3], [1, 5, 7], [0, 0, 0, 4]])
    if case['what'] == 'hist':
        h = case['hist']
        root = ROOTS[h['root']]
        names = {tuple(p): i+1 for i, p in enumerate(root['x'])}
        name = lambda m: [names[tuple(int(round(t)) for t in x)] for x in m.coordinates()]
        msh = M.mesh(M.permuted(root, rng))
        meshes = [msh]
        for s in h['steps']:
            cur = meshes[-1]
            nm = name(cur)
            g = df.MeshFunction('size_t', cur, s['dim'], 0)
            want = {tuple(sorted(c)) for c in s['cells']}
            for i, E in enumerate(M.ents(cur, s['dim'])):
                g[i] = 3 if tuple(sorted(nm[v-1] for v in E)) in want else 0
            meshes.append(xii.EmbeddedMesh(g, 3))
        w.start(meshes)
        col = {tuple(sorted(E)): c for E, c in h['f']}
        nm = name(msh)
        f = w.marking(msh, h['dim'], lambda T: [col[tuple(sorted(nm[v-1] for v in E))] for E in T])
        for s, child in zip(h['steps'], meshes[1:]):
            if not s['tags']:
                break
            f = w.transfer(f, child, s['tags'])
            if f is None:
                break
        return w.ev
    if case['what'] in ('nested', 'surface'):
        msh = M.mesh(random_mesh(rng, (1, 2, 3) if case['what'] == 'nested' else (2, 3)))
        meshes = [msh]
        for k in range(rng.randint(1, 3)):
            td = meshes[-1].topology().dim()
            d = td if case['what'] == 'nested' or td == 1 else rng.randint(1, td-1)
            meshes.append(w.sub(meshes[-1], d, rng.choice([.3, .7, 1])))
        w.start(meshes)
        f = w.marking(msh, rng.randint(0, meshes[-1].topology().dim()-1), w.colours(pool))
        for child in meshes[1:]:
            t = w.tags(pool)
            g = w.transfer(f, child, t)
            if g is None:
                break
            if rng.random() < .5:       # a second set of tags onto it
                other = w.marking(f.mesh(), f.dim(), w.colours([0, 2, 9]))
                if rng.random() < .5:
                    w.transfer(other, child, w.tags([0, 2, 9]), onto=g)
            f = g
        return w.ev
    if case['what'] == 'overlap':
        msh = M.mesh(M.permuted(M.sheared(M.tri_grid(rng.randint(2, 4), 2, rng) if rng.random() < .6 else M.tet_grid(2, 1, 1), rng), rng))
        td = msh.topology().dim()
        c = df.MeshFunction('size_t', msh, td, 0)
        while True:
            v = [rng.choice([1, 2, 3]) for _ in range(c.size())]
            if set(v) == {1, 2, 3}:
                break
        c.array()[:] = v
        m1, m2 = xii.SubDomainMesh(c, (1, 3)), xii.SubDomainMesh(c, (2, 3))
        m12 = xii.OverlapMesh(m1, m2)
        w.start([msh, m1, m2, m12])
        d = rng.randint(0, td-1)
        f = w.marking(msh, d, w.colours(pool))
        f1, f2 = w.transfer(f, m1, w.tags(pool)), w.transfer(f, m2, w.tags(pool))
        for m, g in ((m1, f1), (m2, f2)):
            if g is not None:
                w.transfer(g, m12, w.tags(pool))
        return w.ev
    if case['what'] == 'mortar':
        m = M.permuted(M.sheared(M.tri_grid(rng.randint(2, 4), 3, rng) if rng.random() < .4 else M.tet_grid(2, 1, rng.randint(1, 2)), rng), rng)
        msh = M.mesh(m)
        td = m['td']
        c = df.MeshFunction('size_t', msh, td, 0)
        c.array()[:] = regions(m, [1, 2, 3], rng)
        subs, iface, colors = xii.mortar_meshes(c, (1, 2, 3), strict=False)
        subs = list(subs)
        w.start([msh, iface] + subs)
        d = rng.randint(0, td-2)
        f = w.marking(msh, d, w.colours(pool))
        w.transfer(f, iface, w.tags(pool))
        for s in subs:
            if s.id() not in iface.parent_entity_map:
                continue
            g = w.transfer(f, s, w.tags(pool))
            if g is not None:
                w.transfer(g, iface, w.tags(pool))
        return w.ev
    if case['what'] == 'computed':
        m = random_mesh(rng, (2, 3))
        a, b = M.mesh(m), M.mesh(M.permuted(m, rng))
        td = m['td']
        child = w.sub(a, td-1, rng.choice([.3, .7]))
        # the same facets in the other mesh
        g = df.MeshFunction('size_t', b, td-1, 0)
        xs = lambda msh, E: frozenset(tuple(int(round(t)) for t in msh.coordinates()[v-1]) for v in E)
        have = {xs(child, E) for E in M.ents(child, td-1)}
        for i, E in enumerate(M.ents(b, td-1)):
            if xs(b, E) in have:
                g[i] = 1
        child.compute_embedding(g, 1)
        w.start([a, b, child])
        for msh in rng.sample([a, b], 2):
            f = w.marking(msh, rng.randint(0, td-2), w.colours(pool))
            w.transfer(f, child, w.tags(pool))
        return w.ev
