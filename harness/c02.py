"""C02  Extracting an embedded or sub-domain mesh reproduces the marked set exactly."""
import json, random
from core import tlc, tlc_ok, scaled
import meshes as M
NOTE = ('Exhaustive over markings of small complexes and tag sets (TLC), plus histories of nested extractions by simulation and random larger meshes '
        'with renumbered vertices; all maps and coordinates compared exactly. Bounded mesh sizes, serial only.')
TRACE = 'SubMeshTrace'
TECHNIQUE = ('TLA+ model of extraction histories on simplicial complexes (SubMesh); TLC enumerates/simulates the histories, they are replayed '
             'and the recorded worlds validated by TLC')
ROOTS = {'seg': dict(td=1, gd=1, x=[[0], [2], [4], [6]], cells=[[0, 1], [1, 2], [2, 3]]),
         'tri2': dict(td=2, gd=2, x=[[0, 0], [2, 0], [0, 2], [2, 2]], cells=[[0, 1, 2], [1, 2, 3]]),
         'tri4': dict(td=2, gd=2, x=[[0, 0], [4, 0], [4, 4], [0, 4], [2, 2]], cells=[[0, 1, 4], [1, 2, 4], [2, 3, 4], [0, 3, 4]]),
         'tet2': dict(td=3, gd=3, x=[[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2], [2, 2, 2]], cells=[[0, 1, 2, 3], [1, 2, 3, 4]])}


def histories(ctx, root, depth, colors, sim=None):
    cfg = ('SPECIFICATION %s\nCONSTANTS Root="%s" Depth=%d Colors={%s} TagSets={{1},{2},{1,2}}\n'
           'INVARIANTS Nested MarksTotal MarksAsked Union Emit\nCHECK_DEADLOCK FALSE\n'
           % ('RandomSpec' if sim else 'Spec', root, depth, colors))
    args = ['-simulate', 'num=%d' % sim, '-depth', str(depth+1), '-seed', str(ctx.seed)] if sim else []
    r = tlc('SubMeshMC', cfg, args=args, workers=1 if sim else 8, timeout=600)
    ctx.model(r, 'SubMeshMC %s depth %d%s' % (root, depth, ' simulated' if sim else ''))
    hs = {}
    for h in r.tagged('HIST'):
        hs[json.dumps(h, sort_keys=True)] = h
    hs = list(hs.values())
    if sim:       # keep the longest ones
        hs = [h for h in hs if len(h['steps']) == depth] or hs
    return hs


def plan(ctx):
    rng = random.Random(ctx.seed)
    hs = []
    hs += histories(ctx, 'seg', 1, '0,1,2')
    hs += histories(ctx, 'tri2', 1, '0,1,2')
    hs += histories(ctx, 'seg', 2, '1,2') if ctx.tier != 'quick' else []
    hs += histories(ctx, 'tri2', 3, '0,1,2', sim=ctx.pick(120, 1500))
    hs += histories(ctx, 'tri4', 3, '0,1,2', sim=ctx.pick(120, 1500))
    hs += histories(ctx, 'tet2', 3, '0,1,2', sim=ctx.pick(200, 3000))
    cases = []
    for h in hs:
        m = M.permuted(ROOTS[h['root']], rng)
        # root names: position of the vertex in ROOTS by its coordinates
        cases.append(dict(what='hist', root=h['root'], mesh=M.sheared(m, rng) if False else m, steps=h['steps'],
                          form=rng.choice(['list', 'tuple', 'set', 'int', 'twice'])))
    for n in range(ctx.pick(60, 600)):
        kind = rng.choice(['chain', 'tri', 'tri', 'tet'])
        if kind == 'chain':
            m = M.chain(rng.randint(2, 9), rng.choice([1, 2, 3]))
        elif kind == 'tri':
            m = M.tri_grid(rng.randint(1, 4), rng.randint(1, 4), rng)
            if rng.random() < .5:
                m['x'] = [p + [p[0] - 2*p[1]] for p in m['x']]
                m['gd'] = 3
        else:
            m = M.tet_grid(rng.randint(1, 2), rng.randint(1, 2), 1)
        m = M.permuted(M.sheared(m, rng), rng)
        nsteps = rng.randint(1, 3)
        cases.append(dict(what='random', mesh=m, steps=[
            dict(dim=rng.randint(1, 3), seed=rng.randint(0, 10**6),
                 tags=rng.sample([1, 2, 3, 7], rng.randint(1, 3))) for _ in range(nsteps)],
            form=rng.choice(['list', 'tuple', 'set', 'int', 'twice']), skeleton=rng.random() < .5))
    for n in range(ctx.pick(30, 300)):
        m = M.tri_grid(rng.randint(2, 4), rng.randint(1, 3), rng) if rng.random() < .7 else M.tet_grid(2, 1, 1)
        m = M.permuted(M.sheared(m, rng), rng)
        nc = len(m['cells'])
        while True:
            v = [rng.choice([0, 1, 2, 3]) for _ in range(nc)]
            if {1, 2, 3} <= set(v):
                break
        cases.append(dict(what='overlap', mesh=m, vals=v, order=rng.random() < .5))
    return cases


def setup():
    global df, np, xii
    import dolfin as df, numpy as np, xii
    df.set_log_level(50)


def sub_record(sub, key):
    td = sub.topology().dim()
    pm = sub.parent_entity_map[key]
    n, nc = sub.num_vertices(), sub.num_cells()
    return dict(M.snapshot(sub), mark=M.vals(sub.marking_function), vmap=M.seqmap(pm[0], n), cmap=M.seqmap(pm[td], nc)), \
        bool(M.keysok(pm[0], n) and M.keysok(pm[td], nc))


def astags(tags, form):
    if len(tags) == 1 and form == 'int':
        return tags[0]
    if form == 'twice':             # tags may be repeated
        return list(tags) + list(tags[::-1])
    return {'tuple': tuple, 'set': set}.get(form, list)(tags)


def run(case):
    from xii.meshing.embedded_mesh import Skeleton
    msh = M.mesh(case['mesh'])
    ev = [dict(ev='root', **M.snapshot(msh))]
    world, fs = [msh], []
    names = {}
    if case['what'] == 'hist':
        names = {tuple(p): i+1 for i, p in enumerate(ROOTS[case['root']]['x'])}

    def mark(m, dim, values):
        f = df.MeshFunction('size_t', m, dim, 0)
        table = M.ents(m, dim)
        values = values(table)
        for i, v in enumerate(values):
            f[i] = v
        fs.append(f)
        mi = [i for i, w in enumerate(world) if w is m][0] + 1
        ev.append(dict(ev='marking', mesh=mi, dim=dim, ents=table, vals=M.vals(f)))
        return f, len(fs)

    def extract(f, fi, tags, form):
        e = dict(ev='extract', marking=fi, tags=sorted(tags))
        ev.append(e)
        try:
            cls = xii.SubDomainMesh if f.dim() == f.mesh().topology().dim() and fi % 2 else xii.EmbeddedMesh
            sub = cls(f, astags(tags, form))
            e['sub'], e['keyok'] = sub_record(sub, f.mesh().id())
            e['tagged'] = sorted(int(t) for t in sub.tagged_cells)
            e['out'] = 'ok'
        except Exception as x:
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
            return None
        world.append(sub)
        return sub

    def audit():
        ev.append(dict(ev='audit', meshes=[dict(M.snapshot(m), mark=M.vals(m.marking_function) if m is not msh else []) for m in world],
                       markings=[M.vals(f) for f in fs]))

    cur = msh
    if case['what'] == 'hist':
        for s in case['steps']:
            col = {tuple(sorted(e)): c for e, c in s['marks']}
            x = cur.coordinates()
            name = [names[tuple(int(round(t)) for t in x[v])] for v in range(cur.num_vertices())]
            f, fi = mark(cur, s['dim'], lambda T: [col[tuple(sorted(name[v-1] for v in e))] for e in T])
            cur = extract(f, fi, s['tags'], case['form'])
            if cur is None:
                break
    elif case['what'] == 'random':
        for s in case['steps']:
            rng = random.Random(s['seed'])
            d = min(s['dim'], cur.topology().dim())

            def values(T):
                v = [rng.choice([0, 0, 1, 2, 3, 7]) for _ in T]
                v[rng.randrange(len(v))] = s['tags'][0]
                return v
            f, fi = mark(cur, d, values)
            cur = extract(f, fi, s['tags'], case['form'])
            if cur is None:
                break
        if case['skeleton'] and msh.topology().dim() > 1:
            for b in (True, False):
                tab = M.ents(msh, msh.topology().dim()-1)
                e = dict(ev='skeleton', mesh=1, bdry=b, ents=tab)
                if not b and all(sum(set(t) <= {v+1 for v in c} for c in msh.cells()) < 2 for t in tab):
                    continue
                ev.append(e)
                try:
                    sk = Skeleton(msh, include_boundary=b)
                    e['sub'], _ = sub_record(sk, msh.id())
                    e['out'] = 'ok'
                except Exception as x:
                    e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    else:
        f, fi = mark(msh, msh.topology().dim(), lambda T: case['vals'])
        m1, m2 = extract(f, fi, [1, 3], 'list'), extract(f, fi, [3, 2], 'tuple')
        if m1 is not None and m2 is not None:
            i, j = (2, 3) if case['order'] else (3, 2)
            m1, m2 = world[i-1], world[j-1]
            e = dict(ev='overlap', m1=i, m2=j, tag=3)
            ev.append(e)
            try:
                # OverlapMesh is defined for SubDomainMesh
                om = xii.OverlapMesh(m1, m2)
                td = om.topology().dim()
                p1, p2 = om.parent_entity_map[m1.id()], om.parent_entity_map[m2.id()]
                n, nc = om.num_vertices(), om.num_cells()
                e['sub'] = dict(M.snapshot(om), mark=M.vals(om.marking_function), vmap=[], cmap=[],
                                vmap1=M.seqmap(p1[0], n), cmap1=M.seqmap(p1[td], nc),
                                vmap2=M.seqmap(p2[0], n), cmap2=M.seqmap(p2[td], nc))
                e['out'] = 'ok'
            except Exception as x:
                e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    audit()
    return ev
