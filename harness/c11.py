"""C11  Mesh refinements tile the parent and know their parents."""
import json, random
from core import tlc, scaled, BAD
import meshes as M
NOTE = ('Refinement histories (centroid, circumcentre, dual; one or several steps at once and one after another) of random renumbered meshes of lines, triangles and '
        'tetrahedra, also embedded in more dimensions; exact integer geometry. Circumcentres on acute meshes only, as the construction demands.')
TRACE = 'RefineTrace'
TECHNIQUE = ('TLA+ model of the refinements and of tiling (Refine); TLC checks that every model refinement tiles its parent, '
             'recorded refinement histories validated by TLC')
PER_CASE = 90


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('RefineMC', 'SPECIFICATION Spec\nCONSTANTS MaxSteps=%d\nINVARIANTS TilesParent TilesRoot Stay Proper\nCHECK_DEADLOCK FALSE\n' % ctx.pick(2, 3),
            workers=8, timeout=ctx.pick(300, 3000), heap='6g')
    ctx.model(r, 'RefineMC')
    cases = []
    kinds = ['line', 'line', 'tri', 'tri', 'tri', 'tet', 'tet1', 'surf', 'acute', 'acute', 'acute3', 'acutetet', 'obtuse', 'acuteline']
    for k in range(ctx.pick(16, 250)):
        if k % 4 == 0:
            kinds1 = kinds + ['big', 'big', 'deep', 'long']
        else:
            kinds1 = kinds
        for w in kinds1:
            cases.append(random_case(rng, w))
    return cases


def random_case(rng, w):
    steps = []
    # many vertices or many steps
    if w == 'big':
        return dict(what='tri', steps=[dict(kind=rng.choice(['star', 'star', 'dual']), centre='centroid', n=2)],
                    nx=rng.randint(4, 5), ny=rng.randint(2, 3), seed=rng.randint(0, 10**6))
    if w == 'deep':
        n = rng.randint(1, 3)
        steps = [dict(kind='star', centre='centroid', n=k) for k in (n, 3-n) if k > 0]
        return dict(what='tri', steps=steps, nx=rng.randint(1, 2), ny=1, seed=rng.randint(0, 10**6))
    if w == 'long':
        n = rng.randint(2, 4)
        return dict(what='line', steps=[dict(kind='star', centre='centroid', n=n)], nx=rng.randint(10, 14), ny=1, seed=rng.randint(0, 10**6))
    if w in ('line', 'tri', 'tet', 'tet1', 'surf'):
        total = {'line': 4, 'tri': 2, 'tet': 1, 'tet1': 2, 'surf': 2}[w]
        left = rng.randint(1, total)
        while left > 0:
            n = rng.randint(1, left)
            steps.append(dict(kind='dual' if w in ('tri', 'surf') and rng.random() < .5 else 'star', centre='centroid', n=n))
            left -= n
    elif w == 'obtuse':
        steps.append(dict(kind='star', centre='circum', n=1))
    else:
        steps.append(dict(kind='dual' if w in ('acute', 'acute3') and rng.random() < .5 else 'star', centre='circum', n=1))
    return dict(what=w, steps=steps, nx=rng.randint(1, 3), ny=rng.randint(1, 2), seed=rng.randint(0, 10**6))


def setup():
    global df, np, xii, R, D, F
    import dolfin as df, numpy as np, xii
    import xii.meshing.refinement as R
    import xii.meshing.dual_mesh as D
    import fe as F
    df.set_log_level(50)


def acute(nx, ny):
    """Rows of triangles with base 8 and height 8"""
    x, cells = [], []
    idx = {}

    def at(p):
        if p not in idx:
            idx[p] = len(x)
            x.append(list(p))
        return idx[p]
    for j in range(ny):
        for i in range(nx):
            s = 4*(j % 2)
            a, b = at((8*i + s, 8*j)), at((8*i + 8 + s, 8*j))
            c = at((8*i + 4 + (s if j % 2 == 0 else 0) + (0 if j % 2 == 0 else s), 8*j + 8))
            cells.append([a, b, c])
            if i + 1 < nx:
                cells.append([b, c, at((8*i + 12 + s, 8*j + 8))])
    used = sorted({v for c in cells for v in c})
    new = {v: i for i, v in enumerate(used)}
    return dict(td=2, gd=2, x=[x[v] for v in used], cells=[[new[v] for v in c] for c in cells])


def lift(rng, m, shear=True):
    """The plane mesh somewhere in space"""
    x = [list(p) + [0] for p in m['x']]
    axes = [0, 1, 2]
    rng.shuffle(axes)
    x = [[p[a] for a in axes] for p in x]
    return dict(m, gd=3, x=x)


def make(rng, case):
    w, f = case['what'], 1
    for s in case['steps']:
        f *= (6 if s['kind'] == 'dual' else {'line': 2, 'acuteline': 2, 'tet': 4, 'tet1': 4, 'acutetet': 1}.get(w, 3))**s['n'] if s['centre'] == 'centroid' else 2
    if w in ('line', 'acuteline'):
        gd = rng.randint(1, 3) if w == 'line' else rng.randint(2, 3)
        m = M.chain(case['nx'] + 1, gd, 1)
        for i, p in enumerate(m['x']):
            for k in range(1, gd):
                p[k] = rng.randint(-2, 2)
    elif w == 'tri':
        m = M.sheared(M.tri_grid(case['nx'], case['ny'], rng, 1), rng)
    elif w == 'surf':
        m = M.tet_grid(1, 1, 1, 1)
        m = M.subset(dict(m, td=2), rng.sample(M.entities(m, 2), 4))
        m = M.sheared(m, rng)
    elif w == 'tet':
        m = M.sheared(M.tet_grid(1, 1, rng.randint(1, 2), 1), rng)
    elif w == 'tet1':
        m = M.tet_grid(1, 1, 1, 1)
        m = M.sheared(M.subset(m, m['cells'][:rng.randint(1, 2)]), rng)
    elif w in ('acute', 'acute3'):
        m = acute(case['nx'], case['ny'])
        if w == 'acute3':
            m = lift(rng, m)
    elif w == 'acutetet':
        m = dict(td=3, gd=3, x=[[0, 0, 0], [2, 2, 0], [2, 0, 2], [0, 2, 2]], cells=[[0, 1, 2, 3]])
    else:
        m = acute(case['nx'], case['ny'])
        m['x'] = [[p[0]*4, p[1]] for p in m['x']]
    m = dict(m, x=[[t*f for t in p] for p in m['x']])
    return M.permuted(m, rng)


def run(case):
    rng = random.Random(case['seed'])
    m = make(rng, case)
    meshes = [M.mesh(m)]
    ev = [dict(ev='mesh', **M.snapshot(meshes[0]))]
    full = m['td'] == m['gd']
    for s in case['steps']:
        src = len(meshes)
        par = meshes[-1]
        td = par.topology().dim()
        if True:
            e = dict(ev='centres', src=src, centre=s['centre'])
            if case['what'] != 'obtuse':
                ev.append(e)
            try:
                c = (xii.CellCentroid if s['centre'] == 'centroid' else xii.CellCircumcenter)(par)
                dm, v = c.function_space().dofmap(), c.vector().get_local()
                e['pts'] = [[scaled(v[d]) for d in dm.cell_dofs(k)] for k in range(par.num_cells())]
                e['out'] = 'ok'
            except Exception as x:
                e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
        e = dict(ev='refine', src=src, kind=s['kind'], centre=s['centre'], n=s['n'], full=full, valid=case['what'] != 'obtuse')
        ev.append(e)
        try:
            if s['kind'] == 'dual':
                ch = D.dual_mesh(par, center={'centroid': 'centroid', 'circum': 'circumcenter'}[s['centre']], nrefs=s['n'])
            else:
                ch = (R.centroid_refine if s['centre'] == 'centroid' else R.circumcenter_refine)(par, nrefs=s['n'])
            maps = ch.parent_entity_map[par.id()]
            e.update(M.snapshot(ch))
            e['cmap'] = M.seqmap(maps[td], ch.num_cells())
            e['vmap'] = sorted([int(a)+1, int(b)+1] for a, b in maps[0].items())
            e['after'] = M.snapshot(par)
            e['out'] = 'ok'
            meshes.append(ch)
        except Exception as x:
            if e['valid']:
                import traceback; traceback.print_exc()
            e['after'] = M.snapshot(par)
            e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
            break
    return ev
