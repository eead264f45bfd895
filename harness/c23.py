"""C23  Cell and facet centres, and distances between them, are the geometry's."""
import random
from core import tlc, scaled, BAD
import meshes as M
NOTE = ('Histories of moving single vertices of 11 small meshes (lines, triangles, tetrahedra; also lines and surfaces in more dimensions) and asking for centres, '
        'vectors and distances, generated by the model, with renumbered vertices and other units of length; centres exact, lengths to 1/256 of the unit.')
TRACE = 'CentresTrace'
TECHNIQUE = ('TLA+ model of the centres of a moving mesh (Centres); TLC checks the laws of the centres on all short histories and generates long ones, '
             'replayed on dolfin meshes and validated by TLC')
PER_CASE = 120
FP = 1024
NAMES = {('cell', 'centroid'): 'CellCentroid', ('cell', 'circum'): 'CellCircumcenter',
         ('facet', 'centroid'): 'FacetCentroid', ('facet', 'circum'): 'FacetCentroid',
         ('vector', 'centroid'): 'CentroidVector', ('vector', 'circum'): 'CircumVector',
         ('distance', 'centroid'): 'CentroidDistance', ('distance', 'circum'): 'CircumDistance',
         ('through', 'centroid'): 'CentroidDistance2', ('through', 'circum'): 'CircumDistance2'}


def plan(ctx):
    rng = random.Random(ctx.seed)
    r = tlc('CentresMC', 'SPECIFICATION Spec\nCONSTANTS Mode="small" MaxOps=%d\nINVARIANTS Good Equidistant OrderFree Orthogonal Detour Shift\nVIEW View\n'
            'CHECK_DEADLOCK FALSE\n' % ctx.pick(2, 4), workers=8, timeout=ctx.pick(300, 3000), heap='6g')
    ctx.model(r, 'CentresMC small')
    hs = []
    for n, num in ((7, ctx.pick(60, 600)), (16, ctx.pick(80, 900)), (40, ctx.pick(20, 300))):
        r = tlc('CentresMC', 'SPECIFICATION Spec\nCONSTANTS Mode="sim" MaxOps=%d\nINVARIANTS Good\nCHECK_DEADLOCK FALSE\n' % n,
                args=['-simulate', 'num=%d' % num, '-depth', '200', '-seed', str(ctx.seed + n)], timeout=800)
        ctx.model(r, 'CentresMC sim %d' % n)
        hs += r.tagged('HIST')
    return [dict(what='history', ops=h, S=rng.choice([1, 1, 8, 1000, .25]), seed=rng.randint(0, 10**6)) for h in hs]


def group(case):
    o = case['ops'][0]
    return len(o['cells'][0]), len(o['x'][0])


def setup():
    global df, np, xii, C
    import dolfin as df, numpy as np, xii
    import xii.meshing.cell_centers as C
    df.set_log_level(50)


def det(A):
    if len(A) == 1:
        return A[0][0]
    return sum((-1)**j*A[0][j]*det([r[:j] + r[j+1:] for r in A[1:]]) for j in range(len(A)))


def gram(p):
    u = [[a-b for a, b in zip(q, p[0])] for q in p[1:]]
    return det([[sum(a*b for a, b in zip(v, w)) for w in u] for v in u])


def per_facet(f, msh):
    """Values of a function on facets, read from each cell around"""
    V, td = f.function_space(), msh.topology().dim()
    v = f.vector().get_local()
    msh.init(td, td-1)
    c2f = msh.topology()(td, td-1)
    out = [[] for _ in range(msh.num_entities(td-1))]
    for c in range(msh.num_cells()):
        fs = [int(k) for k in c2f(c)]
        if td == 1:
            # facets are the vertices, in the order of the cell
            fs = [int(k) for k in msh.cells()[c]]
        dofs = V.dofmap().cell_dofs(c)
        n = len(fs)
        assert len(dofs) % n == 0
        for i, k in enumerate(fs):
            out[k].append([v[d] for d in dofs[i::n]])
    return out


def near(x, S):
    x = float(x)*S*FP
    return int(round(x)) if x == x and abs(x) < 1E9 else BAD


def run(case):
    rng = random.Random(case['seed'])
    S = case['S']
    ops = case['ops']
    m = dict(td=len(ops[0]['cells'][0])-1, gd=len(ops[0]['x'][0]), x=ops[0]['x'], cells=[[v-1 for v in c] for c in ops[0]['cells']])
    # the same mesh with other numbers
    n = len(m['x'])
    new = list(range(n))
    rng.shuffle(new)
    x = [None]*n
    for v in range(n):
        x[new[v]] = list(m['x'][v])
    cells = [rng.sample([new[v] for v in c], len(c)) for c in m['cells']]
    rng.shuffle(cells)
    m = dict(m, x=x, cells=cells, S=S)
    msh = M.mesh(m)
    td, gd = m['td'], m['gd']
    ev = [dict(ev='mesh', mesh=M.snapshot(msh, S))]
    for o in ops[1:]:
        if o['op'] == 'move':
            v = new[o['v']-1]
            msh.coordinates()[v] += np.array(o['d'])/float(S)
            ev.append(dict(ev='move', v=v+1, d=o['d']))
        elif o['op'] == 'ask':
            if (td, gd) == (1, 1) and o['what'] == 'cell' and o['kind'] == 'circum':
                continue        # not offered
            e = dict(ev='ask', what=o['what'], kind=o['kind'])
            ev.append(e)
            try:
                f = getattr(C, NAMES[(o['what'], o['kind'])])(msh)
                if o['what'] == 'cell':
                    v, dm = f.vector().get_local(), f.function_space().dofmap()
                    x = [[int(round(t*S)) for t in p] for p in msh.coordinates()]
                    e['val'] = []
                    for c, vs in enumerate(msh.cells()):
                        d = 2*gram([x[k] for k in vs]) if o['kind'] == 'circum' else td+1
                        e['val'].append([[scaled(v[i]*S, d) for i in dm.cell_dofs(c)], d])
                else:
                    val = per_facet(f, msh)
                    e['facets'] = M.ents(msh, td-1)
                    e['val'] = [[[scaled(t*S, td) if o['what'] == 'facet' else near(t, S) for t in w] for w in ws] for ws in val]
                e['after'] = M.snapshot(msh, S)
                e['out'] = 'ok'
            except Exception as x:
                e['out'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return ev
