"""Simplicial meshes as plain integer data (planning, no dolfin) and as dolfin objects (workers).
A mesh is dict(td=, gd=, x=[[int..]..], cells=[[v..]..]) with vertices numbered from 0."""
import itertools, random

# ------------------------------------------------------------------ generators (pure python)


def chain(n, gd=1, step=2):
    x = [[i*step] + [0]*(gd-1) for i in range(n+1)]
    return dict(td=1, gd=gd, x=x, cells=[[i, i+1] for i in range(n)])


def tri_grid(nx, ny, rng=None, step=2):
    idx = lambda i, j: i + j*(nx+1)
    x = [[i*step, j*step] for j in range(ny+1) for i in range(nx+1)]
    cells = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = idx(i, j), idx(i+1, j), idx(i, j+1), idx(i+1, j+1)
            if rng is not None and rng.random() < .5:
                cells += [[a, b, d], [a, c, d]]
            else:
                cells += [[a, b, c], [b, c, d]]
    return dict(td=2, gd=2, x=x, cells=cells)


def tet_grid(nx, ny, nz, step=2):
    idx = lambda i, j, k: i + (nx+1)*(j + (ny+1)*k)
    x = [[i*step, j*step, k*step] for k in range(nz+1) for j in range(ny+1) for i in range(nx+1)]
    cells = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                for p in itertools.permutations(range(3)):
                    at = [i, j, k]
                    c = [idx(*at)]
                    for d in p:
                        at[d] += 1
                        c.append(idx(*at))
                    cells.append(c)
    return dict(td=3, gd=3, x=x, cells=cells)


def permuted(m, rng):
    """Same mesh with vertices and cells renumbered"""
    n = len(m['x'])
    p = list(range(n))
    rng.shuffle(p)                       # new number of old vertex v is p[v]
    x = [None]*n
    for v in range(n):
        x[p[v]] = m['x'][v]
    cells = [[p[v] for v in c] for c in m['cells']]
    rng.shuffle(cells)
    return dict(m, x=x, cells=cells)


def sheared(m, rng):
    """Unimodular integer map of the coordinates"""
    gd = m['gd']
    if gd == 1:
        return m
    x = [list(p) for p in m['x']]
    for _ in range(rng.randint(0, 2)):
        i, j = rng.sample(range(gd), 2)
        s = rng.choice([-1, 1])
        for p in x:
            p[i] += s*p[j]
    return dict(m, x=x)


def entities(m, dim):
    """Vertex sets of all entities of the dimension"""
    return sorted({tuple(sorted(s)) for c in m['cells'] for s in itertools.combinations(c, dim+1)})


def subset(m, cells):
    """Mesh of some cells (vertices renumbered, unused dropped)"""
    used = sorted({v for c in cells for v in c})
    new = {v: i for i, v in enumerate(used)}
    return dict(m, x=[m['x'][v] for v in used], cells=[[new[v] for v in c] for c in cells])


# ------------------------------------------------------------------ dolfin side


def mesh(m):
    import dolfin as df
    out = df.Mesh()
    ed = df.MeshEditor()
    ed.open(out, {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[m['td']], m['td'], m['gd'])
    ed.init_vertices(len(m['x']))
    ed.init_cells(len(m['cells']))
    for i, x in enumerate(m['x']):
        ed.add_vertex(i, [float(t)/m.get('S', 1) for t in x])
    for i, c in enumerate(m['cells']):
        ed.add_cell(i, list(c))
    ed.close()
    return out


def ents(msh, dim):
    """Vertices (from 1) of every entity of the dimension"""
    td = msh.topology().dim()
    if dim == 0:
        return [[v+1] for v in range(msh.num_vertices())]
    if dim == td:
        return [[int(v)+1 for v in c] for c in msh.cells()]
    msh.init(dim, 0)
    e2v = msh.topology()(dim, 0)
    return [[int(v)+1 for v in e2v(e)] for e in range(msh.num_entities(dim))]


def coords(msh, S=1):
    from core import scaled
    return [[scaled(t, S) for t in p] for p in msh.coordinates()]


def snapshot(msh, S=1):
    return dict(x=coords(msh, S), cells=ents(msh, msh.topology().dim()))


def vals(f):
    return [int(v) for v in f.array()]


def seqmap(d, n):
    """Map kept as dict or sequence -> list of images from 1; 0 where missing"""
    if isinstance(d, dict):
        return [int(d[i])+1 if i in d else 0 for i in range(n)]
    d = list(d)
    return [int(d[i])+1 if i < len(d) and d[i] is not None else 0 for i in range(n)]


def keysok(d, n):
    return sorted(int(k) for k in d.keys()) == list(range(n)) if isinstance(d, dict) else len(list(d)) == n
