"""plant.py FILE: write planted bugs to /verif/seeded from a Python file which calls
bug(id, property, [(file, old, new), ...], needs, breaks, demo)."""
import json, os, subprocess, sys
SEED = '/verif/seeded'
SH = '''#!/bin/bash
# run in the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/jit" "$tmp/mpl" "$tmp/run"
[ -d /opt/vp/cache/dijitso ] && cp -a /opt/vp/cache/dijitso/. "$tmp/jit/"
export DIJITSO_CACHE_DIR="$tmp/jit" MPLCONFIGDIR="$tmp/mpl" PYTHONPATH="$PWD"
cd "$tmp/run" && python -W ignore "$here/demo.py"
'''
HEAD = '''import dolfin as df, numpy as np, xii, block
from xii import *
df.set_log_level(50)


def mat(a):
    from petsc4py import PETSc
    a = np.array(a, dtype=float)
    A = PETSc.Mat().createAIJ(size=a.shape, comm=PETSc.COMM_WORLD)
    A.setUp()
    for i, j in np.ndindex(*a.shape):
        if a[i, j] or i == j:
            A.setValue(i, j, a[i, j])
    A.assemble()
    return df.PETScMatrix(A)


def vec(v):
    x = df.Vector(df.MPI.comm_world, len(v))
    x.set_local(np.array(v, dtype=float))
    return x


'''
made = []


def bug(id, prop, edits, needs, breaks, demo):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    g = lambda *a: subprocess.run(('git', '-C', '/repo') + a, capture_output=True, text=True, check=True).stdout
    assert not g('status', '--porcelain'), 'repo not clean'
    try:
        for f, old, new in edits:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %d occurences in %s of\n%s' % (id, s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        diff = g('diff')
    finally:
        g('checkout', '--', '.')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    made.append(id)


if __name__ == '__main__':
    only = sys.argv[2:]
    real = bug
    if only:
        bug = lambda id, *a: real(id, *a) if id in only else None
    exec(open(sys.argv[1]).read())
    print(' '.join(made))
