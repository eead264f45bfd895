#!/usr/bin/env python3
"""Nothing to build: parse every specification and import the code under test once."""
import glob, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
sys.dont_write_bytecode = True
import core
os.chdir(core.SPEC)
for f in sorted(glob.glob('*.tla')):
    p = subprocess.run(['java', '-cp', core.JAR, 'tla2sany.SANY', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or 'Errors' in p.stdout or 'Abort' in p.stdout:
        print(p.stdout)
        sys.exit(1)
p = subprocess.run([core.PY, '-W', 'ignore', '-c', 'import dolfin, xii'], env=core.code_env())
print('specifications parse; code imports' if p.returncode == 0 else 'code does not import')
sys.exit(0)
