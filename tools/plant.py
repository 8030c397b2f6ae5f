#!/usr/bin/env python3
"""plant.py SPEC.py: makes /verif/seeded/<id>/ from a spec (ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO),
in a scratch copy of /repo; keeps it only if the demonstration passes without and fails with the change. `--check` also runs
the property's check against the change (VERIF_REPO), for the record."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


NATIVE = """
# compiles the two extension modules of the tree, unmodified, against header stand-ins (pybind11, GSL and OpenMP are not installed)
import atexit, os, shutil, sys, tempfile
os.environ['VERIF_REPO'] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import target
SCRATCH = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, SCRATCH, True)
target.VERIF = SCRATCH
target.install()
"""

STUB = """
# the compiled modules are not needed here: stand-ins with the names they export
import enum, sys, types
for n in ('four', 'three'):
    m = types.ModuleType('interactions.%s_particle.cpp.integral' % n)
    for a in 'integration M_t grid_t particle_t reaction_t integration_3 grid_t3 particle_t3 reaction_t3 distribution_interpolation'.split():
        setattr(m, a, None)
    m.CollisionIntegralKind = enum.Enum('Kind', 'Full F_1 F_f Full_vacuum_decay F_1_vacuum_decay F_f_vacuum_decay F_creation F_decay')
    pkg = types.ModuleType('interactions.%s_particle.cpp' % n); pkg.__path__ = []
    sys.modules[pkg.__name__] = pkg; sys.modules[m.__name__] = m
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def plant(spec):
    s = runpy.run_path(spec)
    scratch = tempfile.mkdtemp(prefix='vplant-')
    os.chmod(scratch, 0o755)
    try:
        tree = os.path.join(scratch, 'repo')
        sh(['git', 'clone', '-q', '/repo', tree], '/')
        d = os.path.join(scratch, 'demo')
        os.makedirs(d)
        head = '#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\n' \
               'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n'
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write(head)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        pre = s.get('PRE')
        if pre == 'native':
            os.makedirs(os.path.join(d, 'mc'))
            shutil.copy(os.path.join(ROOT, 'mc', 'target.py'), os.path.join(d, 'mc'))
            open(os.path.join(d, 'mc', '__init__.py'), 'w').close()
            shutil.copytree(os.path.join(ROOT, 'shim'), os.path.join(d, 'shim'))
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write({None: '', 'native': NATIVE, 'stub': STUB}[pre].lstrip('\n') + s['DEMO'].lstrip('\n'))
        a = sh(['bash', os.path.join(d, 'demo.sh')], tree, timeout=300)
        for fn, old, new in s['EDITS']:
            path = os.path.join(tree, fn)
            text = open(path, encoding='utf8').read()
            assert text.count(old) == 1, (fn, old, text.count(old))
            open(path, 'w', encoding='utf8').write(text.replace(old, new))
        b = sh(['bash', os.path.join(d, 'demo.sh')], tree, timeout=300)
        patch = sh(['git', 'diff'], tree).stdout
        print(s['ID'], 'demo unchanged:', a.returncode, 'changed:', b.returncode)
        if a.returncode != 0 or b.returncode == 0:
            print(a.stdout[-1500:], '\n----\n', b.stdout[-1500:])
            return 1
        out = os.path.join(ROOT, 'seeded', s['ID'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        with open(os.path.join(out, 'patch.diff'), 'w', encoding='utf8') as f:
            f.write(patch)
        with open(os.path.join(out, 'meta.json'), 'w', encoding='utf8') as f:
            json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, f, indent=1, ensure_ascii=False)
            f.write('\n')
        if '--check' in sys.argv:
            r = sh(['./check', s['PROPERTY'], 'quick'], ROOT, env=dict(os.environ, VERIF_REPO=tree))
            print('   check exit', r.returncode, '|', (r.stdout.strip().splitlines() or [''])[0][:250])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(max(plant(a) for a in sys.argv[1:] if not a.startswith('--')))
