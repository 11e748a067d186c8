"""Incremental in-place build of the Cython extensions of the repository under test.

Same content-hash scheme (and stamp file, which is gitignored) as the project's build wrapper, so that a stale
extension is never imported. Usage: python build_ext.py REPO"""
import glob
import hashlib
import json
import os
import subprocess
import sys

REPO = sys.argv[1]
os.chdir(REPO)
STAMP = 'build/ext-hashes.json'


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


pyx = {p: p[:-4] for p in glob.glob('copulae/**/*.pyx', recursive=True)}
shared = sorted(p for p in ['setup.py', 'setup.cfg', 'pyproject.toml'] + glob.glob('copulae/**/*.px[di]', recursive=True)
                if os.path.exists(p))
shared = {p: sha(p) for p in shared}
now = {'shared': shared, 'pyx': {p: sha(p) for p in pyx}}

try:
    with open(STAMP) as f:
        last = json.load(f)
except (OSError, ValueError):
    last = {'shared': None, 'pyx': {}}


def products(base):
    return [p for pat in (base + '.c', base + '.*.so', 'build/lib*/' + base + '.*.so', 'build/temp*/' + base + '.o')
            for p in glob.glob(pat)]


stale = set()
for p in set(pyx) | set(last['pyx']):
    if last['shared'] != now['shared'] or last['pyx'].get(p) != now['pyx'].get(p):
        stale.update(products(os.path.splitext(p)[0]))
for so in glob.glob('copulae/**/*.so', recursive=True):
    if so.split('.')[0] + '.pyx' not in pyx:
        stale.add(so)
have_all = all(glob.glob(b + '.cpython-312-*.so') for b in pyx.values())
if not stale and have_all and last == now:
    sys.exit(0)

for p in stale:
    os.remove(p)
if os.path.exists(STAMP):
    os.remove(STAMP)
r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace']).returncode
if r or not all(glob.glob(b + '.cpython-312-*.so') for b in pyx.values()):
    print('building the extensions failed')
    sys.exit(r or 1)
os.makedirs('build', exist_ok=True)
with open(STAMP, 'w') as f:
    json.dump(now, f)
