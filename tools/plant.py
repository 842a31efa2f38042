"""Writes /verif/seeded/<id>/ from tools/plants/*.py and confirms each planted bug in a scratch copy.
usage: plant.py [-c] [ids...]   (-c: also run the check of the property against it)"""
import sys, os, subprocess, json, glob, shutil, tempfile
V = '/verif'
args = [a for a in sys.argv[1:] if not a.startswith('-')]
runcheck = '-c' in sys.argv
plants = {}


def plant(id, prop, edits, needs, breaks, demo, srcs=(), libs='', files=None, sh=None):
    plants[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, srcs=srcs, libs=libs, files=files or {}, sh=sh)


DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds for this case
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
g++ -std=c++17 -O1 -w -DNO_POPCNT -I. -Ipwned-lib "$here/demo.cpp" %s -o "$dir/demo" %s -lcrypto -lpthread || exit 0
cd "$dir" && timeout 100 ./demo
'''
for f in sorted(glob.glob(V + '/tools/plants/*.py')):
    exec(open(f).read())
W = '/tmp/plantrepo'
subprocess.run(['rm', '-rf', W])
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
try:
    for id, p in plants.items():
        if args and id not in args and p['prop'] not in args:
            continue
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
        bad = False
        for file, old, new in p['edits']:
            s = open(W + '/' + file).read()
            if s.count(old) != 1:
                print(id, 'EDIT does not apply (%d)' % s.count(old), file)
                bad = True
                break
            # blame: the lines changed must be original
            open(W + '/' + file, 'w').write(s.replace(old, new))
        if bad:
            continue
        d = V + '/seeded/' + id
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if p['demo']:
            open(d + '/demo.cpp', 'w').write(p['demo'])
        open(d + '/demo.sh', 'w').write(p['sh'] or DEMO % (' '.join(p['srcs']), p['libs']))
        os.chmod(d + '/demo.sh', 0o755)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, errors='replace')
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=W, capture_output=True, text=True, errors='replace')
        line = '%-28s %s clean=%d planted=%d' % (id, p['prop'], a.returncode, b.returncode)
        if a.returncode or not b.returncode:
            line += '  DEMO BAD: ' + (a.stdout + a.stderr + b.stdout + b.stderr)[-400:]
        if runcheck:
            t = tempfile.mkdtemp()
            c = subprocess.run(['python3-vt', 'check.py', p['prop']], cwd=V, capture_output=True, text=True, errors='replace',
                               env=dict(os.environ, VERIF_REPO=W))
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            line += '  check=%d %s' % (c.returncode, (v or c.stdout.splitlines()[-1:] or [c.stderr[-200:]])[0][:170])
        print(line, flush=True)
finally:
    subprocess.run(['rm', '-rf', W])
