"""mut.py PROP FILE OLD NEW [PROP FILE OLD NEW ...]: the verdict of a check on a scratch copy of the source with one text replaced"""
import subprocess, sys, os, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
for i in range(0, len(a), 4):
    prop, f, old, new = a[i:i + 4]
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    B = os.environ.get('MUT_BASE', '/repo')
    subprocess.run('cd %s && tar c --exclude=.git --exclude=_build . | tar x -C %s' % (B, d) if B != '/repo' else 'cd /repo && git archive HEAD | tar x -C ' + d, shell=True, check=True)
    s = open(d + '/' + f).read()
    if old not in s:
        print('NOT FOUND', old)
        continue
    open(d + '/' + f, 'w').write(s.replace(old, new, 1))
    r = subprocess.run(['python3-vt', V + '/check.py', prop, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
    print('---', prop, repr(old[:60]), '->', repr(new[:60]), 'exit', r.returncode)
    print('\n'.join(l[:260] for l in r.stdout.split('\n')[:6]))
    t = open(V + '/replay/%s.txt' % prop).read() if r.returncode == 1 else ''
    print('\n'.join([l for l in t.split('\n') if 'FAILED' in l or l.startswith('FAIL')][:3])[:500])
    shutil.rmtree(d)
