#!/usr/bin/env python3-vt
"""check.py ID [quick|thorough]: decide one property on /repo's current tree."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['VERIF_REPO'] = REPO


def child(modname, tier, idx, conn):
    from irv.run import verify_unit
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('props.' + modname)
    u = mod.units(tier)[idx]
    r = verify_unit(u)
    conn.send(dict(title=r.title, status=r.status, reason=r.reason, wall=round(r.wall, 2), queries=r.queries,
                   solver=round(r.solver, 2),
                   obls=[(o.name, o.status, o.backend, o.line, o.model, o.fn) for o in r.obls],
                   models=r.models, contracts=r.contracts, inlined=list(r.inlined),
                   loops=[list(map(str, l[:3])) + [l[3] if isinstance(l[3], list) else str(l[3])] for l in r.loops]))
    conn.close()


class Harness(threading.Thread):
    """compiles and runs the concrete program of a property"""

    def __init__(self, spec, tier, seed):
        super().__init__()
        self.spec, self.tier, self.seed = spec, tier, seed
        self.status = 'none'
        self.text = ''
        self.cases = self.nontrivial = 0
        self.dir = tempfile.mkdtemp(prefix='vth')
        self.wall = 0
        self.limit = spec.get('limit', 200) * (4 if tier == 'thorough' else 1)

    def sh(self, cmd, timeout):
        return subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout)

    def run(self):
        t0 = time.time()
        try:
            self.go()
        except Exception as e:
            self.status, self.text = 'broken', 'harness driver: %r' % (e,)
        self.wall = time.time() - t0

    def go(self):
        sp = self.spec
        inc = ['-I' + REPO, '-I' + REPO + '/pwned-lib', '-I' + VERIF + '/harness']
        flags = ['-std=c++17', '-O1', '-w', '-DNO_POPCNT', '-DNDEBUG'] + sp.get('flags', [])
        jobs = []
        objs = []

        def cc(src, out, extra=()):
            jobs.append((src, subprocess.Popen(['g++'] + flags + list(extra) + inc + ['-c', src, '-o', out],
                                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        exe = self.dir + '/h'
        main = self.dir + '/main.o'
        cc(VERIF + '/harness/' + sp['src'], main)
        objs.append(main)
        o = {}

        def obj(s):
            if s not in o:
                o[s] = '%s/%s.o' % (self.dir, s.replace('/', '_'))
                cc(os.path.join(REPO, s), o[s])
            return o[s]
        for s in sp.get('repo', []):
            objs.append(obj(s))
        bins = {}
        for name, srcs, libs in sp.get('bins', []):
            bins[name] = ([obj(s) for s in srcs], libs)
        for src, p in jobs:
            err = p.communicate()[1]
            if p.returncode != 0:
                self.status, self.text = 'nocompile', '%s does not compile: %s' % (src, err[-1500:])
        if self.status == 'nocompile' and os.environ.get('VT_TRACE'):
            print(self.text)
        if self.status == 'nocompile':
            return
        links = [(exe, objs, sp.get('libs', []))] + [(self.dir + '/' + n, b, l) for n, (b, l) in bins.items()]
        for out, ob, libs in links:
            r = self.sh(['g++'] + ob + ['-o', out] + sp.get('ldflags', []) + ['-l' + l for l in libs] + ['-lcrypto', '-lpthread'], 300)
            if r.returncode != 0:
                self.status, self.text = 'nocompile', 'linking: ' + r.stderr[-1500:]
                if os.environ.get('VT_TRACE'):
                    print(self.text)
                return
        work = self.dir + '/work'
        os.mkdir(work)
        scale = sp.get('thorough', 10) if self.tier == 'thorough' else 1
        p = subprocess.Popen([exe, str(self.seed), str(scale), work], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, cwd=work,
                             env=dict(os.environ, VT_BIN=self.dir))
        try:
            out, err = p.communicate(timeout=self.limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            self.status = 'fail'
            self.text = 'the code does not terminate (or is far too slow) within %d s on this case:\n%s' % (self.limit, self.last(work))
            return
        if p.returncode == 0 and 'OK cases=' in out:
            self.status = 'pass'
            for w in out.split():
                if w.startswith('cases='):
                    self.cases = int(w[6:])
                if w.startswith('nontrivial='):
                    self.nontrivial = int(w[11:])
            return
        self.status = 'fail'
        self.text = out[-6000:] + ('' if 'FAIL' in out else '\nexit status %s on this case:\n%s\n%s' % (p.returncode, self.last(work), err[-2000:]))

    def last(self, work):
        try:
            return open(work + '/case.txt', errors='replace').read()[:6000]
        except OSError:
            return '?'


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    hs = getattr(mod, 'harness', None)
    h = None
    if hs:
        h = Harness(hs, tier, seed)
        h.start()
    # compile each translation unit once, before forking
    from irv import run as R
    units = mod.units(tier)
    for key in {(u.tu, tuple(u.extra)) for u in units}:
        try:
            R.compile_tu(key[0], key[1])
        except R.TUError:
            pass
    results = [None] * len(units)
    pending = list(range(len(units)))
    running = {}
    maxproc = 8
    mult = 3 if tier == 'thorough' else 1
    while pending or running:
        while pending and len(running) < maxproc:
            i = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=child, args=(pid, tier, i, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i in list(running):
            p, a, ts = running[i]
            if a.poll(0.02):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = dict(title=units[i].title, status='undecided', reason='verifier process ended', wall=0, queries=0,
                                      solver=0, obls=[], models={}, contracts={}, inlined=[], loops=[])
                p.join()
                del running[i]
            elif time.time() - ts > units[i].budget * mult + 30:
                p.kill()
                p.join()
                results[i] = dict(title=units[i].title, status='undecided', reason='time limit', wall=time.time() - ts, queries=0,
                                  solver=0, obls=[], models={}, contracts={}, inlined=[], loops=[])
                del running[i]
    if h:
        h.join()
    # ---- verdict
    failed = [r for r in results if r['status'] == 'failed']
    undecided = [r for r in results if r['status'] == 'undecided']
    proved = [r for r in results if r['status'] == 'proved']
    os.makedirs(VERIF + '/replay', exist_ok=True)
    evdir = VERIF + ('/evidence' if REPO == '/repo' else '/replay/scratch-evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = VERIF + '/replay/%s.txt' % pid
    violation = None
    text = ''
    if failed:
        text += 'Property %s: obligations that the verifier refutes on the current source\n\n' % pid
        for r in failed:
            text += 'function under contract: %s\n' % r['title']
            for o in r['obls']:
                if o[1] == 'failed':
                    text += '  FAILED obligation "%s" (line %s, back end %s)\n' % (o[0], o[3], o[2])
                    for l in (o[4] or [])[:60]:
                        text += '      %s\n' % l
            text += '\n'
    if h and h.status == 'fail':
        text += 'Concrete failing input, run against the real code (harness/%s, seed %d):\n%s\n' % (hs['src'], seed, h.text)
        text += '\nTo repeat: VERIF_SEED=%d python3-vt %s/check.py %s %s\n' % (seed, VERIF, pid, tier)
    if failed or (h and h.status == 'fail'):
        with open(replay, 'w') as f:
            f.write(text)
        violation = 'VIOLATION property=%s replay=%s' % (pid, replay)
        if not (h and h.status == 'fail'):
            violation += ' no-failing-input-found'
    # ---- evidence
    nob = sum(len(r['obls']) for r in results)
    ndis = sum(1 for r in results for o in r['obls'] if o[1] == 'proved')
    back = {}
    for r in results:
        for o in r['obls']:
            if o[1] == 'proved':
                back[o[2]] = back.get(o[2], 0) + 1
    models, contracts, inl = {}, {}, set()
    for r in results:
        for k, v in r['models'].items():
            models[k] = models.get(k, 0) + v
        for k, v in r['contracts'].items():
            contracts[k] = contracts.get(k, 0) + v
        inl.update(x for x in r['inlined'] if 'pwned::' in x or not x.startswith('std::'))
    trusted = ['clang 18 front end (the IR verified is the one it emits for the current source at -O0)',
               'irv: the IR semantics and VC generator in /verif/irv', 'z3 5.3.2' + (', cvc5 1.4.2' if back.get('cvc5') else '')]
    trusted += ['assumed contract: ' + k[:150] for k in sorted(models)]
    level = getattr(mod, 'level', 'proof')
    ev = dict(property=pid, tier=tier, seed=seed, level=level,
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='python3-vt check.py %s %s' % (pid, tier),
                  trusted_base=trusted,
                  functions_under_contract=[dict(function=r['title'], status=r['status'], reason=r['reason'][:400],
                                                 obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[1] == 'proved'),
                                                 solver_s=r['solver'], queries=r['queries'], wall_s=r['wall'],
                                                 loops=r['loops'][:12]) for r in results],
                  back_ends=back,
                  solver_time_s=round(sum(r['solver'] for r in results), 1),
                  contracts_used_at_calls=sorted(contracts),
                  bodies_inlined=sorted(inl)[:80],
                  undecided=[dict(function=r['title'], reason=r['reason'][:400]) for r in undecided],
                  bounded_stand_in=[r['title'] for r in undecided],
                  validation=dict(kind='concrete runs of the compiled code against an independent oracle; validates the '
                                       'assumptions, stands in (bounded) for undecided functions, never counted as proved',
                                  status=h.status if h else 'none', evaluations=h.cases if h else 0,
                                  distinct_nontrivial=h.nontrivial if h else 0, wall_s=round(h.wall, 1) if h else 0,
                                  note=(h.text[:600] if h and h.status not in ('pass',) else ''))),
              assumptions=getattr(mod, 'assumptions', []),
              wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    with open(evdir + '/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if h:
        shutil.rmtree(h.dir, ignore_errors=True)
    print('%s: %d functions under contract, %d proved, %d undecided, %d refuted; %d/%d obligations discharged; runs: %s (%d cases)'
          % (pid, len(results), len(proved), len(undecided), len(failed), ndis, nob, h.status if h else 'none', h.cases if h else 0))
    for r in undecided:
        print('  undecided: %s (%s)' % (r['title'], r['reason'].strip().split('\n')[-1][:200]))
    for line in known_findings(pid):
        print(line)
    if violation:
        for r in failed:
            for o in r['obls']:
                if o[1] == 'failed':
                    print('  refuted: %s: %s (line %s)' % (r['title'], o[0], o[3]))
        if h and h.status == 'fail':
            print('  ' + h.text.strip().split('\n')[0][:300])
        print(violation)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


def known_findings(pid):
    out = []
    try:
        for l in open(VERIF + '/KNOWN_FINDINGS.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append('KNOWN-FINDING: ' + l[len('finding: '):])
    except OSError:
        pass
    return out


if __name__ == '__main__':
    main()
