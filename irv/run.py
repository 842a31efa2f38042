"""Verification units: a unit puts functions of the repository under contract and
discharges the obligations generated from the current source."""
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from .ir import Module, Unsupported
from .engine import (Engine, State, Budget, Missing, IV, BoolV, PV, FnV, FV, Agg, UNDEF, NULL, And, Or, Not, If, Eq,
                     Implies, zval, zb, simp, Obligation)
from . import lib

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CLANG = ['clang++', '-std=c++17', '-DNO_POPCNT', '-DNDEBUG', '-O0', '-gline-tables-only', '-S', '-emit-llvm', '-w',
         '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names']


class TUError(Exception):
    pass


_mods = {}


def compile_tu(src, extra=()):
    """LLVM IR of a translation unit, compiled from the current working tree"""
    key = (src, tuple(extra))
    if key in _mods:
        return _mods[key]
    path = src if src.startswith('/') else os.path.join(VERIF, 'tu', src)
    d = tempfile.mkdtemp(prefix='irv')
    out = os.path.join(d, 'x.ll')
    cmd = CLANG + ['-I' + REPO, '-I' + REPO + '/pwned-lib', '-I' + os.path.dirname(path)] + list(extra) + [path, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise TUError('compiling %s: %s' % (src, r.stderr[-1500:]))
    m = Module(open(out).read())
    subprocess.run(['rm', '-rf', d])
    m.src = src
    _mods[key] = m
    return m


class Unit:
    """one function (or small group) under contract"""
    title = '?'
    tu = None
    extra = ()
    dom = 'int'
    overflow = True
    safety = True
    reals = False
    need_termination = True
    termination = True
    timeout_ms = 8000
    budget = 120
    candgens = ()
    unroll = None
    lib = ()
    contracts = ()

    def bounds(self, eng):
        return []

    def open_source(self, eng, st, name):
        return None

    def engine(self):
        mod = compile_tu(self.tu, self.extra)
        e = Engine(mod, dom=self.dom, lib=list(lib.compile_models(self.lib)) + lib.BASE, contracts=list(self.contracts),
                   timeout_ms=self.timeout_ms, deadline=time.time() + self.budget)
        e.cur = self
        e.reals = self.reals
        e.termination = self.termination
        e.candgens = list(self.candgens)
        if self.unroll is not None:
            e.unroll_pred = self.unroll
        return e

    def fn(self, eng, pat):
        """the function whose demangled name matches"""
        if pat.startswith('@'):
            f = eng.mod.functions.get(pat)
            if f is None or f.decl:
                raise Unsupported('function %s not found' % pat)
            return f
        rx = re.compile(pat)
        hits = []
        for n, f in eng.mod.functions.items():
            if not f.decl and rx.search(eng.dem(n)):
                hits.append(f)
        if not hits:
            raise Unsupported('function /%s/ not found' % pat)
        if len(hits) > 1:
            # complete- and base-object constructors are the same function
            hits.sort(key=lambda f: f.name)
            c1 = [f for f in hits if re.search(r'C1E|C2E', f.name)]
            if len(hits) == len(c1):
                c2 = [f for f in hits if 'C2E' in f.name]
                return (c2 or hits)[0]
            raise Unsupported('function /%s/ ambiguous: %s' % (pat, [eng.dem(h.name) for h in hits]))
        eng.no_contract.add(hits[0].name)
        return hits[0]

    def run(self, eng):
        raise NotImplementedError


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.title = unit.title
        self.obls = []
        self.status = None
        self.reason = ''
        self.wall = 0
        self.models = {}
        self.contracts = {}
        self.inlined = {}
        self.loops = []
        self.queries = 0
        self.solver = 0.0


def verify_unit(unit):
    r = Result(unit)
    t0 = time.time()
    eng = None
    try:
        eng = unit.engine()
        unit.run(eng)
        fails = [o for o in eng.obls if o.status == 'failed']
        unk = [o for o in eng.obls if o.status == 'unknown']
        if fails:
            r.status = 'failed'
        elif unk:
            r.status, r.reason = 'undecided', 'solver gave no answer for: ' + unk[0].name
        elif not any(o.name.startswith('ensures') for o in eng.obls):
            r.status, r.reason = 'undecided', 'no postcondition was generated (vacuous)'
        else:
            r.status = 'proved'
    except (Unsupported, Budget, TUError) as e:
        fails = [o for o in eng.obls if o.status == 'failed'] if eng else []
        r.status = 'undecided'
        r.reason = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VT_TRACE'):
            traceback.print_exc()
        if fails:
            r.status = 'failed'
            r.reason = 'obligation failed, then ' + r.reason
    except Exception as e:      # a defect of the verifier is never an alarm
        r.status = 'undecided'
        r.reason = 'internal: ' + traceback.format_exc()[-4000:]
    if eng is not None:
        r.obls = eng.obls
        r.models, r.contracts, r.inlined = eng.used_models, eng.used_contracts, eng.inlined
        r.loops, r.queries, r.solver = eng.loop_stats, eng.queries, eng.solver_time
    r.wall = time.time() - t0
    return r


def obj(eng, st, name, size):
    return eng.new_region(st, name, size, 'obj', lazy=True)
