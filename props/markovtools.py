"""the mains of the Markov tools: the generator, which trains a model with the passwords of a file and saves it, and the lookup, which tells
the probability of each line under a saved model; over the contracts of UserPasswordReader (reader.py) and Chain (markov*.py)."""
from .strings import *
from . import P23
from .markov import CHAIN
from irv import po
from irv.engine import FV, FSORT
from irv.lib import LineSource, sv_same, Box, src_of, strdata

PW = z3.Function('password', z3.IntSort(), S)               # what entry k of the input yields
TOTAL = z3.Function('probability', S, FSORT)                # the probability of a text under the model loaded
BY = lambda names: re.compile(CHAIN + '(' + names + r')\(')


def g(st, k):
    return st.ghost[(None, 'tool', k)]


def gset(eng, st, k, v):
    st.ghost[(None, 'tool', k)] = v
    eng.log(('ghost', (None, 'tool', k)))


class Input:
    """the input, read by UserPasswordReader only"""


class Output:
    """the output, written by Chain::saveBinary only"""

    def write(self, eng, st, q, p, n, line):
        eng.oblige(st, 'ensures nothing but the model is written', False, line)

    def piece(self, eng, st, q, sv):
        eng.oblige(st, 'ensures nothing but the model is written', False, None)


class Reader:
    """UserPasswordReader (P11, P13): one entry of the input for each call of nextPassword(); an error while it is read shows in bad()"""

    def matches(self, d, name):
        m = re.match(r'pwned::UserPasswordReader::(UserPasswordReader|eof|bad|nextPassword)\(', d)
        if m:
            self.what = m.group(1)
        return m

    def apply(self, eng, st, a, I, line):
        u, k = eng.cur, zval(g(st, 'taken'))
        if self.what == 'UserPasswordReader':
            q = lib.stream(eng, st, a[1])
            if not isinstance(src_of(eng, st, q), Input):
                raise Unsupported('reader of something else than the input')
            eng.oblige(st, 'ensures the input is open', zb(eng.gget(st, q, 'open')), line)
            eng.oblige(st, 'ensures the input is read once', Not(g(st, 'read')), line)
            gset(eng, st, 'read', True)
            return [(st, None)]
        if self.what == 'eof':
            return [(st, BoolV(z3.And(k == u.ENT, z3.Not(zb(g(st, 'bad'))))))]
        if self.what == 'bad':
            return [(st, BoolV(zb(g(st, 'bad'))))]
        eng.oblige(st, 'ensures every password is learned before the next is taken', zval(g(st, 'owed')) == 0, line)
        out = []
        for s, more in eng.fork(st, z3.And(k < u.ENT, z3.Not(zb(g(st, 'bad'))), z3.Not(z3.Bool(eng.fresh_name('broken'))))):
            if more:
                p = PW(k)
                s.add(z3.And(slen(p) >= 0, slen(p) < 1 << 20))
                setstr(eng, s, a[0], SV.base(p))
                gset(eng, s, 'taken', simp(k + 1))
                gset(eng, s, 'owed', z3.If(slen(p) > 0, z3.IntVal(1), z3.IntVal(0)))
                out.append((s, None))
            else:
                setstr(eng, s, a[0], SV([]))
                for s2, fin in eng.fork(s, k == u.ENT):
                    if not fin:
                        gset(eng, s2, 'bad', True)
                    out.append((s2, None))
        return out


class Model:
    """Chain (P14 - P17, P20, P25): what a run does to its model"""

    def matches(self, d, name):
        m = BY(r'Chain|~Chain|train|update|saveBinary|loadBinary|writeJson|totalProbability|clear').match(d)
        if m:
            self.what = m.group(1)
        return m

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        if self.what == '~Chain':
            return [(st, None)]
        if self.what == 'Chain':
            eng.gset(st, a[0], 'model', Box(True))
            eng.oblige(st, 'ensures there is one model', Not(g(st, 'made')), line)
            gset(eng, st, 'made', True)
            return [(st, None)]
        if eng.gget(st, a[0], 'model') is None:
            raise Unsupported('unknown model')
        if self.what == 'train':
            k = zval(g(st, 'taken'))
            sv, p = getstr(eng, st, a[1]), PW(k - 1)
            eng.oblige(st, 'ensures only passwords of the input are learned', z3.And(k >= 1, zb(sv_same(eng, st, sv, SV.base(p)))) if not is_empty(eng, st, sv) else True, line)
            eng.oblige(st, 'ensures each password is learned once', z3.Or(zval(g(st, 'owed')) == 1, zval(sv.length()) == 0), line)
            eng.oblige(st, 'ensures the model is complete before its probabilities are computed', Not(g(st, 'updated')), line)
            gset(eng, st, 'owed', 0)
            # false for a text without symbols
            return [(st, BoolV(z3.And(zval(sv.length()) > 0, z3.Bool(eng.fresh_name('symbols')))))]
        if self.what == 'update':
            eng.oblige(st, 'ensures the probabilities are computed from all passwords of the input', And(zval(g(st, 'owed')) == 0, z3.Or(zb(g(st, 'bad')), zval(g(st, 'taken')) == u.ENT)), line)
            gset(eng, st, 'updated', True)
            return [(st, None)]
        if self.what == 'saveBinary':
            q = lib.stream(eng, st, a[1])
            b = eng.gget(st, q, 'sink')
            eng.oblige(st, 'ensures the model is written to the output', b is not None and isinstance(b.v, Output), line)
            eng.oblige(st, 'ensures the output is open', zb(eng.gget(st, q, 'open')), line)
            eng.oblige(st, 'ensures the model written is complete', And(g(st, 'updated'), True), line)
            eng.oblige(st, 'ensures the model is written once', Not(g(st, 'saved')), line)
            gset(eng, st, 'saved', True)
            return [(st, None)]
        if self.what == 'loadBinary':
            q = lib.stream(eng, st, a[1])
            out = []
            for s, ok in eng.fork(st, z3.And(zb(eng.gget(st, q, 'open')), u.INTACT)):
                if ok and not isinstance(src_of(eng, s, q), Input):
                    raise Unsupported('model from something else than the file')
                gset(eng, s, 'loaded', ok)
                rc, good = eng.iv_sfresh(s, 32, 'error'), const(eng, 'vt_ok')
                s.add(z3.And(rc.t >= 0, (rc.t == good) == z3.BoolVal(ok)))
                out.append((s, rc))
            return out
        if self.what == 'totalProbability':
            eng.oblige(st, 'ensures a model was loaded', And(g(st, 'loaded'), True), line)
            b = eng.gget(st, a[1], 'wide')
            if b is None:
                raise Unsupported('probability of an unknown text')
            return [(st, FV(TOTAL(b.v.term()), 'double'))]
        if self.what == 'writeJson':
            eng.oblige(st, 'ensures the model shown is complete', And(g(st, 'updated'), True), line)
            return [(st, None)]
        raise Unsupported(self.what)


def is_empty(eng, st, sv):
    return eng.valid(st, zval(sv.length()) == 0)


def m_tellg(eng, st, a, I, line, d):
    return (Agg([eng.iv_sfresh(st, 64, 'position'), eng.iv_const(64, 0)]),)


def m_snprintf(eng, st, a, I, line, d):
    """the text of the progress line is not modelled"""
    n = zval(eng.as_u(st, a[1]))
    eng.oblige(st, 'snprintf is given a buffer', n >= 1, line)
    eng.put(st, a[0].r, eng.coff(a[0].off), 1, IV(8, 0))
    return (eng.iv_sfresh(st, 32, 'printed'),)


def m_wide(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'wide', Box(getstr(eng, st, a[1])))
    return (None,)


def m_double(eng, st, a, I, line, d):
    u = eng.cur
    if hasattr(u, 'number'):
        u.number(eng, st, a[1])
    return (a[0],)


COMMON = [(r'(usage|hello|license|warranty)\(\)$', lib.m_void),
          (r'std::vector<pwned::UserPasswordReaderOptions.*>::(~?vector)\(', lib.m_void), (r'pwned::UserPasswordReader::~UserPasswordReader\(\)$', lib.m_void),
          (r'std::istream::tellg\(\)$', m_tellg), (r'snprintf$', m_snprintf),
          (r'std::(ostream::operator<<|ostream& std::ostream::_M_insert<double>)\(double\)$', m_double),
          (r'std::basic_string<wchar_t, .*> boost::locale::conv::utf_to_utf<wchar_t, char>\(std::string const&', m_wide),
          (r'std::(wstring|basic_string<wchar_t, .*>)::~basic_string\(\)$', lib.m_void)]


class Generator(Unit):
    tu = 'markovgen.cpp'
    title = 'main of the Markov generator'
    lib = COMMON + po.MODELS
    contracts = (Reader(), Model())
    termination = True

    @property
    def candgens(self):
        return [self.cands]

    def option(self, eng, st, nm):
        return {'input': self.iname, 'output': self.oname, 'verbose': 'more', 'output-every': self.every}.get(nm)

    def option_object(self, eng, st, nm, p, v, ty):
        if nm != 'verbose':
            raise Unsupported('option type ' + ty)
        eng.store(st, p, ('i', 32), eng.iv_sfresh(st, 32, 'verbosity'), None)

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'ensures the input is the file given', sv_same(eng, st, nm, self.iname))
        return Input(), self.READABLE

    def open_sink(self, eng, st, nm, mode):
        eng.oblige(st, 'ensures the output is the file given', sv_same(eng, st, nm, self.oname))
        m = zval(mode)
        # out or out | trunc, and binary
        eng.oblige(st, 'ensures the output starts empty, and is binary', z3.Or(*[m == x for x in (4, 20, 36, 52)]))
        return Output(), self.WRITABLE

    def cands(self, ctx):
        t = lambda s: zval(g(s, 'taken'))
        return [('taken', lambda s: z3.And(t(s) >= 0, t(s) <= self.ENT)), ('nothing owed', lambda s: zval(g(s, 'owed')) == 0)]

    def variants(self, eng, head):
        m = lambda s: z3.If(zb(g(s, 'bad')), z3.IntVal(0), 1 + self.ENT - zval(g(s, 'taken')))
        return [('entries of the input', m, m(head))]

    def run(self, eng):
        st = State()
        self.ENT = z3.Int('entries')
        self.READABLE, self.WRITABLE = z3.Bool('readable'), z3.Bool('writable')
        st.add(self.ENT >= 1)
        self.iname, self.oname = SV.const(st, 'input'), SV.const(st, 'output')
        self.every = eng.iv_fresh(st, 64, 'every')
        st.add(z3.And(zval(self.iname.length()) > 0, zval(self.oname.length()) > 0))
        for k, v in (('taken', 0), ('owed', 0), ('bad', False), ('read', False), ('made', False), ('updated', False), ('saved', False)):
            st.ghost[(None, 'tool', k)] = v
        argv = eng.new_region(st, 'argv', 64, 'obj', lazy=True)
        for s, r in eng.call_function(self.fn(eng, '@main'), st, [eng.iv_fresh(st, 32, 'argc'), argv]):
            ok = zval(r.t) == 0
            both = z3.And(self.READABLE, self.WRITABLE)
            eng.oblige(s, 'ensures success is told only if the input could be read and the output be written', z3.Implies(ok, both))
            eng.oblige(s, 'ensures the run succeeds if the input can be read and the output be written', z3.Implies(both, z3.Or(ok, zb(g(s, 'bad')))))
            eng.oblige(s, 'ensures the model of a run that succeeds is written', z3.Implies(ok, zb(g(s, 'saved'))))


class Lookup(P23.Main):
    tu = 'markovlookup.cpp'
    title = 'main of the Markov lookup'
    candgens = (P23.candidates,)
    lib = COMMON
    contracts = (Model(), P23.Echo())
    termination = True

    def open_source(self, eng, st, nm):
        eng.oblige(st, 'ensures the model is read from the file given', And(self.argc.t >= 2, sv_same(eng, st, nm, self.iname)))
        return Input(), z3.Bool('model opened')

    def owes(self, st):
        return zval(st.ghost[(self.tty.r, self.tty.off, 'owed')])

    def before(self, eng, st):
        eng.oblige(st, 'ensures every line is answered before the next is read', self.owes(st) == 0)
        eng.oblige(st, 'ensures the echo is off while a line is read', z3.Not(zb(eng.gget(st, self.tty, 'echo'))))
        eng.oblige(st, 'ensures a model was loaded', And(g(st, 'loaded'), True))

    def after(self, eng, st, k):
        n = z3.IntVal(0) if k is None else slen(self.src.line(st, k).term())
        eng.gset(st, self.tty, 'owed', z3.If(n > 0, z3.IntVal(1), z3.IntVal(0)))
        eng.gset(st, self.tty, 'over', z3.BoolVal(True) if k is None else n == 0)

    def judge(self, eng, st, sv):
        pass

    def number(self, eng, st, v):
        k = zval(eng.gget(st, self.tty, 'lines')) - 1
        eng.oblige(st, 'ensures a line is answered once', self.owes(st) == 1)
        eng.oblige(st, 'ensures the echo is on again when a line is answered', zb(eng.gget(st, self.tty, 'echo')))
        eng.oblige(st, 'ensures the probability shown is that of the line', v.t == TOTAL(self.src.line(st, simp(k)).term()))
        eng.gset(st, self.tty, 'owed', 0)

    def variants(self, eng, head):
        m = lambda s: z3.If(zb(eng.gget(s, self.tty, 'over')), z3.IntVal(0), 1 + self.src.N - zval(eng.gget(s, self.tty, 'lines')))
        return [('lines of the input', m, m(head))]

    def run(self, eng):
        st = State()
        self.src = src = LineSource('stdin')
        src.before, src.after = self.before, self.after
        st.pc += src.axioms()
        self.INTACT = z3.Bool('intact')
        self.tty = cin = eng.glob(st, '@_ZSt3cin')
        make_stream(eng, st, cin, src, fresh=False)
        st.ghost.pop((cin.r, cin.off, 'pos'))
        for k, v in (('lines', 0), ('echo', True), ('owed', 0), ('over', False)):
            eng.gset(st, cin, k, v)
        for k, v in (('made', False), ('loaded', False), ('updated', False)):
            st.ghost[(None, 'tool', k)] = v
        make_ostream(eng, st, eng.glob(st, '@_ZSt4cout'), P23.Screen())
        st.user['carry'] = dict(pending=())
        self.iname = SV.const(st, 'name')
        o = obj(eng, st, 'name', 32)
        setstr(eng, st, o, self.iname)
        argv = obj(eng, st, 'argv', 64)
        eng.put(st, argv.r, argv.off + 8, 8, strdata(eng, st, o))
        self.argc = eng.iv_sfresh(st, 32, 'argc')
        for s, r in eng.call_function(self.fn(eng, '@main'), st, [self.argc, argv]):
            ok = zval(r.t) == 0
            gg = lambda k: eng.gget(s, self.tty, k)
            eng.oblige(s, 'ensures success is told only if there is a model', z3.Implies(ok, zb(g(s, 'loaded'))))
            eng.oblige(s, 'ensures the run succeeds if there is a model', z3.Implies(zb(g(s, 'loaded')), ok))
            eng.oblige(s, 'ensures nothing is read without a model', z3.Or(zb(g(s, 'loaded')), zval(gg('lines')) == 0))
            eng.oblige(s, 'ensures the tool stops at an empty line or the end of the input', z3.Implies(ok, zb(gg('over'))))
            eng.oblige(s, 'ensures every line is answered', self.owes(s) == 0)
            eng.oblige(s, 'ensures the echo is on at the end', zb(gg('echo')))


def units_():
    return [Generator(), Lookup()]
