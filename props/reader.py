"""Contracts of UserPasswordReader (P11, P12, P13)."""
from .strings import *
from irv import rx
from irv.lib import LineSource, without, find_char, sfindc

MAXLINE = 200


class ReaderUnit(Unit):
    tu = 'reader.cpp'
    extra = ('-fno-access-control',)
    lib = rx.MODELS
    budget = 200

    def bounds(self, eng):
        return [self.src.N + 1, NTRIES, NTRIES + 1] if getattr(self, 'src', None) is not None else []

    def reader(self, eng, st):
        """a reader in an arbitrary state"""
        this = obj(eng, st, 'this', const(eng, 'size_reader'))
        self.src = src = LineSource('list')
        st.pc += src.axioms()
        f = obj(eng, st, 'stream', 600)
        make_stream(eng, st, f, src)
        st.ghost.pop((f.r, 0, 'pos'))
        k = z3.Int('line')
        st.add(z3.And(k >= 0, k <= src.N))
        # a stream that has seen its end delivers nothing more
        st.add(z3.Implies(zb(eng.gget(st, f, 'eof')), k == src.N))
        st.add(z3.Implies(z3.Not(zb(eng.gget(st, f, 'eof'))), z3.Not(zb(eng.gget(st, f, 'fail')))))
        st.add(z3.Not(zb(eng.gget(st, f, 'bad'))))
        eng.gset(st, f, 'lines', k)
        eng.put(st, this.r, const(eng, 'off_input'), 8, f)
        self.sep = cell_iv(eng, st, PV(this.r, const(eng, 'off_sep')), 8, 'separator')
        self.stream, self.k = f, k
        setstr(eng, st, PV(this.r, const(eng, 'off_line')), SV.const(st, 'old_line'))
        self.flags = {}
        for n in ('fhex', 'fmd5', 'ahex', 'amd5'):
            b = z3.Bool(n)
            self.flags[n] = b
            eng.put(st, this.r, const(eng, 'off_' + n), 1, IV(8, z3.If(b, 1, 0), 0, 1, bool=b))
        return this


def password_of(eng, st, sv, sep):
    """everything after the first separator (the whole line if it has none, or none is in use), without carriage
    returns: [(condition, text)]"""
    w = without(st, sv, 13)
    p = find_char(eng, st, w, sep, 0)
    none = z3.Or(zval(sep) == 0, p == -1)
    return [(none, w, w), (z3.Not(none), w.sub(eng, st, simp(p + 1), None), None)]


class Extract(ReaderUnit):
    title = 'UserPasswordReader::extractPassword'

    def run(self, eng):
        st = State()
        this = self.reader(eng, st)
        line = obj(eng, st, 'line', 32)
        out = obj(eng, st, 'out', 32)
        sv = SV.const(st, 'text')
        setstr(eng, st, line, sv)
        for s, r in eng.call_function(self.fn(eng, r'UserPasswordReader::extractPassword\('), st, [out, this, line]):
            got = getstr(eng, s, out)
            for c, want, _ in password_of(eng, s, sv, self.sep):
                if eng.decide(s, c) == 'F':
                    continue
                s2 = s.copy()
                s2.add(c)
                eng.oblige(s2, 'ensures the password is what follows the first separator, without carriage returns', sv_same(eng, s2, got, want))
            eng.oblige(s, 'assigns not the line given', sv_same(eng, s, getstr(eng, s, line), sv))


class ExtractContract:
    """extractPassword as seen by its caller: a function of the line (proved by Extract)"""
    f = z3.Function('password_of', S, z3.IntSort(), S)

    def matches(self, d, name):
        return d.startswith('pwned::UserPasswordReader::extractPassword(')

    def apply(self, eng, st, a, I, line):
        t = getstr(eng, st, a[2])
        setstr(eng, st, a[0], self.value(eng, st, a[1], t))
        return [(st, None)]

    def value(self, eng, st, this, sv):
        sv.facts(st)
        sep = rd(eng, st, PV(this.r, const(eng, 'off_sep')), 8)
        t = self.f(sv.term(), sep)
        st.add(z3.And(slen(t) >= 0, slen(t) <= zval(sv.length())))
        return SV.base(t)


class Next(ReaderUnit):
    title = 'UserPasswordReader::nextPassword'
    contracts = (ExtractContract(),)

    def run(self, eng):
        st = State()
        this = self.reader(eng, st)
        out = obj(eng, st, 'out', 32)
        eof0 = zb(eng.gget(st, self.stream, 'eof'))
        ex = ExtractContract()
        for s, r in eng.call_function(self.fn(eng, r'UserPasswordReader::nextPassword\('), st, [out, this]):
            got = getstr(eng, s, out)
            k1 = zval(eng.gget(s, self.stream, 'lines'))
            sv = self.src.line(s, self.k)
            gave = z3.And(z3.Not(eof0), self.k < self.src.N)
            eng.oblige(s, 'ensures exactly one line is consumed, unless the list is at its end', k1 == z3.If(gave, self.k + 1, self.k))
            L = zval(sv.length())
            good = z3.And(gave, L >= 1, L <= MAXLINE)
            s2 = s.copy()
            s2.add(good)
            if eng.decide(s, good) != 'F':
                eng.oblige(s2, 'ensures a line of up to 200 characters gives its password', sv_same(eng, s2, got, ex.value(eng, s2, this, sv)))
            s3 = s.copy()
            s3.add(z3.Not(good))
            eng.oblige(s3, 'ensures empty and overlong lines, and the end of the list, give no password', zval(got.length()) == 0)
            eof1, fail1 = zb(eng.gget(s, self.stream, 'eof')), zb(eng.gget(s, self.stream, 'fail'))
            eng.oblige(s, 'ensures the end is reported only when every line was delivered', z3.Implies(eof1, k1 == self.src.N))
            eng.oblige(s, 'ensures the reader is able to go on', z3.Implies(z3.Not(eof1), z3.Not(fail1)))
            eng.oblige(s, 'ensures a call without a line reports the end', z3.Implies(z3.Not(gave), eof1))
            eng.oblige(s, 'assigns not the separator', rd(eng, s, PV(this.r, const(eng, 'off_sep')), 8) == self.sep)


class Eof(ReaderUnit):
    title = 'UserPasswordReader::eof, bad'

    def run(self, eng):
        st = State()
        this = self.reader(eng, st)
        for n in ('eof', 'bad'):
            for s, r in eng.call_function(self.fn(eng, r'UserPasswordReader::%s\(' % n), st.copy(), [this]):
                eng.oblige(s, 'ensures %s() is the state of the stream' % n, bool_of(r) == zb(eng.gget(s, self.stream, n)))


# ------------------------------------------------------------------ hashes
class NextContract:
    """nextPassword as seen by nextPasswordHash: any text"""

    def matches(self, d, name):
        return d.startswith('pwned::UserPasswordReader::nextPassword()')

    def apply(self, eng, st, a, I, line):
        sv = SV.const(st, 'pwd')
        st.add(zval(sv.length()) <= MAXLINE)
        setstr(eng, st, a[0], sv)
        return [(st, None)]


spelled_u = z3.Function('spelled_upper', S, z3.IntSort())
spelled_l = z3.Function('spelled_lower', S, z3.IntSort())
dehexed = z3.Function('dehexed', S, S)


def spelled(st, sv):
    sv.facts(st)
    u, l = spelled_u(sv.term()), spelled_l(sv.term())
    for x in (u, l):
        st.add(z3.And(x >= 0, x < M64))
    return u, l


class FromHexContract:
    """contract of Hash::fromHex, proved in P07: valid exactly for 32 hex digits, and then what they spell"""

    def matches(self, d, name):
        return d.startswith('pwned::Hash::fromHex(')

    def apply(self, eng, st, a, I, line):
        sv = getstr(eng, st, a[1])
        ok = z3.And(zval(sv.length()) == 32, rx.all_in(st, sv, rx.HEX))
        u, l, v = fresh_hash(eng, st, a[0], eng.fresh_name('hex'), valid=ok)
        su, sl = spelled(st, sv)
        st.add(z3.Implies(ok, z3.And(u == su, l == sl)))
        return [(st, None)]


class HexToCharSeq:
    """contract of hexToCharSeq, proved in P14: fails exactly if an even number of characters are not all hex digits"""

    def matches(self, d, name):
        return d.startswith('pwned::hexToCharSeq(')

    def apply(self, eng, st, a, I, line):
        sv = getstr(eng, st, a[0])
        even = zval(sv.length()) % 2 == 0
        hexed = rx.all_in(st, sv, rx.HEX)
        any_ = eng.fresh_bool('odd')
        t = z3.Const(eng.fresh_name('decoded'), S)
        st.add(z3.And(slen(t) >= 0, slen(t) < (1 << 60)))
        d = dehexed(sv.term())
        st.add(z3.Implies(z3.And(even, hexed), t == d))
        st.add(z3.Implies(z3.And(even, hexed), slen(d) * 2 == zval(sv.length())))
        setstr(eng, st, a[1], SV.base(t))
        return [(st, BoolV(z3.If(even, hexed, any_)))]


class NoEvaluation:
    def matches(self, d, name):
        return d.startswith('pwned::UserPasswordReader::evaluateContents()')

    def apply(self, eng, st, a, I, line):
        return [(st, None)]


def m_find_option(eng, st, a, I, line, d):
    """std::find over the options given to the constructor"""
    f, l = a[0], a[1]
    v = eng.as_u(st, eng.load(st, a[2], ('i', 32), line))
    u = eng.cur
    if not isinstance(v, int) or f.r != u.opts.r:
        raise Unsupported('find')
    has = u.given(v)
    # an iterator in the middle for an option given, the end otherwise
    out = []
    for s, h in eng.fork(st, has):
        if h:
            i = z3.Int(eng.fresh_name('at'))
            s.add(z3.And(i >= zval(f.off), i < zval(l.off)))
            out.append((s, PV(f.r, i)))
        else:
            out.append((s, l))
    return out


class CtorUnit(ReaderUnit):
    """runs the constructor for an arbitrary set of options"""
    lib = rx.MODELS + [(r'.* std::find<.*UserPasswordReaderOptions.*>\(', m_find_option)]
    NAMES = ['fmd5', 'fhex', 'amd5', 'ahex']

    def given(self, v):
        return self.opt[v] if v < 4 else z3.BoolVal(False)

    def construct(self, eng, st, contents=None):
        this = obj(eng, st, 'this', const(eng, 'size_reader'))
        self.src = src = LineSource('list')
        st.pc += src.axioms()
        f = self.stream = obj(eng, st, 'stream', 600)
        make_stream(eng, st, f, src, fresh=False)
        st.ghost.pop((f.r, 0, 'pos'))
        eng.gset(st, f, 'lines', 0)
        eng.gset(st, f, 'eof', False)
        vec = obj(eng, st, 'options', 24)
        self.opts = o = obj(eng, st, 'elements', None)
        n = z3.Int('nopt')
        st.add(z3.And(n >= 0, n < (1 << 20)))
        eng.put(st, vec.r, 0, 8, PV(o.r, 0))
        eng.put(st, vec.r, 8, 8, PV(o.r, simp(4 * n)))
        eng.put(st, vec.r, 16, 8, PV(o.r, simp(4 * n)))
        self.opt = [z3.Bool('option_' + x) for x in self.NAMES]
        for b in self.opt:
            st.add(z3.Implies(b, n > 0))
        self.this = this
        return eng.call_function(self.fn(eng, r'UserPasswordReader::UserPasswordReader\('), st, [this, f, vec])


class NextHash(CtorUnit):
    title = 'UserPasswordReader::nextPasswordHash'
    contracts = (NextContract(), FromHexContract(), HexToCharSeq(), HashOfText(), NoEvaluation())

    def run(self, eng):
        st = State()
        ends = self.construct(eng, st)
        seen = 0
        for s, _ in ends:
            # the patterns are the constructor's; the switches may have been turned on by the guess
            for n, b in (('fmd5', z3.Bool('md5_on')), ('fhex', z3.Bool('hex_on'))):
                eng.put(s, self.this.r, const(eng, 'off_' + n), 1, IV(8, z3.If(b, 1, 0), 0, 1, bool=b))
            if seen:
                # the other outcomes of the constructor differ in the switches only
                continue
            seen += 1
            self.method(eng, s)

    def method(self, eng, st):
        out = obj(eng, st, 'hash', 32)
        pwd = SV.const(st, 'pwd')
        md5_on, hex_on = z3.Bool('md5_on'), z3.Bool('hex_on')
        for s, r in eng.call_function(self.fn(eng, r'UserPasswordReader::nextPasswordHash\('), st, [out, self.this]):
            u, l, v = hash_at(eng, s, out)
            L = zval(pwd.length())
            eng.oblige(s, 'ensures exactly the non-empty passwords give a valid hash', v == (L > 0))
            c1 = z3.And(md5_on, L == 32, rx.all_in(s, pwd, rx.HEX))
            s2 = s.copy()
            s2.add(L > 6)
            body = pwd.sub(eng, s2, 5, simp(L - 6))
            frame = z3.And(*[zval(pwd.at(eng, s, i)) == c for i, c in enumerate(b'$HEX[')], zval(pwd.at(eng, s, simp(L - 1))) == ord(']'))
            c2 = z3.And(hex_on, L >= 8, L % 2 == 0, frame)
            for nm, cond in (('1', c1), ('2', c2), ('3', None)):
                x = s.copy()
                x.add(L > 0)
                if nm == '1':
                    x.add(c1)
                    if eng.decide(s, z3.And(L > 0, c1)) == 'F':
                        continue
                    wu, wl = spelled(x, pwd)
                    eng.oblige(x, 'ensures 32 hex digits are the hash they spell, if hashes are evaluated', z3.And(u == wu, l == wl))
                    continue
                x.add(z3.Not(c1))
                y = x.copy()
                y.add(c2)
                hexed = None
                if eng.decide(x, c2) != 'F':
                    b = pwd.sub(eng, y, 5, simp(L - 6))
                    hexed = rx.all_in(y, b, rx.HEX)
                    y.add(hexed)
                if nm == '2':
                    if hexed is None or not eng.feasible(y):
                        continue
                    t = dehexed(b.term())
                    y.add(z3.And(slen(t) >= 0, slen(t) < (1 << 60)))
                    wu, wl = md5_of(y, SV.base(t))
                    eng.oblige(y, 'ensures $HEX[...] is the MD5 of the decoded bytes, if these are evaluated', z3.And(u == wu, l == wl))
                    continue
                if hexed is not None:
                    z = x.copy()
                    b = pwd.sub(eng, z, 5, simp(L - 6))
                    h = rx.all_in(z, b, rx.HEX)
                    z.add(z3.Not(z3.And(c2, h)))
                else:
                    z = x
                    z.add(z3.Not(c2))
                if not eng.feasible(z):
                    continue
                wu, wl = md5_of(z, pwd)
                eng.oblige(z, 'ensures every other password is the MD5 of itself', z3.And(u == wu, l == wl))


# ------------------------------------------------------------------ guessing
SEPS = [ord(c) for c in ':;\t ']
NTRIES = 500
# occurs(sep, k): in how many of the first k lines the separator occurs
occurs = z3.Function('lines_with', z3.IntSort(), z3.IntSort(), z3.IntSort())


def guess_candidates(ctx):
    u, e = ctx.eng.cur, ctx.eng
    out = []
    ints = ctx.ints()
    lines = [(nm, g) for nm, g, w in ints if w == 0]
    for nm, g, w in ints:
        if w == 0:
            out.append((nm + ' <= N', lambda s, g=g: g(s) <= u.src.N))
            out.append((nm + ' <= 500', lambda s, g=g: g(s) <= NTRIES))
            continue
        out.append((nm + ' <= 500', lambda s, g=g: g(s) <= NTRIES))
        for ln, lg in lines:
            out.append(('%s <= %s' % (ln, nm), lambda s, g=g, lg=lg: lg(s) <= g(s)))
            out.append(('%s <= %s' % (nm, ln), lambda s, g=g, lg=lg: g(s) <= lg(s)))
            out.append(('%s == %s unless at the end' % (nm, ln), lambda s, g=g, lg=lg: z3.Or(g(s) == lg(s), lg(s) == u.src.N)))
            out.append(('%s + %s == 500 unless at the end' % (nm, ln), lambda s, g=g, lg=lg: z3.Or(g(s) + lg(s) == NTRIES, lg(s) == u.src.N)))
            for c in SEPS:
                out.append(('%s == occurs %d' % (nm, c), lambda s, g=g, lg=lg, c=c: g(s) == occurs(c, lg(s))))
    for ln, lg in lines:
        for bn, bg in ctx.bools():
            out.append(('%s -> %s == N' % (bn, ln), lambda s, lg=lg, bg=bg: z3.Implies(bg(s), lg(s) == u.src.N)))
            for c in SEPS:
                out.append(('%s iff occurs %d' % (bn, c), lambda s, lg=lg, bg=bg, c=c: bg(s) == (occurs(c, lg(s)) > 0)))
    return out


class GuessUnit(ReaderUnit):
    candgens = (guess_candidates,)
    map_keys = SEPS
    const_statics = ('possibleSeparators',)
    which = None

    def setup(self, eng, st):
        this = self.reader(eng, st)
        # a stream just opened, or one the previous guess has left at its beginning
        for n in ('eof', 'fail', 'bad'):
            eng.gset(st, self.stream, n, False)
        eng.gset(st, self.stream, 'lines', 0)
        for c in SEPS:
            st.add(occurs(c, 0) == 0)
        self.src.after = self.after
        return this

    def after(self, eng, st, k):
        if k is None:
            return
        t = self.src.line(st, k).term()
        for c in SEPS:
            o = occurs(c, zval(k))
            st.add(z3.And(o >= 0, o <= zval(k)))
            st.add(occurs(c, simp(zval(k) + 1)) == o + z3.If(sfindc(t, z3.IntVal(c), z3.IntVal(0)) == -1, 0, 1))
            st.add(sfindc(t, z3.IntVal(c), z3.IntVal(0)) >= -1)

    def rewound(self, eng, s, this):
        eng.oblige(s, 'ensures the reader is at the beginning of the list', zval(eng.gget(s, self.stream, 'lines')) == 0)
        eng.oblige(s, 'ensures the reader is able to read', z3.Not(z3.Or(*[zb(eng.gget(s, self.stream, n)) for n in ('eof', 'fail', 'bad')])))


class GuessSeparator(GuessUnit):
    title = 'UserPasswordReader::guessSeparator'
    lib = None

    def run(self, eng):
        st = State()
        this = self.setup(eng, st)
        # before the guess no separator is in use
        eng.put(st, this.r, const(eng, 'off_sep'), 1, IV(8, 0))
        m = z3.If(self.src.N < NTRIES, self.src.N, z3.IntVal(NTRIES))
        for s, r in eng.call_function(self.fn(eng, r'^pwned::UserPasswordReader::guessSeparator\(\)$'), st, [this]):
            sep = rd(eng, s, PV(this.r, const(eng, 'off_sep')), 8)
            cnt = lambda c: occurs(c, m)
            for c in SEPS:
                s.add(cnt(c) >= 0)
            eng.oblige(s, 'ensures the separator chosen occurs in the largest number of the first 500 lines',
                       z3.Or(sep == 0, *[z3.And(sep == c, cnt(c) > 0, *[cnt(c) >= cnt(x) for x in SEPS]) for c in SEPS]))
            eng.oblige(s, 'ensures none is chosen exactly if none occurs', z3.Implies(sep == 0, z3.And(*[cnt(c) == 0 for c in SEPS])))
            self.rewound(eng, s, this)
            for n in self.flags:
                eng.oblige(s, 'assigns not the switches', rdb(eng, s, PV(this.r, const(eng, 'off_' + n))) == self.flags[n])


class Check(GuessUnit):
    lib = None

    def __init__(self, name, own):
        self.name, self.own = name, own
        self.title = 'UserPasswordReader::' + name

    def run(self, eng):
        st = State()
        this = self.setup(eng, st)
        for o, t in (('off_hex', rb'\$HEX\[((?:[a-zA-Z0-9][a-zA-Z0-9])+?)\]'), ('off_md5', rb'[a-zA-Z0-9]{32}')):
            st.ghost[(this.r, const(eng, o), 'regex')] = Box((t, 16))
        for s, r in eng.call_function(self.fn(eng, r'^pwned::UserPasswordReader::%s\(\)$' % self.name), st, [this]):
            self.rewound(eng, s, this)
            eng.oblige(s, 'assigns not the separator', rd(eng, s, PV(this.r, const(eng, 'off_sep')), 8) == self.sep)
            for n, b in self.flags.items():
                v = rdb(eng, s, PV(this.r, const(eng, 'off_' + n)))
                if n == self.own:
                    eng.oblige(s, 'ensures an evaluation that was forced stays forced', z3.Implies(b, v))
                    eng.oblige(s, 'ensures an evaluation is turned on only if that was asked for', z3.Implies(v, z3.Or(b, self.flags['a' + n[1:]])))
                    eng.oblige(s, 'ensures the result says whether the evaluation is on', bool_of(r) == v)
                else:
                    eng.oblige(s, 'assigns not the other switches', v == b)


class GuessContract:
    """contracts of the three guessing steps, proved above"""

    def __init__(self, name, own):
        self.name, self.own = name, own

    def matches(self, d, name):
        return d.startswith('pwned::UserPasswordReader::%s(' % self.name)

    def apply(self, eng, st, a, I, line):
        u, this = eng.cur, a[0]
        f = u.stream
        eng.oblige(st, 'requires: the stream is at its beginning', z3.And(zval(eng.gget(st, f, 'lines')) == 0,
                   z3.Not(z3.Or(*[zb(eng.gget(st, f, n)) for n in ('eof', 'fail', 'bad')]))), line)
        if self.own is None:
            eng.oblige(st, 'requires: no separator is in use', rd(eng, st, PV(this.r, const(eng, 'off_sep')), 8) == 0, line)
            v = eng.iv_fresh(st, 8, 'guessed')
            eng.store(st, PV(this.r, const(eng, 'off_sep')), ('i', 8), v, line)
            u.guessed = v.t
            return [(st, v)]
        b = rdb(eng, st, PV(this.r, const(eng, 'off_' + self.own)))
        au = rdb(eng, st, PV(this.r, const(eng, 'off_a' + self.own[1:])))
        v = eng.fresh_bool(self.own)
        st.add(z3.Implies(b, v))
        st.add(z3.Implies(v, z3.Or(b, au)))
        eng.store(st, PV(this.r, const(eng, 'off_' + self.own)), ('i', 8), IV(8, z3.If(v, 1, 0), 0, 1, bool=v), line)
        return [(st, BoolV(v))]


class Construct(CtorUnit):
    title = 'UserPasswordReader::UserPasswordReader'
    contracts = (GuessContract('guessSeparator', None), GuessContract('checkForMD5Hashes', 'fmd5'), GuessContract('checkForHexEncodedPasswords', 'fhex'))

    def run(self, eng):
        st = State()
        self.guessed = None
        for s, r in self.construct(eng, st):
            this, f = self.this, self.stream
            eng.oblige(s, 'ensures the separator was guessed', self.guessed is not None)
            if self.guessed is not None:
                eng.oblige(s, 'ensures the separator in use is the one guessed', rd(eng, s, PV(this.r, const(eng, 'off_sep')), 8) == self.guessed)
            eng.oblige(s, 'ensures every line of the list is still to be delivered', z3.And(zval(eng.gget(s, f, 'lines')) == 0,
                       z3.Not(z3.Or(*[zb(eng.gget(s, f, n)) for n in ('eof', 'fail', 'bad')]))))
            p = eng.load(s, PV(this.r, const(eng, 'off_input')), ('ptr',))
            eng.oblige(s, 'ensures the reader reads the stream given', isinstance(p, PV) and p.r == f.r and p.off == 0)
            for i, n in enumerate(self.NAMES):
                v = rdb(eng, s, PV(this.r, const(eng, 'off_' + n)))
                if n[0] == 'f':
                    eng.oblige(s, 'ensures an evaluation that was forced is on', z3.Implies(self.opt[i], v))
                    eng.oblige(s, 'ensures an evaluation nobody asked for is off', z3.Implies(v, z3.Or(self.opt[i], self.opt[i + 2])))
                else:
                    eng.oblige(s, 'ensures the automatic evaluations are those asked for', v == self.opt[i])


from irv import cont
GuessSeparator.lib = Check.lib = rx.MODELS + cont.MODELS
