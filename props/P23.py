import re
from .strings import *
from irv import po
from irv.lib import LineSource, num_text

count_of = z3.Function('count_of', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Construct:
    """contract of the constructors of PasswordInspector (P01, P03): a reader of the hash file named, through the
    index named if there is one"""

    def matches(self, d, name):
        return d.startswith('pwned::PasswordInspector::PasswordInspector(')

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        eng.oblige(st, 'the hash file is the one named', sv_same(eng, st, getstr(eng, st, a[1]), u.iname), line)
        if len(a) > 2:
            eng.oblige(st, 'the index is the one named', sv_same(eng, st, getstr(eng, st, a[2]), u.xname), line)
        st.ghost[(a[0].r, eng.coff(a[0].off), 'reader')] = Box(True)
        return [(st, None)]


class Search:
    """contract of the searches (P01, P03, P05; P02: for every state the reader can be in)"""

    def matches(self, d, name):
        return re.match(r'pwned::PasswordInspector::(smart_)?binsearch\(', d) or d.startswith('pwned::PasswordInspector::lookup(')

    def apply(self, eng, st, a, I, line):
        out, this = a[0], a[1]
        if eng.gget(st, this, 'reader') is None:
            raise Unsupported('search in an unknown reader')
        if len(a) == 3:
            hu, hl = md5_of(st, getstr(eng, st, a[2]))
        else:
            hu, hl, _ = hash_at(eng, st, a[2])
            if not (isinstance(a[3], PV) and a[3].r == NULL.r):
                eng.store(st, a[3], ('i', 32), eng.iv_fresh(st, 32, 'reads'), line)
        c = stored(st, hu, hl)
        fresh_hash(eng, st, out, eng.fresh_name('found'))
        eng.put(st, out.r, eng.coff(out.off) + 24, 4, IV(32, c, 0, (1 << 32) - 1))
        return [(st, None)]


def stored(st, hu, hl):
    c = count_of(zval(hu), zval(hl))
    st.add(z3.And(c >= 0, c < (1 << 32)))
    return c


class Echo:
    """contract of setStdinEcho (P19)"""

    def matches(self, d, name):
        return d == 'pwned::setStdinEcho(bool)'

    def apply(self, eng, st, a, I, line):
        eng.gset(st, eng.cur.tty, 'echo', bool_of(a[0]))
        return [(st, None)]


class Screen:
    """standard output, judged line by line"""

    def write(self, eng, st, q, p, n, line):
        raise Unsupported('raw output')

    def piece(self, eng, st, q, sv):
        u = eng.cur
        c = st.user['carry']
        parts = list(c['pending']) + list(sv.parts)
        cur = []
        st.user['carry'] = dict(c, pending=())
        for p in parts:
            if not isinstance(p, bytes):
                cur.append(p)
                continue
            ls = p.split(b'\n')
            for i, l in enumerate(ls):
                if l:
                    cur.append(l)
                if i < len(ls) - 1:
                    u.judge(eng, st, SV(cur))
                    cur = []
        st.user['carry'] = dict(st.user['carry'], pending=tuple(cur))


def candidates(ctx):
    u = ctx.eng.cur
    out = []
    for nm, g, w in ctx.ints():
        if w == 0:
            out.append((nm + ' <= N', lambda s, g=g: g(s) <= u.src.N))
            for bn, bg in ctx.bools():
                out.append(('%s -> %s == N' % (bn, nm), lambda s, g=g, bg=bg: z3.Implies(bg(s), g(s) == u.src.N)))
    return out


def now(eng, st, a, I, line, d):
    t = eng.iv_sfresh(st, 64, 'clock')
    st.add(z3.And(t.t >= 0, t.t < (1 << 61)))
    return (IV(64, t.t, 0, 1 << 61),)


class Main(Unit):
    tu = 'lookup.cpp'
    title = 'main of the lookup tool'
    candgens = (candidates,)
    contracts = (Construct(), Search(), Echo(), HashOfText())
    budget = 200
    lib = po.MODELS + [(r'(usage|hello|license|warranty)\(\)$', lib.m_void),
                       (r'std::chrono::_V2::(system|steady)_clock::now\(\)$', now),
                       (r'pwned::PasswordInspector::~PasswordInspector\(\)$', lib.m_void)]

    def bounds(self, eng):
        return [self.src.N + 1]

    def option(self, eng, st, nm):
        return {'input': self.iname, 'index': self.xname}.get(nm)

    # the protocol: a line is asked for when nothing is owed; a line read owes its hash and the answer
    def before(self, eng, st):
        c = st.user['carry']
        eng.oblige(st, 'ensures every line is answered before the next is read', not c['owed'])
        eng.oblige(st, 'ensures the echo is off while a line is read', z3.Not(zb(eng.gget(st, self.tty, 'echo'))))

    def after(self, eng, st, k):
        c = st.user['carry']
        st.user['carry'] = dict(c, owed=frozenset() if k is None else frozenset(['hash', 'answer']), over=k is None)

    def judge(self, eng, st, sv):
        c = st.user['carry']
        chs = [p for p in sv.parts if isinstance(p, Ch)]
        num = [p for p in sv.parts if not isinstance(p, (Ch, bytes))]
        txt = b' '.join(p for p in sv.parts if isinstance(p, bytes)).lower()
        if chs:
            what = 'hash'
        elif b'found' in txt:
            what = 'answer'
        else:
            return
        eng.oblige(st, 'ensures hash and answer are given once for each line', what in c['owed'])
        if what not in c['owed']:
            return
        eng.oblige(st, 'ensures the echo is on again when a line is answered', zb(eng.gget(st, self.tty, 'echo')))
        k = zval(eng.gget(st, self.tty, 'lines')) - 1
        hu, hl = md5_of(st, self.src.line(st, simp(k)))
        if what == 'hash':
            want = [Ch(hexdigit(st, mk_mod(mk_div(x, 16 ** (15 - i)), 16), False)) for x in (hu, hl) for i in range(16)]
            eng.oblige(st, 'ensures the hash shown is the MD5 hash of the line', sv_same(eng, st, SV(chs), SV(want)))
        else:
            n = stored(st, hu, hl)
            if num:
                eng.oblige(st, 'ensures the count shown is the one stored for the line', z3.And(n > 0, zb(sv_same(eng, st, SV(num), num_text(eng, st, n, 10, 0, 32, False)))))
            else:
                eng.oblige(st, 'ensures a line is reported missing exactly if its hash is not in the file', z3.And(n == 0, b'not' in txt))
        st.user['carry'] = dict(c, owed=c['owed'] - {what})

    def run(self, eng):
        st = State()
        self.src = src = LineSource('stdin')
        src.before, src.after = self.before, self.after
        st.pc += src.axioms()
        self.tty = cin = eng.glob(st, '@_ZSt3cin')
        make_stream(eng, st, cin, src, fresh=False)
        st.ghost.pop((cin.r, cin.off, 'pos'))
        eng.gset(st, cin, 'lines', 0)
        eng.gset(st, cin, 'echo', True)
        make_ostream(eng, st, eng.glob(st, '@_ZSt4cout'), Screen())
        st.user['carry'] = dict(pending=(), owed=frozenset(), over=False)
        self.iname, self.xname = SV.const(st, 'iname'), SV.const(st, 'xname')
        st.add(zval(self.iname.length()) > 0)
        argv = obj(eng, st, 'argv', 64)
        for s, r in eng.call_function(self.fn(eng, '@main'), st, [eng.iv_fresh(st, 32, 'argc'), argv]):
            c = s.user['carry']
            eng.oblige(s, 'ensures the tool stops at the end of the input', c['over'])
            eng.oblige(s, 'ensures every line is read', zval(eng.gget(s, self.tty, 'lines')) == src.N)
            eng.oblige(s, 'ensures every line is answered', not c['owed'])
            eng.oblige(s, 'ensures the echo is on at the end', zb(eng.gget(s, self.tty, 'echo')))


def units(tier):
    return [Main()]


harness = dict(src='P23.cpp', repo=[], libs=['util'],
               bins=[('lookup', ['pwned-lookup-cli/pwned-lookup-cli.cpp', 'pwned-lib/passwordinspector.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/util.cpp'],
                      ['boost_program_options', 'boost_filesystem', 'boost_system'])])
assumptions = ['the hash file can be opened; before the tool runs the echo is on',
               'the constructor and the searches of PasswordInspector are used by their contracts, which P01, P02, P03 and P05 prove',
               'setStdinEcho and Hash(string) are used by their contracts, which P19 and P07 prove']
