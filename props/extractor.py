"""main of the password extractor, over the contract of UserPasswordReader (reader.py).

T0 is an arbitrary list; C0(t) is 1 for it and 0 for every other list, so that the prefix totals of mergermain.py count how often it is in
the list of files. PWT(t, k) is what entry k of list t yields, ENT(t) the number of its entries."""
from .common import *
from . import merger
from .mergermain import *
from .mergermain import Main as MergerMain, FILES, NAME
from irv import po
from irv.lib import Box, sv_same, LineSource, src_of, StrData

T0 = z3.Const('T0', S)
PWT = z3.Function('PWT', S, z3.IntSort(), S)
ENT = z3.Function('ENT', S, z3.IntSort())
READABLE = z3.Function('READABLE', S, z3.BoolSort())
SEEN = z3.Function('SEEN', z3.IntSort(), z3.BoolSort())      # T0 is among the first lines of .ready
FLAGS = r'std::map<std::string, bool, .*>::'


def me(t):
    return z3.If(t == T0, z3.IntVal(1), z3.IntVal(0))


class List:
    """a list, read by UserPasswordReader only"""

    def __init__(self, t):
        self.t = t


class Reader:
    """UserPasswordReader (P11, P13): one entry of the list for each call of nextPassword()"""

    def matches(self, d, name):
        m = re.match(r'pwned::UserPasswordReader::(UserPasswordReader|eof|bad|nextPassword)\(', d)
        if m:
            self.what = m.group(1)
        return m

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        g = lambda f: u.g(st, f)
        if self.what == 'UserPasswordReader':
            q = lib.stream(eng, st, a[1])
            src = src_of(eng, st, q)
            if not isinstance(src, List):
                raise Unsupported('reader of something else than a list')
            eng.oblige(st, 'ensures the list is open', zb(eng.gget(st, q, 'open')), line)
            u.paid(eng, st, line)
            u.gset(eng, st, 'cur', src.t)
            u.gset(eng, st, 'taken', 0)
            u.gset(eng, st, 'bad', False)
            st.add(ENT(src.t) >= 1)
            return [(st, None)]
        t, k = g('cur'), zval(g('taken'))
        if self.what == 'eof':
            return [(st, BoolV(z3.And(k == ENT(t), z3.Not(zb(g('bad'))))))]
        if self.what == 'bad':
            return [(st, BoolV(zb(g('bad'))))]
        out = []
        u.paid(eng, st, line)
        for s, more in eng.fork(st, z3.And(k < ENT(t), z3.Not(zb(g('bad'))), z3.Not(z3.Bool(eng.fresh_name('broken'))))):
            if more:
                p = PWT(t, k)
                s.add(z3.And(slen(p) >= 0, slen(p) < 1 << 20))
                setstr(eng, s, a[0], SV.base(p))
                u.gset(eng, s, 'taken', simp(k + 1))
                u.gset(eng, s, 'owed', z3.If(slen(p) > 0, z3.IntVal(1), z3.IntVal(0)))
                u.gset(eng, s, 'extracted', simp(zval(u.g(s, 'extracted')) + z3.If(k + 1 == ENT(t), me(t), 0)))
                out.append((s, None))
            else:
                setstr(eng, s, a[0], SV([]))
                for s2, fin in eng.fork(s, k == ENT(t)):
                    if not fin:
                        u.gset(eng, s2, 'bad', True)
                        u.gset(eng, s2, 'broken', Or(u.g(s2, 'broken'), t == T0))
                    out.append((s2, None))
        return out


# ---- std::map<std::string, bool>: its value for T0
def flags_new(eng, st, a, I, line, d):
    eng.gset(st, a[0], 't0', eng.new_region(st, 'flag of T0', 8, 'obj'))
    r = eng.gget(st, a[0], 't0')
    eng.put(st, r.r, 0, 1, IV(8, 0, 0, 1, bool=False))
    return (None,)


def flags_at(eng, st, a, I, line, d):
    r = eng.gget(st, a[0], 't0')
    if r is None:
        raise Unsupported('unknown map')
    t = getstr(eng, st, a[1]).term()
    st.add(C0(t) == me(t))
    out = []
    for s, same in eng.fork(st, t == T0):
        if same:
            out.append((s, r))
        else:
            o = eng.new_region(s, 'flag', 8, 'obj')
            b = z3.Bool(eng.fresh_name('flag'))
            eng.put(s, o.r, 0, 1, IV(8, z3.If(b, 1, 0), 0, 1, bool=b))
            out.append((s, o))
    return out


# ---- the output
def text_at(eng, st, p, n):
    """the n bytes at p"""
    if isinstance(p, PV) and p.r in st.mem and isinstance(st.mem[p.r].handler, StrData) and p.off == 0:
        sv = getstr(eng, st, st.mem[p.r].handler.owner)
    else:
        sv = lib.cstr(eng, st, p)
    if n is not None and not eng.valid(st, zval(n) == zval(sv.length())):
        raise Unsupported('a part of a text written')
    return sv


def m_fopen(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'ensures the output is the file given', sv_same(eng, st, text_at(eng, st, a[0], None), u.dstname), line)
    m = lib.cstr(eng, st, a[1]).is_lit()
    eng.oblige(st, 'ensures the output starts empty', m is not None and m[:1] == b'w', line)
    out = []
    for s, ok in eng.fork(st, z3.Bool('output opened')):
        if ok:
            p = eng.new_region(s, 'FILE', 16, 'obj', lazy=True)
            s.user['file'] = p
            u.gset(eng, s, 'begun', True)
            out.append((s, p))
        else:
            out.append((s, NULL))
    return out


def is_file(eng, st, p):
    f = st.user.get('file')
    if f is None or p.r != f.r:
        raise Unsupported('another file')
    eng.oblige(st, 'the output is open', Not(eng.cur.g(st, 'closed')))


def m_fwrite(eng, st, a, I, line, d):
    is_file(eng, st, a[3])
    eng.oblige(st, 'ensures nothing is written beside the compressed text', 'bz' not in st.user, line)
    n = zval(eng.as_u(st, a[1])) * zval(eng.as_u(st, a[2]))
    eng.cur.wrote(eng, st, text_at(eng, st, a[0], simp(z3.simplify(n))), line)
    return (a[2],)


def m_fputs(eng, st, a, I, line, d):
    is_file(eng, st, a[1])
    eng.oblige(st, 'ensures nothing is written beside the compressed text', 'bz' not in st.user, line)
    sv = text_at(eng, st, a[0], None)
    # fputs stops at the first NUL, which a password may contain
    eng.oblige(st, 'ensures nothing is cut off at a NUL', all(isinstance(p, bytes) and 0 not in p for p in sv.parts), line)
    eng.cur.wrote(eng, st, sv, line)
    return (IV(32, 1),)


def m_fputc(eng, st, a, I, line, d):
    is_file(eng, st, a[1])
    c = simp(zval(eng.as_u(st, a[0])))
    eng.oblige(st, 'ensures nothing is written beside the compressed text', 'bz' not in st.user, line)
    eng.cur.wrote(eng, st, SV([bytes([c & 255])]) if isinstance(c, int) else SV([]), line)
    return (a[0],)


def m_fclose(eng, st, a, I, line, d):
    u = eng.cur
    is_file(eng, st, a[0])
    u.gset(eng, st, 'closed', True)
    return (IV(32, 0),)


def error(eng, st, p, what):
    """an operation of libbz2 that may fail; what it was given is lost then"""
    u = eng.cur
    e = eng.iv_sfresh(st, 32, eng.fresh_name('bzerror'))
    eng.put(st, p.r, p.off, 4, e)
    u.gset(eng, st, 'lost', z3.Or(zb(u.g(st, 'lost')), e.t != 0))


def m_bzopen(eng, st, a, I, line, d):
    is_file(eng, st, a[1])
    p = eng.new_region(st, 'BZFILE', 16, 'obj', lazy=True)
    st.user['bz'] = p
    error(eng, st, a[0], 'open')
    return (p,)


def is_bz(st, p):
    if 'bz' not in st.user or p.r != st.user['bz'].r:
        raise Unsupported('another compressor')


def m_bzwrite(eng, st, a, I, line, d):
    is_bz(st, a[1])
    eng.oblige(st, 'the compressor is open', Not(eng.cur.g(st, 'bzclosed')), line)
    eng.cur.wrote(eng, st, text_at(eng, st, a[2], simp(zval(eng.as_u(st, a[3])))), line)
    error(eng, st, a[0], 'write')
    return (None,)


def m_bzclose(eng, st, a, I, line, d):
    is_bz(st, a[1])
    eng.oblige(st, 'the output is open', Not(eng.cur.g(st, 'closed')), line)
    ab = simp(zval(eng.as_u(st, a[2])))
    eng.cur.gset(eng, st, 'bzclosed', True)
    error(eng, st, a[0], 'close')
    if ab != 0:
        eng.cur.gset(eng, st, 'lost', True)
    return (None,)


class Notes:
    """the file .ready"""

    def write(self, eng, st, q, p, n, line):
        raise Unsupported('raw output')

    def piece(self, eng, st, q, sv):
        u = eng.cur
        l = sv.is_lit()
        if l is not None and l in (b'', b'\n'):
            return
        t = sv.term()
        eng.oblige(st, 'ensures a list is noted only after it was extracted', z3.And(u.g(st, 'cur') == t, z3.Or(zb(u.g(st, 'bad')), zval(u.g(st, 'taken')) == ENT(t))))
        u.paid(eng, st, None)
        u.gset(eng, st, 'noted', simp(zval(u.g(st, 'noted')) + me(t)))


EXTR = [
    (FLAGS + r'map\(\)$', flags_new), (FLAGS + r'operator\[\]\(', flags_at), (FLAGS + r'~map\(\)$', lib.m_void),
    (r'fopen$', m_fopen), (r'fwrite$', m_fwrite), (r'fputs$', m_fputs), (r'f?putc$', m_fputc), (r'fclose$', m_fclose),
    (r'BZ2_bzWriteOpen$', m_bzopen), (r'BZ2_bzWrite$', m_bzwrite), (r'BZ2_bzWriteClose$', m_bzclose),
    (r'std::vector<pwned::UserPasswordReaderOptions.*>::(~?vector)\(', lib.m_void), (r'pwned::UserPasswordReader::~UserPasswordReader\(\)$', lib.m_void),
]


class Main(MergerMain):
    tu = 'extractor.cpp'
    title = 'main of the password extractor'
    lib = EXTR + po.MODELS + FILES + merger.MODELS
    contracts = (Reader(),)
    suffix = b'.txt'
    kept_positions = True
    what = 'lists'

    def __init__(self, compress, ignore, old):
        MergerMain.__init__(self, True, False)
        self.title = 'main of the password extractor' + (', compressed output' if compress else '') + (', .ready ignored' if ignore else '' if old else ', no .ready')
        self.OLD = z3.BoolVal(old)
        self.COMPRESS, self.IGNORE = z3.BoolVal(compress), z3.BoolVal(ignore)
        self.switches = {'compress': compress, 'ignore-ready': ignore}

    def option(self, eng, st, nm):
        if nm in self.switches:
            return eng.iv_const(8, int(self.switches[nm]))
        return {'source': self.srcname, 'output': self.dstname}.get(nm)

    def setup(self, eng, st):
        self.dstname = SV.const(st, 'output')
        st.add(z3.And(zval(self.dstname.length()) > 0, slen(T0) > 0, slen(lib.EMPTY) == 0, slen(T0) < 1 << 62))
        self.ready = LineSource('ready')
        for ax in self.ready.axioms():
            st.add(ax)
        st.add(z3.Not(SEEN(0)))
        self.ready.after = self.noted_line
        for k, v in (('cur', z3.Const('no list', S)), ('taken', 0), ('bad', False), ('broken', False), ('owed', 0), ('extracted', 0), ('noted', 0),
                     ('closed', False), ('bzclosed', False), ('lost', False), ('lines', 0)):
            st.ghost[(None, 'main', k)] = v

    def noted_line(self, eng, st, k):
        if k is None:
            return
        t = self.ready.line(st, k).term()
        st.add(SEEN(zval(k) + 1) == z3.Or(SEEN(zval(k)), t == T0))

    def open_source(self, eng, st, nm):
        if nm.is_lit() is not None:
            eng.oblige(st, 'ensures the notes are read from .ready', nm.is_lit() == b'.ready')
            return self.ready, self.OLD
        t = nm.term()
        st.add(C0(t) == me(t))
        eng.oblige(st, 'ensures only lists of the directory are read', ISIN(t))
        return List(t), READABLE(t)

    def open_sink(self, eng, st, nm, mode):
        eng.oblige(st, 'ensures the notes are written to .ready', nm.is_lit() == b'.ready')
        m = zval(mode)
        eng.oblige(st, 'ensures older notes are kept unless they are ignored', z3.Or(self.IGNORE, m == 1, m == 17))
        return Notes(), z3.Bool('notes opened')

    # ---- one entry after the other
    def paid(self, eng, st, line):
        eng.oblige(st, 'ensures every password is written before the next is taken', zval(self.g(st, 'owed')) == 0, line)

    def wrote(self, eng, st, sv, line):
        t, k, o = self.g(st, 'cur'), zval(self.g(st, 'taken')), zval(self.g(st, 'owed'))
        p = PWT(t, k - 1)
        whole, first = sv_same(eng, st, sv, SV([*SV.base(p).parts, b'\n'])), sv_same(eng, st, sv, SV.base(p))
        rest = sv.is_lit() == b'\n'
        eng.oblige(st, 'ensures only passwords are written, each once and on a line of its own',
                   z3.Or(z3.And(o == 1, zb(whole)), z3.And(o == 1, zb(first)), z3.And(o == 2, zb(rest))), line)
        self.gset(eng, st, 'owed', simp(z3.simplify(z3.If(z3.And(o == 1, zb(first), z3.Not(zb(whole))), z3.IntVal(2), z3.IntVal(0)))))

    def want(self, total):
        """how often T0 is extracted if it is total times in the list of files"""
        skipped = z3.And(z3.Not(self.IGNORE), self.OLD, SEEN(self.ready.N))
        return z3.If(z3.Or(skipped, z3.Not(READABLE(T0))), z3.IntVal(0), total)

    def variants(self, eng, head):
        out = MergerMain.variants(self, eng, head)
        m = lambda s: z3.If(zb(self.g(s, 'bad')), z3.IntVal(0), 1 + ENT(self.g(s, 'cur')) - zval(self.g(s, 'taken')))
        out.append(('entries of the list', m, m(head)))
        for k in head.ghost:
            if k[2] == 'lines' and k[0] is not None:
                m = lambda s, k=k: z3.If(zb(s.ghost.get((k[0], k[1], 'eof'), False)), z3.IntVal(0), 1 + self.ready.N - zval(s.ghost[k]))
                out.append(('lines of .ready', m, m(head)))
        return out

    def pos_cands(self, o, pos, guard):
        tot = lambda s: PT(zval(self.ver(s, o)), pos(s))
        out = []
        for f in ('extracted', 'noted'):
            out.append(('%s: lists before the position' % f, guard(lambda s, f=f: z3.Or(zb(self.g(s, 'broken')), zval(self.g(s, f)) == self.want(tot(s))))))
            out.append(('%s: lists before the position, and this one' % f, guard(lambda s, f=f: z3.Or(
                zb(self.g(s, 'broken')), zval(self.g(s, f)) == self.want(tot(s)) + z3.If(zval(self.g(s, 'taken')) == ENT(self.g(s, 'cur')), me(self.g(s, 'cur')), 0)))))
        out.append(('this list', guard(lambda s: self.g(s, 'cur') == NAME(zval(self.ver(s, o)), pos(s)))))
        return out

    def more_cands(self, ctx, lists, at, guard, total):
        g = self.g
        out = [('taken', guard(lambda s: z3.And(zval(g(s, 'taken')) >= 0, zval(g(s, 'taken')) <= ENT(g(s, 'cur'))))),
               ('nothing owed', guard(lambda s: zval(g(s, 'owed')) == 0)),
               ('bad: broken', guard(lambda s: z3.Implies(z3.And(zb(g(s, 'bad')), g(s, 'cur') == T0), zb(g(s, 'broken'))))),
               ('nothing lost', guard(lambda s: z3.Not(zb(g(s, 'lost')))))]
        for k in ctx.st0.ghost:
            if k[2] == 't0':
                r = ctx.st0.ghost[k]
                for j in ctx.st0.ghost:
                    if j[2] == 'lines' and j[0] is not None:
                        def f(s, r=r, j=j):
                            c = s.mem[r.r].cells.get(0)
                            if c is None:
                                raise Missing()
                            return zval(c[1].t) == z3.If(SEEN(zval(s.ghost[j])), z3.IntVal(1), z3.IntVal(0))
                        out.append(('T0 is noted', guard(f)))
                        e = (j[0], j[1], 'eof')
                        out.append(('at the end', guard(lambda s, j=j, e=e: z3.And(zval(s.ghost[j]) <= self.ready.N, zval(s.ghost[j]) >= 0, z3.Implies(zb(s.ghost[e]), zval(s.ghost[j]) == self.ready.N)))))
        return out

    def ends(self, eng, s, total):
        g = lambda f: self.g(s, f)
        lost = z3.And(zval(self.status) == 0, zb(g('lost')))
        eng.oblige(s, 'ensures an error of the compressor is not taken for success', z3.Not(lost))
        if not eng.valid(s, zval(self.status) == 0):
            # given up: only after an error
            eng.oblige(s, 'ensures the run is given up only after an error', z3.Or(zval(self.status) == 0, zb(g('lost'))))
            s.add(zval(self.status) == 0)
            if not eng.feasible(s):
                return
        eng.oblige(s, 'ensures the last password is written', zval(g('owed')) == 0)
        eng.oblige(s, 'ensures every list is extracted once, unless it is noted as done or cannot be read', z3.Or(zb(g('broken')), zval(g('extracted')) == self.want(total)))
        eng.oblige(s, 'ensures the lists extracted are noted', z3.Or(zb(g('broken')), z3.Not(z3.Bool('notes opened')), zval(g('noted')) == self.want(total)))
        eng.oblige(s, 'ensures the output is complete', And(g('closed'), Or(Not(self.COMPRESS), g('bzclosed'))))


def units_():
    return [Main(c, i, o) for c in (True, False) for i, o in ((False, True), (False, False), (True, True))]

