"""Contracts of URI (P17, P18)."""
from .strings import *
from irv import cont
from irv.cont import Pieces, Opt, EMPTY_MAP, SZ
from irv.lib import find_char, sfindc, slen, EMPTY

TEXTS = ('scheme', 'username', 'password', 'host', 'path', 'fragment')
MapSort = EMPTY_MAP.sort()


def has(r, e):
    return z3.And(r != -1, r < e)


def cut(r, e):
    """the end of a piece: the delimiter found, if it lies before the end"""
    return z3.If(has(r, e), r, e)


class Fold:
    """the parameters in [start, end) of a text, up to a position at which a piece begins"""

    def __init__(self, T, start, end, name='params'):
        self.T, self.start, self.end = T, start, end
        self.G = z3.Function(name, z3.IntSort(), MapSort)
        self.B = z3.Function(name + '_ok', z3.IntSort(), z3.BoolSort())

    def init(self, st, old=EMPTY_MAP):
        st.add(self.G(self.start) == old)
        st.add(self.B(self.start))

    def step(self, st, p):
        e = cut(sfindc(self.T, 38, p), self.end)
        q = sfindc(self.T, 61, p)
        q2 = sfindc(self.T, 61, q + 1)
        ok = z3.And(has(q, e), z3.Not(has(q2, e)))
        name, value = SV([(self.T, p, simp(q - p))]), SV([(self.T, simp(q + 1), simp(e - q - 1))])
        s = st
        for x in (name, value):
            s.add(z3.Implies(ok, slen(x.term()) == x.length()))
            s.add(z3.Implies(z3.And(ok, x.length() == 0), x.term() == EMPTY))
        inside = z3.And(p >= self.start, p <= self.end)
        st.add(z3.Implies(inside, self.G(e + 1) == z3.If(ok, z3.Store(self.G(p), name.term(), Opt.some(value.term())), self.G(p))))
        st.add(z3.Implies(inside, self.B(e + 1) == z3.And(self.B(p), ok)))
        for c, frm in ((38, p), (61, p), (61, simp(q + 1))):
            r = sfindc(self.T, c, frm)
            st.add(z3.Or(r == -1, z3.And(r >= frm, r < slen(self.T))))

    def result(self):
        return self.G(self.end + 1)

    def good(self):
        return self.B(self.end + 1)


def uri_candidates(ctx):
    u, e = ctx.eng.cur, ctx.eng
    out = []
    hs = []
    for rid, r in ctx.st0.mem.items():
        if isinstance(r.handler, Pieces):
            hs.append((r.name.split('/')[-1] + str(rid), rid, r.handler))
    pos = []
    for m in sorted(ctx.mods, key=repr):
        v = e.get_item(ctx.st0, m)
        if isinstance(v, PV):
            for nm, rid, h in hs:
                if v.r == rid:
                    off = lambda s, m=m: zval(e.get_item(s, m).off)
                    out.append((ctx.nm(m) + ' at an element', lambda s, off=off: off(s) % SZ == 0))
                    pos.append((ctx.nm(m) + '/32', lambda s, off=off: off(s) / SZ, h))
        elif isinstance(v, IV) and e.dom != 'bv':
            for nm, rid, h in hs:
                pos.append((ctx.nm(m), lambda s, m=m: zval(e.as_u(s, e.get_item(s, m))), h))
    fold = getattr(u, 'fold', None)
    for nm, k, h in pos:
        out.append((nm + ' >= 0', lambda s, k=k: k(s) >= 0))
        out.append((nm + ' <= number of pieces', lambda s, k=k, h=h: k(s) <= h.n))
        out.append((nm + ' behind the last piece', lambda s, k=k, h=h: z3.Implies(k(s) == h.n, h.start(k(s)) == zval(h.end) + 1)))
        if fold is not None:
            out.append((nm + ' parameters so far', lambda s, k=k, h=h: u.map_of(e, s) == fold.G(h.start(k(s)))))
            out.append((nm + ' validity so far', lambda s, k=k, h=h: u.valid_of(e, s) == z3.And(u.valid_before, fold.B(h.start(k(s))))))
    return out


class UriUnit(Unit):
    tu = 'uri.cpp'
    extra = ('-fno-access-control',)
    lib = cont.MODELS
    candgens = (uri_candidates,)
    valid_before = z3.BoolVal(True)
    budget = 200

    def bounds(self, eng):
        return [SZ * h.n for h in self.vectors] + [h.n for h in self.vectors]

    def object(self, eng, st):
        self.vectors = []
        this = obj(eng, st, 'this', const(eng, 'size_uri'))
        self.this = this
        self.old = {}
        for t in TEXTS:
            self.old[t] = SV.const(st, 'old_' + t)
            setstr(eng, st, self.at(eng, t), self.old[t])
        self.old_map = z3.Const('old_query', MapSort)
        eng.gset(st, self.at(eng, 'query'), 'smap', self.old_map)
        self.old_valid = z3.Bool('old_valid')
        eng.put(st, this.r, const(eng, 'off_valid'), 1, IV(8, z3.If(self.old_valid, 1, 0), 0, 1, bool=self.old_valid))
        self.old_port = cell_iv(eng, st, self.at(eng, 'port'), 16, 'old_port')
        return this

    def at(self, eng, member):
        return PV(self.this.r, const(eng, 'off_' + member))

    def map_of(self, eng, st):
        return eng.gget(st, self.at(eng, 'query'), 'smap')

    def valid_of(self, eng, st):
        return rdb(eng, st, self.at(eng, 'valid'))

    def on_find(self, eng, st, b, c, frm, r):
        f = getattr(self, 'fold', None)
        if f is not None and b.eq(f.T) and isinstance(c, int) and c == 38:
            f.step(st, zval(frm))


class Target(UriUnit):
    title = 'URI::parseTarget'

    def run(self, eng):
        st = State()
        this = self.object(eng, st)
        a = obj(eng, st, 'target', 32)
        sv = SV.const(st, 'T')
        setstr(eng, st, a, sv)
        T, L = sv.term(), zval(sv.length())
        for c, frm in ((63, 0),):
            pass
        p = z3.simplify(sfindc(T, z3.IntVal(63), z3.IntVal(0)))
        p2 = sfindc(T, z3.IntVal(63), p + 1)
        h = sfindc(T, z3.IntVal(35), p + 1)
        hp = sfindc(T, z3.IntVal(35), p)
        # p2, h: searches from behind the question mark; a search from the mark itself finds the same number sign
        for r, frm in ((p, 0), (p2, p + 1), (h, p + 1), (hp, p)):
            st.add(z3.Or(r == -1, z3.And(r >= frm, r < L)))
        st.add(z3.Implies(p >= 0, hp == h))
        end = cut(h, cut(p2, L))
        self.fold = Fold(T, simp(p + 1), end)
        self.fold.init(st)
        for s, r in eng.call_function(self.fn(eng, r'^URI::parseTarget\('), st, [this, a]):
            path, frag = getstr(eng, s, self.at(eng, 'path')), getstr(eng, s, self.at(eng, 'fragment'))
            for q, s2 in ((True, s.copy()), (False, s.copy())):
                s2.add((p != -1) == q)
                if not eng.feasible(s2):
                    continue
                want = SV([(T, 0, simp(p))]) if q else sv
                want.facts(s2)
                eng.oblige(s2, 'ensures the path is what precedes the question mark', sv_same(eng, s2, path, want))
                if q:
                    s3 = s2.copy()
                    s3.add(h != -1)
                    f = SV([(T, simp(h + 1), simp(L - h - 1))])
                    f.facts(s3)
                    eng.oblige(s3, 'ensures the fragment is what follows the number sign behind the question mark', sv_same(eng, s3, frag, f))
                    s2.add(h == -1)
                    eng.oblige(s3, 'ensures the parameters are the pieces of the form name=value', self.map_of(eng, s3) == self.fold.result())
                    eng.oblige(s2, 'ensures the parameters are the pieces of the form name=value', self.map_of(eng, s2) == self.fold.result())
                else:
                    eng.oblige(s2, 'ensures there are no parameters without a question mark', self.map_of(eng, s2) == EMPTY_MAP)
                eng.oblige(s2, 'ensures there is no fragment without a number sign', zval(frag.length()) == 0)
            for t in ('scheme', 'username', 'password', 'host'):
                eng.oblige(s, 'assigns not the other parts', sv_same(eng, s, getstr(eng, s, self.at(eng, t)), self.old[t]))
            eng.oblige(s, 'assigns not the port', rd(eng, s, self.at(eng, 'port'), 16) == self.old_port)
            eng.oblige(s, 'assigns not the target', sv_same(eng, s, getstr(eng, s, a), sv))


# ------------------------------------------------------------------ whole URIs
from irv import rx, redfa
from irv.lib import cstr, sv_eq, Box
from irv.redfa import cls, cat, alt, many, opt, grp, text
import re as _re

MAXURI = 4096


def grammar():
    """the texts that are URIs, and their parts: 1 scheme, 2 credentials, 3 host, 4 port, 5 path behind a host,
    6 path without host, 7 parameters, 8 fragment"""
    hexd, dash = cls('A-Fa-f0-9'), text('-')
    reg = alt(cls("A-Za-z0-9._~!$&'()*+,;="), dash, cat(text('%'), hexd, hexd))
    pch = alt(reg, cls(':@'))
    seg = alt(pch, cls('/'))
    tail = many(alt(seg, cls('?')))
    scheme = alt(cls('a-z0-9+.'), dash)
    auth = cat(text('//'), opt(cat(grp(2, many(alt(reg, cls(':')))), text('@'))), grp(3, many(reg)),
               opt(cat(text(':'), grp(4, many(cls('0-9'))))), opt(grp(5, cat(text('/'), many(seg)))))
    bare = grp(6, cat(opt(text('/')), pch, many(seg)))
    return cat(grp(1, cat(scheme, many(scheme))), text(':'), opt(alt(auth, bare)), opt(cat(text('?'), grp(7, tail))),
               opt(cat(text('#'), grp(8, tail))))


is_uri = z3.Function('is_uri', S, z3.BoolSort())
part_at = z3.Function('part_at', S, z3.IntSort(), z3.IntSort())
part_len = z3.Function('part_len', S, z3.IntSort(), z3.IntSort())
part_in = z3.Function('part_in', S, z3.IntSort(), z3.BoolSort())
decimal = z3.Function('decimal', S, z3.IntSort())


def parts(st, sv):
    """the parts of a URI (texts; empty if missing) and whether they are there"""
    T, L = sv.term(), zval(sv.length())
    out = [sv]
    there = [z3.BoolVal(True)]
    for i in range(1, 9):
        o, n, m = part_at(T, i), part_len(T, i), part_in(T, i)
        st.add(z3.And(o >= 0, n >= 0, o + n <= L, z3.Implies(z3.Not(m), n == 0)))
        p = SV([(T, o, n)])
        p.facts(st)
        out.append(p)
        there.append(m)
    # both kinds of path cannot be there at once, by the grammar
    st.add(z3.Not(z3.And(there[5], there[6])))
    return out, there


class Matched:
    def __init__(self, c, texts, there):
        self.c, self.texts, self.there = c, texts, there


def m_uri_search(eng, st, a, I, line, d):
    """contract of std::regex_search, with the language of the pattern decided by automata"""
    if 'std::match_results<' not in d.split('(', 1)[1]:
        raise Unsupported('regex_search')
    sv = getstr(eng, st, a[0])
    pat = rx.pattern_of(eng, st, a[2])
    diff = redfa.difference(redfa.Parse(pat).tree, grammar())
    if diff is not None:
        w = ''.join(chr(x) if isinstance(x, int) else '<%s%d>' % x for x in diff)
        eng.oblige(st, 'requires: the pattern describes the URIs and their parts; it differs for %r' % w, z3.BoolVal(False), line)
        raise Unsupported('pattern')
    eng.oblige(st, 'requires: the pattern describes the URIs and their parts', z3.BoolVal(True), line)
    if redfa.ambiguous(grammar()):
        raise Unsupported('ambiguous grammar')
    eng.oblige(st, 'the text given to the matcher is short enough for its recursion', zval(sv.length()) <= MAXURI, line)
    texts, there = parts(st, sv)
    c = is_uri(sv.term())
    st.ghost[(a[1].r, eng.coff(a[1].off), 'groups')] = Box(Matched(c, texts, there))
    return (BoolV(c),)


def match_of(eng, st, p):
    b = eng.gget(st, p, 'groups')
    if b is None or not isinstance(b.v, Matched):
        raise Unsupported('match_results')
    return b.v


def m_match_size(eng, st, a, I, line, d):
    m = match_of(eng, st, a[0])
    return (IV(64, z3.If(m.c, z3.IntVal(len(m.texts)), z3.IntVal(0)), 0, len(m.texts)),)


def m_match_empty(eng, st, a, I, line, d):
    return (BoolV(z3.Not(match_of(eng, st, a[0]).c)),)


def m_match_index(eng, st, a, I, line, d):
    m = match_of(eng, st, a[0])
    i = eng.as_u(st, a[1])
    if not isinstance(i, int):
        raise Unsupported('groups')
    p = eng.new_region(st, 'sub_match', 24, 'obj', lazy=True)
    ok = i < len(m.texts)
    t = m.texts[i] if ok else SV([])
    here = z3.And(m.c, m.there[i]) if ok else z3.BoolVal(False)
    st.ghost[(p.r, 0, 'sub')] = Box((m.c, t))
    eng.put(st, p.r, 16, 1, IV(8, z3.If(here, 1, 0), 0, 1, bool=here))
    return (p,)


def m_sub_length(eng, st, a, I, line, d):
    sv = rx.sub_text(eng, st, a[0])
    return (IV(64, zval(sv.length()), 0, 1 << 61),)


def m_strtoul(eng, st, a, I, line, d):
    """value of a text of decimal digits, the greatest number if that does not fit"""
    sv = cstr(eng, st, a[0])
    if eng.as_u(st, a[2]) != 10 or not (isinstance(a[1], PV) and a[1].r is None):
        raise Unsupported('strtoul')
    sv.facts(st)
    t = decimal(sv.term())
    st.add(z3.And(t >= 0, t < M64))
    return (IV(64, t, 0, M64 - 1),)


# ---- std::map<string, uint16_t> filled once, from a list
class PortMap:
    def __init__(self, entries):
        self.entries = entries


def m_pair_ctor(eng, st, a, I, line, d):
    g = cstr(eng, st, a[1]).is_lit()
    if g is None:
        raise Unsupported('entry of a map')
    setstr(eng, st, a[0], SV([g]))
    m = eng.load(st, a[2], ('i', 32), line)
    eng.store(st, PV(a[0].r, a[0].off + 32), ('i', 16), IV(16, eng.as_u(st, m) % 65536), line)
    return (None,)


def m_pm_list(eng, st, a, I, line, d):
    src, n = a[1], eng.as_u(st, a[2])
    ent = {}
    for i in range(n):
        k = getstr(eng, st, PV(src.r, src.off + 40 * i)).is_lit()
        v = eng.as_u(st, eng.load(st, PV(src.r, src.off + 40 * i + 32), ('i', 16), line))
        if k is None or not isinstance(v, int):
            raise Unsupported('entry of a map')
        ent.setdefault(k, v)
    nodes = []
    for k in sorted(ent):
        p = eng.new_region(st, 'entry', 72, 'heap', lazy=True)
        setstr(eng, st, PV(p.r, 32), SV([k]))
        eng.store(st, PV(p.r, 64), ('i', 16), IV(16, ent[k]), line)
        nodes.append((k, p))
    st.ghost[(a[0].r, eng.coff(a[0].off), 'portmap')] = Box(nodes)
    return (None,)


def find_entry(eng, st, m, key, missing):
    b = eng.gget(st, m, 'portmap')
    if b is None:
        raise Unsupported('map')
    sv = getstr(eng, st, key)
    out = []
    for k, p in b.v:
        rest = None
        for s, h in eng.fork(st, is_text(eng, st, sv, k)):
            if h:
                out.append((s, p))
            else:
                rest = s
        if rest is None:
            return out
        st = rest
    return out + missing(st)


TX = z3.Function('is_text', S, z3.IntSort(), z3.BoolSort())
_texts = {}


def is_text(eng, st, sv, k):
    """the text equals a constant"""
    l = sv.is_lit()
    if l is not None:
        return z3.BoolVal(l == k)
    sv.facts(st)
    _texts.setdefault(k, len(_texts))
    e = TX(sv.term(), _texts[k])
    st.add(z3.Implies(e, zval(sv.length()) == len(k)))
    for o, n in _texts.items():
        if o != k:
            st.add(z3.Not(z3.And(e, TX(sv.term(), n))))
    return e


def m_pm_find(eng, st, a, I, line, d):
    return find_entry(eng, st, a[0], a[1], lambda s: [(s, PV(a[0].r, eng.coff(a[0].off) + 8))])


def m_pm_end(eng, st, a, I, line, d):
    return (PV(a[0].r, eng.coff(a[0].off) + 8),)


def m_pm_count(eng, st, a, I, line, d):
    return [(s, IV(64, 0 if isinstance(p, str) else 1)) for s, p in find_entry(eng, st, a[0], a[1], lambda s: [(s, 'none')])]


def m_pm_at(eng, st, a, I, line, d):
    out = []
    for s, p in find_entry(eng, st, a[0], a[1], lambda s: [(s, None)]):
        if p is None:
            eng.oblige(s, 'std::map::at() does not throw', z3.BoolVal(False), line)
            continue
        out.append((s, PV(p.r, 64)))
    return out


PM = r'std::map<std::string, unsigned short, std::less<std::string ?>, std::allocator<std::pair<std::string const, unsigned short> ?> ?>'
URI_MODELS = [
    (r'bool std::regex_search<.*>\(std::string const&, ', m_uri_search),
    (r'std::match_results<.*>::size\(\) const$', m_match_size),
    (r'std::match_results<.*>::empty\(\) const$', m_match_empty),
    (r'std::match_results<.*>::operator\[\]\(unsigned long\) const$', m_match_index),
    (r'std::sub_match<.*>::length\(\) const$', m_sub_length),
    (r'(__isoc23_)?strtoul$', m_strtoul),
    (r'std::pair<std::string const, unsigned short>::pair<char const \(&\) \[\d+\], int,', m_pair_ctor),
    (PM + r'::map\(std::initializer_list<', m_pm_list),
    (PM + r'::~map\(\)$', rx.m_void),
    (PM + r'::find\(std::string const&\) const$', m_pm_find),
    (PM + r'::c?end\(\) const$', m_pm_end),
    (PM + r'::count\(std::string const&\) const$', m_pm_count),
    (PM + r'::at\(std::string const&\) const$', m_pm_at),
]


class Parse(UriUnit):
    title = 'URI::parse'
    lib = URI_MODELS + rx.MODELS + cont.MODELS

    def globals_of(self, eng, st):
        """runs the initialisers of the constants of the file"""
        for n, f in sorted(eng.mod.functions.items()):
            if n.lstrip('@').startswith('__cxx_global_var_init') and not f.decl:
                ends = eng.call_function(f, st, [])
                if len(ends) != 1:
                    raise Unsupported('initialiser of a constant')
                st = ends[0][0]
        return st

    def run(self, eng):
        st = self.globals_of(eng, State())
        this = self.object(eng, st)
        a = obj(eng, st, 'uri', 32)
        sv = SV.const(st, 'T')
        st.add(zval(sv.length()) <= MAXURI)
        setstr(eng, st, a, sv)
        T = sv.term()
        p, there = parts(st, sv)
        L = [zval(x.length()) for x in p]
        # credentials: exactly one colon
        c_at, c_end = p[2].parts[0][1], simp(p[2].parts[0][1] + L[2])
        colon = sfindc(T, z3.IntVal(58), c_at)
        colon2 = sfindc(T, z3.IntVal(58), colon + 1)
        for r, frm in ((colon, c_at), (colon2, colon + 1)):
            st.add(z3.Or(r == -1, z3.And(r >= frm, r < slen(T))))
        cred = z3.Or(L[2] == 0, z3.And(has(colon, c_end), z3.Not(has(colon2, c_end))))
        port = z3.Or(L[4] == 0, decimal(p[4].term()) <= 65535)
        q_at = p[7].parts[0][1]
        self.fold = Fold(T, q_at, simp(q_at + L[7]))
        self.fold.init(st)
        self.valid_before = z3.And(cred, port)
        params = z3.Or(L[7] == 0, self.fold.good())
        for s, r in eng.call_function(self.fn(eng, r'^URI::parse\('), st, [this, a]):
            ok = self.valid_of(eng, s)
            eng.oblige(s, 'ensures exactly the URIs with proper credentials, port and parameters are valid',
                       ok == z3.And(is_uri(T), cred, port, params))
            now = {t: getstr(eng, s, self.at(eng, t)) for t in TEXTS}
            pt = rd(eng, s, self.at(eng, 'port'), 16)
            good = s.copy()
            good.add(ok)
            if eng.feasible(good):
                for t, i in (('scheme', 1), ('host', 3), ('fragment', 8)):
                    eng.oblige(good, 'ensures the %s is the one written' % t, sv_same(eng, good, now[t], p[i]))
                for i in (5, 6):
                    g = good.copy()
                    g.add(there[i])
                    eng.oblige(g, 'ensures the path is the one written', sv_same(eng, g, now['path'], p[i]))
                g = good.copy()
                g.add(z3.Not(z3.Or(there[5], there[6])))
                eng.oblige(g, 'ensures there is no path if none is written', zval(now['path'].length()) == 0)
                g = good.copy()
                g.add(L[2] > 0)
                if eng.feasible(g):
                    for t, x in (('username', SV([(T, c_at, simp(colon - c_at))])), ('password', SV([(T, simp(colon + 1), simp(c_end - colon - 1))]))):
                        x.facts(g)
                        eng.oblige(g, 'ensures the %s is the one written' % t, sv_same(eng, g, now[t], x))
                g = good.copy()
                g.add(L[2] == 0)
                eng.oblige(g, 'ensures there are no credentials if none are written', z3.And(zval(now['username'].length()) == 0, zval(now['password'].length()) == 0))
                http, https = is_text(eng, good, p[1], b'http'), is_text(eng, good, p[1], b'https')
                eng.oblige(good, 'ensures the port is the one written or the default of the scheme',
                           pt == z3.If(L[4] > 0, decimal(p[4].term()), z3.If(http, 80, z3.If(https, 443, z3.IntVal(0)))))
                g = good.copy()
                g.add(L[7] > 0)
                if eng.feasible(g):
                    eng.oblige(g, 'ensures the parameters are those written', self.map_of(eng, g) == self.fold.result())
                g = good.copy()
                g.add(L[7] == 0)
                eng.oblige(g, 'ensures there are no parameters if none are written', self.map_of(eng, g) == EMPTY_MAP)
            eng.oblige(s, 'assigns not the text given', sv_same(eng, s, getstr(eng, s, a), sv))
