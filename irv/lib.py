"""Assumed contracts of standard-library functions (the trusted base).

Every entry is a model (pattern of the demangled name, function).  What is
assumed is the documented behaviour of the C++ standard library on Linux, for
files that can be read without I/O errors."""
import re
import z3
from .engine import (IV, BoolV, PV, FnV, FV, Agg, UNDEF, NULL, And, Or, Not, If, Eq, Implies, zval, zb, simp,
                     Unsupported, FSORT, is_c, mk_div, mk_mod)

VB = 1 << 32          # virtual-base offset given to every stream object
IOS = VB

S = z3.DeclareSort('Str')
I = z3.IntSort()
B = z3.BoolSort()
slen = z3.Function('len', S, I)
sat = z3.Function('at', S, I, I)
ssub = z3.Function('sub', S, I, I, S)
scat = z3.Function('cat', S, S, S)
sfindc = z3.Function('findc', S, I, I, I)       # position of a character from an index on, -1 if none
sfinds = z3.Function('finds', S, S, I, I)
EMPTY = z3.Const('str_empty', S)


# --------------------------------------------------------------------------
# strings
class Ch:
    """a part that is one character (term or int, 0..255)"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'Ch(%s)' % (self.c,)


def plen(p):
    if isinstance(p, bytes):
        return len(p)
    if isinstance(p, Ch):
        return 1
    return p[2]


class SV:
    """string value: concatenation of parts; a part is python bytes (a literal)
    or (base term, offset, length)"""
    __slots__ = ('parts', '_t')

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, Ch) and isinstance(p.c, int):
                p = bytes([p.c & 255])
            if isinstance(p, bytes):
                if not p:
                    continue
                if ps and isinstance(ps[-1], bytes):
                    ps[-1] = ps[-1] + p
                    continue
            elif isinstance(p, Ch):
                pass
            elif is_c(p[2]) and p[2] == 0:
                continue
            ps.append(p)
        self.parts = tuple(ps)
        self._t = None

    @staticmethod
    def base(t):
        return SV([(t, 0, slen(t))])

    @staticmethod
    def fresh(eng, st, nm='s'):
        t = z3.Const(eng.fresh_name(nm), S)
        st.add(slen(t) >= 0)
        st.add(slen(t) < (1 << 62))
        return SV.base(t)

    @staticmethod
    def const(st, nm):
        t = z3.Const(nm, S)
        st.add(slen(t) >= 0)
        st.add(slen(t) < (1 << 62))
        return SV.base(t)

    def length(self):
        n = 0
        for p in self.parts:
            n = n + plen(p)
        return n

    def is_lit(self):
        if not self.parts:
            return b''
        if len(self.parts) == 1 and isinstance(self.parts[0], bytes):
            return self.parts[0]
        return None

    @staticmethod
    def pterm(p):
        if isinstance(p, bytes):
            return lit(p)
        if isinstance(p, Ch):
            return schar(p.c)
        b, o, n = p
        if is_c(o) and o == 0 and isinstance(n, z3.ExprRef) and n.eq(slen(b)):
            return b
        return ssub(b, zval(o), zval(n))

    def term(self):
        if self._t is None:
            if not self.parts:
                self._t = EMPTY
            else:
                t = self.pterm(self.parts[-1])
                for p in reversed(self.parts[:-1]):
                    t = scat(self.pterm(p), t)
                self._t = t
        return self._t

    def facts(self, st):
        for p in self.parts:
            if isinstance(p, Ch):
                st.add(slen(schar(p.c)) == 1)
            elif not isinstance(p, bytes):
                b, o, n = p
                t = self.pterm(p)
                if not t.eq(b):
                    st.add(z3.Implies(z3.And(zval(o) == 0, zval(n) == slen(b)), t == b))
                    st.add(z3.Implies(zval(n) == 0, t == EMPTY))
                    st.add(slen(t) == zval(n))
        if len(self.parts) == 1:
            st.add(z3.Implies(zval(self.length()) == 0, self.term() == EMPTY))
        st.add(slen(EMPTY) == 0)
        for p in self.parts:
            if isinstance(p, bytes):
                st.add(slen(lit(p)) == len(p))

    def at(self, eng, st, i):
        """character (0..255) at index i"""
        if not self.parts:
            return 0
        res = []
        k = i
        for p in self.parts:
            n = plen(p)
            if isinstance(n, int) and isinstance(k, int) and n <= k and len(self.parts) > 1:
                k -= n
                continue
            c = self.part_at(st, p, k)
            res.append((n, k, c))
            if isinstance(n, int) and isinstance(k, int):
                break
            k = simp(zval(k - n))
        if not res:
            return 0
        t = res[-1][2]
        for n, k, c in reversed(res[:-1]):
            t = If(zval(k) < zval(n), c, t)
        return t

    @staticmethod
    def part_at(st, p, k):
        if isinstance(p, Ch):
            return p.c
        if isinstance(p, bytes):
            if isinstance(k, int):
                return p[k] if 0 <= k < len(p) else 0
            t = z3.IntVal(0)
            for j in range(len(p) - 1, -1, -1):
                t = z3.If(k == j, z3.IntVal(p[j]), t)
            return t
        t = sat(p[0], zval(simp(zval(p[1] + k))))
        st.add(z3.And(t >= 0, t < 256))
        return t

    def sub(self, eng, st, o, n):
        """substring, o <= length assumed; n may exceed the rest.  n None: to the end"""
        L = self.length()
        if isinstance(o, int) and o == 0:
            if n is None:
                return self
            if eng.valid(st, zval(n) >= zval(L), 2000) if not (is_c(n) and is_c(L)) else n >= L:
                return self
        # cut parts of constant length
        parts = list(self.parts)
        o2 = o
        while parts and isinstance(o2, int):
            p = parts[0]
            pl = plen(p)
            if isinstance(pl, int) and pl <= o2:
                parts.pop(0)
                o2 -= pl
                continue
            break
        if isinstance(o2, int) and parts and isinstance(parts[0], bytes):
            parts[0] = parts[0][o2:]
            o2 = 0
        if n is None and isinstance(o2, int) and o2 == 0:
            return SV(parts)
        if len(parts) == 1:
            p = parts[0]
            if isinstance(p, bytes) and isinstance(o2, int) and (n is None or isinstance(n, int)):
                return SV([p[o2:] if n is None else p[o2:o2 + n]])
            if isinstance(p, (bytes, Ch)):
                p = (SV.pterm(p), 0, plen(p))
            rest = simp(zval(p[2] - o2))
            if n is None:
                m = rest
            else:
                c = zval(n) <= zval(rest)
                d = eng.decide(st, c)
                m = n if d == 'T' else rest if d == 'F' else z3.If(c, zval(n), zval(rest))
            r = SV([(p[0], simp(zval(p[1] + o2)), simp(zval(m)))])
            r.facts(st)
            return r
        t = self.term()
        rest = simp(zval(L - o))
        m = rest if n is None else simp(z3.If(zval(n) <= zval(rest), zval(n), zval(rest)))
        r = SV([(t, o, m)])
        st.add(slen(t) == zval(L))
        r.facts(st)
        return r

    def havoc(self, eng, st, nm):
        t = z3.Const(nm, S)
        st.add(slen(t) >= 0)
        st.add(slen(t) < (1 << 62))
        return SV.base(t)

    def __repr__(self):
        return 'SV%r' % (self.parts,)


LITS = {}


def lit(b):
    if not b:
        return EMPTY
    if b not in LITS:
        LITS[b] = z3.Const('lit_%s' % b.hex(), S)
    return LITS[b]


def charwise(a):
    """list of characters if every part has a constant length"""
    out = []
    for p in a.parts:
        if isinstance(p, bytes):
            out += list(p)
        elif isinstance(p, Ch):
            out.append(p.c)
        else:
            return None
    return out


def sv_same(eng, st, a, b):
    """equality of two string values given by the same kind of parts (used in postconditions)"""
    ca, cb = charwise(a), charwise(b)
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return False
        return And(*[Eq(x, y) for x, y in zip(ca, cb)])
    # cut both into aligned parts where possible
    pa, pb = explode(a), explode(b)
    if len(pa) == len(pb):
        c = []
        for x, y in zip(pa, pb):
            if isinstance(x, int) or isinstance(y, int) or isinstance(x, Ch) or isinstance(y, Ch):
                if isinstance(x, tuple) or isinstance(y, tuple):
                    break
                x, y = (z.c if isinstance(z, Ch) else z for z in (x, y))
                c.append(Eq(x, y))
            else:
                c.append(SV.pterm(x) == SV.pterm(y))
        else:
            return And(*c)
    return sv_eq(eng, st, a, b)


def explode(a):
    out = []
    for p in a.parts:
        if isinstance(p, bytes):
            out += list(p)
        else:
            out.append(p)
    return out


def sv_eq(eng, st, a, b):
    """boolean term for equality of two string values"""
    la, lb = a.is_lit(), b.is_lit()
    if la is not None and lb is not None:
        return la == lb
    if lb is not None:
        a, b, la, lb = b, a, lb, la
    if la is not None:
        # compare with a literal character by character
        L = b.length()
        c = [Eq(L, len(la))]
        for i, ch in enumerate(la):
            c.append(Eq(b.at(eng, st, i), ch))
        e = And(*c)
        if la == b'':
            st.add(z3.Implies(zb(e), b.term() == EMPTY))
        else:
            b.facts(st)
            st.add(zb(e) == (b.term() == lit(la)))
        return e
    if a.term().eq(b.term()):
        return True
    a.facts(st)
    b.facts(st)
    e = a.term() == b.term()
    st.add(z3.Implies(e, zval(a.length()) == zval(b.length())))
    return e


def getstr(eng, st, p):
    r = st.mem.get(p.r)
    if r is not None and hasattr(r.handler, 'get_str'):
        return r.handler.get_str(eng, st, p)
    v = eng.gget(st, p, 'str')
    if v is None:
        v = eng.gget(st, p, 'str', lambda: SV.fresh(eng, st, 'str'))
    return v


def setstr(eng, st, p, sv):
    r = st.mem.get(p.r)
    if r is not None and hasattr(r.handler, 'set_str'):
        return r.handler.set_str(eng, st, p, sv)
    eng.gset(st, p, 'str', sv)


class StrData:
    """handler of the character buffer of a string object"""
    def __init__(self, owner):
        self.owner = owner

    def load(self, eng, st, r, off, ty, line):
        if ty != ('i', 8):
            raise Unsupported('wide load from a string buffer')
        sv = getstr(eng, st, self.owner)
        off = off if isinstance(off, int) else simp(off)
        L = sv.length()
        eng.oblige_safe(st, 'index inside the string', And(zval(off) >= 0, zval(off) <= zval(L)), line)
        c = sv.at(eng, st, off)
        if isinstance(c, int):
            return IV(8, c)
        st.add(z3.Implies(zval(off) == zval(L), c == 0)) if not (is_c(off) and is_c(L)) else None
        return IV(8, c, 0, 255)

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('store into a string buffer')

    def off_facts(self, eng, st, r, off, old):
        pass


def strdata(eng, st, p):
    d = eng.gget(st, p, 'data')
    if d is None or d.r not in st.mem:
        d = eng.new_region(st, 'strdata', None, 'strdata', handler=StrData(p))
        st.ghost[(p.r, eng.coff(p.off), 'data')] = d
    return d


def cstr(eng, st, p):
    """string value of a char* argument"""
    if isinstance(p, PV) and p.r is not None:
        r = st.mem.get(p.r)
        if r is not None and isinstance(r.handler, StrData):
            sv = getstr(eng, st, r.handler.owner)
            # the text up to the first NUL: assumed to contain none unless a contract says otherwise
            return sv.sub(eng, st, p.off, None)
        if r is not None and isinstance(p.off, int):
            out = bytearray()
            o = p.off
            while True:
                c = r.cells.get(o)
                if c is None or c[0] != 1 or not isinstance(c[1], IV) or not isinstance(c[1].t, int):
                    break
                if c[1].t == 0:
                    return SV([bytes(out)])
                out.append(c[1].t & 255)
                o += 1
        g = eng.gget(st, p, 'cstr')
        if g is not None:
            return g
    raise Unsupported('text of a char pointer')


def m_str_default(eng, st, a, I, line, d):
    setstr(eng, st, a[0], SV([]))
    return (None,)


def m_str_copy(eng, st, a, I, line, d):
    setstr(eng, st, a[0], getstr(eng, st, a[1]))
    return (None,)


def m_str_move(eng, st, a, I, line, d):
    v = getstr(eng, st, a[1])
    setstr(eng, st, a[0], v)
    if (a[0].r, a[0].off) != (a[1].r, a[1].off):
        setstr(eng, st, a[1], SV([]))
    return (None,)


def m_str_cstr(eng, st, a, I, line, d):
    setstr(eng, st, a[0], cstr(eng, st, a[1]))
    return (None,)


def m_str_assign_copy(eng, st, a, I, line, d):
    setstr(eng, st, a[0], getstr(eng, st, a[1]))
    return (a[0],)


def m_str_assign_move(eng, st, a, I, line, d):
    m_str_move(eng, st, a, I, line, d)
    return (a[0],)


def m_str_assign_c(eng, st, a, I, line, d):
    setstr(eng, st, a[0], cstr(eng, st, a[1]))
    return (a[0],)


def len_iv(st, n):
    if isinstance(n, int):
        return IV(64, n)
    n = simp(n)
    if isinstance(n, int):
        return IV(64, n)
    st.add(z3.And(n >= 0, n < (1 << 62)))
    return IV(64, n, 0, (1 << 62) - 1)


def m_str_size(eng, st, a, I, line, d):
    return (len_iv(st, getstr(eng, st, a[0]).length()),)


def m_str_empty(eng, st, a, I, line, d):
    return (BoolV(Eq(getstr(eng, st, a[0]).length(), 0)),)


def m_str_clear(eng, st, a, I, line, d):
    setstr(eng, st, a[0], SV([]))
    return (None,)


def m_str_data(eng, st, a, I, line, d):
    return (strdata(eng, st, a[0]),)


def m_str_begin(eng, st, a, I, line, d):
    return (strdata(eng, st, a[0]),)


def m_str_end(eng, st, a, I, line, d):
    p = strdata(eng, st, a[0])
    return (PV(p.r, getstr(eng, st, a[0]).length()),)


def m_str_index(eng, st, a, I, line, d):
    i = eng.as_u(st, a[1])
    if '::at(' in d:
        eng.oblige_safe(st, 'string index in range (at does not throw)', zval(i) < zval(getstr(eng, st, a[0]).length()), line)
    elif '::front(' in d or '::back(' in d:
        raise Unsupported('front/back')
    p = strdata(eng, st, a[0])
    return (PV(p.r, i),)


def m_str_front(eng, st, a, I, line, d):
    p = strdata(eng, st, a[0])
    L = getstr(eng, st, a[0]).length()
    eng.oblige_safe(st, 'string not empty', zval(L) > 0, line)
    return (PV(p.r, 0 if '::front(' in d else simp(zval(L - 1))),)


def m_str_substr(eng, st, a, I, line, d):
    # sret result, this, pos, n
    sv = getstr(eng, st, a[1])
    o = eng.as_u(st, a[2])
    L = sv.length()
    eng.oblige_safe(st, 'substr position in range', zval(o) <= zval(L), line)
    st.add(zval(o) <= zval(L)) if not (is_c(o) and is_c(L)) else None
    n = eng.as_u(st, a[3])
    if isinstance(n, int) and n >= (1 << 62):
        n = None
    setstr(eng, st, a[0], sv.sub(eng, st, o, n))
    return (None,)


def m_str_substr_ctor(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[1])
    o = eng.as_u(st, a[2])
    eng.oblige_safe(st, 'substring position in range', zval(o) <= zval(sv.length()), line)
    n = None
    if len(a) > 3 and isinstance(a[3], IV):
        n = eng.as_u(st, a[3])
        if isinstance(n, int) and n >= (1 << 62):
            n = None
    setstr(eng, st, a[0], sv.sub(eng, st, o, n))
    return (None,)


NPOS = (1 << 64) - 1


def find_char(eng, st, sv, c, frm):
    """term -1 or the first index >= frm of the character"""
    l = sv.is_lit()
    if l is not None and isinstance(c, int) and isinstance(frm, int):
        return l.find(bytes([c & 255]), frm)
    hook = getattr(eng.cur, 'on_find', None)
    if len(sv.parts) == 1 and isinstance(sv.parts[0], tuple):
        b, o, n = sv.parts[0]
        if not sv.term().eq(b):
            # a search in a part of a text is a search in the text
            frm = simp(zval(o) + zval(frm))
            g = sfindc(b, zval(c), zval(frm))
            st.add(z3.Or(g == -1, z3.And(g >= zval(frm), g < slen(b), sat(b, g) == zval(c))))
            if hook is not None:
                hook(eng, st, b, c, frm, g)
            return simp(z3.If(z3.Or(g == -1, g >= zval(o) + zval(n)), z3.IntVal(-1), g - zval(o)))
    t = sv.term()
    if hook is not None:
        hook(eng, st, t, c, frm, sfindc(t, zval(c), zval(frm)))
    r = sfindc(t, zval(c), zval(frm))
    L = zval(sv.length())
    st.add(z3.Or(r == -1, z3.And(r >= zval(frm), r < L)))
    ch = sv.at(eng, st, r) if len(sv.parts) == 1 else None
    if ch is not None:
        st.add(z3.Implies(r >= 0, ch == zval(c)))
    wo = st.seqs.get(('without', t.get_id()))
    if wo is not None and is_c(frm) and frm == 0:
        # taking out one character does not take out another
        st.add(z3.Implies(zval(c) != zval(wo[2]), (r == -1) == (sfindc(wo[1], zval(c), 0) == -1)))
        st.add(sfindc(wo[1], zval(c), 0) >= -1)
    return r


def m_str_find_char(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    c = eng.as_u(st, a[1])
    frm = eng.as_u(st, a[2]) if len(a) > 2 else 0
    r = find_char(eng, st, sv, c, frm)
    return (npos_iv(st, r),)


def npos_iv(st, r):
    if isinstance(r, int):
        return IV(64, r if r >= 0 else NPOS)
    return IV(64, r, -1, (1 << 62))


def m_str_find_str(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    nd = getstr(eng, st, a[1]) if 'string const&' in d else cstr(eng, st, a[1])
    frm = eng.as_u(st, a[2]) if len(a) > 2 else 0
    l = nd.is_lit()
    if l is not None and len(l) == 1:
        return (npos_iv(st, find_char(eng, st, sv, l[0], frm)),)
    r = sfinds(sv.term(), nd.term(), zval(frm))
    st.add(z3.Or(r == -1, z3.And(r >= zval(frm), r + zval(nd.length()) <= zval(sv.length()))))
    return (npos_iv(st, r),)


def m_str_append_char(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    c = eng.as_u(st, a[1])
    setstr(eng, st, a[0], SV(list(sv.parts) + list(char_sv(st, c).parts)))
    return (a[0],)


schar = z3.Function('chr', I, S)


def char_sv(st, c):
    return SV([Ch(c)])


def m_str_append(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    o = getstr(eng, st, a[1]) if 'string const&)' in d else cstr(eng, st, a[1])
    setstr(eng, st, a[0], SV(list(sv.parts) + list(o.parts)))
    return (a[0],)


def m_str_plus(eng, st, a, I, line, d):
    # operator+ with sret
    args = d[d.index('operator+'):]
    args = args[args.index('('):]
    args = split_args(args[1:args.rindex(')')])
    parts = []
    for k, t in enumerate(args):
        t = t.strip()
        v = a[1 + k]
        if t.startswith(('string', 'std::string')):
            parts += getstr(eng, st, v).parts
        elif t.startswith('char const*'):
            parts += cstr(eng, st, v).parts
        elif t == 'char':
            parts += char_sv(st, eng.as_u(st, v)).parts
        else:
            raise Unsupported('operator+ ' + t)
    setstr(eng, st, a[0], SV(parts))
    return (None,)


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        if ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def m_str_eq(eng, st, a, I, line, d):
    args = split_args(d[d.index('(') + 1:d.rindex(')')])
    vs = []
    for t, v in zip(args, a):
        vs.append(getstr(eng, st, v) if t.strip().startswith(('string', 'std::string')) else cstr(eng, st, v))
    e = sv_eq(eng, st, vs[0], vs[1])
    return (BoolV(Not(e) if 'operator!=' in d else e),)


def m_str_compare(eng, st, a, I, line, d):
    m = re.search(r'::compare\((.*)\) const', d)
    ar = m.group(1).strip()
    if ar == 'string const&':
        x, y = getstr(eng, st, a[0]), getstr(eng, st, a[1])
    elif ar == 'char const*':
        x, y = getstr(eng, st, a[0]), cstr(eng, st, a[1])
    else:
        return None
    e = sv_eq(eng, st, x, y)
    if isinstance(e, bool):
        if e:
            return (IV(32, 0),)
    f = z3.Function('strcmp', S, S, z3.IntSort())
    t = f(x.term(), y.term())
    st.add(z3.And(t >= -(1 << 31), t < (1 << 31)))
    st.add((t == 0) == zb(e))
    return (IV(32, t, -(1 << 31), (1 << 31) - 1),)


def m_str_fill(eng, st, a, I, line, d):
    n, c = eng.as_u(st, a[1]), eng.as_u(st, a[2])
    if isinstance(n, int) and isinstance(c, int) and n < 4096:
        setstr(eng, st, a[0], SV([bytes([c & 255]) * n]))
        return (None,)
    raise Unsupported('string fill constructor')


def m_str_swap(eng, st, a, I, line, d):
    x, y = getstr(eng, st, a[0]), getstr(eng, st, a[1])
    setstr(eng, st, a[0], y)
    setstr(eng, st, a[1], x)
    return (None,)


def m_noop(eng, st, a, I, line, d):
    return (a[0] if a else None,)


def m_void(eng, st, a, I, line, d):
    return (None,)


# --------------------------------------------------------------------------
# input sources
class FileSrc:
    """contents of a file, a function of the position only (nobody writes to it)"""

    def __init__(self, name):
        self.name = name
        self.F = z3.Int(name + '_len')
        self.le = {n: z3.Function('%s_le%d' % (name, n), z3.IntSort(), z3.IntSort()) for n in (1, 2, 4, 8)}
        self.on_read = []

    def axioms(self):
        return [self.F >= 0]

    def le_at(self, st, n, p):
        t = self.le[n](zval(p))
        st.add(z3.And(t >= 0, t < (1 << (8 * n))))
        return t

    def read(self, eng, st, pos, n, dst, line):
        i = 0
        while i < n:
            w = 8 if i + 8 <= n else 4 if i + 4 <= n else 1
            t = self.le_at(st, w, simp(zval(pos + i)))
            eng.store(st, PV(dst.r, dst.off + i), ('i', 8 * w), IV(8 * w, t, 0, (1 << (8 * w)) - 1), line)
            i += w
        for f in self.on_read:
            f(eng, st, pos, n)


class ByteFile(FileSrc):
    """a file read byte by byte: values read keep their bytes apart"""

    def byte(self, st, p):
        return self.le_at(st, 1, simp(zval(p)))

    def read(self, eng, st, pos, n, dst, line):
        i = 0
        while i < n:
            w = 8 if i + 8 <= n else 4 if i + 4 <= n else 1
            bs = [self.byte(st, pos + i + j) for j in range(w)]
            eng.store(st, PV(dst.r, dst.off + i), ('i', 8 * w), eng.from_bytes(bs, w), line)
            i += w
        for f in self.on_read:
            f(eng, st, pos, n)


class VTable:
    def __init__(self, adj):
        self.adj = adj

    def load(self, eng, st, r, off, ty, line):
        if ty == ('i', 64) and off == -24:
            return eng.iv_const(64, VB - self.adj) if eng.dom != 'bv' else eng.iv_const(64, VB - self.adj)
        raise Unsupported('virtual call on a stream')

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('store into a vtable')


def canon(eng, st, p):
    """canonical pointer of the stream p (stream pointer or pointer to its virtual base)"""
    off = p.off
    if isinstance(off, int) and off >= VB // 2:
        off -= VB
    q = PV(p.r, off)
    al = eng.gget(st, q, 'alias')
    return al if al is not None else q


def make_stream(eng, st, p, src=None, fresh=True, **fields):
    """turn the memory at p into a stream object in an arbitrary state"""
    vt = eng.new_region(st, 'vtable', None, 'vtable', handler=VTable(0))
    eng.put(st, p.r, p.off, 8, vt)
    pre = z3.Int(eng.fresh_name('pos'))
    st.add(pre >= 0)
    st.add(pre < (1 << 62))
    vals = dict(pos=pre, eof=eng.fresh_bool('eof'), fail=eng.fresh_bool('fail'), bad=eng.fresh_bool('bad'),
                open=True, gcount=0)
    if not fresh:
        vals.update(pos=0, eof=False, fail=False, bad=False)
    vals.update(fields)
    for k, v in vals.items():
        eng.gset(st, p, k, v)
    if src is not None:
        st.ghost[(p.r, eng.coff(p.off), 'src')] = Box(src)
    if isinstance(vals['bad'], z3.ExprRef):
        st.add(z3.Implies(zb(vals['bad']), zb(vals['fail'])))
    return p


class Box:
    """immutable ghost value never changed by a loop"""
    def __init__(self, v):
        self.v = v


def stream(eng, st, p, what='stream'):
    q = canon(eng, st, p)
    if eng.gget(st, q, 'fail') is None:
        raise Unsupported('unknown stream')
    return q


def src_of(eng, st, q):
    b = eng.gget(st, q, 'src')
    if b is None:
        raise Unsupported('stream without a source')
    return b.v


def flag(eng, st, q, f):
    return eng.gget(st, q, f)


def setf(eng, st, q, **kw):
    for k, v in kw.items():
        eng.gset(st, q, k, v)


def m_clear(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    s = eng.as_u(st, a[1]) if len(a) > 1 else 0
    if not isinstance(s, int):
        raise Unsupported('clear of a symbolic state')
    setf(eng, st, q, eof=bool(s & 2), fail=bool(s & 5), bad=bool(s & 1))
    return (None,)


def m_setstate(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    s = eng.as_u(st, a[1])
    if not isinstance(s, int):
        raise Unsupported('setstate of a symbolic state')
    if s & 2:
        setf(eng, st, q, eof=True)
    if s & 5:
        setf(eng, st, q, fail=True)
    if s & 1:
        setf(eng, st, q, bad=True)
    return (None,)


def good(eng, st, q):
    return And(Not(flag(eng, st, q, 'eof')), Not(flag(eng, st, q, 'fail')))


def m_eof(eng, st, a, I, line, d):
    return (BoolV(flag(eng, st, stream(eng, st, a[0]), 'eof')),)


def m_bad(eng, st, a, I, line, d):
    return (BoolV(flag(eng, st, stream(eng, st, a[0]), 'bad')),)


def m_failq(eng, st, a, I, line, d):
    q = canon(eng, st, a[0])
    f = flag(eng, st, q, 'fail')
    if f is None:
        if eng.gget(st, q, 'sink') is not None or st.mem[q.r].kind == 'global':
            f = eng.fresh_bool('fail')
        else:
            raise Unsupported('state of an unknown stream')
    return (BoolV(f),)


def m_bool(eng, st, a, I, line, d):
    r = m_failq(eng, st, a, I, line, d)
    return (BoolV(Not(r[0].b)),)


def m_good(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    return (BoolV(good(eng, st, q)),)


def m_is_open(eng, st, a, I, line, d):
    q = canon(eng, st, a[0])
    o = eng.gget(st, q, 'open')
    if o is None:
        raise Unsupported('is_open of an unknown stream')
    return (BoolV(o),)


def m_gcount(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    g = eng.gget(st, q, 'gcount')
    if isinstance(g, int):
        return (eng.iv_const(64, g),)
    return (IV(64, g, 0, 1 << 62),)


def m_read(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    n = eng.as_s(st, a[2])
    if not isinstance(n, int):
        n = simp(n)
        if not isinstance(n, int):
            raise Unsupported('read of symbolic length')
    src = src_of(eng, st, q)
    dst = a[1]
    out = []
    for s, ok in eng.fork(st, good(eng, st, q)):
        if not ok:
            setf(eng, s, q, fail=True, gcount=0)
            out.append((s, a[0]))
            continue
        pos = eng.gget(s, q, 'pos')
        op = eng.gget(s, q, 'open')
        full = And(op, zval(pos) + n <= src.F)
        for s2, fu in eng.fork(s, full):
            if fu:
                src.read(eng, s2, pos, n, dst, line)
                setf(eng, s2, q, pos=simp(zval(pos) + n), gcount=n)
                out.append((s2, a[0]))
                continue
            none = Or(Not(op), zval(pos) >= src.F)
            for s3, no in eng.fork(s2, none):
                if no:
                    setf(eng, s3, q, eof=True, fail=True, gcount=0)
                else:
                    # a part of the destination is overwritten
                    if n in (4, 8):
                        eng.put(s3, dst.r, dst.off, n, eng.iv_fresh(s3, 8 * n))
                    for o in range(n if n not in (4, 8) else 0):
                        eng.put(s3, dst.r, dst.off + o, 1, eng.iv_fresh(s3, 8))
                    setf(eng, s3, q, eof=True, fail=True, gcount=simp(src.F - zval(pos)), pos=src.F)
                out.append((s3, a[0]))
    return out


def m_seekg(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    t = a[1]
    if isinstance(t, Agg):
        t = t.vals[0]
    if isinstance(t, PV):
        t = eng.load(st, t, ('i', 64), line)
    off = zval(eng.as_s(st, t))
    sb = eng.gget(st, q, 'src')
    if sb is not None and hasattr(sb.v, 'seek'):
        whence = eng.as_u(st, a[2]) if '_Ios_Seekdir' in d else 0
        setf(eng, st, q, eof=False)
        out = []
        for s, f in eng.fork(st, flag(eng, st, q, 'fail')):
            if not f:
                sb.v.seek(eng, s, q, simp(off), whence)
            out.append((s, a[0]))
        return out
    if '_Ios_Seekdir' in d:
        w = eng.as_u(st, a[2])
        if w == 1:
            off = off + zval(eng.gget(st, q, 'pos'))
        elif w == 2:
            off = off + src_of(eng, st, q).F
        elif w != 0:
            raise Unsupported('seek direction')
    setf(eng, st, q, eof=False)
    out = []
    for s, f in eng.fork(st, flag(eng, st, q, 'fail')):
        if f:
            setf(eng, s, q, fail=True)
            out.append((s, a[0]))
            continue
        for s2, ok in eng.fork(s, And(eng.gget(s, q, 'open'), simp(off >= 0))):
            if ok:
                setf(eng, s2, q, pos=simp(off))
            else:
                setf(eng, s2, q, fail=True)
            out.append((s2, a[0]))
    return out


def m_tellg(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    out = []
    for s, ok in eng.fork(st, good(eng, st, q)):
        if not ok:
            setf(eng, s, q, fail=True)
            out.append((s, Agg([eng.iv_const(64, -1), eng.iv_const(64, 0)])))
        else:
            out.append((s, Agg([IV(64, eng.gget(s, q, 'pos'), 0, 1 << 62), eng.iv_const(64, 0)])))
    return out


def m_ifs_default(eng, st, a, I, line, d):
    make_stream(eng, st, a[0], None, fresh=False, open=False)
    return (None,)


def open_src(eng, st, name, mode, line):
    f = getattr(eng.cur, 'open_source', None)
    r = f(eng, st, name) if f is not None else None
    if r is not None:
        return r
    src = FileSrc(eng.fresh_name('file'))
    for ax in src.axioms():
        st.add(ax)
    return src, eng.fresh_bool('opened')


def m_ifs_ctor(eng, st, a, I, line, d):
    nm = getstr(eng, st, a[1]) if 'string const&' in d else cstr(eng, st, a[1])
    make_stream(eng, st, a[0], None, fresh=False, open=False)
    return do_open(eng, st, a[0], nm, a[2], line, None)


def m_ifs_open(eng, st, a, I, line, d):
    nm = getstr(eng, st, a[1]) if 'string const&' in d else cstr(eng, st, a[1])
    q = stream(eng, st, a[0])
    return do_open(eng, st, q, nm, a[2], line, None)


def do_open(eng, st, q, nm, mode, line, ret):
    m = eng.as_u(st, mode)
    out = []
    for s, was in eng.fork(st, eng.gget(st, q, 'open')):
        if was:
            # opening an open file fails
            setf(eng, s, q, fail=True)
            out.append((s, ret))
            continue
        src, op = open_src(eng, s, nm, m, line)
        ate = isinstance(m, int) and m & 2
        for s2, o in eng.fork(s, op):
            if o:
                s2.ghost[(q.r, eng.coff(q.off), 'src')] = Box(src)
                setf(eng, s2, q, open=True, eof=False, fail=False, bad=False, pos=src.F if ate else 0)
                if isinstance(src, LineSource):
                    eng.gset(s2, q, 'lines', 0)
            else:
                setf(eng, s2, q, open=False, fail=True)
            out.append((s2, ret))
    return out


def m_close(eng, st, a, I, line, d):
    q = canon(eng, st, a[0])
    if eng.gget(st, q, 'open') is not None:
        setf(eng, st, q, open=False)
    sk = eng.gget(st, q, 'sink')
    if sk is not None and hasattr(sk.v, 'close'):
        sk.v.close(eng, st, q)
    return (None,)


# --------------------------------------------------------------------------
# output streams
class StrSink:
    """collects the pieces written to an ostringstream as a string value"""

    def piece(self, eng, st, q, sv):
        old = eng.gget(st, q, 'text')
        eng.gset(st, q, 'text', SV(list(old.parts) + list(sv.parts)))


FMT0 = (10, 0, 32, False, 6, 'g')     # base, width, fill, upper, precision, float format


def make_ostream(eng, st, p, sink, adj=0):
    vt = eng.new_region(st, 'vtable', None, 'vtable', handler=VTable(adj))
    eng.put(st, p.r, p.off, 8, vt)
    eng.gset(st, p, 'fail', False)
    eng.gset(st, p, 'eof', False)
    eng.gset(st, p, 'bad', False)
    st.ghost[(p.r, eng.coff(p.off), 'sink')] = Box(sink)
    st.ghost[(p.r, eng.coff(p.off), 'fmt')] = FMT0


def m_oss_ctor(eng, st, a, I, line, d):
    make_ostream(eng, st, a[0], StrSink())
    eng.gset(st, a[0], 'text', SV([]))
    return (None,)


def m_ss_ctor(eng, st, a, I, line, d):
    # stringstream: ostream part at +16
    make_ostream(eng, st, a[0], StrSink())
    eng.gset(st, a[0], 'text', SV([]))
    q = PV(a[0].r, a[0].off + 16)
    vt = eng.new_region(st, 'vtable', None, 'vtable', handler=VTable(16))
    eng.put(st, q.r, q.off, 8, vt)
    eng.gset(st, q, 'alias', a[0])
    return (None,)


def m_oss_str(eng, st, a, I, line, d):
    # sret, this
    q = canon(eng, st, a[1])
    t = eng.gget(st, q, 'text')
    if t is None:
        raise Unsupported('str() of an unknown stream')
    setstr(eng, st, a[0], t)
    return (None,)


def getfmt(eng, st, q):
    return st.ghost.get((q.r, eng.coff(q.off), 'fmt'), FMT0)


def setfmt(eng, st, q, **kw):
    f = list(getfmt(eng, st, q))
    names = ['base', 'width', 'fill', 'upper', 'prec', 'ff']
    for k, v in kw.items():
        f[names.index(k)] = v
    f = tuple(f)
    if f != getfmt(eng, st, q):
        eng.gset(st, q, 'fmt', f)


def emit(eng, st, q, sv):
    sk = eng.gget(st, q, 'sink')
    if sk is None:
        return
    sk.v.piece(eng, st, q, sv)


numfmt = {}


def num_sv(eng, st, q, t, signed):
    """text of an integer in the current format"""
    base, width, fill, upper, prec, ff = getfmt(eng, st, q)
    setfmt(eng, st, q, width=0)
    return num_text(eng, st, t, base, width, fill, upper)


def num_text(eng, st, t, base, width, fill, upper):
    if isinstance(t, int) and not isinstance(width, z3.ExprRef):
        s = ('%d' % t) if base == 10 else ('%X' % t if upper else '%x' % t) if base == 16 else '%o' % t
        if isinstance(width, int):
            s = s.rjust(width, chr(fill))
        return SV([s.encode('latin1')])
    if base == 10:
        upper = False
    if not isinstance(width, int) or width == 0:
        fill = 0
    if base == 16 and fill == 48 and isinstance(width, int) and 0 < width <= 32 and eng.valid(st, z3.And(t >= 0, t < 16 ** width)):
        return SV([Ch(hexdigit(st, mk_mod(mk_div(t, 16 ** (width - 1 - i)), 16), upper)) for i in range(width)])
    f = z3.Function('num_b%d_w%s_f%d%s' % (base, width, fill, '_U' if upper else ''), z3.IntSort(), S)
    r = f(zval(t))
    st.add(slen(r) >= 1)
    st.add(slen(r) < 256)
    return SV([(r, 0, slen(r))])


hexd = {False: z3.Function('hexdigit', I, I), True: z3.Function('hexdigit_U', I, I)}


def hexdigit(st, d, upper):
    """character of the hex digit with value d"""
    d = simp(d) if z3.is_int_value(d) else d
    r = hexd[bool(upper)](zval(d))
    st.add(r == z3.If(d < 10, 48 + d, (55 if upper else 87) + d))
    return r




def flt_text(st, v, fmt):
    base, width, fill, upper, prec, ff = fmt
    f = z3.Function('fltfmt_%s_%s_w%s_f%s' % (ff, prec, width, fill if width else 0), FSORT, S)
    r = f(v.t)
    st.add(slen(r) >= 1)
    st.add(slen(r) < 512)
    return SV([(r, 0, slen(r))])


def os_target(eng, st, p):
    if not isinstance(p, PV):
        raise Unsupported('stream')
    return canon(eng, st, p)


def tracked(eng, st, q):
    return eng.gget(st, q, 'sink') is not None


def pad(st, fmt, sv):
    width, fill = fmt[1], fmt[2]
    if width == 0:
        return sv
    l = sv.length()
    if isinstance(l, int) and isinstance(width, int):
        return SV([bytes([fill]) * max(0, width - l)] + list(sv.parts))
    raise Unsupported('padding of a text of unknown length')


def m_os_int(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if not tracked(eng, st, q):
        return (a[0],)
    m = re.search(r'operator<<\((.*)\)$', d)
    ty = m.group(1)
    v = a[1]
    if ty == 'bool':
        v = eng.cast(st, 'zext', v, 32) if isinstance(v, BoolV) else v
        t = eng.as_u(st, v)
    elif ty in ('double', 'float', 'long double'):
        fmt = getfmt(eng, st, q)
        emit(eng, st, q, flt_text(st, v, fmt))
        setfmt(eng, st, q, width=0)
        return (a[0],)
    elif ty.startswith('unsigned') or getfmt(eng, st, q)[0] != 10:
        t = eng.as_u(st, v)
    else:
        t = eng.as_s(st, v)
    emit(eng, st, q, num_sv(eng, st, q, t, not ty.startswith('unsigned')))
    return (a[0],)


def m_os_manip(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if not isinstance(a[1], FnV):
        raise Unsupported('manipulator')
    n = eng.dem(a[1].name)
    if not tracked(eng, st, q):
        return (a[0],)
    if n.startswith('std::hex('):
        setfmt(eng, st, q, base=16)
    elif n.startswith('std::dec('):
        setfmt(eng, st, q, base=10)
    elif n.startswith('std::uppercase('):
        setfmt(eng, st, q, upper=True)
    elif n.startswith('std::nouppercase('):
        setfmt(eng, st, q, upper=False)
    elif n.startswith('std::fixed('):
        setfmt(eng, st, q, ff='f')
    elif n.startswith('std::right('):
        pass
    elif 'std::endl' in n:
        emit(eng, st, q, SV([b'\n']))
    elif 'std::flush' in n:
        pass
    elif n.startswith('std::noshowbase('):
        pass
    else:
        raise Unsupported('manipulator ' + n)
    return (a[0],)


def m_os_setw(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        v = simp(eng.as_s(st, a[1]))
        if not isinstance(v, int):
            raise Unsupported('setw')
        setfmt(eng, st, q, width=v)
    return (a[0],)


def m_os_setfill(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        v = simp(eng.as_u(st, a[1]))
        if not isinstance(v, int):
            raise Unsupported('setfill')
        setfmt(eng, st, q, fill=v)
    return (a[0],)


def m_os_setprecision(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        v = simp(eng.as_s(st, a[1]))
        if not isinstance(v, int):
            raise Unsupported('setprecision')
        setfmt(eng, st, q, prec=v)
    return (a[0],)


def m_os_str(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        sv = getstr(eng, st, a[1])
        sv = pad(st, getfmt(eng, st, q), sv)
        setfmt(eng, st, q, width=0)
        emit(eng, st, q, sv)
    return (a[0],)


def m_os_cstr(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        sv = pad(st, getfmt(eng, st, q), cstr(eng, st, a[1]))
        setfmt(eng, st, q, width=0)
        emit(eng, st, q, sv)
    return (a[0],)


def m_os_char(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        sv = pad(st, getfmt(eng, st, q), char_sv(st, eng.as_u(st, a[1])))
        setfmt(eng, st, q, width=0)
        emit(eng, st, q, sv)
    return (a[0],)


def m_os_put(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        emit(eng, st, q, char_sv(st, eng.as_u(st, a[1])))
    return (a[0],)


def m_os_write(eng, st, a, I, line, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q):
        sk = eng.gget(st, q, 'sink').v
        if not hasattr(sk, 'write'):
            raise Unsupported('binary output to a text stream')
        n = simp(eng.as_s(st, a[2]))
        sk.write(eng, st, q, a[1], n, line)
    return (a[0],)


def m_setprec_val(eng, st, a, I, line, d):
    return (a[0],)


def m_std_max(eng, st, a, I, line, d):
    return None


def _throw(eng, st, a, I, line, d):
    eng.oblige_safe(st, 'no exception: ' + d[:60], False, line)
    return []


def m_guard_acquire(eng, st, a, I, line, d):
    # function-local statics: first call initialises; treat as initialising every time a proof starts
    st.user['guards'] = st.user.get('guards', 0) + 1
    return (IV(32, 1),)


def m_guard_release(eng, st, a, I, line, d):
    st.user['guards'] = st.user.get('guards', 1) - 1
    return None


STRING_MODELS = [
    (r'std::string::basic_string\(\)$', m_str_default),
    (r'std::string::basic_string\(std::allocator<char> const&\)$', m_str_default),
    (r'std::string::basic_string\(std::string const&\)$', m_str_copy),
    (r'std::string::basic_string\(std::string&&\)$', m_str_move),
    (r'std::string::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$', m_str_cstr),
    (r'std::string::basic_string\(std::string const&, unsigned long(, unsigned long)?\)$', m_str_substr_ctor),
    (r'std::string::basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)$', m_str_fill),
    (r'std::string::~basic_string\(\)$', m_void),
    (r'std::allocator<char>::~?allocator\(\)$', m_void),
    (r'std::__new_allocator<char>::~?__new_allocator\(\)$', m_void),
    (r'std::string::operator=\(std::string const&\)$', m_str_assign_copy),
    (r'std::string::operator=\(std::string&&\)$', m_str_assign_move),
    (r'std::string::operator=\(char const\*\)$', m_str_assign_c),
    (r'std::string::assign\(std::string const&\)$', m_str_assign_copy),
    (r'std::string::(size|length)\(\) const$', m_str_size),
    (r'std::string::empty\(\) const$', m_str_empty),
    (r'std::string::clear\(\)$', m_str_clear),
    (r'std::string::(data|c_str)\(\)( const)?$', m_str_data),
    (r'std::string::c?begin\(\)( const)?$', m_str_begin),
    (r'std::string::c?end\(\)( const)?$', m_str_end),
    (r'std::string::(operator\[\]|at)\(unsigned long\)( const)?$', m_str_index),
    (r'std::string::(front|back)\(\)( const)?$', m_str_front),
    (r'std::string::substr\(unsigned long, unsigned long\) const$', m_str_substr),
    (r'std::string::find\(char, unsigned long\) const$', m_str_find_char),
    (r'std::string::find\((std::string const&|char const\*), unsigned long\) const$', m_str_find_str),
    (r'std::string::(push_back|operator\+=)\(char\)$', m_str_append_char),
    (r'std::string::(append|operator\+=)\((std::string const&|char const\*)\)$', m_str_append),
    (r'.*std::operator\+<char, std::char_traits<char>, std::allocator<char> >\(', m_str_plus),
    (r'.*std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> >\((std::string const&, (std::string const&|char const\*)|char const\*, std::string const&)\)', m_str_eq),
    (r'std::string::compare\(', m_str_compare),
    (r'std::string::swap\(', m_str_swap),
    (r'std::string::reserve\(', m_void),
]

STREAM_MODELS = [
    (r'std::(ios|basic_ios)::clear\(', m_clear),
    (r'std::ios::setstate\(', m_setstate),
    (r'std::ios::eof\(\) const$', m_eof),
    (r'std::ios::bad\(\) const$', m_bad),
    (r'std::ios::(fail\(\) const|operator!\(\) const)$', m_failq),
    (r'std::ios::operator bool\(\) const$', m_bool),
    (r'std::ios::good\(\) const$', m_good),
    (r'std::(ifstream|ofstream|fstream)::is_open\(\)( const)?$', m_is_open),
    (r'std::istream::gcount\(\) const$', m_gcount),
    (r'std::istream::read\(char\*, long\)$', m_read),
    (r'std::istream::seekg\(', m_seekg),
    (r'std::istream::tellg\(\)$', m_tellg),
    (r'std::ifstream::basic_ifstream\(\)$', m_ifs_default),
    (r'std::ifstream::basic_ifstream(<.*>)?\((std::string const&|char const\*), std::_Ios_Openmode\)$', m_ifs_ctor),
    (r'std::ifstream::open(<.*>)?\((std::string const&|char const\*), std::_Ios_Openmode\)$', m_ifs_open),
    (r'std::(ifstream|ofstream|fstream)::close\(\)$', m_close),
    (r'std::(ifstream|ofstream|fstream|ostringstream|istringstream|stringstream)::~basic_\w+\(\)$', m_void),
    (r'std::ostringstream::basic_ostringstream\(\)$', m_oss_ctor),
    (r'std::ostringstream::basic_ostringstream\(std::_Ios_Openmode\)$', m_oss_ctor),
    (r'std::stringstream::basic_stringstream\((std::_Ios_Openmode)?\)$', m_ss_ctor),
    (r'std::(ostringstream|stringstream)::str\(\) const$', m_oss_str),
    (r'std::ostream::operator<<\((bool|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|double|float)\)$', m_os_int),
    (r'std::ostream::operator<<\(std::(ios_base|ostream|ios)& \(\*\)\(std::(ios_base|ostream|ios)&\)\)$', m_os_manip),
    (r'std::ostream& std::operator<< <char, std::char_traits<char> >\(std::ostream&, std::_Setw\)$', m_os_setw),
    (r'std::ostream& std::operator<< <char, std::char_traits<char> >\(std::ostream&, std::_Setfill<char>\)$', m_os_setfill),
    (r'std::ostream& std::operator<< <char, std::char_traits<char> >\(std::ostream&, std::_Setprecision\)$', m_os_setprecision),
    (r'std::ostream& std::operator<< <char, std::char_traits<char>, std::allocator<char> >\(std::ostream&, std::string const&\)$', m_os_str),
    (r'std::ostream& std::operator<< <std::char_traits<char> >\(std::ostream&, char const\*\)$', m_os_cstr),
    (r'std::ostream& std::operator<< <std::char_traits<char> >\(std::ostream&, (char|unsigned char|signed char)\)$', m_os_char),
    (r'std::ostream::put\(char\)$', m_os_put),
    (r'std::ostream::write\(char const\*, long\)$', m_os_write),
    (r'std::ostream::flush\(\)$', m_noop),
    (r'std::ostream& std::(endl|flush)<', lambda eng, st, a, I, line, d: m_os_endl(eng, st, a, d)),
]


def m_os_endl(eng, st, a, d):
    q = os_target(eng, st, a[0])
    if tracked(eng, st, q) and 'endl' in d:
        emit(eng, st, q, SV([b'\n']))
    return (a[0],)


MISC_MODELS = [
    (r'std::__throw_\w+\(', _throw),
    (r'__cxa_guard_acquire$', m_guard_acquire),
    (r'__cxa_guard_release$', m_guard_release),
    (r'__cxa_atexit$', lambda eng, st, a, I, line, d: (IV(32, 0),)),
    (r'operator delete(\[\])?\(void\*', m_void),
]


def m_file_size(eng, st, a, I, line, d):
    # boost::filesystem::path is a wrapper of std::string; a missing file is reported by an exception
    f = getattr(eng.cur, 'file_size', None)
    t = f(eng, st, getstr(eng, st, a[0])) if f is not None else None
    if t is None:
        v = eng.iv_fresh(st, 64, 'file_size')
        st.add(v.t < (1 << 62))
        return (v,)
    return (IV(64, t, 0, 1 << 62),)


def m_memcmp(eng, st, a, I, line, d):
    n = simp(eng.as_u(st, a[2]))
    if not isinstance(n, int) or n > 64:
        raise Unsupported('memcmp of a symbolic length')
    same, i = [], 0
    while i < n:
        w = 8 if i + 8 <= n else 4 if i + 4 <= n else 2 if i + 2 <= n else 1
        x, y = (zval(eng.as_u(st, eng.load(st, PV(p.r, p.off + i), ('i', 8 * w), line))) for p in a[:2])
        same.append(x == y)
        i += w
    r = z3.Int(eng.fresh_name('memcmp'))
    st.add(z3.And(r >= -(1 << 31), r < 1 << 31, (r == 0) == z3.And(*same)))
    return (IV(32, r, -(1 << 31), (1 << 31) - 1),)


def m_llround(eng, st, a, I, line, d):
    import math
    x = a[0]
    f = z3.Function('llround', FSORT, z3.IntSort())
    t = f(x.t)
    lo, hi = -(1 << 63), (1 << 63) - 1
    if x.iv is not None:
        lo, hi = max(lo, math.floor(x.iv[0])), min(hi, math.ceil(x.iv[1]))
    st.add(z3.And(t >= lo, t <= hi))
    return (IV(64, t, lo, hi),)


MISC_MODELS += [
    (r'(std::)?memcmp(\(|$)', m_memcmp),
    (r'(std::)?l?lround(f|l)?(\(.*\))?$', m_llround),
    (r'boost::filesystem::detail::file_size\(', m_file_size),
]


def compile_models(l):
    return [(re.compile(p), f) for p, f in l]



NORM = [
    ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string'),
    ('std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >', 'std::ostringstream'),
    ('std::__cxx11::basic_istringstream<char, std::char_traits<char>, std::allocator<char> >', 'std::istringstream'),
    ('std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >', 'std::stringstream'),
    ('std::basic_istream<char, std::char_traits<char> >', 'std::istream'),
    ('std::basic_ostream<char, std::char_traits<char> >', 'std::ostream'),
    ('std::basic_iostream<char, std::char_traits<char> >', 'std::iostream'),
    ('std::basic_ifstream<char, std::char_traits<char> >', 'std::ifstream'),
    ('std::basic_ofstream<char, std::char_traits<char> >', 'std::ofstream'),
    ('std::basic_fstream<char, std::char_traits<char> >', 'std::fstream'),
    ('std::basic_ios<char, std::char_traits<char> >', 'std::ios'),
    ('std::__cxx11::', 'std::'),
    ('[abi:cxx11]', ''),
]


def normalise(d):
    for a, b in NORM:
        d = d.replace(a, b)
    return d


# --------------------------------------------------------------------------
# printf-like formatting
def fixed_text(st, v, prec):
    if v.r is None:
        f = z3.Function('printf_f%d' % prec, FSORT, S)
        r = f(v.t)
    else:
        from . import fp
        f = z3.Function('fixed_%d' % prec, z3.RealSort(), S)
        r = f(z3.simplify(v.r))
    st.add(slen(r) >= 1)
    st.add(slen(r) < 512)
    return SV([(r, 0, slen(r))])


def printf_text(eng, st, fmt, args):
    """the text printf produces for a constant format"""
    out = []
    args = list(args)
    i = 0
    for m in re.finditer(rb'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsfFeEgGp%])|([^%]+)', fmt):
        if m.start() != i:
            raise Unsupported('format %r' % fmt)
        i = m.end()
        if m.group(6):
            out.append(m.group(6))
            continue
        flags, width, prec, mod, conv = m.group(1), m.group(2), m.group(3), m.group(4), m.group(5).decode()
        if conv == '%':
            out.append(b'%')
            continue
        if not args:
            eng.oblige(st, 'every conversion of a format has an argument', False)
            raise Unsupported('format arguments')
        v = args.pop(0)
        if conv in 'diuxX':
            if not isinstance(v, IV):
                raise Unsupported('format argument')
            n = {b'hh': 8, b'h': 16, None: 32}.get(mod, 64)
            if v.w < n:
                eng.oblige(st, 'the argument has the type the format asks for', False)
            if v.w > n:
                v = eng.cast(st, 'trunc', v, n)
            t = eng.as_s(st, v) if conv in 'di' else eng.as_u(st, v)
            base = 16 if conv in 'xX' else 10
            w = int(width or 0)
            if flags not in (b'', b'0') or prec is not None:
                raise Unsupported('format flags')
            out += list(num_text(eng, st, t, base, w, 48 if flags == b'0' else 32, conv == 'X').parts)
        elif conv in 'fF':
            if width or flags or not isinstance(v, FV):
                raise Unsupported('format flags')
            out += list(fixed_text(st, v, int(prec) if prec is not None else 6).parts)
        elif conv == 's':
            if width or flags or prec is not None:
                raise Unsupported('format flags')
            out += list(cstr(eng, st, v).parts)
        elif conv == 'c':
            out.append(char_sv(st, eng.as_u(st, eng.cast(st, 'trunc', v, 8))).parts[0])
        else:
            raise Unsupported('conversion %' + conv)
    if i != len(fmt):
        raise Unsupported('format %r' % fmt)
    return SV(out)


# --------------------------------------------------------------------------
# output files: a sink judges every byte written at its position
class ByteSink:
    """an output file; the expected contents are a function of the position, checked when bytes are written.
    expect(eng, st, pos, n) gives a list of n byte terms (or None for 'nothing may be written there')"""

    def __init__(self, expect, what='the output'):
        self.expect, self.what = expect, what

    def write(self, eng, st, q, p, n, line):
        if not isinstance(n, int):
            raise Unsupported('write of a symbolic number of bytes')
        pos = eng.gget(st, q, 'opos')
        got = []
        i = 0
        while i < n:
            w = 8 if i + 8 <= n else 4 if i + 4 <= n else 1
            got += eng.bytes_of(st, eng.load(st, PV(p.r, p.off + i), ('i', 8 * w), line))
            i += w
        self.expect(eng, st, q, pos, got, line)
        eng.gset(st, q, 'opos', simp(zval(pos) + n))

    def piece(self, eng, st, q, sv):
        raise Unsupported('text output to a binary file')


def make_ofstream(eng, st, p, sink=None, open=False):
    make_ostream(eng, st, p, sink)
    if sink is None:
        st.ghost.pop((p.r, eng.coff(p.off), 'sink'), None)
    else:
        eng.gset(st, p, 'opos', 0)
    eng.gset(st, p, 'open', open)


def do_ofs_open(eng, st, q, nm, mode, line):
    f = getattr(eng.cur, 'open_sink', None)
    m = eng.as_u(st, mode)
    r = f(eng, st, nm, m) if f is not None else None
    if r is None:
        raise Unsupported('an output file is opened')
    sink, op = r
    out = []
    for s, o in eng.fork(st, op):
        if o:
            s.ghost[(q.r, eng.coff(q.off), 'sink')] = Box(sink)
            eng.gset(s, q, 'opos', 0)
            eng.gset(s, q, 'open', True)
        else:
            eng.gset(s, q, 'open', False)
            eng.gset(s, q, 'fail', True)
        out.append((s, None))
    return out


def m_ofs_default(eng, st, a, I, line, d):
    make_ofstream(eng, st, a[0])
    return (None,)


def m_ofs_ctor(eng, st, a, I, line, d):
    nm = getstr(eng, st, a[1]) if 'string const&' in d else cstr(eng, st, a[1])
    make_ofstream(eng, st, a[0])
    return do_ofs_open(eng, st, a[0], nm, a[2], line)


def m_ofs_open(eng, st, a, I, line, d):
    nm = getstr(eng, st, a[1]) if 'string const&' in d else cstr(eng, st, a[1])
    q = os_target(eng, st, a[0])
    return do_ofs_open(eng, st, q, nm, a[2], line)


STREAM_MODELS += [
    (r'std::ofstream::basic_ofstream\(\)$', m_ofs_default),
    (r'std::ofstream::basic_ofstream(<.*>)?\((std::string const&|char const\*), std::_Ios_Openmode\)$', m_ofs_ctor),
    (r'std::ofstream::open(<.*>)?\((std::string const&|char const\*), std::_Ios_Openmode\)$', m_ofs_open),
]


def make_argv(eng, st, texts):
    """argc and argv of main with the given arguments"""
    av = eng.new_region(st, 'argv', 8 * (len(texts) + 1), 'obj')
    for i, t in enumerate(texts):
        p = eng.new_region(st, 'arg%d' % i, None, 'obj')
        eng.gset(st, p, 'cstr', t)
        eng.put(st, av.r, 8 * i, 8, p)
    eng.put(st, av.r, 8 * len(texts), 8, NULL)
    return IV(32, len(texts)), av


def m_getline(eng, st, a, I, line, d):
    q = stream(eng, st, a[0])
    dl = 10
    if len(a) > 2:
        dl = simp(eng.as_u(st, a[2]))
    src = src_of(eng, st, q)
    if not hasattr(src, 'getline'):
        raise Unsupported('getline')
    return src.getline(eng, st, q, a[1], dl, a[0])


class LineSource:
    """standard input seen as the sequence of its lines; ghost 'lines' counts the lines consumed"""

    def __init__(self, name):
        self.N = z3.Int(name + '_lines')
        self.text = z3.Function(name + '_line', z3.IntSort(), S)
        self.unterminated = z3.Bool(name + '_unterminated')
        self.before = self.after = None

    def axioms(self):
        return [self.N >= 0, self.N < (1 << 60)]

    def line(self, st, i):
        t = self.text(zval(i))
        st.add(slen(t) >= 0)
        st.add(slen(t) < (1 << 60))
        return SV.base(t)

    def getline(self, eng, st, q, dst, delim, ret):
        if not (isinstance(delim, int) and delim == 10):
            raise Unsupported('getline with a delimiter')
        if self.before:
            self.before(eng, st)
        out = []
        k = eng.gget(st, q, 'lines')
        for s0, g in eng.fork(st, good(eng, st, q)):
            if not g:
                # nothing is extracted, the text keeps its value
                setf(eng, s0, q, fail=True)
                if self.after:
                    self.after(eng, s0, None)
                out.append((s0, ret))
                continue
            for s, ok in eng.fork(s0, zval(k) < self.N):
                if ok:
                    setstr(eng, s, dst, self.line(s, k))
                    eng.gset(s, q, 'lines', simp(zval(k) + 1))
                    # the last line may lack its newline
                    eng.gset(s, q, 'eof', And(zval(k) + 1 == self.N, self.unterminated))
                    if self.after:
                        self.after(eng, s, k)
                else:
                    setstr(eng, s, dst, SV([]))
                    setf(eng, s, q, fail=True, eof=True)
                    if self.after:
                        self.after(eng, s, None)
                out.append((s, ret))
        return out

    def seek(self, eng, st, q, off, whence):
        if not (isinstance(off, int) and off == 0 and whence == 0):
            raise Unsupported('seek in lines')
        eng.gset(st, q, 'lines', 0)


# --------------------------------------------------------------------------
# removing characters: std::remove and std::string::erase
swithout = z3.Function('without', S, I, S)      # the text with every occurrence of a character taken out


def without(st, sv, c):
    t = sv.term()
    w = swithout(t, zval(c))
    st.add(z3.And(slen(w) >= 0, slen(w) <= zval(sv.length())))
    st.add(sfindc(w, zval(c), 0) == -1)
    st.seqs[('without', w.get_id())] = (w, t, c)
    return SV.base(w)


def str_of_iter(eng, st, p):
    r = st.mem.get(p.r) if isinstance(p, PV) else None
    if r is None or not isinstance(r.handler, StrData):
        raise Unsupported('iterator not into a string')
    return r.handler.owner


def m_remove(eng, st, a, I, line, d):
    f, l = a[0], a[1]
    own = str_of_iter(eng, st, f)
    sv = getstr(eng, st, own)
    if l.r != f.r or not (isinstance(f.off, int) and f.off == 0) or not eng.valid(st, zval(l.off) == zval(sv.length())):
        raise Unsupported('remove in a part of a text')
    c = eng.as_u(st, eng.load(st, a[2], ('i', 8), line))
    w = without(st, sv, c)
    rest = SV.fresh(eng, st, 'rest')
    st.add(zval(rest.length()) == zval(sv.length()) - zval(w.length()))
    setstr(eng, st, own, SV(list(w.parts) + list(rest.parts)))
    return (PV(f.r, w.length()),)


def m_erase_range(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    f, l = a[1], a[2]
    if f.r != l.r or str_of_iter(eng, st, f) != a[0] and str_of_iter(eng, st, f).r != a[0].r:
        raise Unsupported('erase')
    L = zval(sv.length())
    eng.oblige_safe(st, 'erased range in the text', z3.And(zval(f.off) >= 0, zval(f.off) <= zval(l.off), zval(l.off) <= L), line)
    head = None
    n = 0
    for i, p in enumerate(sv.parts):
        n = n + plen(p)
        if eng.valid(st, zval(n) == zval(f.off), 2000):
            head = SV(sv.parts[:i + 1])
            break
    if head is None:
        head = sv.sub(eng, st, 0, f.off)
    tail = SV([]) if eng.valid(st, zval(l.off) == L, 2000) else sv.sub(eng, st, l.off, None)
    setstr(eng, st, a[0], SV(list(head.parts) + list(tail.parts)))
    return (PV(f.r, f.off),)


def m_rfind_char(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    if len(a) > 2 and eng.as_u(st, a[2]) != NPOS:
        raise Unsupported('rfind from a position')
    c = zval(eng.as_u(st, a[1]))
    f = z3.Function('findlastc', S, I, I)
    r = f(sv.term(), c)
    st.add(z3.And(r >= -1, r < zval(sv.length())))
    st.add((r == -1) == (sfindc(sv.term(), c, 0) == -1))
    st.add(r >= sfindc(sv.term(), c, 0))
    return (npos_iv(st, r),)


STREAM_MODELS += [
    (r'__gnu_cxx::__normal_iterator<char\*, std::string ?> std::remove<.*, char>\(', m_remove),
    (r'std::string::erase\(__gnu_cxx::__normal_iterator<char const\*, std::string ?>, __gnu_cxx::__normal_iterator<char const\*, std::string ?>\)$', m_erase_range),
    (r'std::string::(rfind|find_last_of)\(char, unsigned long\) const$', m_rfind_char),
    (r'std::istream& std::getline<.*>\(std::istream&, std::string&(, char)?\)$', m_getline),
]


BASE = compile_models(STRING_MODELS + STREAM_MODELS + MISC_MODELS)
