"""Contract of std::regex for the patterns that can be decided by position: a sequence of literals and of
character classes, at most one of them repeated without bound. The meaning of a pattern is computed from the
text the program gives to the constructor."""
import re
import z3
from .engine import IV, PV, BoolV, And, Or, Not, zval, zb, simp
from .ir import Unsupported
from .lib import S, SV, getstr, setstr, cstr, Box, m_void, slen

STACK = 4096        # the matcher recurses once per repetition


class Pattern:
    """segments: (sets, lo, hi) - the sequence of sets repeated lo..hi times; groups: segment ranges"""

    def __init__(self, text):
        self.t, self.i = text.decode('latin1'), 0
        self.segs, self.groups = [], []
        self.seq(0)
        if self.i != len(self.t):
            raise Unsupported('pattern %r' % text)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def seq(self, depth):
        while self.peek() not in ('', ')', '|'):
            c = self.peek()
            if c in '^$':
                raise Unsupported('anchor')
            if c == '(':
                self.group(depth)
                continue
            st = self.atom()
            lo, hi = self.quant()
            self.segs.append(([st], lo, hi))
        if self.peek() == '|':
            raise Unsupported('alternatives')

    def group(self, depth):
        self.i += 1
        cap = True
        if self.t.startswith('?:', self.i):
            cap = False
            self.i += 2
        n = None
        if cap:
            n = len(self.groups)
            self.groups.append(None)
        first = len(self.segs)
        self.seq(depth + 1)
        if self.peek() != ')':
            raise Unsupported('pattern')
        self.i += 1
        lo, hi = self.quant()
        if (lo, hi) != (1, 1):
            if cap or any((l, h) != (1, 1) and l != h for _, l, h in self.segs[first:]):
                raise Unsupported('repeated group')
            sets = []
            for s, l, h in self.segs[first:]:
                sets += s * l
            if any(g is not None and g[0] >= first for g in self.groups):
                raise Unsupported('repeated capture')
            self.segs[first:] = [(sets, lo, hi)]
        if cap:
            self.groups[n] = (first, len(self.segs))

    def quant(self):
        c = self.peek()
        lo = hi = 1
        if c and c in '*+?':
            self.i += 1
            lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
        elif c == '{':
            m = re.compile(r'\{(\d+)(,(\d*))?\}').match(self.t, self.i)
            if not m:
                raise Unsupported('quantifier')
            self.i = m.end()
            lo = int(m.group(1))
            hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
        else:
            return 1, 1
        if self.peek() == '?':      # which of several ways is taken does not matter when there is only one
            self.i += 1
        return lo, hi

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '\\':
            return self.escape()
        if c == '.':
            return frozenset(range(256)) - {10, 13}
        if c == '[':
            return self.cls()
        if c in '*+?{':
            raise Unsupported('pattern')
        return frozenset([ord(c)])

    def escape(self):
        c = self.peek()
        self.i += 1
        d = frozenset(range(48, 58))
        w = d | frozenset(range(65, 91)) | frozenset(range(97, 123)) | {95}
        if c == 'd':
            return d
        if c == 'w':
            return w
        if c.isalnum():
            raise Unsupported('escape')
        return frozenset([ord(c)])

    def cls(self):
        neg = self.peek() == '^'
        if neg:
            self.i += 1
        out = set()
        while self.peek() != ']':
            if self.peek() == '' or self.t.startswith('[:', self.i):
                raise Unsupported('class')
            a = self.one()
            if len(a) == 1 and self.peek() == '-' and self.t[self.i + 1:self.i + 2] not in ('', ']'):
                self.i += 1
                b = self.one()
                if len(b) != 1:
                    raise Unsupported('class')
                out |= set(range(min(a), min(b) + 1))
            else:
                out |= a
        self.i += 1
        return frozenset(range(256)) - out if neg else frozenset(out)

    def one(self):
        c = self.peek()
        self.i += 1
        return self.escape() if c == '\\' else frozenset([ord(c)])


def pred(cs, t):
    name = 'all_' + ''.join('%02x' % c for c in sorted(cs)) if len(cs) <= 80 else 'all_m%064x' % sum(1 << c for c in cs)
    return z3.Function(name, S, z3.BoolSort())(t)


def all_in(st, sv, cs):
    """predicate: every character of the text is in the set"""
    sv.facts(st)
    t = sv.term()
    texts, sets = st.seqs.get(('allin',), ((), ()))
    new_t = not any(x.eq(t) for x, _ in texts)
    new_s = cs not in sets
    if new_t:
        texts = texts + ((t, zval(sv.length())),)
    if new_s:
        sets = sets + (cs,)
    st.seqs[('allin',)] = (texts, sets)
    for x, L in texts:
        for a in sets:
            if not (new_t and x.eq(t) or new_s and a == cs):
                continue
            p = pred(a, x)
            st.add(z3.Implies(L == 0, p))
            for b in sets:
                if b == a:
                    continue
                q = pred(b, x)
                if a <= b:
                    st.add(z3.Implies(p, q))
                if b <= a:
                    st.add(z3.Implies(q, p))
                if not (a & b):
                    st.add(z3.Implies(z3.And(p, q), L == 0))
                elif a & b in sets and a & b not in (a, b):
                    st.add(z3.Implies(z3.And(p, q), pred(a & b, x)))
    return pred(cs, t)


HEX = frozenset(b'0123456789abcdefABCDEF')


def meaning(eng, st, pat, sv):
    """(condition under which the whole text matches, [text of the groups])"""
    L = zval(sv.length())
    fixed = 0
    var = None
    for k, (sets, lo, hi) in enumerate(pat.segs):
        if lo == hi:
            fixed += len(sets) * lo
        elif var is None:
            var = k
        else:
            raise Unsupported('pattern with two variable parts')
    conds = []
    if var is None:
        conds.append(L == fixed)
        rest = None
    else:
        sets, lo, hi = pat.segs[var]
        u = len(sets)
        rest = simp(L - fixed)
        conds.append(zval(rest) >= lo * u)
        if hi is not None:
            conds.append(zval(rest) <= hi * u)
        if u > 1:
            conds.append(zval(rest) % u == 0)
    pos = 0
    spans = []
    for k, (sets, lo, hi) in enumerate(pat.segs):
        n = rest if k == var else len(sets) * lo
        spans.append((pos, n))
        if k == var or (len(sets) == 1 and lo > 4):
            if len(set(sets)) != 1:
                raise Unsupported('pattern with alternating classes')
            sub = sv.sub(eng, st, pos, n)
            conds.append(all_in(st, sub, sets[0]))
        else:
            for j in range(n):
                c = sv.at(eng, st, simp(zval(pos) + j))
                cs = sets[j % len(sets)]
                conds.append(Or(*[zval(c) == x for x in sorted(cs)]) if len(cs) < 128 else Not(Or(*[zval(c) == x for x in range(256) if x not in cs])))
        pos = simp(zval(pos) + zval(n))
    groups = [sv]
    for g in pat.groups:
        if g is None:
            raise Unsupported('group')
        if g[0] == g[1]:
            groups.append(SV([]))
            continue
        o = spans[g[0]][0]
        n = simp(sum(zval(spans[k][1]) for k in range(*g)))
        groups.append(sv.sub(eng, st, o, n))
    return And(*[zb(c) if isinstance(c, bool) else c for c in conds]), groups


def m_ctor(eng, st, a, I, line, d):
    t = cstr(eng, st, a[1]) if 'char const*' in d else getstr(eng, st, a[1])
    t = t.is_lit()
    fl = eng.as_u(st, a[2]) if len(a) > 2 else 16
    st.ghost[(a[0].r, eng.coff(a[0].off), 'regex')] = Box((t, fl))
    return (None,)


def pattern_of(eng, st, p):
    b = eng.gget(st, p, 'regex')
    if b is None or b.v[0] is None:
        raise Unsupported('unknown pattern')
    if b.v[1] != 16:
        raise Unsupported('pattern options')
    return b.v[0]


def bounded(eng, st, sv, text, line):
    if re.search(rb'(?<!\\)[*+]|,\}', text):
        eng.oblige(st, 'the text given to the matcher is short enough for its recursion', zval(sv.length()) <= STACK, line)


def m_match(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    has = 'std::match_results<' in d.split('(', 1)[1]
    rx = a[2] if has else a[1]
    text = pattern_of(eng, st, rx)
    bounded(eng, st, sv, text, line)
    c, groups = meaning(eng, st, Pattern(text), sv)
    if has:
        st.ghost[(a[1].r, eng.coff(a[1].off), 'groups')] = Box((c, groups))
    return (BoolV(c),)


def m_search(eng, st, a, I, line, d):
    sv = getstr(eng, st, a[0])
    if 'std::match_results<' in d.split('(', 1)[1]:
        raise Unsupported('regex_search with groups')
    bounded(eng, st, sv, pattern_of(eng, st, a[1]), line)
    return (BoolV(eng.fresh_bool('found')),)


def m_index(eng, st, a, I, line, d):
    b = eng.gget(st, a[0], 'groups')
    i = eng.as_u(st, a[1])
    if b is None or not isinstance(i, int):
        raise Unsupported('groups')
    c, g = b.v
    p = eng.new_region(st, 'sub_match', 24, 'obj', lazy=True)
    st.ghost[(p.r, 0, 'sub')] = Box((c, g[i] if i < len(g) else SV([])))
    return (p,)


def sub_text(eng, st, p):
    b = eng.gget(st, p, 'sub')
    if b is None:
        raise Unsupported('sub_match')
    c, sv = b.v
    if not eng.valid(st, zb(c)):
        raise Unsupported('group of a match that may have failed')
    return sv


def m_substr(eng, st, a, I, line, d):
    setstr(eng, st, a[0], sub_text(eng, st, a[1]))
    return (None,)


def m_strn(eng, st, a, I, line, d):
    r = m_index(eng, st, [a[1], a[2] if len(a) > 2 else IV(64, 0)], I, line, d)
    setstr(eng, st, a[0], sub_text(eng, st, r[0]))
    return (None,)


RX = r'std::basic_regex<char, std::regex_traits<char> ?>'
MODELS = [
    (RX + r'::basic_regex\(char const\*, std::regex_constants::syntax_option_type\)$', m_ctor),
    (RX + r'::~basic_regex\(\)$', m_void),
    (r'bool std::regex_match<.*>\(std::string const&, ', m_match),
    (r'bool std::regex_search<.*>\(std::string const&, ', m_search),
    (r'std::match_results<.*>::(~match_results|match_results)\(\)$', m_void),
    (r'std::match_results<.*>::operator\[\]\(unsigned long\) const$', m_index),
    (r'std::match_results<.*>::str\(unsigned long\) const$', m_strn),
    (r'std::sub_match<.*>::operator std::string\(\) const$', m_substr),
    (r'std::sub_match<.*>::str\(\) const$', m_substr),
]
