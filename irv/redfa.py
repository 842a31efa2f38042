"""Decides whether a regular expression (ECMAScript dialect, anchored, without back references) describes a given
language and takes texts apart in a given way: both are turned into automata over bytes and over markers for the
beginning and the end of each group, whose languages are compared; and the markers of a text are unique."""
from .ir import Unsupported
from .rx import Pattern


class Parse(Pattern):
    """pattern text -> tree"""

    def __init__(self, text):
        self.t, self.i, self.ngroups = text.decode('latin1'), 0, 0
        if not self.t.startswith('^') or not self.t.endswith('$') or self.t.endswith('\\$'):
            raise Unsupported('pattern that is not anchored')
        self.t = self.t[:-1]
        self.i = 1
        self.tree = self.alt()
        if self.i != len(self.t):
            raise Unsupported('pattern')

    def alt(self):
        a = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            a.append(self.cat())
        return a[0] if len(a) == 1 else ('alt', a)

    def cat(self):
        out = []
        while self.peek() not in ('', ')', '|'):
            c = self.peek()
            if c in '^$':
                raise Unsupported('anchor')
            if c == '(':
                self.i += 1
                n = None
                if self.t.startswith('?:', self.i):
                    self.i += 2
                elif self.peek() == '?':
                    raise Unsupported('assertion')
                else:
                    self.ngroups += 1
                    n = self.ngroups
                a = self.alt()
                if self.peek() != ')':
                    raise Unsupported('pattern')
                self.i += 1
                if n is not None:
                    a = ('grp', n, a)
            else:
                a = ('cls', self.atom())
            lo, hi = self.quant()
            out.append(a if (lo, hi) == (1, 1) else ('rep', a, lo, hi))
        return ('cat', out)


class Nfa:
    def __init__(self, tree):
        self.eps, self.tr = [], []
        self.s, self.f = self.new(), self.new()
        self.add(tree, self.s, self.f)

    def new(self):
        self.eps.append([])
        self.tr.append([])      # (symbol set or marker, target)
        if len(self.eps) > 20000:
            raise Unsupported('size of the pattern')
        return len(self.eps) - 1

    def add(self, t, a, b):
        k = t[0]
        if k == 'cls':
            self.tr[a].append((t[1], b))
        elif k == 'cat':
            for x in t[1]:
                m = self.new()
                self.add(x, a, m)
                a = m
            self.eps[a].append(b)
        elif k == 'alt':
            for x in t[1]:
                self.add(x, a, b)
        elif k == 'grp':
            m, n = self.new(), self.new()
            self.tr[a].append((('(', t[1]), m))
            self.add(t[2], m, n)
            self.tr[n].append(((')', t[1]), b))
        elif k == 'rep':
            _, x, lo, hi = t
            for _ in range(lo):
                m = self.new()
                self.add(x, a, m)
                a = m
            if hi is None:
                h = self.new()
                self.eps[a].append(h)
                m = self.new()
                self.add(x, h, m)
                self.eps[m].append(h)
                self.eps[h].append(b)
            else:
                for _ in range(hi - lo):
                    self.eps[a].append(b)
                    m = self.new()
                    self.add(x, a, m)
                    a = m
                self.eps[a].append(b)

    def closure(self, ss):
        seen, todo = set(ss), list(ss)
        while todo:
            for y in self.eps[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)


class Dfa:
    """subset automaton, built on demand"""

    def __init__(self, tree, classes):
        self.n = Nfa(tree)
        self.classes = classes
        self.start = self.n.closure([self.n.s])
        self.memo = {}

    def acc(self, q):
        return self.n.f in q

    def step(self, q):
        """{symbol: state}; a symbol is the representative byte of a class, or a marker"""
        if q in self.memo:
            return self.memo[q]
        out = {}
        for p in q:
            for sym, t in self.n.tr[p]:
                if isinstance(sym, tuple):
                    out.setdefault(sym, set()).add(t)
                else:
                    for c in self.classes:
                        if c in sym:
                            out.setdefault(c, set()).add(t)
        out = {s: self.n.closure(t) for s, t in out.items()}
        self.memo[q] = out
        return out


def sets(t, out):
    if t[0] == 'cls':
        out.add(t[1])
    elif t[0] in ('cat', 'alt'):
        for x in t[1]:
            sets(x, out)
    elif t[0] == 'grp':
        sets(t[2], out)
    else:
        sets(t[1], out)
    return out


def representatives(*trees):
    ss = set()
    for t in trees:
        sets(t, ss)
    by = {}
    for c in range(256):
        # prefer printable witnesses
        by.setdefault(tuple(c in s for s in sorted(ss, key=sorted)), []).append(c)
    return [next((c for c in v if 97 <= c < 123), next((c for c in v if 33 <= c < 127), v[0])) for v in by.values()]


def difference(a, b):
    """None if both trees describe the same marked language, else a shortest marked text that only one of them has"""
    cl = representatives(a, b)
    A, B = Dfa(a, cl), Dfa(b, cl)
    start = (A.start, B.start)
    seen, todo = {start: None}, [start]
    for p in todo:
        x, y = p
        if (bool(x) and A.acc(x)) != (bool(y) and B.acc(y)):
            out = []
            while seen[p] is not None:
                p, s = seen[p]
                out.append(s)
            return out[::-1]
        sx = A.step(x) if x else {}
        sy = B.step(y) if y else {}
        for s in sorted(set(sx) | set(sy), key=str):
            q = (sx.get(s), sy.get(s))
            if q not in seen:
                seen[q] = (p, s)
                todo.append(q)
    return None


def ambiguous(a):
    """is there a text with two markings?"""
    A = Dfa(a, representatives(a))

    def macro(q):
        """[(markers, byte or None at the end, state)]"""
        out, todo = [], [((), q)]
        while todo:
            m, p = todo.pop()
            if len(m) > 60:
                raise Unsupported('groups in a loop')
            if A.acc(p):
                out.append((m, None, None))
            for s, t in A.step(p).items():
                if isinstance(s, tuple):
                    todo.append((m + (s,), t))
                else:
                    out.append((m, s, t))
        return out
    start = (A.start, A.start, False)
    seen, todo = {start}, [start]
    while todo:
        x, y, d = todo.pop()
        for m1, c1, t1 in macro(x):
            for m2, c2, t2 in macro(y):
                if c1 != c2:
                    continue
                e = d or m1 != m2
                if c1 is None:
                    if e:
                        return True
                    continue
                q = (t1, t2, e)
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
    return False


# ---- building blocks for specifications
def cls(s):
    out = set()
    i = 0
    while i < len(s):
        if i + 2 < len(s) and s[i + 1] == '-':
            out |= set(range(ord(s[i]), ord(s[i + 2]) + 1))
            i += 3
        else:
            out.add(ord(s[i]))
            i += 1
    return ('cls', frozenset(out))


def cat(*a):
    return ('cat', list(a))


def alt(*a):
    return ('alt', list(a))


def many(a):
    return ('rep', a, 0, None)


def opt(a):
    return ('rep', a, 0, 1)


def grp(n, a):
    return ('grp', n, a)


def text(s):
    return cat(*[('cls', frozenset([ord(c)])) for c in s])
