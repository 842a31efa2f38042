"""Parser for the subset of textual LLVM 18 IR that clang -O0 emits.

Function bodies are parsed on demand.  Every construct that is not understood
raises Unsupported, which the driver turns into 'undecided' (never into a
verdict)."""
import re


class Unsupported(Exception):
    pass


_tok = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<num>-?[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 |(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 |(?P<dots>\.\.\.)
 |(?P<meta>![a-zA-Z0-9_.]*)
 |(?P<attr>\#[0-9]+)
 |(?P<p>[=,(){}\[\]<>*:|])
)''', re.X)


def tokenize(s):
    if 'comdat($' in s:
        s = re.sub(r'comdat\(\$(?:"[^"]*"|[-a-zA-Z$._0-9]+)\)', 'comdat', s)
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('token: ' + s[i:i + 60])
        out.append(m.group().strip())
        i = m.end()
    return out


ATTRS = set('''noundef nonnull signext zeroext noalias nocapture readonly writeonly returned immarg inreg
 nofree nosync nounwind willreturn mustprogress noinline local_unnamed_addr unnamed_addr dso_local
 dso_preemptable internal linkonce_odr linkonce weak weak_odr external private available_externally common
 hidden protected default fastcc ccc coldcc tail musttail notail inbounds nsw nuw exact fast nnan ninf nsz arcp
 contract afn reassoc disjoint nneg swiftself captures writable dead_on_unwind allocptr allocalign readnone
 nobuiltin inrange noreturn cold hot comdat extern_weak thread_local dllimport dllexport'''.split())


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %r got %r in %s' % (x, y, ' '.join(map(str, self.t[:60]))))

    def skip_attrs(self):
        info = {}
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
            elif x in ('align', 'addrspace'):
                self.i += 1
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass', 'memory', 'preallocated',
                       'initializes', 'thread_local'):
                self.i += 1
                self.skip_parens()
            elif x in ('sret', 'byval', 'inalloca', 'elementtype', 'byref'):
                self.i += 1
                if self.accept('('):
                    info[x] = self.type()
                    self.expect(')')
            elif x and x.startswith('#'):
                self.i += 1
            else:
                return info

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
            elif x is None:
                raise Unsupported('paren')

    def type(self):
        x = self.next()
        if x is None:
            raise Unsupported('type eof')
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            t = ('ptr',)
        elif re.fullmatch(r'i[0-9]+', x):
            t = ('i', int(x[1:]))
        elif x in ('void', 'float', 'double', 'x86_fp80', 'half', 'fp128', 'label', 'metadata', 'token', 'opaque'):
            t = (x,)
        elif x[0] == '%':
            t = ('named', x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            t = ('struct', self._tlist('}'), False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                e = self._tlist('}')
                self.expect('>')
                t = ('struct', e, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise Unsupported('type ' + x)
        while self.peek() == '(' and t[0] != 'label':
            # function type
            save = self.i
            self.next()
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('fn', t, tuple(args), va)
        return t

    def _tlist(self, end):
        r = []
        if self.accept(end):
            return tuple(r)
        while True:
            r.append(self.type())
            if self.accept(end):
                return tuple(r)
            self.expect(',')

    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('loc', x)
        if x[0] == '@':
            return ('glob', x)
        if x in ('true', 'false'):
            return ('int', 1 if x == 'true' else 0)
        if x in ('null',):
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'none':
            return ('none',)
        if re.fullmatch(r'-?[0-9]+', x):
            if ty[0] in ('i',):
                return ('int', int(x))
            return ('float', x)
        if re.match(r'-?(0x|[0-9])', x):
            return ('float', x)
        if x[0] == 'c' and len(x) > 1 and x[1] == '"':
            return ('cstr', cstring(x[2:-1]))
        if x == '{':
            return ('aggr', self._vlist('}'))
        if x == '[':
            return ('aggr', self._vlist(']'))
        if x == '<':
            if self.accept('{'):
                r = self._vlist('}')
                self.expect('>')
                return ('aggr', r)
            return ('aggr', self._vlist('>'))
        if x in ('getelementptr',):
            self.skip_attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = self._vlist(')')
            return ('cgep', bt, ops)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t1 = self.type()
            v = self.value(t1)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t1, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.skip_attrs()
            self.expect('(')
            ops = self._vlist(')')
            return ('cbin', x, ops)
        if x in ('blockaddress', 'dso_local_equivalent', 'no_cfi', 'icmp', 'select'):
            self.skip_parens()
            return ('opaque',)
        raise Unsupported('value ' + x)

    def _vlist(self, end):
        r = []
        if self.accept(end):
            return r
        while True:
            self.accept('inrange')
            t = self.type()
            self.skip_attrs()
            v = self.value(t)
            r.append((t, v))
            if self.accept(end):
                return r
            self.expect(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def cstring(s):
    out = bytearray()
    i = 0
    b = s.encode('utf-8', 'surrogateescape')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
                continue
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, res=None, ty=None, dbg=None, text='', **a):
        self.op, self.res, self.ty, self.dbg, self.text, self.a = op, res, ty, dbg, text, a

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, mod, name, head, lines, decl):
        self.mod, self.name, self.head, self.lines, self.decl = mod, name, head, lines, decl
        self._parsed = False

    def parse_head(self):
        if hasattr(self, 'params'):
            return
        h = self.head
        m = re.match(r'(define|declare)\s+', h)
        h = h[m.end():]
        # tokens up to end
        h2 = re.sub(r'\s+personality .*$', '', h)
        h2 = re.sub(r'\{\s*$', '', h2)
        h2 = re.sub(r'\s!dbg !\d+', '', h2)
        p = P(tokenize(h2), self.mod)
        p.skip_attrs()
        self.ret = p.type()
        p.skip_attrs()
        nm = p.next()
        assert nm[0] == '@', nm
        p.expect('(')
        self.params = []
        self.vararg = False
        k = 0
        while not p.accept(')'):
            if p.accept('...'):
                self.vararg = True
                p.accept(',')
                continue
            t = p.type()
            info = p.skip_attrs()
            nmv = None
            if p.peek() and p.peek()[0] == '%':
                nmv = p.next()
            else:
                nmv = '%' + str(k)
            k += 1
            self.params.append((t, nmv, info))
            p.accept(',')

    def parse(self):
        if self._parsed:
            return self
        self.parse_head()
        self._parsed = True
        self.blocks = {}
        self.order = []
        cur = None
        first = True
        buf = []
        lines = self.lines
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = '%' + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
                continue
            if first:
                # implicit entry label
                k = len(self.params)
                cur = '%' + str(k)
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
            # multi-line: switch, invoke, landingpad
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            elif re.search(r'\binvoke\b', s) and i < n and lines[i].strip().startswith('to label'):
                s += ' ' + lines[i].strip()
                i += 1
            elif 'landingpad' in s:
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            self.blocks[cur].append(s)
        self.entry = self.order[0]
        self._pb = {}
        return self

    def block(self, name):
        b = self._pb.get(name)
        if b is None:
            b = [parse_instr(s, self.mod) for s in self.blocks[name]]
            self._pb[name] = b
        return b

    # ---- CFG ----
    def succs(self, name):
        t = self.block(name)[-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.a['targets']))
        if t.op == 'switch':
            return list(dict.fromkeys([t.a['default']] + [x for _, x in t.a['cases']]))
        if t.op == 'invoke':
            return [t.a['normal']]
        return []

    def cfg(self):
        if hasattr(self, '_cfg'):
            return self._cfg
        self.parse()
        succ = {}
        order = []
        seen = set()
        stack = [(self.entry, None)]
        # iterative post order
        post = []

        def dfs(root):
            st = [(root, iter(self.succs(root)))]
            seen.add(root)
            succ[root] = self.succs(root)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        succ[s] = self.succs(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    post.append(b)
                    st.pop()
        dfs(self.entry)
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        # dominators (simple iterative)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
                elif idx[s] <= idx[b]:
                    raise Unsupported('irreducible loop')
        self._cfg = (succ, pred, loops, rpo)
        return self._cfg


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

_meta_tail = re.compile(r'(,\s*!(?!dbg)[a-zA-Z_.]+\s+![0-9]+)+\s*$')


def parse_instr(s, mod):
    text = s
    dbg = None
    m = re.search(r',?\s*!dbg !([0-9]+)', s)
    if m:
        dbg = int(m.group(1))
        s = s[:m.start()] + s[m.end():]
    if ', !' in s and '"' not in s:
        s = re.sub(r',\s*!(?:[a-zA-Z_.]+)\s+!\{?[0-9]*\}?', '', s)
    if ' ; ' in s and '"' not in s:
        s = s.split(' ; ')[0]
    if 'metadata' in s and 'llvm.dbg' in s:
        return Instr('nop', text=text)
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = lambda **kw: Instr(op, res, dbg=dbg, text=text, **kw)
    if op == 'alloca':
        p.skip_attrs()
        t = p.type()
        n = ('int', 1)
        nt = ('i', 32)
        while p.accept(','):
            if p.peek() in ('align', 'addrspace'):
                p.skip_attrs()
            else:
                nt, n = p.tv()
        return I(ty=t, n=n, nt=nt)
    if op == 'load':
        vol = False
        while p.peek() in ('volatile', 'atomic'):
            vol = p.next()
        t = p.type()
        p.expect(',')
        pt, pv = p.tv()
        return I(ty=t, ptr=pv, vol=vol)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t, v = p.tv()
        p.expect(',')
        pt, pv = p.tv()
        return I(ty=t, val=v, ptr=pv)
    if op == 'getelementptr':
        p.skip_attrs()
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            ops.append(p.tv())
            if not p.accept(','):
                break
        return I(ty=('ptr',), base=bt, ops=ops)
    if op in BIN:
        fl = set()
        while p.peek() in ATTRS:
            fl.add(p.next())
        t, a = p.tv()
        p.expect(',')
        b = p.value(t)
        return I(ty=t, x=a, y=b, flags=fl)
    if op == 'fneg':
        p.skip_attrs()
        t, a = p.tv()
        return I(ty=t, x=a)
    if op in CAST:
        p.skip_attrs()
        t, a = p.tv()
        p.expect('to')
        t2 = p.type()
        return I(ty=t2, src=t, x=a)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ATTRS:
            p.next()
        pred = p.next()
        t, a = p.tv()
        p.expect(',')
        b = p.value(t)
        return I(ty=('i', 1), pred=pred, src=t, x=a, y=b)
    if op == 'br':
        if p.accept('label'):
            return I(cond=None, targets=[p.next()])
        t, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return I(cond=c, targets=[a, b])
    if op == 'switch':
        t, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct, cv = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return I(ty=t, val=v, default=d, cases=cases)
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return I(ty=t, val=None)
        return I(ty=t, val=p.value(t))
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return I(ty=t, inc=inc)
    if op == 'select':
        p.skip_attrs()
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t, b = p.tv()
        return I(ty=t, cond=c, x=a, y=b, ct=ct)
    if op in ('call', 'invoke'):
        p.skip_attrs()
        t = p.type()
        info0 = p.skip_attrs()
        if t[0] == 'fn':
            rt = t[1]
        else:
            rt = t
        if p.peek() == 'asm':
            raise Unsupported('inline asm')
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            ai = p.skip_attrs()
            if at == ('metadata',):
                # skip metadata operand
                d = 0
                while True:
                    x = p.peek()
                    if d == 0 and x in (',', ')'):
                        break
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                    p.next()
                p.accept(',')
                continue
            av = p.value(at)
            args.append((at, av, ai))
            p.accept(',')
        p.skip_attrs()
        kw = dict(ty=rt, callee=callee, args=args)
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            kw['normal'] = p.next()
            p.expect('unwind')
            p.expect('label')
            kw['unwind'] = p.next()
        return I(**kw)
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return I(src=t, x=v, idx=idx)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        et, ev = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return I(ty=t, x=v, et=et, ev=ev, idx=idx)
    if op == 'freeze':
        t, v = p.tv()
        return I(ty=t, x=v)
    if op == 'va_arg':
        return I()
    if op in ('landingpad', 'resume', 'unreachable', 'cmpxchg', 'atomicrmw', 'fence', 'extractelement',
              'insertelement', 'shufflevector'):
        return I()
    raise Unsupported('instruction ' + s[:80])


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.aliases = {}
        self.functions = {}
        self.dbgline = {}
        self.ctors = None
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, r = ln.split(' = type ', 1)
                self.types[nm] = r
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = ', ln)
                if m:
                    rest = ln[m.end():]
                    if re.search(r'\balias\b', rest.split('"')[0]):
                        mm = re.search(r'ptr (@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))', rest)
                        if mm:
                            self.aliases[m.group(1)] = mm.group(1)
                    else:
                        self.globals[m.group(1)] = rest
            elif ln.startswith('define '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.functions[m.group(1)] = Function(self, m.group(1), ln, lines[i + 1:j], False)
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
                self.functions.setdefault(m.group(1), Function(self, m.group(1), ln, None, True))
            elif ln.startswith('!') and 'DILocation(line:' in ln:
                m = re.match(r'!(\d+) = .*DILocation\(line: (\d+)', ln)
                if m:
                    self.dbgline[int(m.group(1))] = int(m.group(2))
            i += 1
        self._ty = {}
        self._sz = {}
        self._gl = {}

    def named(self, nm):
        t = self._ty.get(nm)
        if t is None:
            r = self.types[nm]
            if r.strip() == 'opaque':
                t = ('opaque',)
            else:
                t = P(tokenize(r), self).type()
            self._ty[nm] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def sizeof(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._size(t)
        return r

    def _size(self, t):
        """(size, align)"""
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            return (b, min(b, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'arr':
            s, a = self.sizeof(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.sizeof(t[2])
            return (s * t[1], s * t[1])
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.sizeof(e)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            if not t[2]:
                off = (off + al - 1) // al * al
            return (off, al)
        if k == 'opaque':
            return (0, 1)
        raise Unsupported('sizeof %r' % (t,))

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.sizeof(e)
            if not t[2]:
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise Unsupported('field')

    def global_init(self, name):
        """returns (type, value or None, is_const)"""
        g = self._gl.get(name)
        if g is None:
            ln = self.globals[name]
            ln = re.sub(r', !dbg !\d+', '', ln)
            toks = tokenize(ln)
            p = P(toks, self)
            const = False
            ext = False
            while True:
                x = p.peek()
                if x in ('constant', 'global'):
                    const = x == 'constant'
                    p.next()
                    break
                if x in ('external', 'extern_weak', 'available_externally'):
                    ext = True
                if x == 'alias' or x == 'ifunc':
                    raise Unsupported('alias')
                if x == 'thread_local' and p.peek(1) == '(':
                    p.next()
                    p.skip_parens()
                    continue
                if x == 'addrspace':
                    p.next()
                    p.skip_parens()
                    continue
                p.next()
            t = p.type()
            v = None
            if not ext and p.peek() is not None and p.peek() not in (',',):
                v = p.value(t)
            g = self._gl[name] = (t, v, const)
        return g
