"""main of the converter: one operation for each list, over the contracts of ConvertOperation (converter.py) and OperationQueue (queue.py).

C0(t) is an arbitrary number for each list t; that the sum over the operations carried out is the sum over the lists, whatever these
numbers are, means that there is exactly one operation for each list."""
from .common import *
from . import merger
from .mergermain import *
from .mergermain import Main as MergerMain, FILES, NAME
from irv import po
from irv.lib import sv_same

OPTVEC = r'std::vector<pwned::UserPasswordReaderOptions, std::allocator<pwned::UserPasswordReaderOptions> >::'


def o_new(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'options', Box(()))
    return (None,)


def o_push(eng, st, a, I, line, d):
    b = eng.gget(st, a[0], 'options')
    v = eng.load(st, a[1], ('i', 32))
    v = eng.as_u(st, v)
    if b is None or not isinstance(v, int):
        raise Unsupported('options')
    eng.gset(st, a[0], 'options', Box(b.v + (v,)))
    return (a[0],)


def o_copy(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'options', eng.gget(st, a[1], 'options'))
    return (a[0],) if 'operator=' in d else (None,)


def m_cop(eng, st, a, I, line, d):
    u = eng.cur
    t = getstr(eng, st, a[1])
    eng.oblige(st, 'ensures the lists are converted into the directory given', sv_same(eng, st, getstr(eng, st, a[2]), u.dstname), line)
    eng.oblige(st, 'ensures the output files have the extension given', sv_same(eng, st, getstr(eng, st, a[3]), u.extname), line)
    o = eng.gget(st, a[5], 'options')
    if o is None:
        raise Unsupported('options')
    fm, am, fh, ah = (z3.Bool(x) for x in ('force-md5', 'auto-md5', 'force-hex', 'auto-hex'))
    has = lambda n: z3.BoolVal(const(eng, n) in o.v)
    eng.oblige(st, 'ensures evaluation of MD5 hashes is on exactly if asked for', has('vt_force_md5') == fm, line)
    eng.oblige(st, 'ensures evaluation of hex-encoded passwords is on exactly if asked for', has('vt_force_hex') == fh, line)
    eng.oblige(st, 'ensures MD5 hashes are looked for only if asked for', z3.And(z3.Implies(has('vt_auto_md5'), am), z3.Implies(am, z3.Or(has('vt_auto_md5'), fm))), line)
    eng.oblige(st, 'ensures hex-encoded passwords are looked for only if asked for', z3.And(z3.Implies(has('vt_auto_hex'), ah), z3.Implies(ah, z3.Or(has('vt_auto_hex'), fh))), line)
    eng.gset(st, a[0], 'convert', Box(u.content(st, t.term())))
    eng.gset(st, a[0], 'isinput', Box(ISIN(t.term())))
    return (None,)


def m_cadd(eng, st, a, I, line, d):
    u = eng.cur
    b = eng.gget(st, a[1], 'convert')
    if b is None:
        raise Unsupported('operation added')
    if st.user['carry']['started']:
        raise Unsupported('an operation added while others run')
    eng.oblige(st, 'ensures only lists given are converted', eng.gget(st, a[1], 'isinput').v, line)
    eng.oblige(st, 'ensures an operation is added once', eng.gget(st, a[1], 'added') is None, line)
    eng.gset(st, a[1], 'added', Box(True))
    u.gset(eng, st, 'queued', simp(zval(u.g(st, 'queued')) + b.v))
    return (None,)


def m_queue(eng, st, a, I, line, d):
    u = eng.cur
    u.gset(eng, st, 'begun', True)
    return (None,)


def m_cwait(eng, st, a, I, line, d):
    u = eng.cur
    if not st.user['carry']['started']:
        return (None,)
    out = []
    for s, canc in eng.fork(st, z3.Or(zb(u.g(st, 'canc')), z3.Bool(eng.fresh_name('cancelled')))):
        if canc:
            u.gset(eng, s, 'canc', True)
        u.gset(eng, s, 'converted', u.g(s, 'queued'))
        s.user['carry'] = dict(s.user['carry'], started=False)
        out.append((s, None))
    return out


def m_memstat(eng, st, a, I, line, d):
    for o in range(0, 64, 8):
        eng.put(st, a[0].r, a[0].off + o, 8, eng.iv_fresh(st, 64, eng.fresh_name('memory')))
    return (eng.iv_sfresh(st, 32, eng.fresh_name('result')),)


CONV = [
    (OPTVEC + r'vector\(\)$', o_new), (r'(.* )?' + OPTVEC + r'(push_back|emplace_back<.*>)\(', o_push),
    (OPTVEC + r'(vector|operator=)\(std::vector', o_copy), (OPTVEC + r'~vector\(', lib.m_void), (OPTVEC + r'reserve\(', lib.m_void),
    (r'ConvertOperation::ConvertOperation\(', m_cop),
    (r'pwned::OperationQueue<ConvertOperation>::OperationQueue\(', m_queue),
    (r'pwned::OperationQueue<ConvertOperation>::add\(', m_cadd), (r'pwned::OperationQueue<ConvertOperation>::waitForFinished\(', m_cwait),
    (r'pwned::getMemoryStat\(', m_memstat), (r'pwned::MemoryStat::MemoryStat\(\)$', lib.m_void),
    (r'pwned::TermIO::(~?TermIO)\(\)$', lib.m_void),
]


class Main(MergerMain):
    tu = 'convertermain.cpp'
    lib = CONV + po.MODELS + FILES + merger.MODELS
    suffix = b'.txt'
    what = 'main of the converter, lists'

    def option(self, eng, st, nm):
        switch = lambda n: IV(8, z3.If(z3.Bool(n), 1, 0), 0, 1, bool=z3.Bool(n))
        if nm in ('force-md5', 'auto-md5', 'force-hex', 'auto-hex'):
            return switch(nm)
        return {'src': self.srcname if self.src else None, 'input': True if self.files else None, 'dst': self.dstname,
                'ext': self.extname, 'ram': IV(64, self.ram, 0, M64 - 1), 'threads': IV(32, self.threads, 0, M32 - 1)}.get(nm)

    def setup(self, eng, st):
        self.ram, self.threads = z3.Int('ram'), z3.Int('threads')
        st.add(z3.And(self.ram >= 0, self.ram < M64, self.threads >= 0, self.threads < M32))
        self.dstname = SV.const(st, 'dstdir')
        st.add(zval(self.dstname.length()) > 0)
        for k in ('queued', 'converted'):
            st.ghost[(None, 'main', k)] = 0

    def pos_cands(self, o, pos, guard):
        return [('lists before the position are queued', guard(lambda s: zval(self.g(s, 'queued')) == PT(zval(self.ver(s, o)), pos(s))))]

    def ends(self, eng, s, total):
        eng.oblige(s, 'ensures every list is converted once, unless cancelled',
                   z3.Or(zb(self.g(s, 'canc')), self.g(s, 'nofiles'), zval(self.g(s, 'converted')) == total))


M32 = 1 << 32


def main_units():
    return [Main(False, True), Main(True, False), Main(True, True)]
