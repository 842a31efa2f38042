from .common import *

ICANON, ECHO, ISIG = 2, 8, 1
# struct termios: c_iflag, c_oflag, c_cflag, c_lflag, c_line, c_cc[32], c_ispeed, c_ospeed
CELLS = [(0, 32), (4, 32), (8, 32), (12, 32)] + [(16 + i, 8) for i in range(33)] + [(52, 32), (56, 32)]


class Get:
    """tcgetattr(fd, t): t becomes the settings of the terminal"""

    def matches(self, d, name):
        return name == '@tcgetattr'

    def apply(self, eng, st, a, I, line):
        eng.oblige(st, 'the terminal asked is the standard input', a[0].t == 0, line)
        for o, w in CELLS:
            eng.store(st, PV(a[1].r, a[1].off + o), ('i', w), st.user['term'][o], line)
        return [(st, eng.iv_const(32, 0))]


class Set:
    """tcsetattr(fd, when, t): the settings of the terminal become t"""

    def matches(self, d, name):
        return name == '@tcsetattr'

    def apply(self, eng, st, a, I, line):
        eng.oblige(st, 'the terminal set is the standard input', a[0].t == 0, line)
        eng.oblige(st, 'the action is one tcsetattr accepts', z3.ULE(a[1].t, 2), line)
        st.user['term'] = {o: eng.load(st, PV(a[2].r, a[2].off + o), ('i', w), line) for o, w in CELLS}
        return [(st, eng.iv_const(32, 0))]


class Switch(Unit):
    tu = 'util.cpp'
    dom = 'bv'
    contracts = (Get(), Set())

    def __init__(self, title, pat, clear=0, sets=0, arg=None):
        self.title, self.pat, self.clear, self.sets, self.arg = title, pat, clear, sets, arg

    def run(self, eng):
        st = State()
        t0 = {o: IV(w, z3.BitVec('term_%d' % o, w)) for o, w in CELLS}
        st.user['term'] = dict(t0)
        this = obj(eng, st, 'this', 60)
        args = [BoolV(self.arg)] if self.arg is not None else [this]
        old = {}
        if self.arg is None:
            for o, w in CELLS:
                v = IV(w, z3.BitVec('saved_%d' % o, w))
                old[o] = v
                eng.put(st, this.r, o, w // 8, v)
        for s, r in eng.call_function(self.fn(eng, self.pat), st, args):
            t = s.user['term']
            eng.oblige(s, 'ensures exactly the flags concerned change',
                       t[12].t == (t0[12].t & z3.BitVecVal(~self.clear & 0xffffffff, 32) | z3.BitVecVal(self.sets, 32)))
            eng.oblige(s, 'ensures every other setting is as it was', z3.And(*[t[o].t == t0[o].t for o, w in CELLS if o != 12]))
            if old:
                eng.oblige(s, 'ensures the saved settings are kept',
                           z3.And(*[eng.load(s, PV(this.r, o), ('i', w)).t == old[o].t for o, w in CELLS]))


class Guard(Unit):
    tu = 'util.cpp'
    dom = 'bv'
    contracts = (Get(), Set())
    title = 'TermIO::TermIO, TermIO::~TermIO'

    def run(self, eng):
        st = State()
        t0 = {o: IV(w, z3.BitVec('term_%d' % o, w)) for o, w in CELLS}
        st.user['term'] = dict(t0)
        this = obj(eng, st, 'this', 60)
        for s, r in eng.call_function(self.fn(eng, r'pwned::TermIO::TermIO\('), st, [this]):
            eng.oblige(s, 'ensures creating a guard changes nothing', z3.And(*[s.user['term'][o].t == t0[o].t for o, w in CELLS]))
            s.user['term'] = {o: IV(w, z3.BitVec('later_%d' % o, w)) for o, w in CELLS}
            for s2, r2 in eng.call_function(self.fn(eng, r'pwned::TermIO::~TermIO\('), s, [this]):
                eng.oblige(s2, 'ensures the settings found are restored', z3.And(*[s2.user['term'][o].t == t0[o].t for o, w in CELLS]))


def units(tier):
    return [
        Switch('TermIO::disableEcho', r'pwned::TermIO::disableEcho\(', clear=ICANON | ECHO),
        Switch('TermIO::enableEcho', r'pwned::TermIO::enableEcho\(', sets=ICANON | ECHO),
        Switch('TermIO::disableBreak', r'pwned::TermIO::disableBreak\(', clear=ISIG),
        Switch('TermIO::enableBreak', r'pwned::TermIO::enableBreak\(', sets=ISIG),
        Switch('setStdinEcho(true)', r'pwned::setStdinEcho\(', sets=ECHO, arg=True),
        Switch('setStdinEcho(false)', r'pwned::setStdinEcho\(', clear=ECHO, arg=False),
        Guard(),
    ]


harness = dict(src='P19.cpp', repo=['pwned-lib/util.cpp'], libs=['util'])
assumptions = ['tcgetattr and tcsetattr on the standard input succeed (it is a terminal)',
               'echo switching through TermIO concerns the flags ICANON and ECHO, break handling ISIG, setStdinEcho ECHO']
