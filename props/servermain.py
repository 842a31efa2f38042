"""main of the web service: what is listened to, the workers it starts and the threads that run them, over the contracts of HttpWorker
(server.py) and URI (P18)."""
from .common import *
from irv import po
from irv.lib import sv_same, Box

ACC = r'boost::asio::basic_socket_acceptor<.*>::'
WL = r'std::list<webservice::HttpWorker, .*>::'
TV = r'std::vector<std::thread, .*>::'
PORT = z3.Int('port of the address')


def once(eng, st, key, name, size=64):
    if key not in st.user:
        st.user[key] = eng.new_region(st, name, size, 'obj', lazy=True)
    return st.user[key]


def g(st, k):
    return st.ghost[(None, 'srv', k)]


def gset(eng, st, k, v):
    st.ghost[(None, 'srv', k)] = v
    eng.log(('ghost', (None, 'srv', k)))


# ---- the address
def m_uri(eng, st, a, I, line, d):
    eng.oblige(st, 'ensures the address is the one given', sv_same(eng, st, getstr(eng, st, a[1]), eng.cur.address), line)
    eng.gset(st, a[0], 'uri', True)
    return (None,)


def part(name):
    def m(eng, st, a, I, line, d):
        if eng.gget(st, a[0], 'uri') is not True:
            raise Unsupported('unknown URI')
        v = getattr(eng.cur, name)
        if I.ty == ('ptr',):
            p = once(eng, st, 'uri ' + name, name)
            setstr(eng, st, p, v)
            return (p,)
        setstr(eng, st, a[0], v)
        return (None,)
    return m


def m_port(eng, st, a, I, line, d):
    return (IV(16, PORT, 0, 65535),)


def m_address(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'address', Box(getstr(eng, st, a[1])))
    return (None,)


def m_endpoint(eng, st, a, I, line, d):
    b = eng.gget(st, a[1], 'address')
    if b is None:
        raise Unsupported('unknown IP address')
    eng.gset(st, a[0], 'endpoint', Box((b.v, zval(eng.as_u(st, a[2])))))
    return (None,)


def m_acceptor(eng, st, a, I, line, d):
    b = eng.gget(st, a[2], 'endpoint')
    if b is None or eng.gget(st, a[1], 'ioc') is None:
        raise Unsupported('acceptor of an unknown endpoint')
    host, port = b.v
    eng.oblige(st, 'ensures the service listens at the host of the address', sv_same(eng, st, host, eng.cur.host), line)
    eng.oblige(st, 'ensures the service listens at the port of the address', port == PORT, line)
    eng.gset(st, a[0], 'acceptor', True)
    return (None,)


def m_ioc(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'ioc', True)
    return (None,)


def m_run(eng, st, a, I, line, d):
    eng.oblige(st, 'the context run is that of the service', eng.gget(st, a[0], 'ioc') is True, line)
    if not st.user.get('thread'):
        gset(eng, st, 'run', True)
    else:
        st.user['thread'] = 'ran'
    eng.oblige(st, 'ensures all workers are started before they are run', zval(g(st, 'started')) == eng.cur.wanted(st), line)
    return (IV(64, z3.Int(eng.fresh_name('handlers')), 0, 1 << 62),)


# ---- the workers
def m_worker(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'ensures a worker accepts connections of the service', eng.gget(st, a[1], 'acceptor') is True, line)
    for k, nm, want in ((2, 'has the path of the address', u.path), (3, 'searches the input file', u.input), (4, 'uses the index file', u.index)):
        eng.oblige(st, 'ensures a worker ' + nm, sv_same(eng, st, getstr(eng, st, a[k]), want), line)
    gset(eng, st, 'workers', simp(zval(g(st, 'workers')) + 1))
    return (last(eng, st),)


def last(eng, st):
    return st.user['last worker']


def m_list(eng, st, a, I, line, d):
    st.user['last worker'] = eng.new_region(st, 'worker', 64, 'obj')
    return (None,)


def m_back(eng, st, a, I, line, d):
    eng.oblige(st, 'there is a worker', zval(g(st, 'workers')) > 0, line)
    return (last(eng, st),)


def m_start(eng, st, a, I, line, d):
    if not isinstance(a[0], PV) or a[0].r != last(eng, st).r:
        raise Unsupported('start of an unknown worker')
    eng.oblige(st, 'ensures every worker is started once', zval(g(st, 'started')) == zval(g(st, 'workers')) - 1, line)
    gset(eng, st, 'started', g(st, 'workers'))
    return (None,)


# ---- the threads
def m_threads(eng, st, a, I, line, d):
    st.user['threads'] = (PV(a[0].r, a[0].off), eng.new_region(st, 'threads', 1 << 40, 'obj'))
    return (None,)


def m_reserve(eng, st, a, I, line, d):
    n = zval(eng.as_u(st, a[1]))
    st.add(n < 1 << 60)         # else length_error: the service ends with an error, as for any exception
    return (None,)


def m_thread(eng, st, a, I, line, d):
    m = re.search(r'emplace_back<(.*?)>\(', d)
    f = [n for n in eng.mod.functions if eng.dem(n) == m.group(1) + '::operator()() const'] if m else []
    if len(f) != 1:
        raise Unsupported('thread function')
    out = []
    st.user['thread'] = 'runs'
    for s, r in eng.call_function(eng.mod.functions[f[0]], st, [a[1]]):
        eng.oblige(s, 'ensures every thread runs the workers', s.user.get('thread') == 'ran', line)
        s.user.pop('thread')
        gset(eng, s, 'threads', simp(zval(g(s, 'threads')) + 1))
        out.append((s, s.user['threads'][1]))
    return out


def m_begin(eng, st, a, I, line, d):
    r = st.user['threads'][1]
    return (PV(r.r, simp(8 * zval(g(st, 'threads'))) if '::end()' in d else 0),)


def m_size(eng, st, a, I, line, d):
    return (IV(64, g(st, 'threads'), 0, 1 << 60),)


def m_at(eng, st, a, I, line, d):
    return (PV(st.user['threads'][1].r, simp(8 * zval(eng.as_u(st, a[1])))),)


def m_join(eng, st, a, I, line, d):
    if not isinstance(a[0], PV) or a[0].r != st.user['threads'][1].r:
        raise Unsupported('unknown thread')
    eng.oblige(st, 'ensures each thread is waited for once', z3.And(zval(a[0].off) == 8 * zval(g(st, 'joined')), zval(g(st, 'joined')) < zval(g(st, 'threads'))), line)
    gset(eng, st, 'joined', simp(zval(g(st, 'joined')) + 1))
    return (None,)


MODELS = [
    (r'URI::URI\(std::string const&\)$', m_uri), (r'URI::~URI\(\)$', lib.m_void),
    (r'URI::host.* const$', part('host')), (r'URI::path.* const$', part('path')), (r'URI::port.* const$', m_port),
    (r'boost::asio::ip::(make_address|address::from_string)\(std::string const&\)$', m_address),
    (r'boost::asio::ip::basic_endpoint<.*>::basic_endpoint\(boost::asio::ip::address const&, unsigned short\)$', m_endpoint),
    (ACC + r'basic_socket_acceptor<', m_acceptor), (ACC + r'~basic_socket_acceptor\(\)$', lib.m_void),
    (r'boost::asio::io_context::io_context\((int)?\)$', m_ioc), (r'boost::asio::io_context::~io_context\(\)$', lib.m_void), (r'boost::asio::io_context::run\(\)$', m_run),
    (WL + r'list\(\)$', m_list), (WL + r'~list\(\)$', lib.m_void), (r'.*' + WL + r'emplace_back<', m_worker), (WL + r'back\(\)$', m_back),
    (r'webservice::HttpWorker::start\(\)$', m_start),
    (TV + r'vector\(\)$', m_threads), (TV + r'~vector\(\)$', lib.m_void), (TV + r'reserve\(', m_reserve), (r'.*' + TV + r'emplace_back<', m_thread),
    (TV + r'(c?begin|end)\(\)( const)?$', m_begin), (TV + r'size\(\) const$', m_size), (TV + r'(operator\[\]|at)\(', m_at), (r'std::thread::join\(\)$', m_join),
    (r'std::thread::hardware_concurrency\(\)$', lambda eng, st, a, I, line, d: (IV(32, z3.Int('processors'), 0, 1 << 20),)),
    (r'boost::function<.*>::~?function', lib.m_void), (r'std::mutex::mutex\(\)$', lib.m_void),
    (r'(hello|usage|license|warranty)\(\)$', lib.m_void),
]


class Main(Unit):
    tu = 'servermain.cpp'
    title = 'main of pwned-server'
    lib = MODELS + po.MODELS
    termination = True

    @property
    def candgens(self):
        return [self.cands]

    def fixed(self, eng, st):
        self.address, self.input, self.index = (SV.const(st, x) for x in ('address', 'input', 'index'))
        self.host, self.path = (SV.const(st, x) for x in ('host of the address', 'path of the address'))
        st.add(z3.And(PORT >= 0, PORT <= 65535, zval(self.input.length()) > 0))
        self.nw, self.nt = eng.iv_sfresh(st, 32, 'workers'), eng.iv_sfresh(st, 32, 'threads')

    def option(self, eng, st, nm):
        return {'address': self.address, 'input': self.input, 'index': self.index, 'workers': self.nw, 'threads': self.nt, 'verbose': 'more'}.get(nm)

    def option_object(self, eng, st, nm, p, v, ty):
        if nm != 'verbose':
            raise Unsupported('option type ' + ty)
        eng.store(st, p, ('i', 32), eng.iv_sfresh(st, 32, 'verbosity'), None)

    def wanted(self, st):
        """the number of workers: the one given, if there is one"""
        return z3.If(self.nw.t >= 1, self.nw.t, zval(g(st, 'workers')))

    def cands(self, ctx):
        eng, out = ctx.eng, []
        n = lambda s, k: zval(g(s, k))
        if 'last worker' in ctx.st0.user:
            out.append(('all workers started', lambda s: n(s, 'started') == n(s, 'workers')))
        for m in sorted(ctx.mods, key=repr):
            v = eng.get_item(ctx.st0, m)
            if isinstance(v, IV) and v.w == 32:
                for k in ('workers', 'threads', 'joined'):
                    d = lambda s, m=m: eng.get_item(s, m).t - eng.get_item(ctx.st0, m).t
                    out.append(('as many %s as rounds' % k, lambda s, k=k, d=d: n(s, k) - n(ctx.st0, k) == d(s)))
                    out.append(('as many %s as rounds, counted down' % k, lambda s, k=k, d=d: n(s, k) - n(ctx.st0, k) == -d(s)))
            if isinstance(v, PV) and 'threads' in ctx.st0.user and v.r == ctx.st0.user['threads'][1].r:
                out.append(('the threads before are joined', lambda s, m=m: zval(eng.get_item(s, m).off) == 8 * n(s, 'joined')))
        out.append(('not too many workers', lambda s: z3.Implies(self.nw.t >= 1, n(s, 'workers') <= self.nw.t)))
        out.append(('not too many threads', lambda s: n(s, 'threads') <= z3.If(self.nt.t >= 0, self.nt.t, z3.IntVal(0))))
        out.append(('joined', lambda s: z3.And(n(s, 'joined') >= 0, n(s, 'joined') <= n(s, 'threads'))))
        return out

    def variants(self, eng, head):
        up = [(k, lambda s, k=k: (1 << 31) - zval(g(s, k)), (1 << 31) - zval(g(head, k))) for k in ('workers', 'threads')]
        return up + [('threads joined', lambda s: zval(g(s, 'threads')) - zval(g(s, 'joined')), zval(g(head, 'threads')) - zval(g(head, 'joined')))]

    def run(self, eng):
        f = self.fn(eng, '@main')
        st = State()
        for k, v in (('workers', 0), ('started', 0), ('threads', 0), ('joined', 0), ('run', False)):
            st.ghost[(None, 'srv', k)] = v
        self.fixed(eng, st)
        argv = eng.new_region(st, 'argv', 64, 'obj', lazy=True)
        for s, r in eng.call_function(f, st, [eng.iv_fresh(st, 32, 'argc'), argv]):
            n = lambda k: zval(g(s, k))
            eng.oblige(s, 'ensures as many workers are started as asked for, and at least one', z3.And(n('started') == n('workers'), n('workers') == self.wanted(s), n('workers') >= 1))
            eng.oblige(s, 'ensures the workers are run in as many threads as asked for', z3.Implies(self.nt.t >= 0, n('threads') == self.nt.t))
            eng.oblige(s, 'ensures the service goes on until its workers end', And(g(s, 'run'), True))
            eng.oblige(s, 'ensures every thread is waited for', n('joined') == n('threads'))


def units_():
    return [Main()]
