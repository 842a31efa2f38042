"""Contracts of the web service (pwned-server/httpworker.cpp), handler by handler.

A worker is a chain of completion handlers. Between two handlers exactly one operation is under way (accepting a connection,
reading a request or writing a response), and the timer is awaited. Each function that starts an operation is verified together with the handler it
passes on, for every outcome of the operation; functions that other handlers call again are used by their contracts."""
import json
from fractions import Fraction
import re
import z3
from .common import *
from .merger import get_obj
from .reader import FromHexContract, spelled
from .P23 import count_of, stored
from .queue import Dead
from irv.engine import FV, FSORT
from irv.lib import sv_eq, sv_same, num_text, emit, os_target, tracked, cstr, slen

TOSTR = z3.Function('hash_text', z3.IntSort(), z3.IntSort(), z3.BoolSort(), S)
KINDS = ('accept', 'read', 'write')


def user(st, **kw):
    for k, v in kw.items():
        st.user[k] = v


def same(p, q):
    return isinstance(p, PV) and p.r == q.r and z3.simplify(zval(p.off) == zval(q.off)).eq(z3.BoolVal(True))


def rid(p):
    if not isinstance(p, PV) or p.r is None:
        raise Unsupported('an unknown object')
    return p.r


# ---------------------------------------------------------------- operations

def begin(eng, st, kind, line):
    """no other operation of this kind may be under way"""
    p = st.user['pending']
    if kind == 'wait':
        eng.oblige(st, 'the timer is awaited once at a time', not any(k == 'wait' for k, *_ in p), line)
    else:
        eng.oblige(st, 'a worker has one operation under way at a time', not any(k in KINDS for k, *_ in p), line)


def start(eng, st, kind, d, lam, line, io):
    begin(eng, st, kind, line)
    ex = eng.gget(st, lam, 'exec') or eng.gget(st, io, 'exec')
    eng.oblige(st, 'the handlers of a worker do not run at the same time', ex is not None and ex == 'strand', line)
    fns = []
    for n, f in eng.mod.functions.items():
        x = eng.dem(n)
        if not f.decl and '::operator()(' in x and re.search(r'::\$_\d+::operator\(\)\(', x) and x.split('::operator()(')[0] in d:
            fns.append(f)
    if len(fns) != 1:
        raise Unsupported('the handler of the operation is not known')
    src = st.mem[rid(lam)]
    cap = src.clone()
    new = eng.new_region(st, 'handler', cap.size, 'obj')
    r = st.mem[new.r]
    r.cells = dict(cap.cells)
    user(st, pending=st.user['pending'] + ((kind, fns[0], PV(new.r, lam.off)),))


def m_accept(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'the acceptor is the one of the service', same(a[0], u.acceptor), line)
    eng.oblige(st, 'a connection is accepted into the socket of the worker', same(a[1], u.socket), line)
    eng.oblige(st, 'the socket is closed before the next connection is accepted', not st.user['open'], line)
    eng.oblige(st, 'nothing received before is taken for a part of the next request', zval(st.user['bytes']) == 0, line)
    eng.oblige(st, 'a connection is not closed for the time the one before it took',
               zval(eng.as_s(st, st.user['expiry'])) == (1 << 63) - 1 if z3.is_false(z3.simplify(zb(st.user['timed']))) else False, line)
    start(eng, st, 'accept', d, a[2], line, a[0])
    return (None,)


def m_read(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'the request is read from the socket of the worker', same(a[0], u.socket) and st.user['open'], line)
    eng.oblige(st, 'the request is read through the buffer of the worker', same(a[1], u.buffer), line)
    eng.oblige(st, 'the request is read by a new parser', rid(a[2]) == u.rparser.r and st.user['parser'] == 'new', line)
    eng.oblige(st, 'the time for reading a request is limited', zb(st.user['timed']), line)
    user(st, parser='used')
    start(eng, st, 'read', d, a[3], line, a[0])
    return (None,)


def m_write(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'the response is written to the socket of the worker', same(a[0], u.socket), line)
    eng.oblige(st, 'the response written is the one prepared', rid(a[1]) == u.rserial.r and st.user['serial'] == st.user['respid'] and st.user['serial'] is not None, line)
    body = getstr(eng, st, u.body)
    pay = st.user['payload']
    eng.oblige(st, 'the length announced is that of the body', pay is not None and (pay.parts == body.parts or sv_same(eng, st, pay, body)), line)
    user(st, sent=st.user['sent'] + ((st.user['status'], st.user['ctype'], body),))
    start(eng, st, 'write', d, a[2], line, a[0])
    return (None,)


def m_wait(eng, st, a, I, line, d):
    eng.oblige(st, 'the timer is the one of the worker', same(a[0], eng.cur.timer), line)
    start(eng, st, 'wait', d, a[1], line, a[0])
    return (None,)


def ec_fresh(eng, st, p):
    eng.gset(st, p, 'failed', z3.Bool(eng.fresh_name('failed')))


def m_ec(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'failed', z3.BoolVal(False))
    return (None,)


def m_failed(eng, st, a, I, line, d):
    f = eng.gget(st, a[0], 'failed')
    if f is None:
        raise Unsupported('an unknown error code')
    return (BoolV(f),)


def drop_result(eng, st, a, d):
    """the arguments without the address for the result (an error code)"""
    if 'error_code&' in d and len(a) > 1 + d[d.rindex('('):].count(',') + 1:
        ec_fresh(eng, st, a[0])
        return a[1:]
    return a


def m_close(eng, st, a, I, line, d):
    a = drop_result(eng, st, a, d)
    eng.oblige(st, 'the socket is the one of the worker', same(a[0], eng.cur.socket), line)
    if 'error_code' in d:
        ec_fresh(eng, st, a[1])
    else:
        eng.oblige(st, 'no exception leaves a handler (closing may throw)', False, line)
    user(st, open=False, closed=True)
    return (None,)


def m_shutdown(eng, st, a, I, line, d):
    a = drop_result(eng, st, a, d)
    eng.oblige(st, 'the socket is the one of the worker', same(a[0], eng.cur.socket), line)
    if 'error_code' in d:
        ec_fresh(eng, st, a[2])
    else:
        eng.oblige(st, 'no exception leaves a handler (shutting down may throw)', False, line)
    return (None,)


def m_remote(eng, st, a, I, line, d):
    if 'error_code' in d:
        ec_fresh(eng, st, a[-1])
    else:
        eng.oblige(st, 'no exception leaves a handler (asking for the address of a peer that has gone throws)', False, line)
    return (None,)


def m_bufsize(eng, st, a, I, line, d):
    return (IV(64, st.user['bytes'], 0, (1 << 40)),)


def m_consume(eng, st, a, I, line, d):
    n = zval(eng.as_u(st, a[1]))
    b = zval(st.user['bytes'])
    user(st, bytes=simp(z3.If(n >= b, 0, b - n)))
    return (None,)


def m_bufclear(eng, st, a, I, line, d):
    user(st, bytes=0)
    return (None,)


# ---------------------------------------------------------------- timer

def m_expiry(eng, st, a, I, line, d):
    return (IV(64, st.user['expiry'], -(1 << 63), (1 << 63) - 1) if False else st.user['expiry'],)


def m_steady(eng, st, a, I, line, d):
    return (st.user['now'],)


def m_at(eng, st, a, I, line, d):
    eng.oblige(st, 'the timer is the one of the worker', same(a[0], eng.cur.timer), line)
    v = eng.load(st, a[1], ('i', 64), line)
    user(st, expiry=v, timed=z3.BoolVal(False))
    return (eng.iv_fresh(st, 64, eng.fresh_name('cancelled')),)


def m_after(eng, st, a, I, line, d):
    eng.oblige(st, 'the timer is the one of the worker', same(a[0], eng.cur.timer), line)
    v = eng.load(st, a[1], ('i', 64), line)
    n = zval(eng.as_s(st, v))
    user(st, timed=z3.And(n > 0, n <= 3600 * 10 ** 9))
    return (eng.iv_fresh(st, 64, eng.fresh_name('cancelled')),)


# ---------------------------------------------------------------- executors

def m_get_executor(eng, st, a, I, line, d):
    """the executor of an object (ghost 'exec' of the object itself)"""
    if I.ty == ('void',):
        eng.gset(st, a[0], 'exec', eng.gget(st, a[1], 'exec'))
        return (None,)
    return (a[0],)


def m_make_strand(eng, st, a, I, line, d):
    if eng.gget(st, a[1], 'exec') is None:
        raise Unsupported('an unknown executor')
    n = st.user.get('strands', 0)
    user(st, strands=n + 1)
    eng.gset(st, a[0], 'exec', 'strand%d' % n if n else 'strand')
    return (None,)


def m_exec_copy(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'exec', eng.gget(st, a[1], 'exec'))
    return (None,)


def m_timer(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'exec', eng.gget(st, a[1], 'exec'))
    if d.count(',') and 'time_point' in d[d.rindex('basic_waitable_timer('):]:
        user(st, expiry=eng.load(st, a[2], ('i', 64), line), timed=z3.BoolVal(False))
    else:
        user(st, expiry=None)
    return (None,)


def m_bind(eng, st, a, I, line, d):
    src = st.mem[rid(a[2])]
    r = st.mem[rid(a[0])]
    n = 0
    for o, c in src.cells.items():
        r.cells[eng.coff(a[0].off) + o - eng.coff(a[2].off)] = c
    eng.gset(st, a[0], 'exec', eng.gget(st, a[1], 'exec'))
    return (None,)


# ---------------------------------------------------------------- request and response

def m_optional(eng, st, a, I, line, d):
    u = eng.cur
    for which, opt, obj_ in (('parser', u.parser, u.rparser), ('response', u.response, u.rresp), ('serializer', u.serializer, u.rserial)):
        if same(a[0], opt):
            break
    else:
        raise Unsupported('an unknown optional')
    k = None
    for m in re.finditer(r'>::(emplace|operator\*|operator->|reset|is_initialized|has_value|operator bool|operator!|value|get)\b|>::(operator\*|operator->|operator!)', d):
        k = m.group(1) or m.group(2)
    has = {'parser': st.user['parser'] is not None, 'response': st.user['respid'] is not None, 'serializer': st.user['serial'] is not None}[which]
    if k == 'emplace':
        if which == 'parser':
            user(st, parser='new')
        elif which == 'response':
            status = const(eng, 'vt_ok')
            if len(a) > 1:
                if '>::emplace<boost::beast::http::status' not in d:
                    raise Unsupported('a response made of unknown arguments')
                status = zval(eng.as_u(st, eng.load(st, a[1], ('i', 32), line)))
            user(st, respid=(st.user['respid'] or 0) + 1, status=status, ctype=None, payload=None)
            setstr(eng, st, u.body, SV([]))
        else:
            eng.oblige(st, 'the serializer takes the response of the worker', len(a) > 1 and rid(a[1]) == u.rresp.r, line)
            user(st, serial=st.user['respid'])
        return (None if I.ty == ('void',) else obj_,)
    if k == 'reset':
        if which == 'parser':
            user(st, parser=None)
        elif which == 'response':
            user(st, respid=None)
        else:
            user(st, serial=None)
        return (None,)
    if k in ('is_initialized', 'has_value', 'operator bool'):
        return (BoolV(has),)
    if k == 'operator!':
        return (BoolV(not has),)
    if k in ('operator*', 'operator->', 'value', 'get'):
        eng.oblige(st, 'an object that is there is used', has, line)
        return (obj_,)
    raise Unsupported('use of an optional')


def m_get(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'the request is that of the parser of the worker', rid(a[0]) == u.rparser.r and st.user['parser'] == 'used', line)
    return (u.req,)


def m_method(eng, st, a, I, line, d):
    return (eng.cur.verb,) if rid(a[0]) == eng.cur.req.r else (eng.iv_fresh(st, 32, eng.fresh_name('verb')),)


def view(eng, st, sv):
    t = eng.new_region(st, 'text', 32, 'obj')
    setstr(eng, st, t, sv)
    n = sv.length()
    return Agg([t, IV(64, n, 0, (1 << 62))])


def m_target(eng, st, a, I, line, d):
    return (view(eng, st, eng.cur.target if rid(a[0]) == eng.cur.req.r else SV.fresh(eng, st, 'target')),)


def m_verb_text(eng, st, a, I, line, d):
    return (view(eng, st, SV.fresh(eng, st, 'verb')),)


def view_of(eng, st, p):
    """the text of a string_view object"""
    q = eng.load(st, p, ('ptr',))
    if eng.gget(st, q, 'str') is None:
        raise Unsupported('an unknown string_view')
    return getstr(eng, st, q)


def m_view(eng, st, a, I, line, d):
    sv = cstr(eng, st, a[1]) if 'char const*' in d[d.rindex('('):] else getstr(eng, st, a[1])
    v = view(eng, st, sv)
    eng.store(st, a[0], ('ptr',), v.vals[0])
    eng.store(st, PV(a[0].r, a[0].off + 8), ('i', 64), v.vals[1])
    return (None,)


def m_string_of_view(eng, st, a, I, line, d):
    setstr(eng, st, a[0], view_of(eng, st, a[1]))
    return (None,)


def m_view_string(eng, st, a, I, line, d):
    setstr(eng, st, a[0], view_of(eng, st, a[1]))
    return (None,)


def m_result(eng, st, a, I, line, d):
    eng.oblige(st, 'the response is that of the worker', rid(a[0]) == eng.cur.rresp.r, line)
    user(st, status=zval(eng.as_u(st, a[1])))
    return (None,)


def m_set(eng, st, a, I, line, d):
    eng.oblige(st, 'the response is that of the worker', rid(a[0]) == eng.cur.rresp.r, line)
    if '::field, ' in d:
        f = zval(eng.as_u(st, a[1]))
        if eng.valid(st, f == const(eng, 'vt_content_type')):
            user(st, ctype=(view_of if d.endswith('string_view<char> const&)') else getstr)(eng, st, a[2]).is_lit())
    return (None,)


def m_body(eng, st, a, I, line, d):
    eng.oblige(st, 'the response is that of the worker', rid(a[0]) == eng.cur.rresp.r, line)
    return (eng.cur.body,)


def m_prepare(eng, st, a, I, line, d):
    user(st, payload=getstr(eng, st, eng.cur.body))
    return (None,)


# ---------------------------------------------------------------- URI (P17)

def m_parse(eng, st, a, I, line, d):
    u = eng.cur
    eng.oblige(st, 'the text parsed is the target of the request', sv_same(eng, st, getstr(eng, st, a[1]), u.target), line)
    user(st, uri=(a[0].r, eng.coff(a[0].off)))
    return (BoolV(eng.fresh_bool('valid')),) if d.startswith('bool') or I.ty != ('void',) else (None,)


def parsed(eng, st, p, line):
    eng.oblige(st, 'the target has been parsed', st.user.get('uri') == (p.r, eng.coff(p.off)), line)


def m_path(eng, st, a, I, line, d):
    parsed(eng, st, a[0], line)
    return (eng.cur.rpath,)


def m_query(eng, st, a, I, line, d):
    parsed(eng, st, a[0], line)
    return (eng.cur.rquery,)


def entry(eng, st, sv):
    """(whether the parameter is there, its entry)"""
    u = eng.cur
    k = sv.is_lit()
    if k is None:
        raise Unsupported('a parameter whose name is not known')
    if k == b'hash':
        return u.has, u.entry
    e = st.user['entries'].get(k)
    if e is None:
        r = eng.new_region(st, 'entry', 64, 'obj')
        e = (z3.Bool(eng.fresh_name('has')), r)
        user(st, entries=dict(st.user['entries'], **{}))
        st.user['entries'][k] = e
    return e


def m_find(eng, st, a, I, line, d):
    has, e = entry(eng, st, getstr(eng, st, a[1]))
    out = []
    for c, v in ((has, e), (z3.Not(has), eng.cur.rend)):
        s = st.copy()
        s.add(c)
        if eng.feasible(s) if hasattr(eng, 'feasible') else True:
            out.append((s, v))
    return out


def m_end(eng, st, a, I, line, d):
    return (eng.cur.rend,)


def m_map_at(eng, st, a, I, line, d):
    has, e = entry(eng, st, getstr(eng, st, a[1]))
    eng.oblige(st, 'no exception leaves a handler (the parameter is there)', has, line)
    return (PV(e.r, 32),)


def m_count(eng, st, a, I, line, d):
    has, e = entry(eng, st, getstr(eng, st, a[1]))
    return (IV(64, z3.If(has, 1, 0), 0, 1),)


def m_it_arrow(eng, st, a, I, line, d):
    q = eng.load(st, a[0], ('ptr',))
    eng.oblige(st, 'an iterator at an entry is used', q.r != eng.cur.rend.r, line)
    return (q,)


# ---------------------------------------------------------------- hashes (P01, P03, P07)

class ToString:
    """contract of Hash::toString (P07): the 32 hex digits of the hash"""

    def matches(self, d, name):
        return d.startswith('pwned::Hash::toString(')

    def apply(self, eng, st, a, I, line):
        u, l, _ = hash_at(eng, st, a[1])
        t = TOSTR(zval(u), zval(l), bool_of(a[2]) if len(a) > 2 else z3.BoolVal(False))
        st.add(slen(t) == 32)
        setstr(eng, st, a[0], SV.base(t))
        return [(st, None)]


class Search:
    """contract of the searches (P01, P03; P02: for every state the reader can be in)"""

    def matches(self, d, name):
        return re.match(r'pwned::PasswordInspector::(smart_)?binsearch\(', d)

    def apply(self, eng, st, a, I, line):
        out, this = a[0], a[1]
        eng.oblige(st, 'the search uses the reader of the worker', same(this, eng.cur.inspector), line)
        hu, hl, _ = hash_at(eng, st, a[2])
        if not (isinstance(a[3], PV) and a[3].r == NULL.r):
            eng.store(st, a[3], ('i', 32), eng.iv_fresh(st, 32, 'reads'), line)
        c = stored(st, hu, hl)
        fresh_hash(eng, st, out, eng.fresh_name('found'))
        eng.put(st, out.r, eng.coff(out.off) + 24, 4, IV(32, c, 0, (1 << 32) - 1))
        return [(st, None)]


class Size:
    """contract of PasswordInspector::size (P01): the number of records"""

    def matches(self, d, name):
        return re.match(r'pwned::PasswordInspector::size\(\)', d)

    def apply(self, eng, st, a, I, line):
        eng.oblige(st, 'the size is that of the file of the worker', same(a[0], eng.cur.inspector), line)
        return [(st, IV(64, eng.cur.records, 0, (1 << 63)))]


class Calls:
    """contract of accept, readRequest, processRequest, checkTimeout: the next operation of the worker is under way"""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def matches(self, d, name):
        return d.startswith('webservice::HttpWorker::%s(' % self.name)

    def apply(self, eng, st, a, I, line):
        u = eng.cur
        eng.oblige(st, 'the function is called for this worker', same(a[0], u.self), line)
        begin(eng, st, self.kind, line)
        if self.kind == 'read':
            eng.oblige(st, 'a request is read from a connection', st.user['open'], line)
            eng.oblige(st, 'the time for reading a request is limited', zb(st.user['timed']), line)
        if self.kind == 'write':
            eng.oblige(st, 'the request processed is the one read', rid(a[1]) == u.req.r, line)
        user(st, pending=st.user['pending'] + ((self.kind, None, None),))
        return [(st, None)]


# ---------------------------------------------------------------- JSON

def m_tree(eng, st, a, I, line, d):
    user(st, trees=dict(st.user['trees'], **{'%s' % a[0].r: ()}))
    return (None,)


def m_key(eng, st, a, I, line, d):
    sv = cstr(eng, st, a[1]) if 'char const*' in d[d.rindex('('):] or isinstance(st.mem[a[1].r].cells.get(0, (0, None))[1], IV) else getstr(eng, st, a[1])
    k = sv.is_lit()
    if k is None or b'.' in k:
        raise Unsupported('a nested or unknown key')
    st.ghost[(a[0].r, eng.coff(a[0].off), 'key')] = Box(k)
    return (None,)


INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'short': (16, True), 'unsigned short': (16, False)}


def m_put(eng, st, a, I, line, d):
    k = eng.gget(st, a[1], 'key')
    t = st.user['trees'].get('%s' % a[0].r)
    m = re.search(r'>::put<([\w: ]+?) ?>\(', d)
    if k is None or t is None or m is None:
        raise Unsupported('put of a property tree')
    ty = m.group(1)
    if ty == 'std::string':
        sv = getstr(eng, st, a[2])
    elif ty in INTS:
        n, signed = INTS[ty]
        v = eng.load(st, a[2], ('i', n), line)
        sv = num_text(eng, st, eng.as_s(st, v) if signed else eng.as_u(st, v), 10, 0, 0, False)
    else:
        raise Unsupported('put of a %s' % ty)
    t = tuple((x, y) for x, y in t) if all(x != k.v for x, y in t) else None
    if t is None:
        raise Unsupported('a key put twice')
    user(st, trees=dict(st.user['trees'], **{'%s' % a[0].r: t + ((k.v, sv),)}))
    return (a[0],)


def escaped(sv):
    out = []
    for p in sv.parts:
        if isinstance(p, bytes):
            q = b''
            for c in p:
                if c in (0x20, 0x21) or 0x23 <= c <= 0x2e or 0x30 <= c <= 0x5b or 0x5d <= c <= 0x7e:
                    q += bytes([c])
                elif c in b'"\\/':
                    q += b'\\' + bytes([c])
                else:
                    raise Unsupported('a control character in JSON')
            out.append(q)
        elif alphabet(p):
            out.append(p)
        else:
            raise Unsupported('unknown text in JSON')
    return out


def alphabet(p):
    """the characters a symbolic piece of text consists of"""
    if not isinstance(p, tuple):
        return None
    t = p[0]
    if not z3.is_app(t):
        return None
    n = t.decl().name()
    if not (isinstance(p[1], int) and p[1] == 0 and zval(p[2]).eq(zval(slen(t)))):
        return None
    if n == 'hash_text':
        return b'0123456789abcdefABCDEF', 32
    if n.startswith('num_b10') or n.startswith('real_text'):
        return b'0123456789-.', 1
    return None


def m_write_json(eng, st, a, I, line, d):
    t = st.user['trees'].get('%s' % rid(a[1]))
    if t is None:
        raise Unsupported('an unknown property tree')
    b = simp(z3.simplify(zb(bool_of(a[2]))))
    pretty = z3.is_true(zb(b))
    if not pretty and not z3.is_false(zb(b)):
        raise Unsupported('the layout of the JSON text is not known')
    parts = [b'{\n' if pretty else b'{']
    for i, (k, v) in enumerate(t):
        parts += [(b',\n' if pretty else b',') if i else b'', b'    "' if pretty else b'"', k, b'": "' if pretty else b'":"'] + escaped(v) + [b'"']
    parts += [b'\n}\n' if pretty else b'}\n']
    q = os_target(eng, st, a[0])
    emit(eng, st, q, SV(parts))
    return (None,)


def m_replace(eng, st, a, I, line, d):
    sv, x, y = (getstr(eng, st, a[0]), texts(eng, st, a[1]), texts(eng, st, a[2]))
    f = x.is_lit()
    if not f:
        raise Unsupported('replacing an unknown text')
    first = 'replace_first' in d
    out, done = [], False
    for p in sv.parts:
        if isinstance(p, bytes):
            while f in p and not (first and done):
                i = p.index(f)
                out += [p[:i]] + list(y.parts)
                p = p[i + len(f):]
                done = True
            out.append(p)
        else:
            al = alphabet(p)
            if al is None or f[0] in al[0] or f[-1] in al[0] or any(
                    len(x) >= al[1] and re.search(rb'[0-9a-fA-F]', x) for x in re.findall(b'[' + re.escape(al[0]) + b']+', f)):
                raise Unsupported('replacing within an unknown text')
            out.append(p)
    setstr(eng, st, a[0], SV(out))
    return (None,)


def texts(eng, st, p):
    r = st.mem.get(p.r)
    return getstr(eng, st, p) if eng.gget(st, p, 'str') is not None else cstr(eng, st, p)


def m_to_string(eng, st, a, I, line, d):
    ty = d[d.rindex('(') + 1:-1]
    if ty in ('double', 'float', 'long double'):
        if a[1].iv is None:
            raise Unsupported('a number that may be infinite or no number')
        t = z3.Const(eng.fresh_name('real_text'), S)
        st.add(z3.And(slen(t) >= 1, slen(t) < 400))
        sv = SV.base(t)
    else:
        n = eng.as_u(st, a[1]) if 'unsigned' in ty else eng.as_s(st, a[1])
        sv = num_text(eng, st, n, 10, 0, 0, False)
    setstr(eng, st, a[0], sv)
    return (None,)


def read_json(body):
    """(the object, {number or text standing for a piece: the piece})"""
    text, known = b'', {}
    for i, p in enumerate(body.parts):
        if isinstance(p, bytes):
            text += p
            continue
        al = alphabet(p)
        if al is None:
            return None, {}
        if al[1] == 32:
            k = '%032x' % (0xabcdef0000 + i)
            known[k] = p
            text += k.encode()
        else:
            k = 77700000 + i
            known[k] = p
            text += str(k).encode()
    try:
        o = json.loads(text.decode('latin1'))
    except ValueError:
        return None, {}
    return (o if isinstance(o, dict) else None), known


# ---------------------------------------------------------------- the rest of the libraries

def m_none(eng, st, a, I, line, d):
    return (None,)


def m_ref(eng, st, a, I, line, d):
    return (a[0],)


def m_i64(eng, st, a, I, line, d):
    v = eng.iv_sfresh(st, 64, eng.fresh_name('now'))
    st.add(z3.And(v.t >= 0, v.t < (1 << 60)))
    return (v,)


def m_dur(eng, st, a, I, line, d):
    if 'duration<double' in d:
        ns = Fraction(1 << 63, 10 ** 9)
        return (FV(z3.Const(eng.fresh_name('duration'), FSORT), 'double', (-ns, ns)),)
    return (eng.iv_sfresh(st, 64, eng.fresh_name('duration')),)


def m_some_text(eng, st, a, I, line, d):
    setstr(eng, st, a[0], SV.fresh(eng, st, 'text'))
    return (None,)


def m_log(eng, st, a, I, line, d):
    """the log function given: arbitrary, but it does not touch the worker"""
    return (None,)


def m_file_path(eng, st, a, I, line, d):
    st.ghost[(a[0].r, eng.coff(a[0].off), 'path')] = Box(getstr(eng, st, a[1]))
    return (None,)


def m_written(eng, st, a, I, line, d):
    p = eng.gget(st, a[0], 'path')
    v = eng.iv_sfresh(st, 64, eng.fresh_name('written'))
    if p is not None:
        user(st, written=(p.v, v))
    return (v,)


class Open:
    """contract of the constructor of the inspector (P01): it searches the files given"""

    def matches(self, d, name):
        return d == 'pwned::PasswordInspector::PasswordInspector(std::string const&, std::string const&)'

    def apply(self, eng, st, a, I, line):
        user(st, files=(a[0], getstr(eng, st, a[1]), getstr(eng, st, a[2])))
        return [(st, None)]


OPTIONAL = r'.*boost::(optional|optional_detail::optional_base)<boost::beast::http::(parser|message|serializer)<.*>::(emplace|reset|operator|get|is_initialized|has_value|value)'
MODELS = [
    (r'boost::asio::(basic_socket_acceptor|basic_socket|basic_waitable_timer)<.*>::get_executor\(\)$', m_get_executor),
    (r'boost::asio::strand<.*> boost::asio::make_strand<boost::asio::any_io_executor>\(boost::asio::any_io_executor const&', m_make_strand),
    (r'boost::asio::any_io_executor::any_io_executor(<boost::asio::strand<.*>)?\(', m_exec_copy),
    (r'boost::asio::(any_io_executor|strand|executor_binder)(<.*>)?::~', m_none),
    (r'boost::asio::basic_stream_socket<.*>::basic_stream_socket\(boost::asio::any_io_executor const&\)$', m_exec_copy),
    (r'boost::asio::basic_waitable_timer<.*>::basic_waitable_timer\(boost::asio::any_io_executor const&', m_timer),
    (r'boost::asio::executor_binder<.*> boost::asio::bind_executor<boost::asio::any_io_executor, ', m_bind),
    (r'boost::beast::basic_flat_buffer<.*>::basic_flat_buffer\(\)$', m_none),
    (r'boost::optional<boost::beast::http::.*>::optional\(\)$', m_none),
    (r'boost::filesystem::path::path\(std::string const&\)$', m_file_path),
    (r'boost::filesystem::last_write_time\(boost::filesystem::path const&\)$', m_written),
    (r'boost::filesystem::path::~path\(\)$', m_none),
    (r'.*boost::asio::basic_socket_acceptor<.*>::async_accept<', m_accept),
    (r'.*boost::beast::http::async_read<', m_read),
    (r'.*boost::beast::http::async_write<', m_write),
    (r'.*boost::asio::basic_waitable_timer<.*>::async_wait<', m_wait),
    (r'boost::system::error_code::error_code\(\)$', m_ec),
    (r'boost::system::error_code::(operator bool|failed)\(\) const$', m_failed),
    (r'boost::asio::basic_socket<.*>::close\(', m_close),
    (r'boost::asio::basic_socket<.*>::shutdown\(', m_shutdown),
    (r'boost::asio::basic_socket<.*>::remote_endpoint\(', m_remote),
    (r'boost::asio::ip::basic_endpoint<.*>::(basic_endpoint\(|address\(\) const|~)', m_none),
    (r'boost::asio::ip::address::to_string\(.*\) const$', m_some_text),
    (r'boost::beast::basic_flat_buffer<.*>::size\(\) const$', m_bufsize),
    (r'boost::beast::basic_flat_buffer<.*>::consume\(', m_consume),
    (r'boost::beast::basic_flat_buffer<.*>::clear\(', m_bufclear),
    (r'boost::asio::basic_waitable_timer<.*>::expiry\(\) const$', m_expiry),
    (r'boost::asio::basic_waitable_timer<.*>::expires_at\(', m_at),
    (r'boost::asio::basic_waitable_timer<.*>::expires_after\(', m_after),
    (r'std::chrono::_V2::steady_clock::now\(\)$', m_steady),
    (r'std::chrono::_V2::system_clock::now\(\)$', m_i64),
    (r'std::common_type<.*std::chrono::operator-<std::chrono::_V2::system_clock', m_dur),
    (r'std::enable_if<.*std::chrono::duration_cast<std::chrono::duration<double', m_dur),
    (r'boost::beast::http::parser<.*>::get\(', m_get),
    (r'boost::beast::http::header<true, .*>::method\(\) const$', m_method),
    (r'boost::beast::http::header<true, .*>::method_string\(\) const$', m_verb_text),
    (r'boost::beast::http::header<true, .*>::target\(\) const$', m_target),
    (r'boost::beast::http::header<false, .*>::result\((boost::beast::http::status|unsigned int)\)$', m_result),
    (r'boost::beast::http::basic_fields<.*>::(set|insert)\(', m_set),
    (r'boost::beast::http::message<false, .*>::body\(\)', m_body),
    (r'boost::beast::http::message<false, .*>::prepare_payload\(\)$', m_prepare),
    (OPTIONAL, m_optional),
    (r'void ' + OPTIONAL, m_optional),
    (r'boost::core::basic_string_view<char>::basic_string_view(<.*>)?\((char const\*|std::string const&)\)$', m_view),
    (r'std::string::basic_string<boost::core::basic_string_view<char>, void>\(', m_string_of_view),
    (r'boost::core::basic_string_view<char>::operator std::string.*\(\) const$', m_view_string),
    (r'std::ostream& boost::core::operator<< <char>\(std::ostream&, boost::core::basic_string_view<char>\)$', m_ref),
    (r'std::ostream& webservice::operator<< <std::chrono', m_ref),
    (r'boost::function1?<void.*>::operator\(\)\(', m_log),
    (r'URI::~?URI\(\)$', m_none),
    (r'URI::parseTarget\(std::string const&\)$', m_parse),
    (r'URI::path\(\) const$', m_path),
    (r'URI::query\(\)( const)?$', m_query),
    (r'std::map<std::string, std::string, .*>::find\(std::string const&\)( const)?$', m_find),
    (r'std::map<std::string, std::string, .*>::c?end\(\)( const)?$', m_end),
    (r'std::map<std::string, std::string, .*>::at\(std::string const&\)( const)?$', m_map_at),
    (r'std::map<std::string, std::string, .*>::(count|contains)\(std::string const&\)( const)?$', m_count),
    (r'std::_Rb_tree_(const_)?iterator<std::pair<std::string const, std::string > >::operator(->|\*)\(\) const$', m_it_arrow),
    (r'boost::property_tree::basic_ptree<.*>::basic_ptree\(\)$', m_tree),
    (r'boost::property_tree::basic_ptree<.*>::~basic_ptree\(\)$', m_none),
    (r'boost::property_tree::string_path<.*>::string_path\(.*\)$', m_key),
    (r'boost::property_tree::string_path<.*>::~string_path\(\)$', m_none),
    (r'boost::property_tree::basic_ptree<.*>& boost::property_tree::basic_ptree<.*>::put<', m_put),
    (r'void boost::property_tree::json_parser::write_json<', m_write_json),
    (r'void boost::algorithm::replace_(all|first)<std::string', m_replace),
    (r'(std::to_string|std::__cxx11::to_string)\(', m_to_string),
]


# ---------------------------------------------------------------- units

class Worker(Unit):
    tu = 'server.cpp'
    lib = MODELS
    timeout_ms = 8000
    termination = False
    names = ()      # functions used by their contracts

    def __init__(self):
        self.contracts = [FromHexContract(), ToString(), Search(), Size()] + [Calls(n, k) for n, k in self.names]

    def state(self, eng):
        st = State()
        self.self = obj(eng, st, 'worker', const(eng, 'vt_worker_size'))
        for n in ('socket', 'buffer', 'parser', 'timer', 'response', 'serializer', 'base', 'inspector', 'log', 'updated'):
            s, v = get_obj(eng, st, 'vt_w_' + n, self.self)
            setattr(self, n, v)
        self.acceptor = obj(eng, st, 'acceptor', 64)
        eng.put(st, self.self.r, 0, 8, self.acceptor)
        eng.gset(st, self.acceptor, 'exec', 'service')
        eng.gset(st, self.socket, 'exec', 'strand')
        eng.gset(st, self.timer, 'exec', 'strand')
        st.user['strands'] = 1
        self.rparser, self.rresp, self.rserial, self.req, self.rpath, self.rquery, self.rend, self.entry, self.body = (
            obj(eng, st, n, 128) for n in ('parser', 'response', 'serializer', 'request', 'path', 'query', 'end', 'entry', 'body'))
        self.basesv, self.pathsv, self.target, self.param = (SV.const(st, n) for n in ('base', 'path', 'target', 'param'))
        setstr(eng, st, self.base, self.basesv)
        setstr(eng, st, self.rpath, self.pathsv)
        setstr(eng, st, self.entry, SV([b'hash']))
        setstr(eng, st, PV(self.entry.r, 32), self.param)
        self.has = z3.Bool('has_hash')
        self.verb = eng.iv_fresh(st, 32, 'verb')
        st.add(z3.And(zval(self.verb.t) >= 0, zval(self.verb.t) <= const(eng, 'vt_last_verb')))
        self.records = z3.Int('records')
        st.add(z3.And(self.records >= 0, self.records < (1 << 59)))
        self.upd = eng.iv_sfresh(st, 64, 'updated')
        eng.store(st, self.updated, ('i', 64), self.upd)
        st.user['carry'] = ()
        now = eng.iv_sfresh(st, 64, 'clock')
        st.add(zval(now.t) < (1 << 62))
        exp = eng.iv_sfresh(st, 64, 'expiry')
        user(st, pending=(), open=True, closed=False, bytes=z3.Int('bytes'), parser='used', respid=None, serial=None, status=None, ctype=None, payload=None,
             sent=(), timed=z3.Bool('timed'), expiry=exp, now=now, trees={}, entries={})
        st.add(z3.And(z3.Int('bytes') >= 0, z3.Int('bytes') < (1 << 40)))
        return st

    def method(self, eng, name):
        for n, f in eng.mod.functions.items():
            if not f.decl and eng.dem(n).startswith('webservice::HttpWorker::%s(' % name) and '::operator()' not in eng.dem(n) and '$_' not in eng.dem(n):
                return f
        raise Unsupported('function %s not found' % name)

    def handlers(self, eng, st, depth=0):
        """runs the handlers of the operations that were started, with every outcome"""
        out = []
        for kind, fn, lam in st.user['pending']:
            if fn is None:
                continue
            if depth > 3:
                raise Unsupported('a chain of handlers')
            fn.parse()
            w = st.copy()
            user(w, pending=tuple(p for p in st.user['pending'] if p[0] != kind), ended=kind)
            for r_, r in list(w.mem.items()):
                if r.kind == 'alloca':
                    r = r.clone()
                    r.handler = Dead()
                    w.mem[r_] = r
            ec = eng.new_region(w, 'error', 24, 'obj')
            f = z3.Bool(eng.fresh_name('failed'))
            eng.gset(w, ec, 'failed', f)
            if kind == 'accept':
                user(w, open=True)
            if kind == 'read':
                user(w, bytes=eng.iv_fresh(w, 64, eng.fresh_name('bytes')).t)
                w.add(z3.And(zval(w.user['bytes']) >= 0, zval(w.user['bytes']) < (1 << 40)))
            if kind == 'wait':
                user(w, now=eng.iv_sfresh(w, 64, eng.fresh_name('clock')), expiry=eng.iv_sfresh(w, 64, eng.fresh_name('expiry')))
            args = [lam, ec] + [eng.iv_fresh(w, 64, eng.fresh_name('transferred')) for _ in fn.params[2:]]
            for s, r in eng.call_function(fn, w, args[:len(fn.params)]):
                self.after(eng, s, kind, f)
                self.handlers(eng, s, depth + 1)

    def after(self, eng, s, kind, failed):
        """whatever the outcome of an operation, the worker goes on"""
        p = s.user['pending']
        if kind == 'wait':
            eng.oblige(s, 'ensures the timer is awaited again', sum(k == 'wait' for k, *_ in p) == 1)
            return
        eng.oblige(s, 'ensures the worker has its next operation under way after one of kind %s, whatever the outcome' % kind,
                   sum(k in KINDS for k, *_ in p) == 1)
        k = [k for k, *_ in p if k in KINDS]
        good = {'accept': 'read', 'read': 'write', 'write': 'accept'}[kind]
        if k:
            eng.oblige(s, 'ensures after %s the next is %s if it succeeded, and another connection is accepted if it failed' % (kind, good),
                       z3.If(failed, z3.BoolVal(k[0] == 'accept'), z3.BoolVal(k[0] == good)))


class Accept(Worker):
    title = 'HttpWorker::accept and its handler'
    names = (('accept', 'accept'), ('readRequest', 'read'))

    def run(self, eng):
        st = self.state(eng)
        for s, r in eng.call_function(self.method(eng, 'accept'), st, [self.self]):
            eng.oblige(s, 'ensures a connection is being accepted', [k for k, *_ in s.user['pending']] == ['accept'])
            self.handlers(eng, s)


class Read(Worker):
    title = 'HttpWorker::readRequest and its handler'
    names = (('accept', 'accept'), ('processRequest', 'write'), ('readRequest', 'read'))

    def run(self, eng):
        st = self.state(eng)
        st.add(zb(st.user['timed']))
        for s, r in eng.call_function(self.method(eng, 'readRequest'), st, [self.self]):
            eng.oblige(s, 'ensures a request is being read', [k for k, *_ in s.user['pending']] == ['read'])
            self.handlers(eng, s)


class Process(Worker):
    title = 'HttpWorker::processRequest, sendResponse, sendBadResponse and their handlers'
    names = (('accept', 'accept'),)
    logging = False

    def run(self, eng):
        st = self.state(eng)
        if self.logging:
            eng.put(st, self.log.r, self.log.off, 8, obj(eng, st, 'log', 64))
        else:
            eng.put(st, self.log.r, self.log.off, 8, NULL)
        for s, r in eng.call_function(self.method(eng, 'processRequest'), st, [self.self, self.req]):
            eng.oblige(s, 'ensures one response is sent', len(s.user['sent']) == 1 and [k for k, *_ in s.user['pending']] == ['write'])
            if len(s.user['sent']) == 1:
                self.answer(eng, s, *s.user['sent'][0])
            self.handlers(eng, s)

    def answer(self, eng, s, status, ctype, body):
        get = zval(self.verb.t) == const(eng, 'vt_get')
        at = lambda t: zb(sv_eq(eng, s, self.pathsv, SV(list(self.basesv.parts) + [t])))
        lookup = z3.And(get, at(b'/lookup'), self.has)
        info = z3.And(get, at(b'/info'))
        status = -1 if status is None else status
        eng.oblige(s, 'ensures a request other than GET is answered with status 400', z3.Implies(z3.Not(get), zval(status) == const(eng, 'vt_bad_request')))
        eng.oblige(s, 'ensures a GET request for another path is answered with status 404', z3.Implies(z3.And(get, z3.Not(z3.Or(lookup, info))), zval(status) == const(eng, 'vt_not_found')))
        for name, c in (('lookup', lookup), ('info', info)):
            if eng.valid(s, z3.Not(c)):
                continue
            eng.oblige(s, 'ensures a GET request for the %s path is answered with status 200' % name, z3.Implies(c, zval(status) == const(eng, 'vt_ok')))
            o, known = read_json(body)
            good = o is not None
            if not eng.valid(s, z3.Implies(c, zval(status) == const(eng, 'vt_ok'))):
                continue
            eng.oblige(s, 'ensures the answer to a GET request for the %s path is a JSON object' % name, z3.Implies(c, z3.BoolVal(good and ctype == b'application/json')))
            if not good:
                continue
            num = lambda k: known.get(o.get(k)) if isinstance(o.get(k), int) and not isinstance(o.get(k), bool) else None
            if name == 'lookup':
                h = known.get(o.get('hash')) if isinstance(o.get('hash'), str) else None
                n = num('found')
                hu, hl = spelled(s, self.param)
                ok = hexed(s, self.param)
                eng.oblige(s, 'ensures the answer names the hash asked for',
                           z3.Implies(z3.And(c, ok), z3.And(h[0].arg(0) == hu, h[0].arg(1) == hl)) if h else z3.Not(c))
                want = num_text(eng, s, stored(s, hu, hl), 10, 0, 0, False)
                eng.oblige(s, 'ensures the answer contains the count stored for the hash asked for',
                           z3.Implies(z3.And(c, ok), n[0] == want.parts[0][0]) if n else z3.Not(c))
            else:
                n = num('count')
                want = num_text(eng, s, self.records, 10, 0, 0, False)
                eng.oblige(s, 'ensures the answer contains the number of records', z3.Implies(c, n[0] == want.parts[0][0]) if n else z3.Not(c))


def hexed(st, sv):
    from irv import rx
    return z3.And(zval(sv.length()) == 32, rx.all_in(st, sv, rx.HEX))


class ProcessLogging(Process):
    title = Process.title + ', with a log function'
    logging = True


class Timeout(Worker):
    title = 'HttpWorker::checkTimeout and its handler'
    names = (('checkTimeout', 'wait'),)

    def run(self, eng):
        st = self.state(eng)
        late = zval(st.user['expiry'].t) <= zval(st.user['now'].t)
        for s, r in eng.call_function(self.method(eng, 'checkTimeout'), st, [self.self]):
            eng.oblige(s, 'ensures the timer is awaited', [k for k, *_ in s.user['pending']] == ['wait'])
            eng.oblige(s, 'ensures a connection that takes too long is closed, no other', late == z3.BoolVal(s.user['closed']))
            eng.oblige(s, 'ensures the timer is awaited for a time to come', zb(s.user['timed']) if not z3.is_false(z3.simplify(zb(s.user['timed'])))
                       and not isinstance(s.user['expiry'], IV) else zval(eng.as_s(s, s.user['expiry'])) > zval(s.user['now'].t))
            self.handlers(eng, s)


class Construct(Worker):
    """establishes what the other units start from"""
    title = 'HttpWorker::HttpWorker'

    def __init__(self):
        self.contracts = [Open()]

    def run(self, eng):
        st = self.state(eng)
        st.mem[self.self.r].cells.clear()
        for o in (self.socket, self.timer):
            eng.gset(st, o, 'exec', None)
        for k in [k for k in st.ghost if k[0] == self.self.r]:
            del st.ghost[k]
        user(st, expiry=None, strands=0, files=None, written=None)
        args = [obj(eng, st, n, 32) for n in ('base_path', 'input', 'index')]
        texts_ = [SV.const(st, n) for n in ('base_path', 'input', 'index')]
        for x, t in zip(args, texts_):
            setstr(eng, st, x, t)
        log = obj(eng, st, 'log', 64)
        f = [f for n, f in eng.mod.functions.items() if not f.decl and eng.dem(n).startswith('webservice::HttpWorker::HttpWorker(')]
        if not f:
            raise Unsupported('constructor not found')
        for s, r in eng.call_function(f[0], st, [self.self, self.acceptor] + args + [log]):
            e = [eng.gget(s, x, 'exec') for x in (self.socket, self.timer)]
            eng.oblige(s, 'ensures the socket and the timer of a worker use the same strand', e[0] == 'strand' and e[1] == 'strand')
            x = s.user['expiry']
            eng.oblige(s, 'ensures the time is not limited before a connection is accepted', False if x is None else zval(eng.as_s(s, x)) == (1 << 63) - 1)
            eng.oblige(s, 'ensures the acceptor is the one given', same(eng.load(s, self.self, ('ptr',)), self.acceptor))
            eng.oblige(s, 'ensures the path is the one given', sv_same(eng, s, getstr(eng, s, self.base), texts_[0]))
            g = s.user['files']
            eng.oblige(s, 'ensures the inspector reads the files given', g is not None and same(g[0], self.inspector)
                       and sv_same(eng, s, g[1], texts_[1]) and sv_same(eng, s, g[2], texts_[2]))
            eng.oblige(s, 'ensures the log function is the one given', same(eng.load(s, self.log, ('ptr',)), log))
            w = s.user['written']
            eng.oblige(s, 'ensures the time of the last update is that of the file', w is not None and sv_same(eng, s, w[0], texts_[1])
                       and eng.valid(s, zval(eng.as_s(s, eng.load(s, self.updated, ('i', 64)))) == zval(w[1].t)))


class Start(Worker):
    title = 'HttpWorker::start'
    names = (('checkTimeout', 'wait'), ('accept', 'accept'))

    def run(self, eng):
        st = self.state(eng)
        for s, r in eng.call_function(self.method(eng, 'start'), st, [self.self]):
            eng.oblige(s, 'ensures a connection is being accepted and the timer awaited', sorted(k for k, *_ in s.user['pending']) == ['accept', 'wait'])


def units(tier):
    return [Construct(), Start(), Accept(), Read(), Process(), ProcessLogging(), Timeout()]
