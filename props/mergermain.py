"""main of the merger: the passes over the input files, over the contracts of MergeOperation (merger.py) and OperationQueue (queue.py).

A list of files is described by prefix totals: PT(v, o) is, for one fixed arbitrary hash, the sum of its counts over the files in the
first o bytes of the list in its version v."""
import re
from .common import *
from . import merger
from irv import po
from irv.lib import sv_same
from irv.engine import *

PT = z3.Function('PT', z3.IntSort(), z3.IntSort(), z3.IntSort())
NAME = z3.Function('NAME', z3.IntSort(), z3.IntSort(), S)       # element of a list of names
ALLIN = z3.Function('ALLIN', z3.IntSort(), z3.BoolSort())       # only names of inputs
ALLMID = z3.Function('ALLMID', z3.IntSort(), z3.BoolSort())     # only names of intermediate files
ISIN = z3.Function('ISIN', S, z3.BoolSort())
ISMID = z3.Function('ISMID', S, z3.BoolSort())
C0 = z3.Function('C0', S, z3.IntSort())                         # count of the hash in an input file
GIVEN, DIRTOTAL = z3.Int('GIVEN'), z3.Int('DIRTOTAL')


class Elements:
    """storage of a vector: the elements themselves are described by the version"""

    def __init__(self, owner, stride, names):
        self.owner, self.stride, self.n, self.names = owner, stride, z3.Int('n_' + owner), names

    def load(self, eng, st, r, off, ty, line):
        raise Unsupported('element of a list read directly')

    def store(self, eng, st, r, off, ty, v, line):
        raise Unsupported('element of a list written directly')

    def get_str(self, eng, st, p):
        if not self.names:
            raise Unsupported('text of an element')
        v = zval(eng.cur.ver(st, self.owner))
        last = eng.cur.last(eng, st, self.owner)
        o = zval(p.off)
        eng.oblige(st, 'access inside the list of names', z3.And(o >= 0, o < last, o % self.stride == 0))
        t = NAME(v, o)
        st.add(z3.And(slen(t) >= 0, slen(t) < (1 << 62)))
        st.add(z3.Implies(ALLIN(v), z3.And(ISIN(t), z3.Not(ISMID(t)), C0(t) == PT(v, o + self.stride) - PT(v, o))))
        st.add(z3.Implies(ALLMID(v), z3.And(ISMID(t), z3.Not(ISIN(t)), t != DST)))
        st.add(z3.Implies(ISIN(t), t != DST))
        return SV.base(t)


DST = z3.Const('dstFile', S)
FILEVEC = r'std::vector<merger::InputFile, std::allocator<merger::InputFile> >::'
NAMEVEC = r'std::vector<std::string, std::allocator<std::string ?> ?>::'


def key(p):
    return 'list%d_%d' % (p.r, p.off)


def u_at(st, k):
    return st.ghost.get((None, 'list', k + '.at'))


def vec_make(eng, st, p, names, line=None):
    """the vector at p becomes a list in a new version, of length 0"""
    u = eng.cur
    k = key(p)
    u.lists[k] = (p, names)
    r = st.ghost.get((None, 'list', k + '.at'))
    if r is None or r not in st.mem:
        r = eng.new_region(st, k, None, 'seq', handler=Elements(k, 32 if names else const(eng, 'vt_file_size'), names)).r
        st.ghost[(None, 'list', k + '.at')] = r
    v = new_version(eng, st, k)
    for o in (0, 8, 16):
        eng.store(st, PV(p.r, p.off + o), ('ptr',), PV(r, 0), line)
    st.add(z3.And(PT(v, 0) == 0, ALLIN(v), ALLMID(v)))
    return v


def new_version(eng, st, k):
    v = z3.Int(eng.fresh_name('ver'))
    st.ghost[(None, 'list', k)] = v
    eng.log(('ghost', (None, 'list', k)))
    return v


def the_list(eng, st, p):
    k = key(p)
    if k not in eng.cur.lists:
        raise Unsupported('unknown list')
    return k


def m_vec_new(eng, st, a, I, line, d):
    vec_make(eng, st, a[0], 'InputFile' not in d)
    if 'InputFile' in d:
        eng.cur.gset(eng, st, 'begun', True)
    return (None,)


def m_vec_drop(eng, st, a, I, line, d):
    u, k = eng.cur, key(a[0])
    if k in u.lists and u.lists[k][1]:
        if k == u.names_key(st):
            u.gset(eng, st, 'nofiles', u.nothing(eng, st))
    else:
        st.ghost.pop((None, 'list', k), None)
    return (None,)


def grow(eng, st, p, n, line):
    k = the_list(eng, st, p)
    lo = eng.cur.last(eng, st, k)
    hi = simp(z3.simplify(lo + n))
    eng.store(st, PV(p.r, p.off + 8), ('ptr',), PV(u_at(st, k), hi), line)
    return lo, zval(hi)


def m_vec_push(eng, st, a, I, line, d):
    u = eng.cur
    p = a[0]
    k = the_list(eng, st, p)
    v0 = zval(u.ver(st, k))
    names = u.lists[k][1]
    if names or 'emplace_back<std::string' in d or 'emplace_back<boost::filesystem::path' in d:
        sv = getstr(eng, st, a[1])
    else:
        sv = u.file(eng, st, a[1])
    t = sv.term()
    u.classify(eng, st, sv)
    lo, hi = grow(eng, st, p, 32 if names else const(eng, 'vt_file_size'), line)
    v = new_version(eng, st, k)
    st.add(z3.And(PT(v, 0) == 0, PT(v, lo) == PT(v0, lo), PT(v, hi) == PT(v, lo) + u.content(st, t)))
    st.add(z3.And(ALLIN(v) == z3.And(ALLIN(v0), ISIN(t)), ALLMID(v) == z3.And(ALLMID(v0), ISMID(t))))
    if not names:
        eng.oblige(st, 'ensures only files that exist are put into the list', z3.Or(ISIN(t), u.written(st, t)), line)
        u.gset(eng, st, 'dstlisted', Or(u.g(st, 'dstlisted'), t == DST))
    return (PV(u_at(st, k), simp(lo)),)


def span(eng, st, first, last):
    h = st.mem[first.r].handler if first.r in st.mem else None
    if not isinstance(h, Elements) or last.r != first.r:
        raise Unsupported('range of files')
    return h.owner, zval(first.off), zval(last.off)


def m_vec_range(eng, st, a, I, line, d):
    """construction from a part of a list"""
    u = eng.cur
    p, first, last = a[0], u.ptr(eng, st, a[1]), u.ptr(eng, st, a[2])
    k, lo, hi = span(eng, st, first, last)
    eng.oblige(st, 'a part of the list', z3.And(0 <= lo, lo <= hi, hi <= u.last(eng, st, k)), line)
    v0 = zval(u.ver(st, k))
    v = vec_make(eng, st, p, False)
    l0, h1 = grow(eng, st, p, hi - lo, line)
    st.add(z3.And(PT(v, h1) == PT(v0, hi) - PT(v0, lo)))
    return (None,)


def m_vec_move(eng, st, a, I, line, d):
    """assignment; the source is given up (or, if it is copied, stays)"""
    u = eng.cur
    k, s = the_list(eng, st, a[0]), the_list(eng, st, a[1])
    if k != s:
        n = u.last(eng, st, s)
        eng.store(st, PV(a[0].r, a[0].off + 8), ('ptr',), PV(u_at(st, k), simp(n)), line)
        st.ghost[(None, 'list', k)] = st.ghost[(None, 'list', s)]
        eng.log(('ghost', (None, 'list', k)))
        if d.endswith('&&)'):
            eng.store(st, PV(a[1].r, a[1].off + 8), ('ptr',), PV(u_at(st, s), 0), line)
            v = new_version(eng, st, s)
            st.add(PT(v, 0) == 0)
    return (a[0],)


def m_vec_copy(eng, st, a, I, line, d):
    u = eng.cur
    s = the_list(eng, st, a[1])
    vec_make(eng, st, a[0], u.lists[s][1])
    m_vec_move(eng, st, a, I, line, '')
    return (None,)


def m_vec_erase(eng, st, a, I, line, d):
    """a leading part is removed"""
    u = eng.cur
    p, first, last = a[0], u.ptr(eng, st, a[1]), u.ptr(eng, st, a[2])
    k, lo, hi = span(eng, st, first, last)
    end = u.last(eng, st, k)
    if k != the_list(eng, st, p) or not eng.valid(st, lo == 0):
        raise Unsupported('erasing something else than the first files')
    eng.oblige(st, 'a part of the list', z3.And(lo <= hi, hi <= end), line)
    v0 = zval(u.ver(st, k))
    eng.store(st, PV(p.r, p.off + 8), ('ptr',), PV(u_at(st, k), simp(z3.simplify(end - hi))), line)
    v = new_version(eng, st, k)
    st.add(z3.And(PT(v, 0) == 0, PT(v, end - hi) == PT(v0, end) - PT(v0, hi)))
    return (PV(u_at(st, k), 0),)


def m_sort(eng, st, a, I, line, d):
    u = eng.cur
    k, lo, hi = span(eng, st, u.ptr(eng, st, a[0]), u.ptr(eng, st, a[1]))
    end = u.last(eng, st, k)
    if not eng.valid(st, z3.And(lo == 0, hi == end)):
        raise Unsupported('sorting a part of the list')
    v0 = zval(u.ver(st, k))
    v = new_version(eng, st, k)
    st.add(z3.And(PT(v, 0) == 0, PT(v, end) == PT(v0, end), ALLIN(v) == ALLIN(v0), ALLMID(v) == ALLMID(v0)))
    return (None,)


def m_accumulate(eng, st, a, I, line, d):
    return (eng.iv_fresh(st, 64, eng.fresh_name('size')),)


def m_path(eng, st, a, I, line, d):
    setstr(eng, st, a[0], getstr(eng, st, a[1]))
    return (a[0],) if 'operator=' in d else (None,)


def m_path_c(eng, st, a, I, line, d):
    setstr(eng, st, a[0], lib.cstr(eng, st, a[1]))
    return (a[0],) if 'operator=' in d else (None,)


def m_append(eng, st, a, I, line, d):
    """a path below a[0]"""
    if len(a) == 2:
        t = getstr(eng, st, a[1])
    elif len(a) == 3 and a[1].r in st.mem and isinstance(a[1], PV):
        h = st.mem[a[1].r].handler
        if isinstance(h, lib.StrData):
            t = getstr(eng, st, h.owner)
        else:
            t = lib.cstr(eng, st, a[1])
    else:
        raise Unsupported('path append')
    setstr(eng, st, a[0], SV(list(getstr(eng, st, a[0]).parts) + [b'/'] + list(t.parts)))
    return (a[0],)


def m_strlen(eng, st, a, I, line, d):
    return (lib.len_iv(st, lib.cstr(eng, st, a[0]).length()),)


def m_unique(eng, st, a, I, line, d):
    """a name no file has"""
    u = eng.cur
    t = z3.Const(eng.fresh_name('unique'), S)
    st.add(z3.And(slen(t) >= 0, slen(t) < (1 << 62)))
    u.uniq[t.decl().name()] = u.g(st, 'ops')
    setstr(eng, st, a[0], SV.base(t))
    return (None,)


def m_temp(eng, st, a, I, line, d):
    setstr(eng, st, a[0], SV.const(st, 'systemp'))
    return (None,)


def m_inputfile(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'file', Box(getstr(eng, st, a[1])))
    return (None,)


def m_inputfile_copy(eng, st, a, I, line, d):
    eng.gset(st, a[0], 'file', Box(eng.cur.file(eng, st, a[1])))
    return (None,)


def m_op(eng, st, a, I, line, d):
    u = eng.cur
    k = the_list(eng, st, a[1])
    rm = a[3].b if isinstance(a[3], BoolV) else Not(Eq(eng.as_u(st, a[3]), 0))
    eng.gset(st, a[0], 'merge', Box((PT(zval(u.ver(st, k)), u.last(eng, st, k)), getstr(eng, st, a[2]), rm)))
    return (None,)


def m_add(eng, st, a, I, line, d):
    b = eng.gget(st, a[1], 'merge')
    if b is None:
        raise Unsupported('operation added')
    c = dict(st.user['carry'])
    if c['started']:
        raise Unsupported('an operation added while others run')
    c['queue'] += (b.v,)
    st.user['carry'] = c
    return (None,)


def m_execute(eng, st, a, I, line, d):
    st.user['carry'] = dict(st.user['carry'], started=True)
    return (None,)


def m_wait(eng, st, a, I, line, d):
    """all operations added have been carried out, or the run is cancelled"""
    u = eng.cur
    c = st.user['carry']
    if not c['queue']:
        return (None,)
    if not c['started']:
        raise Unsupported('waiting without starting')
    out = []
    for s, canc in eng.fork(st, z3.Or(zb(u.g(st, 'canc')), z3.Bool(eng.fresh_name('cancelled')))):
        if canc:
            u.gset(eng, s, 'canc', True)
        for total, sv, rm in c['queue']:
            u.merge(eng, s, total, sv, rm, canc, line)
        s.user['carry'] = dict(c, queue=(), started=False)
        out.append((s, None))
    return out


def m_cancelled(eng, st, a, I, line, d):
    u = eng.cur
    out = []
    for s, canc in eng.fork(st, z3.Or(zb(u.g(st, 'canc')), z3.Bool(eng.fresh_name('cancelled')))):
        if canc:
            u.gset(eng, s, 'canc', True)
        out.append((s, BoolV(canc)))
    return out


def m_remove(eng, st, a, I, line, d):
    u = eng.cur
    t = getstr(eng, st, a[0])
    u.classify(eng, st, t)
    t = t.term()
    eng.oblige(st, 'ensures only intermediate files are removed', ISMID(t), line)
    if not eng.valid(st, z3.Or(zb(u.g(st, 'canc')), *[u.last(eng, st, k) == 0 for k in u.pending(st)])):
        raise Unsupported('a file removed before the last pass')
    return (BoolV(z3.Bool(eng.fresh_name('removed'))),)


# ---- scanning a directory
def m_dir_ctor(eng, st, a, I, line, d):
    u = eng.cur
    if '(boost::filesystem::path const&' in d:
        eng.oblige(st, 'ensures the directory given is scanned', sv_same(eng, st, getstr(eng, st, a[1]), u.srcname), line)
    return (None,)


def m_dir_iter(eng, st, a, I, line, d):
    return (a[0],)


def m_dir_ne(eng, st, a, I, line, d):
    u = eng.cur
    k = zval(u.g(st, 'entry'))
    ne = k < z3.Int('ENTRIES')
    return (BoolV(ne if 'operator!=' in d else z3.Not(ne)),)


def m_dir_deref(eng, st, a, I, line, d):
    u = eng.cur
    k = zval(u.g(st, 'entry'))
    eng.oblige(st, 'an entry of the directory', k < z3.Int('ENTRIES'), line)
    p = eng.new_region(st, 'entry', 64, 'obj', lazy=True)
    t = ENTRY(k)
    st.add(z3.And(slen(t) >= 0, slen(t) < (1 << 62), ISIN(t) == LISTED(k), z3.Not(ISMID(t)), z3.Implies(ISIN(t), t != DST), C0(t) >= 0))
    eng.gset(st, p, 'entry', Box(k))
    return (p,)


ENTRY = z3.Function('ENTRY', z3.IntSort(), S)
LISTED = z3.Function('LISTED', z3.IntSort(), z3.BoolSort())     # regular file whose name has the extension
EXT = z3.Function('EXT', S, z3.BoolSort())
REGULAR = z3.Function('REGULAR', S, z3.BoolSort())


def m_entry_path(eng, st, a, I, line, d):
    k = eng.gget(st, a[0], 'entry')
    if k is None:
        raise Unsupported('path of an entry')
    p = eng.new_region(st, 'entrypath', 32, 'obj', lazy=True)
    setstr(eng, st, p, SV.base(ENTRY(k.v)))
    st.add(LISTED(k.v) == z3.And(EXT(ENTRY(k.v)), REGULAR(ENTRY(k.v))))
    return (p,)


def m_entry_regular(eng, st, a, I, line, d):
    k = eng.gget(st, a[0], 'entry')
    if k is not None:
        return (BoolV(REGULAR(ENTRY(k.v))),)
    return (BoolV(REGULAR(getstr(eng, st, a[0]).term())),)


def m_ends(eng, st, a, I, line, d):
    s = lib.cstr(eng, st, a[1]) if re.search(r'char (const )?\[\d+\]|char const\*', d) else getstr(eng, st, a[1])
    eng.oblige(st, 'ensures files with the extension %s are taken' % eng.cur.suffix.decode(), s.is_lit() == eng.cur.suffix, line)
    return (BoolV(EXT(getstr(eng, st, a[0]).term())),)


def m_fsize(eng, st, a, I, line, d):
    t = getstr(eng, st, a[0]).term()
    v = eng.iv_fresh(st, 64, eng.fresh_name('fsize'))
    # records are in it only if it is not empty
    st.add(z3.Implies(v.t == 0, C0(t) == 0))
    return (v,)


def m_dir_inc(eng, st, a, I, line, d):
    u = eng.cur
    k = zval(u.g(st, 'entry'))
    t = ENTRY(k)
    u.gset(eng, st, 'dirtotal', simp(zval(u.g(st, 'dirtotal')) + z3.If(LISTED(k), C0(t), 0)))
    u.gset(eng, st, 'entry', simp(k + 1))
    return (a[0],)


def m_exists(eng, st, a, I, line, d):
    return (BoolV(z3.Bool(eng.fresh_name('exists'))),)


def m_fresh_int(eng, st, a, I, line, d):
    return (eng.iv_sfresh(st, 32, eng.fresh_name('errorcode')),)


def m_getchar(eng, st, a, I, line, d):
    eng.put(st, a[1].r, a[1].off, 1, eng.iv_fresh(st, 8, eng.fresh_name('answer')))
    return (a[0],)


def m_span(eng, st, a, I, line, d):
    return (eng.iv_sfresh(st, 64, eng.fresh_name('span')),)


def m_new(eng, st, a, I, line, d):
    return (eng.new_region(st, 'op', 256, 'obj', lazy=True),)


def m_same(eng, st, a, I, line, d):
    return (a[0],)


def m_fresh_float(eng, st, a, I, line, d):
    return (FV(z3.Const(eng.fresh_name('f'), FSORT), 'float'),)


DIR = r'boost::filesystem::recursive_directory_iterator'
FACADE = r'.*boost::iterators::detail::iterator_facade_base<' + DIR
FILES = [
    (r'strlen$', m_strlen),
    (NAMEVEC + r'vector\(\)$|' + FILEVEC + r'vector\(\)$', m_vec_new),
    (r'.*' + FILEVEC + r'vector<__gnu_cxx::__normal_iterator', m_vec_range),
    (FILEVEC + r'vector\(std::vector', m_vec_copy),
    (FILEVEC + r'operator=\(', m_vec_move),
    (FILEVEC + r'erase\(__gnu_cxx::__normal_iterator<merger::InputFile const\*.*, __gnu', m_vec_erase),
    (r'(.* )?(' + FILEVEC + '|' + NAMEVEC + r')push_back\(', m_vec_push),
    (r'(.* )?(' + NAMEVEC + r')emplace_back<std::string( const)?&?>\(', m_vec_push),
    (r'(.* )?(' + FILEVEC + r')emplace_back<(std::string|boost::filesystem::path|merger::InputFile)( const)?&?>\(', m_vec_push),
    (r'(' + FILEVEC + '|' + NAMEVEC + r')reserve\(', lib.m_void), (r'(' + FILEVEC + '|' + NAMEVEC + r')~vector\(', m_vec_drop),
    (r'void std::(stable_)?sort<__gnu_cxx::__normal_iterator<merger::InputFile\*', m_sort),
    (r'unsigned long( long)? std::accumulate<', m_accumulate),
    (r'boost::filesystem::path::(path|operator=)\((boost::filesystem::path|std::string)( const)?&&?\)$', m_path),
    (r'boost::filesystem::path::(path|operator=)\(char const\*\)$', m_path_c),
    (r'boost::filesystem::.*append_v[0-9]\(', m_append),
    (r'boost::filesystem::(detail::)?unique_path\(', m_unique),
    (r'boost::filesystem::(detail::)?temp_directory_path\(', m_temp),
    (r'boost::filesystem::(detail::)?remove\(', m_remove),
    (r'boost::filesystem::(detail::)?exists\(', m_exists),
    (r'boost::filesystem::(detail::)?create_director(y|ies)\(', m_exists),
    (r'boost::filesystem::(detail::)?is_regular_file\(', m_entry_regular),
    (r'boost::filesystem::(detail::)?file_size\(', m_fsize),
    (DIR + r'::' + r'recursive_directory_iterator\(', m_dir_ctor), (DIR + r'::~', lib.m_void),
    (r'boost::filesystem::(begin|end)\(' + DIR, m_dir_iter),
    (r'.*boost::iterators::operator(!=|==) ?<' + DIR, m_dir_ne), (r'.*enable_if_interoperable<' + DIR, m_dir_ne),
    (FACADE + r'.*::operator\*\(\) const$', m_dir_deref), (FACADE + r'.*::operator\+\+\(\)$', m_dir_inc),
    (r'boost::filesystem::directory_entry::path\(\) const$', m_entry_path),
    (r'bool boost::algorithm::ends_with<', m_ends),
    (r'boost::system::error_code::value\(\) const$', m_fresh_int), (r'boost::system::error_code::error_code\(\)$', lib.m_void),
    (r'std::istream& std::operator>> ?<char, std::char_traits<char> ?>\(std::istream&, char&\)$', m_getchar),
    (r'merger::InputFile::InputFile\(boost::filesystem::path const&\)$', m_inputfile),
    (r'merger::InputFile::InputFile\(merger::InputFile const&\)$', m_inputfile_copy),
    (r'merger::InputFile::~InputFile\(\)$', lib.m_void),
    (r'merger::MergeOperation::MergeOperation\(', m_op),
    (r'pwned::OperationQueue<.*>::(OperationQueue|~OperationQueue)\(', lib.m_void),
    (r'pwned::OperationQueue<.*>::add\(', m_add), (r'pwned::OperationQueue<.*>::execute\(', m_execute),
    (r'pwned::OperationQueue<.*>::waitForFinished\(', m_wait), (r'pwned::OperationQueue<.*>::isCancelled\(', m_cancelled),
    (r'std::thread pwned::runAsync<', lib.m_void), (r'std::thread::(detach|~thread|join)\(\)$', lib.m_void),
    (r'ProgressBar::(ProgressBar|~ProgressBar|setHi)\(', lib.m_void),
    (r'operator new\(unsigned long\)$', m_new), (r'(usage|hello|info|warranty)\(\)$', lib.m_void),
    (r'std::enable_if<.*> std::chrono::duration_cast<', lib.m_void), (r'.*std::chrono::operator-<', m_span),
    (r'std::chrono::duration<float, .*>::count\(\) const$', m_fresh_float),
    (r'boost::filesystem::path::~path\(\)$', lib.m_void),
]


class Main(Unit):
    """the merger's main: the files given, and those found, are merged into the output file"""
    tu = 'mergermain.cpp'
    lib = po.MODELS + FILES + merger.MODELS
    budget = 250
    suffix = b'.md5'
    what = 'main of the merger, input files'

    def __init__(self, src, files):
        self.src, self.files = src, files
        self.title = '%s given%s' % (self.what, ' by name and by directory' if src and files else ' by directory' if src else ' by name')
        self.candgens = (self.cands, seq_cands)

    # ---- ghost state
    def g(self, st, f):
        return st.ghost[(None, 'main', f)]

    def gset(self, eng, st, f, v):
        st.ghost[(None, 'main', f)] = v
        eng.log(('ghost', (None, 'main', f)))

    def ver(self, st, k):
        return st.ghost[(None, 'list', k)]

    def last(self, eng, st, k):
        p, _ = self.lists[k]
        x = eng.load(st, PV(p.r, p.off + 8), ('ptr',))
        if not isinstance(x, PV) or x.r != u_at(st, k):
            raise Unsupported('end of a list')
        return zval(x.off)

    def pending(self, st):
        """the lists of files made so far"""
        return [k for k, (p, names) in self.lists.items() if not names and (None, 'list', k) in st.ghost and p.r in st.mem]

    def ptr(self, eng, st, v):
        if isinstance(v, PV) and v.r in st.mem and not isinstance(st.mem[v.r].handler, Elements):
            return eng.load(st, v, ('ptr',))
        return v

    def file(self, eng, st, p):
        b = eng.gget(st, p, 'file')
        if b is None:
            raise Unsupported('an input file')
        return b.v

    def classify(self, eng, st, sv):
        t = sv.term()
        for p in sv.parts:
            if isinstance(p, tuple) and isinstance(p[0], z3.ExprRef) and p[0].decl().name() in self.uniq:
                st.add(z3.And(ISMID(t), z3.Not(ISIN(t)), t != DST))

    def content(self, st, t):
        return z3.If(ISIN(t), C0(t), z3.Select(self.g(st, 'cont'), t))

    def written(self, st, t):
        return z3.Select(self.g(st, 'done'), t)

    def merge(self, eng, st, total, sv, rm, canc, line):
        """MergeOperation::execute (merger.py): the destination gets the total, unless cancelled"""
        t = sv.term()
        self.classify(eng, st, sv)
        eng.oblige(st, 'ensures the inputs are not removed', Not(rm), line)
        eng.oblige(st, 'ensures the inputs are not overwritten', z3.Not(ISIN(t)), line)
        fresh = any(isinstance(p, tuple) and isinstance(p[0], z3.ExprRef) and p[0].decl().name() in self.uniq
                    and eng.valid(st, zval(self.uniq[p[0].decl().name()]) == zval(self.g(st, 'ops'))) for p in sv.parts)
        if not fresh:
            if not eng.valid(st, t == DST):
                raise Unsupported('output of a pass neither new nor the one given')
            eng.oblige(st, 'ensures the output is not among the inputs of a pass', Not(self.g(st, 'dstlisted')), line)
        self.gset(eng, st, 'ops', simp(zval(self.g(st, 'ops')) + 1))
        self.gset(eng, st, 'cont', z3.Store(self.g(st, 'cont'), t, z3.Int(eng.fresh_name('partial')) if canc else total))
        self.gset(eng, st, 'done', z3.Store(self.g(st, 'done'), t, z3.BoolVal(not canc)))

    def option(self, eng, st, nm):
        return {'src': self.srcname if self.src else None, 'input': True if self.files else None, 'output': SV.base(DST), 'tmp': None,
                'max-files-at-once': IV(32, self.atonce), 'ext': self.extname}.get(nm)

    def option_vector(self, eng, st, nm, p, v, line):
        k = the_list(eng, st, p)
        n = z3.Int('given_files')
        lo, hi = grow(eng, st, p, 32 * n, line)
        v = new_version(eng, st, k)
        st.add(z3.And(n >= 1, n < 1 << 50, PT(v, 0) == 0, ALLIN(v), PT(v, hi) == GIVEN))

    def variants(self, eng, head):
        """a pass makes the list of files shorter, unless the run is cancelled; a step of the scan takes an entry"""
        out = []
        for k in self.pending(head):
            try:
                m = lambda s, k=k: z3.If(zb(self.g(s, 'canc')), 0, 1 + self.last(eng, s, k))
                out.append(('down', m, m(head)))
            except Unsupported:
                pass
        for rid, r in list(head.mem.items()):
            for off, (n, v) in r.cells.items():
                if isinstance(v, PV) and not isinstance(v.off, int) and v.r in head.mem and isinstance(head.mem[v.r].handler, Elements):
                    o = head.mem[v.r].handler.owner
                    m = lambda s, rid=rid, off=off, o=o: self.last(eng, s, o) - zval(s.mem[rid].cells[off][1].off)
                    out.append(('position', m, m(head)))
                if isinstance(v, IV) and v.w >= 32 and self.lists:
                    m = lambda s, rid=rid, off=off: self.last(eng, s, self.names_key(s)) - 32 * zval(s.mem[rid].cells[off][1].t)
                    out.append(('index', m, m(head)))
        m = lambda s: z3.Int('ENTRIES') - zval(self.g(s, 'entry'))
        out.append(('entries', m, m(head)))
        return out

    kept_positions = False

    def pos_cands(self, o, pos, guard):
        return []

    def more_cands(self, ctx, lists, at, guard, total):
        return []

    def cands(self, ctx):
        eng = ctx.eng
        out = []
        st = ctx.st0
        total = lambda s: GIVENTOTAL(self) + zval(self.g(s, 'dirtotal'))
        lists = [(k, names) for k, (p, names) in self.lists.items() if (None, 'list', k) in st.ghost and p.r in st.mem]
        at = lambda s, k: PT(zval(self.ver(s, k)), self.last(eng, s, k))

        def guard(f):
            def g(s):
                try:
                    return f(s)
                except (Unsupported, KeyError):
                    raise Missing()
            return g
        for k, names in lists:
            out.append(('%s: total complete' % k, guard(lambda s, k=k: at(s, k) == total(s))))
            out.append(('%s: total complete unless all is written' % k,
                        guard(lambda s, k=k: z3.Or(zb(self.g(s, 'canc')), self.last(eng, s, k) == 0, at(s, k) == total(s)))))
            out.append(('%s: all is written if empty' % k, guard(lambda s, k=k: z3.Or(zb(self.g(s, 'canc')), self.last(eng, s, k) > 0,
                                                                                     self.final(s, total(s)), self.nothing(eng, s)))))
            out.append(('%s: only inputs' % k, guard(lambda s, k=k: ALLIN(zval(self.ver(s, k))))))
            out.append(('%s: only intermediate files' % k, guard(lambda s, k=k: ALLMID(zval(self.ver(s, k))))))
            out.append(('%s: starts at 0' % k, guard(lambda s, k=k: PT(zval(self.ver(s, k)), 0) == 0)))
            stride = 32 if names else const(eng, 'vt_file_size')
            out.append(('%s: whole elements' % k, guard(lambda s, k=k, m=stride: z3.And(self.last(eng, s, k) >= 0, self.last(eng, s, k) % m == 0))))
            out.append(('%s: as many as' % k, guard(lambda s, k=k: z3.Or(self.last(eng, s, k) > 0, self.nothing(eng, s)))))
        out += self.more_cands(ctx, lists, at, guard, total)
        # elements before a position have been taken over
        for m in sorted(ctx.mods, key=repr):
            v = eng.get_item(st, m)
            at_names = isinstance(v, PV) and v.r is not None and v.r in st.mem and isinstance(st.mem[v.r].handler, Elements) and st.mem[v.r].handler.names
            if at_names or isinstance(v, IV) and v.w >= 32:
                o = st.mem[v.r].handler.owner if at_names else self.names_key(st) if self.lists else None
                if o is None:
                    continue

                def pos(s, m=m):
                    x = eng.get_item(s, m)
                    if isinstance(x, IV):
                        return 32 * zval(x.t)
                    if not isinstance(x, PV):
                        raise Missing()
                    return zval(x.off)
                out += self.pos_cands(o, pos, guard)
                for k, names in lists:
                    if not names:
                        out.append(('%s: has the files before the position' % k, guard(
                            lambda s, k=k, o=o, pos=pos: at(s, k) == PT(zval(self.ver(s, o)), pos(s)))))
                        z = const(eng, 'vt_file_size')
                        out.append(('%s: as long as the position' % k, guard(lambda s, k=k, pos=pos, z=z: 32 * self.last(eng, s, k) == z * pos(s))))
                out.append(('position in the list', guard(lambda s, o=o, pos=pos: z3.And(pos(s) >= 0, pos(s) % 32 == 0, pos(s) <= self.last(eng, s, o)))))
        seen = {(m[1], m[2]) for m in ctx.mods if m[0] == 'cell'}
        for r in sorted(st.mem) if self.kept_positions else ():
            for off, c in sorted(st.mem[r].cells.items(), key=lambda x: str(x[0])):
                v = c[1]
                if (r, off) not in seen and isinstance(v, PV) and v.r in st.mem and isinstance(st.mem[v.r].handler, Elements) and st.mem[v.r].handler.names:
                    def kept(s, r=r, off=off):
                        x = s.mem[r].cells.get(off)
                        if x is None or not isinstance(x[1], PV):
                            raise Missing()
                        return zval(x[1].off)
                    out += self.pos_cands(st.mem[v.r].handler.owner, kept, guard)
                    out.append(('a position in the list', guard(lambda s, o=st.mem[v.r].handler.owner, pos=kept: z3.And(pos(s) >= 0, pos(s) % 32 == 0, pos(s) <= self.last(eng, s, o)))))
        out.append(('entries', lambda s: zval(self.g(s, 'entry')) <= z3.Int('ENTRIES')))
        return out

    def final(self, s, total):
        return z3.And(z3.Select(self.g(s, 'done'), DST), z3.Select(self.g(s, 'cont'), DST) == total)

    def nothing(self, eng, s):
        """there are no files to merge"""
        k = self.names_key(s)
        return self.last(eng, s, k) == 0

    def names_key(self, s):
        ks = [k for k, (p, names) in self.lists.items() if names]
        return ks[0]

    def bounds(self, eng):
        return []

    def run(self, eng):
        f = self.fn(eng, '@main')
        self.lists, self.uniq = {}, {}
        st = State()
        self.atonce = eng.iv_sfresh(st, 32, 'atonce').t
        self.srcname, self.extname = SV.const(st, 'srcname'), SV.const(st, 'outext')
        st.add(zval(self.srcname.length()) > 0)
        st.add(z3.And(slen(DST) >= 0, slen(DST) < (1 << 62), z3.Not(ISIN(DST)), z3.Not(ISMID(DST)), z3.Int('ENTRIES') >= 0))
        for k, v in (('canc', False), ('begun', False), ('entry', 0), ('dirtotal', 0), ('ops', 0), ('dstlisted', False),
                     ('cont', z3.Const('cont0', z3.ArraySort(S, z3.IntSort()))), ('done', z3.K(S, z3.BoolVal(False)))):
            st.ghost[(None, 'main', k)] = v
        st.user['carry'] = dict(queue=(), started=False)
        self.setup(eng, st)
        argv = obj(eng, st, 'argv', 64)
        for s, r in eng.call_function(f, st, [eng.iv_fresh(st, 32, 'argc'), argv]):
            if not isinstance(r, IV):
                raise Unsupported('result of main')
            if self.g(s, 'begun') is not True:
                continue        # nothing was to be done, or refused
            if (None, 'main', 'nofiles') not in s.ghost:
                raise Unsupported('list of the files')
            eng.oblige(s, 'ensures all entries of the directory were looked at', zval(self.g(s, 'entry')) == (z3.Int('ENTRIES') if self.src else 0))
            self.status = simp(r.t)
            self.ends(eng, s, GIVENTOTAL(self) + zval(self.g(s, 'dirtotal')))

    def setup(self, eng, st):
        pass

    def ends(self, eng, s, total):
        eng.oblige(s, 'ensures the count of every hash in the output is the sum over all input files, unless cancelled',
                   z3.Or(zb(self.g(s, 'canc')), self.g(s, 'nofiles'), self.final(s, total)))


def GIVENTOTAL(u):
    return GIVEN if u.files else z3.IntVal(0)


def seq_cands(ctx):
    return []


def main_units():
    return [Main(False, True), Main(True, False), Main(True, True)]
