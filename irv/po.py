"""Contract of boost::program_options (trusted): after notify() every variable bound to an option has the
value the user gave; count() tells whether an option was given. The unit says what the user gave."""
import re
import z3
from .engine import IV, PV, BoolV, NULL, zval
from .ir import Unsupported
from .lib import cstr, getstr, setstr, SV, m_void, Box


def optname(sv):
    if not sv.is_lit():
        raise Unsupported('option name')
    b = b''.join(p for p in sv.parts if isinstance(p, bytes)).decode()
    return b.split(',')[0]


def lits(sv):
    return sv.is_lit()


def m_value(eng, st, a, I, line, d):
    m = re.match(r'.*program_options::value<(.*?) ?>\(', d)
    p = eng.new_region(st, 'option', 64, 'obj', lazy=True)
    st.ghost[(p.r, 0, 'bound')] = Box((a[0], m.group(1)))
    return (p,)


def m_bool_switch(eng, st, a, I, line, d):
    p = eng.new_region(st, 'option', 64, 'obj', lazy=True)
    st.ghost[(p.r, 0, 'bound')] = Box((a[0], 'switch'))
    return (p,)


def m_default(eng, st, a, I, line, d):
    m = re.match(r'.*program_options::typed_value<(.*?), char>::', d)
    t = m.group(1)
    if t == 'std::string':
        v = getstr(eng, st, a[1])
    else:
        n = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'bool': 8}.get(t)
        if n is None:
            raise Unsupported('option type ' + t)
        v = eng.load(st, a[1], ('i', n))
    if 'default_value' in d:
        st.ghost[(a[0].r, 0, 'default')] = Box(v)
    return (a[0],)


def m_same(eng, st, a, I, line, d):
    return (a[0],)


def m_add(eng, st, a, I, line, d):
    nm = optname(cstr(eng, st, a[1]))
    opts = st.ghost.get(('po', 0, 'opts'), ())
    st.ghost[('po', 0, 'opts')] = opts + ((nm, a[2].r if 'value_semantic' in d else None),)
    return (a[0],)


def m_notify(eng, st, a, I, line, d):
    for nm, r in st.ghost.get(('po', 0, 'opts'), ()):
        if r is None:
            continue
        b = st.ghost.get((r, 0, 'bound'))
        if b is None:
            continue
        p, ty = b.v
        if isinstance(p, PV) and p.r == NULL.r:
            continue
        v = eng.cur.option(eng, st, nm)
        if v is None:       # not given
            df = st.ghost.get((r, 0, 'default'))
            if df is None:
                continue
            v = df.v
        if ty == 'std::string':
            setstr(eng, st, p, v)
        elif ty in ('int', 'unsigned int', 'long', 'unsigned long', 'bool', 'switch'):
            n = 1 if ty in ('bool', 'switch') else 4 if 'int' in ty else 8
            if isinstance(v, int):
                v = IV(8 * n, v)
            eng.store(st, p, ('i', 8 * n), v, line)
        elif ty.startswith('std::vector'):
            eng.cur.option_vector(eng, st, nm, p, v, line)
        elif hasattr(eng.cur, 'option_object'):
            eng.cur.option_object(eng, st, nm, p, v, ty)
        else:
            raise Unsupported('option type ' + ty)
    return (None,)


def m_count(eng, st, a, I, line, d):
    nm = optname(getstr(eng, st, a[1]))
    v = eng.cur.option(eng, st, nm)
    return (IV(64, 0 if v is None else 1),)


def m_fresh_easy(eng, st, a, I, line, d):
    return (eng.new_region(st, 'easy_init', 16, 'obj', lazy=True),)


PO = r'boost::program_options::'
MODELS = [
    (PO + r'options_description::add_options\(\)$', m_fresh_easy),
    (r'boost::program_options::typed_value<.*\* ' + PO + r'value<.*>\(.*\)$', m_value),
    (PO + r'bool_switch\(bool\*\)', m_bool_switch),
    (PO + r'typed_value<.*>::(default_value|implicit_value)\(', m_default),
    (PO + r'typed_value<.*>::(required|multitoken|composing|value_name|zero_tokens)\(', m_same),
    (PO + r'options_description_easy_init::operator\(\)\(', m_add),
    (PO + r'variables_map::variables_map\(\)$', m_void),
    (PO + r'variables_map::~variables_map\(\)$', m_void),
    (PO + r'basic_parsed_options<char> ' + PO + r'parse_command_line', m_void),
    (PO + r'store\(', m_void),
    (PO + r'notify\(', m_notify),
    (PO + r'basic_parsed_options<char>::~', m_void),
    (PO + r'basic_command_line_parser<char>::(~|basic_command_line_parser)', m_void),
    (PO + r'positional_options_description::', m_same),
    (PO + r'basic_command_line_parser<char>::(options|positional|style|allow_unregistered)\(', m_same),
    (PO + r'basic_command_line_parser<char>::run\(', m_void),
    (r'boost::function1<.*>::~?function1\(\)$', m_void),
    (r'std::map<std::string, boost::program_options::variable_value, .*>::count\(std::string const&\) const$', m_count),
]
