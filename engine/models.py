"""Models of the C++ standard library, absl and protobuf functions the analysed code
calls.  A model takes the abstract state and the arguments and returns the possible
(state, result) pairs; NotImplemented means: interpret the library's own IR body."""
import re
from values import *
from state import *
import state as S
from interp import elem_kind, BOXSIZE, Violation

MODELS = {}
NPOS = M64


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ------------------------------------------------------------------ parameters
_pc = {}


def params(fn):
    """list of the source-level parameter types of a function"""
    r = _pc.get(fn.name)
    if r is not None:
        return r
    d = fn.dem
    d = re.sub(r'\s+requires .*$', '', d)
    d = re.sub(r'(\s+(const|volatile|noexcept|&&?))+$', '', d)
    out = []
    if d.endswith(')'):
        depth = 0
        i = len(d) - 1
        while i >= 0:
            c = d[i]
            if c in ')>]':
                if not (c == '>' and d[i - 1] in '-='):
                    depth += 1
            elif c in '(<[':
                depth -= 1
                if depth == 0:
                    break
            i -= 1
        s = d[i + 1:-1]
        depth = 0
        cur = ''
        for j, c in enumerate(s):
            if c in '(<[':
                depth += 1
            elif c in ')>]':
                depth -= 1
            if c == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
    out = [canon_type(t) for t in out]
    _pc[fn.name] = out
    return out


STRT = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def canon_type(t):
    t = t.replace(STRT, 'string').replace('absl::debian3::', 'absl::')
    t = t.replace('std::basic_string_view<char, std::char_traits<char>>', 'std::string_view')
    return t


def kind_of_param(t):
    if t in ('string const&', 'string&'):
        return 'str'
    if t in ('string&&', 'string const&&'):
        return 'strm'
    if t == 'string':
        return 'strv'
    if t in ('char const*', 'char*'):
        return 'cstr'
    if re.match(r'char (const )?\(&\) ?\[', t):
        return 'cstr'
    if t in ('char', 'char const&', 'char&&', 'char&'):
        return 'ch' if t == 'char' else 'chr'
    if t in ('unsigned long', 'long', 'int', 'unsigned int'):
        return 'n'
    if t in ('absl::string_view', 'std::string_view', 'absl::strings_internal::ConvertibleToStringView'):
        return 'sv'
    if t in ('absl::string_view const&', 'std::string_view const&', 'absl::string_view&', 'absl::string_view&&',
             'std::string_view&', 'std::string_view&&'):
        return 'svr'
    if t.startswith('std::allocator'):
        return 'al'
    if 'initializer_list' in t:
        return 'il'
    if t.startswith('__gnu_cxx::__normal_iterator'):
        return 'it'
    return t


def decode(fn, args, skip):
    """pair up source-level parameters with IR arguments"""
    out = []
    i = skip
    for t in params(fn):
        k = kind_of_param(t)
        if k == 'sv' or k == 'il':
            out.append((k, (args[i], args[i + 1]), t))
            i += 2
        else:
            out.append((k, args[i], t))
            i += 1
        if i >= len(args):
            break
    return out


def seq_arg(E, st, k, v):
    """[(state, Seq)] for a string-like argument"""
    if k in ('str', 'strm', 'strv'):
        return [(s, s.nseq(b.a)) for s, b in E.getbox(st, v, 'str')]
    if k == 'cstr':
        return E.cstr(st, v)
    if k == 'ch':
        return [(st, elem(v))]
    if k == 'chr':
        return [(s, elem(x)) for s, x in E.load(st, v, 1, 'i8')]
    if k == 'sv':
        if v[0] is UNDEF or v[1] is UNDEF:
            raise Violation('use of an uninitialised string_view')
        return E.bytes_at(st, v[0], v[1])
    if k == 'svr':
        return sv_at(E, st, v)
    raise Unsupported(f'string argument of kind {k}')


def sv_at(E, st, p):
    out = []
    for s, d in E.load(st, p, 8, 'p'):
        for s2, n in E.load(s, p.at(8), 8, 'i64'):
            out.extend(E.bytes_at(s2, d, n))
    return out


def set_str(E, st, p, seq):
    return E.putbox(st, p, Box('str', st.nseq(seq)))


def getstr(E, st, p):
    return [(s, s.nseq(b.a)) for s, b in E.getbox(st, p, 'str')]


def ret(sts, v=None):
    return [(s, v) for s in sts]


def is_sret(fn):
    return fn.ret == 'v' and fn.args and fn.args[0][0] == 'p'


def ty1(fn, i=0):
    if not fn.cls or not fn.cls.get('tp'):
        raise Unsupported(f'no type information for {fn.norm}')
    t = fn.cls['tp'][i]
    return canon_elem(t[0]), t[1]


def canon_elem(t):
    return t


# ---------------------------------------------------------------------- strings
@model('std::basic_string::basic_string')
def string_ctor(c, st, this, *a):
    E = c.E
    ps = [p for p in decode(c.fn, (this,) + a, 1)]
    ps = [p for p in ps if p[0] != 'al']
    ks = [p[0] for p in ps]
    if not ks:
        return ret(set_str(E, st, this, EMPTY))
    if ks[0] in ('str', 'strm', 'svr', 'sv') and len(ks) == 1:
        out = []
        for s, q in seq_arg(E, st, ks[0], ps[0][1]):
            for s2 in set_str(E, s, this, q):
                if ks[0] == 'strm':
                    out.extend(set_str(E, s2, ps[0][1], EMPTY))
                else:
                    out.append(s2)
        return ret(out)
    if ks == ['cstr']:
        return ret([s2 for s, q in E.cstr(st, ps[0][1]) for s2 in set_str(E, s, this, q)])
    if ks == ['cstr', 'n']:
        return ret([s2 for s, q in E.bytes_at(st, ps[0][1], ps[1][1]) for s2 in set_str(E, s, this, q)])
    if ks == ['n', 'ch']:
        return ret([s2 for s, q in repeat(E, st, ps[0][1], ps[1][1]) for s2 in set_str(E, s, this, q)])
    if ks == ['cstr', 'cstr'] or ks == ['it', 'it']:
        p, q = st.norm(ps[0][1]), st.norm(ps[1][1])
        return ret([s2 for s, x in ptr_range(E, st, p, q) for s2 in set_str(E, s, this, x)])
    if ks in (['str', 'n'], ['str', 'n', 'n']):
        n = ps[2][1] if len(ps) > 2 else NPOS
        return ret([s3 for s, q in getstr(E, st, ps[0][1]) for s2, x in substr(E, s, q, ps[1][1], n)
                    for s3 in set_str(E, s2, this, x)])
    if ks == ['il']:
        return ret([s2 for s, q in E.bytes_at(st, ps[0][1][0], ps[0][1][1]) for s2 in set_str(E, s, this, q)])
    raise Unsupported(f'string constructor {c.fn.dem[:200]}')


def ptr_range(E, st, p, q):
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r:
        return E.bytes_at(st, p, st.nlin(ladd(q.o, p.o, -1)))
    if p == 0 and q == 0:
        return [(st, EMPTY)]
    raise Unsupported('range of unrelated pointers')


def repeat(E, st, n, ch):
    n = st.nlin(n)
    if isinstance(n, int):
        if n > 4096:
            raise Unsupported('large fill')
        return [(st, Seq((('e', ch),) * n))]
    m = FULL
    if isinstance(ch, int):
        m = 1 << (ch & 255)
    else:
        raise Unsupported('fill with unknown character')
    q = st.fresh_seq('b', m)
    l = atom(('L', q[0]))
    # one of the two directions may make the state infeasible; both must hold
    st.add_fact(ladd(l, n, -1))
    st.add_fact(ladd(n, l, -1))
    return [(st, st.nseq(q))]


@model('std::basic_string::~basic_string')
def string_dtor(c, st, this):
    return ret([st])


def sized(s, q):
    """the size of a container; assumption: at most LENMAX"""
    n = s.seqlen(q)
    if not isinstance(n, int) and n.c > 0 and s.range(n)[1] > LENMAX:
        try:
            s.add_fact(ladd(LENMAX, n, -1))
        except Infeasible:
            return []
    return [(s, n)]


@model('std::basic_string::size', 'std::basic_string::length')
def string_size(c, st, this):
    return [r for s, q in getstr(c.E, st, this) for r in sized(s, q)]


def empty_split(st, q):
    q = st.nseq(q)
    l = st.seqlen(q)
    if isinstance(l, int):
        return [(st, int(l == 0))]
    lo, hi = st.range(l)
    if lo > 0:
        return [(st, 0)]
    return [(s, int(not b)) for s, b in st.split_ge(ladd(l, -1))]


@model('std::basic_string::empty')
def string_empty(c, st, this):
    return [r for s, q in getstr(c.E, st, this) for r in empty_split(s, q)]


@model('std::basic_string::max_size', 'std::vector::max_size')
def max_size(c, st, this):
    return [(st, (1 << 62) - 1)]


@model('std::basic_string::capacity')
def string_capacity(c, st, this):
    raise Unsupported('capacity')


@model('std::basic_string::reserve', 'std::basic_string::shrink_to_fit', 'std::vector::reserve',
       'std::vector::shrink_to_fit', 'std::unordered_map::reserve', 'std::unordered_set::reserve')
def reserve(c, st, *a):
    return ret([st])


@model('std::basic_string::clear')
def string_clear(c, st, this):
    return ret([s2 for s, q in getstr(c.E, st, this) for s2 in set_str(c.E, s, this, EMPTY)])


@model('std::basic_string::push_back')
def string_push(c, st, this, ch):
    return ret([s2 for s, q in getstr(c.E, st, this) for s2 in set_str(c.E, s, this, q + elem(ch))])


@model('std::basic_string::pop_back')
def string_pop(c, st, this):
    out = []
    for s, q in getstr(c.E, st, this):
        for s2, e, rest in last_elem(c.E, s, q):
            if e is None:
                c.E.violation(s2, 'pop_back on an empty string')
                continue
            out.extend(set_str(c.E, s2, this, rest))
    return ret(out)


def last_elem(E, st, seq):
    """[(state, last element or None, rest)]"""
    seq = st.nseq(seq)
    if not seq:
        return [(st, None, EMPTY)]
    it = seq[-1]
    if it[0] == 'e':
        return [(st, it[1], Seq(seq[:-1]))]
    if it[0] in ('s', 't'):
        out = []
        for s in st.expand(it, True):
            out.extend(last_elem(E, s, seq))
        return out
    raise Unsupported('last element of a comprehension')


@model('std::basic_string::operator[]', 'std::basic_string::at')
def string_index(c, st, this, i):
    out = []
    at = c.fn.norm.endswith('::at')
    for s, q in getstr(c.E, st, this):
        l = s.seqlen(q)
        for s2, b in s.split_ge(ladd(ladd(l, i, -1), -1 if at else 0)) if isinstance(i, (int, Lin)) else []:
            neg = False
            for s3, b2 in (s2.split_ge(i) if b else [(s2, False)]):
                if not (b and b2):
                    c.E.violation(s3, 'indexes a string outside its bounds')
                    continue
                p = s3.norm(this)
                out.append((s3, Ptr(('s', p.r, p.o), s3.nlin(i))))
    return out


@model('std::basic_string::front')
def string_front(c, st, this):
    out = []
    for s, q in getstr(c.E, st, this):
        for s2, e in empty_split(s, q):
            if e:
                c.E.violation(s2, 'front() of an empty string')
            else:
                p = s2.norm(this)
                out.append((s2, Ptr(('s', p.r, p.o), 0)))
    return out


@model('std::basic_string::back')
def string_back(c, st, this):
    out = []
    for s, q in getstr(c.E, st, this):
        for s2, e in empty_split(s, q):
            if e:
                c.E.violation(s2, 'back() of an empty string')
            else:
                p = s2.norm(this)
                out.append((s2, Ptr(('s', p.r, p.o), ladd(s2.seqlen(q), -1))))
    return out


@model('std::basic_string::data', 'std::basic_string::c_str', 'std::basic_string::begin', 'std::basic_string::cbegin')
def string_data(c, st, this):
    p = st.norm(this)
    return [(s, Ptr(('s', p.r, p.o), 0)) for s, q in getstr(c.E, st, this)]


@model('std::basic_string::end', 'std::basic_string::cend')
def string_end(c, st, this):
    p = st.norm(this)
    return [(s, Ptr(('s', p.r, p.o), s.seqlen(q))) for s, q in getstr(c.E, st, this)]


@model('std::basic_string::resize')
def string_resize(c, st, this, n, *ch):
    E = c.E
    ch = ch[0] if ch else 0
    out = []
    for s, q in getstr(E, st, this):
        l = s.seqlen(q)
        if n is UNDEF:
            raise Violation('resize with an uninitialised size')
        for s2, b in s.split_ge(ladd(l, n, -1)):
            if b:
                for s3, left, right in s2.cut(q, n):
                    if left is None:
                        E.violation(s3, 'resizes a string to a huge size')
                        continue
                    out.extend(set_str(E, s3, this, left))
            else:
                for s3, z in repeat(E, s2, ladd(n, l, -1), ch):
                    out.extend(set_str(E, s3, this, s3.nseq(q) + z))
    return ret(out)


def assign_like(c, st, this, a, app):
    """operator=, assign, append, operator+= : [(state, this)]"""
    E = c.E
    ps = [p for p in decode(c.fn, (this,) + a, 1)]
    ks = [p[0] for p in ps]
    if len(ks) == 1 and ks[0] in ('str', 'strm', 'cstr', 'ch', 'sv', 'svr', 'chr'):
        srcs = seq_arg(E, st, ks[0], ps[0][1])
    elif ks == ['cstr', 'n']:
        srcs = E.bytes_at(st, ps[0][1], ps[1][1])
    elif ks == ['n', 'ch']:
        srcs = repeat(E, st, ps[0][1], ps[1][1])
    elif ks in (['it', 'it'], ['cstr', 'cstr']):
        srcs = ptr_range(E, st, st.norm(ps[0][1]), st.norm(ps[1][1]))
    elif ks in (['str', 'n', 'n'], ['str', 'n']):
        srcs = [r for s, q in getstr(E, st, ps[0][1])
                for r in substr(E, s, q, ps[1][1], ps[2][1] if len(ps) > 2 else NPOS)]
    else:
        raise Unsupported(f'{c.fn.dem[:160]}')
    out = []
    for s, q in srcs:
        if app:
            for s2, old in getstr(E, s, this):
                out.extend(set_str(E, s2, this, old + s2.nseq(q)))
        else:
            if ks[0] == 'strm' and s.norm(ps[0][1]) != s.norm(this):
                for s2 in set_str(E, s, ps[0][1], EMPTY):
                    out.extend(set_str(E, s2, this, q))
            else:
                # the target must have been constructed
                for s2, old in getstr(E, s, this):
                    out.extend(set_str(E, s2, this, s2.nseq(q)))
    return [(s, this) for s in out]


@model('std::basic_string::operator=', 'std::basic_string::assign')
def string_assign(c, st, this, *a):
    return assign_like(c, st, this, a, False)


@model('std::basic_string::operator+=', 'std::basic_string::append')
def string_append(c, st, this, *a):
    return assign_like(c, st, this, a, True)


@model('std::basic_string::swap')
def string_swap(c, st, this, o):
    out = []
    for s, a in getstr(c.E, st, this):
        for s2, b in getstr(c.E, s, o):
            for s3 in set_str(c.E, s2, this, b):
                out.extend(set_str(c.E, s3, o, s3.nseq(a)))
    return ret(out)


def substr(E, st, q, pos, n):
    """[(state, Seq)]; violation (throws) when pos is out of range"""
    out = []
    for s, l, r in st.cut(q, pos):
        if l is None:
            E.violation(s, 'substr position is out of range (throws)')
            continue
        out.extend(take(E, s, s.nseq(r), n))
    return out


def take(E, st, r, n):
    n = st.nlin(n)
    if isinstance(n, int) and n >= LENMAX:
        return [(st, r)]
    out = []
    l = st.seqlen(r)
    for s, b in st.split_ge(ladd(l, n, -1)):
        if not b:
            out.append((s, s.nseq(r)))
            continue
        for s2, x, y in s.cut(s.nseq(r), n):
            if x is None:
                # n is negative as a signed number: huge
                out.append((s2, s2.nseq(r)))
            else:
                out.append((s2, s2.nseq(x)))
    return out


@model('std::basic_string::substr')
def string_substr(c, st, out_, this, pos=0, n=NPOS):
    return ret([s3 for s, q in getstr(c.E, st, this) for s2, x in substr(c.E, s, q, pos, n)
                for s3 in set_str(c.E, s2, out_, x)])


def search_mask(c, st, k, v, extra):
    """set of characters of a find_*_of argument as [(state, mask)]"""
    E = c.E
    if k in ('cstr', 'n') and extra is not None:
        srcs = E.bytes_at(st, v, extra)
    else:
        srcs = seq_arg(E, st, k, v)
    out = []
    for s, q in srcs:
        m = 0
        for it in q:
            if it[0] == 'e' and isinstance(it[1], int):
                m |= 1 << (it[1] & 255)
            else:
                return None
        out.append((s, m))
    return out


def find_generic(c, st, q, mode, ps, E):
    """q: haystack Seq.  Returns [(state, position)]"""
    ks = [p[0] for p in ps]
    needle = ps[0]
    pos = None
    cnt = None
    if len(ps) >= 2:
        pos = ps[1][1]
    if len(ps) == 3:
        cnt = ps[2][1]
    rev = mode in ('rfind', 'find_last_of', 'find_last_not_of')
    if needle[0] == 'cstr' and cnt is not None:
        srcs = E.bytes_at(st, needle[1], cnt)
    else:
        srcs = seq_arg(E, st, needle[0], needle[1])
    out = []
    for s, nd in srcs:
        if mode in ('find', 'rfind'):
            if len(nd) == 1 and nd[0][0] == 'e':
                if not isinstance(s.norm(nd[0][1]), int):
                    raise Unsupported('find of an unknown character')
                mask = 1 << (s.norm(nd[0][1]) & 255)
            elif not nd:
                if rev:
                    raise Unsupported('rfind of an empty string')
                out.append((s, 0 if pos is None else pos))
                continue
            else:
                out.extend(find_multi(s, s.nseq(q), nd, pos, rev))
                continue
        else:
            mask = 0
            for it in nd:
                x = s.norm(it[1]) if it[0] == 'e' else None
                if not isinstance(x, int):
                    raise Unsupported('character set is not constant')
                mask |= 1 << (x & 255)
            if mode.endswith('not_of'):
                mask = FULL & ~mask
        if pos is None or (isinstance(pos, int) and ((not rev and pos == 0) or (rev and pos >= LENMAX))):
            parts = [(s, EMPTY, s.nseq(q))]
        elif rev:
            parts = [(s2, EMPTY, x) for s2, x in take(E, s, s.nseq(q), ladd(pos, 1))]
        else:
            parts = []
            for s2, l, r in s.cut(q, pos):
                if l is None:
                    out.append((s2, NPOS))
                else:
                    parts.append((s2, l, r))
        for s2, l, r in parts:
            for s3, a, e, b in s2.find(r, mask, rev):
                if a is None:
                    out.append((s3, NPOS))
                else:
                    out.append((s3, s3.seqlen(s3.nseq(l) + a)))
    return out


def find_multi(st, q, nd, pos, rev):
    n = len(nd)
    if any(i[0] != 'e' or not isinstance(i[1], int) for i in nd):
        raise Unsupported('find of an unknown string')
    if all(i[0] == 'e' and isinstance(i[1], int) for i in q) and (pos is None or isinstance(pos, int)):
        a = bytes(i[1] & 255 for i in q)
        b = bytes(i[1] & 255 for i in nd)
        x = a.rfind(b, 0, min(pos, len(a)) + n if pos is not None else None) if rev else a.find(b, pos or 0)
        return [(st, NPOS if x < 0 else x)]
    if rev or not (pos is None or pos == 0):
        raise Unsupported('find of a string')
    # occurrence test through the needle's first character
    out = []
    work = [(st, EMPTY, q)]
    rounds = 0
    while work:
        rounds += 1
        if rounds > 60:
            raise Unsupported('find of a string')
        s, l, r = work.pop()
        for s2, a, e, b in s.find(r, 1 << nd[0][1]):
            if a is None:
                out.append((s2, NPOS))
                continue
            for s3, x in take(None, s2, b, n - 1):
                for s4, eq in s3.seq_eq(x, Seq(nd[1:])):
                    if eq:
                        out.append((s4, s4.seqlen(s4.nseq(Seq(l) + Seq(a)))))
                    else:
                        work.append((s4, s4.nseq(Seq(l) + Seq(a) + elem(e)), s4.nseq(b)))
    return out


FIND = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')


@model(*['std::basic_string::' + f for f in FIND])
def string_find(c, st, this, *a):
    ps = decode(c.fn, (this,) + a, 1)
    mode = c.fn.norm.rsplit('::', 1)[1]
    return [r for s, q in getstr(c.E, st, this) for r in find_generic(c, s, q, mode, ps, c.E)]


def this_sv(c, st, a):
    """string_view 'this' may be passed by pointer"""
    return sv_at(c.E, st, a)


@model(*[n + '::' + f for n in ('absl::string_view', 'std::basic_string_view') for f in FIND])
def sv_find(c, st, this, *a):
    ps = decode(c.fn, (this,) + a, 1)
    mode = c.fn.norm.rsplit('::', 1)[1]
    return [r for s, q in this_sv(c, st, this) for r in find_generic(c, s, q, mode, ps, c.E)]


@model('absl::string_view::operator_std::basic_string', 'std::basic_string_view::operator_std::basic_string')
def sv_to_string(c, st, out_, this):
    return ret([s2 for s, q in sv_at(c.E, st, this) for s2 in set_str(c.E, s, out_, q)])


@model('absl::string_view::string_view', 'std::basic_string_view::basic_string_view',
       'absl::strings_internal::ConvertibleToStringView::ConvertibleToStringView')
def sv_ctor(c, st, this, *a):
    E = c.E
    ps = [p for p in decode(c.fn, (this,) + a, 1) if p[0] != 'al']
    ks = [p[0] for p in ps]
    out = []
    if not ks:
        rs = [(st, 0, 0)]
    elif ks in (['str'], ['strm']):
        p = st.norm(ps[0][1])
        rs = [(s, Ptr(('s', p.r, p.o), 0), s.seqlen(q)) for s, q in getstr(E, st, p)]
    elif ks == ['cstr']:
        rs = [(s, s.norm(ps[0][1]), s.seqlen(q)) for s, q in E.cstr(st, ps[0][1])]
    elif ks == ['cstr', 'n']:
        rs = [(st, ps[0][1], ps[1][1])]
    elif ks == ['sv']:
        rs = [(st, ps[0][1][0], ps[0][1][1])]
    elif ks == ['svr']:
        rs = [(s2, d, n) for s, d in E.load(st, ps[0][1], 8, 'p') for s2, n in E.load(s, ps[0][1].at(8), 8, 'i64')]
    else:
        return NotImplemented
    for s, d, n in rs:
        for s2 in E.store(s, this, 8, d):
            out.extend(E.store(s2, this.at(8), 8, n))
    return ret(out)


@model('std::basic_string::operator_std::basic_string_view', 'std::basic_string::operator_basic_string_view',
       'std::basic_string::operator_absl::string_view', 'std::basic_string::operator_string_view')
def string_to_sv(c, st, this):
    p = st.norm(this)
    return [(s, Box('agg', (s.seqlen(q), Ptr(('s', p.r, p.o), 0)))) if 'std::' in c.fn.dem.split('operator')[-1]
            else (s, Box('agg', (Ptr(('s', p.r, p.o), 0), s.seqlen(q)))) for s, q in getstr(c.E, st, this)]


def two_seqs(c, st, args):
    ps = decode(c.fn, args, 0)
    for k, v, t in ps:
        if k not in ('str', 'strm', 'cstr', 'sv', 'svr', 'ch'):
            return None
    return [(s2, s2.nseq(a), b) for s, a in seq_arg(c.E, st, ps[0][0], ps[0][1])
            for s2, b in seq_arg(c.E, s, ps[1][0], ps[1][1])]


@model('std::operator==', 'std::operator!=', 'absl::operator==', 'absl::operator!=', 'std::equal_to::operator__call')
def op_eq(c, st, *a):
    if 'unique_ptr' in c.fn.dem or 'map' in c.fn.norm or '_Rb_tree' in c.fn.dem.split('(')[0]:
        return uptr_cmp(c, st, *a)
    if len(params(c.fn)) != 2:
        return NotImplemented
    ts = params(c.fn)
    if not all(kind_of_param(t) in ('str', 'strm', 'cstr', 'sv', 'svr') for t in ts):
        # views passed in the other calling convention
        return NotImplemented
    r = two_seqs(c, st, a)
    if r is None:
        return NotImplemented
    ne = c.fn.norm.endswith('!=')
    return [(s2, int(b != ne)) for s, x, y in r for s2, b in s.seq_eq(x, y)]


def uptr_cmp(c, st, *a):
    ts = params(c.fn)
    if not any('unique_ptr' in t for t in ts) or 'vector' in ts[0]:
        return NotImplemented
    ne = c.fn.norm.endswith('!=')
    vals = []
    rs = [(st, ())]
    for t, v in zip(ts, list(a) + [0] * 2):
        nx = []
        for s, acc in rs:
            if 'nullptr' in t:
                nx.append((s, acc + (0,)))
            else:
                for s2, x in c.E.load(s, v, 8, 'p'):
                    nx.append((s2, acc + (x,)))
        rs = nx
    out = []
    for s, (x, y) in rs:
        for s2, b in c.E.cmp_ptr(s, x, y, 'eq'):
            out.append((s2, int(bool(b) != ne)))
    return out


@model('std::basic_string::compare', 'absl::string_view::compare', 'std::basic_string_view::compare')
def string_compare(c, st, this, *a):
    if c.fn.norm.startswith('std::basic_string::'):
        mine = getstr(c.E, st, this)
    else:
        mine = sv_at(c.E, st, this)
    ps = decode(c.fn, (this,) + a, 1)
    ks = [p[0] for p in ps]
    out = []
    for s, q in mine:
        if len(ps) == 1:
            rs = [(s2, s2.nseq(q), b) for s2, b in seq_arg(c.E, s, ks[0], ps[0][1])]
        elif ks[:2] == ['n', 'n'] and len(ps) == 3:
            rs = [(s3, s3.nseq(x), b) for s2, x in substr(c.E, s, q, ps[0][1], ps[1][1])
                  for s3, b in seq_arg(c.E, s2, ks[2], ps[2][1])]
        elif ks == ['n', 'n', 'cstr', 'n']:
            rs = [(s3, s3.nseq(x), b) for s2, x in substr(c.E, s, q, ps[0][1], ps[1][1])
                  for s3, b in c.E.bytes_at(s2, ps[2][1], ps[3][1])]
        else:
            raise Unsupported('compare')
        for s2, x, y in rs:
            for s3, eq in s2.seq_eq(x, y):
                if eq:
                    out.append((s3, 0))
                else:
                    # sign unknown but not zero
                    i = ('i', fresh())
                    s3.rng[i] = (-1, 1)
                    s4 = s3.clone()
                    s4.nfork += 1
                    s3.nfork += 1
                    out.append((s3, (1 << 32) - 1))
                    out.append((s4, 1))
    return out


@model('std::basic_string::starts_with', 'absl::StartsWith', 'absl::string_view::starts_with',
       'std::basic_string_view::starts_with')
def starts_with(c, st, *a):
    return affix(c, st, a, False)


@model('std::basic_string::ends_with', 'absl::EndsWith', 'std::basic_string_view::ends_with')
def ends_with(c, st, *a):
    return affix(c, st, a, True)


def affix(c, st, a, end):
    E = c.E
    n = c.fn.norm
    if n.startswith('absl::') and 'string_view' not in n.split('::')[1]:
        ps = decode(c.fn, a, 0)
        rs = [(s2, s2.nseq(x), y) for s, x in seq_arg(E, st, ps[0][0], ps[0][1]) for s2, y in seq_arg(E, s, ps[1][0], ps[1][1])]
    else:
        mine = getstr(E, st, a[0]) if n.startswith('std::basic_string::') else sv_at(E, st, a[0])
        ps = decode(c.fn, a, 1)
        rs = [(s2, s2.nseq(x), y) for s, x in mine for s2, y in seq_arg(E, s, ps[0][0], ps[0][1])]
    out = []
    for s, x, y in rs:
        l = s.seqlen(y)
        for s2, b in s.split_ge(ladd(s.seqlen(x), l, -1)):
            if not b:
                out.append((s2, 0))
                continue
            pos = ladd(s2.seqlen(x), l, -1) if end else l
            for s3, p, q in s2.cut(x, s2.nlin(pos)):
                if p is None:
                    out.append((s3, 0))
                    continue
                for s4, eq in s3.seq_eq(q if end else p, s3.nseq(y)):
                    out.append((s4, int(eq)))
    return out


@model('std::operator+')
def op_plus(c, st, out_, *a):
    ts = params(c.fn)
    if not all(kind_of_param(t) in ('str', 'strm', 'cstr', 'ch') for t in ts):
        return NotImplemented
    ps = decode(c.fn, a, 0)
    return ret([s3 for s, x in seq_arg(c.E, st, ps[0][0], ps[0][1]) for s2, y in seq_arg(c.E, s, ps[1][0], ps[1][1])
                for s3 in set_str(c.E, s2, out_, s2.nseq(x) + y)])


@model('std::to_string', 'std::__cxx11::to_string')
def to_string(c, st, out_, v):
    v = st.nlin(v)
    if isinstance(v, int):
        w = {'int': 32, 'long': 64, 'long long': 64}.get(params(c.fn)[0])
        q = const_str(str(signed(v, w) if w else v))
    else:
        q = term('itoa', v)
    return ret(set_str(c.E, st, out_, q))


def erase_range(E, st, q, pos, n):
    """[(state, new seq)]"""
    out = []
    for s, l, r in st.cut(q, pos):
        if l is None:
            E.violation(s, 'erase position is out of range (throws)')
            continue
        for s2, x in take(E, s, s.nseq(r), n):
            ln = s2.seqlen(x)
            for s3, a, b in s2.cut(s2.nseq(r), ln):
                out.append((s3, s3.nseq(l) + b))
    return out


@model('std::basic_string::erase')
def string_erase(c, st, this, *a):
    ps = decode(c.fn, (this,) + a, 1)
    ks = [p[0] for p in ps]
    E = c.E
    out = []
    for s, q in getstr(E, st, this):
        if ks and ks[0] == 'it':
            p0 = s.norm(ps[0][1])
            n = 1 if len(ks) == 1 else s.nlin(ladd(s.norm(ps[1][1]).o, p0.o, -1))
            for s2, x in erase_range(E, s, q, p0.o, n):
                for s3 in set_str(E, s2, this, x):
                    out.append((s3, p0))
            continue
        pos = ps[0][1] if ps else 0
        n = ps[1][1] if len(ps) > 1 else NPOS
        for s2, x in erase_range(E, s, q, pos, n):
            for s3 in set_str(E, s2, this, x):
                out.append((s3, this))
    return out


@model('std::basic_string::insert')
def string_insert(c, st, this, *a):
    ps = decode(c.fn, (this,) + a, 1)
    ks = [p[0] for p in ps]
    E = c.E
    out = []
    for s, q in getstr(E, st, this):
        if ks[0] == 'n' and len(ks) == 2:
            srcs = seq_arg(E, s, ks[1], ps[1][1])
            pos = ps[0][1]
        elif ks == ['n', 'n', 'ch']:
            srcs = repeat(E, s, ps[1][1], ps[2][1])
            pos = ps[0][1]
        elif ks == ['it', 'ch']:
            srcs = [(s, elem(ps[1][1]))]
            pos = s.norm(ps[0][1]).o
        else:
            raise Unsupported('string insert')
        for s2, x in srcs:
            for s3, l, r in s2.cut(s2.nseq(q), pos):
                if l is None:
                    E.violation(s3, 'insert position is out of range (throws)')
                    continue
                for s4 in set_str(E, s3, this, s3.nseq(l) + s3.nseq(x) + r):
                    out.append((s4, this))
    return out


@model('absl::StrCat')
def strcat(c, st, out_, *a):
    raise Unsupported('StrCat')


# ------------------------------------------------------------- C level functions
@model('strlen', '__builtin_strlen', 'std::char_traits::length', 'absl::string_view::StrlenInternal')
def strlen(c, st, p):
    return [(s, s.seqlen(q)) for s, q in c.E.cstr(st, p)]


@model('memcmp', 'bcmp', 'std::char_traits::compare', '__builtin_memcmp')
def memcmp(c, st, a, b, n):
    n = st.nlin(n)
    if isinstance(n, int) and n == 0:
        return [(st, 0)]
    out = []
    for s, x in c.E.bytes_at(st, a, n):
        for s2, y in c.E.bytes_at(s, b, n):
            for s3, eq in s2.seq_eq(s2.nseq(x), y):
                if eq:
                    out.append((s3, 0))
                else:
                    s4 = s3.clone()
                    s3.nfork += 1
                    s4.nfork += 1
                    out += [(s3, 1), (s4, (1 << 32) - 1)]
    return out


@model('strcmp', 'strncmp')
def strcmp(c, st, a, b, *n):
    if n:
        raise Unsupported('strncmp')
    out = []
    for s, x in c.E.cstr(st, a):
        for s2, y in c.E.cstr(s, b):
            for s3, eq in s2.seq_eq(s2.nseq(x), y):
                if eq:
                    out.append((s3, 0))
                else:
                    s4 = s3.clone()
                    s3.nfork += 1
                    s4.nfork += 1
                    out += [(s3, 1), (s4, (1 << 32) - 1)]
    return out


@model('memcpy', 'memmove', 'std::char_traits::copy', 'std::char_traits::move')
def memcpy_m(c, st, d, s, n):
    return [(x, d) for x in c.E.memcpy(st, d, s, n)]


@model('memset')
def memset_m(c, st, d, v, n):
    return [(x, d) for x in c.E.memset(st, d, v, n)]


def classify(pred, val=None):
    tbl = tuple((val(i) if val else 1) if pred(i) else (i if val else 0) for i in range(256))

    def f(c, st, ch):
        E = c.E
        ch = st.nlin(ch)
        if isinstance(ch, int):
            x = signed(ch, 32)
            if not -1 <= x <= 255:
                raise Violation('character classification of a value outside unsigned char (undefined)')
            return [(st, tbl[x] if x >= 0 else (x & 0xffffffff if val else 0))]
        lo, hi = st.range(ch)
        out = []
        for s, neg in [(s, not b) for s, b in st.split_ge(ch)]:
            if neg:
                # negative char: out of the domain except EOF
                ok = s.split_fdv(s.nlin(ch), lambda x: x == -1)
                if ok is None:
                    raise Unsupported('classification of an unknown value')
                for s2, b in ok:
                    if not b:
                        E.violation(s2, 'character classification of a negative char (undefined behaviour)')
                    else:
                        out.append((s2, 0xffffffff if val else 0))
                continue
            if s.fd1(ch) if hasattr(s, 'fd1') else False:
                pass
            p = E.fd1(s, ch)
            if p is None:
                raise Unsupported('classification of an unknown value')
            out.append((s, E.tab(s, [s.nlin(ch)], lambda x: tbl[x] if 0 <= x <= 255 else 0)))
        return out
    return f


def _a(s):
    return lambda i: i < 128 and chr(i) in s


import string as _string
for nm, pr in (('isxdigit', _a(_string.hexdigits)), ('isdigit', _a(_string.digits)), ('isalpha', _a(_string.ascii_letters)),
               ('isalnum', _a(_string.ascii_letters + _string.digits)), ('isspace', _a(' \t\n\r\v\f')),
               ('isupper', _a(_string.ascii_uppercase)), ('islower', _a(_string.ascii_lowercase)),
               ('ispunct', _a(_string.punctuation))):
    MODELS[nm] = MODELS['std::' + nm] = classify(pr)
    MODELS['absl::ascii_' + nm] = classify(pr)
for nm, pr, vf in (('tolower', _a(_string.ascii_uppercase), lambda i: i + 32), ('toupper', _a(_string.ascii_lowercase), lambda i: i - 32)):
    MODELS[nm] = MODELS['std::' + nm] = classify(pr, vf)
    MODELS['absl::ascii_' + nm] = classify(pr, vf)


@model('std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::__new_allocator',
       'std::basic_string::get_allocator', 'std::ios_base::Init::Init')
def nothing(c, st, *a):
    return ret([st])


@model('operator_new', 'operator_new[]')
def op_new(c, st, n, *a):
    n = st.nlin(n)
    fr = st.frames[-1]
    i = st.new_obj(('new', fr.fn.name, c.op['id']), n if isinstance(n, int) else None, kind='heap')
    return [(st, Ptr(('o', i), 0))]


@model('operator_delete', 'operator_delete[]')
def op_delete(c, st, p, *a):
    free_ptr(c.E, st, p)
    return ret([st])


def free_ptr(E, st, p):
    p = st.norm(p)
    if isinstance(p, int):
        return
    if p.r[0] != 'o':
        raise Unsupported('delete of an unusual pointer')
    o = st.objs.get(p.r[1])
    if o is None or o.freed:
        raise Violation('deletes memory that is not alive')
    st.wobj(p.r[1]).freed = True


@model('__assert_fail', 'abort', 'std::terminate', '__cxa_pure_virtual', 'std::abort', 'exit', '__cxa_throw_bad_array_new_length')
def fail(c, st, *a):
    raise Violation(f'reaches {c.fn.norm}')


@model('std::__throw_out_of_range_fmt', 'std::__throw_length_error', 'std::__throw_logic_error', 'std::__throw_bad_alloc',
       'std::__throw_out_of_range', 'std::__throw_bad_function_call', 'std::__throw_invalid_argument',
       'std::__throw_bad_optional_access', 'std::__throw_bad_variant_access', 'std::__glibcxx_assert_fail')
def thrower(c, st, *a):
    raise Violation(f'throws ({c.fn.norm})')


@model('__cxa_guard_acquire')
def guard(c, st, p):
    return [(st, 1)]


@model('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort')
def guard2(c, st, *a):
    return [(st, 0 if c.fn.norm == '__cxa_atexit' else None)]


# ---------------------------------------------------------------------- vectors
def vinfo(fn):
    t, sz = ty1(fn)
    return sz, t


def getvec(E, st, p, fn):
    return E.getbox(st, p, 'vec', vinfo(fn))


def setvec(E, st, p, b, seq):
    return E.putbox(st, p, Box('vec', st.nseq(seq), b.b, b.c))


def copy_elem(E, st, p, sz, tn):
    """element value at p: [(state, elem)]"""
    k = elem_kind(tn)
    if k == 's':
        return getstr(E, st, p)
    if k in ('p', 'i', 'b'):
        return E.load(st, p, sz, 'p' if k == 'p' else 'i%d' % (8 * sz))
    return [(s, Struct(tuple((o, z, v) for o, z, v in cells if v is not UNDEF))) for s, cells in E.snapshot(st, p, sz)]


def moved_from(E, st, p, sz, tn):
    """reset a moved-from element: [state]"""
    k = elem_kind(tn)
    if k == 's':
        return set_str(E, st, p, EMPTY)
    if k == 'p':
        if 'unique_ptr' in tn:
            return E.store(st, p, 8, 0)
        return [st]
    if k in ('i', 'b'):
        return [st]
    sts = [st]
    for s0, cells in E.snapshot(st, p, sz):
        sts = [s0]
        for o, z, v in cells:
            if isinstance(v, Box) and v.k in ('str', 'vec'):
                sts = [s2 for s in sts for s2 in E.putbox(s, p.at(o), Box(v.k, EMPTY, v.b, v.c))]
    return sts


@model('std::vector::vector')
def vec_ctor(c, st, this, *a):
    E = c.E
    sz, tn = vinfo(c.fn)
    ts = params(c.fn)
    ts2 = [t for t in ts if not t.startswith('std::allocator')]
    if not ts2:
        return ret(E.putbox(st, this, Box('vec', EMPTY, sz, tn)))
    t = ts2[0]
    if t.startswith('std::vector') and t.endswith('&&'):
        out = []
        for s, b in E.getbox(st, a[0], 'vec', (sz, tn)):
            for s2 in E.putbox(s, a[0], Box('vec', EMPTY, sz, tn)):
                out.extend(E.putbox(s2, this, b))
        return ret(out)
    if t.startswith('std::vector') and t.endswith('&'):
        return ret([s2 for s, b in E.getbox(st, a[0], 'vec', (sz, tn)) for s2 in E.putbox(s, this, Box('vec', s.nseq(b.a), sz, tn))])
    if 'initializer_list' in t:
        return ret([s2 for s, q in read_array(E, st, a[0], a[1], sz, tn) for s2 in E.putbox(s, this, Box('vec', q, sz, tn))])
    if len(ts2) == 2 and kind_of_param(t) in ('it',) or t.endswith('*'):
        return ret([s2 for s, q in read_range(E, st, a[0], a[1], sz, tn) for s2 in E.putbox(s, this, Box('vec', q, sz, tn))])
    raise Unsupported(f'vector constructor {c.fn.dem[-160:]}')


def read_array(E, st, p, n, sz, tn):
    n = st.nlin(n)
    if not isinstance(n, int):
        raise Unsupported('array of unknown length')
    rs = [(st, EMPTY)]
    for i in range(n):
        rs = [(s2, q + elem(e)) for s, q in rs for s2, e in copy_elem(E, s, p.at(i * sz), sz, tn)]
    return rs


def read_range(E, st, p, q, sz, tn):
    p, q = st.norm(p), st.norm(q)
    if p == q:
        return [(st, EMPTY)]
    if not isinstance(p, Ptr) or p.r != q.r:
        raise Unsupported('range of unrelated pointers')
    if p.r[0] == 'v':
        out = []
        for s, b in E.getbox(st, Ptr(p.r[1], p.r[2]), 'vec'):
            i = div(p.o, b.b)
            j = div(q.o, b.b)
            for s2, l, r in s.cut(b.a, i):
                for s3, m, r2 in s2.cut(s2.nseq(r), s2.nlin(ladd(j, i, -1))):
                    if m is None:
                        E.violation(s3, 'range outside a vector')
                    else:
                        out.append((s3, s3.nseq(m)))
        return out
    if p.r[0] == 's':
        return E.bytes_at(st, p, st.nlin(ladd(q.o, p.o, -1)))
    d = st.nlin(ladd(q.o, p.o, -1))
    if isinstance(d, int):
        return read_array(E, st, p, d // sz, sz, tn)
    raise Unsupported('range')


def div(x, n):
    if isinstance(x, int):
        if x % n:
            raise Unsupported('unaligned iterator')
        return x // n
    if x.c % n or any(k % n for a, k in x.t):
        raise Unsupported('unaligned iterator')
    return Lin(x.c // n, tuple((a, k // n) for a, k in x.t))


@model('std::vector::~vector')
def vec_dtor(c, st, this):
    sz, tn = vinfo(c.fn)
    if 'unique_ptr' in tn:
        for s, b in getvec(c.E, st, this, c.fn):
            for it in s.nseq(b.a):
                if it[0] == 'e' and isinstance(it[1], Ptr):
                    free_ptr(c.E, s, it[1])
            return ret([s])
    return ret([st])


@model('std::vector::operator=', 'std::vector::assign')
def vec_assign(c, st, this, *a):
    E = c.E
    sz, tn = vinfo(c.fn)
    t = params(c.fn)[0]
    if t.startswith('std::vector'):
        out = []
        for s, b in E.getbox(st, a[0], 'vec', (sz, tn)):
            same = s.norm(a[0]) == s.norm(this)
            if t.endswith('&&') and not same:
                sts = E.putbox(s, a[0], Box('vec', EMPTY, sz, tn))
            else:
                sts = [s]
            for s2 in sts:
                for s3, _old in E.getbox(s2, this, 'vec', (sz, tn)):
                    out.extend(E.putbox(s3, this, Box('vec', s3.nseq(b.a), sz, tn)))
        return [(s, this) for s in out]
    if 'initializer_list' in t:
        return [(s2, this) for s, q in read_array(E, st, a[0], a[1], sz, tn) for s2 in E.putbox(s, this, Box('vec', q, sz, tn))]
    if len(params(c.fn)) == 2 and kind_of_param(t) == 'it':
        return [(s2, this) for s, q in read_range(E, st, a[0], a[1], sz, tn) for s2 in E.putbox(s, this, Box('vec', q, sz, tn))]
    raise Unsupported('vector assign')


@model('std::vector::push_back', 'std::vector::emplace_back')
def vec_push(c, st, this, *a):
    E = c.E
    sz, tn = vinfo(c.fn)
    ts = params(c.fn)
    k = elem_kind(tn)
    srcs = None
    if k == 's':
        ps = decode(c.fn, (this,) + a, 1)
        ks = [p[0] for p in ps]
        ks = ['str' if x == 'string' else x for x in ks]
        if not ks:
            srcs = [(st, EMPTY)]
        elif len(ks) == 1 and ks[0] in ('str', 'strm', 'sv', 'svr'):
            srcs = seq_arg(E, st, ks[0], ps[0][1])
        elif len(ks) == 1 and ('char const*' in ps[0][2] or re.search(r'char (const )?\(&\) ?\[|char \[', ps[0][2])):
            v = ps[0][1]
            if '*' in ps[0][2] and ps[0][2].endswith('&'):
                srcs = [(s2, q) for s, x in E.load(st, v, 8, 'p') for s2, q in E.cstr(s, x)]
            else:
                srcs = E.cstr(st, v)
        else:
            raise Unsupported(f'emplace_back {ks}')
    elif len(ts) == 1 and (ts[0].endswith('&') or ts[0].endswith('&&')):
        bt = re.sub(r'( const)?&+$', '', ts[0])
        if k in ('p',) and 'unique_ptr' in tn and 'unique_ptr' not in bt:
            srcs = E.load(st, a[0], 8, 'p')
        elif k in ('i', 'b'):
            w = {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'char': 1, 'bool': 1, 'unsigned char': 1}.get(bt, sz)
            srcs = E.load(st, a[0], w, 'i%d' % (8 * w))
        else:
            srcs = copy_elem(E, st, a[0], sz, tn)
    elif not ts:
        raise Unsupported('emplace_back()')
    else:
        raise Unsupported(f'emplace_back {ts}')
    out = []
    for s, e in srcs:
        rv = len(ts) == 1 and ts[0].endswith('&&')
        for s2, b in E.getbox(s, this, 'vec', (sz, tn)):
            n = s2.seqlen(b.a)
            sts = setvec(E, s2, this, b, s2.nseq(b.a) + elem(s2.norm(e)))
            for s3 in sts:
                fin = moved_from(E, s3, a[0], sz, tn) if rv and k not in ('i', 'b') and not (k == 's' and kind_of_param(ts[0]) != 'strm') else [s3]
                for s4 in fin:
                    p = s4.norm(this)
                    out.append((s4, Ptr(('v', p.r, p.o), lmul(s4.nlin(n), sz))))
    return out


@model('std::vector::pop_back')
def vec_pop(c, st, this):
    out = []
    for s, b in getvec(c.E, st, this, c.fn):
        for s2, e, rest in last_elem(c.E, s, b.a):
            if e is None:
                c.E.violation(s2, 'pop_back on an empty vector')
                continue
            out.extend(setvec(c.E, s2, this, b, rest))
    return ret(out)


@model('std::vector::size')
def vec_size(c, st, this):
    return [r for s, b in getvec(c.E, st, this, c.fn) for r in sized(s, b.a)]


@model('std::vector::empty')
def vec_empty(c, st, this):
    return [r for s, b in getvec(c.E, st, this, c.fn) for r in empty_split(s, b.a)]


@model('std::vector::clear')
def vec_clear(c, st, this):
    return ret([s2 for s, b in getvec(c.E, st, this, c.fn) for s2 in setvec(c.E, s, this, b, EMPTY)])


@model('std::vector::operator[]', 'std::vector::at')
def vec_index(c, st, this, i):
    out = []
    for s, b in getvec(c.E, st, this, c.fn):
        i = s.nlin(i)
        for s2, ok in s.split_ge(ladd(ladd(s.seqlen(b.a), i, -1), -1)):
            for s3, ok2 in (s2.split_ge(i) if ok else [(s2, False)]):
                if not (ok and ok2):
                    c.E.violation(s3, 'indexes a vector outside its bounds')
                    continue
                p = s3.norm(this)
                out.append((s3, Ptr(('v', p.r, p.o), lmul(s3.nlin(i), b.b))))
    return out


@model('std::vector::front')
def vec_front(c, st, this):
    out = []
    for s, b in getvec(c.E, st, this, c.fn):
        for s2, e in empty_split(s, b.a):
            if e:
                c.E.violation(s2, 'front() of an empty vector')
            else:
                p = s2.norm(this)
                out.append((s2, Ptr(('v', p.r, p.o), 0)))
    return out


@model('std::vector::back')
def vec_back(c, st, this):
    out = []
    for s, b in getvec(c.E, st, this, c.fn):
        for s2, e in empty_split(s, b.a):
            if e:
                c.E.violation(s2, 'back() of an empty vector')
            else:
                p = s2.norm(this)
                out.append((s2, Ptr(('v', p.r, p.o), lmul(ladd(s2.seqlen(b.a), -1), b.b))))
    return out


@model('std::vector::begin', 'std::vector::cbegin', 'std::vector::data')
def vec_begin(c, st, this):
    p = st.norm(this)
    return [(s, Ptr(('v', p.r, p.o), 0)) for s, b in getvec(c.E, st, this, c.fn)]


@model('std::vector::end', 'std::vector::cend')
def vec_end(c, st, this):
    p = st.norm(this)
    return [(s, Ptr(('v', p.r, p.o), lmul(s.seqlen(b.a), b.b))) for s, b in getvec(c.E, st, this, c.fn)]


@model('std::vector::resize')
def vec_resize(c, st, this, n, *a):
    out = []
    for s, b in getvec(c.E, st, this, c.fn):
        l = s.seqlen(b.a)
        for s2, ok in s.split_ge(ladd(l, n, -1)):
            if ok:
                for s3, x, y in s2.cut(b.a, n):
                    if x is None:
                        c.E.violation(s3, 'resizes a vector to a huge size')
                        continue
                    out.extend(setvec(c.E, s3, this, b, x))
            else:
                d = s2.nlin(ladd(n, l, -1))
                k = elem_kind(b.c)
                if not isinstance(d, int) or k not in ('s', 'p', 'i', 'b') or a:
                    raise Unsupported('vector resize')
                v = EMPTY if k == 's' else 0
                out.extend(setvec(c.E, s2, this, b, s2.nseq(b.a) + Seq((('e', v),) * d)))
    return ret(out)


@model('std::vector::erase')
def vec_erase(c, st, this, *a):
    out = []
    ts = params(c.fn)
    for s, b in getvec(c.E, st, this, c.fn):
        i = div(s.norm(a[0]).o, b.b)
        j = div(s.norm(a[1]).o, b.b) if len(ts) == 2 else ladd(i, 1)
        for s2, l, r in s.cut(b.a, i):
            if l is None:
                c.E.violation(s2, 'erase outside a vector')
                continue
            for s3, m, r2 in s2.cut(s2.nseq(r), s2.nlin(ladd(j, i, -1))):
                if m is None:
                    c.E.violation(s3, 'erase outside a vector')
                    continue
                for s4 in setvec(c.E, s3, this, b, s3.nseq(l) + r2):
                    out.append((s4, s4.norm(a[0])))
    return out


@model('std::vector::insert')
def vec_insert(c, st, this, *a):
    E = c.E
    sz, tn = vinfo(c.fn)
    ts = params(c.fn)
    out = []
    for s, b in getvec(E, st, this, c.fn):
        i = div(s.norm(a[0]).o, b.b)
        if len(ts) == 2 and ts[1].endswith('&'):
            srcs = [(s2, elem(e)) for s2, e in copy_elem(E, s, a[1], sz, tn)]
        elif len(ts) == 3 and len(a) == 3 and (kind_of_param(ts[1]) == 'it' or ts[1].endswith('*')):
            srcs = read_range(E, s, a[1], a[2], sz, tn)
        else:
            raise Unsupported('vector insert')
        for s2, x in srcs:
            for s3, l, r in s2.cut(s2.nseq(b.a), i):
                if l is None:
                    E.violation(s3, 'insert outside a vector')
                    continue
                for s4 in setvec(E, s3, this, b, s3.nseq(l) + s3.nseq(x) + r):
                    out.append((s4, s4.norm(a[0])))
    return out


@model('std::vector::swap')
def vec_swap(c, st, this, o):
    out = []
    for s, a in getvec(c.E, st, this, c.fn):
        for s2, b in getvec(c.E, s, o, c.fn):
            for s3 in c.E.putbox(s2, this, b):
                out.extend(c.E.putbox(s3, o, a))
    return ret(out)


# ------------------------------------------------------------------ unique_ptr
@model('std::unique_ptr::unique_ptr')
def uptr_ctor(c, st, this, *a):
    E = c.E
    ts = params(c.fn)
    if not ts or 'nullptr' in ts[0]:
        return ret(E.store(st, this, 8, 0))
    if ts[0].endswith('&&') and 'unique_ptr' in ts[0]:
        out = []
        for s, p in E.load(st, a[0], 8, 'p'):
            for s2 in E.store(s, a[0], 8, 0):
                out.extend(E.store(s2, this, 8, p))
        return ret(out)
    if ts[0].endswith('*'):
        return ret(E.store(st, this, 8, a[0]))
    raise Unsupported(f'unique_ptr constructor {c.fn.dem[-120:]}')


@model('std::unique_ptr::~unique_ptr')
def uptr_dtor(c, st, this):
    out = []
    for s, p in c.E.load(st, this, 8, 'p'):
        if p is UNDEF:
            raise Violation('destroys an uninitialised unique_ptr')
        destroy(c.E, s, p)
        out.append(s)
    return ret(out)


def destroy(E, st, p):
    p = st.norm(p)
    if isinstance(p, int):
        return
    if p.r[0] == 'o' and p.o == 0:
        o = st.objs.get(p.r[1])
        if o is not None and o.kind == 'env':
            st.wobj(p.r[1]).freed = True
            return
    free_ptr(E, st, p)


@model('std::unique_ptr::get', 'std::unique_ptr::operator->')
def uptr_get(c, st, this):
    return c.E.load(st, this, 8, 'p')


@model('std::unique_ptr::operator*')
def uptr_deref(c, st, this):
    out = []
    for s, p in c.E.load(st, this, 8, 'p'):
        if isinstance(p, int):
            c.E.violation(s, 'dereferences a null unique_ptr')
            continue
        out.append((s, p))
    return out


@model('std::unique_ptr::operator_bool')
def uptr_bool(c, st, this):
    return [(s2, int(not b)) for s, p in c.E.load(st, this, 8, 'p') for s2, b in c.E.cmp_ptr(s, p, 0, 'eq')]


@model('std::unique_ptr::release')
def uptr_release(c, st, this):
    return [(s2, p) for s, p in c.E.load(st, this, 8, 'p') for s2 in c.E.store(s, this, 8, 0)]


@model('std::unique_ptr::reset')
def uptr_reset(c, st, this, p=0):
    out = []
    for s, old in c.E.load(st, this, 8, 'p'):
        for s2 in c.E.store(s, this, 8, p):
            destroy(c.E, s2, old)
            out.append(s2)
    return ret(out)


@model('std::unique_ptr::operator=')
def uptr_assign(c, st, this, src=0):
    E = c.E
    ts = params(c.fn)
    out = []
    if 'nullptr' in ts[0]:
        for s, old in E.load(st, this, 8, 'p'):
            for s2 in E.store(s, this, 8, 0):
                destroy(E, s2, old)
                out.append((s2, this))
        return out
    for s, p in E.load(st, src, 8, 'p'):
        for s2 in E.store(s, src, 8, 0):
            for s3, old in E.load(s2, this, 8, 'p'):
                for s4 in E.store(s3, this, 8, p):
                    destroy(E, s4, old)
                    out.append((s4, this))
    return out


@model('std::make_unique')
def make_unique(c, st, *a):
    return NotImplemented


# ------------------------------------------------------------- maps and sets
MAPS = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')


def minfo(fn):
    """(container, key type, mapped type, mapped size, mapped offset)"""
    tp = fn.cls['tp'] if fn.cls else []
    n = fn.norm
    if n.startswith(('std::map', 'std::unordered_map')):
        return ('map', tp[0][0], tp[1][0], tp[1][1], tp[0][1])
    return ('set', tp[0][0], None, 0, tp[0][1])


def getmap(c, st, this):
    return c.E.getbox(st, this, 'map', minfo(c.fn))


def mall(*ms):
    return [x + '::' + m for x in MAPS for m in ms]


@model(*[x + '::' + x.split('::')[1] for x in MAPS])
def map_ctor(c, st, this, *a):
    E = c.E
    ts = params(c.fn)
    info = minfo(c.fn)
    if not ts or not ts[0].startswith(('std::map', 'std::set', 'std::unordered')):
        if ts and ('iterator' in ts[0] or 'initializer' in ts[0]):
            raise Unsupported('container constructor')
        return ret(E.putbox(st, this, Box('map', None, (), info)))
    out = []
    for s, b in E.getbox(st, a[0], 'map', info):
        if ts[0].endswith('&&'):
            for s2 in E.putbox(s, a[0], Box('map', None, (), info)):
                out.extend(E.putbox(s2, this, b))
        else:
            out.extend(E.putbox(s, this, copy_map(E, s, b)))
    return ret(out)


def copy_map(E, st, b):
    if b.c[0] == 'set':
        return b
    if b.b and any(e is not None for k, e in b.b):
        raise Unsupported('copy of a map')
    return b


@model(*[x + '::~' + x.split('::')[1] for x in MAPS])
def map_dtor(c, st, this):
    return ret([st])


@model(*mall('operator='))
def map_assign(c, st, this, src, *a):
    E = c.E
    ts = params(c.fn)
    info = minfo(c.fn)
    out = []
    for s, b in E.getbox(st, src, 'map', info):
        if ts[0].endswith('&&'):
            for s2 in E.putbox(s, src, Box('map', None, (), info)):
                out.extend(E.putbox(s2, this, b))
        else:
            out.extend(E.putbox(s, this, copy_map(E, s, b)))
    return [(s, this) for s in out]


def map_lookup(E, st, p, b, key, create=True):
    """[(state, element object id or None, box)] for key in the container at p"""
    key = st.nseq(key)
    work = [(st, 0)]
    out = []
    while work:
        s, i = work.pop()
        nb = E.getbox(s, p, 'map')[0][1]
        if i < len(nb.b):
            k, e = nb.b[i]
            for s2, eq in s.seq_eq(s.nseq(k), s.nseq(key)):
                if eq:
                    out.append((s2, e, E.getbox(s2, p, 'map')[0][1]))
                else:
                    work.append((s2, i + 1))
            continue
        if nb.a is None:
            out.append((s, None, nb))
            continue
        r = E.plugin.map_query(E, s, p, nb, s.nseq(key)) if E.plugin else None
        if r is not None:
            out.extend(r)
            continue
        # unknown: both present and absent
        s2 = s.clone()
        s.nfork += 1
        s2.nfork += 1
        e = map_elem(E, s, nb.c, key, lazy=True)
        b1 = Box('map', nb.a, nb.b + ((s.nseq(key), e),), nb.c)
        for t in silent_putbox(E, s, p, b1):
            out.append((t, e, b1))
        b2 = Box('map', nb.a, nb.b + ((s2.nseq(key), None),), nb.c)
        for t in silent_putbox(E, s2, p, b2):
            out.append((t, None, b2))
    return out


MAP_LOOKUP = map_lookup


def map_elem(E, st, info, key, lazy=False):
    sz = info[4] + (info[3] or 0)
    e = st.new_obj(('mapelem', info[2] or info[1]), None, lazy=('elem', info[2]) if lazy else None, kind='elem')
    st.objs[e].cells[0] = (32, Box('str', st.nseq(key)))
    return e


def silent_putbox(E, st, p, b):
    """record knowledge about a container without counting as a write"""
    w = E.plugin.watch_write if E.plugin else None
    if E.plugin:
        E.plugin.watch_write = False
    try:
        return E.putbox(st, p, b)
    finally:
        if E.plugin:
            E.plugin.watch_write = w


def key_arg(c, st, v, t):
    t = canon_type(t)
    k = kind_of_param(t)
    return seq_arg(c.E, st, k, v)


def mend(st, this):
    p = st.norm(this)
    return Ptr(('mend', p.r, p.o), 0)


@model(*mall('find'))
def map_find(c, st, this, *a):
    E = c.E
    k = decode(c.fn, (this,) + a, 1)[0]
    out = []
    for s, key in seq_arg(E, st, k[0], k[1]):
        for s2, b in getmap(c, s, this):
            for s3, e, nb in map_lookup(E, s2, this, b, key):
                out.append((s3, mend(s3, this) if e is None else Ptr(('o', e), 0)))
    return out


@model(*mall('count', 'contains'))
def map_count(c, st, this, *a):
    E = c.E
    k = decode(c.fn, (this,) + a, 1)[0]
    return [(s3, int(e is not None)) for s, key in seq_arg(E, st, k[0], k[1]) for s2, b in getmap(c, s, this)
            for s3, e, nb in map_lookup(E, s2, this, b, key)]


@model(*mall('end', 'cend'))
def map_end(c, st, this):
    return [(s, mend(s, this)) for s, b in getmap(c, st, this)]


@model(*mall('begin', 'cbegin', 'size', 'erase', 'merge', 'extract', 'lower_bound', 'upper_bound', 'equal_range', 'swap'))
def map_other(c, st, *a):
    raise Unsupported(f'{c.fn.norm}')


@model(*mall('empty'))
def map_empty(c, st, this):
    out = []
    for s, b in getmap(c, st, this):
        if b.a is None:
            out.append((s, int(not any(e is not None for k, e in b.b))))
        elif any(e is not None for k, e in b.b):
            out.append((s, 0))
        else:
            key = ('mapempty', b.a)
            if key in s.oracle:
                out.append((s, s.oracle[key]))
            else:
                s2 = s.clone()
                s.nfork += 1
                s2.nfork += 1
                s.oracle[key] = 0
                s2.oracle[key] = 1
                out += [(s, 0), (s2, 1)]
    return out


@model(*mall('clear'))
def map_clear(c, st, this):
    return ret([s2 for s, b in getmap(c, st, this) for s2 in c.E.putbox(s, this, Box('map', None, (), b.c))])


def map_insert(c, st, this, key, init):
    """insert: [(state, elem id, inserted)]; init(E, st, elem ptr) -> [state] sets the mapped value"""
    E = c.E
    out = []
    for s, b in getmap(c, st, this):
        for s2, e, nb in map_lookup(E, s, this, b, key):
            if e is not None:
                out.append((s2, e, 0))
                continue
            k2 = s2.nseq(key)
            e = map_elem(E, s2, nb.c, k2)
            ents = tuple((s2.nseq(k), x) for k, x in nb.b)
            ents = tuple((k, x) for k, x in ents if k != k2) + ((k2, e),)
            for s3 in E.putbox(s2, this, Box('map', nb.a, ents, nb.c)):
                for s4 in init(E, s3, Ptr(('o', e), nb.c[4])):
                    out.append((s4, e, 1))
    return out


def ins_result(rs):
    return [(s, Box('agg', (Ptr(('o', e), 0), i))) for s, e, i in rs]


@model(*mall('insert'))
def map_insert_m(c, st, this, *a):
    E = c.E
    info = minfo(c.fn)
    ts = params(c.fn)
    if len(ts) != 1 or not ts[0].endswith('&'):
        raise Unsupported('map insert')
    if info[0] == 'set':
        out = []
        for s, key in getstr(E, st, a[0]):
            out += ins_result(map_insert(c, s, this, key, lambda E, s, p: [s]))
        return out
    out = []
    ko, sz = info[4], info[3]
    for s, key in getstr(E, st, a[0]):
        for s1, cells in E.snapshot(s, s.norm(a[0]).at(ko), sz):
            def init(E, s2, p):
                return E.restore(s2, p, cells)
            for s3, e, i in map_insert(c, s1, this, key, init):
                if i and ts[0].endswith('&&'):
                    for s4 in moved_from(E, s3, s3.norm(a[0]).at(ko), sz, info[2]):
                        out.append((s4, Box('agg', (Ptr(('o', e), 0), i))))
                else:
                    out.append((s3, Box('agg', (Ptr(('o', e), 0), i))))
    return out


@model(*mall('emplace', 'try_emplace', 'emplace_hint', 'insert_or_assign'))
def map_emplace(c, st, this, *a):
    E = c.E
    info = minfo(c.fn)
    ps = decode(c.fn, (this,) + a, 1)
    meth = c.fn.norm.rsplit('::', 1)[1]
    if meth not in ('emplace', 'try_emplace'):
        raise Unsupported(meth)
    out = []
    for s, key in seq_arg(E, st, ps[0][0], ps[0][1]):
        if info[0] == 'set':
            out += ins_result(map_insert(c, s, this, key, lambda E, s, p: [s]))
            continue
        if len(ps) == 1:
            def init(E, s2, p):
                return default_init(E, s2, p, info)
            out += ins_result(map_insert(c, s, this, key, init))
        elif len(ps) == 2 and ('unique_ptr' in info[2] or info[2].split('::')[-1] in ps[1][2] or info[2] in ps[1][2]):
            v = ps[1][1]
            if 'nullptr' in ps[1][2]:
                cl = [(s, ((0, 8, 0),))]
            else:
                cl = E.snapshot(s, s.norm(v), info[3])
            for s1, cells in cl:
                def init(E, s2, p):
                    return E.restore(s2, p, cells)
                for s3, e, i in map_insert(c, s1, this, key, init):
                    r = Box('agg', (Ptr(('o', e), 0), i))
                    if i and ps[1][2].endswith('&&') and 'nullptr' not in ps[1][2]:
                        out += [(s4, r) for s4 in moved_from(E, s3, s3.norm(v), info[3], info[2])]
                    else:
                        out.append((s3, r))
        elif len(ps) == 3 and 'PathMatcherLookupResult' in info[2]:
            raise Unsupported('emplace of a constructed value')
        else:
            raise Unsupported(f'emplace {[p[2] for p in ps]}')
    return out


def default_init(E, st, p, info):
    k = elem_kind(info[2])
    if k == 'p':
        return E.store(st, p, 8, 0)
    if k == 's':
        return set_str(E, st, p, EMPTY)
    if k in ('i', 'b'):
        return E.store(st, p, info[3], 0)
    if 'PathMatcherLookupResult' in info[2]:
        return [s2 for s in E.store(st, p, 8, 0) for s2 in E.store(s, p.at(8), 1, 0)]
    raise Unsupported('default construction of a mapped value')


@model(*mall('operator[]', 'at'))
def map_index(c, st, this, *a):
    E = c.E
    info = minfo(c.fn)
    ps = decode(c.fn, (this,) + a, 1)
    at = c.fn.norm.endswith('::at')
    out = []
    for s, key in seq_arg(E, st, ps[0][0], ps[0][1]):
        if at:
            for s2, b in getmap(c, s, this):
                for s3, e, nb in map_lookup(E, s2, this, b, key):
                    if e is None:
                        E.violation(s3, 'at() of a missing key (throws)')
                    else:
                        out.append((s3, Ptr(('o', e), info[4])))
        else:
            for s3, e, i in map_insert(c, s, this, key, lambda E, s2, p: default_init(E, s2, p, info)):
                out.append((s3, Ptr(('o', e), info[4])))
    return out


@model('std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->',
       'std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_const_iterator::operator->',
       'std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_const_iterator::operator*',
       'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator*')
def iter_deref(c, st, this):
    out = []
    for s, p in c.E.load(st, this, 8, 'p'):
        if isinstance(p, Ptr) and p.r[0] == 'mend':
            c.E.violation(s, 'dereferences the end iterator of a container')
            continue
        out.append((s, p))
    return out


# ------------------------------------------------------------------- absl pieces
@model('absl::StrSplit')
def strsplit(c, st, out_, *a):
    """the splitter object: text, delimiter, skip-empty flag"""
    E = c.E
    ps = decode(c.fn, a, 0)
    ts = [p[2] for p in ps]
    res = []
    for s, q in seq_arg(E, st, ps[0][0], ps[0][1]):
        k = ps[1]
        if k[0] == 'ch':
            ds = [(s, s.nlin(k[1]))]
        elif k[0] in ('cstr', 'sv', 'str', 'svr', 'strm'):
            ds = []
            for s2, d in seq_arg(E, s, k[0], k[1]):
                if len(d) != 1 or d[0][0] != 'e':
                    raise Unsupported('StrSplit delimiter')
                ds.append((s2, d[0][1]))
        else:
            raise Unsupported(f'StrSplit by {k[2]}')
        mode = ''
        if len(ps) > 2:
            if 'SkipEmpty' in ts[2]:
                mode = 'skip'
            elif 'SkipWhitespace' in ts[2]:
                raise Unsupported('StrSplit predicate')
        for s2, d in ds:
            if not isinstance(d, int):
                raise Unsupported('StrSplit delimiter')
            if out_ is None:
                raise Unsupported('StrSplit')
            for s3 in E.putbox(s2, out_, Box('opq', 'splitter', (s2.nseq(q), d & 255, mode))):
                res.append(s3)
    return ret(res)


@model('absl::strings_internal::Splitter::operator_std::vector')
def splitter_vec(c, st, out_, this):
    E = c.E
    res = []
    for s, b in E.getbox(st, this, 'opq'):
        if 'string_view' in c.fn.dem.split('operator')[-1]:
            raise Unsupported('split into views')
        q, d, mode = b.a, b.b[1], b.b[2]
        t = term('split', b.b[0], d) if not mode else term('splitne', b.b[0], d)
        res += E.putbox(s, out_, Box('vec', s.nseq(t), 32, STRT))
    return ret(res)


@model('absl::strings_internal::Splitter::~Splitter')
def splitter_dtor(c, st, this):
    return ret([st])


def split_cut(st, q, d):
    """pieces of q between known delimiters"""
    pieces = [[]]
    for it in q:
        if it[0] == 'e' and it[1] == d:
            pieces.append([])
        else:
            pieces[-1].append(it)
    return [Seq(p) for p in pieces]


def free_of(st, q, d):
    for it in q:
        if it[0] == 'e':
            v = it[1]
            if isinstance(v, int):
                if v == d:
                    return False
            else:
                ps = st.fdv_atoms(v) if isinstance(v, Lin) else None
                if not ps or len(ps) != 1:
                    return False
                p = next(iter(ps))
                if any(st.eval1(v, p, x) == d for x in bits(st.mask_of(p))):
                    return False
        elif it[0] in ('s', 't'):
            if (st.item_mask(it) >> d) & 1:
                return False
        else:
            return False
    return True


def simp_split(st, it):
    q, d = it[2]
    ps = split_cut(st, q, d)
    if len(ps) == 1:
        if free_of(st, q, d):
            return elem(q)
        return None
    out = EMPTY
    for p in ps:
        out = out + (elem(p) if free_of(st, p, d) else Seq((('t', 'split', (p, d)),)))
    return out


def expand_split(st, it, end):
    q, d = it[2]
    return [s for s, a, e, b in st.find(q, 1 << d, end)]


def simp_splitne(st, it):
    q, d = it[2]
    ps = split_cut(st, q, d)
    out = EMPTY
    for p in ps:
        if not p:
            continue
        if free_of(st, p, d) and st.range(st.seqlen(p))[0] > 0:
            out = out + elem(p)
        else:
            if len(ps) == 1:
                return None
            out = out + Seq((('t', 'splitne', (p, d)),))
    return out


S.TERM_KIND['split'] = lambda it: ('s', FULL & ~(1 << it[2][1]))
S.TERM_KIND['splitne'] = lambda it: ('s', FULL & ~(1 << it[2][1]))
S.TERM_SIMPLIFY['split'] = simp_split
S.TERM_SIMPLIFY['splitne'] = simp_splitne
S.TERM_EXPAND['split'] = expand_split
S.TERM_MINLEN['split'] = 1


# status
@model('absl::Status::Status')
def status_ctor(c, st, this, *a):
    E = c.E
    ts = params(c.fn)
    if not ts:
        return ret(E.putbox(st, this, Box('opq', 'status', (0, EMPTY))))
    if ts[0].startswith('absl::StatusCode'):
        return ret([s2 for s, q in seq_arg(E, st, 'sv', (a[1], a[2]))
                    for s2 in E.putbox(s, this, Box('opq', 'status', (a[0], s.nseq(q) if a[0] != 0 else EMPTY)))])
    if ts[0].startswith('absl::Status'):
        out = []
        for s, b in E.getbox(st, a[0], 'opq'):
            out += E.putbox(s, this, b)
        return ret(out)
    raise Unsupported('Status constructor')


@model('absl::Status::operator=')
def status_assign(c, st, this, src):
    E = c.E
    return [(s2, this) for s, b in E.getbox(st, src, 'opq') for s2 in E.putbox(s, this, b)]


@model('absl::Status::~Status')
def status_dtor(c, st, this):
    return ret([st])


@model('absl::Status::ok')
def status_ok(c, st, this):
    out = []
    for s, b in c.E.getbox(st, this, 'opq'):
        for s2, r in s.split_eq(b.b[0]):
            out.append((s2, int(r)))
    return out


@model('absl::Status::code')
def status_code(c, st, this):
    return [(s, s.norm(b.b[0])) for s, b in c.E.getbox(st, this, 'opq')]


@model('absl::OkStatus')
def ok_status(c, st, out_):
    return ret(c.E.putbox(st, out_, Box('opq', 'status', (0, EMPTY))))


def _mkstatus(code):
    def f(c, st, out_, *a):
        ps = decode(c.fn, a, 0)
        return ret([s2 for s, q in seq_arg(c.E, st, ps[0][0], ps[0][1])
                    for s2 in c.E.putbox(s, out_, Box('opq', 'status', (code, s.nseq(q))))])
    return f


for nm, cd in (('InvalidArgumentError', 3), ('InternalError', 13), ('UnknownError', 2), ('CancelledError', 1),
               ('NotFoundError', 5), ('FailedPreconditionError', 9), ('OutOfRangeError', 11), ('UnimplementedError', 12),
               ('DataLossError', 15), ('AbortedError', 10), ('UnavailableError', 14), ('ResourceExhaustedError', 8)):
    MODELS['absl::' + nm] = _mkstatus(cd)
