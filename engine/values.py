"""Abstract values: linear forms, abstract sequences, pointers, structs.

Integers are Python ints (constants, unsigned canonical form) or Lin (affine forms
over atoms).  Sequences (string and vector contents) are tuples of items.

atoms of linear forms
  ('i', id)            an unknown integer
  ('c', id)            a finite-domain value (byte, bool, enum) with a domain mask
  ('L', item)          the length of a sequence item
  ('tab', atom, tbl)   a function of a finite-domain atom, as a table
  ('u', name, args)    an uninterpreted integer function
sequence items
  ('e', value)         one element
  ('s', id)            an unknown sequence
  ('t', name, args)    an unknown sequence that is a function of args
  ('m', body, lo, hi)  concatenation over k in [lo,hi) of body (k is atom K)
"""
import itertools

_ctr = itertools.count(1)


def fresh():
    return next(_ctr)


M64 = (1 << 64) - 1
K = ('i', 'k')


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = '+'.join((f'{k}*' if k != 1 else '') + atom_str(a) for a, k in self.t)
        return f'({s}{self.c:+d})' if self.c else f'({s})'


def atom_str(a):
    if a[0] == 'L':
        return f'len{item_str(a[1])}'
    if a[0] == 'tab':
        return f'tab[{atom_str(a[1])}]'
    return f'{a[0]}{a[1]}'


def item_str(i):
    if i[0] == 'e':
        v = i[1]
        if isinstance(v, int) and 32 <= v < 127:
            return f"'{chr(v)}'"
        return f'<{v}>'
    if i[0] == 's':
        return f'$%s' % i[1]
    if i[0] == 't':
        return f'{i[1]}({", ".join(map(str, i[2]))})'
    if i[0] == 'm':
        return f'FOR[{i[2]}..{i[3]}){Seq(i[1])}'
    return str(i)


def lin(c, d):
    """canonical linear value from constant and dict"""
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=repr_key))
    if not t:
        return c
    return Lin(c, t)


_rk = {}


def repr_key(p):
    a = p[0]
    r = _rk.get(a)
    if r is None:
        r = _rk[a] = repr(a)
    return r


def atom(a, k=1, c=0):
    return Lin(c, ((a, k),))


def is_const(v):
    return isinstance(v, int)


def signed(v, bits=64):
    if isinstance(v, int) and v >= (1 << (bits - 1)):
        return v - (1 << bits)
    return v


def ladd(a, b, k=1):
    """mathematical a + k*b; constants taken as they are"""
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    d = dict(a.t) if isinstance(a, Lin) else {}
    c = a.c if isinstance(a, Lin) else a
    if isinstance(b, Lin):
        for x, q in b.t:
            d[x] = d.get(x, 0) + k * q
        c += k * b.c
    else:
        c += k * b
    return lin(c, d)


def lmul(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((x, q * k) for x, q in a.t))


class Seq(tuple):
    __slots__ = ()

    def __repr__(self):
        return '[' + ' '.join(item_str(i) for i in self) + ']'

    __str__ = __repr__

    def __add__(self, o):
        return Seq(tuple.__add__(self, o))


EMPTY = Seq()


def const_str(b):
    if isinstance(b, str):
        b = b.encode('latin1')
    return Seq(('e', x) for x in b)


def sym_seq():
    return Seq((('s', fresh()),))


def elem(v):
    return Seq((('e', v),))


def term(name, *args):
    return Seq((('t', name, tuple(args)),))


class Ptr:
    __slots__ = ('r', 'o', 'h')

    def __init__(self, r, o=0):
        self.r = r
        self.o = o
        self.h = hash((r, o))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r == o.r and self.o == o.o

    def __repr__(self):
        return f'&{self.r}+{self.o}'

    def at(self, d):
        return Ptr(self.r, ladd(self.o, d))


class Struct:
    """a value made of cells, used for vector elements: ((off,size,val),...)"""
    __slots__ = ('f', 'h')

    def __init__(self, f):
        self.f = f
        self.h = hash(f)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Struct) and self.f == o.f

    def __repr__(self):
        return '{' + ', '.join(f'{o}:{v}' for o, s, v in self.f) + '}'

    def get(self, off):
        for o, s, v in self.f:
            if o == off:
                return v
        return None


class Box:
    """typed container value stored in a memory cell.
    kind 'str': a=Seq ; 'vec': a=Seq, b=element size, c=element type name
    kind 'map': a=base (None or symbol id), b=tuple of (key, element object id or None), c=type info
    kind 'agg': a=tuple of values (first class aggregates)
    kind 'opq': a=tag, b=tuple of args (opaque library object)"""
    __slots__ = ('k', 'a', 'b', 'c', 'h')

    def __init__(self, k, a, b=None, c=None):
        self.k = k
        self.a = a
        self.b = b
        if k == 'vec' and isinstance(c, str) and (c.startswith('std::__cxx11::basic_string<char') or c.startswith('std::basic_string<char')):
            c = 'std::string'
        self.c = c
        self.h = hash((k, a, b, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Box) and self.k == o.k and self.a == o.a and self.b == o.b and self.c == o.c

    def __repr__(self):
        return f'{self.k}:{self.a}' + (f'/{self.b}' if self.k in ('map', 'opq') else '')


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def map_val(v, fa, fi):
    """rebuild value v, mapping linear atoms with fa(atom)->value and sequence
    items with fi(item)->Seq (items are mapped bottom up)."""
    if isinstance(v, (int, str, bool)) or v is None or v is UNDEF:
        return v
    if isinstance(v, Lin):
        c = v.c
        d = {}
        for a, k in v.t:
            w = fa(a)
            if isinstance(w, int):
                c += k * w
            else:
                c += k * w.c
                for x, q in w.t:
                    d[x] = d.get(x, 0) + k * q
        return lin(c, d)
    if isinstance(v, Seq):
        out = []
        for it in v:
            out.extend(fi(it))
        return Seq(out)
    if isinstance(v, Ptr):
        return Ptr(map_region(v.r, fa, fi), map_val(v.o, fa, fi))
    if isinstance(v, Struct):
        return Struct(tuple((o, s, map_val(x, fa, fi)) for o, s, x in v.f))
    if isinstance(v, Box):
        if v.k == 'map':
            return Box('map', v.a, tuple((map_val(k, fa, fi), e) for k, e in v.b), v.c)
        return Box(v.k, map_val(v.a, fa, fi), map_val(v.b, fa, fi), v.c)
    if isinstance(v, tuple):
        return tuple(map_val(x, fa, fi) for x in v)
    return v


def map_region(r, fa, fi):
    if r[0] in ('v', 's'):
        return (r[0], map_region(r[1], fa, fi), map_val(r[2], fa, fi))
    return r


def walk_atoms(v, on_atom, on_item):
    """visit all atoms / items in a value"""
    if isinstance(v, Lin):
        for a, k in v.t:
            walk_atom(a, on_atom, on_item)
    elif isinstance(v, Seq):
        for it in v:
            walk_item(it, on_atom, on_item)
    elif isinstance(v, Ptr):
        walk_atoms(v.o, on_atom, on_item)
        r = v.r
        while r[0] in ('v', 's'):
            walk_atoms(r[2], on_atom, on_item)
            r = r[1]
    elif isinstance(v, Struct):
        for o, s, x in v.f:
            walk_atoms(x, on_atom, on_item)
    elif isinstance(v, Box):
        if v.k == 'map':
            for k, e in v.b:
                walk_atoms(k, on_atom, on_item)
        else:
            walk_atoms(v.a, on_atom, on_item)
            walk_atoms(v.b, on_atom, on_item)
    elif isinstance(v, tuple):
        for x in v:
            walk_atoms(x, on_atom, on_item)


def walk_atom(a, on_atom, on_item):
    on_atom(a)
    if a[0] == 'L':
        walk_item(a[1], on_atom, on_item)
    elif a[0] == 'tab':
        walk_atom(a[1], on_atom, on_item)
    elif a[0] == 'u':
        walk_atoms(a[2], on_atom, on_item)


def walk_item(it, on_atom, on_item):
    on_item(it)
    if it[0] == 'e':
        walk_atoms(it[1], on_atom, on_item)
    elif it[0] == 't':
        walk_atoms(it[2], on_atom, on_item)
    elif it[0] == 'm':
        walk_atoms(Seq(it[1]), on_atom, on_item)
        walk_atoms(it[2], on_atom, on_item)
        walk_atoms(it[3], on_atom, on_item)
