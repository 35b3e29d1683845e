"""Specification terms: reference definitions that the analysed code is compared with.
Each is a pure function of sequences, unfolded from the left as far as the known part
of its argument determines the result."""
from values import *
from state import *
import state as S
from interp import NeedSplit

HEX = mask_chars('0123456789abcdefABCDEF')
RESERVED = mask_chars("!#$&'()*+,/:;=?@[]")
HEXTBL = tuple(int(chr(i), 16) if i < 128 and chr(i) in '0123456789abcdefABCDEF' else 0 for i in range(256))
EXC, SLASH, ALL = 0, 1, 2


def bmask(st, v):
    """set of possible byte values as a mask"""
    v = st.nlin(v)
    if isinstance(v, int):
        return 1 << (v & 255)
    ps = st.fdv_atoms(v)
    if ps and len(ps) == 1:
        p = next(iter(ps))
        m = 0
        for x in bits(st.mask_of(p)):
            m |= 1 << (st.eval1(v, p, x) & 255)
        return m
    if ps and len(ps) == 2:
        v = st.canon_fdv(v)
        if isinstance(v, int):
            return 1 << (v & 255)
        ps = st.fdv_atoms(v)
        if len(ps) < 2:
            return bmask(st, v)
        st.canon_vdom()
    cur = st.vdom.get(Lin(0, v.t))
    if cur is not None:
        m = 0
        for y in cur:
            m |= 1 << ((y + v.c) & 255)
        return m
    if ps and len(ps) == 2:
        p, q = sorted(ps)
        m = 0
        for a in bits(st.mask_of(p)):
            for b in bits(st.mask_of(q)):
                x = v.c
                for at, k in v.t:
                    pa = at if at[0] == 'c' else at[1]
                    y = a if pa == p else b
                    x += k * (y if at[0] == 'c' else at[2][y])
                m |= 1 << (x & 255)
        return m
    return FULL


def hexbyte(st, a, b):
    return ladd(lmul(digit(st, a), 16), digit(st, b))


def digit(st, a):
    a = st.nlin(a)
    if isinstance(a, int):
        return HEXTBL[a & 255]
    if a.c == 0 and len(a.t) == 1 and a.t[0][0][0] == 'c' and a.t[0][1] == 1:
        return atom(('tab', a.t[0][0], HEXTBL))
    raise Unsupported('hex digit')


def decide(st, v, mask, force):
    """is byte v in mask: True/False/None"""
    m = bmask(st, v)
    if m & mask == 0:
        return False
    if m & ~mask == 0:
        return True
    if force:
        raise NeedSplit(lambda s: s.in_mask(v, mask))
    return None


def lookahead(st, q, i, force):
    """element i of q: value, None at the end, or 'stuck'"""
    if i >= len(q):
        return None
    it = q[i]
    if it[0] == 'e':
        return it[1]
    if force:
        raise NeedSplit(lambda s: s.expand(it))
    return 'stuck'


PCT = 1 << ord('%')
PLUS = 1 << ord('+')


def simp_dec(st, it, force=False):
    mode, plus, q = it[2]
    out = []
    q = list(q)
    while q:
        x = lookahead(st, q, 0, force)
        if x == 'stuck':
            if not force:
                h = q[0]
                if h[0] == 's' and (st.item_mask(h) & (PCT | (PLUS if plus else 0))) == 0:
                    out.append(h)
                    q.pop(0)
                    continue
            break
        if plus:
            d = decide(st, x, PLUS, force)
            if d is None:
                break
            if d:
                out.append(('e', 32))
                q.pop(0)
                continue
        d = decide(st, x, PCT, force)
        if d is None:
            break
        if not d:
            out.append(('e', x))
            q.pop(0)
            continue
        a = lookahead(st, q, 1, force)
        if a == 'stuck':
            break
        da = a is not None and decide(st, a, HEX, force)
        if da is None:
            break
        if not da:
            out.append(q.pop(0))
            continue
        b = lookahead(st, q, 2, force)
        if b == 'stuck':
            break
        db = b is not None and decide(st, b, HEX, force)
        if db is None:
            break
        if not db:
            out.append(q.pop(0))
            continue
        v = hexbyte(st, a, b)
        keep = False
        if mode != ALL:
            m = RESERVED if mode == EXC else 1 << ord('/')
            keep = decide(st, v, m, force)
            if keep is None:
                break
        if keep:
            out.append(q.pop(0))
            continue
        out.append(('e', v))
        del q[:3]
    if not q:
        return Seq(out)
    if not out:
        return None
    return Seq(out) + Seq((('t', 'dec', (mode, plus, Seq(q))),))


S.TERM_SIMPLIFY['dec'] = simp_dec
S.SPEC_TERMS.add('dec')
FORCE = {'dec': simp_dec}


def force_terms(st, q):
    """unfold specification terms in q, asking for case splits as needed"""
    q = st.nseq(q)
    out = []
    for it in q:
        if it[0] == 't' and it[1] in FORCE:
            r = FORCE[it[1]](st, it, True)
            if r is None:
                out.append(it)
            else:
                out.extend(force_terms(st, r))
        else:
            out.append(it)
    return Seq(out)
