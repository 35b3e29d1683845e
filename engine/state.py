"""Abstract states: memory, bindings, finite domains, linear facts, sequence facts,
and the case-splitting (meet) operations on them."""
from math import gcd
from values import *

FULL = (1 << 256) - 1
LENMAX = (1 << 31) - 1          # assumption: strings/vectors are shorter than 2^31
INTMAX = (1 << 62)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'ret', 'prev', 'allocas', 'uid', 'heads', 'cont')

    def __init__(self, fn):
        self.fn = fn
        self.blk = 0
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.allocas = ()
        self.uid = fresh()
        self.heads = {}      # loop head block -> fork counter at last visit, unroll count
        self.cont = None     # python continuation run on return instead of the caller

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.allocas = self.allocas
        f.uid = self.uid
        f.heads = dict(self.heads)
        f.cont = self.cont
        return f


class Obj:
    __slots__ = ('cells', 'site', 'lazy', 'size', 'freed', 'kind')

    def __init__(self, site, size=None, lazy=None, kind=None):
        self.cells = {}
        self.site = site
        self.size = size
        self.lazy = lazy       # name of a lazy-initialisation rule, or None
        self.freed = False
        self.kind = kind

    def clone(self):
        o = Obj.__new__(Obj)
        o.cells = dict(self.cells)
        o.site = self.site
        o.size = self.size
        o.lazy = self.lazy
        o.freed = self.freed
        o.kind = self.kind
        return o


class State:
    def __init__(self):
        self.objs = {}
        self.bind = {}
        self.dom = {}
        self.rng = {}
        self.smask = {}
        self.skind = {}
        self.vdom = {}
        self.facts = ()
        self.diseq = ()
        self.oracle = {}
        self.ghost = {}
        self.frames = []
        self.trace = None
        self.nfork = 0
        self.lineage = {}
        self.steps = 0
        self.events = ()
        self.gwrites = ()
        self.ufacts = ()
        self.canonfd = False
        self.cost = 0
        self.tr = None

    def clone(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.bind = dict(self.bind)
        s.dom = dict(self.dom)
        s.rng = dict(self.rng)
        s.smask = dict(self.smask)
        s.skind = dict(self.skind)
        s.vdom = dict(self.vdom)
        s.facts = self.facts
        s.diseq = self.diseq
        s.oracle = dict(self.oracle)
        s.ghost = dict(self.ghost)
        s.frames = [f.clone() for f in self.frames]
        s.trace = self.trace
        s.nfork = self.nfork
        s.lineage = dict(self.lineage)
        s.steps = self.steps
        s.events = self.events
        s.gwrites = self.gwrites
        s.ufacts = self.ufacts
        s.canonfd = False
        s.cost = self.cost
        s.tr = None
        return s

    def note(self, msg):
        self.trace = (msg, self.trace)

    # ---------------------------------------------------------------- objects
    def new_obj(self, site, size=None, lazy=None, kind=None):
        i = fresh()
        self.objs[i] = Obj(site, size, lazy, kind)
        return i

    def wobj(self, i):
        o = self.objs[i].clone()
        self.objs[i] = o
        return o

    # ------------------------------------------------------------- normalising
    def nlin(self, v):
        if not isinstance(v, Lin):
            return v
        if self.canonfd:
            self.canonfd = False
            v = self.nlin(v)
            self.canonfd = True
            if isinstance(v, Lin) and any(a[0] == 'tab' for a, k in v.t):
                return self.canon_fdv(v)
            return v
        ch = False
        for a, k in v.t:
            if self._natom(a) is not a:
                ch = True
                break
        if not ch:
            return v
        c = v.c
        d = {}
        for a, k in v.t:
            w = self._natom(a)
            if w is a:
                d[a] = d.get(a, 0) + k
            elif isinstance(w, int):
                c += k * w
            elif isinstance(w, Lin):
                c += k * w.c
                for x, q in w.t:
                    d[x] = d.get(x, 0) + k * q
            else:
                d[w] = d.get(w, 0) + k
        return lin(c, d)

    def _natom(self, a):
        """normal form of an atom: itself (identical object) or an int/Lin"""
        t = a[0]
        if t == 'i':
            b = self.bind.get(a)
            if b is None:
                return a
            return self.nlin(b)
        if t == 'c':
            b = self.bind.get(a)
            if b is not None:
                return self.nlin(b)
            m = self.dom.get(a[1], FULL)
            if m & (m - 1) == 0:
                if m == 0:
                    raise Infeasible()
                return m.bit_length() - 1
            return a
        if t == 'L':
            it = a[1]
            n = self.nitem(it)
            if n is it:
                r = self.rng.get(a)
                if r is not None and r[0] == r[1]:
                    return r[0]
                return a
            return self.seqlen(n if isinstance(n, Seq) else Seq((n,)), True)
        if t == 'tab':
            p = a[1]
            w = self._natom(p)
            if w is p:
                return a
            if isinstance(w, int):
                return a[2][w]
            if isinstance(w, Lin) and w.c == 0 and len(w.t) == 1 and w.t[0][1] == 1 and w.t[0][0][0] == 'c':
                return atom(('tab', w.t[0][0], a[2]))
            return a
        if t == 'u':
            n = self.norm(a[2])
            if n == a[2]:
                b = self.bind.get(a)
                return a if b is None else self.nlin(b)
            a2 = ('u', a[1], n)
            b = self.bind.get(a2)
            return atom(a2) if b is None else self.nlin(b)
        return a

    def nitem(self, it):
        """normal form of a sequence item: itself, another item, or a Seq"""
        t = it[0]
        if t == 's':
            b = self.bind.get(it)
            if b is None:
                return it
            return self.nseq(b)
        if t == 'e':
            v = it[1]
            if isinstance(v, int):
                return it
            n = self.norm(v)
            if n is v or n == v:
                return it
            return ('e', n)
        if t == 't':
            n = self.norm(it[2])
            if n != it[2]:
                it2 = ('t', it[1], n)
            else:
                it2 = it
            b = self.bind.get(it2)
            if b is not None:
                return self.nseq(b)
            if SPEC_ON[0] or it2[1] not in SPEC_TERMS:
                s = simplify_term(self, it2)
                if s is not None:
                    return s
            return it2
        if t == 'm':
            lo = self.nlin(it[2])
            hi = self.nlin(it[3])
            d = ladd(hi, lo, -1)
            if isinstance(d, int):
                out = EMPTY
                if d <= 8:
                    for j in range(max(d, 0)):
                        out = out + inst_body(self, it[1], ladd(lo, j))
                    return self.nseq(out)
            body = tuple(self.nseq(Seq(it[1])))
            if lo is it[2] and hi is it[3] and body == it[1]:
                return it
            return ('m', body, lo, hi)
        return it

    def nseq(self, s):
        for it in s:
            if it[0] == 'e' and isinstance(it[1], int):
                continue
            if self.nitem(it) is not it:
                break
        else:
            if not any(i[0] == 'm' for i in s):
                return s
        out = []
        for it in s:
            n = self.nitem(it)
            if isinstance(n, Seq):
                out.extend(n)
            else:
                out.append(n)
        if any(i[0] == 'm' for i in out):
            out = comp_normal(self, out)
        return Seq(out)

    def norm(self, v):
        if isinstance(v, (int, str)) or v is None or v is UNDEF:
            return v
        if isinstance(v, Lin):
            return self.nlin(v)
        if isinstance(v, Seq):
            return self.nseq(v)
        if isinstance(v, Ptr):
            o = self.nlin(v.o)
            r = self.nregion(v.r)
            if o is v.o and r is v.r:
                return v
            return Ptr(r, o)
        if isinstance(v, Struct):
            return Struct(tuple((o, s, self.norm(x)) for o, s, x in v.f))
        if isinstance(v, Box):
            if v.k == 'map':
                return Box('map', v.a, tuple((self.norm(k), e) for k, e in v.b), v.c)
            return Box(v.k, self.norm(v.a), self.norm(v.b), v.c)
        if isinstance(v, tuple):
            n = tuple(self.norm(x) for x in v)
            return n
        return v

    def nregion(self, r):
        if r[0] in ('v', 's'):
            p = self.nregion(r[1])
            o = self.nlin(r[2])
            if p is r[1] and o is r[2]:
                return r
            return (r[0], p, o)
        return r

    def seqlen(self, s, normed=False):
        if not normed:
            s = self.nseq(s)
        c = 0
        d = {}
        for it in s:
            if it[0] == 'e':
                c += 1
            elif it[0] == 'm':
                bl = len(it[1])
                if any(b[0] != 'e' for b in it[1]):
                    a = ('L', it)
                    r = self.rng.get(a)
                    if r is not None and r[0] == r[1]:
                        c += r[0]
                    else:
                        d[a] = d.get(a, 0) + 1
                else:
                    x = lmul(ladd(it[3], it[2], -1), bl)
                    if isinstance(x, int):
                        c += x
                    else:
                        c += x.c
                        for a, k in x.t:
                            d[a] = d.get(a, 0) + k
            else:
                a = ('L', it)
                r = self.rng.get(a)
                if r is not None and r[0] == r[1]:
                    c += r[0]
                else:
                    d[a] = d.get(a, 0) + 1
        return lin(c, d)

    # ----------------------------------------------------------------- ranges
    def arange(self, a):
        t = a[0]
        if t == 'c':
            m = self.dom.get(a[1], FULL)
            if m == 0:
                raise Infeasible()
            return ((m & -m).bit_length() - 1, m.bit_length() - 1)
        if t == 'tab':
            m = self.dom.get(a[1][1], FULL)
            vs = [a[2][i] for i in bits(m)]
            return (min(vs), max(vs))
        if t == 'L':
            r = self.rng.get(a)
            if a[1][0] == 't' and TERM_MINLEN and r is None:
                return (TERM_MINLEN.get(a[1][1], 0), LENMAX)
            return r if r else (0, LENMAX)
        r = self.rng.get(a)
        return r if r else (-INTMAX, INTMAX)

    def range(self, v):
        if isinstance(v, int):
            return (v, v)
        if self.vdom and len(v.t) > 1:
            cur = self.vdom.get(Lin(0, v.t))
            if cur is None and any(a[0] == 'tab' for a, k in v.t):
                w = self.canon_fdv(v)
                if isinstance(w, int):
                    return (w, w)
                if w.t != v.t:
                    return self.range(w)
            if cur is not None:
                return min(cur) + v.c, max(cur) + v.c
        lo = hi = v.c
        for a, k in v.t:
            l, h = self.arange(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    # -------------------------------------------------------- proving e >= 0
    def prove_ge(self, e):
        """sound, incomplete: True if e >= 0 in every concretisation"""
        e = self.nlin(e)
        if isinstance(e, int):
            return e >= 0
        lo, hi = self.range(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if not self.facts:
            return False
        return self._fm(ladd(-1, e, -1))

    def _fm(self, neg):
        """is {neg >= 0} + facts + ranges infeasible (Fourier-Motzkin, bounded)"""
        cons = [neg] + [self.nlin(f) for f in self.facts]
        rel = set(a for a, k in neg.t)
        chosen = [neg]
        rest = cons[1:]
        changed = True
        while changed:
            changed = False
            for f in list(rest):
                if isinstance(f, int):
                    rest.remove(f)
                    if f < 0:
                        return True
                    continue
                if any(a in rel for a, k in f.t):
                    chosen.append(f)
                    rest.remove(f)
                    rel |= set(a for a, k in f.t)
                    changed = True
        for a in rel:
            lo, hi = self.arange(a)
            if lo > -INTMAX:
                chosen.append(atom(a, 1, -lo))
            if hi < INTMAX:
                chosen.append(atom(a, -1, hi))
        cur = set(chosen)
        while True:
            atoms = {}
            for f in cur:
                if isinstance(f, int):
                    if f < 0:
                        return True
                    continue
                for a, k in f.t:
                    p, n = atoms.get(a, (0, 0))
                    atoms[a] = (p + (k > 0), n + (k < 0))
            if not atoms:
                return any(isinstance(f, int) and f < 0 for f in cur)
            a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1], repr(x)))
            pos, neg_, oth = [], [], set()
            for f in cur:
                if isinstance(f, int):
                    continue
                k = dict(f.t).get(a, 0)
                (pos if k > 0 else neg_ if k < 0 else [oth.add(f)] and []).append((f, k)) if k else oth.add(f)
            if len(pos) * len(neg_) > 400:
                return False
            for p, kp in pos:
                for n, kn in neg_:
                    x = ladd(lmul(p, -kn), n, kp)
                    if isinstance(x, int):
                        if x < 0:
                            return True
                    else:
                        oth.add(tighten(x))
            cur = oth
            if len(cur) > 400:
                return False

    def add_fact(self, e):
        e = self.nlin(e)
        if isinstance(e, int):
            if e < 0:
                raise Infeasible()
            return
        if self.prove_ge(ladd(-1, e, -1)):
            raise Infeasible()
        lo, hi = self.range(e)
        if lo >= 0:
            return
        if len(e.t) == 1:
            a, k = e.t[0]
            if a[0] in ('i', 'L', 'u'):
                l, h = self.arange(a)
                if k > 0:
                    l = max(l, -(e.c // k))
                else:
                    h = min(h, e.c // (-k))
                if l > h:
                    raise Infeasible()
                self.rng[a] = (l, h)
                if l == h:
                    self.bind_int(a, l)
                return
        if e not in self.facts:
            self.facts = self.facts + (e,)
            if len(e.t) <= 3 and self.prove_ge(lmul(e, -1)):
                # equality: solve for an integer atom
                for a, k in e.t:
                    if a[0] == 'i' and abs(k) == 1:
                        rest = ladd(e, atom(a), -k)
                        self.bind_int(a, lmul(rest, -k))
                        break

    def add_eq(self, e):
        e = self.nlin(e)
        if isinstance(e, Lin) and e not in self.facts:
            self.facts = self.facts + (e, lmul(e, -1))

    def bind_int(self, a, v):
        if a[0] in ('i', 'u'):
            lo, hi = self.arange(a)
            self.bind[a] = v
            if isinstance(v, int):
                if not (lo <= v <= hi):
                    raise Infeasible()
            else:
                if lo > -INTMAX:
                    self.add_fact(ladd(v, -lo))
                if hi < INTMAX:
                    self.add_fact(ladd(hi, v, -1))
        elif a[0] == 'L' and isinstance(v, int):
            it = a[1]
            if v == 0 and it[0] in ('s', 't'):
                self.bind_seq(it, EMPTY)
            else:
                self.rng[a] = (v, v)
        self.check_facts()

    def check_facts(self):
        out = []
        for f in self.facts:
            n = self.nlin(f)
            if isinstance(n, int):
                if n < 0:
                    raise Infeasible()
                continue
            lo, hi = self.range(n)
            if hi < 0:
                raise Infeasible()
            if lo >= 0:
                continue
            if len(n.t) == 1 and n.t[0][0][0] in ('i', 'L', 'u') and n.t[0][0] not in self.bind:
                a, k = n.t[0]
                l, h = self.arange(a)
                if k > 0:
                    l = max(l, -(n.c // k))
                else:
                    h = min(h, n.c // (-k))
                if l > h:
                    raise Infeasible()
                self.rng[a] = (l, h)
                if l == h and a[0] == 'i':
                    self.bind[a] = l
                if a[0] == 'L' and h == 0 and a[1][0] in ('s', 't'):
                    self.bind[a[1]] = EMPTY
                continue
            out.append(n)
        seen = {}
        for n in out:
            m = seen.get(lmul(n, -1).t)
            if m is not None and m + n.c < 0:
                raise Infeasible()
            seen[n.t] = min(n.c, seen.get(n.t, n.c))
        self.facts = tuple(out)

    def contradictory(self):
        try:
            self.check_facts()
            return any(self._fm(f) for f in self.facts) or not self.pairs_feasible()
        except Infeasible:
            return True

    # -------------------------------------------------- finite-domain values
    def fdv_atoms(self, e):
        """set of parent 'c' atoms if e is built of finite-domain atoms only"""
        ps = set()
        for a, k in e.t:
            if a[0] == 'c':
                ps.add(a)
            elif a[0] == 'tab':
                ps.add(a[1])
            else:
                return None
        return ps

    def canon_fdv(self, e):
        """canonical form of a sum of tables over finite-domain values"""
        ps = self.fdv_atoms(e)
        if ps is None:
            return e
        c = e.c
        d = {}
        for p in ps:
            m = self.mask_of(p)
            ks = [(a, k) for a, k in e.t if a == p or (a[0] == 'tab' and a[1] == p)]
            dom_ = list(bits(m))
            vals = [sum(k * (v if a[0] == 'c' else a[2][v]) for a, k in ks) for v in dom_]
            base = vals[0]
            c += base
            if all(x == base for x in vals):
                continue
            sl, r = divmod(vals[1] - vals[0], dom_[1] - dom_[0])
            if r == 0 and all(x - base == sl * (v - dom_[0]) for x, v in zip(vals, dom_)):
                d[p] = sl
                c -= sl * dom_[0]
                continue
            g = 0
            for x in vals:
                g = gcd(g, abs(x - base))
            t = [0] * 256
            for v, x in zip(dom_, vals):
                t[v] = (x - base) // g
            d[('tab', p, tuple(t))] = g
        return lin(c, d)

    def mask_of(self, a):
        return self.dom.get(a[1], FULL)

    def set_mask(self, a, m):
        if m == 0:
            raise Infeasible()
        self.dom[a[1]] = m
        if self.diseq and m & (m - 1) == 0:
            self.check_diseq()

    def eval1(self, e, p, v):
        """value of single-parent linear form e for parent p = v"""
        c = e.c
        for a, k in e.t:
            c += k * (v if a[0] == 'c' else a[2][v])
        return c

    def split_fdv(self, e, pred):
        """partition by pred(value of e); returns [(state, bool)] or None"""
        ps = self.fdv_atoms(e)
        if ps is None:
            return None
        if len(ps) == 2:
            e = self.canon_fdv(e)
            if isinstance(e, int):
                return [(self, bool(pred(e)))]
            ps = self.fdv_atoms(e)
            self.canon_vdom()
        if len(ps) == 1:
            p = next(iter(ps))
            m = self.mask_of(p)
            yes = no = 0
            for v in bits(m):
                if pred(self.eval1(e, p, v)):
                    yes |= 1 << v
                else:
                    no |= 1 << v
            out = []
            if yes and no:
                s2 = self.clone()
                s2.nfork += 1
                s2.set_mask(p, no)
                self.nfork += 1
                self.set_mask(p, yes)
                return [(self, True), (s2, False)]
            return [(self, bool(yes))]
        if len(ps) == 2:
            p, q = sorted(ps)
            mp, mq = self.mask_of(p), self.mask_of(q)
            if bin(mp).count('1') * bin(mq).count('1') > 70000:
                return None
            key = Lin(0, e.t)
            neg = Lin(0, tuple((a, -k) for a, k in e.t))
            cur = self.vdom.get(key)
            if e.c == 0 and pred(0) and not pred(1) and not pred(-1) and len(e.t) == 2 and all(a[0] == 'c' and abs(k) == 1 for a, k in e.t) \
                    and e.t[0][1] == -e.t[1][1]:
                # equality of two bytes: one replaces the other
                m = mp & mq if cur is None or 0 in cur else 0
                out = []
                if m and not (mp == mq == m and m & (m - 1) == 0):
                    s2 = self.clone()
                    s2.nfork += 1
                    vals = cur if cur is not None else set(v - w for v in bits(mp) for w in bits(mq))
                    s2.vdom[key] = frozenset(x for x in vals if x)
                    s2.vdom[neg] = frozenset(-x for x in s2.vdom[key])
                    if s2.vdom[key]:
                        out.append((s2, False))
                if not m:
                    return [(self, False)]
                if out:
                    self.nfork += 1
                self.set_mask(p, m)
                self.bind[q] = atom(p)
                try:
                    self.rekey()
                    if self.facts:
                        self.check_facts()
                    if self.diseq:
                        self.check_diseq()
                    out.insert(0, (self, True))
                except Infeasible:
                    if not out:
                        raise
                return out
            vals = set()
            for v in bits(mp):
                for w in bits(mq):
                    x = 0
                    for a, k in e.t:
                        pa = a if a[0] == 'c' else a[1]
                        y = v if pa == p else w
                        x += k * (y if a[0] == 'c' else a[2][y])
                    vals.add(x)
            if cur is not None:
                vals &= cur
            yes = frozenset(x for x in vals if pred(x + e.c))
            no = frozenset(vals - yes)
            if yes and no:
                s2 = self.clone()
                s2.nfork += 1
                self.nfork += 1
                s2.vdom[key] = no
                self.vdom[key] = yes
                s2.vdom[neg] = frozenset(-x for x in no)
                self.vdom[neg] = frozenset(-x for x in yes)
                return [(self, True), (s2, False)]
            if not yes and not no:
                raise Infeasible()
            return [(self, bool(yes))]
        return None

    def canon_vdom(self):
        """one form per combination, under the present masks"""
        d = {}
        ch = False
        for k, v in self.vdom.items():
            q = k
            if not all(a[0] == 'c' for a, x in k.t):
                n = self.canon_fdv(k)
                if isinstance(n, int):
                    if n not in v:
                        raise Infeasible()
                    ch = True
                    continue
                q = Lin(0, n.t)
                if q != k:
                    ch = True
                    v = frozenset(x - n.c for x in v)
            d[q] = d[q] & v if q in d else v
            if not d[q]:
                raise Infeasible()
        if ch:
            self.vdom = d

    def pairs_feasible(self):
        """are there values for every two bytes that are related to each other?"""
        groups = {}
        for k, v in self.vdom.items():
            ps = self.fdv_atoms(k)
            if ps and len(ps) == 2:
                groups.setdefault(tuple(sorted(ps)), []).append((k, v))
        for (p, q), ks in groups.items():
            mp, mq = bits(self.mask_of(p)), bits(self.mask_of(q))
            for x in mp:
                for y in mq:
                    if all(sum(f * ((x if (a if a[0] == 'c' else a[1]) == p else y) if a[0] == 'c' else a[2][x if a[1] == p else y])
                               for a, f in k.t) in v for k, v in ks):
                        break
                else:
                    continue
                break
            else:
                return False
        return True

    def rekey(self):
        """value sets of byte combinations after a substitution"""
        d = {}
        for k, v in self.vdom.items():
            n = self.nlin(k)
            if isinstance(n, int):
                if n not in v:
                    raise Infeasible()
                continue
            q = Lin(0, n.t)
            v = frozenset(x - n.c for x in v)
            d[q] = d[q] & v if q in d else v
            if not d[q]:
                raise Infeasible()
        self.vdom = d

    # ----------------------------------------------------------- case splits
    def split_ge(self, e):
        e = self.nlin(e)
        if isinstance(e, int):
            return [(self, e >= 0)]
        lo, hi = self.range(e)
        if lo >= 0:
            return [(self, True)]
        if hi < 0:
            return [(self, False)]
        r = self.split_fdv(e, lambda x: x >= 0)
        if r is not None:
            return r
        if self.facts:
            if self.prove_ge(e):
                return [(self, True)]
            if self.prove_ge(ladd(-1, e, -1)):
                return [(self, False)]
        if len(e.t) == 1 and e.t[0][0][0] == 'L' and abs(e.t[0][1]) == 1:
            it = e.t[0][0][1]
            k = e.t[0][1]
            th = abs(e.c)
            if it[0] in ('s', 't') and th <= 8:
                out = []
                for s in self.expand(it):
                    out.extend(s.split_ge(e))
                return out
        out = []
        s2 = self.clone()
        self.nfork += 1
        s2.nfork += 1
        try:
            self.add_fact(e)
            out.append((self, True))
        except Infeasible:
            pass
        try:
            s2.add_fact(ladd(-1, e, -1))
            out.append((s2, False))
        except Infeasible:
            pass
        if not out:
            raise Infeasible()
        return out

    def split_eq(self, e):
        e = self.nlin(e)
        if isinstance(e, int):
            return [(self, e == 0)]
        lo, hi = self.range(e)
        if lo > 0 or hi < 0:
            return [(self, False)]
        r = self.split_fdv(e, lambda x: x == 0)
        if r is not None:
            return r
        # two different finite-domain atoms compared directly
        if self.facts:
            if self.prove_ge(ladd(e, -1)) or self.prove_ge(ladd(-1, e, -1)):
                return [(self, False)]
        if len(e.t) == 1 and e.t[0][0][0] == 'L' and abs(e.t[0][1]) == 1:
            it = e.t[0][0][1]
            if it[0] in ('s', 't') and abs(e.c) <= 8:
                out = []
                for s in self.expand(it):
                    out.extend(s.split_eq(e))
                return out
        out = []
        s1 = self.clone()
        s1.nfork += 1
        try:
            done = False
            for a, k in e.t:
                if a[0] in ('i', 'u') and abs(k) == 1:
                    rest = ladd(e, atom(a), -k)
                    s1.bind_int(a, lmul(rest, -k))
                    done = True
                    break
            if not done:
                s1.add_fact(e)
                s1.add_fact(lmul(e, -1))
            out.append((s1, True))
        except Infeasible:
            pass
        for f in (ladd(e, -1), ladd(-1, e, -1)):
            s2 = self.clone()
            s2.nfork += 1
            try:
                s2.add_fact(f)
                out.append((s2, False))
            except Infeasible:
                pass
        if not out:
            raise Infeasible()
        return out

    # ------------------------------------------------------------- sequences
    def kind_of(self, it):
        if it[0] == 's':
            return self.skind.get(it[1], 'b')
        return term_kind(it)

    def fresh_elem(self, kind, mask=FULL):
        if kind == 'b':
            i = fresh()
            if mask != FULL:
                if mask == 0:
                    raise Infeasible()
                self.dom[i] = mask
            return atom(('c', i))
        if kind == 's':
            return sym_seq()
        if isinstance(kind, tuple) and kind[0] == 's':
            s = sym_seq()
            if len(kind) > 1:
                self.smask[s[0][1]] = kind[1]
            return s
        mk = ELEM_MAKERS.get(kind)
        if mk is None:
            raise Unsupported(f'no element rule for sequence kind {kind}')
        return mk(self)

    def fresh_seq(self, kind='b', mask=FULL):
        i = fresh()
        if kind != 'b':
            self.skind[i] = kind
        if mask != FULL:
            self.smask[i] = mask
        return Seq((('s', i),))

    def item_mask(self, it):
        if it[0] == 's':
            return self.smask.get(it[1], FULL)
        if it[0] == 't':
            return self.oracle.get(('tmask', it), FULL)
        return FULL

    def bind_seq(self, it, seq):
        if seq and it in seq:
            if len(seq) == 1:
                return
            raise Infeasible()
        r = self.rng.get(('L', it))
        self.bind[it] = seq
        if r:
            self.add_fact(ladd(self.seqlen(seq), -r[0]))
            if r[1] < LENMAX:
                self.add_fact(ladd(r[1], self.seqlen(seq), -1))
        if self.facts:
            self.check_facts()
        if self.diseq:
            self.check_diseq()

    def check_diseq(self):
        out = []
        for a, b in self.diseq:
            x, y = self.nseq(a), self.nseq(b)
            if x == y:
                raise Infeasible()
            if self.def_diff(x, y):
                continue
            out.append((x, y))
        self.diseq = tuple(out)

    def def_diff(self, x, y):
        d = ladd(self.seqlen(x, True), self.seqlen(y, True), -1)
        lo, hi = self.range(d)
        if lo > 0 or hi < 0:
            return True
        for seqs in ((x, y), (x[::-1], y[::-1])):
            for a, b in zip(*seqs):
                if a[0] == 'e' and b[0] == 'e':
                    if a[1] == b[1]:
                        continue
                    if self.val_diff(a[1], b[1]):
                        return True
                    continue
                if a == b:
                    continue
                break
        return False

    def val_diff(self, a, b):
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.def_diff(a, b)
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = self.nlin(ladd(a, b, -1))
            if isinstance(d, int):
                return d != 0
            ps = self.fdv_atoms(d)
            if ps and len(ps) == 1:
                p = next(iter(ps))
                return all(self.eval1(d, p, v) != 0 for v in bits(self.mask_of(p)))
            lo, hi = self.range(d)
            return lo > 0 or hi < 0
        return False

    def expand(self, it, end=False):
        """case split: item it is empty, or starts (ends) with an element"""
        out = []
        if it[0] == 't':
            f = TERM_EXPAND.get(it[1])
            if f:
                r = f(self, it, end)
                if r is not None:
                    return r
        kind = self.kind_of(it)
        mask = self.item_mask(it)
        lo, hi = self.arange(('L', it))
        both = lo <= 0 and hi >= 1
        if lo <= 0:
            s = self.clone() if hi >= 1 else self
            if both:
                s.nfork += 1
            try:
                s.bind_seq(it, EMPTY)
                out.append(s)
            except Infeasible:
                pass
        if hi >= 1:
            s = self
            if both:
                s.nfork += 1
            try:
                s.grow(it, kind, mask, lo, hi, end)
                out.append(s)
            except Infeasible:
                pass
        return out

    def grow(self, it, kind=None, mask=None, lo=None, hi=None, end=False):
        if kind is None:
            kind = self.kind_of(it)
            mask = self.item_mask(it)
            lo, hi = self.rng.get(('L', it), (0, LENMAX))
        if mask == 0:
            raise Infeasible()
        e = self.fresh_elem(kind, mask)
        tail = self.fresh_seq(kind, mask) if hi > 1 else EMPTY
        if tail and (lo > 1 or hi < LENMAX):
            self.rng[('L', tail[0])] = (max(lo - 1, 0), hi - 1 if hi < LENMAX else hi)
        seq = (tail + elem(e)) if end else (elem(e) + tail)
        self.rng.pop(('L', it), None)
        self.bind_seq(it, seq)
        return e, tail

    def seq_eq(self, a, b):
        """case split on equality of two sequences: [(state, bool)]"""
        a, b = self.nseq(a), self.nseq(b)
        if a == b:
            return [(self, True)]
        # strip identical ends
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1
        a, b = Seq(a[i:]), Seq(b[i:])
        while a and b and a[-1] == b[-1]:
            a, b = Seq(a[:-1]), Seq(b[:-1])
        if not a and not b:
            return [(self, True)]
        if self.def_diff(a, b):
            return [(self, False)]
        for x, y in self.diseq:
            if (x, y) == (a, b) or (x, y) == (b, a):
                return [(self, False)]
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and x[0][0] in ('s', 't') and x[0] not in y:
                if not y:
                    lo, hi = self.arange(('L', x[0]))
                    if lo > 0:
                        return [(self, False)]
                    if hi <= 0:
                        self.bind_seq(x[0], EMPTY)
                        return [(self, True)]
                m = self.item_mask(x[0])
                out = []
                s1 = self.clone()
                s1.nfork += 1
                ok = True
                if m != FULL:
                    for it in y:
                        if it[0] == 'e' and isinstance(it[1], int) and not (m >> it[1]) & 1:
                            ok = False
                        elif it[0] == 's' and s1.kind_of(it) == 'b':
                            mm = s1.smask.get(it[1], FULL) & m
                            s1.smask[it[1]] = mm
                        elif it[0] == 'e' and isinstance(it[1], Lin) and it[1].c == 0 and len(it[1].t) == 1 and it[1].t[0][0][0] == 'c' and it[1].t[0][1] == 1:
                            p = it[1].t[0][0]
                            mm = s1.mask_of(p) & m
                            if mm == 0:
                                ok = False
                            else:
                                s1.dom[p[1]] = mm
                if ok:
                    try:
                        s1.bind_seq(x[0], y)
                        out.append((s1, True))
                    except Infeasible:
                        pass
                self.nfork += 1
                self.diseq = self.diseq + ((x, y),)
                out.append((self, False))
                return out
        # element by element
        for end in (False, True):
            j = -1 if end else 0
            if not a or not b:
                x = a or b
                it = x[j]
                if it[0] == 'e':
                    return [(self, False)]
                if it[0] == 'm':
                    raise Unsupported('comparing comprehension')
                out = []
                for s in self.expand(it, end):
                    out.extend(s.seq_eq(a, b))
                return out
            x, y = a[j], b[j]
            if x[0] == 'e' and y[0] == 'e':
                out = []
                ra, rb = (a[:-1], b[:-1]) if end else (a[1:], b[1:])
                for s, r in self.val_eq(x[1], y[1]):
                    if r:
                        out.extend(s.seq_eq(Seq(ra), Seq(rb)))
                    else:
                        out.append((s, False))
                return out
            for p, q in ((x, y), (y, x)):
                if p[0] in ('s', 't') and q[0] == 'e':
                    out = []
                    for s in self.expand(p, end):
                        out.extend(s.seq_eq(a, b))
                    return out
        # unknown pieces against unknown pieces: keep both outcomes as an oracle
        key = ('seqeq', a, b)
        if key in self.oracle:
            return [(self, self.oracle[key])]
        s1 = self.clone()
        s1.nfork += 1
        self.nfork += 1
        s1.oracle[key] = True
        self.oracle[key] = False
        s1.lineage[-2] = self.lineage[-2] = 1      # an answer not tied to the sequences: nothing definite from here on
        return [(s1, True), (self, False)]

    def val_eq(self, x, y):
        if isinstance(x, Seq) and isinstance(y, Seq):
            return self.seq_eq(x, y)
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            return self.split_eq(ladd(x, y, -1))
        if x == y:
            return [(self, True)]
        raise Unsupported(f'comparing {x} and {y}')

    # ------------------------------------------------------ cutting sequences
    def cut(self, s, pos):
        """split sequence at position: [(state, left, right)], left None if out of range"""
        s = self.nseq(s)
        pos = self.nlin(pos)
        if not isinstance(pos, int) and s:
            k = self.nlin(ladd(self.seqlen(s), pos, -1))
            if isinstance(k, int) and k <= 64:
                # a known distance from the end
                if k < 0:
                    return [(self, None, None)]
                if k == 0:
                    return [(self, s, EMPTY)]
                if s[-1][0] == 'e':
                    out = []
                    for st, l, r in self.cut(Seq(s[:-1]), pos):
                        out.append((st, l, r if l is None else st.nseq(r) + st.nseq(Seq(s[-1:]))))
                    return out
                if s[-1][0] in ('s', 't'):
                    out = []
                    for st in self.expand(s[-1], True):
                        out.extend(st.cut(s, pos))
                    return out
        left = []
        rest = pos
        i = 0
        while True:
            if isinstance(rest, int):
                if rest == 0:
                    return [(self, Seq(left), Seq(s[i:]))]
                if rest < 0:
                    return [(self, None, None)]
            if i >= len(s):
                out = []
                for st, r in self.split_ge(ladd(rest, -1)):
                    if r:
                        out.append((st, None, None))
                    else:
                        for st2, r2 in st.split_ge(rest):
                            out.append((st2, Seq(left), EMPTY) if r2 else (st2, None, None))
                return out
            it = s[i]
            if it[0] == 'e':
                if not isinstance(rest, int) and not self.prove_ge(ladd(rest, -1)):
                    out = []
                    for st, r in self.split_ge(ladd(rest, -1)):
                        out.extend(st.cut(s, pos) if r else
                                   [(q, Seq(left), Seq(s[i:])) if e else (q, None, None) for q, e in st.split_eq(rest)])
                    return out
                left.append(it)
                rest = self.nlin(ladd(rest, -1))
                i += 1
                continue
            ln = self.seqlen(Seq((it,)), True)
            d = ladd(rest, ln, -1)
            if self.prove_ge(d):
                left.append(it)
                rest = self.nlin(d)
                i += 1
                continue
            if isinstance(rest, int) and it[0] in ('s', 't') and rest <= 64:
                out = []
                for st in self.expand(it):
                    out.extend(st.cut(s, pos))
                return out
            if it[0] in ('s', 't'):
                # symbolic position: inside this item?
                out = []
                for st, r in self.split_ge(ladd(d, 0)):
                    if r:
                        out.extend(st.cut(s, pos))
                        continue
                    # 0 <= rest < len(it)
                    for st2, r2 in ([(st, rest >= 0)] if isinstance(rest, int) else st.split_ge(rest)):
                        if not r2:
                            out.append((st2, None, None))
                            continue
                        out.append(st2.cut_inside(s, i, left, rest))
                return out
            if it[0] == 'm':
                # inside a comprehension with single-element bodies
                raise Unsupported('cut inside a comprehension')
            raise Unsupported('cut')

    def cut_inside(self, s, i, left, rest):
        it = s[i]
        kind, mask = self.kind_of(it), self.item_mask(it)
        a = self.fresh_seq(kind, mask)
        b = self.fresh_seq(kind, mask)
        rest = self.nlin(rest)
        self.bind_seq(it, a + b)
        la = atom(('L', a[0]))
        done = False
        for x, k in (() if isinstance(rest, int) else rest.t):
            if x[0] == 'i' and abs(k) == 1:
                self.bind_int(x, lmul(ladd(ladd(rest, atom(x), -k), la, -1), -k))
                done = True
                break
        if not done:
            self.add_fact(ladd(la, rest, -1))
            self.add_fact(ladd(rest, la, -1))
        return (self, Seq(left) + a, b + Seq(s[i + 1:]))

    def slice(self, s, lo, n):
        """[(state, Seq or None)] for s[lo:lo+n], clipped at the end; n None = to the end"""
        out = []
        for st, l, r in self.cut(s, lo):
            if l is None:
                out.append((st, None))
                continue
            if n is None:
                out.append((st, r))
                continue
            for st2, l2, r2 in st.cut(st.nseq(r), n):
                out.append((st2, st2.nseq(r) if l2 is None else l2))
        return out

    def in_mask(self, v, mask):
        """split: is byte value v in mask"""
        v = self.nlin(v)
        if isinstance(v, int):
            return [(self, bool((mask >> v) & 1))]
        return self.split_fdv(v, lambda x: bool((mask >> (x & 255)) & 1))

    def find(self, s, mask, rev=False):
        """first (last) element whose byte is in mask: [(state, left, elem, right)];
        left None when there is none"""
        s = self.nseq(s)
        n = len(s)
        rng = range(n - 1, -1, -1) if rev else range(n)
        for i in rng:
            it = s[i]
            if it[0] == 'e':
                rs = self.in_mask(it[1], mask)
                if rs is None:
                    raise Unsupported('find: element')
                if len(rs) == 1 and not rs[0][1]:
                    continue
                out = []
                for st, r in rs:
                    if r:
                        out.append((st, Seq(s[:i]), it[1], Seq(s[i + 1:])))
                    else:
                        out.extend(st.find(s, mask, rev))
                return out
            if it[0] in ('s', 't'):
                m = self.item_mask(it)
                if m & mask == 0:
                    continue
                lo, hi = self.rng.get(('L', it), (0, LENMAX))
                out = []
                st = self.clone()
                st.nfork += 1
                try:
                    if it[0] == 's':
                        if lo > 0 and m & ~mask == 0:
                            raise Infeasible()
                        if m & ~mask == 0:
                            st.bind_seq(it, EMPTY)
                        else:
                            st.smask[it[1]] = m & ~mask & FULL
                    else:
                        st.oracle[('tmask', it)] = m & ~mask & FULL
                    out.extend(st.find(s, mask, rev))
                except Infeasible:
                    pass
                st = self
                st.nfork += 1
                try:
                    if hi < 1:
                        raise Infeasible()
                    a = st.fresh_seq('b', m & (FULL if rev else ~mask & FULL))
                    b = st.fresh_seq('b', m & (~mask & FULL if rev else FULL))
                    c = st.fresh_elem('b', m & mask)
                    st.rng.pop(('L', it), None)
                    st.bind_seq(it, a + elem(c) + b)
                    if lo > 1:
                        st.add_fact(ladd(st.seqlen(a + elem(c) + b), -lo))
                    s2l = st.nseq(Seq(s[:i]) + a)
                    s2r = st.nseq(b + Seq(s[i + 1:]))
                    out.append((st, s2l, st.nlin(c), s2r))
                except Infeasible:
                    pass
                return out
            raise Unsupported('find in comprehension')
        return [(self, None, None, None)]


def tighten(x):
    from math import gcd
    g = 0
    for a, k in x.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
    return x


_BITS = {}


def bits(m):
    r = _BITS.get(m)
    if r is None:
        l = []
        x = m
        while x:
            b = x & -x
            l.append(b.bit_length() - 1)
            x ^= b
        r = tuple(l)
        if len(_BITS) < 100000:
            _BITS[m] = r
    return r


def mask_chars(cs):
    m = 0
    for c in cs:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


# ------------------------------------------------------------ comprehensions
def inst_body(st, body, k):
    def fa(a):
        if a == K:
            return k
        if a[0] == 'L':
            n = fi(a[1])
            if len(n) == 1 and n[0] == a[1]:
                return atom(a)
            return st.seqlen(Seq(n)) if st else atom(('L', n[0]))
        if a[0] == 'u':
            return atom(('u', a[1], map_val(a[2], fa, fi)))
        return atom(a)

    def fi(it):
        if it[0] == 'e':
            return (('e', map_val(it[1], fa, fi)),)
        if it[0] == 't':
            return (('t', it[1], map_val(it[2], fa, fi)),)
        return (it,)
    return map_val(Seq(body), fa, fi)


def comp_normal(st, items):
    """absorb neighbours equal to the body instance and rotate to a canonical form"""
    items = list(items)
    changed = True
    while changed:
        changed = False
        for i, it in enumerate(items):
            if it[0] != 'm':
                continue
            body, lo, hi = it[1], it[2], it[3]
            n = len(body)
            nxt = st.nseq(inst_body(st, body, hi))
            if len(nxt) and tuple(items[i + 1:i + 1 + len(nxt)]) == tuple(nxt):
                items[i:i + 1 + len(nxt)] = [('m', body, lo, ladd(hi, 1))]
                changed = True
                break
            prv = st.nseq(inst_body(st, body, ladd(lo, -1)))
            if len(prv) and i >= len(prv) and tuple(items[i - len(prv):i]) == tuple(prv):
                items[i - len(prv):i + 1] = [('m', body, ladd(lo, -1), hi)]
                changed = True
                break
            # rotation: body = c g ; preceded by g at lo-1  ->  body' = g c
            for cut in range(1, n):
                c, g = body[:cut], body[cut:]
                gi = st.nseq(inst_body(st, g, ladd(lo, -1)))
                if len(gi) and i >= len(gi) and tuple(items[i - len(gi):i]) == tuple(gi):
                    cc = c
                    # c must not depend on k, else it cannot be moved to the previous round
                    if inst_body(st, c, 0) != Seq(c):
                        continue
                    items[i - len(gi):i + 1] = [('m', tuple(g) + tuple(cc), ladd(lo, -1), ladd(hi, -1))] + \
                        list(st.nseq(inst_body(st, g, ladd(hi, -1))))
                    changed = True
                    break
            if changed:
                break
    return items


# -------------------------------------------------------------- term registry
SPEC_TERMS = set()      # specification terms: unfolded at loop heads and at the end only
SPEC_ON = [False]
ELEM_MAKERS = {}
TERM_KIND = {}
TERM_EXPAND = {}
TERM_MINLEN = {}
TERM_SIMPLIFY = {}


def term_kind(it):
    k = TERM_KIND.get(it[1], 'b')
    return k(it) if callable(k) else k


def simplify_term(st, it):
    f = TERM_SIMPLIFY.get(it[1])
    return f(st, it) if f else None
