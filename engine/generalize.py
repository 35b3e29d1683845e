"""Joining of abstract states and generalisation at loop heads.

A loop head collects samples (abstract states that reached it) per partition class
and, after the first few, replaces them by their least general generalisation
(n-ary anti-unification of all values).  A state that reaches the head later is
covered when adding it to the samples does not change the generalisation; otherwise
the generalisation grows and everything derived from the smaller one is discarded.
The loop is done when every state that reaches its head is covered: the
generalisation is then an inductive invariant."""
from values import *
from state import *
import state as S

RAW = 1
MAXVER = 14


class Fail(Exception):
    pass


# ------------------------------------------------------------------ traversal
class Trav:
    """slots of a state in canonical order"""
    __slots__ = ('num', 'ids', 'slots', 'shape')


def nphi(f):
    b = f.fn.blocks[f.blk]
    i = 0
    while i < len(b) and b[i]['op'] == 'phi':
        i += 1
    return i


def live_regs(f, top):
    if top:
        i = f.idx
        if f.blk in f.fn.heads and i == 0:
            i = nphi(f)
            l = f.fn.live_at(f.blk, i)
        else:
            l = f.fn.live_at(f.blk, i)
    else:
        o = f.fn.blocks[f.blk][f.idx]
        l = f.fn.live_at(f.blk, f.idx + 1) - {o['id']}
    return sorted(r for r in l if r in f.regs)


def traverse(st):
    """normalise all live values in place and list them"""
    st.canonfd = True
    try:
        return traverse2(st)
    finally:
        st.canonfd = False


def traverse2(st):
    num = {}
    ids = []
    queue = []
    slots = []
    shape = []

    def visit_region(r):
        if r[0] == 'o' or r[0] == 'g':
            k = r[1] if r[0] == 'o' else r
            if k not in num and k in st.objs:
                num[k] = len(ids)
                ids.append(k)
                queue.append(k)
        elif r[0] in ('v', 's', 'mend'):
            visit_region(r[1])

    def visit(v):
        if isinstance(v, Ptr):
            visit_region(v.r)
        elif isinstance(v, Seq):
            for it in v:
                if it[0] == 'e' and isinstance(it[1], (Ptr, Struct, Box)):
                    visit(it[1])
        elif isinstance(v, Struct):
            for o, s, x in v.f:
                visit(x)
        elif isinstance(v, Box):
            if v.k in ('vec', 'agg', 'opq'):
                visit(v.a)
                visit(v.b)
            elif v.k == 'map' and v.a is None:
                for k, e in v.b:
                    if e is not None:
                        visit_region(('o', e))
        elif isinstance(v, tuple):
            for x in v:
                visit(x)

    n = len(st.frames)
    for fi, f in enumerate(st.frames):
        lr = live_regs(f, fi == n - 1)
        nr = {}
        for r in lr:
            v = st.norm(f.regs[r])
            nr[r] = v
            slots.append((('r', fi, r), v))
            visit(v)
        f.regs = nr
    for k in sorted(st.ghost):
        v = st.norm(st.ghost[k])
        st.ghost[k] = v
        slots.append((('gh', k), v))
        visit(v)
    for k in sorted((k for k in st.objs if isinstance(k, tuple)), key=repr):
        visit_region(k)
    qi = 0
    while qi < len(queue):
        k = queue[qi]
        qi += 1
        o = st.objs[k]
        o2 = o.clone()
        shape.append((o.site, o.lazy, o.freed, tuple((off, c[0]) for off, c in sorted(o.cells.items()))))
        for off in sorted(o.cells):
            sz, v = o.cells[off]
            if not (isinstance(v, str)):
                v = st.norm(v)
                o2.cells[off] = (sz, v)
                slots.append((('m', num[k], off, sz), v))
                visit(v)
        st.objs[k] = o2
    t = Trav()
    t.num = num
    t.ids = ids
    t.slots = slots
    t.shape = tuple(shape)
    return t


def gc(st, t):
    """drop unreachable objects and all bindings (every live value is normalised)"""
    keep = set(t.ids)
    # objects referenced from known map entries stay
    work = list(keep)
    while work:
        k = work.pop()
        for off, (sz, v) in st.objs[k].cells.items():
            if isinstance(v, Box) and v.k == 'map':
                for key, e in v.b:
                    if e is not None and e in st.objs and e not in keep:
                        keep.add(e)
                        work.append(e)
                        # normalise the content of objects not covered by traverse
            if k not in t.num:
                for o in ptr_objs(v):
                    if o in st.objs and o not in keep:
                        keep.add(o)
                        work.append(o)
    for k in keep:
        if k not in t.num:
            o = st.wobj(k)
            for off, (sz, v) in list(o.cells.items()):
                if not isinstance(v, str):
                    o.cells[off] = (sz, st.norm(v))
    for f in st.frames:
        for a in f.allocas:
            if a in st.objs:
                pass
    st.objs = {k: o for k, o in st.objs.items() if k in keep}
    st.facts = tuple(x for x in (st.nlin(f) for f in st.facts) if not isinstance(x, int))
    st.diseq = tuple((st.nseq(a), st.nseq(b)) for a, b in st.diseq)
    st.oracle = {norm_key(st, k): v for k, v in st.oracle.items()}
    st.ufacts = tuple(x for x in (norm_ufact(st, u) for u in st.ufacts) if x is not None)
    vd = {}
    st.canonfd = True
    for k, v in st.vdom.items():
        n = st.nlin(k)
        if isinstance(n, Lin):
            x = frozenset(y - n.c for y in v)
            n = Lin(0, n.t)
            vd[n] = vd[n] & x if n in vd else x
    st.canonfd = False
    st.vdom = vd


def ptr_objs(v):
    out = []
    if isinstance(v, Ptr):
        r = v.r
        while r[0] in ('v', 's', 'mend'):
            r = r[1]
        if r[0] == 'o':
            out.append(r[1])
    elif isinstance(v, Seq):
        for it in v:
            if it[0] == 'e':
                out += ptr_objs(it[1])
    elif isinstance(v, Struct):
        for o, s, x in v.f:
            out += ptr_objs(x)
    elif isinstance(v, Box) and v.k in ('vec', 'agg', 'opq'):
        out += ptr_objs(v.a) + ptr_objs(v.b)
    elif isinstance(v, tuple):
        for x in v:
            out += ptr_objs(x)
    return out


def norm_key(st, k):
    return tuple(st.norm(x) if isinstance(x, (Lin, Seq, Ptr, Box, Struct, tuple)) and not (isinstance(x, tuple) and not isinstance(x, Seq) and x and isinstance(x[0], str)) else
                 (norm_item(st, x) if isinstance(x, tuple) else x) for x in k)


def norm_item(st, x):
    if x and x[0] in ('s', 't', 'm', 'e'):
        n = st.nitem(x)
        return n if not isinstance(n, Seq) or len(n) != 1 else n[0]
    return x


def norm_ufact(st, u):
    return u


# -------------------------------------------------------------- canonical form
class Canon:
    def __init__(self, st, t):
        self.st = st
        self.t = t
        self.atoms = {}
        self.order = []
        self.mapobjs = {}
        self.useen = set()
        self.tseen = set()

    def num(self, a):
        n = self.atoms.get(a)
        if n is None:
            n = self.atoms[a] = len(self.order)
            self.order.append(a)
        return n

    def atom(self, a):
        k = a[0]
        if k == 'L':
            return ('L', self.item(a[1]))
        if k == 'tab':
            return ('tab', self.num(a[1]), a[2])
        if k == 'u':
            self.useen.add(a)
            return ('u', a[1], self.v(a[2]))
        return (k, self.num(a))

    def item(self, it):
        k = it[0]
        if k == 'e':
            return ('e', self.v(it[1]))
        if k == 's':
            return ('s', self.num(it))
        if k == 't':
            self.tseen.add(it)
            return ('t', it[1], self.v(it[2]))
        if k == 'm':
            return ('m', tuple(self.item(b) for b in it[1]), self.v(it[2]), self.v(it[3]))
        return it

    def region(self, r):
        if r[0] == 'o':
            n = self.t.num.get(r[1])
            return ('o', n if n is not None else ('x', self.mapobjs.setdefault(r[1], len(self.mapobjs))))
        if r[0] in ('v', 's', 'mend'):
            return (r[0], self.region(r[1]), self.v(r[2]))
        return r

    def v(self, v):
        if isinstance(v, Lin):
            return ('l', v.c, tuple(sorted(((self.atom(a), k) for a, k in v.t), key=repr)))
        if isinstance(v, Seq):
            return ('q',) + tuple(self.item(i) for i in v)
        if isinstance(v, Ptr):
            return ('p', self.region(v.r), self.v(v.o))
        if isinstance(v, Struct):
            return ('st',) + tuple((o, s, self.v(x)) for o, s, x in v.f)
        if isinstance(v, Box):
            if v.k == 'map':
                return ('map', v.a if v.a is None else self.num(('mb', v.a)),
                        tuple((self.v(k), None if e is None else self.region(('o', e))) for k, e in v.b), v.c)
            return ('bx', v.k, self.v(v.a), self.v(v.b), v.c)
        if isinstance(v, tuple):
            return ('t',) + tuple(self.v(x) for x in v)
        if v is UNDEF:
            return ('undef',)
        return v

    def build(self):
        st, t = self.st, self.t
        parts = [t.shape]
        for path, v in t.slots:
            parts.append((path, self.v(v)))
        done = set()
        # objects reachable only through known map entries
        i = 0
        while i < len(self.mapobjs):
            k = [x for x, n in self.mapobjs.items() if n == i][0]
            o = st.objs.get(k)
            if o is not None:
                parts.append(('mo', i, o.site, o.freed, tuple((off, c[0], self.v(c[1])) for off, c in sorted(o.cells.items()))))
            i += 1
        cons = []
        known = lambda a: self.known_atom(a)
        for f in st.facts:
            if all(known(a) for a, k in f.t):
                cons.append(('f', self.v(f)))
        for a, b in st.diseq:
            if self.known(a) and self.known(b):
                cons.append(('d', self.v(a), self.v(b)))
        for k, val in st.oracle.items():
            if self.known(k):
                cons.append(('or', self.v(k), val))
        for u in st.ufacts:
            if self.known(u):
                cons.append(('uf', self.v(u)))
        vds = []
        for k, val in st.vdom.items():
            if self.known(k):
                cv = self.v(k)
                cons.append(('vd', cv))
                vds.append((repr(cv), k, val))
        vds.sort(key=lambda x: x[0])
        cons.sort(key=repr)
        masks = []
        self.maskslots = []
        misc = []
        for n, a in enumerate(self.order):
            if a[0] == 'c':
                masks.append(st.dom.get(a[1], FULL))
                self.maskslots.append(a)
            elif a[0] == 's':
                misc.append((n, st.smask.get(a[1], FULL), st.skind.get(a[1], 'b'), st.rng.get(('L', a))))
            elif a[0] == 'i':
                misc.append((n, st.rng.get(a)))
        if isinstance(st.rng, dict):
            for a, r in st.rng.items():
                if a[0] == 'u' and self.known_atom(a):
                    misc.append((self.atom(a), r))
                elif a[0] == 'L' and a[1][0] != 's' and self.known_atom(a):
                    misc.append((self.atom(a), r))
        for r, k, val in vds:
            masks.append(val)
            self.maskslots.append(k)
        key = (tuple(parts), tuple(cons), tuple(sorted(misc, key=repr)), tuple(sorted(st.lineage.items())), st.gwrites)
        return key, tuple(masks)

    def known(self, v):
        ok = [True]

        def oa(a):
            if a[0] in ('i', 'c'):
                if a not in self.atoms and a != K:
                    ok[0] = False
            elif a[0] == 'u' and a not in self.useen:
                ok[0] = False

        def oi(it):
            if it[0] == 's' and it not in self.atoms:
                ok[0] = False
            elif it[0] == 't' and it not in self.tseen:
                ok[0] = False
        walk_any(v, oa, oi)
        return ok[0]

    def known_atom(self, a):
        return self.known(atom(a))


def walk_any(v, oa, oi):
    if isinstance(v, tuple) and not isinstance(v, Seq):
        if v and isinstance(v[0], str) and v[0] in ('s', 't', 'm', 'e') and len(v) in (2, 3, 4):
            walk_item(v, oa, oi)
            return
        for x in v:
            walk_any(x, oa, oi)
        return
    walk_atoms(v, oa, oi)


def prune_constraints(st, t):
    """forget constraints about symbols that no live value mentions"""
    c = Canon(st, t)
    for p, v in t.slots:
        c.v(v)
    seen = set(c.atoms)
    # objects behind map entries
    for k, o in st.objs.items():
        if k not in t.num:
            for off, (sz, v) in o.cells.items():
                if not isinstance(v, str):
                    c.v(v)
    for a, b in st.diseq:
        pass
    known = c.known
    st.facts = tuple(f for f in st.facts if known(f))
    st.diseq = tuple(d for d in st.diseq if known(d[0]) and known(d[1]))
    st.oracle = {k: v for k, v in st.oracle.items() if known(k)}
    st.ufacts = tuple(u for u in st.ufacts if known(u))
    st.vdom = {k: v for k, v in st.vdom.items() if known(k) and not vdom_full(st, k, v)}
    for f in st.facts:
        c.v(f)
    for d in st.diseq:
        c.v(d)
    for k in st.oracle:
        c.v(k)
    ids = {a[1] for a in c.atoms if a[0] == 'c'}
    st.dom = {k: v for k, v in st.dom.items() if k in ids}
    sids = {a[1] for a in c.atoms if a[0] == 's'}
    st.smask = {k: v for k, v in st.smask.items() if k in sids}
    st.skind = {k: v for k, v in st.skind.items() if k in sids}
    st.rng = {a: r for a, r in st.rng.items() if c.known_atom(a)}
    st.bind = {}


def vdom_full(st, k, v):
    ps = st.fdv_atoms(k)
    if not ps or len(ps) != 2:
        return False
    p, q = sorted(ps)
    mp, mq = list(bits(st.mask_of(p))), list(bits(st.mask_of(q)))
    if len(mp) * len(mq) > 1024:
        return False
    for a in mp:
        for b in mq:
            x = 0
            for at, c in k.t:
                y = a if (at if at[0] == 'c' else at[1]) == p else b
                x += c * (y if at[0] == 'c' else at[2][y])
            if x not in v:
                return False
    return True


def clean(st):
    t = traverse(st)
    gc(st, t)
    prune_constraints(st, t)
    return t


def quick_key(st):
    """states that differ in this are not merged"""
    g = st.ghost
    return tuple((k, g[k]) for k in sorted(g) if k[0] == '_')


def merge_states(E, sts):
    infos = []
    quick = {}
    for s in sts:
        if not E.gen.stale(s):
            quick.setdefault(quick_key(s), []).append(s)
    single = [l[0] for l in quick.values() if len(l) == 1]
    for s in (s for l in quick.values() if len(l) > 1 for s in l):
        try:
            t = clean(s)
        except Infeasible:
            continue
        k, m = Canon(s, t).build()
        infos.append([k, m, s])
    groups = {}
    for k, m, s in infos:
        groups.setdefault(k, []).append([m, s])
    out = []
    for k, lst in groups.items():
        # exact duplicates
        d = {}
        for m, s in lst:
            if m not in d:
                d[m] = s
        items = [[m, s] for m, s in d.items()]
        ch = True
        while ch and len(items) > 1:
            ch = False
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    a, b = items[i][0], items[j][0]
                    diff = [x for x in range(len(a)) if a[x] != b[x]]
                    sub = False
                    if len(diff) == 1:
                        x = diff[0]
                        u = a[x] | b[x]
                    elif all(a[x] | b[x] == a[x] for x in range(len(a))):
                        items.pop(j)
                        ch = True
                        break
                    elif all(a[x] | b[x] == b[x] for x in range(len(a))):
                        items.pop(i)
                        ch = True
                        break
                    else:
                        continue
                    st = items[i][1]
                    t = traverse(st)
                    c = Canon(st, t)
                    c.build()
                    q = c.maskslots[x]
                    if isinstance(q, Lin):
                        st.vdom[q] = u
                    else:
                        st.dom[q[1]] = u
                    items[i][0] = a[:x] + (u,) + a[x + 1:]
                    items.pop(j)
                    ch = True
                    break
                if ch:
                    break
        out.extend(s for m, s in items)
    return single + out


# --------------------------------------------------------------- generaliser
import os
ANCESTORS = True


class Cls:
    __slots__ = ('id', 'samples', 'G', 'Gkey', 'Glin', 'version', 'raws', 'key', 'absorbed', 'Gst')

    def __init__(self, i, key):
        self.id = i
        self.samples = []
        self.G = None
        self.Gkey = None
        self.version = 0
        self.raws = {}
        self.absorbed = {}
        self.Gst = None
        self.key = key


class Generalizer:
    def __init__(self, E):
        self.E = E
        self.classes = {}
        self.byid = []
        self.debug = False

    def stale(self, st):
        return self.stale_lin(st.lineage)

    def stale_lin(self, lin):
        for k, v in lin.items():
            if k >= 0 and self.byid[k].version != v:
                return True
        return False

    def at_head(self, st):
        E = self.E
        fr = st.frames[-1]
        if E.search is not None:
            st.cost += 1
            if E.search and E.plugin:
                E.plugin.at_head(E, st)
                if E.plugin.search_drop(E, st, E.rand):
                    return None
            S.SPEC_ON[0] = True
            try:
                clean(st)
            finally:
                S.SPEC_ON[0] = False
            return st
        hk = ('v', fr.blk)
        last = fr.heads.get(hk)
        if last is not None and last[0] == st.nfork and last[1] < 70:
            fr.heads[hk] = (st.nfork, last[1] + 1)
            return st
        fr.heads[hk] = (st.nfork, (last[1] + 1) if last and last[0] == st.nfork else 0)
        if E.plugin:
            E.plugin.at_head(E, st)
        S.SPEC_ON[0] = True
        try:
            t = clean(st)
        finally:
            S.SPEC_ON[0] = False
        skel, wins = skeleton(E, st, t)
        key = (E.pos(st), tuple(f.fn.name for f in st.frames), skel)
        c = self.classes.get(key)
        if c is None:
            c = self.classes[key] = Cls(len(self.byid), key)
            self.byid.append(c)
        ck = Canon(st, t).build()
        ckey = (ck[0][:3], ck[1])
        # a state is absorbed only by one whose own processing goes on: what was derived
        # from an outdated version of another class has been dropped
        if c.G is None:
            if ckey in c.raws:
                if not self.stale_lin(c.raws[ckey]):
                    return None
                c.raws[ckey] = dict(st.lineage)
                return st
            if len(c.samples) < RAW:
                c.raws[ckey] = dict(st.lineage)
                c.samples.append(freeze(st, t))
                return st
        alive = c.G is not None and not self.stale_lin(c.Glin)
        if ckey in c.raws and alive:
            return None
        if alive and c.Gst is not None:
            # covered by the current generalisation?
            try:
                H = AU(E, [freeze(st, t), c.Gst], wins, c.version).run()
                ht = clean(H)
                hk = Canon(H, ht).build()
                if (hk[0][:3], hk[1]) == c.Gkey:
                    c.raws[ckey] = dict(st.lineage)
                    c.absorbed[ckey] = st
                    return None
            except (Unsupported, Fail, Infeasible):
                pass
        G = self.antiunify(c.samples + [freeze(st, t)], wins, c.version)
        gt = clean(G)
        gk = Canon(G, gt).build()
        gkey = (gk[0][:3], gk[1])
        if c.G is not None and gkey == c.Gkey:
            c.raws[ckey] = dict(st.lineage)
            if alive:
                c.absorbed[ckey] = st
                return None
        else:
            c.raws[ckey] = dict(st.lineage)
            c.samples.append(freeze(st, t))
            c.version += 1
            # the states covered so far have to be covered by the new version as well
            for k, s in c.absorbed.items():
                c.raws.pop(k, None)
                if not self.stale(s):
                    s.frames[-1].heads[('in', s.frames[-1].blk)] = False
                    E.push(s)
            c.absorbed = {}
            if c.version > MAXVER:
                raise Unsupported(f'no fixpoint for the loop in {fr.fn.norm}')
            c.G = True
            c.Gkey = gkey
        G.lineage = dict(st.lineage) if ANCESTORS else {}
        G.lineage[c.id] = c.version
        c.Glin = dict(G.lineage)
        c.Gst = freeze(G, gt)
        f = G.frames[-1]
        f.heads = dict(f.heads)
        if self.debug:
            print(f'GEN class {c.id} v{c.version} {E.loc(G)} {fr.fn.norm}')
            if self.debug > 1:
                dump(G, gt)
        return G

    def antiunify(self, samples, wins, version=0):
        return AU(self.E, samples, wins, version).run()


def freeze(st, t):
    s = st.clone()
    s.tr = t
    return s


def dump(st, t=None):
    t = t or traverse(st)
    for p, v in t.slots:
        print('    ', p, v)
    print('     facts', st.facts)
    print('     rng', {atom_str(a): r for a, r in st.rng.items()})
    print('     ufacts', st.ufacts)
    print('     diseq', st.diseq)


def byte_slot(E, st, path, t):
    if path[0] == 'm':
        return path[3] == 1
    if path[0] == 'r':
        f = st.frames[path[1]]
        r = path[2]
        if r < f.fn.nargs:
            return f.fn.args[r][0] in ('i1', 'i8')
        return reg_ty(f.fn, r) in ('i1', 'i8')
    return False


_regty = {}


def reg_ty(fn, r):
    m = _regty.get(fn.name)
    if m is None:
        m = {}
        for b in fn.blocks:
            for o in b:
                m[o['id']] = o['ty']
        _regty[fn.name] = m
    return m.get(r)


def tshape(it):
    def sh(x):
        if isinstance(x, Seq):
            return tuple((i[0], i[1] if isinstance(i[1], int) else '?') if i[0] == 'e' else tshape(i) if i[0] == 't' else i[0] for i in x)
        if isinstance(x, (int, str)):
            return x
        return '?'
    return (it[1],) + tuple(sh(x) for x in it[2])


def skeleton(E, st, t):
    """partition key of a state at a loop head"""
    num = t.num
    out = [t.shape]
    tapes = E.plugin.tapes(E, st) if E.plugin else []
    infos = []
    for path_ptr, seq in tapes:
        seq = st.nseq(seq)
        if seq and seq[-1][0] in ('s', 't'):
            cons, ended = seq[:-1], False
        else:
            cons, ended = seq, True
        infos.append((path_ptr, Seq(cons), ended, st.seqlen(Seq(cons)), []))

    def reg(r):
        if r[0] == 'o':
            return ('o', num.get(r[1]))
        if r[0] in ('v', 's', 'mend'):
            return (r[0], reg(r[1]), st.norm(r[2]) if isinstance(st.norm(r[2]), int) else '?')
        return r

    def sk(v, byte, path, ghost=False):
        if isinstance(v, int):
            if byte or ghost == 'ctl':
                return v
            if v == M64 or v == (1 << 32) - 1:
                return 'npos'
            pos(v, path, ghost)
            return 'n'
        if isinstance(v, Lin):
            if byte:
                ps = st.fdv_atoms(v)
                if ps and len(ps) == 1:
                    vals = sorted(set(st.eval1(v, next(iter(ps)), x) for x in bits(st.mask_of(next(iter(ps))))))
                    return ('b', tuple(vals)) if len(vals) <= 2 else 'B'
                return 'B'
            pos(v, path, ghost)
            return 'n'
        if isinstance(v, Ptr):
            r = v.r
            fixed = r[0] in ('o', 'g', 'f', 'mend')
            o = st.nlin(v.o)
            if not fixed:
                pos(o, path, ghost, r)
            return ('p', reg(r), o if fixed and isinstance(o, int) else '?')
        if isinstance(v, Seq):
            if ghost == 'ctl':
                return ('q', tuple(tshape(it) if it[0] == 't' else it[:2] if it[0] == 'e' and isinstance(it[1], int) else it[0] for it in v))
            if ghost:
                return ('q', tuple(tshape(it) for it in v if it[0] == 't'))
            return 'q'
        if isinstance(v, Struct):
            return ('st',) + tuple((o, sk(x, z == 1, None)) for o, z, x in v.f)
        if isinstance(v, Box):
            if v.k == 'agg':
                return ('agg',) + tuple(sk(x, False, None) for x in v.a)
            if v.k == 'opq':
                return ('opq', v.a, tuple(sk(x, False, None) for x in v.b) if v.b else None)
            if v.k == 'map' and v.a is None:
                return ('map', min(len(v.b), 6), tuple(e is None for k, e in v.b[:6]))
            return v.k
        if isinstance(v, str) or v is None:
            return v
        if v is UNDEF:
            return 'undef'
        if isinstance(v, tuple):
            return tuple(sk(x, False, path, ghost) for x in v)
        return v

    def pos(v, path, ghost, region=None):
        if ghost or path is None:
            return
        for pp, cons, ended, L, acc in infos:
            if region is not None and region != ('s', pp.r, pp.o):
                continue
            d = st.nlin(ladd(L, v, -1))
            if isinstance(d, int) and 0 <= d <= 4:
                acc.append((path, d))

    for path, v in t.slots:
        g = path[0] == 'gh'
        out.append((path, sk(v, byte_slot(E, st, path, t), path, ('ctl' if path[1].startswith('_') else True) if g else False)))
    wins = {}
    gargs = []
    for path, v in t.slots:
        if path[0] == 'gh':
            walk_any(v, lambda a: None, lambda it: gargs.extend(x for x in it[2] if isinstance(x, Seq)) if it[0] == 't' else None)
    for pp, cons, ended, L, acc in infos:
        w = max([d for p, d in acc], default=0)
        for x in gargs:
            if x and x[-1][0] in ('s', 't'):
                x = x[:-1]
            if len(x) > w and tuple(cons[-len(x):]) == tuple(x):
                w = len(x)
        tail = []
        for it in reversed(cons):
            if len(tail) >= w or it[0] != 'e':
                break
            tail.append(it[1])
        ms = []
        for x in tail:
            x = st.nlin(x)
            if isinstance(x, int):
                ms.append(1 << x)
            else:
                ms.append(None)
        out.append(('win', tuple(acc), ended, tuple(ms)))
        wins[(pp.r, pp.o)] = len(tail)
    out.append(tuple((u[0], len(u)) for u in st.ufacts))
    return tuple(out), wins


class AU:
    """n-ary anti-unification of states of one partition class"""

    def __init__(self, E, samples, wins, version=0):
        self.E = E
        self.version = version
        self.sts = [s.clone() for s in samples]
        self.trs = [traverse(s) for s in self.sts]
        self.n = len(samples)
        self.seqs = {}     # tuple of seqs -> sym seq
        self.ints = {}     # tuple of values -> placeholder atom
        self.fds = {}
        self.wins = wins
        self.new = self.sts[-1].clone()
        self.lens = []     # (sym seq, tuple of lengths)
        self.totals = []
        self.kinds = {}
        self.stable = set()
        self.whole_seqs = E.plugin is not None and E.plugin.whole(self.new)

    def run(self):
        T = self.trs[-1]
        N = self.new
        for s, t in zip(self.sts, self.trs):
            if len(t.slots) != len(T.slots):
                raise Unsupported('loop states of different shape')
        slots = list(range(len(T.slots)))
        # tapes first
        tape_paths = set()
        for i in slots:
            path, v = T.slots[i]
            if path[0] == 'm' and isinstance(v, Box):
                rid = T.ids[path[1]]
                if (('o', rid), path[2]) in self.wins:
                    tape_paths.add(i)
        slots.sort(key=lambda i: (0 if i in tape_paths else 1, i))
        res = {}
        cuts = self.cursors(T)
        for i in slots:
            path, v = T.slots[i]
            vals = [t.slots[i][1] for t in self.trs]
            w = None
            if i not in tape_paths and path[0] == 'm' and (path[1], path[2]) in cuts and isinstance(v, Box):
                r = self.cut_box(vals, cuts[(path[1], path[2])])
                if r is not None:
                    res[i] = r
                    continue
            if i in tape_paths:
                w = self.wins[(('o', T.ids[path[1]]), path[2])]
            byte = byte_slot(self.E, N, path, T)
            try:
                res[i] = self.val(vals, byte=byte, win=w)
            except Fail:
                raise Unsupported(f'cannot generalise {path}')
        # write back
        for i in slots:
            path, _ = T.slots[i]
            v = res[i]
            if path[0] == 'r':
                N.frames[path[1]].regs[path[2]] = v
            elif path[0] == 'gh':
                N.ghost[path[1]] = v
            else:
                o = N.wobj(T.ids[path[1]])
                o.cells[path[2]] = (path[3], v)
        self.constraints()
        self.resolve_ints()
        N.nfork = 0
        for f in N.frames:
            pass
        return N

    def cursors(self, T):
        """(object number, offset) -> for every sample the positions in that container at which pointers stand"""
        out = {}
        for i, (path, v) in enumerate(T.slots):
            if not (isinstance(v, Ptr) and v.r[0] in ('v', 's') and v.r[1][0] == 'o'):
                continue
            vals = [t.slots[i][1] for t in self.trs]
            if not all(isinstance(x, Ptr) and x.r[0] == v.r[0] and x.r[1][0] == 'o' for x in vals):
                continue
            ns = {t.num.get(x.r[1][1]) for t, x in zip(self.trs, vals)}
            offs = {x.r[2] for x in vals if isinstance(x.r[2], int)}
            if len(ns) != 1 or len(offs) != 1 or None in ns or not all(isinstance(x.r[2], int) for x in vals):
                continue
            lst = out.setdefault((ns.pop(), offs.pop()), [])
            os = [x.o for x in vals]
            if os not in lst:
                lst.append(os)
        return out

    def cut_box(self, vals, cursors):
        v = vals[-1]
        if v.k not in ('vec', 'str') or any(not isinstance(x, Box) or x.k != v.k or x.c != v.c or x.b != v.b for x in vals):
            return None
        size = v.b if v.k == 'vec' else 1
        splits = []
        for os in cursors:
            ks = []
            for s, x, o in zip(self.sts, vals, os):
                n = 0
                k = None
                for j in range(len(x.a) + 1):
                    if s.nlin(ladd(lmul(n, size), o, -1)) == 0:
                        k = j
                        break
                    if j < len(x.a):
                        n = ladd(n, s.seqlen(Seq((x.a[j],))))
                if k is None:
                    break
                ks.append(k)
            else:
                if any(0 < k < len(x.a) for k, x in zip(ks, vals)) or len({(k == 0, k == len(x.a)) for k, x in zip(ks, vals)}) > 1:
                    splits.append(ks)
        if not splits:
            return None
        splits.sort(key=sum)
        good = []
        last = [0] * len(vals)
        for ks in splits:
            if ks != last and all(a <= b for a, b in zip(last, ks)):
                good.append(ks)
                last = ks
        from interp import elem_kind
        kind = 'b' if v.k == 'str' else elem_kind(v.c)
        r = EMPTY
        at = [0] * len(vals)
        for ks in good + [[len(x.a) for x in vals]]:
            part = [Seq(x.a[a:k]) for x, a, k in zip(vals, at, ks)]
            at = ks
            if any(part):
                r = r + self.seq(part, kind)
        self.total(r, vals)
        return Box('str', r) if v.k == 'str' else Box('vec', r, v.b, v.c)

    # ---- values
    def val(self, vals, byte=False, win=None, kind=None):
        v = vals[-1]
        if isinstance(v, (int, Lin)):
            for x in vals:
                if not isinstance(x, (int, Lin)):
                    raise Fail()
            return self.int(vals, byte)
        if isinstance(v, Seq):
            for x in vals:
                if not isinstance(x, Seq):
                    raise Fail()
            return self.seq(vals, kind, win)
        if isinstance(v, Ptr):
            for x in vals:
                if not isinstance(x, Ptr):
                    raise Fail()
            r = self.region([x.r for x in vals])
            return Ptr(r, self.int([x.o for x in vals], False))
        if isinstance(v, Struct):
            for x in vals:
                if not isinstance(x, Struct) or len(x.f) != len(v.f):
                    raise Fail()
            f = []
            for j, (o, s, _) in enumerate(v.f):
                col = []
                for x in vals:
                    if x.f[j][0] != o or x.f[j][1] != s:
                        raise Fail()
                    col.append(x.f[j][2])
                f.append((o, s, self.val(col, byte=(s == 1))))
            return Struct(tuple(f))
        if isinstance(v, Box):
            for x in vals:
                if not isinstance(x, Box) or x.k != v.k or x.c != v.c:
                    raise Fail()
            if v.k == 'map':
                return self.mapbox(vals)
            if v.k == 'str':
                r = self.seq([x.a for x in vals], 'b', win)
                self.total(r, vals)
                return Box('str', r)
            if v.k == 'vec':
                from interp import elem_kind
                if any(x.b != v.b for x in vals):
                    raise Fail()
                r = self.seq([x.a for x in vals], elem_kind(v.c), win)
                self.total(r, vals)
                return Box('vec', r, v.b, v.c)
            if v.k == 'agg':
                return Box('agg', tuple(self.val(list(c)) for c in zip(*[x.a for x in vals])))
            if v.k == 'opq':
                if any(x.a != v.a for x in vals):
                    raise Fail()
                if v.b is None:
                    return v
                if any(len(x.b) != len(v.b) for x in vals):
                    raise Fail()
                return Box('opq', v.a, tuple(self.val(list(c)) for c in zip(*[x.b for x in vals])), v.c)
        if v is None or v is UNDEF or isinstance(v, str):
            if any(x is not v and x != v for x in vals):
                raise Fail()
            return v
        if isinstance(v, tuple):
            if any(not isinstance(x, tuple) or len(x) != len(v) for x in vals):
                raise Fail()
            return tuple(self.val(list(c)) for c in zip(*vals))
        raise Fail()

    def total(self, r, vals):
        if any(it[0] != 'e' for it in r):
            ls = tuple(s.seqlen(x.a) for s, x in zip(self.sts, vals))
            if (r, ls) not in self.totals:
                self.totals.append((r, ls))

    def region(self, rs):
        r = rs[-1]
        if any(x[0] != r[0] for x in rs):
            raise Fail()
        if r[0] == 'o':
            ns = [t.num.get(x[1]) for t, x in zip(self.trs, rs)]
            if all(x[1] == r[1] for x in rs):
                return r
            if any(n is None or n != ns[-1] for n in ns):
                raise Fail()
            return r
        if r[0] in ('v', 's', 'mend'):
            return (r[0], self.region([x[1] for x in rs]), self.int([x[2] for x in rs], False))
        if any(x != r for x in rs):
            raise Fail()
        return r

    def mapbox(self, vals):
        v = vals[-1]
        base = v.a
        if any(x.a != base for x in vals):
            raise Unsupported('map changed in a loop')
        keep = []
        if base is None and all(len(x.b) == len(v.b) for x in vals):
            # entries correspond by position
            for i, (key, e) in enumerate(v.b):
                if any((x.b[i][1] is None) != (e is None) for x in vals):
                    raise Unsupported(f'map built in a loop {[len(x.b) for x in vals]} {vals}'[:900])
                if e is not None:
                    ns = [t.num.get(x.b[i][1]) for t, x in zip(self.trs, vals)]
                    if any(n is None or n != ns[-1] for n in ns) and any(x.b[i][1] != e for x in vals):
                        raise Unsupported(f'map built in a loop {[len(x.b) for x in vals]} {vals}'[:900])
                keep.append((self.seq([x.b[i][0] for x in vals], 'b'), e))
            return Box('map', base, tuple(keep), v.c)
        for key, e in v.b:
            ok = True
            for t, x in zip(self.trs, vals):
                m = [e2 for k2, e2 in x.b if k2 == key]
                if not m or (m[0] is None) != (e is None) or (e is not None and m[0] != e):
                    ok = False
                    break
            if ok:
                keep.append((key, e))
        if base is None and len(keep) != len(v.b):
            raise Unsupported(f'map built in a loop {[len(x.b) for x in vals]} {vals}'[:900])
        return Box('map', base, tuple(keep), v.c)

    def int(self, vals, byte):
        v = vals[-1]
        if all(x == v for x in vals):
            self.note_stable(v)
            return v
        key = tuple(vals)
        if byte:
            a = self.fds.get(key)
            if a is None:
                m = 0
                for s, x in zip(self.sts, vals):
                    m |= self.bytemask(s, x)
                a = ('c', fresh())
                self.fds[key] = a
                if m != FULL:
                    self.new.dom[a[1]] = m
            return atom(a)
        a = self.ints.get(key)
        if a is None:
            a = ('i', fresh())
            self.ints[key] = a
        return atom(a)

    def bytemask(self, s, x):
        x = s.nlin(x)
        if isinstance(x, int):
            return 1 << (x & 255)
        ps = s.fdv_atoms(x)
        if ps and len(ps) == 1:
            p = next(iter(ps))
            m = 0
            for y in bits(s.mask_of(p)):
                m |= 1 << (s.eval1(x, p, y) & 255)
            return m
        cur = s.vdom.get(Lin(0, x.t))
        if cur is not None:
            m = 0
            for y in cur:
                m |= 1 << ((y + x.c) & 255)
            return m
        lo, hi = s.range(x)
        if 0 <= lo and hi <= 255:
            return FULL & ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
        return FULL

    def note_stable(self, v):
        if isinstance(v, int) and 0 <= v <= 8:
            self.stable.add(v)
        elif isinstance(v, Lin) and 0 <= v.c <= 8:
            self.stable.add(v.c)

    def thresh(self, lo):
        return min(lo, 8 if self.version < 2 else 6)

    # ---- sequences
    def item_ok(self, items, kind):
        """can these items be unified itemwise?"""
        k = items[0][0]
        if any(i[0] != k for i in items):
            return False
        if k == 'e':
            t = type(items[0][1])
            ok = all((isinstance(i[1], (int, Lin)) and t in (int, Lin)) or type(i[1]) is t for i in items)
            return ok
        if k == 't':
            return all(i[1] == items[0][1] for i in items)
        if k == 'm':
            return all(i[1] == items[0][1] for i in items)
        return True

    def unify_item(self, items, kind):
        i0 = items[-1]
        if all(i == i0 for i in items):
            return Seq((i0,))
        k = i0[0]
        if k == 'e':
            return elem(self.val([i[1] for i in items], byte=(kind == 'b')))
        if k == 's':
            return self.sym(tuple(Seq((i,)) for i in items), kind)
        if k == 't':
            return Seq((('t', i0[1], tuple(self.val(list(c)) for c in zip(*[i[2] for i in items]))),))
        if k == 'm':
            return Seq((('m', i0[1], self.int([i[2] for i in items], False), self.int([i[3] for i in items], False)),))
        raise Fail()

    def seq(self, vals, kind=None, win=None):
        v = vals[-1]
        if all(x == v for x in vals):
            return v
        key = tuple(vals)
        if key in self.seqs:
            return self.seqs[key]
        if kind is None:
            kind = self.guess_kind(vals)
        ls = [list(x) for x in vals]
        suffix = []
        w = win
        known = EMPTY
        if win is None:
            known = self.known_parts(ls)
            if known and not any(ls):
                self.seqs[key] = known
                return known
        ksuf = EMPTY
        if win is None and kind != 'b':
            ksuf = self.known_suffix(ls)
            if ksuf and not any(ls):
                self.seqs[key] = known + ksuf
                return known + ksuf
        # same shape: itemwise, unless it would relate unrelated sizes
        if win is None and len({len(l) for l in ls}) == 1 and all(self.item_ok(c, kind) for c in zip(*ls)):
            out = known
            try:
                for c in zip(*ls):
                    out = out + self.unify_item(list(c), kind)
                out = out + ksuf
                self.seqs[key] = out
                return out
            except Fail:
                pass
        # strip the suffix
        nstruct = 0
        whole = win is None and self.whole_seqs
        while all(ls):
            items = [l[-1] for l in ls]
            if whole or not self.item_ok(items, kind):
                break
            k = items[0][0]
            if k == 's' and not any(len(s) for s in suffix):
                suffix.insert(0, self.unify_item(items, kind))
            elif k == 't':
                try:
                    suffix.insert(0, self.unify_item(items, kind))
                except Fail:
                    break
            elif k == 'm':
                suffix.insert(0, self.unify_item(items, kind))
            elif k == 'e' and w:
                suffix.insert(0, self.unify_item(items, kind))
                w -= 1
            elif k == 'e' and all(i == items[0] for i in items) and not self.same_rest(ls):
                suffix.insert(0, Seq((items[0],)))
            elif k == 'e' and kind == 'b' and tuple(i[1] for i in items) in self.fds:
                suffix.insert(0, self.unify_item(items, kind))
            elif k == 'e' and kind != 'b' and nstruct == 0 and isinstance(items[0][1], Struct):
                nstruct = 1
                try:
                    suffix.insert(0, self.unify_item(items, kind))
                except Fail:
                    break
            else:
                break
            for l in ls:
                l.pop()
        prefix = []
        while all(ls):
            items = [l[0] for l in ls]
            if all(i == items[0] for i in items):
                prefix.append(Seq((items[0],)))
            elif items[0][0] == 's' and self.item_ok(items, kind) and not suffix and min(len(l) for l in ls) >= 1 and self.lead_ok(ls):
                prefix.append(self.unify_item(items, kind))
            else:
                break
            for l in ls:
                l.pop(0)
        out = known
        for p in prefix:
            out = out + p
        mids = tuple(Seq(l) for l in ls)
        if any(mids):
            out = out + self.sym(mids, kind)
        for p in suffix:
            out = out + p
        out = out + ksuf
        self.seqs[key] = out
        return out

    def known_suffix(self, ls):
        """strip a trailing part that is already generalised as a whole"""
        best = None
        for key, r in self.seqs.items():
            if key[0] == 'mid' or len(key) != len(ls) or not any(key) or (best is not None and sum(map(len, best[0])) >= sum(map(len, key))):
                continue
            if all(len(m) <= len(l) and (not m or tuple(l[-len(m):]) == tuple(m)) for m, l in zip(key, ls)):
                best = (key, r)
        if best is None:
            return EMPTY
        for m, l in zip(best[0], ls):
            if m:
                del l[-len(m):]
        return best[1]

    def known_parts(self, ls):
        """strip leading parts that are already generalised"""
        out = EMPTY
        while True:
            best = None
            for key, r in self.seqs.items():
                if key[0] != 'mid' or len(r) != 1 or (best is not None and sum(map(len, best[0])) >= sum(map(len, key[1:]))):
                    continue
                ms = key[1:]
                if all(len(m) <= len(l) and tuple(l[:len(m)]) == tuple(m) for m, l in zip(ms, ls)) and any(ms):
                    best = (ms, r)
            if best is None:
                return out
            if best[1][0] in out and all(x[0] == 'e' and isinstance(x[1], int) for m in best[0] for x in m):
                return out      # coincidence of constants
            for m, l in zip(best[0], ls):
                del l[:len(m)]
            out = out + best[1]

    def same_rest(self, ls):
        return False

    def lead_ok(self, ls):
        # unify leading unknown parts only when they are followed by something
        return any(len(l) > 1 for l in ls)

    def guess_kind(self, vals):
        for s, v in zip(self.sts, vals):
            for it in v:
                if it[0] == 'e':
                    if isinstance(it[1], Seq):
                        return 's'
                    if isinstance(it[1], (int, Lin)):
                        return 'b'
                    if isinstance(it[1], Ptr):
                        return 'p'
                    if isinstance(it[1], Struct):
                        k = self.E.plugin.struct_kind(it[1]) if self.E.plugin else None
                        if k:
                            return k
                elif it[0] in ('s', 't'):
                    k = s.kind_of(it)
                    return k[0] if isinstance(k, tuple) else k
                elif it[0] == 'm':
                    return self.guess_kind([Seq(it[1])])
        return 'b'

    def seqmask(self, s, q):
        m = 0
        for it in q:
            if it[0] == 'e':
                x = it[1]
                m |= self.bytemask(s, x) if isinstance(x, (int, Lin)) else FULL
            elif it[0] in ('s', 't'):
                m |= s.item_mask(it)
            elif it[0] == 'm':
                m |= self.seqmask(s, Seq(it[1]))
            if m == FULL:
                return m
        return m

    def strmask(self, s, q):
        """byte mask over all strings in a sequence of strings"""
        m = 0
        for it in q:
            if it[0] == 'e':
                m |= self.seqmask(s, it[1])
            else:
                k = s.kind_of(it) if it[0] in ('s', 't') else 's'
                m |= k[1] if isinstance(k, tuple) and len(k) > 1 else FULL
        return m

    def sym(self, mids, kind):
        if all(m == mids[0] for m in mids):
            return mids[0]
        r = self.seqs.get(('mid',) + mids)
        if r is not None:
            return r
        N = self.new
        i = fresh()
        it = ('s', i)
        if isinstance(kind, tuple):
            kind = kind[0]
        if kind == 'b':
            m = 0
            for s, q in zip(self.sts, mids):
                m |= self.seqmask(s, q)
            if m != FULL:
                N.smask[i] = m
        elif kind == 's':
            m = 0
            for s, q in zip(self.sts, mids):
                m |= self.strmask(s, q)
            N.skind[i] = ('s', m) if m != FULL else 's'
        else:
            N.skind[i] = kind
        r = Seq((it,))
        self.seqs[('mid',) + mids] = r
        ls = tuple(s.seqlen(q) for s, q in zip(self.sts, mids))
        los = [s.range(x)[0] for s, x in zip(self.sts, ls)]
        lo = min(los)
        hi = max(s.range(x)[1] for s, x in zip(self.sts, ls))
        if lo >= 1 or hi <= 4:
            if self.version >= 2:
                hi = LENMAX
            N.rng[('L', it)] = (max(min(lo, 8), 0), hi if hi <= 4 else LENMAX)
        self.lens.append((it, ls))
        return r

    # ---- constraints
    def constraints(self):
        N = self.new
        sts = self.sts
        # domains of symbols shared by all samples
        for k in list(N.dom):
            if any(a[1] == k for a in self.fds.values()):
                continue
            m = 0
            for s in sts:
                m |= s.dom.get(k, FULL)
            N.dom[k] = m
        mapped = {it[1] for it, ls in self.lens}
        for k in list(N.smask):
            if k in mapped:
                continue
            m = 0
            for s in sts:
                m |= s.smask.get(k, FULL)
            N.smask[k] = m
        for a in list(N.rng):
            if a[0] == 'L' and a[1][0] == 's' and a[1][1] in mapped:
                continue
            lo, hi = None, None
            for s in sts:
                l, h = s.rng.get(a, s.arange(a))
                lo = l if lo is None else min(lo, l)
                hi = h if hi is None else max(hi, h)
            N.rng[a] = (lo, hi)
        N.facts = tuple(f for f in N.facts if all(f in s.facts or s.prove_ge(f) for s in sts))
        N.diseq = tuple(d for d in N.diseq if all(d in s.diseq for s in sts))
        N.oracle = {k: v for k, v in N.oracle.items() if all(s.oracle.get(k) == v for s in sts)}
        N.vdom = {k: v for k, v in N.vdom.items() if all(s.vdom.get(k) == v for s in sts)}
        # fold facts: unify positionally
        try:
            uf = []
            for c in zip(*[s.ufacts for s in sts]):
                if any(len(u) != len(c[-1]) or u[0] != c[-1][0] for u in c):
                    continue
                try:
                    uf.append(self.val([tuple(u) for u in c]))
                except Fail:
                    pass
            N.ufacts = tuple(uf)
        except Fail:
            N.ufacts = ()

    def resolve_ints(self):
        N = self.new
        sts = self.sts
        free = []
        for key, a in self.ints.items():
            e = self.affine(key)
            if e is not None:
                N.bind[a] = e
            else:
                free.append((key, a))
        if self.version >= 2:
            for it, ls in self.lens:
                r = N.rng.get(('L', it))
                if r:
                    N.rng[('L', it)] = (self.thresh(r[0]), r[1])
        for it, ls in self.lens:
            if all(x == ls[0] for x in ls):
                if isinstance(ls[0], int):
                    N.rng[('L', it)] = (ls[0], ls[0])
                else:
                    e = ladd(atom(('L', it)), ls[0], -1)
                    N.facts = N.facts + (e, lmul(e, -1))
        # equal lengths of generalised sequences
        for i in range(len(self.lens)):
            for j in range(i):
                d = self.const_diff(self.lens[i][1], self.lens[j][1])
                if d is not None:
                    e = ladd(ladd(atom(('L', self.lens[i][0])), atom(('L', self.lens[j][0])), -1), -d)
                    if isinstance(e, Lin):
                        N.facts = N.facts + (e, lmul(e, -1))
        for i in range(len(self.totals)):
            for j in range(i):
                d = self.const_diff(self.totals[i][1], self.totals[j][1])
                if d is not None:
                    N.add_eq(ladd(ladd(N.seqlen(self.totals[i][0]), N.seqlen(self.totals[j][0]), -1), -d))
        if len(self.lens) <= 8:
            for i, (it, ls) in enumerate(self.lens):
                for jt, ms in self.lens[:i]:
                    for sgn in (1, -1):
                        if all(s.prove_ge(lmul(ladd(x, y, -1), sgn)) for s, x, y in zip(sts, ls, ms)):
                            e = N.nlin(lmul(ladd(atom(('L', it)), atom(('L', jt)), -1), sgn))
                            if isinstance(e, Lin) and e not in N.facts:
                                N.facts = N.facts + (e,)
        quants = [(key, atom(a)) for key, a in free] + [(ls, atom(('L', it))) for it, ls in self.lens]
        for key, a in free:
            lo = min(s.range(x)[0] if not isinstance(x, int) else signed(x) for s, x in zip(sts, key))
            hi = max(s.range(x)[1] if not isinstance(x, int) else signed(x) for s, x in zip(sts, key))
            if lo < 0 and all(s.prove_ge(x if not isinstance(x, int) else signed(x)) for s, x in zip(sts, key)):
                lo = 0
            l = self.thresh(lo) if lo >= 0 else -1 if lo >= -1 else -(1 << 31) if lo >= -(1 << 31) else -INTMAX
            h = LENMAX if hi <= LENMAX else (1 << 32) - 1 if hi < (1 << 32) else INTMAX
            if hi <= 0:
                h = 0
            N.rng[a] = (l, h)
        bound = [(key, atom(a)) for key, a in self.ints.items()]
        for k1, x1 in bound:
            hi = max(signed(x) if isinstance(x, int) else s.range(x)[1] for s, x in zip(sts, k1))
            cs = [c for c in self.stable if c >= hi]
            if cs:
                e = N.nlin(ladd(min(cs), x1, -1))
                if isinstance(e, Lin) and e not in N.facts:
                    N.facts = N.facts + (e,)
        if len(bound) <= 10:
            for i, (k1, x1) in enumerate(bound):
                for k2, x2 in bound[:i]:
                    for sgn in (1, -1):
                        if all(s.prove_ge(lmul(ladd(signed(x) if isinstance(x, int) else x, signed(y) if isinstance(y, int) else y, -1), sgn)) for s, x, y in zip(sts, k1, k2)):
                            e = N.nlin(lmul(ladd(x1, x2, -1), sgn))
                            if isinstance(e, Lin) and e not in N.facts:
                                N.facts = N.facts + (e,)
        if len(quants) <= 10:
            for key, a in free:
                for k2, q in quants:
                    if q == atom(a):
                        continue
                    for sgn in (1, -1):
                        ok = True
                        strict = self.whole_seqs
                        for s, x, y in zip(sts, key, k2):
                            x = signed(x) if isinstance(x, int) else x
                            d = ladd(y, x, -1)
                            if not s.prove_ge(lmul(d, sgn)):
                                ok = False
                                break
                            strict = strict and s.prove_ge(ladd(lmul(d, sgn), -1))
                        if ok:
                            f = ladd(lmul(ladd(q, atom(a), -1), sgn), -1 if strict else 0)
                            if f not in N.facts:
                                N.facts = N.facts + (f,)
        N.check_facts()

    def const_diff(self, a, b):
        es = [s.nlin(ladd(x, y, -1)) for s, x, y in zip(self.sts, a, b)]
        d = 0
        for e in es:
            if isinstance(e, int):
                d = e
                break
        else:
            s, e = self.sts[0], es[0]
            for f in s.facts:
                if f.t == e.t:
                    d = e.c - f.c
                    break
                if f.t == lmul(e, -1).t:
                    d = e.c + f.c
                    break
        for s, e in zip(self.sts, es):
            if isinstance(e, int):
                if e != d:
                    return None
            elif not (s.facts and s.prove_ge(ladd(e, -d)) and s.prove_ge(ladd(d, e, -1))):
                return None
        return d

    def affine(self, key):
        """express the tuple as constant + multiple of a generalised length"""
        sts = self.sts
        key = tuple(signed(x) if isinstance(x, int) else x for x in key)

        def residual(k, ls, base):
            out = []
            for s, x, l in zip(sts, base, ls):
                out.append(s.nlin(ladd(x, l, -k)))
            return out
        cands = []
        for it, ls in self.lens:
            ks = [1, -1] if self.n >= 4 else [1]
            for j in range(1, self.n):
                dl = sts[j].nlin(ladd(ls[j], 0))
                if isinstance(ls[j], int) and isinstance(ls[0], int) and ls[j] != ls[0] and \
                   isinstance(key[j], int) and isinstance(key[0], int):
                    q, r = divmod(key[j] - key[0], ls[j] - ls[0])
                    if r == 0 and q > 0 and q not in ks:
                        ks.append(q)
            ks += [8, 24, 32, 40, 56]
            for k in ks:
                r = residual(k, ls, key)
                if all(x == r[0] for x in r):
                    return ladd(atom(('L', it), k), r[0])
        for r, ls in self.totals:
            if self.const_diff(key, ls) == 0:
                return self.new.seqlen(r)
        if any(s.facts for s in sts):
            for it, ls in self.lens:
                d = self.const_diff(key, ls)
                if d is not None:
                    return atom(('L', it), 1, d)
        for i in range(len(self.lens)):
            for j in range(i):
                for k in (1, 32, 40, 56, 8):
                    r = residual(k, self.lens[j][1], residual(k, self.lens[i][1], key))
                    if all(x == r[0] for x in r):
                        return ladd(ladd(atom(('L', self.lens[i][0]), k), atom(('L', self.lens[j][0])), k), r[0])
        return None
