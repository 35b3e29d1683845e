"""Abstract interpreter: explores every path of the analysed functions over the
abstract domain of state.py, joining at control-flow joins and generalising at loop
heads (generalize.py) until a fixpoint is reached."""
import heapq
import sys
import time
from values import *
from state import *
from program import Program, normalise
import generalize

sys.setrecursionlimit(20000)
NPOS = M64


class NeedSplit(Exception):
    """raised by specification code that needs a case split to continue"""

    def __init__(self, split):
        self.split = split


class Violation(Exception):
    pass


def with_split(st, fn):
    """run fn(st) under all case splits it asks for: [(state, result)]"""
    work = [st]
    out = []
    n = 0
    while work:
        s = work.pop(0)
        n += 1
        if n > 4000:
            raise Unsupported('too many case splits')
        s2 = s.clone()
        try:
            r = fn(s)
            out.append((s, r))
        except NeedSplit as e:
            for t in e.split(s2):
                work.append(t[0] if isinstance(t, tuple) else t)
        except Infeasible:
            pass
    return out


class Call:
    __slots__ = ('fn', 'op', 'args', 'E')

    def __init__(self, E, fn, op, args):
        self.E = E
        self.fn = fn
        self.op = op
        self.args = args


INTW = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}


def width(ty):
    return INTW.get(ty)


class Engine:
    def __init__(self, prog, plugin=None, models=None, verbose=0):
        self.prog = prog
        self.plugin = plugin
        self.models = models or {}
        self.verbose = verbose
        self.violations = []
        self.undecided = []
        self.unsupported = []
        self.stats = {'steps': 0, 'states': 0, 'forks': 0, 'calls': 0, 'merged': 0, 'heads': 0, 'obligations': 0}
        self.funcs_seen = set()
        self.lines_seen = set()
        self.buckets = {}
        self.heap = []
        self.gen = generalize.Generalizer(self)
        self.gcells = {}
        self.deadline = None
        self.max_steps = 6_000_000
        self.stop_at_first = True
        self.search = None       # None: fixpoint; n: exploration without generalisation, cheapest paths first (n > 0: perturbed)
        self.rand = None
        self.out = None          # successors of the state being run (random search)

    # ------------------------------------------------------------ worklist
    def pos(self, st):
        p = []
        for f in st.frames:
            p.append((f.fn.rpo[f.blk], f.idx))
        return tuple(p)

    def push(self, st):
        if self.out is not None:
            self.out.append(st)
            return
        p = self.pos(st)
        key = (p, tuple(f.fn.name for f in st.frames))
        if self.search is not None:
            key = (st.cost,) + key
        b = self.buckets.get(key)
        if b is None:
            self.buckets[key] = [st]
            heapq.heappush(self.heap, key)
        else:
            b.append(st)

    def run(self, st):
        self.push(st)
        t0 = time.time()
        while self.heap:
            key = heapq.heappop(self.heap)
            sts = self.buckets.pop(key)
            if len(sts) > 1:
                n = len(sts)
                sts = self.merge(sts)
                self.stats['merged'] += n - len(sts)
            for s in sts:
                if self.gen.stale(s):
                    continue
                self.stats['states'] += 1
                self.run_state(s)
                if self.violations and self.stop_at_first and any(not v['state'].lineage for v in self.violations):
                    return
            if self.deadline and time.time() > self.deadline:
                self.undecided.append('analysis time limit reached')
                return
            if self.stats['steps'] > self.max_steps:
                self.undecided.append('analysis step limit reached')
                return

    def run_random(self, make):
        """random depth-first exploration with restarts, without generalisation"""
        rnd = self.rand
        while True:
            st = make()
            if self.plugin:
                self.plugin.search_bound(self, st, rnd)
            stack = [st]
            n = 0
            limit = rnd.choice((300, 1000, 3000))
            top = True
            while stack and n < limit:
                st = stack.pop() if top else stack.pop(rnd.randrange(len(stack)))
                n += 1
                self.stats['states'] += 1
                self.out = []
                self.run_state(st)
                out, self.out = self.out, None
                if self.violations:
                    return
                top = bool(out)
                rnd.shuffle(out)
                stack.extend(out)
            if time.time() > self.deadline:
                self.undecided.append('analysis time limit reached')
                return

    def live_violation(self):
        self.violations = [v for v in self.violations if not self.gen.stale(v['state'])]
        self.undecided += [m for m, s in self.unsupported if not self.gen.stale(s)]
        self.unsupported = []
        return bool(self.violations)

    def merge(self, sts):
        return generalize.merge_states(self, sts)

    def loc(self, st):
        for f in reversed(st.frames):
            try:
                o = f.fn.blocks[f.blk][min(f.idx, len(f.fn.blocks[f.blk]) - 1)]
            except IndexError:
                continue
            l = o.get('loc')
            if l and l[1] and '/repo' in self.abspath(l[0]):
                return f'{self.abspath(l[0])}:{l[1]}'
        return '?'

    def abspath(self, f):
        return f if f.startswith('/') else '/repo/' + f

    def violation(self, st, msg):
        if st.contradictory() or (self.search is not None and -2 in st.lineage):
            return
        tr = []
        t = st.trace
        while t:
            tr.append(t[0])
            t = t[1]
        tr.reverse()
        key = (msg, self.loc(st))
        self.violations.append({'msg': msg, 'loc': self.loc(st), 'state': st,
                                'stack': [f'{f.fn.norm}' for f in st.frames], 'trace': tr[-60:]})

    # ------------------------------------------------------------ execution
    def run_state(self, st):
        """run until the state forks, ends or reaches a join point"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            if fr.idx == 0 and fr.blk in fr.fn.heads and not fr.heads.get(('in', fr.blk)):
                fr.heads[('in', fr.blk)] = True
                self.stats['heads'] += 1
                try:
                    r = self.gen.at_head(st)
                except Infeasible:
                    return
                except Unsupported as e:
                    self.unsup(st, e)
                    return
                if r is None:
                    return
                if r is not st:
                    st = r
                    fr = st.frames[-1]
                    blk = fr.fn.blocks[fr.blk]
            if fr.idx >= len(blk):
                raise AssertionError('fell off block')
            op = blk[fr.idx]
            self.stats['steps'] += 1
            try:
                r = self.step(st, fr, op)
            except Infeasible:
                return
            except Unsupported as e:
                self.unsup(st, e)
                return
            except Violation as v:
                self.violation(st, str(v))
                return
            if r is None:
                continue
            if r == 'push':
                self.push(st)
                return
            if r == 'end':
                return
            for s in r:
                self.push(s)
            return

    def unsup(self, st, e):
        if self.gen.stale(st):
            return
        m = f'{e} at {self.loc(st)} in {st.frames[-1].fn.norm if st.frames else "?"}'
        if self.verbose or self.gen.debug:
            print('UNSUPPORTED', m, st.lineage)
            if self.gen.debug > 1:
                generalize.dump(st.clone())
        self.unsupported.append((m, st))

    def goto(self, st, fr, target):
        """move to block; returns 'push' if it is a join"""
        fn = fr.fn
        src = fr.blk
        tb = fn.blocks[target]
        # phis read simultaneously
        vals = []
        i = 0
        for o in tb:
            if o['op'] != 'phi':
                break
            i += 1
            for pb, v in o['in']:
                if pb == src:
                    vals.append((o['id'], self.val(st, fr, v)))
                    break
            else:
                raise Unsupported('phi without edge')
        for k, v in vals:
            fr.regs[k] = v
        fr.prev = src
        fr.blk = target
        fr.idx = i
        if target in fn.heads:
            fr.heads[('in', target)] = False
            fr.idx = 0
            # phis already evaluated: skip them when executing
            return 'push'
        if len(fn.preds[target]) > 1:
            return 'push'
        return None

    def step(self, st, fr, op):
        k = op['op']
        h = getattr(self, 'op_' + k, None)
        if h is None:
            raise Unsupported(f'instruction {k}')
        return h(st, fr, op)

    def seti(self, st, fr, op, v):
        fr.regs[op['id']] = v
        fr.idx += 1
        return None

    def setm(self, st, op, pairs):
        """several result states"""
        if len(pairs) == 1 and pairs[0][0] is st:
            fr = st.frames[-1]
            fr.regs[op['id']] = pairs[0][1]
            fr.idx += 1
            return None
        self.stats['forks'] += len(pairs) - 1
        out = []
        for s, v in pairs:
            fr = s.frames[-1]
            fr.regs[op['id']] = v
            fr.idx += 1
            out.append(s)
        return out

    # ------------------------------------------------------------ operands
    def val(self, st, fr, v):
        t = v[0]
        if t == 'r':
            x = fr.regs.get(v[1], UNDEF)
            if isinstance(x, (Lin, Ptr)):
                x = st.norm(x)
            return x
        if t == 'i':
            b = v[2]
            return v[1] & ((1 << b) - 1)
        if t == 'g':
            return Ptr(('g', v[1]), v[2])
        if t == 'f':
            return Ptr(('f', v[1]), 0)
        if t == 'u':
            return UNDEF
        if t == 'z':
            return 0 if not v[1].startswith('{') else Box('agg', (0,) * 8)
        if t == 'agg':
            return Box('agg', tuple(self.val(st, fr, x) for x in v[1]))
        if t == 'cast':
            return self.val(st, fr, v[1])
        raise Unsupported(f'operand {v}')

    # ---------------------------------------------------------- instructions
    def op_phi(self, st, fr, op):
        fr.idx += 1
        return None

    def op_alloca(self, st, fr, op):
        i = st.new_obj(('alloca', fr.fn.name, op['id']), op['size'], kind='stack')
        fr.allocas = fr.allocas + (i,)
        return self.seti(st, fr, op, Ptr(('o', i), 0))

    def op_ret(self, st, fr, op):
        v = self.val(st, fr, op['a']) if 'a' in op else None
        return self.do_return(st, fr, v)

    def do_return(self, st, fr, v):
        for a in fr.allocas:
            st.objs.pop(a, None)
        st.frames.pop()
        if fr.cont is not None:
            r = fr.cont(self, st, v)
            return r
        if not st.frames:
            if self.plugin:
                self.plugin.at_end(self, st)
            return 'end'
        c = st.frames[-1]
        o = c.fn.blocks[c.blk][c.idx]
        if v is not None:
            c.regs[o['id']] = v
        if o.get('t') is not None and o['op'] == 'call':
            r = self.goto(st, c, o['t'])
            return 'push'
        c.idx += 1
        return 'push'

    def op_br(self, st, fr, op):
        if 'c' not in op:
            return self.goto(st, fr, op['t'])
        c = self.val(st, fr, op['c'])
        if c is UNDEF:
            raise Violation('branch on an uninitialised value')
        if isinstance(c, int):
            return self.goto(st, fr, op['t'] if c else op['f'])
        rs = self.truth(st, c)
        out = []
        loc = op.get('loc')
        l = f'{loc[0]}:{loc[1]}' if loc else '?'
        for s, b in rs:
            if len(rs) > 1:
                s.note((l, b))
            f = s.frames[-1]
            self.goto(s, f, op['t'] if b else op['f'])
            out.append(s)
        return out

    def truth(self, st, c):
        c = st.nlin(c)
        if isinstance(c, int):
            return [(st, bool(c))]
        return [(s, not b) for s, b in st.split_eq(c)]

    def op_switch(self, st, fr, op):
        c = self.val(st, fr, op['c'])
        if c is UNDEF:
            raise Violation('switch on an uninitialised value')
        w = width(op['ot'])
        if isinstance(c, int):
            c = signed(c, w)
            for v, t in op['cs']:
                if v == c:
                    return self.goto(st, fr, t)
            return self.goto(st, fr, op['d'])
        out = []
        # group cases with the same target so that they are not needlessly split
        groups = {}
        for v, t in op['cs']:
            groups.setdefault(t, []).append(v)
        loc = op.get('loc')
        l = f'{loc[0]}:{loc[1]}' if loc else '?'
        work = [st]
        w8 = w == 8
        for t, vs in groups.items():
            nxt = []
            for s in work:
                e = s.nlin(c)
                if isinstance(e, int):
                    ev = signed(e, w) if e >= 0 else e
                    rs = [(s, ev in vs or e in vs)]
                else:
                    vset = set(vs)
                    if w8:
                        vset = {v & 255 for v in vs}
                    r = s.split_fdv(e, lambda x: x in vset)
                    if r is None:
                        r = []
                        todo = [s]
                        for v in sorted(vset):
                            nt = []
                            for q in todo:
                                for q2, b in q.split_eq(ladd(q.nlin(e), -v)):
                                    if b:
                                        r.append((q2, True))
                                    else:
                                        nt.append(q2)
                            todo = nt
                        r += [(q, False) for q in todo]
                    rs = r
                for s2, b in rs:
                    if b:
                        s2.note((l, f'case {sorted(vs)[:6]}'))
                        self.goto(s2, s2.frames[-1], t)
                        out.append(s2)
                    else:
                        nxt.append(s2)
            work = nxt
        for s in work:
            s.note((l, 'default'))
            self.goto(s, s.frames[-1], op['d'])
            out.append(s)
        return out

    def op_unreachable(self, st, fr, op):
        raise Violation('reaches code that must be unreachable (undefined behaviour)')

    def op_freeze(self, st, fr, op):
        return self.seti(st, fr, op, self.val(st, fr, op['a']))

    def op_select(self, st, fr, op):
        c = self.val(st, fr, op['c'])
        if c is UNDEF:
            raise Violation('select on an uninitialised value')
        if isinstance(c, int):
            return self.seti(st, fr, op, self.val(st, fr, op['a'] if c else op['b']))
        out = []
        for s, b in self.truth(st, c):
            f = s.frames[-1]
            out.append((s, self.val(s, f, op['a'] if b else op['b'])))
        return self.setm(st, op, out)

    def op_extractvalue(self, st, fr, op):
        v = self.val(st, fr, op['a'])
        for i in op['ix']:
            if not isinstance(v, Box):
                raise Unsupported('extractvalue')
            v = v.a[i]
        return self.seti(st, fr, op, v)

    def op_insertvalue(self, st, fr, op):
        v = self.val(st, fr, op['a'])
        x = self.val(st, fr, op['b'])
        if len(op['ix']) != 1:
            raise Unsupported('nested insertvalue')
        n = len(op.get('lay', [])) or op['ix'][0] + 1
        a = list(v.a) if isinstance(v, Box) else []
        while len(a) < n:
            a.append(UNDEF)
        a[op['ix'][0]] = x
        return self.seti(st, fr, op, Box('agg', tuple(a)))

    def op_getelementptr(self, st, fr, op):
        p = self.val(st, fr, op['p'])
        off = op['off']
        for v, stride, ty in op['idx']:
            x = self.val(st, fr, v)
            if x is UNDEF:
                raise Violation('address computed from an uninitialised value')
            if isinstance(x, int):
                x = signed(x, width(ty) or 64)
            if isinstance(x, Ptr):
                raise Unsupported('pointer as index')
            off = ladd(off, x, stride)
        if isinstance(p, Ptr):
            return self.seti(st, fr, op, st.norm(Ptr(p.r, ladd(p.o, off))))
        if p is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        if isinstance(p, int):
            r = ladd(p, off)
            return self.seti(st, fr, op, r & M64 if isinstance(r, int) else r)
        raise Unsupported('getelementptr on a non-pointer')

    # --- integers
    def rng_ok(self, st, v, lo, hi):
        if isinstance(v, int):
            return lo <= v <= hi
        a, b = st.range(v)
        if a >= lo and b <= hi:
            return True
        if st.facts:
            return (a >= lo or st.prove_ge(ladd(v, -lo))) and (b <= hi or st.prove_ge(ladd(hi, v, -1)))
        return False

    def to_unsigned(self, st, v, w):
        """[(state, value)] with value in [0,2^w)"""
        if isinstance(v, int):
            return [(st, v & ((1 << w) - 1))]
        if self.rng_ok(st, v, 0, (1 << w) - 1):
            return [(st, v)]
        t = self.fd1(st, v)
        if t is not None:
            m = (1 << w) - 1
            return [(st, self.tab(st, [v], lambda x: x & m))]
        out = []
        for s, b in st.split_ge(v):
            x = s.nlin(v)
            if isinstance(x, int):
                out.append((s, x & ((1 << w) - 1)))
                continue
            if not b:
                x = ladd(x, 1 << w)
                if not self.rng_ok(s, x, 0, (1 << w) - 1):
                    x = self.opaque(s, 'wrap', (x, w), 0, (1 << w) - 1)
                out.append((s, x))
            else:
                if not self.rng_ok(s, x, 0, (1 << w) - 1):
                    x = self.opaque(s, 'wrap', (x, w), 0, (1 << w) - 1)
                out.append((s, x))
        return out

    def to_signed(self, st, v, w):
        h = 1 << (w - 1)
        if isinstance(v, int):
            v &= (1 << w) - 1
            return [(st, v - (1 << w) if v >= h else v)]
        if self.rng_ok(st, v, -h, h - 1):
            return [(st, v)]
        if self.fd1(st, v) is not None:
            m = (1 << w) - 1

            def f(x):
                x &= m
                return x - (1 << w) if x >= h else x
            return [(st, self.tab(st, [v], f))]
        out = []
        for s, b in st.split_ge(ladd(v, -h)):
            x = s.nlin(v)
            if not b:
                if self.rng_ok(s, x, -h, h - 1):
                    out.append((s, x))
                else:
                    out.append((s, self.opaque(s, 'swrap', (x, w), -h, h - 1)))
            else:
                x = ladd(x, -(1 << w))
                if not self.rng_ok(s, x, -h, h - 1):
                    x = self.opaque(s, 'swrap', (x, w), -h, h - 1)
                out.append((s, x))
        return out

    def opaque(self, st, name, args, lo, hi):
        st.lineage[-2] = 1      # an uninterpreted value: nothing definite from here on
        a = ('u', name, args)
        if a not in st.rng:
            st.rng[a] = (lo, hi)
        return atom(a)

    def fd1(self, st, *vs):
        """the single finite-domain parent of all values, or None"""
        p = None
        for v in vs:
            if isinstance(v, int):
                continue
            ps = st.fdv_atoms(v)
            if ps is None or len(ps) != 1:
                return None
            q = next(iter(ps))
            if p is None:
                p = q
            elif p != q:
                return None
        return p

    def tab(self, st, vs, f):
        """apply f pointwise to values over one finite-domain parent"""
        p = self.fd1(st, *vs)
        tbl = []
        m = st.mask_of(p)
        last = None
        for x in range(256):
            if (m >> x) & 1:
                last = f(*[v if isinstance(v, int) else st.eval1(v, p, x) for v in vs])
                tbl.append(last)
            else:
                tbl.append(None)
        d = last
        tbl = tuple(d if t is None else t for t in tbl)
        live = [tbl[x] for x in bits(m)]
        if all(t == live[0] for t in live):
            return live[0]
        if all(tbl[x] == x for x in bits(m)):
            return atom(p)
        return atom(('tab', p, tbl))

    def op_icmp(self, st, fr, op):
        a = self.val(st, fr, op['a'])
        b = self.val(st, fr, op['b'])
        pred = op['pred']
        if op['ot'] == 'p' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.setm(st, op, self.cmp_ptr(st, a, b, pred))
        return self.setm(st, op, self.cmp_int(st, a, b, pred, width(op['ot'])))

    def cmp_ptr(self, st, a, b, pred):
        if a is UNDEF or b is UNDEF:
            raise Violation('comparison of an uninitialised pointer')
        a, b = st.norm(a), st.norm(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                return self.cmp_int(st, a.o, b.o, {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred), 64)
            if pred == 'eq':
                return [(st, 0)]
            if pred == 'ne':
                return [(st, 1)]
            raise Unsupported('order of unrelated pointers')
        if isinstance(a, int) and isinstance(b, int):
            return self.cmp_int(st, a, b, pred, 64)
        if isinstance(a, Lin) and isinstance(b, int) or isinstance(b, Lin) and isinstance(a, int):
            return self.cmp_int(st, a, b, pred, 64)
        if pred == 'eq':
            return [(st, 0)]
        if pred == 'ne':
            return [(st, 1)]
        raise Unsupported('pointer order')

    def cmp_int(self, st, a, b, pred, w):
        if a is UNDEF or b is UNDEF:
            raise Violation('comparison of an uninitialised value')
        if isinstance(a, Box) or isinstance(b, Box):
            raise Unsupported('comparison of containers')
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if pred in ('eq', 'ne'):
                return [(st, int(((a - b) & m == 0) == (pred == 'eq')))]
            if pred[0] == 's':
                x, y = signed(a & m, w), signed(b & m, w)
            else:
                x, y = a & m, b & m
            r = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
            return [(st, int(r))]
        # symbolic
        if self.fd1(st, a, b) is not None:
            def f(x, y):
                return self.cmp_int(st, x, y, pred, w)[0][1]
            return [(st, self.tab(st, [a, b], f))]
        out = []
        if pred in ('eq', 'ne'):
            h = 1 << (w - 1)
            if self.rng_ok(st, a if not isinstance(a, int) else signed(a & m, w), -h, h - 1) and \
               self.rng_ok(st, b if not isinstance(b, int) else signed(b & m, w), -h, h - 1):
                cvt = lambda s, v: [(s, s.nlin(v) if not isinstance(v, int) else signed(v & m, w))]
            else:
                cvt = lambda s, v: self.to_unsigned(s, s.nlin(v), w)
        elif pred[0] == 's':
            cvt = lambda s, v: self.to_signed(s, s.nlin(v), w)
        else:
            cvt = lambda s, v: self.to_unsigned(s, s.nlin(v), w)
        for s, x in cvt(st, a):
            for s2, y in cvt(s, b):
                x2 = s2.nlin(x)
                d = ladd(x2, y, -1)
                if pred == 'eq':
                    r = s2.split_eq(d)
                elif pred == 'ne':
                    r = [(q, not t) for q, t in s2.split_eq(d)]
                elif pred[1:] == 'ge':
                    r = s2.split_ge(d)
                elif pred[1:] == 'gt':
                    r = s2.split_ge(ladd(d, -1))
                elif pred[1:] == 'le':
                    r = s2.split_ge(lmul(d, -1))
                else:
                    r = s2.split_ge(ladd(-1, d, -1))
                out.extend((q, int(t)) for q, t in r)
        return out

    def arith(self, op, f):
        pass

    def op_add(self, st, fr, op):
        return self.addsub(st, fr, op, 1)

    def op_sub(self, st, fr, op):
        return self.addsub(st, fr, op, -1)

    def addsub(self, st, fr, op, k):
        a = self.val(st, fr, op['a'])
        b = self.val(st, fr, op['b'])
        w = width(op['ty'])
        if a is UNDEF or b is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if k == -1 and a.r == b.r:
                    return self.seti(st, fr, op, self.canon(st.nlin(ladd(a.o, b.o, -1)), 64))
                raise Unsupported('difference of unrelated pointers')
            if isinstance(a, Ptr):
                return self.seti(st, fr, op, Ptr(a.r, ladd(a.o, signed(b), k)))
            return self.seti(st, fr, op, Ptr(b.r, ladd(b.o, signed(a))))
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return self.seti(st, fr, op, (a + k * b) & m)
        x = ladd(signed(a, w), signed(b, w), k)
        if w == 8 and not isinstance(x, int) or w == 1:
            if self.fd1(st, x) is not None:
                return self.seti(st, fr, op, self.tab(st, [x], lambda v: v & m))
            raise Unsupported('8-bit arithmetic')
        return self.seti(st, fr, op, self.canon(x, w))

    def canon(self, x, w=64):
        return x & ((1 << w) - 1) if isinstance(x, int) else x

    def op_mul(self, st, fr, op):
        a = self.val(st, fr, op['a'])
        b = self.val(st, fr, op['b'])
        w = width(op['ty'])
        if a is UNDEF or b is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        if isinstance(a, int) and isinstance(b, int):
            return self.seti(st, fr, op, (a * b) & ((1 << w) - 1))
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return self.seti(st, fr, op, self.canon(lmul(a, signed(b, w)), w))
        raise Unsupported('product of two unknowns')

    def _divlike(self, st, fr, op, f, exact=None):
        a = self.val(st, fr, op['a'])
        b = self.val(st, fr, op['b'])
        w = width(op['ty'])
        if a is UNDEF or b is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        if isinstance(a, int) and isinstance(b, int):
            return self.seti(st, fr, op, f(a, b, w))
        if isinstance(b, int) and isinstance(a, Lin):
            if exact is not None:
                r = exact(a, b)
                if r is not None:
                    return self.seti(st, fr, op, r)
            if self.fd1(st, a) is not None:
                return self.seti(st, fr, op, self.tab(st, [a], lambda x: f(x & ((1 << w) - 1), b, w)))
        if self.fd1(st, a, b) is not None:
            return self.seti(st, fr, op, self.tab(st, [a, b], lambda x, y: f(x & ((1 << w) - 1), y & ((1 << w) - 1), w)))
        raise Unsupported(op['op'])

    @staticmethod
    def _exact_div(a, b):
        if b and a.c % b == 0 and all(k % b == 0 for x, k in a.t):
            return lin(a.c // b, {x: k // b for x, k in a.t})
        return None

    def op_sdiv(self, st, fr, op):
        def f(x, y, w):
            x, y = signed(x, w), signed(y, w)
            if y == 0:
                raise Violation('division by zero')
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
        return self._divlike(st, fr, op, f, lambda a, b: self._exact_div(a, signed(b, width(op['ty']))))

    def op_udiv(self, st, fr, op):
        def f(x, y, w):
            if y == 0:
                raise Violation('division by zero')
            return x // y
        return self._divlike(st, fr, op, f, self._exact_div)

    def op_urem(self, st, fr, op):
        return self._divlike(st, fr, op, lambda x, y, w: x % y)

    def op_srem(self, st, fr, op):
        def f(x, y, w):
            x, y = signed(x, w), signed(y, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & ((1 << w) - 1)
        return self._divlike(st, fr, op, f)

    def op_shl(self, st, fr, op):
        w = width(op['ty'])

        def ex(a, b):
            x = lmul(a, 1 << b)
            if self.rng_ok(st, x, 0, (1 << w) - 1):
                return x
            if self.rng_ok(st, x, -(1 << (w - 1)), (1 << (w - 1)) - 1):
                return x
            # drop terms that are shifted out entirely
            d = {q: k for q, k in x.t if k % (1 << w)}
            y = lin(x.c % (1 << w) if x.c >= 0 else x.c, d)
            if self.rng_ok(st, y, 0, (1 << w) - 1):
                return y
            return None
        return self._divlike(st, fr, op, lambda x, y, w_: (x << y) & ((1 << w_) - 1), ex)

    def op_lshr(self, st, fr, op):
        def ex(a, b):
            if not self.rng_ok(st, a, 0, (1 << width(op['ty'])) - 1):
                return None
            k = 1 << b
            hi = {x: q for x, q in a.t if q % k == 0}
            lo = lin(a.c % k, {x: q for x, q in a.t if q % k})
            if self.rng_ok(st, lo, 0, k - 1):
                return lin(a.c // k, {x: q // k for x, q in hi.items()})
            return None
        return self._divlike(st, fr, op, lambda x, y, w: x >> y, ex)

    def op_ashr(self, st, fr, op):
        return self._divlike(st, fr, op, lambda x, y, w: (signed(x, w) >> y) & ((1 << w) - 1),
                             lambda a, b: self._exact_div(a, 1 << b))

    def bitop(self, st, fr, op, f, special=None):
        a = self.val(st, fr, op['a'])
        b = self.val(st, fr, op['b'])
        w = width(op['ty'])
        if a is UNDEF or b is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return self.seti(st, fr, op, f(a & m, b & m) & m)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('bit operation on a pointer')
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                r = special(st, x, y & m, w) if special else None
                if r is not None:
                    return self.seti(st, fr, op, r)
        if self.fd1(st, a, b) is not None:
            return self.seti(st, fr, op, self.tab(st, [a, b], lambda x, y: f(x & m, y & m) & m))
        r = special(st, a, b, w) if special and not isinstance(a, int) and not isinstance(b, int) else None
        if r is None and special and not isinstance(a, int) and not isinstance(b, int):
            r = special(st, b, a, w)
        if r is not None:
            return self.seti(st, fr, op, r)
        if w == 1:
            out = []
            for s, t in self.truth(st, a if isinstance(a, Lin) else b):
                f2 = s.frames[-1]
                out.append(s)
            return self.split_retry(out)
        raise Unsupported(f'{op["op"]} of unknowns')

    def split_retry(self, sts):
        return sts

    def op_and(self, st, fr, op):
        def sp(st, x, y, w):
            if isinstance(y, int):
                if y == 0:
                    return 0
                if y == (1 << w) - 1:
                    return x
                # mask of low bits
                if y & (y + 1) == 0 and self.rng_ok(st, x, 0, y):
                    return x
                if y & (y + 1) == 0:
                    lo = lin(x.c % (y + 1), {q: k for q, k in x.t if k % (y + 1)})
                    if self.rng_ok(st, lo, 0, y):
                        return lo
            return None
        return self.bitop(st, fr, op, lambda a, b: a & b, sp)

    def op_or(self, st, fr, op):
        def sp(st, x, y, w):
            if isinstance(y, int) and y == 0:
                return x
            # disjoint bits: x multiple of 2^k, y < 2^k
            if isinstance(x, int):
                return None
            g = x.c
            for q, k in x.t:
                g |= k if k > 0 else -k
            if g == 0:
                return None
            low = g & -g
            if self.rng_ok(st, y, 0, low - 1) and self.rng_ok(st, x, 0, (1 << w) - 1):
                return ladd(x, y)
            return None
        return self.bitop(st, fr, op, lambda a, b: a | b, sp)

    def op_xor(self, st, fr, op):
        def sp(st, x, y, w):
            if isinstance(y, int) and y == 0:
                return x
            if isinstance(y, int) and y == (1 << w) - 1 and w > 1:
                return ladd(-1, x, -1)
            return None
        return self.bitop(st, fr, op, lambda a, b: a ^ b, sp)

    def op_zext(self, st, fr, op):
        a = self.val(st, fr, op['a'])
        if a is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        return self.setm(st, op, self.to_unsigned(st, a, width(op['ot'])))

    def op_sext(self, st, fr, op):
        a = self.val(st, fr, op['a'])
        if a is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        w2 = width(op['ty'])
        return self.setm(st, op, [(s, self.canon(v, w2)) for s, v in self.to_signed(st, a, width(op['ot']))])

    def op_trunc(self, st, fr, op):
        a = self.val(st, fr, op['a'])
        if a is UNDEF:
            return self.seti(st, fr, op, UNDEF)
        w = width(op['ty'])
        m = (1 << w) - 1
        if isinstance(a, int):
            return self.seti(st, fr, op, a & m)
        if isinstance(a, Ptr):
            raise Unsupported('truncated pointer')
        if self.rng_ok(st, a, 0, m):
            return self.seti(st, fr, op, a)
        if self.fd1(st, a) is not None:
            return self.seti(st, fr, op, self.tab(st, [a], lambda x: x & m))
        if w >= 16 and self.rng_ok(st, a, -(1 << (w - 1)), (1 << (w - 1)) - 1):
            return self.seti(st, fr, op, a)
        d = lin(a.c % (m + 1), {q: k for q, k in a.t if k % (m + 1)})
        if isinstance(d, int) or self.rng_ok(st, d, 0, m):
            return self.seti(st, fr, op, d)
        if w >= 16:
            return self.setm(st, op, self.to_unsigned(st, a, w))
        return self.seti(st, fr, op, self.opaque(st, 'trunc', (a, w), 0, m))

    def op_ptrtoint(self, st, fr, op):
        return self.seti(st, fr, op, self.val(st, fr, op['a']))

    op_inttoptr = op_ptrtoint
    op_bitcast = op_ptrtoint

    # -------------------------------------------------------------- memory
    def op_load(self, st, fr, op):
        p = self.val(st, fr, op['p'])
        if 'lay' in op:
            sts = [(st, ())]
            for off, ty, sz in op['lay']:
                nx = []
                for s, acc in sts:
                    for s2, v in self.load(s, p.at(off), sz, ty):
                        nx.append((s2, acc + (v,)))
                sts = nx
            return self.setm(st, op, [(s, Box('agg', a)) for s, a in sts])
        return self.setm(st, op, self.load(st, p, op['size'], op['ty']))

    def op_store(self, st, fr, op):
        p = self.val(st, fr, op['p'])
        v = self.val(st, fr, op['v'])
        if 'lay' in op:
            sts = [st]
            for i, (off, ty, sz) in enumerate(op['lay']):
                nx = []
                for s in sts:
                    nx += self.store(s, p.at(off), sz, v.a[i] if isinstance(v, Box) else UNDEF)
                sts = nx
        else:
            sts = self.store(st, p, op['size'], v)
        for s in sts:
            s.frames[-1].idx += 1
        if len(sts) == 1 and sts[0] is st:
            return None
        return sts

    def check_ptr(self, st, p, what):
        if p is UNDEF:
            raise Violation(f'{what} through an uninitialised pointer')
        if isinstance(p, int):
            raise Violation(f'{what} through a null pointer')
        if not isinstance(p, Ptr):
            raise Unsupported(f'{what} through {p}')
        if p.r[0] == 'mend':
            raise Violation(f'{what} through an end iterator')

    def gobj(self, name):
        g = self.gcells.get(name)
        if g is None:
            d = self.prog.globals.get(name)
            g = {}
            if d is None:
                raise Unsupported(f'global {name}')
            if 'cells' not in d:
                g = None
            else:
                for c in d['cells']:
                    if c[1] == 'i':
                        g[c[0]] = (c[2], c[3])
                    elif c[1] == 'z':
                        g[c[0]] = (c[2], 'Z')
                    else:
                        g[c[0]] = (c[2], self.val(None, None, c[3]) if c[3][0] != '?c' else UNDEF)
            self.gcells[name] = g
        return g

    def obj_cells(self, st, r, what):
        """cells dictionary for reading"""
        if r[0] == 'o':
            o = st.objs.get(r[1])
            if o is None:
                raise Violation(f'{what} of memory whose lifetime has ended')
            if o.freed:
                raise Violation(f'{what} of freed memory')
            return o.cells, o
        if r[0] == 'g':
            o = st.objs.get(r)
            if o is not None:
                return o.cells, o
            g = self.gobj(r[1])
            if g is None:
                raise Unsupported(f'external global {r[1]}')
            return g, None
        raise Unsupported(f'region {r[0]}')

    def load(self, st, p, size, ty=None):
        """[(state, value)]"""
        self.check_ptr(st, p, 'read')
        p = st.norm(p)
        r = p.r
        if r[0] in ('v', 's'):
            return self.load_elem(st, p, size, ty)
        if not isinstance(p.o, int):
            out = []
            for s, o in self.concretise(st, p.o):
                out.extend(self.load(s, Ptr(r, o), size, ty))
            return out
        cells, o = self.obj_cells(st, r, 'read')
        c = cells.get(p.o)
        if c is not None and c[0] == size:
            v = c[1]
            if v == 'Z':
                return [(st, 0)]
            if isinstance(v, (Lin, Ptr)):
                v = st.norm(v)
            return [(st, v)]
        return self.load_slow(st, p, size, ty, cells, o)

    def load_slow(self, st, p, size, ty, cells, o):
        off = p.o
        if o is not None and o.size is not None and not (0 <= off and off + size <= o.size):
            raise Violation('read outside an object')
        if o is None:
            gs = self.prog.globals[p.r[1]]['size']
            if not (0 <= off and off + size <= gs):
                raise Violation('read outside a constant')
        # covering or composed cells
        parts = []
        pos = off
        while pos < off + size:
            hit = None
            for co, (cs, cv) in cells.items():
                if co <= pos < co + cs:
                    hit = (co, cs, cv)
                    break
            if hit is None:
                parts = None
                break
            co, cs, cv = hit
            n = min(co + cs, off + size) - pos
            parts.append((pos - co, n, cs, cv))
            pos += n
        if parts is None:
            if o is not None and o.lazy:
                return self.lazy_load(st, p, size, ty, o)
            return [(st, UNDEF)]
        if len(parts) == 1 and parts[0][2] == size:
            return [(st, parts[0][3])]
        val = 0
        sh = 0
        for skip, n, cs, cv in parts:
            if cv == 'Z':
                x = 0
            elif isinstance(cv, int):
                x = (cv >> (8 * skip)) & ((1 << (8 * n)) - 1)
            elif cv is UNDEF:
                return [(st, UNDEF)]
            elif isinstance(cv, Lin) and n == cs:
                x = st.nlin(cv)
                if not self.rng_ok(st, x, 0, (1 << (8 * n)) - 1):
                    raise Unsupported('partial read of a signed value')
            else:
                raise Unsupported(f'access to the inside of a container or value ({cv})')
            val = ladd(val, x, 1 << sh)
            sh += 8 * n
        return [(st, val)]

    def lazy_load(self, st, p, size, ty, o):
        v = self.plugin.lazy_cell(self, st, p, size, ty, o) if self.plugin else None
        if v is None:
            v = self.fresh_of(st, ty, size)
        st.wobj(p.r[1]).cells[p.o] = (size, v)
        return [(st, v)]

    def fresh_of(self, st, ty, size):
        if ty in ('i1', 'i8') or size == 1:
            return atom(('c', fresh()))
        if ty in ('i16', 'i32', 'i64'):
            i = ('i', fresh())
            w = width(ty)
            st.rng[i] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return atom(i)
        raise Unsupported(f'unknown initial value of type {ty}')

    def concretise(self, st, v, limit=16):
        v = st.nlin(v)
        if isinstance(v, int):
            return [(st, v)]
        lo, hi = st.range(v)
        if hi - lo > limit:
            # try to tighten with facts
            for k in range(0, limit):
                if st.prove_ge(ladd(lo + k if lo > -INTMAX else k, v, -1)):
                    hi = (lo if lo > -INTMAX else 0) + k
                    break
            else:
                raise Unsupported('symbolic offset')
        out = []
        cur = [st]
        for x in range(lo, hi + 1):
            nx = []
            for s in cur:
                try:
                    for s2, b in s.split_eq(ladd(v, -x)):
                        if b:
                            out.append((s2, x))
                        else:
                            nx.append(s2)
                except Infeasible:
                    pass
            cur = nx
        return out

    def store(self, st, p, size, v):
        """[state]"""
        self.check_ptr(st, p, 'write')
        p = st.norm(p)
        if p.r[0] in ('v', 's'):
            return self.store_elem(st, p, size, v)
        if not isinstance(p.o, int):
            out = []
            for s, o in self.concretise(st, p.o):
                out.extend(self.store(s, Ptr(p.r, o), size, v))
            return out
        self.wcell(st, p, size, v)
        return [st]

    def wcell(self, st, p, size, v):
        r = p.r
        if r[0] == 'g':
            d = self.prog.globals.get(r[1])
            if d is None or d['const']:
                raise Violation('write to a constant')
            if r not in st.objs:
                o = Obj(('g', r[1]), d['size'])
                o.cells = dict(self.gobj(r[1]) or {})
                st.objs[r] = o
            st.gwrites = st.gwrites + (r[1],) if r[1] not in st.gwrites else st.gwrites
            o = st.objs[r].clone()
            st.objs[r] = o
        elif r[0] == 'o':
            o = st.objs.get(r[1])
            if o is None:
                raise Violation('write to memory whose lifetime has ended')
            if o.freed:
                raise Violation('write to freed memory')
            o = st.wobj(r[1])
        else:
            raise Unsupported(f'write to region {r[0]}')
        off = p.o
        if o.size is not None and not (0 <= off and off + size <= o.size):
            raise Violation('write outside an object')
        if self.plugin and self.plugin.watch_write:
            self.plugin.on_write(self, st, p, size, v)
        cells = o.cells
        c = cells.get(off)
        if not (c is not None and c[0] == size):
            for co in [co for co, (cs, cv) in cells.items() if co < off + size and off < co + cs]:
                cs, cv = cells.pop(co)
                if co >= off and co + cs <= off + size:
                    continue
                if cv == 'Z':
                    if co < off:
                        cells[co] = (off - co, 'Z')
                    if co + cs > off + size:
                        cells[off + size] = (co + cs - off - size, 'Z')
                elif isinstance(cv, int):
                    for j in range(cs):
                        if not off <= co + j < off + size:
                            cells[co + j] = (1, (cv >> (8 * j)) & 255)
                elif cv is UNDEF:
                    pass
                else:
                    raise Unsupported(f'partial overwrite of a container or value ({cs} bytes at {co}: {cv}, writing {size} at {off} of {o.site})')
        cells[off] = (size, v)

    # --- container element access: regions ('v', region, off) / ('s', region, off)
    def getbox(self, st, p, kind=None, info=None):
        """container stored at p: [(state, Box)]"""
        self.check_ptr(st, p, 'use of a container')
        p = st.norm(p)
        if p.r[0] in ('v', 's'):
            return self.load_elem(st, p, None, 'box')
        if not isinstance(p.o, int):
            raise Unsupported('container at a symbolic offset')
        cells, o = self.obj_cells(st, p.r, 'use')
        c = cells.get(p.o)
        if c is not None and isinstance(c[1], Box):
            return [(st, c[1])]
        if c is None and o is not None and o.lazy:
            b = self.plugin.lazy_box(self, st, p, kind, info, o) if self.plugin else None
            if b is None:
                b = self.fresh_box(st, kind, info)
            st.wobj(p.r[1]).cells[p.o] = (BOXSIZE.get(b.k, 8), b)
            return [(st, b)]
        if p.r[0] == 'g' and kind == 'str':
            raise Unsupported('global string')
        raise Violation(f'use of a {kind or "container"} that was never constructed or already destroyed')

    def fresh_box(self, st, kind, info):
        if kind == 'str':
            return Box('str', sym_seq())
        if kind == 'vec':
            esz, tn = info
            return Box('vec', st.fresh_seq(elem_kind(tn)), esz, tn)
        if kind == 'map':
            return Box('map', fresh(), (), info)
        raise Unsupported(f'lazy {kind}')

    def putbox(self, st, p, b):
        """[state]"""
        self.check_ptr(st, p, 'write')
        p = st.norm(p)
        if p.r[0] in ('v', 's'):
            return self.store_elem(st, p, None, b)
        self.wcell(st, p, BOXSIZE.get(b.k, 8), b)
        return [st]

    def head_elem(self, st, seq):
        """first element of a sequence: [(state, elem value or None if empty, rest)]"""
        seq = st.nseq(seq)
        if not seq:
            return [(st, None, EMPTY)]
        it = seq[0]
        if it[0] == 'e':
            return [(st, it[1], Seq(seq[1:]))]
        if it[0] in ('s', 't'):
            out = []
            for s in st.expand(it):
                out.extend(self.head_elem(s, seq))
            return out
        if it[0] == 'm':
            out = []
            for s, b in st.split_ge(ladd(ladd(it[3], it[2], -1), -1)):
                if not b:
                    out.extend(self.head_elem(s, Seq(seq[1:])))
                else:
                    q = inst_body(s, it[1], it[2]) + Seq((('m', it[1], ladd(it[2], 1), it[3]),)) + Seq(seq[1:])
                    it2 = q[0]
                    if it2[0] == 'e':
                        out.append((s, it2[1], Seq(q[1:])))
                    else:
                        raise Unsupported('head of a comprehension')
            return out
        raise Unsupported('head_elem')

    def locate(self, st, p):
        """element addressed by p in region v/s: [(state, box, left, elem, right, sub)]
        elem None when out of range"""
        base = Ptr(p.r[1], p.r[2])
        out = []
        for s, b in self.getbox(st, base):
            esz = 1 if b.k == 'str' else b.b
            off = s.nlin(p.o)
            if isinstance(off, int):
                idx, sub = off // esz, off % esz
            else:
                sub = off.c % esz
                idx = self._exact_div(ladd(off, -sub), esz) if isinstance(ladd(off, -sub), Lin) else None
                if idx is None:
                    raise Unsupported('unaligned element address')
            for s2, l, r in s.cut(b.a, idx):
                if l is None:
                    out.append((s2, b, None, None, None, sub))
                    continue
                for s3, e, rest in self.head_elem(s2, r):
                    out.append((s3, b, s3.nseq(l), e, rest, sub))
        return out

    def load_elem(self, st, p, size, ty):
        out = []
        for s, b, l, e, r, sub in self.locate(st, p):
            if e is None:
                if b.k == 'str' and size == 1 and l is not None:
                    # the terminating zero of a string may be read
                    if not s.nseq(r):
                        out.append((s, 0))
                        continue
                self.violation(s, 'reads an element outside a container' if b.k == 'vec'
                               else 'reads a character outside a string')
                continue
            if size is not None and b.k == 'str' and size > 1:
                raise Unsupported('multi-byte read from a string')
            v = self.elem_get(s, b, e, sub, size, ty)
            if b.k == 'vec' and self.plugin is not None and self.plugin.watch_elem:
                self.plugin.on_elem(self, s, b, l)
            out.append((s, v))
        return out

    def elem_get(self, s, b, e, sub, size, ty):
        if isinstance(e, Seq):
            if sub == 0 and (size is None or size == 32):
                return Box('str', s.nseq(e))
            raise Unsupported('access to the inside of a string object')
        if isinstance(e, Struct):
            for o, sz, v in e.f:
                if o == sub and (size is None or sz == size or v == 'Z'):
                    return 0 if v == 'Z' else s.norm(v)
            raise Unsupported(f'field access at {sub} of a vector element')
        if sub == 0:
            return s.norm(e)
        raise Unsupported('vector element access')

    def store_elem(self, st, p, size, v):
        out = []
        base = Ptr(p.r[1], p.r[2])
        for s, b, l, e, r, sub in self.locate(st, p):
            if e is None:
                if b.k == 'str' and v == 0 and l is not None and not s.nseq(r):
                    out.append(s)
                    continue
                self.violation(s, 'writes an element outside a container')
                continue
            if isinstance(e, Seq):
                if isinstance(v, Box) and v.k == 'str' and sub == 0:
                    ne = v.a
                else:
                    raise Unsupported('store into a string object')
            elif isinstance(e, Struct):
                f = []
                hit = False
                for o, sz, x in e.f:
                    if o == sub:
                        if size is not None and sz != size:
                            raise Unsupported('store to part of a field')
                        f.append((o, sz, v))
                        hit = True
                    else:
                        f.append((o, sz, x))
                if not hit:
                    f.append((sub, size or BOXSIZE.get(v.k, 8), v))
                    f.sort(key=lambda t: t[0])
                ne = Struct(tuple(f))
            else:
                ne = v
            nb = Box(b.k, Seq(l) + elem(ne) + Seq(r), b.b, b.c)
            out.extend(self.putbox(s, base, nb))
        return out

    # --------------------------------------------------- bulk object copies
    def snapshot(self, st, p, size):
        """cells of [p, p+size) as ((off,size,val),...): [(state, cells)]"""
        p = st.norm(p)
        self.check_ptr(st, p, 'read')
        if p.r[0] in ('v', 's'):
            out = []
            for s, b, l, e, r, sub in self.locate(st, p):
                if e is None:
                    self.violation(s, 'reads an element outside a container')
                    continue
                if isinstance(e, Struct) and sub == 0:
                    out.append((s, tuple((o, z, s.norm(v)) for o, z, v in e.f)))
                elif isinstance(e, Struct):
                    out.append((s, tuple((o - sub, z, s.norm(v)) for o, z, v in e.f if sub <= o < sub + size)))
                elif isinstance(e, Seq):
                    out.append((s, ((0, 32, Box('str', s.nseq(e))),)))
                else:
                    out.append((s, ((0, size, s.norm(e)),)))
            return out
        cells, o = self.obj_cells(st, p.r, 'read')
        if o is not None and o.lazy and self.plugin:
            self.plugin.lazy_fill(self, st, p, size, o)
            cells, o = self.obj_cells(st, p.r, 'read')
        r = []
        for co, (cs, cv) in cells.items():
            if p.o <= co < p.o + size:
                r.append((co - p.o, cs, st.norm(cv) if not isinstance(cv, str) else cv))
        r.sort(key=lambda t: t[0])
        return [(st, tuple(r))]

    def restore(self, st, p, cells):
        """write a snapshot at p: [state]"""
        sts = [st]
        for o, z, v in cells:
            nx = []
            for s in sts:
                nx += self.putbox(s, p.at(o), v) if isinstance(v, Box) and v.k != 'agg' else self.store(s, p.at(o), z, v)
            sts = nx
        return sts

    def cells_to_elem(self, cells, tn):
        k = elem_kind(tn)
        if k == 's':
            if len(cells) == 1 and isinstance(cells[0][2], Box):
                return cells[0][2].a
            raise Unsupported('string element')
        if k in ('p', 'i', 'b'):
            if len(cells) == 1:
                return cells[0][2]
            raise Unsupported('scalar element')
        return Struct(tuple(cells))

    def elem_to_cells(self, e, esz):
        if isinstance(e, Seq):
            return ((0, 32, Box('str', e)),)
        if isinstance(e, Struct):
            return e.f
        return ((0, esz, e),)

    # ----------------------------------------------------------------- calls
    def op_call(self, st, fr, op):
        callee = op['callee']
        args = [self.val(st, fr, a) for a in op['args']]
        if op.get('intr'):
            r = self.intrinsic(st, fr, op, op['intr'], args)
            if r is not NotImplemented:
                return r
        if callee[0] == 'f':
            name = callee[1]
        else:
            f = self.val(st, fr, callee)
            if isinstance(f, Ptr) and f.r[0] == 'f':
                name = f.r[1]
            elif self.plugin and (r := self.plugin.indirect_call(self, st, fr, op, f, args)) is not NotImplemented:
                return self.finish_call(st, op, r)
            elif isinstance(f, int):
                raise Violation('call through a null function pointer')
            else:
                raise Unsupported(f'indirect call to {f}')
        return self.call(st, op, name, args)

    def finish_call(self, st, op, r):
        """r: list of (state, value)"""
        out = []
        for s, v in r:
            c = s.frames[-1]
            c.regs[op['id']] = v
            if op.get('t') is not None:
                self.goto(s, c, op['t'])
            else:
                c.idx += 1
            out.append(s)
        if len(out) == 1 and out[0] is st and op.get('t') is None:
            return None
        return out

    def call(self, st, op, name, args):
        fn = self.prog.funcs.get(name)
        if fn is None:
            raise Unsupported(f'unknown function {name}')
        self.stats['calls'] += 1
        m = self.find_model(fn)
        if m is not None:
            r = m(Call(self, fn, op, args), st, *args)
            if r is not NotImplemented:
                if r is None:
                    r = [(st, None)]
                return self.finish_call(st, op, r)
        if not fn.blocks:
            raise Unsupported(f'no model for {fn.dem[:200]}')
        return self.enter(st, fn, args, op)

    def find_model(self, fn):
        m = self.models.get(fn.name)
        if m is None:
            m = self.models.get(fn.norm)
        if m is None:
            m = self.models.get(fn.norm.rsplit('::', 1)[0] + '::*') if '::' in fn.norm else None
        return m

    def enter(self, st, fn, args, op=None):
        fn.prepare()
        if self.plugin:
            r = self.plugin.on_enter(self, st, fn, args, op)
            if r is not None:
                return self.finish_call(st, op, r)
        if len(st.frames) > 200:
            raise Unsupported('call depth')
        if fn.file and '/repo' in self.abspath(fn.file):
            self.funcs_seen.add(fn.norm)
        f = Frame(fn)
        for i, a in enumerate(args[:fn.nargs]):
            ar = fn.args[i]
            if len(ar) > 2:
                # by-value aggregate: copy
                oid = st.new_obj(('byval', fn.name, i), ar[2], kind='stack')
                r = self.snapshot(st, a, ar[2])
                if len(r) != 1:
                    raise Unsupported('forking by-value copy')
                self.restore(st, Ptr(('o', oid), 0), r[0][1])
                f.allocas = f.allocas + (oid,)
                a = Ptr(('o', oid), 0)
            f.regs[i] = a
        st.frames.append(f)
        if 0 in fn.heads:
            return 'push'
        return None

    def intrinsic(self, st, fr, op, n, args):
        if n.startswith('llvm.lifetime.'):
            p = args[-1]
            if isinstance(p, Ptr) and p.r[0] == 'o' and p.r[1] in st.objs:
                st.wobj(p.r[1]).cells = {}
            fr.idx += 1
            return None
        if n.startswith(('llvm.expect', 'llvm.launder', 'llvm.strip')):
            return self.seti(st, fr, op, args[0])
        if n.startswith(('llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.stacksave',
                         'llvm.stackrestore', 'llvm.donothing', 'llvm.sideeffect')):
            fr.regs[op['id']] = UNDEF
            fr.idx += 1
            return None
        if n.startswith('llvm.is.constant'):
            return self.seti(st, fr, op, 0)
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            raise Violation('reaches a trap')
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            return self.finish_call(st, op, [(s, None) for s in self.memcpy(st, args[0], args[1], args[2])])
        if n.startswith('llvm.memset'):
            sts = self.memset(st, args[0], args[1], args[2])
            return self.finish_call(st, op, [(s, None) for s in sts])
        for pre, pred in (('llvm.umin', 'ult'), ('llvm.umax', 'ugt'), ('llvm.smin', 'slt'), ('llvm.smax', 'sgt')):
            if n.startswith(pre):
                w = width(op['ty'])
                return self.setm(st, op, [(s, s.norm(args[0]) if b else s.norm(args[1]))
                                          for s, b in self.cmp_int(st, args[0], args[1], pred, w)])
        return NotImplemented

    def memset(self, st, p, v, n):
        if isinstance(n, int) and n == 0:
            return [st]
        if v != 0:
            if p.r[0] in ('s', 'v'):
                raise Unsupported('memset of element data')
        p = st.norm(p)
        if p.r[0] == 's':
            raise Unsupported('memset of string data')
        if not isinstance(n, int):
            raise Unsupported('memset of symbolic size')
        if v == 0:
            sts = [st]
            if p.r[0] == 'v':
                raise Unsupported('memset of vector data')
            self.wcell(st, p, n, 'Z')
            return sts
        if n <= 64:
            for j in range(n):
                self.wcell(st, p.at(j), 1, v)
            return [st]
        raise Unsupported('memset')

    def memcpy(self, st, d, s, n):
        """[state]"""
        n = st.nlin(n) if not isinstance(n, int) else n
        if isinstance(n, int) and n == 0:
            return [st]
        self.check_ptr(st, s, 'copy')
        self.check_ptr(st, d, 'copy')
        s, d = st.norm(s), st.norm(d)
        if s.r[0] == 's':
            out = []
            for t, sub in self.bytes_at(st, s, n):
                out.extend(self.put_bytes(t, d, sub, n))
            return out
        if not isinstance(n, int):
            out = []
            for t, x in self.concretise(st, n):
                out.extend(self.memcpy(t, d, s, x))
            return out
        if not isinstance(s.o, int):
            out = []
            for t, x in self.concretise(st, s.o):
                out.extend(self.memcpy(t, d, Ptr(s.r, x), n))
            return out
        if d.r[0] == 's':
            out = []
            for t, sub in self.bytes_at(st, s, n):
                out.extend(self.put_bytes(t, d, sub, n))
            return out
        if s.r[0] == 'g' and s.r not in st.objs:
            g = self.gobj(s.r[1])
            for co, (cs, cv) in sorted(g.items()):
                if s.o <= co < s.o + n:
                    self.wcell(st, d.at(co - s.o), cs, cv)
            return [st]
        out = []
        for t, cells in self.snapshot(st, s, n):
            for o, z, v in cells:
                if isinstance(v, Box) and v.k in ('str', 'vec', 'map'):
                    raise Unsupported('bitwise copy of a container')
            out.extend(self.restore(t, d, cells))
        return out

    def bytes_at(self, st, p, n):
        """n bytes at p as a sequence: [(state, Seq)]; violation when out of range"""
        p = st.norm(p) if isinstance(p, Ptr) else p
        n = st.nlin(n)
        if isinstance(n, int) and n == 0:
            return [(st, EMPTY)]
        self.check_ptr(st, p, 'read')
        if p.r[0] == 's':
            out = []
            for s, b in self.getbox(st, Ptr(p.r[1], p.r[2])):
                for s2, l, r in s.cut(b.a, p.o):
                    if l is None:
                        self.violation(s2, 'reads characters outside a string')
                        continue
                    for s3, m, rest in s2.cut(s2.nseq(r), n):
                        if m is None:
                            self.violation(s3, 'reads characters outside a string')
                            continue
                        out.append((s3, s3.nseq(m)))
            return out
        if not isinstance(p.o, int):
            raise Unsupported('bytes at a symbolic offset')
        if not isinstance(n, int):
            out = []
            for s, x in self.concretise(st, n, 64):
                out.extend(self.bytes_at(s, p, x))
            return out
        if p.r[0] == 'g' and p.r not in st.objs:
            g = self.gobj(p.r[1])
            bs = []
            for j in range(n):
                c = g.get(p.o + j)
                if c is None:
                    for co, (cs, cv) in g.items():
                        if cv == 'Z' and co <= p.o + j < co + cs:
                            c = (1, 0)
                if c is None:
                    raise Violation('reads outside a constant')
                bs.append(('e', 0 if c[1] == 'Z' else c[1]))
            return [(st, Seq(bs))]
        bs = []
        sts = [(st, ())]
        for j in range(n):
            nx = []
            for s, acc in sts:
                for s2, v in self.load(s, p.at(j), 1, 'i8'):
                    nx.append((s2, acc + (('e', v),)))
            sts = nx
        return [(s, Seq(a)) for s, a in sts]

    def put_bytes(self, st, d, seq, n):
        """write a byte sequence at d: [state]"""
        seq = st.nseq(seq)
        if d.r[0] == 's':
            out = []
            base = Ptr(d.r[1], d.r[2])
            for s, b in self.getbox(st, base):
                for s2, l, r in s.cut(b.a, d.o):
                    if l is None:
                        self.violation(s2, 'writes characters outside a string')
                        continue
                    for s3, m, rest in s2.cut(s2.nseq(r), n):
                        if m is None:
                            self.violation(s3, 'writes characters outside a string')
                            continue
                        out.extend(self.putbox(s3, base, Box('str', s3.nseq(Seq(l) + seq + Seq(rest)))))
            return out
        if all(i[0] == 'e' for i in seq):
            if not isinstance(d.o, int):
                out = []
                for s, x in self.concretise(st, d.o):
                    out.extend(self.put_bytes(s, Ptr(d.r, x), seq, n))
                return out
            for j, i in enumerate(seq):
                self.wcell(st, d.at(j), 1, i[1])
            return [st]
        # expand unknown pieces when the length is bounded
        for it in seq:
            if it[0] in ('s', 't'):
                lo, hi = st.range(st.seqlen(Seq((it,))))
                if isinstance(n, int) or hi <= 64:
                    out = []
                    for s in st.expand(it):
                        out.extend(self.put_bytes(s, d, s.nseq(seq), n))
                    return out
                for s_, x in [(None, None)]:
                    pass
                out = []
                for s, x in self.concretise(st, n, 16):
                    out.extend(self.put_bytes(s, d, s.nseq(seq), x))
                return out
        raise Unsupported('copy of a symbolic number of bytes into an object')

    def cstr(self, st, p):
        """the zero-terminated string at p: [(state, Seq)]"""
        self.check_ptr(st, p, 'read')
        p = st.norm(p)
        if p.r[0] == 'g' and p.r not in st.objs:
            g = self.gobj(p.r[1])
            bs = []
            o = p.o
            while True:
                c = g.get(o)
                if c is None or c[1] == 'Z' or c[1] == 0:
                    break
                bs.append(('e', c[1]))
                o += 1
            return [(st, Seq(bs))]
        if p.r[0] == 's':
            out = []
            for s, b in self.getbox(st, Ptr(p.r[1], p.r[2])):
                for s2, l, r in s.cut(b.a, p.o):
                    if l is None:
                        self.violation(s2, 'reads characters outside a string')
                        continue
                    for s3, a, e, t in s2.find(r, 1):
                        out.append((s3, s3.nseq(r) if a is None else a))
            return out
        bs = []
        raise Unsupported('C string in an object')


BOXSIZE = {'str': 32, 'vec': 24, 'map': 48, 'opq': 8, 'agg': 8}


def elem_kind(tn):
    t = tn
    if t.endswith('*') or t.startswith('std::unique_ptr') or t.startswith('unique_ptr'):
        return 'p'
    if t == 'std::string':
        return 's'
    if 'basic_string<' in t and not t.startswith('std::vector') and not t.startswith('std::pair'):
        return 's'
    if t in ('char', 'unsigned char', 'signed char', 'bool'):
        return 'b'
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'short'):
        return 'i'
    return t
