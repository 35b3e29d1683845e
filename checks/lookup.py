"""PathMatcher (C05, C06, C10, C12-C16, C18, C19): registrations and lookups over an abstract template parser and trie.

The template parser, the trie (InsertPath, LookupPath) and the percent decoder are replaced by their contracts (they are
decided by C01-C04 and C07-C09); everything between them is analysed. What a lookup asks the trie, and what it makes of
the answer, is compared with the reference definition at these boundaries."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import state as S
import build, runner, specs, models
from program import Program
from interp import Violation, with_split, NeedSplit
from models import MODELS, ret, getstr
from plugin import Plugin
import tmpl

NS = 'google::grpc::transcoding::'
VK = tmpl.VK
BK = NS + 'VariableBinding'
STRK = 'std::string'
SL, CO, QM, AM, EQ = (1 << ord(c) for c in '/:?&=')


def fork(st, n):
    st.nfork += 1
    return [st.clone() for _ in range(n - 1)] + [st]


def st_len(st, q, n):
    st.rng[('L', q[0])] = (0, n)


OTHER = ((1 << 128) - (1 << 32)) & ~(SL | CO | QM | AM | EQ | (1 << ord('.')) | (1 << ord('+')) | (1 << ord('%')))


# ---- the segments without the empty ones at the end
def trim(st, q, force=False):
    """as far as known; with force: completely (asks for case splits)"""
    q = st.nseq(q)
    while q:
        l = q[-1]
        if l[0] != 'e':
            if force:
                raise NeedSplit(lambda s: s.expand(l, True))
            break
        lo, hi = st.range(st.seqlen(l[1]))
        if lo > 0:
            break
        if hi == 0:
            q = Seq(q[:-1])
            continue
        if force:
            raise NeedSplit(lambda s: [r[0] for r in s.split_eq(s.seqlen(l[1]))])
        break
    return q


# ---- tv(vars): the variables of a template that has just been matched: their ranges lie within the request
def expand_tv(st, it, end):
    out = []
    q = it[2][0]
    if not q or q[0][0] == 'e':
        return [st]
    lo, hi = st.arange(('L', it))
    try:
        st.add_fact(ladd(st.seqlen(q), -lo))
        if hi < 1 << 31:
            st.add_fact(ladd(hi, st.seqlen(q), -1))
    except Infeasible:
        return []
    for s in st.expand(q[-1 if end else 0], end):
        x = s.nseq(q)
        if not x:
            out.append(s)
            continue
        n = s.seqlen(s.ghost['parts']) if 'parts' in s.ghost else None
        v = x[-1 if end else 0][1]
        a, e = s.nlin(v.get(0)), s.nlin(v.get(4))
        if n is None:
            out.append(s)
            continue
        for s2, pos in s.split_ge(e):
            n = s2.seqlen(s2.ghost['parts'])
            e2 = s2.nlin(e) if pos else ladd(ladd(n, e), 1)
            try:
                s2.add_fact(s2.nlin(a))
                s2.add_fact(ladd(e2, s2.nlin(a), -1))
                s2.add_fact(ladd(n, e2, -1))
            except Infeasible:
                continue
            out.append(s2)
    return out


def simp_tv(st, it):
    q = it[2][0]
    if not q:
        return EMPTY
    i = 0
    while i < len(q) and q[i][0] == 'e':
        i += 1
    if i:
        return Seq(q[:i]) + (Seq((('t', 'tv', (Seq(q[i:]),)),)) if q[i:] else EMPTY)
    j = len(q)
    while j > 0 and q[j - 1][0] == 'e':
        j -= 1
    if j < len(q):
        return Seq((('t', 'tv', (Seq(q[:j]),)),)) + Seq(q[j:])
    return None


S.TERM_SIMPLIFY['tv'] = simp_tv
S.TERM_KIND['tv'] = lambda it: VK
S.TERM_EXPAND['tv'] = expand_tv


def binding(fp, val):
    return Struct(((0, 24, Box('vec', fp, 32, STRK)), (24, 32, Box('str', val))))


S.ELEM_MAKERS[BK] = lambda st: binding(st.fresh_seq('s'), sym_seq())


def const_of(st, v):
    v = st.norm(v)
    return v if isinstance(v, int) else None


def g_dup(st, i):
    return st.ghost.get(f'_ok{i}') and st.ghost.get(f'_ins{i}') == 0


class PM(Plugin):
    """ghost: _r number of the current registration; Si strings; per registration i: _okI (parsed), _insI (trie answer),
    segsI/varsI/verbI of its template, keyI the trie key, dataI; per lookup: path, parts, verb, outcome _hit"""
    def __init__(self, what, entry, setters=0):
        self.what, self.entry, self.setters, self.regs = what, entry, setters, int(entry[-1])
        self.mode = what

    def initial(self, E):
        st = State()
        g = st.ghost
        g['_r'] = 0
        g['_ph'] = 0
        ks = [3, 4, 5]
        for i in range(1, self.regs + 1):
            ks += [10 * i, 10 * i + 1, 10 * i + 2]
        for k in ks:
            o = st.new_obj(('env', f'string{k}'), kind='env')
            q = sym_seq()
            st.objs[o].cells[0] = (32, Box('str', q))
            g[f'S{k}'] = Ptr(('o', o), 0)
        for i in range(1, self.regs + 1):
            o = st.new_obj(('env', f'params{i}'), kind='env')
            st.objs[o].cells[0] = (48, Box('map', i, (), ('set', STRK, None, 0, 32)))
            g[f'P{i}'] = Ptr(('o', o), 0)
            g[f'M{i}'] = Ptr(('o', st.new_obj(('env', f'method{i}'), kind='env')), 0)
        for k in (2, 4, 6):
            g[f'_f{k}'] = -1
        g['spec'] = 0
        return st, self.entry, []

    def search_bound(self, E, st, rand):
        """one round of the random search: a class of requests and registrations"""
        def put(k, cs):
            q = self.text(st, k)
            if q and q[0][0] == 's':
                st.bind_seq(q[0], Seq(('e', st.fresh_elem('b', OTHER if m is None else m)) for m in cs))
        self.small = rand.random() < 0.8
        if rand.random() < 0.15:
            return
        def path(n):
            cs = [SL]
            for _ in range(rand.randint(0, n)):
                cs.append(rand.choice((SL, None, None, CO, None)))
            if rand.random() < 0.2:
                cs += [QM] + [rand.choice((None, SL, CO, QM))] * rand.randint(0, 2)
            return cs
        def query(n):
            return [rand.choice((AM, EQ, EQ, None, None, None, 1 << ord('.'), 1 << ord('+'))) for _ in range(rand.randint(0, n))]
        put(4, path(rand.choice((3, 6, 9))) if rand.random() < 0.9 else [])
        if rand.random() < 0.5:
            put(5, [None, EQ] + [rand.choice((None, AM, EQ, 1 << ord('+'), 1 << ord('+'))) for _ in range(rand.randint(0, 4))])
        put(5, query(rand.choice((0, 4, 8))))
        put(3, [None] * rand.randint(0, 2))
        for i in range(1, self.regs + 1):
            put(10 * i, [None] * rand.randint(0, 2))
            put(10 * i + 1, [None] * rand.randint(0, 2))
            put(10 * i + 2, [None] * rand.randint(0, 2))

    def text(self, st, k):
        """the (never modified) text of environment string k"""
        return st.nseq(st.objs[st.ghost[f'S{k}'].r[1]].cells[0][1].a)

    # ---- environment
    def string(self, E, st, k):
        if k > 9:
            st.ghost['_r'] = k // 10
        return [(st, st.ghost[f'S{k}'])]

    def params(self, E, st, i):
        return [(st, st.ghost[f'P{i}'])]

    def method(self, E, st, i):
        st.ghost['_r'] = i
        if i == 2 and self.what in ('C10', 'C16', 'C19'):
            a, b = fork(st, 2)          # the same method value again, or another one
            b.ghost['M2'] = b.ghost['M1']
            return [(a, a.ghost['M2']), (b, b.ghost['M2'])]
        return [(st, st.ghost[f'M{i}'])]

    def flag(self, E, st, k):
        if k in (0, 1, 3, 5):
            return [(st, int(self.setters))]
        if k not in FLAGS.get(self.what, (2, 4, 6)):
            x = ('i', fresh())
            st.rng[x] = (0, 1)
            st.ghost[f'f{k}'] = atom(x)
            return [(st, atom(x))]
        out = []
        for v, s in enumerate(fork(st, 2)):
            s.ghost[f'_f{k}'] = v
            out.append((s, v))
        return out

    def spec(self, E, st):
        a = ('i', fresh())
        st.rng[a] = (0, 2)
        st.ghost['spec'] = atom(a)
        return [(st, atom(a))]

    # ---- the template parser
    def parse(self, E, st, *a):
        if len(a) == 2:
            return ret([s2 for s, p in self.parsed(E, st, a[1]) for s2 in E.store(s, a[0], 8, p)])
        return self.parsed(E, st, a[0])

    def parsed(self, E, st, t):
        i = st.ghost['_r']
        out = []
        for s, q in getstr(E, st, t):
            for s2, eq in s.seq_eq(s.nseq(q), self.text(s, 10 * i + 1)):
                if not eq:
                    if self.what == 'C10':
                        E.violation(s2, 'the text parsed is not the template registered')
                    continue
                if self.what in ('C05', 'C14', 'C16'):
                    b = s2
                else:
                    a, b = fork(s2, 2)
                    a.ghost[f'_ok{i}'] = 0
                    out.append((a, 0))
                g = b.ghost
                g[f'_ok{i}'] = 1
                o = b.new_obj(('env', f'template{i}'), kind='env')
                seg, var, verb = b.fresh_seq('s'), b.fresh_seq(VK), sym_seq()
                if E.search:
                    st_len(b, seg, 3)
                    st_len(b, var, 2)
                    st_len(b, verb, 2)
                if self.vars_of(b, i) is not None:
                    var = self.vars_of(b, i)
                # sizes of the members are those of the standard library's types
                b.objs[o].cells[0] = (24, Box('vec', seg, 32, STRK))
                b.objs[o].cells[24] = (32, Box('str', verb))
                b.objs[o].cells[56] = (24, Box('vec', b.nseq(term('tv', var)) if var else EMPTY, 40, VK))
                g[f'segs{i}'], g[f'vars{i}'], g[f'verb{i}'] = seg, b.nseq(term('tv', var)) if var else EMPTY, verb
                g[f'T{i}'] = Ptr(('o', o), 0)
                out.append((b, Ptr(('o', o), 0)))
        return out

    def vars_of(self, st, i):
        return None

    def member(self, off):
        def f(E, st, this):
            p = st.norm(this)
            if st.objs[p.r[1]].freed:
                raise Violation('uses a template that has been released')
            return [(st, p.at(off))]
        return f

    # ---- the trie
    def insert(self, E, st, this, info, key, data, mark):
        g = st.ghost
        i = g['_r']
        out = []
        if self.what == 'C10' and const_of(st, mark) != 1:
            E.violation(st, 'duplicates are not marked in the trie')
            return []
        for s, b in E.getbox(st, info, 'vec', (32, STRK)):
            if self.what == 'C16':
                E.stats['obligations'] += 1
                for s2, eq in s.clone().seq_eq(s.nseq(b.a), s.nseq(s.ghost[f'segs{i}'])):
                    if not eq:
                        E.violation(s2, f'registers the segments {s2.nseq(b.a)} for a template with {s2.nseq(s2.ghost[f"segs{i}"])}')
            for s2, q in [(s3, q) for s2, q in getstr(E, s, key) for s3 in (self.separator(E, s2, i, q) if self.what in ('C06', 'C15f') else [s2])]:
                s2.ghost[f'data{i}'] = s2.norm(data)
                if not self.dup(s2, i):
                    s2.ghost[f'_ins{i}'] = 1
                    out.append((s2, 1))
                    continue
                a, b2 = fork(s2, 2)
                a.ghost[f'_ins{i}'] = 1
                b2.ghost[f'_ins{i}'] = 0
                out += [(a, 1), (b2, 0)]
        return out

    def dup(self, st, i):
        """can registration i be a duplicate of an earlier one?"""
        return any(st.ghost.get(f'_ins{j}') is not None for j in range(1, i))

    def registered(self, E, st, i, got):
        f = self.option(st, 6)
        if g_dup(st, i) and not isinstance(f, int):
            return [x for s, z in st.split_eq(f) for x in self.registered(E, s, i, got)]
        g = st.ghost
        want = int(bool(g.get(f'_ok{i}') and (g.get(f'_ins{i}') or not f)))
        if not g.get(f'_ok{i}') and f'_ins{i}' in g and self.what == 'C10':
            E.violation(st, 'an invalid template is registered')
        if g.get(f'_ok{i}') and f'_ins{i}' not in g:
            if self.what == 'C10':
                E.violation(st, 'a valid template does not reach the trie')
            return []
        if self.what == 'C10':
            E.stats['obligations'] += 1
            for s, z in st.clone().split_eq(got):
                if z == bool(want):
                    E.violation(s, f'registration returns {int(not z)}, specified {want}')
        g[f'_reg{i}'] = want
        return ret([st])

    # ---- lookups
    def lookup(self, E, st, k):
        st.ghost['_ph'] = k
        if self.what in ('C18', 'C19'):
            E.stats['obligations'] += 1
        st.ghost.pop('_hit', None)
        st.ghost.pop('_asked', None)
        if k == 1:
            if self.what not in ('C05', 'C06'):
                self.mark(E, st)
            for i in range(1, self.regs + 1):
                st.ghost.pop(f'T{i}', None)
                if self.what in ('C05', 'C06'):
                    for n in ('segs', 'vars', 'data', 'P', 'M') :
                        st.ghost.pop(f'{n}{i}', None)
        if self.what in ('C05', 'C06', 'C15f'):
            return ret(self.request(st))
        return ret([st])

    def mark(self, E, st):
        if True:
            for i, o in st.objs.items():
                if o.kind != 'stack' and not o.site[:1] == ('ro',):
                    st.wobj(i).site = ('ro',) + tuple(o.site if isinstance(o.site, tuple) else (o.site,))

    def request(self, st):
        """[state]: the reference reading of the request path: ghost txt (behind the leading character) and verb"""
        out = []
        for s, a, e, b in st.find(self.text(st, 4), QM):
            p = self.text(s, 4) if e is None else s.nseq(a)
            for s1, slash in self.lead(s, p):
              for s2, a2, e2, b2 in s1.find(s1.nseq(p), CO, True):
                  p2 = s2.nseq(p)
                  if e2 is None:
                      out += self.chop(s2, p2, EMPTY)
                      continue
                  for s3, x, e3, y in s2.find(s2.nseq(b2), SL):
                      if e3 is not None:
                          out += self.chop(s3, s3.nseq(p2), EMPTY)
                          continue
                      for s4, yes in self.is_verb(s3, s3.nseq(b2)):
                          if yes:
                              out += self.chop(s4, s4.nseq(a2), s4.nseq(b2))
                          else:
                              out += self.chop(s4, s4.nseq(p2), EMPTY)
        return out

    def lead(self, st, p):
        """paths are empty or start with a slash"""
        out = []
        for s in (st.expand(p[0]) if p and p[0][0] != 'e' else [st]):
            q = s.nseq(p)
            out += [(s2, 1) for s2, z in s.split_eq(ladd(q[0][1], -47)) if z] if q else [(s, 0)]
        return out

    def is_verb(self, st, v):
        out = []
        work = [st]
        if self.option(st, 4):
            return [(st, True)]
        for i in range(1, self.regs + 1):
            nx = []
            for s in work:
                if not s.ghost.get(f'_reg{i}'):
                    nx.append(s)
                    continue
                for s2, eq in s.seq_eq(s.nseq(v), s.nseq(s.ghost[f'verb{i}'])):
                    if not eq:
                        nx.append(s2)
                        continue
                    for s3, z in s2.split_eq(s2.seqlen(s2.nseq(v))):
                        if z:
                            nx.append(s3)
                        else:
                            out.append((s3, True))
            work = nx
        return out + [(s, False) for s in work]

    def chop(self, st, p, verb):
        st.ghost['verb'] = verb
        out = []
        if p and p[0][0] != 'e':
            ss = st.expand(p[0])
        else:
            ss = [st]
        for s in ss:
            q = s.nseq(p)
            if q and q[0][0] != 'e':
                raise Unsupported('path')
            s.ghost['xq'] = s.nseq(term('split', Seq(q[1:]), 47))
            out.append(s)
        return out

    def trie(self, E, st, this, cur, end, key, result):
        g = st.ghost
        g['_asked'] = 1
        out = []
        cur, end = st.norm(cur), st.norm(end)
        if not (isinstance(cur, Ptr) and cur.r[0] == 'v' and isinstance(end, Ptr) and end.r == cur.r):
            raise Unsupported('request parts')
        for s, b in E.getbox(st, Ptr(cur.r[1], cur.r[2]), 'vec', (32, STRK)):
            if s.nlin(cur.o) != 0 or s.nlin(ladd(lmul(s.seqlen(b.a), 32), end.o, -1)) != 0:
                raise Unsupported('part of the request parts')
            for s2, q in getstr(E, s, key):
                parts, q = s2.nseq(b.a), s2.nseq(q)
                if self.what in ('C05', 'C15f'):
                    runner.check_equal(E, s2, lambda t: (t.nseq(parts), trim(t, t.ghost['xq'], True)), 'segments of the request')
                if self.what in ('C06', 'C15f'):
                    self.check_key(E, s2, q)
                if self.what in ('C05', 'C06'):     # no match, or a duplicate: asked again?
                    a, b2 = fork(s2, 2)
                    a.ghost['_hit'] = b2.ghost['_hit'] = None
                    d = b2.new_obj(('env', 'found'), kind='env')
                    out += [a] + [u for t in E.store(b2, result, 8, Ptr(('o', d), 0)) for u in E.store(t, t.norm(result).at(8), 1, 1)]
                    continue
                if self.what in BLUR:
                    self.blur(E, s2, result)
                    if E.search is None:
                        r = Ptr(cur.r[1], cur.r[2])
                        parts = s2.fresh_seq('s')
                        E.putbox(s2, r, Box('vec', parts, 32, STRK))
                s2.ghost['parts'] = parts
                out += self.answer(E, s2, this, parts, q, result)
        return ret(out)

    def answer(self, E, st, this, parts, key, result):
        """what the trie may answer"""
        opts = [None]
        ins = [i for i in range(1, self.regs + 1) if f'_ins{i}' in st.ghost]
        dup = [i for i in ins if not st.ghost[f'_ins{i}']]
        for i in ins:
            if i in dup:
                opts.append((i, 1))
                continue
            opts.append((i, 0))
        out = []
        for o, s in zip(opts, fork(st, len(opts))):
            s.ghost['_hit'] = o
            if o is None:
                out.append(s)
                continue
            if o[1] == 0 and not s.ghost.get(f'_reg{o[0]}'):
                continue
            for s2 in E.store(s, result, 8, s.ghost[f'data{o[0]}']):
                out += E.store(s2, s2.norm(result).at(8), 1, o[1])
        return out

    def separator(self, E, st, i, key):
        """[state]: how method and verb make up the key of registration i: ghost _sep0 (no verb), _sep1"""
        out = []
        v = st.nseq(st.ghost[f'verb{i}'])
        for s, z in st.split_eq(st.seqlen(v)):
            m, v, k = self.text(s, 10 * i), s.nseq(st.ghost[f'verb{i}']), s.nseq(key)
            out.append(s)
            if Seq(k[:len(m)]) != m or (v and Seq(k[len(k) - len(v):]) != v):
                for s3, eq in s.clone().seq_eq(k, s.nseq(m + v)):
                    if not eq:
                        E.violation(s3, f'registers the template under {s3.nseq(k)}, specified {s3.nseq(m + v)}')
                continue
            k = Seq(k[len(m):len(k) - len(v)])
            if all(x[0] == 'e' and isinstance(x[1], int) for x in k):
                s.ghost['_sep0' if z else '_sep1'] = k
        return out

    def check_key(self, E, st, key):
        """the key asked for is that of the request's method and verb, as entered by the registrations"""
        for s, z in st.clone().split_eq(st.seqlen(st.nseq(st.ghost['verb']))):
            k = s.ghost.get('_sep0' if z else '_sep1')
            if k is None:
                continue
            E.stats['obligations'] += 1
            x = s.nseq(self.text(s, 3) + k + s.ghost['verb'])
            for s3, eq in s.seq_eq(s.nseq(key), x):
                if not eq:
                    E.violation(s3, f'asks the trie for {s3.nseq(key)}, specified {s3.nseq(x)}')

    # ---- outputs
    def bindings(self, E, st):
        if self.what in ('C05', 'C06', 'C10'):
            return [(st, 0)]
        a, b = fork(st, 2)
        a.ghost['_ob'] = 0
        g = b.ghost
        g['_ob'] = 1
        o = b.new_obj(('env', 'bindings'), kind='env')
        q = b.fresh_seq(BK)
        if E.search:
            st_len(b, q, 2)
        b.objs[o].cells[0] = (24, Box('vec', q, 56, BK))
        g['B'] = Ptr(('o', o), 0)
        g['B0'] = q
        g['_gone'] = 0
        return [(a, 0), (b, g['B'])]

    def body(self, E, st):
        if self.what in ('C05', 'C06', 'C10', 'C11', 'C12', 'C13'):
            return [(st, 0)]
        a, b = fork(st, 2)
        a.ghost['_oc'] = 0
        g = b.ghost
        g['_oc'] = 1
        o = b.new_obj(('env', 'body'), kind='env')
        q = sym_seq()
        b.objs[o].cells[0] = (32, Box('str', q))
        g['C'] = Ptr(('o', o), 0)
        g['C0'] = q
        return [(a, 0), (b, g['C'])]

    watch_write = True

    def on_enter(self, E, st, fn, args, op):
        """proofs go function by function: the helpers by their contracts (C05, C06; C11-C13)"""
        if E.search is not None or self.what not in BLUR:
            return None
        f = CONTRACTS.get(fn.norm)
        if f is None or len(args) != f[1] or (f[0] == 'segments' and self.what == 'C16'):
            return None
        if f[0] == 'parts' and self.what == 'C18' and 'brief' in self.entry:
            return None
        st.lineage[-1] = 1
        return getattr(self, 'c_' + f[0])(E, st, *args)

    def c_parts(self, E, st, out, path, verbs, verb, any_):
        sts = E.putbox(st, out, Box('vec', st.fresh_seq('s'), 32, STRK))
        return ret([s2 for s in sts for s2 in E.putbox(s, verb, Box('str', sym_seq()))])

    def c_segments(self, E, st, out, ht):
        return ret(E.putbox(st, out, Box('vec', st.fresh_seq('s'), 32, STRK)))

    def more(self, E, st, out):
        return [s2 for s, b in E.getbox(st, out, 'vec', (56, BK)) for s2 in E.putbox(s, out, Box('vec', s.nseq(Seq(b.a) + s.fresh_seq(BK)), 56, BK))]

    def c_path(self, E, st, vs, parts, spec, out):
        if self.what != 'C16':
            return ret(self.more(E, st, out))
        i = st.ghost['_hit'][0]
        for s, b in E.getbox(st.clone(), vs, 'vec', (40, VK)):
            E.stats['obligations'] += 1
            if s.nseq(b.a) != s.nseq(s.ghost[f'vars{i}']):
                E.violation(s, f'variables {s.nseq(b.a)}, specified {s.nseq(s.ghost[f"vars{i}"])}')
        runner.check_val(E, st.clone(), st.norm(spec), st.norm(st.ghost['spec']), 'unescape mode')
        return ret(self.more(E, st, out))

    def c_query(self, E, st, query, names, plus, out):
        if self.what != 'C16':
            return ret(self.more(E, st, out))
        i = st.ghost['_hit'][0]
        for s, b in E.getbox(st.clone(), names, 'map', ('set', STRK, None, 0, 32)):
            E.stats['obligations'] += 1
            if b.a != i:
                E.violation(s, f'system parameters {b}, specified those of registration {i}')
        runner.check_val(E, st.clone(), st.norm(plus), self.option(st, 2), 'plus setting')
        return ret(self.more(E, st, out))

    def map_query(self, E, st, p, box, key):
        """one memory for what is known about a registration's system parameters"""
        q = st.ghost.get(f'P{box.a}')
        if q is None or q == p:
            return None
        return [(s, e, box) for s, e, b in models.MAP_LOOKUP(E, st, q, None, key)]

    # ---- the bindings of a successful lookup
    def values(self, E, st, got, hit):
        i = hit[0]

        def items(t, q):
            q = t.nseq(q)
            for it in q:
                if it[0] != 'e':
                    raise NeedSplit(lambda s: s.expand(it))
            return [x[1] for x in q]

        def known(t, v):
            r = t.clone().split_eq(v)
            if len(r) > 1:
                raise NeedSplit(lambda s: [x[0] for x in s.split_eq(v)])
            return r[0][1]

        def text(t, q):
            return specs.force_terms(t, q)

        def parted(t, q, mask, last=False):
            """(before, behind) the first character in mask, or None"""
            q = t.nseq(q)
            for k, it in enumerate(q):
                if it[0] != 'e':
                    raise NeedSplit(lambda s: s.expand(it))
                d = specs.decide(t, it[1], mask, True)
                if d:
                    return Seq(q[:k]), Seq(q[k + 1:])
            return None

        def member(t, key):
            r = models.MAP_LOOKUP(E, t.clone(), t.ghost[f'P{i}'], None, key)
            if len(r) > 1:
                raise NeedSplit(lambda s: [x[0] for x in models.MAP_LOOKUP(E, s, s.ghost[f'P{i}'], None, key)])
            return r[0][1] is not None

        def cmp(t):
            out = []
            g = t.ghost
            parts = items(t, g['parts'])
            n = len(parts)
            mode = None
            for v in items(t, g[f'vars{i}']):
                a, e = t.nlin(v.get(0)), t.nlin(v.get(4))
                for k in (a, e):
                    if not isinstance(k, int):
                        raise NeedSplit(lambda s: [x[0] for x in E.concretise(s, k)])
                m = n + e + 1 if e < 0 else e
                multi = m - a > 1 or e < 0
                sp = 2
                if multi:
                    sp = t.nlin(g['spec'])
                    if not isinstance(sp, int):
                        raise NeedSplit(lambda s: [x[0] for x in E.concretise(s, sp)])
                val = EMPTY
                for k in range(a, m):
                    val = Seq(val) + (Seq((('e', 47),)) if k > a else EMPTY) + t.nseq(term('dec', sp, 0, t.nseq(parts[k])))
                out.append((t.nseq(v.get(8).a), val))
            pl = self.option(t, 2)
            if not isinstance(pl, int):
                pl = 1 - known(t, pl)
            rest = self.text(t, 5)
            while rest is not None:
                r = parted(t, rest, AM)
                item, rest = r if r else (t.nseq(rest), None)
                r = parted(t, item, EQ)
                if r and r[0] and not member(t, r[0]):
                    fp, name = [], r[0]
                    while name is not None:
                        d = parted(t, name, 1 << ord('.'))
                        x, name = d if d else (name, None)
                        fp.append(('e', Seq(x)))
                    out.append((Seq(fp), t.nseq(term('dec', 2, pl, t.nseq(r[1])))))
            have = [(t.nseq(b.get(0).a), text(t, b.get(24).a)) for b in items(t, got)]
            return have, [(f, text(t, v)) for f, v in out]

        for s, (have, want) in with_split(st, cmp):
            E.stats['obligations'] += 1
            if len(have) != len(want):
                E.violation(s, f'{len(have)} bindings, specified {len(want)}')
                continue
            for (f, v), (f2, v2) in zip(have, want):
                for a, b, n in ((f, f2, 'field path'), (v, v2, 'value')):
                    for s2, eq in s.clone().seq_eq(s.nseq(a), s.nseq(b)):
                        if not eq:
                            E.violation(s2, f'{n} {s2.nseq(a)}, specified {s2.nseq(b)}')

    def option(self, st, k):
        """the value option k is set to"""
        v = st.ghost[f'_f{k}']
        return (st.norm(st.ghost.get(f'f{k}', 0)) if v < 0 else v) if self.setters else 0

    def whole(self, st):
        return bool(st.ghost['_ph'])

    def at_head(self, E, st):
        g = st.ghost
        if self.what not in ('C05', 'C06', 'C15f') or 'verb' not in g:
            return
        if self.what == 'C06':
            g.pop('xq', None)
            self.forget(E, st)
            return
        # specified segments: those of any list in memory that has the same ones
        x = trim(st, g['xq'])
        best = None
        for i in sorted(k for k in st.objs if isinstance(k, int)):
            for off, (sz, v) in st.objs[i].cells.items():
                if isinstance(v, Box) and v.k == 'vec' and v.b == 32:
                    q = st.nseq(v.a)
                    if trim(st, q) == x and (q or best is None):
                        best = q
        if best is not None:
            g['xq'] = best
        if self.what == 'C05':
            self.forget(E, st)

    def forget(self, E, st):
        """the reference reading is made: the request's text does not matter any more"""
        if E.search is not None:
            return
        g = st.ghost
        for k in (4, 5):
            q = self.text(st, k)
            if not (len(q) == 1 and q[0][0] == 's' and q[0] not in g.get('xq', ()) and q[0] not in g['verb']):
                st.wobj(g[f'S{k}'].r[1]).cells[0] = (32, Box('str', sym_seq()))
        st.lineage[-1] = 1

    def blur(self, E, st, result):
        """an over-approximation: any request parts, any text anywhere outside the registered data (proofs only)"""
        if E.search is not None:
            return
        for i, o in list(st.objs.items()):
            if o.site[:1] in (('ro',), ('env',)):
                continue
            for off, (sz, v) in list(o.cells.items()):
                if isinstance(v, Box) and v.k == 'str':
                    st.wobj(i).cells[off] = (sz, Box('str', sym_seq()))
        st.lineage[-1] = 1

    def on_write(self, E, st, p, size, v):
        if self.what == 'C18' and st.ghost['_ph']:
            r = p.r
            while r[0] in ('v', 's'):
                r = r[1]
            if r[0] == 'g':
                E.violation(st, f'a lookup writes the global {r[1]}')
            elif r[0] == 'o' and st.objs[r[1]].site[:1] == ('ro',):
                E.violation(st, f'a lookup writes {st.objs[r[1]].site[1:]} offset {p.o}')
        if self.what == 'C14' and st.ghost.get('_ob') and p.r == st.ghost['B'].r and isinstance(v, Box):
            q = st.nseq(st.ghost['B0'])
            if q and q[0] not in st.nseq(v.a):
                st.ghost['_gone'] = 1

    def result(self, E, st, k, got):
        g = st.ghost
        if not g.get('_asked'):
            if self.what in ('C16', 'C15f', 'C05', 'C06'):
                E.violation(st, 'a lookup does not ask the trie')
            return []
        hit = g.get('_hit')
        win = hit is not None and not hit[1]
        n = st.norm(got)
        want = g[f'M{hit[0]}'] if win else 0
        if self.what in ('C14', 'C16', 'C15f') or (self.what == 'C10' and hit is not None and hit[1]):
            E.stats['obligations'] += 1
            if n != want:
                E.violation(st, f'the lookup returns {n}, specified {want}' if win else
                            'the lookup returns a method for a duplicate registration' if hit else 'the lookup returns a method although none matches')
                return []
        if k == 1 and self.what in ('C14', 'C16', 'C11', 'C12', 'C13') and 'full' in self.entry or 'both' in self.entry:
            self.outputs(E, st, win and n == want, hit)
        return []

    def outputs(self, E, st, win, hit):
        g = st.ghost
        if g.get('_oc'):
            for s, q in getstr(E, st.clone(), g['C']):
                x = self.text(s, 10 * hit[0] + 2) if win else s.nseq(g['C0'])
                if self.what == 'C14' or (win and self.what == 'C16'):
                    E.stats['obligations'] += 1
                    for s2, eq in s.seq_eq(s.nseq(q), s.nseq(x)):
                        if not eq:
                            E.violation(s2, f'body field path {s2.nseq(q)}, specified {s2.nseq(x)}')
        if not g.get('_ob'):
            return
        for s, b in E.getbox(st.clone(), g['B'], 'vec', (56, BK)):
            if self.what == 'C14':
                E.stats['obligations'] += 1
                if win:
                    if not g['_gone']:
                        for s2, z in s.split_eq(s.seqlen(s.nseq(g['B0']))):
                            if not z:
                                E.violation(s2, 'a successful lookup keeps previous bindings')
                elif s.nseq(b.a) != s.nseq(g['B0']):
                    E.violation(s, 'a failed lookup changes the bindings')
            elif win and E.search is not None:
                self.values(E, s, b.a, hit)


def hook(name):
    def f(c, st, *a):
        return getattr(c.E.plugin, name)(c.E, st, *a)
    return f


def num(name):
    def f(c, st, k, *a):
        return getattr(c.E.plugin, name)(c.E, st, int(k) & 0xffffffff, *a)
    return f


def decode(c, st, out, p, n, spec, plus):
    """UrlUnescapeString, by its contract (C04)"""
    E = c.E
    res = []
    if E.search is None and E.plugin.what not in VALUES:
        return ret(E.putbox(st, out, Box('str', sym_seq())))
    for s, sp in E.concretise(st, spec):
        for s1, pl in E.concretise(s, plus):
            for s2, t in E.bytes_at(s1, p, n):
                res += E.putbox(s2, out, Box('str', s2.nseq(term('dec', sp & 255, pl & 1, s2.nseq(t)))))
    return ret(res)


CONTRACTS = {NS + '{anon}::ExtractRequestParts': ('parts', 5), NS + '{anon}::ExtractBindingsFromPath': ('path', 4),
             NS + '{anon}::ExtractBindingsFromQueryParameters': ('query', 4),
             NS + '{anon}::TransformHttpTemplate': ('segments', 2)}
BLUR = ('C14', 'C16', 'C18', 'C19', 'C10')
VALUES = ('C11', 'C12', 'C13', 'C16')
MODELS2 = dict(MODELS)
for k, v in (('env_string', 'string'), ('env_params', 'params'), ('env_method', 'method'), ('env_flag', 'flag'), ('verif_registered', 'registered'),
             ('verif_lookup', 'lookup'), ('verif_result', 'result')):
    MODELS2[k] = num(v)
for k, v in (('env_spec', 'spec'), ('env_bindings', 'bindings'), ('env_body', 'body'),
             (NS + 'HttpTemplate::Parse', 'parse'), (NS + 'PathMatcherNode::InsertPath', 'insert'), (NS + 'PathMatcherNode::LookupPath', 'trie')):
    MODELS2[k] = hook(v)
for k, o in (('segments', 0), ('verb', 24), ('Variables', 56)):
    MODELS2[NS + 'HttpTemplate::' + k] = (lambda o: lambda c, st, this: c.E.plugin.member(o)(c.E, st, this))(o)
MODELS2[NS + 'UrlUnescapeString'] = decode
MODELS2[NS + 'HttpTemplate::~HttpTemplate'] = lambda c, st, this: ret([st])
MODELS2[NS + 'PathMatcherNode::~PathMatcherNode'] = lambda c, st, this: ret([st])
MODELS2[NS + 'PathMatcherNode::PathMatcherNode'] = lambda c, st, this: ret([st])


def program():
    return Program(build.dump('pm.cc', ['src/http_template.cc', 'src/path_matcher_node.cc'], ['verif_full1', 'verif_full2', 'verif_full3', 'verif_brief1', 'verif_brief2', 'verif_both1']))


FLAGS = {'C11': (), 'C12': (), 'C13': (), 'C05': (4,), 'C06': (4,), 'C10': (6,), 'C14': (), 'C18': (4,), 'C19': (6,), 'C16': ()}
ALSO = {'C09': 'C06'}       # keys are checked as in C06
CASES = {
    # both overloads ask the trie the same question and make the same of its answer
    'C15': (('verif_full1', 0, 'C05'), ('verif_brief1', 0, 'C05'), ('verif_full2', 0, 'C06'), ('verif_brief2', 0, 'C06'),
            ('verif_brief2', 1, 'C06'), ('verif_full2', 1, 'C06'), ('verif_full2', 1, 'C16'), ('verif_brief2', 1, 'C16')),
    'C09': (('verif_full2', 0), ('verif_brief2', 1)),
    'C05': (('verif_full1', 0), ('verif_full1', 1), ('verif_brief1', 0)),
    'C06': (('verif_full2', 0), ('verif_brief2', 1)),
    'C10': (('verif_full3', 0), ('verif_full3', 1)),
    'C14': (('verif_full2', 0), ('verif_full2', 1)),
    'C16': (('verif_full1', 1), ('verif_full2', 0), ('verif_full2', 1)),
    'C18': (('verif_full1', 0), ('verif_brief1', 0)),
    'C19': (('verif_full3', 0), ('verif_full3', 1)),
}


def analyse(what):
    def f(R):
        prog = program()
        for entry, setters, *w in CASES[what]:
            w = w[0] if w else ALSO.get(what, what)
            R.case(f'{entry[6:]}, ' + ('defaults' if not setters else 'options set') + (f', as {w}' if what == 'C15' else ''), prog,
                   PM(w, entry, setters), MODELS2, searches=(0, 1, 2))
        if what in ('C09', 'C10', 'C18', 'C19'):
            import trie
            trie.cases(R, what)
    return f


RULE = ('Abstract interpretation of PathMatcherBuilder and PathMatcher from the LLVM IR of the current sources, for arbitrary registrations, '
        'options and requests; parser, trie and percent decoder by their contracts.')
