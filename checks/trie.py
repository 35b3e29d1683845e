"""The trie (C07, C08; trie parts of C10, C18, C19): one lookup or insertion in an arbitrary trie.

Nodes are materialised when they are first asked for; everything the code has not asked for stays arbitrary. Requests and
templates of up to a given number of segments; the trie itself is not bounded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import build, runner, models
from program import Program
from interp import with_split, NeedSplit
from models import MODELS, ret
from plugin import Plugin

NS = 'google::grpc::transcoding::'
STRK = 'std::string'


def text(s):
    return Seq(('e', ord(c)) for c in s)


ANY, MANY, ONE = text('*'), text('**'), text('/.')


class Trie(Plugin):
    watch_write = True

    def __init__(self, what, entry, n, root=0, mark=None):
        self.what, self.entry, self.n, self.root, self.mark = what, entry, n, root, mark
        self.depth = n

    def initial(self, E):
        st = State()
        g = st.ghost
        g['_it'] = 0
        k = st.new_obj(('env', 'key'), kind='env')
        st.objs[k].cells[0] = (32, Box('str', sym_seq()))
        g['key'] = st.objs[k].cells[0][1].a
        g['K'] = Ptr(('o', k), 0)
        p = st.new_obj(('env', 'parts'), kind='env')
        q = Seq(('e', sym_seq()) for _ in range(self.n))
        st.objs[p].cells[0] = (24, Box('vec', q, 32, STRK))
        g['P'] = Ptr(('o', p), 0)
        g['parts'] = q
        r = st.new_obj(('env', 'result'), kind='env')
        st.objs[r].cells[0] = (8, 0)
        st.objs[r].cells[8] = (1, 0)
        g['R'] = Ptr(('o', r), 0)
        n = st.new_obj(('env', 'node'), lazy=('node',), kind='env')
        g['N'] = Ptr(('o', n), 0)
        d = st.new_obj(('env', 'data'), kind='env')
        g['D'] = Ptr(('o', d), 0)
        return st, self.entry, []

    def search_bound(self, E, st, rand):
        """usually segments that are told apart by their first byte"""
        for it in st.nseq(st.ghost['parts']):
            q = st.nseq(it[1])
            if q and q[0][0] == 's' and rand.random() < 0.8:
                st.bind_seq(q[0], Seq((('e', st.fresh_elem('b', 3 << 97)),)) if rand.random() < 0.9 else text('**'))

    def get(self, name):
        return lambda c, st: [(st, st.ghost[name])]

    def node(self, E, st, res, kids, wild):
        self.off = (res.o, kids.o, wild.o)
        self.fill(st, res.r[1], self.root)
        return ret([st])

    def fill(self, st, o, wild):
        c = st.wobj(o).cells
        c[self.off[0]] = (48, Box('map', fresh(), (), ('map', STRK, NS + 'PathMatcherLookupResult', 16, 32)))
        c[self.off[1]] = (48, Box('map', fresh(), (), ('map', STRK, 'std::unique_ptr', 8, 32)))
        c[self.off[2]] = (1, wild)

    def map_query(self, E, st, p, box, key):
        """a container of an arbitrary node is asked for a key it is not known to have or to lack"""
        out = []
        kids = 'unique_ptr' in (box.c[2] or '')
        if kids and st.nseq(key) == ONE:        # no template has a "/" inside a segment
            nb = E.getbox(st, p, 'map')[0][1]
            b = Box('map', nb.a, nb.b + ((ONE, None),), nb.c)
            return [(u, None, b) for u in models.silent_putbox(E, st, p, b)]
        for s, many in (st.seq_eq(st.nseq(key), MANY) if kids else [(st, False)]):
            if many and self.is_wild(s, p):     # nothing but literals below a "**"
                nb = E.getbox(s, p, 'map')[0][1]
                b = Box('map', nb.a, nb.b + ((MANY, None),), nb.c)
                out += [(u, None, b) for u in models.silent_putbox(E, s, p, b)]
                continue
            a = s.clone()
            s.nfork += 1
            a.nfork += 1
            k = a.nseq(key)
            e = models.map_elem(E, a, box.c, k, lazy=True)
            if kids:
                n = a.new_obj(('env', 'node'), lazy=('node',), kind='env')
                self.fill(a, n, int(many))
                a.objs[e].cells[32] = (8, Ptr(('o', n), 0))
            else:
                d = a.new_obj(('env', 'method'), kind='env')
                a.objs[e].cells[32] = (8, Ptr(('o', d), 0))
                a.objs[e].cells[40] = (1, a.fresh_elem('b', 3))
                a.ghost[f'm{e}'] = a.objs[e].cells[40][1]
            for t, el in ((a, e), (s, None)):
                nb = E.getbox(t, p, 'map')[0][1]
                b = Box('map', nb.a, nb.b + ((t.nseq(key), el),), nb.c)
                out += [(u, el, b) for u in models.silent_putbox(E, t, p, b)]
        return out

    def is_wild(self, st, p):
        c = st.objs[p.r[1]].cells if p.r[0] == 'o' else {}
        return self.off[2] in c and st.norm(c[self.off[2]][1]) == 1

    def at_head(self, E, st):
        st.ghost['_it'] = fresh()       # bounded number of segments: nothing is merged

    def on_write(self, E, st, p, size, v):
        if self.what != 'C18' or self.entry != 'verif_lookup_node':
            return
        r = p.r
        while r[0] in ('v', 's'):
            r = r[1]
        if r[0] == 'g':
            E.violation(st, f'a lookup writes the global {r[1]}')
        elif r[0] == 'o' and st.objs[r[1]].kind in ('env', 'elem') and r != st.ghost['R'].r:
            E.violation(st, f'a lookup writes {st.objs[r[1]].site} offset {p.o}')

    def on_enter(self, E, st, fn, args, op):
        """proofs by induction over the segments: searching a child, by contract"""
        if E.search is not None or fn.norm != NS + 'PathMatcherNode::LookupPath' or len(args) != 5:
            return None
        g = st.ghost
        this, cur, end, key, res = (st.norm(a) for a in args)
        if not isinstance(this, Ptr) or this == g['N'] or this.r[0] != 'o' or st.objs[this.r[1]].lazy != ('node',) or res != g['R']:
            return None
        if not (isinstance(cur, Ptr) and isinstance(end, Ptr) and cur.r == end.r == ('v', g['P'].r, 0) and end.o == 32 * self.n and isinstance(cur.o, int)):
            return None
        q = E.getbox(st, key, 'str')[0][1].a
        if st.nseq(q) != st.nseq(g['key']) or not 0 < cur.o // 32 <= self.n:
            return None
        a = f'_o{this.r[1]}.{cur.o // 32}'
        if a in g:      # asked before: the same answer
            if g[a] == 0:
                return ret([st])
            c = st.objs[g[a]].cells
            return ret([u for t in E.store(st, res, 8, c[32][1]) for u in E.store(t, res.at(8), 1, c[40][1])])
        s = st.clone()
        s.nfork += 1
        st.nfork += 1
        st.lineage[-1] = s.lineage[-1] = 1
        g[a] = 0
        e = models.map_elem(E, s, ('map', STRK, '', 16, 32), EMPTY)
        d = s.new_obj(('env', 'method'), kind='env')
        m = s.fresh_elem('b', 3)
        s.objs[e].cells[32] = (8, Ptr(('o', d), 0))
        s.objs[e].cells[40] = (1, m)
        s.ghost[a] = e
        return ret([st]) + ret([u for t in E.store(s, res, 8, Ptr(('o', d), 0)) for u in E.store(t, res.at(8), 1, m)])

    # ---- reference search
    def find(self, E, t, node, off, key):
        """element of a container of a node, or None"""
        r = models.MAP_LOOKUP(E, t.clone(), node.at(off), None, key)
        if len(r) > 1:
            raise NeedSplit(lambda s: [x[0] for x in models.MAP_LOOKUP(E, s, node.at(off), None, key)])
        return r[0][1]

    def entry_of(self, E, t, node):
        e = self.find(E, t, node, self.off[0], t.nseq(t.ghost['key']))
        return self.find(E, t, node, self.off[0], ANY) if e is None else e

    def child(self, E, t, node, key):
        e = self.find(E, t, node, self.off[1], key)
        return None if e is None else t.norm(t.objs[e].cells[32][1])

    def match(self, E, t, node, i):
        a = t.ghost.get(f'_o{node.r[1]}.{i}')
        if a is not None:
            return a or None
        if i == self.n:
            e = self.entry_of(E, t, node)
            if e is None:
                c = self.child(E, t, node, MANY)
                if c is not None:
                    e = self.entry_of(E, t, c)
            return e
        seg = t.nseq(t.nseq(t.ghost['parts'])[i][1])
        keys = [seg]
        wild = t.norm(t.objs[node.r[1]].cells[self.off[2]][1])
        r = t.clone().seq_eq(seg, MANY)
        if len(r) > 1:
            raise NeedSplit(lambda s: [x[0] for x in s.seq_eq(s.nseq(seg), MANY)])
        if r[0][1]:
            keys = []       # no template has a literal segment "**"
        if not wild:
            keys += [ONE, ANY, MANY]
        for k in keys:
            c = self.child(E, t, node, t.nseq(k))
            if c is not None:
                e = self.match(E, t, c, i + 1)
                if e is not None:
                    return e
        return self.match(E, t, node, i + 1) if wild else None

    def looked(self, E, st):
        if self.what == 'C18':
            E.stats['obligations'] += 1
            return []
        for s, e in with_split(st, lambda t: self.match(E, t, t.ghost['N'], 0)):
            E.stats['obligations'] += 1
            r = s.objs[s.ghost['R'].r[1]].cells
            d, m = s.norm(r[0][1]), s.norm(r[8][1])
            x = s.norm(s.objs[e].cells[32][1]) if e is not None else 0
            if self.what == 'C07':
                if (d == 0) != (x == 0):
                    E.violation(s, 'the search finds no entry, specified one' if d == 0 else 'the search finds an entry, specified none')
                continue
            if d == 0 or x == 0:
                continue
            if d != x:
                E.violation(s, f'the search finds {d}, specified {x}')
            elif self.what in ('C10', 'C19'):
                for s2, z in s.val_eq(m, s.norm(s.objs[e].cells[40][1])):
                    if not z:
                        E.violation(s2, 'the search loses the mark of a duplicate')
        return []

    # ---- insertion
    def inserted(self, E, st, got):
        g = st.ghost
        node = g['N']
        new = False
        E.stats['obligations'] += 1

        def entry(s, node, off, key):
            for b in [E.getbox(s, node.at(off), 'map')[0][1]]:
                for k, e in b.b:
                    if s.nseq(k) == s.nseq(key):
                        return e
            return None
        for i in range(self.n):
            seg = st.nseq(st.nseq(g['parts'])[i][1])
            e = entry(st, node, self.off[1], seg)
            if e is None:
                E.violation(st, 'the inserted path is not in the trie')
                return []
            node = st.norm(st.objs[e].cells[32][1])
            if not isinstance(node, Ptr):
                E.violation(st, 'the inserted path is not in the trie')
                return []
            w = st.norm(st.objs[node.r[1]].cells[self.off[2]][1])
            for s, eq in st.clone().seq_eq(seg, MANY):
                if w != int(eq):
                    E.violation(s, f'node for {s.nseq(seg)} is {"" if w else "not "}marked as "**"')
        e = entry(st, node, self.off[0], g['key'])
        if e is None:
            E.violation(st, 'the inserted entry is not in the trie')
            return []
        old = st.ghost.get(f'm{e}')
        c = st.objs[e].cells
        d, m = st.norm(c[32][1]), st.norm(c[40][1])
        for s, z in st.clone().split_eq(got):
            if z != (old is not None):
                E.violation(s, f'insertion returns {int(not z)}, specified {int(old is None)}')
        if old is None:
            if d != g['D']:
                E.violation(st, 'a new entry does not hold the registered data')
            if m != 0:
                E.violation(st, 'a new entry is marked as a duplicate')
            return []
        for s, on in (st.clone().split_eq(m)):
            # (on: not marked)
            if on and self.mark:
                E.violation(s, 'a duplicate is not marked')
        return []


def mdls(P):
    M = dict(MODELS)
    for k, n in (('env_node', 'N'), ('env_parts', 'P'), ('env_key', 'K'), ('env_result', 'R'), ('env_data', 'D')):
        M[k] = (lambda n: lambda c, st: [(st, st.ghost[n])])(n)
    M['env_mark'] = lambda c, st: [(st, int(c.E.plugin.mark))]
    M['verif_node'] = lambda c, st, a, b, w: c.E.plugin.node(c.E, st, st.norm(a), st.norm(b), st.norm(w))
    M['verif_looked'] = lambda c, st: c.E.plugin.looked(c.E, st)
    M['verif_inserted'] = lambda c, st, r: c.E.plugin.inserted(c.E, st, r)
    return M


def cases(R, what):
    """adds the trie cases of a property; without them when the node's interface is not as expected"""
    try:
        prog = Program(build.dump('trie.cc', ['src/path_matcher_node.cc', 'src/http_template.cc'], ['verif_lookup_node', 'verif_insert_node']))
    except build.BuildError as e:
        R.result({'name': 'trie', 'stats': {}, 'functions': [], 'loops': [], 'violations': [], 'unconfirmed': [], 'invariants': 0,
                  'undecided': ['the trie harness does not build: ' + str(e)[:300]], 'seconds': 0})
        return
    deep = (6 if R.tier == 'thorough' else 4) if what in ('C07', 'C08', 'C09') else 3
    for root in (0, 1):
        for n in range(deep + 1):
            P = Trie(what, 'verif_lookup_node', n, root)
            R.case(f'search, {"inner" if not root else "**"} node, {n} segments', prog, P, mdls(P), searches=(0,) if n < 2 else (0, 1))
    if what in ('C07', 'C08', 'C10', 'C19'):
        for n in range(deep + 1):
            P = Trie(what, 'verif_insert_node', n, 0, 1)
            R.case(f'insertion, {n} segments', prog, P, mdls(P), searches=(0,))


def analyse(what):
    return lambda R: cases(R, what)


RULE = ('Abstract interpretation of the trie from the LLVM IR of the current sources: search and insertion in an arbitrary trie '
        '(materialised on demand), for requests of a bounded number of arbitrary segments, against the reference search.')
