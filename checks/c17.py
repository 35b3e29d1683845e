"""C17: registration of HTTP rules, with an abstract builder and arbitrary rules (accessors of the generated message class by contract)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import build, runner, models
from program import Program
from models import MODELS, ret, getstr
from plugin import Plugin

NS = 'google::grpc::transcoding::'
RULE_ = 'google::api::HttpRule::'
CUSTOM = 'google::api::CustomHttpPattern::'
FIELD = 'google::protobuf::RepeatedPtrField::'
# HttpRule.PatternCase (field numbers of http.proto)
CASES = {2: 'get', 3: 'put', 4: 'post', 5: 'delete_', 6: 'patch', 8: 'custom'}


def text(s):
    return Seq(('e', ord(c)) for c in s)


class Rules(Plugin):
    """tree: nested list of (patterns, children); rules are numbered in pre-order"""

    def __init__(self, entry, tree):
        self.entry, self.rules, self.kids = entry, [], []
        self.add(tree)

    def add(self, t):
        i = len(self.rules)
        self.rules.append(t[0])
        self.kids.append([])
        for c in t[1]:
            self.kids[i].append(self.add(c))
        return i

    def initial(self, E):
        st = State()
        g = st.ghost
        g['_it'] = 0
        for i in range(len(self.rules)):
            g[f'R{i}'] = Ptr(('o', st.new_obj(('env', f'rule{i}'), kind='env')), 0)
        for i in range(len(self.rules)):
            o = st.new_obj(('env', f'bindings{i}'), kind='env')
            for n, k in enumerate(self.kids[i]):
                st.objs[o].cells[8 * n] = (8, g[f'R{k}'])
            g[f'A{i}'] = Ptr(('o', o), 0)
            g[f'C{i}'] = Ptr(('o', st.new_obj(('env', f'custom{i}'), kind='env')), 0)
            for f in ('pattern', 'kind', 'body', 'selector', 'response_body'):
                o = st.new_obj(('env', f'{f}{i}'), kind='env')
                st.objs[o].cells[0] = (32, Box('str', sym_seq()))
                g[f'{f}{i}'] = Ptr(('o', o), 0)
        o = st.new_obj(('env', 'empty'), kind='env')
        st.objs[o].cells[0] = (32, Box('str', EMPTY))
        g['empty'] = Ptr(('o', o), 0)
        g['B'] = Ptr(('o', st.new_obj(('env', 'builder'), kind='env')), 0)
        g['M'] = Ptr(('o', st.new_obj(('env', 'method'), kind='env')), 0)
        o = st.new_obj(('env', 'params'), kind='env')
        st.objs[o].cells[0] = (56, Box('map', fresh(), (), ('map', 'std::string', None, 0, 32)))
        g['P'] = Ptr(('o', o), 0)
        g['_n'] = 0
        return st, self.entry, []

    def at_head(self, E, st):
        st.ghost['_it'] = fresh()

    def which(self, st, p, k):
        p = st.norm(p)
        for i in range(len(self.rules)):
            if st.ghost[f'{k}{i}'] == p:
                return i
        raise Unsupported('a rule that is not part of the registered one')

    def case(self, st, i):
        """[(state, pattern case)]"""
        if f'_c{i}' in st.ghost:
            return [(st, st.ghost[f'_c{i}'])]
        out = []
        for k in self.rules[i]:
            s = st.clone()
            s.nfork += 1
            s.ghost[f'_c{i}'] = k
            out.append((s, k))
        return out

    def pattern_case(self, E, st, this):
        return self.case(st, self.which(st, this, 'R'))

    def field(self, name):
        num = {v: k for k, v in CASES.items()}[name]

        def f(c, st, this):
            i = self.which(st, this, 'R')
            if name == 'custom':
                return [(s, s.ghost[f'C{i}']) for s, k in self.case(st, i)]
            return [(s, s.ghost[f'pattern{i}' if k == num else 'empty']) for s, k in self.case(st, i)]
        return f

    def register(self, E, st, this, method, path, body, names, m):
        g = st.ghost
        out = []
        for s, n in self.expected(st, g['_n']):
            E.stats['obligations'] += 1
            if n is None:
                E.violation(s, 'more registrations than bindings with a pattern')
                continue
            i, k = n
            if s.norm(this) != g['B']:
                E.violation(s, 'registers with another builder')
                continue
            if s.norm(m) != g['M']:
                E.violation(s, 'registers another method')
                continue
            want = {'HTTP method': (method, s.nseq(E.getbox(s, g[f'kind{i}'], 'str')[0][1].a) if k == 8 else text(CASES[k].rstrip('_').upper())),
                    'path': (path, E.getbox(s, g[f'pattern{i}'], 'str')[0][1].a), 'body': (body, E.getbox(s, g[f'body{i}'], 'str')[0][1].a)}
            ok = True
            for what, (got, exp) in want.items():
                for s1, q in getstr(E, s.clone(), got):
                    for s2, eq in s1.seq_eq(s1.nseq(q), s1.nseq(exp)):
                        if not eq:
                            E.violation(s2, f'registers the {what} {s2.nseq(q)}, specified {s2.nseq(exp)}')
                            ok = False
            b = E.getbox(s, s.norm(names), 'map')[0][1]
            x = E.getbox(s, g['P'], 'map')[0][1]
            if self.entry == 'verif_rule_params' and (b.a, b.b) != (x.a, x.b):
                E.violation(s, 'registers other system parameters')
                ok = False
            if self.entry != 'verif_rule_params' and (b.a is not None or any(e is not None for k, e in b.b)):
                E.violation(s, 'registers system parameters that were not given')
                ok = False
            if not ok:
                continue
            a = s.clone()
            a.nfork += 1
            s.nfork += 1
            for t, r in ((s, 1), (a, 0)):
                t.ghost['_n'] = i + 1
                if not r:
                    t.ghost['_bad'] = 1
                out.append((t, r))
        return out

    def expected(self, st, n):
        """[(state, (rule, case) of the first registration due from rule n on or None)]"""
        out = []
        work = [(st, n)]
        while work:
            s, i = work.pop()
            if i >= len(self.rules):
                out.append((s, None))
                continue
            for t, k in self.case(s, i):
                if k:
                    out.append((t, (i, k)))
                else:
                    work.append((t, i + 1))
        return out

    def done(self, E, st, got):
        g = st.ghost
        bad = bool(g.get('_bad'))
        E.stats['obligations'] += 1
        for s, z in st.clone().split_eq(got):
            if z != bad:
                E.violation(s, f'returns {int(not z)} although {"a" if bad else "no"} registration failed')
        if not bad:
            for s, n in self.expected(st.clone(), g['_n']):
                if n is not None:
                    E.violation(s, f'the binding {n[0]} is not registered')
        return []


def hook(name):
    return lambda c, st, *a: getattr(c.E.plugin, name)(c.E, st, *a)


def mdls(P):
    M = dict(MODELS)
    for k, n in (('env_builder', 'B'), ('env_rule', 'R0'), ('env_params', 'P'), ('env_method', 'M')):
        M[k] = (lambda n: lambda c, st: [(st, st.ghost[n])])(n)
    M['verif_rule_done'] = hook('done')
    M[NS + 'PathMatcherBuilder::Register'] = hook('register')
    M[RULE_ + 'pattern_case'] = hook('pattern_case')
    for k, n in CASES.items():
        M[RULE_ + n] = P.field(n)
        M[RULE_ + 'has_' + n.rstrip('_')] = (lambda k: lambda c, st, this: [(s, int(x == k)) for s, x in P.case(st, P.which(st, this, 'R'))])(k)
    for f in ('body', 'selector', 'response_body'):
        M[RULE_ + f] = (lambda f: lambda c, st, this: [(st, st.ghost[f'{f}{P.which(st, this, "R")}'])])(f)
    for f, n in (('kind', 'kind'), ('path', 'pattern')):
        M[CUSTOM + f] = (lambda n: lambda c, st, this: [(s, s.ghost[f'{n}{i}' if k == 8 else 'empty'])
                                                       for i in [P.which(st, this, 'C')] for s, k in P.case(st, i)])(n)

    def bindings(c, st, this, *idx):
        i = P.which(st, this, 'R')
        if not idx:
            return [(st, st.ghost[f'A{i}'])]
        return at(c, st, st.ghost[f'A{i}'], *idx)

    def at(c, st, this, k):
        i = P.which(st, this, 'A')
        k = st.nlin(k)
        if not isinstance(k, int):
            raise Unsupported('index of a binding')
        if not 0 <= k < len(P.kids[i]):
            raise runner.Violation('accesses an additional binding that does not exist')
        return [(st, st.ghost[f'R{P.kids[i][k]}'])]
    M[RULE_ + 'additional_bindings'] = bindings
    M[RULE_ + 'additional_bindings_size'] = lambda c, st, this: [(st, len(P.kids[P.which(st, this, 'R')]))]
    for n in ('size',):
        M[FIELD + n] = lambda c, st, this: [(st, len(P.kids[P.which(st, this, 'A')]))]
    M[FIELD + 'empty'] = lambda c, st, this: [(st, int(not P.kids[P.which(st, this, 'A')]))]
    M[FIELD + 'Get'] = M[FIELD + 'operator[]'] = M[FIELD + 'at'] = at
    for n in ('begin', 'cbegin'):
        M[FIELD + n] = lambda c, st, this: [(st, st.norm(this))]
    for n in ('end', 'cend'):
        M[FIELD + n] = lambda c, st, this: [(st, st.norm(this).at(8 * len(P.kids[P.which(st, this, 'A')])))]
    return M


ALL = (0, 2, 3, 4, 5, 6, 8)
TREES = {'one rule': (ALL, []),
         'one additional binding': (ALL, [(ALL, [])]),
         'three additional bindings': ((0, 4, 8), [((0, 2, 5), []), ((0, 3, 8), []), ((0, 6), [])]),
         'nested bindings': ((0, 3), [((0, 5), [((0, 8), [((0, 4), [])])]), ((0, 2), [((0, 6), [])])])}


def analyse(R):
    prog = Program(build.dump('rule.cc', [], ['verif_rule_params', 'verif_rule_plain']))
    for entry, nm in (('verif_rule_params', 'with system parameters'), ('verif_rule_plain', 'without')):
        for n, t in TREES.items():
            P = Rules(entry, t)
            R.case(f'{n}, {nm}', prog, P, mdls(P), searches=())


RULE = ('Abstract interpretation of RegisterByHttpRule from the LLVM IR of the current sources for rules of bounded shape with arbitrary texts and '
        'patterns; every call of Register is compared with the registration due next.')

if __name__ == '__main__':
    runner.main('C17', analyse, RULE)
