"""C11-C13: the bindings of a successful full lookup, for requests of bounded shape (every path is enumerated, nothing is generalised).

One registration; its template has any text and the variables of the case; the trie answers with it. All texts are arbitrary
within the shape; the bindings are compared with the reference reading."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import runner, tmpl
from lookup import PM, VK, BK, STRK, SL, OTHER, MODELS2, fork, program

ANY = (1 << 256) - 1
PCT = 1 << ord('%')


class Bind(PM):
    def __init__(self, what, path, query, lists=((),)):
        """path, query: masks of the bytes (path: behind the leading slash; None: no path at all); lists: the variable ranges to try"""
        super().__init__(what, 'verif_full1', 1)
        self.path, self.query, self.lists = path, query, lists

    def initial(self, E):
        st, entry, args = super().initial(E)
        st.ghost['_it'] = 0
        for k, q in ((4, [SL] + self.path), (5, self.query)):
            st.objs[st.ghost[f'S{k}'].r[1]].cells[0] = (32, Box('str', Seq(
                ('e', ord(chr(m.bit_length() - 1))) if m & (m - 1) == 0 else ('e', st.fresh_elem('b', m)) for m in q)))
        return st, entry, args

    def at_head(self, E, st):
        st.ghost['_it'] = fresh()

    def bindings(self, E, st):
        o = st.new_obj(('env', 'bindings'), kind='env')
        st.objs[o].cells[0] = (24, Box('vec', EMPTY, 56, BK))
        st.ghost['B'] = Ptr(('o', o), 0)
        st.ghost['_ob'] = 1
        return [(st, st.ghost['B'])]

    def parsed(self, E, st, t):
        out = []
        for s, p in super().parsed(E, st, t):
            if not isinstance(p, Ptr):
                continue
            for l, u in zip(self.lists, fork(s, len(self.lists))):
                vs = Seq(('e', Struct(((0, 4, a), (4, 4, e), (8, 24, Box('vec', Seq(('e', sym_seq()) for _ in range(1 + k % 2)), 32, STRK)))))
                         for k, (a, e) in enumerate(l))
                o = u.wobj(p.r[1])
                o.cells[0] = (24, Box('vec', EMPTY, 32, STRK))
                o.cells[24] = (32, Box('str', EMPTY))
                o.cells[56] = (24, Box('vec', vs, 40, VK))
                u.ghost['vars1'], u.ghost['verb1'], u.ghost['segs1'] = vs, EMPTY, EMPTY
                u.ghost['_vars'] = str(l)
                out.append((u, p))
        return out

    def answer(self, E, st, this, parts, key, result):
        return [s for s in super().answer(E, st, this, parts, key, result) if s.ghost.get('_hit')]

    def result(self, E, st, k, got):
        hit = st.ghost.get('_hit')
        if hit is None:
            return []
        if st.norm(got) != st.ghost['M1']:
            return []           # C14, C16
        for s, b in E.getbox(st.clone(), st.ghost['B'], 'vec', (56, BK)):
            self.values(E, s, b.a, hit)
        return []


def ranges(n):
    """all variable ranges of a request with n segments"""
    return [(a, e) for e in range(n + 1) for a in range(e + 1)] + [(a, -k) for k in range(1, n + 2) for a in range(n - k + 2)]


def join(segs):
    out = []
    for k, s in enumerate(segs):
        out += ([SL] if k else []) + s
    return out


def cases(R, what):
    prog = program()
    deep = R.tier == 'thorough'

    def case(name, *a):
        R.case(name, prog, Bind(what, *a), MODELS2, searches=())
    if what == 'C11':
        for n in range(0, 8 if deep else 6):
            ls = [[r] for r in ranges(n)]
            case(f'{n} segments, one variable', join([[OTHER]] * n), [], ls)
        for n in range(0, 4 if deep else 3):
            case(f'{n} segments, two variables', join([[OTHER]] * n), [], [list(p) for p in itertools.product(ranges(n), repeat=2)])
        case('segments of several lengths, one variable', join([[OTHER] * 2, [], [OTHER]]), [], [[r] for r in ranges(3)])
        case('empty segments in front', join([[], [], [OTHER]]), [], [[r] for r in ranges(3)])
        case('three variables and a query', join([[OTHER]] * 3), [OTHER, 1 << ord('='), OTHER], [[(0, 1), (1, 2), (2, 3)], [(0, 1), (1, -1), (0, -2)], [(2, 3), (0, 2), (3, 3)]])
    if what == 'C12':
        esc = [PCT, OTHER, OTHER]
        plus = [1 << ord('+')]
        case('an escape alone', join([esc]), [], [[r] for r in ranges(1)])
        case('an escape and a plus', join([esc, plus]), [], [[r] for r in ranges(2)])
        case('an escape in the third segment', join([plus, [OTHER], esc]), [], [[r] for r in ranges(3)])
        case('two variables', join([esc, esc[:1] + plus]), [], [[(0, 1), (1, 2)], [(0, 2), (0, 1)], [(0, 1), (0, -1)], [(0, -1), (1, 2)], [(1, -1), (0, -2)]])
    if what == 'C13':
        for n in range(0, 8 if deep else 6):
            case(f'{n} arbitrary bytes', [OTHER], [ANY] * n)
        A, Q, D, P = (1 << ord(c) for c in '&=.+')
        O = OTHER
        M = A | Q | D | O
        case('two items and more', [OTHER], [O, Q, M, A, M, Q, M])
        case('names', [OTHER], [M, M, M, Q, O])
        case('escapes', [OTHER], [O, Q, PCT, OTHER, OTHER])
        case('escapes in names', [OTHER], [PCT, OTHER, OTHER, Q, OTHER | P])
        case('a plus and an escape', [OTHER], [O, Q, PCT, OTHER, OTHER, P, PCT, OTHER, OTHER])
        case('with a variable', [OTHER], [O, Q, M], [[(0, 1)], [(0, -1)], [(1, 1), (0, 1)]])


def analyse(what):
    return lambda R: cases(R, what)


RULE = ('Exhaustive abstract interpretation, without generalisation, of PathMatcherBuilder and PathMatcher from the LLVM IR of the current sources '
        'for requests of bounded shape with arbitrary bytes; parser, trie and percent decoder by their contracts; every binding is compared '
        'with the reference.')
