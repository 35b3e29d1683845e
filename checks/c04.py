"""C04: the percent decoder against the reference decoder, for every input."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import state as S
import build, specs, runner
from program import Program
from interp import Engine, with_split
from models import MODELS
from plugin import Plugin


class Dec(Plugin):
    def __init__(self, mode, plus):
        self.mode, self.plus = mode, plus

    def initial(self, E):
        st = State()
        src = st.new_obj(('env', 'input'), kind='env')
        tape = sym_seq()
        st.objs[src].cells[0] = (32, Box('str', tape))
        self.src = ('o', src)
        out = st.new_obj(('env', 'output'), kind='env')
        st.objs[out].cells[0] = (32, Box('str', EMPTY))
        self.out = Ptr(('o', out), 0)
        st.ghost['in'] = Ptr(self.src, 0)
        st.ghost['out'] = self.out
        st.ghost['exp'] = st.nseq(term('dec', self.mode, self.plus, tape))
        args = [Ptr(('s', self.src, 0), 0), st.seqlen(tape), self.mode, self.plus, self.out]
        return st, 'verif_unescape', args

    def tapes(self, E, st):
        p = st.ghost['in']
        return [(p, E.getbox(st, p, 'str')[0][1].a)]

    def at_head(self, E, st):
        runner.reset_tape(E, st, st.ghost['in'], lambda s, q: {'exp': s.nseq(term('dec', self.mode, self.plus, q))})

    def at_end(self, E, st):
        def cmp(s):
            got = E.getbox(s, self.out, 'str')[0][1].a
            exp = specs.force_terms(s, s.ghost['exp'])
            return s.nseq(got), s.nseq(exp)
        runner.check_equal(E, st, cmp, 'decoded string differs from the specification')


def analyse(R):
    prog = Program(build.dump('percent.cc', [], ['verif_unescape']))
    for mode, mn in ((0, 'except-reserved'), (1, 'except-slash'), (2, 'all')):
        for plus in (0, 1):
            R.case(f'mode {mn}, plus {"on" if plus else "off"}', prog, Dec(mode, plus), MODELS)


RULE = ('Abstract interpretation of UrlUnescapeString and its callees from the LLVM IR of the current sources, for an '
        'arbitrary input string, one case per decoding mode and plus setting; at every return the output sequence must '
        'equal the reference decoder applied to the input (decoding once, left to right); also no access outside a string.')

if __name__ == '__main__':
    runner.main('C04', analyse, RULE)
