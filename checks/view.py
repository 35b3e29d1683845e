"""Stream view of a message source (C23, C24): most general client over an arbitrary source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import build, runner
from program import Program
from interp import Violation
from models import MODELS, ret
from plugin import Plugin
from reader import fork, hook, choice

ENTRY = 'verif_view'


class View(Plugin):
    """ghost: M the bytes fetched and still of interest (the current message), pos how many of them were read, _eof the source is finished,
    _none / _asked what the source said in this call, _bk a BackUp was the last call"""

    whole_seqs = True

    def __init__(self, what):
        self.what = what

    def initial(self, E):
        st = State()
        g = st.ghost
        g['M'] = EMPTY
        g['pos'] = 0
        g['_d'] = 1
        g['_eof'] = g['_none'] = g['_asked'] = g['_bk'] = 0
        return st, ENTRY, []

    def search_bound(self, E, st, rand):
        st.ghost['_calls'] = rand.randint(2, 8)

    def search_drop(self, E, st, rand):
        return st.ghost.get('_calls', 1) < 0

    # ---- the client
    def more(self, E, st):
        g = st.ghost
        if '_calls' in g:
            g['_calls'] -= 1
        g['_none'] = g['_asked'] = 0
        return [(st, 1)]

    def count(self, E, st):
        out = []
        for s, (lo, hi) in zip(fork(st, 3), ((-(1 << 31), -1), (0, 0), (1, (1 << 31) - 1))):
            if lo == hi:
                out.append((s, lo))
                continue
            i = fresh()
            s.rng[('i', i)] = (lo, hi)
            out.append((s, atom(('i', i))))
        return out

    # ---- the source
    def undelivered(self, st):
        return ladd(st.seqlen(st.nseq(st.ghost['M'])), st.nlin(st.ghost['pos']), -1)

    def mark(self, sts):
        # _d: everything fetched has been delivered
        out = []
        for st in sts:
            for s, e in st.split_eq(self.undelivered(st)):
                s.ghost['_d'] = int(bool(e))
                if e:
                    s.ghost['pos'] = s.seqlen(s.nseq(s.ghost['M']))
                out.append(s)
        return out

    def none_now(self, st):
        out = []
        st.ghost['_none'] = 1
        for s, e in st.split_eq(self.undelivered(st)):
            if e:
                s.ghost['M'] = EMPTY
                s.ghost['pos'] = 0
            out.append((s, 0))
        return out

    def src_next(self, E, st, m):
        g = st.ghost
        st.nfork += 1
        if g['_eof'] or g['_none']:
            return self.none_now(st)
        b = st.clone()
        out = self.none_now(st)
        for s, e in b.split_eq(self.undelivered(b)):
            q = sym_seq()
            g = s.ghost
            if e:
                g['M'] = EMPTY
                g['pos'] = 0
            g['M'] = s.nseq(s.nseq(g['M']) + q)
            g['_asked'] = 0
            for s1 in self.mark([s]):
                for s2 in E.putbox(s1, m, Box('str', s1.nseq(q))):
                    out.append((s2, 1))
        return out

    def eof(self, st):
        g = st.ghost
        if g['_eof'] or g['_asked']:
            return [(st, g['_eof'])]
        out = []
        for i, s in enumerate(fork(st, 2)):
            s.ghost['_asked'] = 1
            s.ghost['_eof'] = i
            out.append((s, i))
        return out

    def src_finished(self, E, st):
        return self.eof(st)

    # ---- the checks
    def none(self, s):
        return s.ghost['_none'] or s.ghost['_eof']

    def next(self, E, st, r, d, n):
        out = []
        c24 = self.what == 'C24'
        chk = not c24 or st.ghost['_bk']
        for s, pos in st.split_ge(ladd(self.sgn(st, n), -1)):
            E.stats['obligations'] += 3
            r = s.norm(r)
            g = s.ghost
            g['_bk'] = 0
            if not pos:
                for s2, z in s.split_eq(self.sgn(s, n)):
                    if not z:
                        if not c24:
                            E.violation(s2, 'Next delivers a negative number of bytes')
                        continue
                    for s3, e in s2.split_eq(self.undelivered(s2)):
                        if not e:
                            if chk:
                                E.violation(s3, 'Next delivers nothing although there are undelivered bytes')
                            continue
                        if not c24:
                            if not self.none(s3):
                                if r:
                                    E.violation(s3, 'Next delivers nothing without asking the source for more')
                                    continue
                            for s4, eof in self.eof(s3):
                                if bool(r) == bool(eof):
                                    E.violation(s4, 'Next reports the end although the source has not finished' if not r else
                                                'Next does not report the end although the source has finished and everything was delivered')
                                    continue
                                out.append(s4)
                        else:
                            out.append(s3)
                continue
            if not r:
                if chk:
                    E.violation(s, 'Next reports the end although it delivers bytes')
                continue
            for s2, got in E.bytes_at(s, d, n):
                M = s2.nseq(s2.ghost['M'])
                for s3, l0, Q in s2.cut(M, s2.nlin(s2.ghost['pos'])):
                    if l0 is None:
                        raise Unsupported('position behind the message')
                    for s4, l, rest in s3.cut(s3.nseq(Q), s3.seqlen(s3.nseq(got))):
                        if l is None:
                            if chk:
                                E.violation(s4, 'Next delivers bytes that are not there')
                            continue
                        for s5, eq in s4.seq_eq(s4.nseq(got), s4.nseq(l)):
                            if not eq:
                                if chk:
                                    E.violation(s5, f'Next delivers {s5.nseq(got)}, specified {s5.nseq(l)}')
                                continue
                            s5.ghost['pos'] = s5.nlin(ladd(s5.nlin(s5.ghost['pos']), s5.nlin(n)))
                            out.append(s5)
        return ret(self.mark(out))

    def sgn(self, st, n):
        n = st.nlin(n)
        return signed(n & 0xffffffff, 32) if isinstance(n, int) else n

    def backup(self, E, st, n):
        st.ghost['_bk'] = 1
        out = []
        for s, pos in st.split_ge(ladd(self.sgn(st, n), -1)):
            if not pos:
                out.append(s)
                continue
            for s2, ok in s.split_ge(ladd(s.nlin(s.ghost['pos']), s.nlin(n), -1)):
                if ok:
                    s2.ghost['pos'] = s2.nlin(ladd(s2.nlin(s2.ghost['pos']), s2.nlin(n), -1))
                out.append(s2)
        return ret(self.mark(out))

    def available(self, E, st, v):
        c24 = self.what == 'C24'
        chk = not c24 or st.ghost['_bk']
        st.ghost['_bk'] = 0
        out = []
        E.stats['obligations'] += 2
        for s, eq in st.split_eq(ladd(self.undelivered(st), st.nlin(v), -1)):
            if not eq:
                if chk:
                    E.violation(s, f'{s.norm(v)} bytes reported available, there are {s.norm(self.undelivered(s))}')
                continue
            if c24:
                out.append(s)
                continue
            for s2, z in s.split_eq(s.nlin(v)):
                if z and not self.none(s2):
                    E.violation(s2, 'nothing reported available without asking the source for more')
                    continue
                out.append(s2)
        return ret(out)


MODELS2 = dict(MODELS)
for k, v in (('env_more', 'more'), ('env_count', 'count'), ('src_next', 'src_next'), ('src_finished', 'src_finished'),
             ('verif_next', 'next'), ('verif_backup', 'backup'), ('verif_available', 'available')):
    MODELS2[k] = hook(v)
MODELS2['env_choice'] = choice(3)
MODELS2['verif_begin'] = lambda c, st: ret([st])


def analyse(what):
    def f(R):
        prog = Program(build.dump('view.cc', ['src/message_stream.cc'], [ENTRY]))
        R.case('all sources and call sequences', prog, View(what), MODELS2, searches=(0, 1, 2, 3))
    return f


RULE = ('Abstract interpretation of the stream view (message_stream.cc) and its callees from the LLVM IR of the current sources under its '
        'most general client and an arbitrary message source, in lockstep with the read and undelivered bytes of the message sequence.')
