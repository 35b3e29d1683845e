"""gRPC message reader (C20-C22): most general client over an environment-controlled stream."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import build, runner
from program import Program
from interp import Violation
from models import MODELS, ret
from plugin import Plugin

ENTRY = 'verif_reader'


def fork(st, n):
    """n copies of a state (the last one is st itself)"""
    st.nfork += 1
    return [st.clone() for _ in range(n - 1)] + [st]


class Reader(Plugin):
    """ghost: _q machine state (H header wanted, B body wanted, F finished, E error), A bytes available now,
    _eof nothing more will arrive, hdr / n header bytes and size of the current frame"""

    def __init__(self, what):
        self.what = what

    def search_bound(self, E, st, rand):
        st.ghost['_calls'] = rand.randint(1, 5)
        self.rand = rand

    def search_drop(self, E, st, rand):
        return st.ghost.get('_calls', 1) < 0

    def initial(self, E):
        st = State()
        g = st.ghost
        g['_q'] = 'H'
        g['_eof'] = 0
        g['_in'] = 0
        g['A'] = EMPTY
        g['n'] = 0
        return st, ENTRY, []

    def tapes(self, E, st):
        return []

    # ---- the environment
    def more(self, E, st):
        g = st.ghost
        if '_calls' in g:
            g['_calls'] -= 1
        g.pop('last', None)
        if g['_q'] != 'B':
            g.pop('hdr', None)
            g['n'] = 0
        g['_in'] = 0
        if g['_eof']:
            if g['_q'] in 'EF':
                g['A'] = sym_seq()
            return [(st, 1)]
        # what was there and not enough may have been nothing at all: anything can be there now
        if g['_q'] == 'B':
            st.add_fact(ladd(g['n'], -1))
        g['A'] = sym_seq()
        return [(st, 1)]

    def eof(self, st):
        """[(state, will nothing more arrive)]: decided when first asked for in a call"""
        g = st.ghost
        if g['_eof'] or g.get('_asked'):
            return [(st, g['_eof'])]
        out = []
        for i, s in enumerate(fork(st, 2)):
            s.ghost['_asked'] = 1
            s.ghost['_eof'] = i
            out.append((s, i))
        return out

    def begin(self, E, st):
        g = st.ghost
        g['_in'] = 1 if g['_q'] in 'HB' else 2
        g['_took'] = 0
        g['_cut'] = 0
        g['X'] = st.nseq(g['A'])
        if g['_q'] != 'H':
            return ret([st])
        out = []
        for s, l, r in st.cut(g['X'], 5):
            if l is not None:
                g = s.ghost
                g['hdr'], g['X'] = s.nseq(l), s.nseq(r)
                if len([x for x in g['hdr'] if x[0] == 'e']) != 5:
                    raise Unsupported('header')
                if '_calls' in g:
                    # random search: a concrete header
                    rnd = self.rand
                    for x in s.nseq(l):
                        v = rnd.choice((0, 0, 0, 1, 2, 5, 127, 128, 133, 255)) if rnd.random() < 0.9 else rnd.randrange(256)
                        for s, e in s.split_eq(ladd(s.nlin(x[1]), -v)):
                            if e:
                                break
                    g = s.ghost
                    g['hdr'], g['X'] = s.nseq(g['hdr']), s.nseq(g['X'])
                g['_cut'] = 1
                g.pop('A')
            out.append(s)
        return ret(out)

    def avail(self, st):
        """what is available: the unread part of the header and what is behind it"""
        g = st.ghost
        if g.get('_cut'):
            return st.nseq(Seq(g['hdr'][g['_took']:]) + g['X'])
        return st.nseq(g['A'])

    def set_avail(self, st, q, took, over=EMPTY):
        """q is what is now available; over: the part of the specified rest that has been taken (with the header)"""
        g = st.ghost
        g['_took'] = took
        if g.get('_cut'):
            X = st.nseq(Seq(g.get('over', EMPTY)) + g['X'])
            if over or q == st.nseq(Seq(g['hdr'][took:]) + X):
                g['over'] = over
                g['X'] = q if over else X
                return
            g['X'] = X
            g['over'] = EMPTY
        g['_cut'] = 0
        g['A'] = q

    def left(self, st):
        """what must be left of the stream after the call"""
        g = st.ghost
        return st.nseq(Seq(g.get('over', EMPTY)) + g['X'])

    def touch(self, st):
        g = st.ghost
        if self.what == 'C21' and g['_in'] == 2:
            raise Violation('the input stream is touched after the reader has finished')

    def available(self, E, st):
        self.touch(st)
        return [(st, st.seqlen(self.avail(st)))]

    def finished(self, E, st):
        self.touch(st)
        return self.eof(st)

    def chunks(self, st):
        """[(state, chunk, rest)]: every way to hand out a first part of what is available"""
        A = self.avail(st)
        out = [(st.clone(), EMPTY, A, EMPTY)]
        cur = [st]
        took = st.ghost.get('_took', 0)
        need = max(0, 5 - took)
        if st.ghost.get('_cut') and need:
            # the header is known to be there
            h = st.ghost['hdr']
            X = st.nseq(st.ghost['X'])
            for k in range(1, need + 1):
                out.append((st.clone(), st.nseq(Seq(h[took:took + k])), st.nseq(Seq(h[took + k:]) + X), EMPTY))
            for s, e in st.split_eq(st.seqlen(X)):
                if e:
                    continue
                x = atom(('i', fresh()))
                s.rng[x.t[0][0]] = (1, LENMAX - 5)
                X2 = s.nseq(X)
                try:
                    s.add_fact(ladd(s.seqlen(X2), x, -1))
                    for s2, l, r in s.cut(X2, x):
                        if l is not None:
                            out.append((s2, s2.nseq(Seq(h[took:]) + l), s2.nseq(r), s2.nseq(l)))
                except Infeasible:
                    pass
            return out
        for k in range(1, need + 1):
            nx = []
            for s in cur:
                for s2, l, r in s.cut(s.nseq(A), k):
                    if l is None:
                        continue
                    if k < need:
                        out.append((s2.clone(), s2.nseq(l), s2.nseq(r), EMPTY))
                    nx.append(s2)
            cur = nx
        for s in cur:
            i = fresh()
            x = atom(('i', i))
            A2 = s.nseq(A)
            s.rng[('i', i)] = (max(need, 1), LENMAX)
            try:
                s.add_fact(ladd(s.seqlen(A2), x, -1))
                for s2, l, r in s.cut(A2, x):
                    if l is not None:
                        out.append((s2, s2.nseq(l), s2.nseq(r), EMPTY))
            except Infeasible:
                pass
        return out

    def next(self, E, st, data, size):
        self.touch(st)
        st.nfork += 1
        g = st.ghost
        out = []
        for s, c, r, over in self.chunks(st):
            g = s.ghost
            if not c and not r:
                for s2, e in self.eof(s):
                    for s3 in E.store(s2, size, 4, 0):
                        s3.ghost['last'] = EMPTY
                        out.append((s3, 1 - e))
                continue
            g['last'] = c
            n = s.seqlen(c)
            k = n if isinstance(n, int) else 6
            g['_k'] = k if isinstance(n, int) else -1
            self.set_avail(s, r, min(g.get('_took', 0) + k, 6), over)
            o = s.new_obj(('env', 'chunk'), kind='env')
            s.objs[o].cells[0] = (32, Box('str', c))
            for s2 in E.store(s, data, 8, Ptr(('s', ('o', o), 0), 0)):
                for s3 in E.store(s2, size, 4, n):
                    out.append((s3, 1))
        return out

    def backup(self, E, st, n):
        self.touch(st)
        g = st.ghost
        c = g.get('last')
        if c is None:
            raise Violation('BackUp without a preceding Next')
        c = st.nseq(c)
        out = []
        over = g.get('over', EMPTY)
        if g.get('_cut') and over:
            # the surplus of the header chunk goes back as a whole
            rest = []
            for s, e in st.split_eq(ladd(st.seqlen(st.nseq(over)), self.sgn(st, n), -1)):
                if not e:
                    rest.append(s)
                    continue
                g = s.ghost
                g['X'] = s.nseq(Seq(g['over']) + g['X'])
                g['over'] = EMPTY
                g['_took'] = 5
                g.pop('last')
                g.pop('_k', None)
                out.append(s)
            return ret(out + [r for s in rest for r, _ in self.backup2(E, s, n, s.ghost["last"])])
        return self.backup2(E, st, n, c)

    def backup2(self, E, st, n, c):
        c = st.nseq(c)
        out = []
        for s, neg in st.split_ge(ladd(-1, self.sgn(st, n), -1)):
            if neg:
                E.violation(s, 'BackUp by a negative count')
                continue
            for s2, l, r in s.cut(s.nseq(c), ladd(s.seqlen(s.nseq(c)), n, -1)):
                if l is None:
                    E.violation(s2, 'BackUp by more than the last chunk')
                    continue
                g = s2.ghost
                q = s2.nseq(s2.nseq(r) + self.avail(s2))
                g.pop('last')
                g.pop('_k', None)
                n = s2.seqlen(r)
                t = g['_took'] - n if isinstance(n, int) and g['_took'] <= 5 else 5
                self.set_avail(s2, q, max(t, 0))
                out.append(s2)
        return ret(out)

    def sgn(self, st, n):
        n = st.nlin(n)
        return signed(n & 0xffffffff, 32) if isinstance(n, int) else n

    # ---- the specification
    def expect(self, st):
        """[(state, message expected)]; moves the machine; ghost X = what must be left of the stream"""
        g = st.ghost
        q = g['_q']
        if q in 'EF':
            return [(st, 0)]
        if q == 'B':
            return self.body(st)
        out = []
        if 'hdr' not in g:
            for s, eof in self.eof(st):
                if not eof:
                    out.append((s, 0))
                    continue
                for s2, e in s.split_eq(s.seqlen(s.nseq(s.ghost['X']))):
                    s2.ghost['_q'] = 'F' if e else 'E'
                    out.append((s2, 0))
            return out
        h = [x[1] for x in st.nseq(g['hdr'])]
        for s, z in st.split_eq(h[0]):
            if not z:
                s.ghost['_q'] = 'E'
                out.append((s, 0))
                continue
            s.ghost['_q'] = 'B'
            n = 0
            for b in h[1:]:
                n = ladd(lmul(n, 256), s.nlin(b))
            s.ghost['n'] = s.nlin(n)
            out.extend(self.body(s))
        return out

    def body(self, st):
        out = []
        g = st.ghost
        for s, ge in st.split_ge(ladd(st.seqlen(self.left(st)), g['n'], -1)):
            if ge:
                s.ghost['_q'] = 'H'
                out.append((s, 1))
                continue
            for s2, eof in self.eof(s):
                if eof:
                    s2.ghost['_q'] = 'E'
                out.append((s2, 0))
        return out

    def message(self, E, st, p, frame=None, size=None):
        out = []
        for s, want in self.expect(st):
            g = s.ghost
            q = s.norm(p)
            got = not (isinstance(q, int) and q == 0)
            E.stats['obligations'] += 2
            end = g['_q'] in 'EF'
            if got != bool(want) and (self.what == 'C20' or (self.what == 'C21' and end)):
                E.violation(s, 'a message is handed out although ' + ('the reader is finished' if end else 'no complete frame is available')
                            if got else 'a completely available message is not handed out')
                continue
            if self.what == 'C22':
                bad = False
                for s2, eq in s.clone().seq_eq(self.avail(s), self.left(s)):
                    if not eq:
                        bad = True
                        E.violation(s2, f'left of the stream: {self.avail(s2)}, specified {self.left(s2)}')
                if bad:
                    continue
            if got and want:
                if self.what == 'C20' and not self.limited(E, s, q):
                    continue
                if frame is not None and self.what == 'C22' and not self.header(E, s, frame, size):
                    continue
            if got != bool(want):
                if self.what == 'C22':
                    continue
            # the consumer reads the message
            if got:
                for s2, l, r in s.cut(self.avail(s), g['n'] if want else 0):
                    if l is not None:
                        s2.ghost['A'] = s2.nseq(r)
                        out.append(s2)
            else:
                g['A'] = self.avail(s)
                out.append(s)
        for s in out:
            for k in ('X', 'over', 'last', '_took', '_cut', '_k', '_asked') + (() if s.ghost['_q'] == 'B' else ('hdr',)):
                s.ghost.pop(k, None)
        return ret(out)

    def limited(self, E, s, q):
        g = s.ghost
        ok = True
        for s2, i in E.load(s.clone(), q.at(8), 8, 'p'):
            if not self.is_in(s2, s2.norm(i)):
                E.violation(s2, 'the message is not read from the input stream')
                ok = False
            for s3, lim in E.load(s2, q.at(16), 8, 'i64'):
                E.stats['obligations'] += 1
                for s4, eq in s3.split_eq(ladd(s3.nlin(lim), g['n'], -1)):
                    if not eq:
                        ok = False
                        E.violation(s4, f'the message stream is limited to {s4.norm(lim)} bytes, the frame says {s4.norm(g["n"])}')
        return ok

    def is_in(self, s, i):
        return isinstance(i, Ptr) and i == s.ghost['in']

    def header(self, E, s, frame, size):
        g = s.ghost
        ok = True
        hdr = g.get('hdr')
        if hdr is None:
            raise Unsupported('header of an earlier call')
        for s2, got in E.bytes_at(s.clone(), frame, 5):
            E.stats['obligations'] += 2
            for s3, eq in s2.clone().seq_eq(got, s2.nseq(hdr)):
                if not eq:
                    ok = False
                    E.violation(s3, f'reported frame header {s3.nseq(got)}, the message has {s3.nseq(hdr)}')
            for s3, eq in s2.split_eq(ladd(s2.nlin(size), g['n'], -1)):
                if not eq:
                    ok = False
                    E.violation(s3, f'reported message size {s3.norm(size)}, the frame says {s3.norm(g["n"])}')
        return ok

    def is_finished(self, E, st, v):
        if self.what == 'C21':
            E.stats['obligations'] += 1
            want = st.ghost['_q'] in 'EF'
            if bool(st.norm(v)) != want:
                E.violation(st, 'reported finished although more input can arrive' if not want else 'not finished after the end of the stream or an error')
                return []
        return ret([st])

    def status(self, E, st, v):
        if self.what == 'C21':
            E.stats['obligations'] += 1
            want = st.ghost['_q'] != 'E'
            if bool(st.norm(v)) != want:
                E.violation(st, 'error status without a framing error' if want else 'no error status after a framing error')
                return []
        return ret([st])


def limiting(c, st, this, i, lim):
    E = c.E
    out = []
    for s in E.store(st, this, 8, 0):
        for s2 in E.store(s, this.at(8), 8, i):
            out.extend(E.store(s2, this.at(16), 8, lim))
    return ret(out)


def hook(name, n=None):
    def f(c, st, *a):
        return getattr(c.E.plugin, name)(c.E, st, *a)
    return f


MODELS2 = dict(MODELS)
for k, v in (('env_more', 'more'), ('verif_begin', 'begin'), ('env_available', 'available'), ('env_finished', 'finished'),
             ('env_next', 'next'), ('env_backup', 'backup'), ('verif_finished', 'is_finished'), ('verif_status', 'status')):
    MODELS2[k] = hook(v)
MODELS2['verif_message'] = lambda c, st, p: c.E.plugin.message(c.E, st, p)
MODELS2['verif_frame'] = lambda c, st, p, f, n: c.E.plugin.message(c.E, st, p, f, n)
MODELS2['google::protobuf::io::LimitingInputStream::LimitingInputStream'] = limiting


def choice(n):
    def f(c, st):
        ss = fork(st, n)
        return [(s, i) for i, s in enumerate(ss)]
    return f




def set_in(c, st, p):
    st.ghost['in'] = p
    return ret([st])


MODELS2['verif_in'] = set_in
MODELS2['env_choice'] = choice(2)


def analyse(what):
    def f(R):
        prog = Program(build.dump('reader.cc', ['src/message_reader.cc'], [ENTRY]))
        R.case('all streams and call sequences', prog, Reader(what), MODELS2, searches=(0, 1, 2, 3))
    return f


RULE = ('Abstract interpretation of MessageReader and its callees from the LLVM IR of the current sources under its most general '
        'client and a stream that hands out arbitrary bytes in arbitrary chunks at arbitrary times, in lockstep with a framing automaton.')
