"""Template parser (C01-C03): reference grammar machine and plugin."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from values import *
from state import *
import state as S
import build, specs, runner
from program import Program
from interp import Engine, with_split, NeedSplit
from models import MODELS
from plugin import Plugin

VK = 'google::grpc::transcoding::HttpTemplate::Variable'
STAR, DSTAR = const_str('*'), const_str('**')


def chset(s):
    return mask_chars(s)


class Stuck(Exception):
    pass


def decide_ch(st, v, s, force):
    d = specs.decide(st, v, mask_chars(s), force)
    if d is None:
        raise Stuck()
    return d


# ---- the machine: (mode, inv), segs, vars, verb, cur, rest
def var(start, end, fp, wild):
    return Struct(((0, 4, start), (4, 4, end), (8, 24, Box('vec', fp, 32, 'std::string')), (32, 1, wild)))


class M:
    """grammar machine; variables under construction are the last element of vars"""
    KEYS = ('segs', 'vars', 'verb', 'cur', 'rest')

    def __init__(self, st):
        g = st.ghost
        self.st = st
        self.mode, self.inv = g['_q']
        self.segs, self.vars, self.verb, self.cur, self.rest = (st.nseq(g[k]) for k in self.KEYS)

    def save(self):
        g = self.st.ghost
        g['_q'] = (self.mode, self.inv)
        for k in self.KEYS:
            g[k] = getattr(self, k)

    def push(self, q):
        self.segs = self.segs + elem(q)
        if q == DSTAR and self.inv:
            self.upd(lambda s, e, f, w: (s, e, f, 1))

    def upd(self, f):
        v = self.vars[-1][1]
        s, e, fp, w = v.get(0), v.get(4), v.get(8).a, v.get(32)
        self.vars = Seq(self.vars[:-1]) + elem(var(*f(s, e, fp, w)))

    def ident(self):
        c = self.cur
        self.upd(lambda s, e, f, w: (s, e, f + elem(c), w))
        self.cur = EMPTY

    def close(self):
        n = self.st.seqlen(self.segs)
        self.upd(lambda s, e, f, w: (s, n, f, w))
        self.inv = 0
        self.mode = 'A'

    def after(self, is_):
        """after a complete segment"""
        if is_('/'):
            self.mode = 'S'
        elif is_(':'):
            self.mode = 'X' if self.inv else 'V'
        elif is_('}'):
            if self.inv:
                self.close()
            else:
                self.mode = 'X'
        else:
            self.mode = 'X'

    def step(self, v, force):
        st = self.st
        def is_(c):
            return decide_ch(st, v, c, force)
        m = self.mode
        if m == 'T':
            self.mode = '0' if is_('/') else 'X'
        elif m in '0S':
            if is_('*'):
                self.mode = '1'
            elif is_('{'):
                if self.inv:
                    self.mode = 'X'
                else:
                    self.inv = 1
                    self.vars = self.vars + elem(var(st.seqlen(self.segs), 0, EMPTY, 0))
                    self.mode = 'F'
            elif is_('/:}'):
                self.mode = 'X'
            else:
                self.mode = 'L'
                self.cur = elem(v)
        elif m == '1':
            if is_('*'):
                self.push(DSTAR)
                self.mode = 'A'
            else:
                e = is_('/:}')
                self.push(STAR)
                self.after(is_)
        elif m == 'L':
            if is_('/:}'):
                is_('/'), is_(':')
                self.push(self.cur)
                self.cur = EMPTY
                self.after(is_)
            else:
                self.cur = self.cur + elem(v)
        elif m == 'A':
            self.after(is_)
        elif m == 'F':
            if is_('.}='):
                self.mode = 'X'
            else:
                self.mode = 'I'
                self.cur = elem(v)
        elif m == 'I':
            if is_('.}='):
                if is_('.'):
                    self.mode = 'F'
                    self.ident()
                elif is_('}'):
                    self.ident()
                    self.push(STAR)
                    self.close()
                else:
                    self.ident()
                    self.mode = 'S'
            else:
                self.cur = self.cur + elem(v)
        elif m in 'VW':
            if is_('/:}'):
                self.mode = 'X'
            else:
                self.mode = 'W'
                self.verb = self.verb + elem(v)

    def run(self, force):
        """consume what is known of the rest; with force ask for the unknown"""
        try:
            while self.rest and self.mode != 'X':
                it = self.rest[0]
                if it[0] != 'e':
                    if force:
                        raise NeedSplit(lambda s: s.expand(it))
                    break
                self.step(it[1], force)
                self.rest = Seq(self.rest[1:])
        except Stuck:
            pass

    def at_eof(self):
        """accepted at the end of the input? also completes the last token"""
        if self.mode == '0':
            return True
        if self.mode == '1':
            self.push(STAR)
            self.mode = 'A'
        elif self.mode == 'L':
            self.push(self.cur)
            self.cur = EMPTY
            self.mode = 'A'
        return self.mode in 'AW' and not self.inv


def strsplit_eq(st, q, c, force):
    """is string q equal to the constant c: True/False; None when unknown"""
    if q == c:
        return True
    if st.def_diff(q, c):
        return False
    try:
        rs = {bool(r[1]) for r in st.clone().seq_eq(q, c)}
    except Infeasible:
        return False
    if len(rs) == 1:
        return rs.pop()
    if force:
        raise NeedSplit(lambda s: [r[0] for r in s.seq_eq(q, c)])
    return None


def read_all(st, q, key, total):
    """has the code looked at the first element of what is left of a list? (the clauses over whole
    lists are unfolded in step with the code)"""
    n = st.ghost.get(key)
    if n is None:
        return False
    return st.prove_ge(ladd(ladd(n, ladd(total, st.seqlen(Seq(q)), -1), -1), -1))


def simp_okseg(st, it, force=False, go=None):
    """okseg(found, segs): empty if no wildcard follows a '**', else "X" """
    found, q = it[2]
    if not force and not go:
        return None if q else EMPTY
    q0 = q
    q = list(q)
    if force and found and any(x[0] == 'e' and x[1] in (STAR, DSTAR) for x in q):
        return const_str('X')
    while q:
        x = q[0]
        if x[0] != 'e':
            if force:
                raise NeedSplit(lambda s: s.expand(x))
            break
        if not force and not go(q):
            break
        d = strsplit_eq(st, x[1], DSTAR, force)
        if d is None:
            break
        if found:
            if d:
                return const_str('X')
            d = strsplit_eq(st, x[1], STAR, force)
            if d is None:
                break
            if d:
                return const_str('X')
        elif d:
            found = 1
        q.pop(0)
    if not q:
        return EMPTY
    if len(q) == len(q0):
        return None
    return Seq((('t', 'okseg', (found, Seq(q))),))


class ENG:
    E = None

    @classmethod
    def to_unsigned32(cls, st, x):
        """the value stored for x by the code in a 32 bit field; None if a case split is needed"""
        x = st.nlin(x)
        if isinstance(x, int):
            return x & 0xffffffff
        if cls.E.rng_ok(st, x, -(1 << 31), (1 << 31) - 1):
            return x
        neg = st.prove_ge(ladd(-1, x, -1))
        if not neg and not st.prove_ge(x):
            return None
        r = cls.E.to_unsigned(st, x, 32)
        return r[0][1] if len(r) == 1 else None


def simp_post(st, it, force=False, go=None):
    """post(n, vars): ends of variables with a '**' become relative to the end"""
    n, q = it[2]
    if not force and not go:
        return None if q else EMPTY
    out = EMPTY
    q = list(q)
    while q:
        x = q[0]
        if x[0] != 'e':
            if force:
                raise NeedSplit(lambda s: s.expand(x))
            break
        if not force and not go(q):
            break
        v = x[1]
        w = st.nlin(v.get(32))
        if not isinstance(w, int):
            if force:
                raise NeedSplit(lambda s: [r[0] for r in s.split_eq(w)])
            break
        e = st.nlin(v.get(4))
        if w:
            r = ENG.to_unsigned32(st, ladd(ladd(e, n, -1), -1))
            if r is None:
                if force:
                    raise NeedSplit(lambda s: [x[0] for x in s.split_ge(ladd(ladd(e, n, -1), -1))])
                break
            e = r
        out = out + elem(var(v.get(0), e, v.get(8).a, w))
        q.pop(0)
    if not q:
        return out
    if not out:
        return None
    return out + Seq((('t', 'post', (n, Seq(q))),))


for nm, f in (('okseg', simp_okseg), ('post', simp_post)):
    S.TERM_SIMPLIFY[nm] = f
    S.SPEC_TERMS.add(nm)
    specs.FORCE[nm] = f
S.TERM_KIND['okseg'] = lambda it: 'b'
S.TERM_KIND['post'] = lambda it: VK


def int32(st):
    a = ('i', fresh())
    st.rng[a] = (-(1 << 31), (1 << 31) - 1)
    return atom(a)


def make_var(st):
    return var(int32(st), int32(st), st.fresh_seq('s'), st.fresh_elem('b', 3))


S.ELEM_MAKERS[VK] = make_var


def sentence(rand):
    """character classes of a random sentence shape (an input class for one round of the search)"""
    no = lambda s: FULL & ~mask_chars(s)
    ch = mask_chars
    out = []

    def word(first, rest):
        out.append(no(first))
        while rand.random() < 0.3:
            out.append(no(rest))

    def seg():
        r = rand.random()
        if r < 0.25:
            out.append(ch('*'))
        elif r < 0.5:
            out.extend((ch('*'), ch('*')))
        else:
            word('/:}{*', '/:}')

    def segs(p, top):
        while True:
            if top and rand.random() < 0.45:
                out.append(ch('{'))
                word('.}=', '.}=')
                while rand.random() < 0.25:
                    out.append(ch('.'))
                    word('.}=', '.}=')
                if rand.random() < 0.6:
                    out.append(ch('='))
                    segs(0.4, False)
                out.append(ch('}'))
            else:
                seg()
            if rand.random() > p:
                return
            out.append(ch('/'))
    out.append(ch('/'))
    segs(0.6, True)
    if rand.random() < 0.3:
        out.append(ch(':'))
        word('/:}', '/:}')
    if rand.random() < 0.2:
        # not a sentence: one character class changed, dropped or added
        i = rand.randrange(len(out))
        r = rand.random()
        if r < 0.4:
            out[i] = FULL
        elif r < 0.7:
            del out[i]
        else:
            out.insert(i, FULL)
    return out


class Tmpl(Plugin):
    def __init__(self, what):
        self.what = what

    def initial(self, E):
        ENG.E = E
        st = State()
        src = st.new_obj(('env', 'input'), kind='env')
        tape = const_str(os.environ['VERIF_TAPE']) if 'VERIF_TAPE' in os.environ else sym_seq()
        st.objs[src].cells[0] = (32, Box('str', tape))
        g = st.ghost
        g['in'] = Ptr(('o', src), 0)
        g['_q'] = ('T', 0)
        g['segs'] = g['vars'] = g['verb'] = g['cur'] = EMPTY
        g['rest'] = tape
        return st, 'verif_parse', [Ptr(('o', src), 0)]

    watch_elem = True

    def on_elem(self, E, st, b, left):
        """the code looks at a parsed element"""
        if st.ghost['_q'] == ('end', 1):
            st.ghost['segread' if b.b == 32 else 'varread'] = st.nlin(ladd(st.seqlen(left), 1))

    def unfold(self, st):
        g = st.ghost
        for key, src, rd, f in (('_xok', 'nsegs', 'segread', simp_okseg), ('xvars', 'nvars', 'varread', simp_post)):
            if key not in g:
                continue
            q = st.nseq(g[key])
            total = st.nlin(g[src])
            if q and q[-1][0] == 't' and q[-1][1] in ('okseg', 'post'):
                r = f(st, q[-1], False, lambda rest: read_all(st, rest, rd, total))
                if r is not None:
                    g[key] = Seq(q[:-1]) + r

    def struct_kind(self, v):
        return VK

    def search_bound(self, E, st, rand):
        t = st.ghost['rest']
        if t and t[0][0] == 's':
            if rand.random() < 0.7:
                q = Seq(('e', st.fresh_elem('b', m)) for m in sentence(rand))
                st.bind_seq(t[0], q)
                return
            n = rand.randint(3, 18)
            st.rng[('L', t[0])] = (n if rand.random() < 0.7 else 0, n)

    def search_drop(self, E, st, rand):
        q = st.ghost['_q']
        return (q == ('end', 0) or q[0] == 'X') and rand.random() < 0.97

    def tapes(self, E, st):
        p = st.ghost['in']
        return [(p, E.getbox(st, p, 'str')[0][1].a)]

    def finish(self, st, m):
        """input completely consumed: what must come out"""
        ok = m.mode != 'X' and not m.rest and m.at_eof()
        g = st.ghost
        for k in M.KEYS:
            g.pop(k)
        g['_q'] = ('end', int(bool(ok)))
        if ok:
            n = st.seqlen(m.segs)
            g['_xok'] = st.nseq(term('okseg', 0, m.segs))
            g['nsegs'] = n
            if self.what == 'C02':
                g['xsegs'] = m.segs
            if self.what == 'C02':
                g['xverb'] = m.verb
            if self.what == 'C03':
                g['nvars'] = st.seqlen(m.vars)
                g['xvars'] = st.nseq(term('post', n, m.vars))

    def at_head(self, E, st):
        if st.ghost['_q'][0] == 'end':
            self.unfold(st)
            return
        m = M(st)
        m.run(False)
        if m.mode == 'X' or not m.rest:
            self.finish(st, m)
        else:
            m.save()

    def on_done(self, E, st, p):
        def spec(s):
            if s.ghost['_q'][0] != 'end':
                m = M(s)
                m.run(True)
                self.finish(s, m)
            if not s.ghost['_q'][1]:
                return False
            return not specs.force_terms(s, s.ghost['_xok'])
        for s, ok in with_split(st, spec):
            q = s.norm(p)
            E.stats['obligations'] += 1
            if self.what == 'C01':
                if ok and q == 0:
                    E.violation(s, 'a template of the documented grammar is rejected')
                elif not ok and q != 0:
                    E.violation(s, 'a string outside the documented grammar is accepted')
                continue
            if not ok or q == 0:
                continue
            self.compare(E, s, q)

    def compare(self, E, st, q):
        def eqseq(s, got, exp, msg):
            def cmp(s2):
                return s2.nseq(got), specs.force_terms(s2, exp)
            runner.check_equal(E, s, cmp, msg)
        g = st.ghost
        if self.what == 'C02':
            for s, b in E.getbox(st, q, 'vec', (32, 'std::string')):
                eqseq(s, b.a, g['xsegs'], 'segments')
                for s2, b2 in E.getbox(s, q.at(24), 'str'):
                    eqseq(s2, b2.a, g['xverb'], 'verb')
        else:
            for s, b in E.getbox(st, q.at(56), 'vec', (40, 'HttpTemplate::Variable')):
                for s2, x in with_split(s, lambda t: specs.force_terms(t, t.ghost['xvars'])):
                    self.cmpvars(E, s2, s2.nseq(b.a), x)

    def cmpvars(self, E, st, got, exp):
        got, exp = list(got), list(exp)
        while got and exp:
            a, b = got.pop(0), exp.pop(0)
            if a == b:
                continue
            if a[0] != 'e' or b[0] != 'e':
                raise Unsupported('variables')
            for o, what in ((0, 'range start'), (4, 'range end')):
                E.stats['obligations'] += 1
                for s2, eq in st.clone().split_eq(ladd(signed32(st, a[1].get(o)), b[1].get(o), -1)):
                    if not eq:
                        E.violation(s2, f'{what} of a variable: got {a[1].get(o)} specified {b[1].get(o)}')
            E.stats['obligations'] += 1
            for s2, eq in st.clone().seq_eq(a[1].get(8).a, b[1].get(8).a):
                if not eq:
                    E.violation(s2, f'field path of a variable: got {a[1].get(8).a} specified {b[1].get(8).a}')
        if got or exp:
            E.violation(st, f'variables: left over {Seq(got)} / specified {Seq(exp)}')

    def external(self, E, st, name, args):
        if name == 'verif_done':
            self.on_done(E, st, args[0])
            return True


def signed32(st, v):
    v = st.nlin(v)
    if isinstance(v, int):
        return signed(v & 0xffffffff, 32)
    return v


ENTRY = 'verif_parse'


def verif_done(c, st, p):
    c.E.plugin.on_done(c.E, st, p)
    return []


MODELS2 = dict(MODELS)
MODELS2['verif_done'] = verif_done


def analyse(what):
    def f(R):
        prog = Program(build.dump('parse.cc', ['src/http_template.cc'], [ENTRY]))
        R.case('all strings', prog, Tmpl(what), MODELS2, searches=(1, 2, 3, 4, 5, 6))
    return f
