"""Runs a property's analysis, prints the verdict and writes the evidence."""
import gc
import json
import os
import random
import sys
import time
import traceback
from values import *
from state import *
import build
from interp import Engine, Violation, with_split
import generalize

VERIF = build.VERIF


def check_equal(E, st, cmp, msg):
    """cmp(state) -> (got, expected) sequences; obligations discharged or violated"""
    for s, (g, x) in with_split(st, cmp):
        E.stats['obligations'] += 1
        try:
            rs = s.seq_eq(g, x)
        except Infeasible:
            continue
        for s2, eq in rs:
            if not eq:
                E.violation(s2, f'{msg}: got {s2.nseq(g)}, specified {s2.nseq(x)}')


def check_val(E, st, got, exp, msg):
    E.stats['obligations'] += 1
    for s2, eq in st.val_eq(got, exp):
        if not eq:
            E.violation(s2, f'{msg}: got {s2.norm(got)}, specified {s2.norm(exp)}')


def reset_tape(E, st, inp, redefine):
    """On first arrival at a loop: when nothing refers to the inside of the input any more,
    forget what is known about its contents and restate the specification for the whole."""
    fr = st.frames[-1]
    if fr.heads.get(('reset', fr.blk)):
        return
    fr.heads[('reset', fr.blk)] = True
    tape = st.nseq(E.getbox(st, inp, 'str')[0][1].a)
    if len(tape) == 1 and tape[0][0] == 's':
        return
    items = set(it for it in tape if it[0] in ('s', 't', 'm'))
    atoms = set()
    for it in tape:
        if it[0] == 'e':
            walk_atoms(it[1], atoms.add, lambda i: None)
    total = st.seqlen(tape)
    c = total if isinstance(total, int) else total.c
    var = set() if isinstance(total, int) else {a[1] for a, k in total.t}
    new = sym_seq()
    nl = atom(('L', new[0]))
    bad = [False]

    def rew(v):
        if not isinstance(v, Lin):
            if isinstance(v, Ptr):
                return Ptr(v.r, rew(v.o))
            def oa(a):
                if a in atoms:
                    bad[0] = True

            def oi(it):
                if it in items:
                    bad[0] = True
            walk_atoms(v, oa, oi)
            return v
        ks = set()
        for it in var:
            ks.add(dict(v.t).get(('L', it), 0))
        if any(a in atoms or (a[0] == 'tab' and a[1] in atoms) for a, k in v.t):
            bad[0] = True
            return v
        if ks <= {0}:
            return v
        if len(ks) != 1:
            bad[0] = True
            return v
        k = ks.pop()
        d = {a: q for a, q in v.t if not (a[0] == 'L' and a[1] in items)}
        return ladd(lin(v.c - k * c, d), nl, k)
    t = generalize.traverse(st)
    writes = []
    for path, v in t.slots:
        if path[0] == 'gh':
            continue
        if path[0] == 'm' and isinstance(v, Box) and ('o', t.ids[path[1]]) == inp.r and path[2] == inp.o:
            continue
        writes.append((path, rew(v)))
        if bad[0]:
            return
    facts = []
    for f in st.facts:
        bad[0] = False
        g = rew(st.nlin(f))
        if not bad[0]:
            facts.append(g)
    for path, v in writes:
        if path[0] == 'r':
            st.frames[path[1]].regs[path[2]] = v
        else:
            st.wobj(t.ids[path[1]]).cells[path[2]] = (path[3], v)
    st.facts = tuple(f for f in facts if isinstance(f, Lin))
    st.wobj(inp.r[1]).cells[inp.o] = (32, Box('str', new))
    lo, hi = st.range(total)
    if hi < LENMAX or lo > 0:
        st.rng[('L', new[0])] = (max(lo, 0), min(hi, LENMAX))
    for k, v in redefine(st, new).items():
        st.ghost[k] = v
    st.nfork += 1


class Case:
    def __init__(self, name, prog, plugin, models, searches):
        self.name, self.prog, self.plugin, self.models, self.searches = name, prog, plugin, models, searches


def run_engine(c, opts, deadline, search=None):
    E = Engine(c.prog, c.plugin, c.models)
    E.gen.debug = opts.get('debug', 0)
    E.verbose = opts.get('verbose', 0)
    E.deadline = deadline
    E.search = search
    E.rand = random.Random(search)
    E.max_steps = 10 ** 12 if search is not None else E.max_steps
    E.stop_at_first = search is not None or not opts.get('all')
    c.plugin.E = E
    try:
        def make():
            st, entry, args = c.plugin.initial(E)
            fn = c.prog.funcs[entry]
            fn.prepare()
            E.enter(st, fn, args)
            return st
        if search:
            E.run_random(make)
        else:
            E.run(make())
    except (Unsupported, Infeasible) as e:
        E.undecided.append(f'{type(e).__name__}: {e}')
    except Violation as e:
        E.undecided.append(f'entry: {e}')
    except RecursionError:
        E.undecided.append('recursion limit of the analyser')
    except Exception:
        E.undecided.append('analyser error: ' + traceback.format_exc().strip().splitlines()[-1])
        if opts.get('verbose'):
            traceback.print_exc()
    E.live_violation()
    return E


def describe(E, v):
    """the abstract state at a violation, for the report"""
    st = v['state']
    out = []
    try:
        for k in sorted(st.ghost):
            out.append(f'{k} = {st.norm(st.ghost[k])}')
        for pp, seq in (E.plugin.tapes(E, st) if E.plugin else []):
            out.append(f'input {st.nseq(seq)}')
        cs = set()
        for pp, seq in (E.plugin.tapes(E, st) if E.plugin else []):
            walk_atoms(st.nseq(seq), lambda a: cs.add(a) if a[0] == 'c' else None, lambda i: None)
        for a in sorted(cs):
            m = st.mask_of(a)
            if bin(m).count('1') <= 40:
                out.append(f'{atom_str(a)} in {[chr(x) if 32 <= x < 127 else x for x in bits(m)]}')
    except Exception as e:
        out.append(f'({e})')
    return out


def run_fix(c, opts, deadline):
    """the fixpoint analysis of a case"""
    t0 = time.time()
    E = run_engine(c, opts, deadline)
    r = {'name': c.name, 'stats': E.stats, 'functions': sorted(E.funcs_seen),
         'loops': [], 'undecided': sorted(set(E.undecided)), 'violations': [], 'unconfirmed': []}
    for k in E.gen.byid:
        if k.samples:
            r['loops'].append(f'{k.key[1][-1]}')
    r['loops'] = sorted(set(r['loops']))
    r['invariants'] = sum(1 for k in E.gen.byid if k.G is not None)
    if E.stats['obligations'] == 0 and not E.violations and not E.undecided:
        r['undecided'].append('no obligation was reached')
    if E.violations and opts.get('debug'):
        for v in E.violations[:6]:
            print('POSSIBLE', v['msg'][:300], 'lineage', v['state'].lineage, 'trace', v['trace'][-12:])
            generalize.dump(v['state'])
    definite = [v for v in E.violations if not v['state'].lineage]
    if definite:
        r['violations'].append(report(E, definite[0]))
    elif E.violations:
        for v in E.violations[:4]:
            r['unconfirmed'].append({'msg': v['msg'][:400], 'loc': v['loc']})
            r['undecided'].append(f'possible: {v["msg"][:200]} at {v["loc"]}')
    r['seconds'] = round(time.time() - t0, 2)
    return r


def report(X, v):
    return {'msg': v['msg'], 'loc': v['loc'], 'stack': v['stack'], 'trace': v['trace'][-40:], 'state': describe(X, v)}


def run_search(c, opts, deadline, n):
    """look for a path to a violation on which nothing was generalised (cheapest paths first, cost = loop iterations; n > 0: perturbed costs)"""
    t0 = time.time()
    X = run_engine(c, opts, deadline, n)
    return {'search': n, 'states': X.stats['states'], 'violations': [report(X, v) for v in X.violations[:1]],
            'complete': not X.undecided, 'stats': X.stats, 'functions': sorted(X.funcs_seen), 'undecided': sorted(set(X.undecided)),
            'seconds': round(time.time() - t0, 2)}


class Runner:
    def __init__(self, pid, opts):
        self.pid = pid
        self.opts = opts
        self.cases = []
        self.results = []
        self.notes = []
        self.t0 = time.time()
        self.assumptions = []
        self.rule = ''

    def case(self, name, prog, plugin, models, searches=(0, 1, 2)):
        if self.opts.get('only') and self.opts['only'] not in name:
            return
        self.cases.append(Case(name, prog, plugin, models, searches))

    def result(self, r):
        """result of a direct (non abstract-interpretation) query"""
        self.results.append(r)

    def run(self):
        budget = float(os.environ.get('VERIF_BUDGET', '400' if self.tier == 'quick' else '850'))
        par = int(os.environ.get('VERIF_JOBS', '8'))
        end = time.time() + budget
        if self.opts.get('debug') or self.opts.get('verbose'):
            for c in self.cases:
                if self.opts.get('searchonly') is not None:
                    print(run_search(c, self.opts, end, self.opts['searchonly']))
                else:
                    self.done(run_fix(c, self.opts, end))
            return
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        n = len(self.cases)
        fix = {}
        found = {}
        searches = {i: [] for i in range(n)}
        known = known_findings(self.pid)
        todo = [('fix', i, 0) for i in range(n) if self.opts.get('searchonly') is None]
        if not self.opts.get('nosearch'):
            for k in range(max((len(c.searches) for c in self.cases), default=0)):
                todo += [('search', i, c.searches[k]) for i, c in enumerate(self.cases) if k < len(c.searches)]
        live = {}
        stop = False

        def settled(i):
            return i in found or (i in fix and not fix[i]['undecided'])

        while (todo or live) and not stop:
            for t in [t for t in todo if settled(t[1])]:
                todo.remove(t)
            for t in [t for t in live if settled(t[1])]:
                p, rd = live.pop(t)
                p.terminate()
                p.join()
            while todo and len(live) < par:
                t = todo.pop(0)
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(wr, self.cases[t[1]], self.opts, end, t))
                p.start()
                wr.close()
                live[t] = (p, rd)
            for t in list(live):
                p, rd = live[t]
                r = None
                try:
                    if rd.poll(0.02):
                        r = rd.recv()
                    elif p.is_alive() and time.time() < end + 20:
                        continue
                except EOFError:
                    pass
                p.terminate()
                p.join()
                del live[t]
                i = t[1]
                if t[0] == 'fix':
                    fix[i] = r or {'name': self.cases[i].name, 'stats': {}, 'functions': [], 'loops': [], 'violations': [],
                                   'unconfirmed': [], 'invariants': 0, 'undecided': ['the analysis of this case ended early'], 'seconds': 0}
                    if fix[i]['violations']:
                        found[i] = fix[i]['violations']
                elif r:
                    searches[i].append(r)
                    if r['violations']:
                        found[i] = r['violations']
                if i in found and not any(matches(f, self.cases[i].name, v) for f in known for v in found[i]):
                    stop = True
        for p, rd in live.values():
            p.terminate()
            p.join()
        for i, c in enumerate(self.cases):
            r = fix.get(i)
            if r is None:
                if stop and i not in found:
                    continue
                r = {'name': c.name, 'stats': {}, 'functions': [], 'loops': [], 'violations': [], 'unconfirmed': [],
                     'invariants': 0, 'undecided': ['no fixpoint was computed for this case'], 'seconds': 0}
            r['search'] = [{k: x[k] for k in ('search', 'states', 'complete', 'seconds', 'undecided')} for x in searches[i]]
            if not r['stats'] and searches[i]:
                r['stats'], r['functions'] = searches[i][-1]['stats'], searches[i][-1]['functions']
            if i in found:
                r['violations'] = found[i]
            self.done(r)

    def done(self, r):
        self.results.append(r)
        if self.opts.get('print'):
            u = f' UNDECIDED {r["undecided"][:4]}' if r['undecided'] else ''
            v = f' VIOLATED {[(x["msg"][:300], x["loc"]) for x in r["violations"]]}' if r['violations'] else ''
            s = r['stats']
            q = ''.join(f' search({x["search"]}: {"complete" if x["complete"] else "incomplete"}, {x["states"]} states, {x["seconds"]}s)' for x in r.get('search', ()))
            print(f'[{r["name"]}] {r["seconds"]}s states={s.get("states")} obligations={s.get("obligations")}'
                  f' invariants={r.get("invariants")}{q}{u}{v}')


def child(wr, c, opts, end, t):
    gc.set_threshold(300000, 50, 1000)
    sys.setrecursionlimit(8000)
    r = run_fix(c, opts, end) if t[0] == 'fix' else run_search(c, opts, end, t[2])
    wr.send(r)
    wr.close()


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid and f.get('status') == 'known']


def matches(f, case, v):
    """a listed finding is identified by the case and by function / message"""
    return (f['case'] == case) and f['message'] in v['msg'] and (not f.get('function') or any(f['function'] in s for s in v['stack']))


def main(pid, analyse, rule='', assumptions=()):
    gc.set_threshold(300000, 50, 1000)
    sys.setrecursionlimit(8000)
    opts = {'print': True}
    for a in sys.argv[1:]:
        if a == '-d':
            opts['debug'] = 1
        elif a == '-dd':
            opts['debug'] = 2
        elif a == '-v':
            opts['verbose'] = 1
        elif a == '-n':
            opts['nosearch'] = 1
        elif a.startswith('-s'):
            opts['searchonly'] = int(a[2:])
        elif a.startswith('-o'):
            opts['only'] = a[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[1:]:
        if a in ('--quick', '--thorough'):
            tier = a[2:]
    R = Runner(pid, opts)
    R.tier = tier
    try:
        analyse(R)
        R.run()
    except build.BuildError as e:
        print(f'BUILD-ERROR: {e}')
        sys.exit(2)
    bad = 0
    und = 0
    known = known_findings(pid)
    hit = set()
    vdir = os.path.join(build.writable_cache(), 'violations')
    allv = []
    for r in R.results:
        for v in r['violations']:
            k = [f for f in known if matches(f, r['name'], v)]
            if k:
                for f in k:
                    hit.add(f['id'])
                continue
            allv.append((r['name'], v))
        if r['undecided']:
            und += 1
    for f in known:
        if f['id'] in hit:
            print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    if allv:
        os.makedirs(vdir, exist_ok=True)
        path = os.path.join(vdir, f'{pid}.json')
        json.dump([{'case': n, **v} for n, v in allv], open(path, 'w'), indent=1, default=str)
        for n, v in allv[:5]:
            print(f'  {n}: {v["msg"][:600]}')
            print(f'    at {v["loc"]} in {" < ".join(reversed(v["stack"]))}')
        print(f'VIOLATION property={pid} replay={path}')
        bad = 1
    for r in R.results:
        for u in r['undecided'][:6]:
            print(f'UNDECIDED [{r["name"]}] {u}')
    obl = sum(r['stats'].get('obligations', 0) for r in R.results)
    proved = not allv and not und
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': 'proof' if proved else 'other',
          'coverage': {
              'explanation': rule,
              'obligations': obl, 'discharged': obl - len(allv) if proved or allv else sum(r['stats'].get('obligations', 0) for r in R.results if not r['undecided']),
              'checker_cmd': f'python3 checks/{pid.lower()}.py',
              'trusted_base': TRUSTED,
              'cases': [{'case': r['name'], 'proved': not r['undecided'] and not r['violations'], 'abstract_states': r['stats'].get('states', 0),
                         'instructions': r['stats'].get('steps', 0), 'call_sites': r['stats'].get('calls', 0),
                         'loop_head_visits': r['stats'].get('heads', 0), 'loop_invariants': r.get('invariants', 0),
                         'obligations': r['stats'].get('obligations', 0), 'functions': r['functions'], 'loops_in': r['loops'],
                         'undecided': r['undecided'][:8], 'search': r.get('search', []), 'seconds': r['seconds'], **({'detail': r['detail']} if 'detail' in r else {})} for r in R.results],
              'functions_analysed': len(set(f for r in R.results for f in r['functions'])),
          },
          'assumptions': list(assumptions) + R.assumptions,
          'wall_s': round(time.time() - R.t0, 2), 'violations': len(allv)}
    if not opts.get('only'):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, f'{pid}.json'), 'w'), indent=1, default=str)
    print(f'{pid}: {"VIOLATED" if bad else "HOLDS" if proved else "UNDECIDED (no violation found)"}  obligations={obl} '
          f'cases={len(R.results)} {ev["wall_s"]}s')
    sys.exit(bad)


TRUSTED = ['clang 18 front end and its SROA pass (source to IR)', 'engine/irdump.cc (IR to JSON)',
           'engine/interp.py, state.py, generalize.py (abstract interpreter)',
           'engine/models.py (models of libstdc++, abseil and protobuf operations)', 'engine/specs.py (reference definitions)']
