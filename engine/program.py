"""The analysed program: LLVM IR of the current source tree, as dumped by irdump."""
import json
import re


def _strip_templates(s):
    out = []
    i = 0
    d = 0
    n = len(s)
    while i < n:
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.match(r'operator(<=>|<<=|>>=|->\*|<<|>>|<=|>=|->|<|>)', s[i:])
            if m:
                tok = m.group(0)
                # "operator<" directly followed by template args: operator< <...>
                if d == 0:
                    out.append(tok)
                i += len(tok)
                continue
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and d and not (i and s[i - 1] == '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def normalise(dem):
    s = dem.replace('(anonymous namespace)', '{anon}')
    s = _strip_templates(s)
    s = s.replace('operator()', 'operator__call').replace('std::__cxx11::', 'std::')
    s = s.replace('absl::debian3::', 'absl::')
    s = re.sub(r'\[abi:[^\]]*\]', '', s)
    while s.startswith('decltype('):
        d = 0
        for i, c in enumerate(s):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
        s = s[i + 1:].lstrip(' ')
    s = re.sub(r'\{lambda\((?:[^{}])*\)#(\d+)\}', r'{lambda\1}', s)
    s = re.sub(r'operator (?=[a-zA-Z])', 'operator_', s)
    s = re.sub(r'\boperator_unsigned ', 'operator_unsigned_', s)
    # a local class or lambda of a function: f(args)::{lambda1}::operator__call(...)
    prev = None
    while prev != s:
        prev = s
        s = re.sub(r'\((?:[^()])*\)(?: const)?::', '::', s)
    p = s.find('(')
    if p >= 0:
        s = s[:p]
    s = s.strip()
    if ' ' in s:
        s = s.split(' ')[-1]
    return s


class Func:
    __slots__ = ('name', 'dem', 'norm', 'cls', 'ret', 'args', 'blocks', 'file', 'line', 'intr',
                 'preds', 'succs', 'rpo', 'heads', 'livein', '_live', '_phiuse', 'nargs', 'calls')

    def __init__(self, name, d):
        self.name = name
        self.dem = d['dem']
        self.norm = normalise(d['dem'])
        self.cls = d.get('cls')
        self.ret = d['ret']
        self.args = d['args']
        self.blocks = d.get('blocks')
        self.file = d.get('file')
        self.line = d.get('line')
        self.intr = d.get('intr')
        self.preds = None
        self._live = {}
        self.nargs = len(self.args)

    def prepare(self):
        if self.preds is not None:
            return
        n = len(self.blocks)
        self.succs = []
        for b in self.blocks:
            t = b[-1]
            op = t['op']
            if op == 'br':
                ss = [t['t']] + ([t['f']] if 'c' in t else [])
            elif op == 'switch':
                ss = [t['d']] + [c[1] for c in t['cs']]
            elif op == 'call' and 't' in t:
                ss = [t['t']]
            else:
                ss = []
            self.succs.append(list(dict.fromkeys(ss)))
        self.preds = [[] for _ in range(n)]
        for i, ss in enumerate(self.succs):
            for s in ss:
                self.preds[s].append(i)
        # reverse post order and loop heads
        order = []
        seen = set()
        onst = set()
        self.heads = set()
        stack = [(0, iter(self.succs[0]))]
        seen.add(0)
        onst.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onst:
                    self.heads.add(s)
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    stack.append((s, iter(self.succs[s])))
                    break
            else:
                stack.pop()
                onst.discard(b)
                order.append(b)
        order.reverse()
        # blocks of loops must be ordered before the loop exits: use loop nesting
        self.rpo = [0] * n
        loops = {}
        for h in self.heads:
            body = {h}
            work = []
            # natural loop: back edges b->h
            pos = {b: i for i, b in enumerate(order)}
            for p in self.preds[h]:
                if p in pos and pos[p] >= pos[h]:
                    work.append(p)
            while work:
                b = work.pop()
                if b in body:
                    continue
                body.add(b)
                work.extend(self.preds[b])
            loops[h] = body
        # stable order: repeatedly schedule, keeping loops contiguous
        idx = {b: i for i, b in enumerate(order)}

        def sched(nodes):
            nodes = sorted(nodes, key=lambda b: idx[b])
            inner = [h for h in nodes if h in loops and loops[h] <= set(nodes) and loops[h] != set(nodes)]
            top = []
            used = set()
            for b in nodes:
                if b in used:
                    continue
                cand = [h for h in inner if b == h]
                if cand:
                    body = loops[b]
                    sub = [b] + sched_rest(body, b)
                    top.extend(x for x in sub if x not in used)
                    used.update(body)
                else:
                    top.append(b)
                    used.add(b)
            return top

        def sched_rest(body, h):
            rest = set(body) - {h}
            return sched(rest) if rest else []
        fin = sched(order)
        for i, b in enumerate(fin):
            self.rpo[b] = i
        self._liveness()

    def _uses(self, o, acc):
        for k, v in o.items():
            if k in ('loc', 'lay', 'cs', 'in'):
                continue
            if isinstance(v, list):
                _regs(v, acc)

    def _liveness(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]   # regs used by phis of successors, on edge from block
        for i, b in enumerate(self.blocks):
            for o in b:
                acc = set()
                if o['op'] == 'phi':
                    for pb, v in o['in']:
                        a2 = set()
                        _regs(v, a2)
                        phiuse[pb] |= a2
                else:
                    self._uses(o, acc)
                o['_u'] = frozenset(acc)
                use[i] |= acc - dfn[i]
                dfn[i].add(o['id'])
        self.livein = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set(phiuse[i])
                for s in self.succs[i]:
                    out |= self.livein[s] - {o['id'] for o in self.blocks[s] if o['op'] == 'phi'}
                li = use[i] | (out - dfn[i])
                if li != self.livein[i]:
                    self.livein[i] = li
                    ch = True
        self._live = {}
        self._phiuse = None
        self.calls = phiuse

    def live_at(self, blk, idx):
        """registers live just before instruction idx of block blk"""
        key = (blk, idx)
        r = self._live.get(key)
        if r is None:
            out = set(self.calls[blk])
            for s in self.succs[blk]:
                out |= self.livein[s] - {o['id'] for o in self.blocks[s] if o['op'] == 'phi'}
            b = self.blocks[blk]
            for j in range(len(b) - 1, idx - 1, -1):
                o = b[j]
                out.discard(o['id'])
                out |= o['_u']
            r = self._live[key] = frozenset(out)
        return r


def _regs(v, acc):
    if len(v) == 2 and v[0] == 'r' and isinstance(v[1], int):
        acc.add(v[1])
        return
    for x in v:
        if isinstance(x, list):
            _regs(x, acc)


# Func needs one more slot for liveness bookkeeping
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = {k: Func(k, v) for k, v in d['funcs'].items()}
        self.globals = d['globals']
        self.by_norm = {}
        for f in self.funcs.values():
            self.by_norm.setdefault(f.norm, []).append(f)
