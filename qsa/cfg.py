"""Control flow facts of a MIR body: loops, dominators, liveness."""


class Body:
    def __init__(self, path, f):
        self.path = path
        self.f = f
        self.blocks = f['blocks']
        n = len(self.blocks)
        self.succ = [self._succ(b['t']) for b in self.blocks]
        self.rpo = []
        self._rpo()
        self.order = {b: i for i, b in enumerate(self.rpo)}
        self.pred = [[] for _ in range(n)]
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._canret()
        self._pdom()
        self._loops()
        self._live()

    @staticmethod
    def _succ(t):
        k = t['t']
        if k == 'goto':
            return [t['to']]
        if k == 'switch':
            r = []
            for _, b in t['cases']:
                if b not in r:
                    r.append(b)
            if t['else'] is not None and t['else'] not in r:
                r.append(t['else'])
            return r
        if k in ('drop', 'assert'):
            return [t['to']]
        if k == 'call':
            return [] if t['to'] is None else [t['to']]
        return []

    def _rpo(self):
        seen, post = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]

    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    while d != p:
                        while self.order[d] > self.order[p]:
                            d = idom[d]
                        while self.order[p] > self.order[d]:
                            p = idom[p]
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

    def dom(self, a, b):
        """a dominates b"""
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _canret(self):
        good = set(b for b in self.rpo if self.blocks[b]['t']['t'] == 'return')
        todo = list(good)
        while todo:
            b = todo.pop()
            for p in self.pred[b]:
                if p not in good:
                    good.add(p)
                    todo.append(p)
        self.canret = good

    def _pdom(self):
        """Immediate postdominators among blocks that can return; -1 is the exit."""
        nodes = [b for b in self.rpo if b in self.canret]
        pd = {b: None for b in nodes}
        full = set(nodes) | {-1}
        sets = {b: set(full) for b in nodes}
        sets[-1] = {-1}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                if self.blocks[b]['t']['t'] == 'return':
                    new = {b, -1}
                else:
                    ss = [s for s in self.succ[b] if s in self.canret]
                    new = set.intersection(*[sets[s] for s in ss]) if ss else set()
                    new = new | {b}
                if new != sets[b]:
                    sets[b] = new
                    ch = True
        for b in nodes:
            c = sets[b] - {b}
            # the closest one: the candidate with the largest postdominator set
            pd[b] = max(c, key=lambda x: len(sets[x])) if c else -1
        self.ipdom = pd

    def _loops(self):
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body = loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x in body:
                            continue
                        body.add(x)
                        todo.extend(p for p in self.pred[x])
        self.loops = loops
        self.natural = {}
        for h, body in loops.items():
            latches = [b for b in body if h in self.succ[b]]
            best = None
            for b in sorted(body, key=lambda x: self.order[x]):
                if len(self.succ[b]) < 2 or not all(self.dom(b, l) for l in latches):
                    continue
                if any(h2 != h and b in loops[h2] and h2 in body and loops[h2] < body
                       for h2 in loops):
                    continue
                outs = [s for s in self.succ[b] if s not in body and s in self.canret]
                if outs:
                    best = (b, tuple(outs))
                    break
            self.natural[h] = best

    def _uses(self, x, out):
        if isinstance(x, dict):
            if 'l' in x and 'p' in x and isinstance(x['l'], int):
                out.add(x['l'])
                for e in x['p']:
                    if e[0] == 'i':
                        out.add(e[1])
                return
            for k, v in x.items():
                if k not in ('ty', 't', 'to', 'from'):
                    self._uses(v, out)
        elif isinstance(x, list):
            for v in x:
                self._uses(v, out)

    def _live(self):
        n = len(self.blocks)
        borrowed = set()
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]
        for b in self.rpo:
            bl = self.blocks[b]
            g, k = gen[b], kill[b]

            def use(x):
                o = set()
                self._uses(x, o)
                g.update(o - k)

            def define(p):
                if p['p']:
                    use(p)
                else:
                    k.add(p['l'])
            for s in bl['s']:
                if s['s'] == '=':
                    v = s['v']
                    use(v)
                    if v.get('r') in ('ref', 'rawptr'):
                        pr = v['p']
                        if not (pr['p'] and pr['p'][0][0] == '*'):
                            borrowed.add(pr['l'])
                    define(s['p'])
                else:
                    use(s)
            t = bl['t']
            if t['t'] == 'switch':
                use(t['x'])
            elif t['t'] == 'assert':
                use(t['x'])
                use(t.get('ops', []))
            elif t['t'] == 'call':
                use(t['f'])
                use(t['args'])
                define(t['dest'])
            elif t['t'] == 'return':
                use({'l': 0, 'p': []})
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                i = gen[b] | (o - kill[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live
        self.borrowed = borrowed
