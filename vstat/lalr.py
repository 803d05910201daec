"""LALR(1) automaton of the extracted grammar, with PLY's conflict resolution, and its decisions on
sentential forms.  A grammar analysis: no text is lexed and no code of the repository runs."""
from .deriv import Tree
from .repo import AnalysisBroken


class Lalr(object):
    def __init__(self, G, precedence, start=None):
        self.G = G
        self.nts = G.nts
        prods = sorted(G.prods, key=lambda p: (p.func.node.lineno, p.index))
        self.start = start or prods[0].lhs
        self.prods = [("S'", (self.start,), None)] + [(p.lhs, tuple(p.rhs), p) for p in prods]
        self.by = {}
        for i, (l, r, p) in enumerate(self.prods):
            self.by.setdefault(l, []).append(i)
        self.prec = {}
        for lvl, row in enumerate(precedence, 1):
            for t in row[1:]:
                self.prec[t] = (row[0], lvl)
        self.pprec = []
        for l, r, p in self.prods:
            q = ('right', 0)
            if p is not None and p.prec:
                q = self.prec.get(p.prec, ('right', 0))
            else:
                for s in reversed(r):
                    if s not in self.nts:
                        q = self.prec.get(s, ('right', 0))
                        break
            self.pprec.append(q)
        self.conflicts = []
        self.build()

    # ---- LR(0)
    def closure_nts(self, kernel):
        seen = set()
        todo = []
        for (i, d) in kernel:
            r = self.prods[i][1]
            if d < len(r) and r[d] in self.nts:
                todo.append(r[d])
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for i in self.by[n]:
                r = self.prods[i][1]
                if r and r[0] in self.nts:
                    todo.append(r[0])
        return seen

    def build(self):
        states = {}
        order = []
        goto = []

        def state(kernel):
            if kernel not in states:
                states[kernel] = len(order)
                order.append(kernel)
                goto.append({})
            return states[kernel]
        state(frozenset([(0, 0)]))
        q = 0
        items_of = []
        while q < len(order):
            kernel = order[q]
            items = set(kernel)
            for n in self.closure_nts(kernel):
                for i in self.by[n]:
                    items.add((i, 0))
            items_of.append(items)
            moves = {}
            for (i, d) in items:
                r = self.prods[i][1]
                if d < len(r):
                    moves.setdefault(r[d], set()).add((i, d + 1))
            for s in sorted(moves):
                goto[q][s] = state(frozenset(moves[s]))
            q += 1
        self.goto = goto
        self.items = items_of
        nullable = set()
        ch = True
        while ch:
            ch = False
            for l, r, p in self.prods:
                if l not in nullable and all(s in nullable for s in r):
                    nullable.add(l)
                    ch = True
        self.nullable = nullable
        # ---- DeRemer-Pennello
        trans = [(p, s) for p in range(len(goto)) for s in goto[p] if s in self.nts]
        DR, reads = {}, {}
        for (p, A) in trans:
            r = goto[p][A]
            DR[(p, A)] = set(s for s in goto[r] if s not in self.nts)
            if p == 0 and A == self.start:
                DR[(p, A)].add('$end')
            reads[(p, A)] = [(r, s) for s in goto[r] if s in nullable]
        Read = self.digraph(trans, reads, DR)
        includes = dict((t, []) for t in trans)
        lookback = {}
        for (p, A) in trans:
            for i in self.by[A]:
                rhs = self.prods[i][1]
                s = p
                for k, X in enumerate(rhs):
                    if X in self.nts and all(y in nullable for y in rhs[k + 1:]):
                        includes[(s, X)].append((p, A))
                    s = goto[s][X]
                lookback.setdefault((s, i), []).append((p, A))
        Follow = self.digraph(trans, includes, Read)
        self.action = []
        for q in range(len(goto)):
            self.action.append(self.actions(q, lookback, Follow))

    def digraph(self, X, R, FP):
        N = dict((x, 0) for x in X)
        F = {}
        stack = []
        INF = 10 ** 9
        for root in X:
            if N[root]:
                continue
            # iterative tarjan
            work = [(root, iter(R.get(root, ())))]
            stack.append(root)
            N[root] = len(stack)
            F[root] = set(FP[root])
            low = {root: len(stack)}
            while work:
                x, it = work[-1]
                adv = False
                for y in it:
                    if N[y] == 0:
                        stack.append(y)
                        N[y] = len(stack)
                        low[y] = len(stack)
                        F[y] = set(FP[y])
                        work.append((y, iter(R.get(y, ()))))
                        adv = True
                        break
                    if N[y] != INF:
                        low[x] = min(low[x], N[y])
                    F[x] |= F[y]
                if adv:
                    continue
                work.pop()
                if work:
                    px = work[-1][0]
                    low[px] = min(low[px], low[x])
                    F[px] |= F[x]
                if low[x] == N[x]:
                    while True:
                        z = stack.pop()
                        N[z] = INF
                        if z is x or z == x:
                            break
                        F[z] = set(F[x])
        return F

    def actions(self, q, lookback, Follow):
        act = {}
        actp = {}
        # PLY walks the items; the outcome of its rules is order independent except where noted
        for (i, d) in sorted(self.items[q]):
            l, r, p = self.prods[i]
            if d == len(r):
                if l == "S'":
                    act['$end'] = ('accept',)
                    continue
                la = set()
                for t in lookback.get((q, i), ()):
                    la |= Follow[t]
                for a in la:
                    old = act.get(a)
                    if old is None:
                        act[a] = ('reduce', i)
                    elif old[0] == 'shift':
                        sp, sl = self.prec.get(a, ('right', 0))
                        rp, rl = self.pprec[i]
                        if sl < rl or (sl == rl and rp == 'left'):
                            act[a] = ('reduce', i)
                        elif sl == rl and rp == 'nonassoc':
                            act[a] = ('error',)
                        else:
                            if sl == 0 or rl == 0:
                                self.conflicts.append((q, a, 'shift', i))
                    elif old[0] == 'reduce' and old[1] != i:
                        act[a] = ('reduce', min(old[1], i))
                        self.conflicts.append((q, a, 'reduce', old[1], i))
            else:
                a = r[d]
                if a in self.nts:
                    continue
                old = act.get(a)
                if old is None:
                    act[a] = ('shift', self.goto[q][a])
                elif old[0] == 'reduce':
                    sp, sl = self.prec.get(a, ('right', 0))
                    rp, rl = self.pprec[old[1]]
                    if sl > rl or (sl == rl and rp == 'right'):
                        act[a] = ('shift', self.goto[q][a])
                        if rl == 0:
                            self.conflicts.append((q, a, 'shift', old[1]))
                    elif sl == rl and rp == 'nonassoc':
                        act[a] = ('error',)
        return act

    # ---- driving the automaton over a terminal string
    def parse(self, toks):
        """Tree, or None when the automaton reports an error (with self.errpos)."""
        stack = [0]
        vals = []
        pos = 0
        n = len(toks)
        steps = 0
        while True:
            steps += 1
            if steps > 100000:
                return None
            a = toks[pos] if pos < n else '$end'
            act = self.action[stack[-1]].get(a)
            if act is None or act[0] == 'error':
                self.errpos = pos
                return None
            if act[0] == 'shift':
                vals.append(Tree(a, None, [], pos, pos, pos + 1))
                stack.append(act[1])
                pos += 1
            elif act[0] == 'accept':
                return vals[-1]
            else:
                l, r, p = self.prods[act[1]]
                k = len(r)
                kids = vals[len(vals) - k:] if k else []
                if k:
                    del vals[-k:]
                    del stack[-k:]
                i = kids[0].i if kids else pos
                j = kids[-1].j if kids else pos
                vals.append(Tree(l, p, kids, None, i, j))
                stack.append(self.goto[stack[-1]][l])

    # ---- representatives and contexts
    def shortest(self):
        """nonterminal -> a shortest terminal string."""
        if getattr(self, '_short', None) is not None:
            return self._short
        best = {}
        ch = True
        while ch:
            ch = False
            for l, r, p in self.prods[1:]:
                if all(s not in self.nts or s in best for s in r):
                    v = sum(([s] if s not in self.nts else best[s] for s in r), [])
                    if l not in best or len(v) < len(best[l]):
                        best[l] = v
                        ch = True
        self._short = best
        return best

    def context(self, nt):
        """(prefix, suffix) of terminals such that start =>* prefix nt suffix."""
        if getattr(self, '_ctx', None) is None:
            best = self.shortest()
            ctx = {self.start: ([], [])}
            ch = True
            while ch:
                ch = False
                for l, r, p in self.prods[1:]:
                    if l not in ctx:
                        continue
                    for k, s in enumerate(r):
                        if s in self.nts:
                            try:
                                pre = sum(([x] if x not in self.nts else best[x] for x in r[:k]), [])
                                suf = sum(([x] if x not in self.nts else best[x] for x in r[k + 1:]), [])
                            except KeyError:
                                continue
                            c = (ctx[l][0] + pre, suf + ctx[l][1])
                            if s not in ctx or len(c[0]) + len(c[1]) < len(ctx[s][0]) + len(ctx[s][1]):
                                ctx[s] = c
                                ch = True
            self._ctx = ctx
        return self._ctx.get(nt)

    def tree_for(self, start, form, reps=None, ctx=None):
        """The derivation the automaton chooses for a sentential form of a nonterminal, with leaf
        nonterminals replaced by representatives.  None: it does not accept; False: no such node."""
        best = dict(self.shortest())
        best.update(reps or {})
        if ctx is None:
            ctx = self.context(start)
        if ctx is None:
            return None
        pre, suf = ctx
        toks = list(pre)
        spans = []
        for s in form:
            v = best.get(s, [s]) if s in self.nts else [s]
            spans.append((len(toks), len(toks) + len(v)))
            toks += v
        lo, hi = len(pre), len(toks)
        toks += suf
        t = self.parse(toks)
        if t is None:
            return None
        node = self.find(t, start, lo, hi)
        if node is None:
            return False
        owner = dict((sp, (k, s)) for k, (sp, s) in enumerate(zip(spans, form)) if s in self.nts)
        firsttok = {}
        for k, (sp, s) in enumerate(zip(spans, form)):
            for q in range(*sp):
                firsttok[q] = k

        def conv(x, top=False):
            if not top or len(form) > 1 or True:
                o = owner.get((x.i, x.j))
                if o is not None and x.j > x.i and x.sym == o[1] and not (top and len(form) != 1):
                    return Tree(x.sym, None, [], o[0], x.i, x.j)
            if x.prod is None and x.leaf is not None:
                k = firsttok[x.leaf]
                if form[k] in self.nts:
                    raise LookupError
                return Tree(x.sym, None, [], k, x.i, x.j)
            return Tree(x.sym, x.prod, [conv(y) for y in x.kids], None, x.i, x.j)
        try:
            return conv(node, True)
        except LookupError:
            return False

    def find(self, t, sym, i, j):
        if t.sym == sym and t.i == i and t.j == j:
            return t
        for k in t.kids:
            if k.i <= i and k.j >= j:
                r = self.find(k, sym, i, j)
                if r is not None:
                    return r
        return None


def precedence_of(repo, cls):
    """The precedence table literal of the parser class."""
    import ast
    for k in repo.mro(cls):
        for st in k.node.body:
            tgt = None
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                tgt = st.targets[0].id
            if tgt == 'precedence':
                try:
                    v = ast.literal_eval(st.value)
                except ValueError:
                    raise AnalysisBroken('the precedence table is not a literal')
                return [tuple(x) for x in v]
    return []
