"""Derivations of sentential forms in the extracted grammar, and the composition of the semantic
actions' value graphs along them.  Leaves are tokens with symbolic texts and opaque sub-trees, each on
its own symbolic source line; the result is the syntax tree the actions build, as a term."""
from .engine import (Budget, Engine, Info, K, NONE, RaiseSig, Rec, St, Sym, T, TRUE, UNDEF, mk, show, subterms, kv)
from .repo import AnalysisBroken


class Tree(object):
    __slots__ = ('sym', 'prod', 'kids', 'leaf', 'i', 'j')

    def __init__(self, sym, prod, kids, leaf, i, j):
        self.sym = sym
        self.prod = prod
        self.kids = kids
        self.leaf = leaf
        self.i = i
        self.j = j

    def prods(self, out=None):
        if out is None:
            out = []
        if self.prod is not None:
            out.append(self.prod)
            for k in self.kids:
                k.prods(out)
        return out


class Deriver(object):
    """All derivations NT =>* sentential form (bounded number)."""

    def __init__(self, G, limit=6):
        self.G = G
        self.limit = limit
        self.nts = G.nts
        self.by = G.by_lhs
        self.min = {}
        self._minlen()
        self._first()

    def _minlen(self):
        INF = 10 ** 6
        m = dict((n, INF) for n in self.nts)
        ch = True
        while ch:
            ch = False
            for p in self.G.prods:
                v = sum(m.get(s, 1) if s in self.nts else 1 for s in p.rhs)
                if v < m[p.lhs]:
                    m[p.lhs] = v
                    ch = True
        self.min = m

    def _first(self):
        """Symbols (terminals and nonterminals) a form derived from NT can start with; nullable ones excluded."""
        f = dict((n, set([n])) for n in self.nts)
        ch = True
        while ch:
            ch = False
            for p in self.G.prods:
                for s in p.rhs:
                    add = f[s] if s in self.nts else set([s])
                    if not add <= f[p.lhs]:
                        f[p.lhs] |= add
                        ch = True
                    if not (s in self.nts and self.min[s] == 0):
                        break
        self.first = f

    def chart(self, start, sent):
        """Earley recognizer: the set of (nonterminal, i, j) spans that are derivable."""
        n = len(sent)
        nts, by = self.nts, self.by
        done = set()
        sets = [dict() for _ in range(n + 1)]     # item -> True
        waiting = [dict() for _ in range(n + 1)]  # symbol -> [item] with the dot before symbol

        def add(j, it, todo):
            if it not in sets[j]:
                sets[j][it] = True
                todo.append(it)
        for j in range(n + 1):
            todo = list(sets[j])
            predicted = set()

            def predict(s):
                if s in predicted:
                    return
                predicted.add(s)
                for p in by[s]:
                    if j < n and p.rhs and self.min_all(p) > 0 and sent[j] not in self.pfirst(p):
                        continue
                    add(j, (p, 0, j), todo)
            if j == 0:
                predict(start)
            while todo:
                p, d, i = todo.pop()
                if d < len(p.rhs):
                    s = p.rhs[d]
                    w = waiting[j].setdefault(s, [])
                    w.append((p, d, i))
                    if s in nts:
                        predict(s)
                        if (s, j, j) in done:
                            add(j, (p, d + 1, i), todo)
                    if j < n and sent[j] == s:
                        sets[j + 1][(p, d + 1, i)] = True
                        if s in nts:
                            done.add((s, j, j + 1))
                else:
                    k = (p.lhs, i, j)
                    if k not in done:
                        done.add(k)
                        for q, e, o in list(waiting[i].get(p.lhs, ())):
                            add(j, (q, e + 1, o), todo)
                    elif i == j or k in done:
                        for q, e, o in list(waiting[i].get(p.lhs, ())):
                            add(j, (q, e + 1, o), todo)
        if n and sent[0] == start and n == 1:
            done.add((start, 0, 1))
        return done

    def min_all(self, p):
        return sum(self.min[s] if s in self.nts else 1 for s in p.rhs)

    def pfirst(self, p):
        r = self._pf.get(id(p))
        if r is None:
            r = set()
            for s in p.rhs:
                r |= self.first[s] if s in self.nts else set([s])
                if not (s in self.nts and self.min[s] == 0):
                    break
            self._pf[id(p)] = r
        return r

    _pf = {}

    def derive(self, start, sent):
        self.sent = sent
        self.memo = {}
        self.prog = set()
        self.cs = {}
        self._pf = {}
        self.done = self.chart(start, list(sent))
        self.ends = {}
        for s, i, j in self.done:
            self.ends.setdefault((s, i), []).append(j)
        for v in self.ends.values():
            v.sort()
        return self.nt(start, 0, len(sent))

    def nt(self, n, i, j):
        key = (n, i, j)
        if key not in self.done:
            return []
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.prog:
            return []
        self.prog.add(key)
        out = []
        if j == i + 1 and self.sent[i] == n:
            out.append(Tree(n, None, [], i, i, j))
        else:
            for p in self.by[n]:
                for kids in self.seq(p, 0, i, j):
                    out.append(Tree(n, p, kids, None, i, j))
                    if len(out) >= self.limit:
                        break
                if len(out) >= self.limit:
                    break
        self.prog.discard(key)
        self.memo[key] = out
        return out

    def can(self, p, k, i, j):
        if k == len(p.rhs):
            return i == j
        key = (id(p), k, i, j)
        r = self.cs.get(key)
        if r is None:
            s = p.rhs[k]
            r = False
            if s not in self.nts:
                r = i < j and self.sent[i] == s and self.can(p, k + 1, i + 1, j)
            else:
                for e in self.ends.get((s, i), ()):
                    if e <= j and self.can(p, k + 1, e, j):
                        r = True
                        break
            self.cs[key] = r
        return r

    def seq(self, p, k, i, j):
        if not self.can(p, k, i, j):
            return
        if k == len(p.rhs):
            yield []
            return
        s = p.rhs[k]
        if s not in self.nts:
            for tl in self.seq(p, k + 1, i + 1, j):
                yield [Tree(s, None, [], i, i, i + 1)] + tl
            return
        for e in self.ends.get((s, i), ()):
            if e > j or not self.can(p, k + 1, e, j):
                continue
            hs = self.nt(s, i, e)
            if not hs:
                continue
            for tl in self.seq(p, k + 1, e, j):
                for h in hs:
                    yield [h] + tl


class PEngine(Engine):
    """Engine that knows the PLY production object."""

    def is_ply(self, x, st):
        return x.k == 'Ref' and x.a[0] in st.heap and st.heap[x.a[0]].cls == 'PLY'

    def item(self, x, i, st):
        y = self.simp(x, st)
        if self.is_ply(y, st):
            i = self.simp(i, st)
            if i.k == 'K' and isinstance(kv(i), int):
                d = st.heap[y.a[0]].data
                n = kv(i) + (d['#n'] if kv(i) < 0 else 0)
                v = d.get('#%d' % n)
                if v is None:
                    raise RaiseSig(st, mk('Exc', 'IndexError'))
                return self.simp(v, st)
            return mk('Unk', 'p[]', i)
        return Engine.item(self, x, i, st)

    def setitem(self, b, i, v, st):
        y = self.simp(b, st)
        if self.is_ply(y, st):
            i = self.simp(i, st)
            r = st.heap[y.a[0]]
            if i.k == 'K':
                d = dict(r.data)
                d['#%d' % kv(i)] = v
                st.heap[y.a[0]] = r.copy(d)
            return
        return Engine.setitem(self, b, i, v, st)

    def _len(self, x, st):
        if self.is_ply(x, st):
            return K(st.heap[x.a[0]].data['#n'])
        return Engine._len(self, x, st)

    def slice(self, x, lo, hi, step, st):
        y = self.simp(x, st)
        if self.is_ply(y, st):
            d = st.heap[y.a[0]].data
            items = mk('List', tuple(d['#%d' % q] for q in range(d['#n'])))
            return Engine.slice(self, items, lo, hi, step, st)
        return Engine.slice(self, x, lo, hi, step, st)


class Composed(object):
    __slots__ = ('value', 'line', 'raises', 'alarms', 'tree', 'E', 'st', 'ref')


def merge_free(data):
    return dict((k, v) for k, v in data.items())


def compose(repo, cls, tree, leaf_values, leaf_lines, leaf_ends=None, infos=None, budget=400000):
    """Run the actions of a derivation bottom-up over symbolic leaves."""
    E = PEngine(repo, budget=budget)
    st = St()
    for t, i in (infos or {}).items():
        E.info[t] = i
    recv = E.new_inst(st, cls, open_=Sym('parser'))

    def hook(E, target, args, kwargs, s):
        if target.k == 'Attr':
            x = target.a[0]
            if E.is_ply(x, s):
                r = s.heap[x.a[0]]
                nm = target.a[1]
                if nm == 'lineno' and len(args) == 1 and args[0].k == 'K':
                    n = kv(args[0])
                    if n < 0:
                        n += r.data['#n']
                    return E.simp(r.data.get('@%d' % n, K(0)), s)
                if nm == 'set_lineno' and len(args) == 2 and args[0].k == 'K':
                    d = dict(r.data)
                    d['@%d' % kv(args[0])] = args[1]
                    s.heap[x.a[0]] = r.copy(d)
                    return NONE
        return NotImplemented
    E.on_opaque = hook

    def go(t):
        if t.prod is None:
            return leaf_values[t.leaf], leaf_lines[t.leaf]
        kids = [go(k) for k in t.kids]
        data = {'#n': len(kids) + 1, '#0': NONE, '@0': K(0)}
        for n, (v, l) in enumerate(kids, 1):
            data['#%d' % n] = v
            data['@%d' % n] = l
        P = E.new_ref(st, Rec('inst', 'PLY', data, None))
        E.call_func(t.prod.func, [P], {}, st, recv=recv)
        d = st.heap[P.a[0]].data
        return E.simp(d['#0'], st), E.simp(d['@0'], st)
    c = Composed()
    c.tree = tree
    c.raises = None
    c.E = E
    c.st = st
    try:
        v, l = go(tree)
        c.ref = v
        c.value = E.snap(v, st)
        c.line = l
    except RaiseSig as r:
        c.raises = r.exc
        c.value = c.line = None
    c.alarms = list(E.alarms)
    return c
