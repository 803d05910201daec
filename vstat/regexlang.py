"""Regular expressions as automata: leftmost-first (Perl) matching of an ordered rule list, determinised
to a labelled DFA, and longest-match specifications; equivalence with a shortest witness."""
import re
try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:      # older interpreters
    import sre_parse
    import sre_constants as sc

ALPHABET = [chr(i) for i in range(128)] + ['\u00e9', '\u3000']


class Unsupported(Exception):
    pass


_cats = {}


def _category(c):
    pat = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
           sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}.get(c)
    if pat is None:
        raise Unsupported(str(c))
    if c not in _cats:
        rx = re.compile(pat)
        _cats[c] = frozenset(ch for ch in ALPHABET if rx.match(ch))
    return _cats[c]


class NFA(object):
    """Nodes: ('char', frozenset, next) | ('split', [next...]) | ('match', rule)."""

    def __init__(self):
        self.nodes = []

    def new(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def build(self, items, nxt, flags):
        for op, av in reversed(list(items)):
            nxt = self.item(op, av, nxt, flags)
        return nxt

    def item(self, op, av, nxt, flags):
        if op is sc.LITERAL:
            cs = frozenset([chr(av)])
            if flags & re.I:
                cs = frozenset([chr(av).lower(), chr(av).upper()])
            return self.new(('char', cs, nxt))
        if op is sc.NOT_LITERAL:
            return self.new(('char', frozenset(ALPHABET) - frozenset([chr(av)]), nxt))
        if op is sc.ANY:
            cs = frozenset(ALPHABET) if flags & re.S else frozenset(ALPHABET) - frozenset('\n')
            return self.new(('char', cs, nxt))
        if op is sc.IN:
            s = set()
            negate = False
            for o, a in av:
                if o is sc.NEGATE:
                    negate = True
                elif o is sc.LITERAL:
                    s.add(chr(a))
                elif o is sc.RANGE:
                    s |= set(c for c in ALPHABET if a[0] <= ord(c) <= a[1])
                elif o is sc.CATEGORY:
                    s |= _category(a)
                else:
                    raise Unsupported(str(o))
            if flags & re.I:
                s |= set(c.lower() for c in s) | set(c.upper() for c in s)
            cs = frozenset(ALPHABET) - frozenset(s) if negate else frozenset(s)
            return self.new(('char', cs, nxt))
        if op is sc.BRANCH:
            return self.new(('split', [self.build(b, nxt, flags) for b in av[1]]))
        if op is sc.SUBPATTERN:
            g, addf, delf, sub = av
            return self.build(sub, nxt, (flags | addf) & ~delf)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is sc.MAX_REPEAT
            if hi is sc.MAXREPEAT:
                loop = self.new(None)
                body = self.build(sub, loop, flags)
                self.nodes[loop] = ('split', [body, nxt] if greedy else [nxt, body])
                cur = loop
            else:
                if hi > 60:
                    raise Unsupported('repeat')
                cur = nxt
                for _ in range(hi - lo):
                    body = self.build(sub, cur, flags)
                    cur = self.new(('split', [body, nxt] if greedy else [nxt, body]))
            for _ in range(lo):
                cur = self.build(sub, cur, flags)
            return cur
        raise Unsupported(str(op))


def compile_rules(rules, flags):
    """[(label, regex)] -> (NFA, start node of the ordered alternation)."""
    n = NFA()
    starts = []
    for label, rx in rules:
        m = n.new(('match', label))
        p = sre_parse.parse(rx, flags)
        starts.append(n.build(p, m, p.state.flags))
    return n, n.new(('split', starts))


def charset_classes(*nfas):
    """Representatives of the character classes the automata can tell apart."""
    sets = []
    for n in nfas:
        for nd in n.nodes:
            if nd[0] == 'char':
                sets.append(nd[1])
    sets = list(set(sets))
    reps = {}
    for c in ALPHABET:
        sig = tuple(c in s for s in sets)
        reps.setdefault(sig, c)
    return list(reps.values())


class Priority(object):
    """Leftmost-first simulation; a state is the ordered thread list, cut after a match."""

    def __init__(self, nfa, start):
        self.n = nfa
        self.start = self.close([start])

    def close(self, roots):
        out = []
        seen = set()
        for r in roots:
            stack = [r]
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                nd = self.n.nodes[x]
                if nd[0] == 'split':
                    stack.extend(reversed(nd[1]))
                else:
                    out.append(x)
                    if nd[0] == 'match':
                        return tuple(out)
        return tuple(out)

    def step(self, s, c):
        return self.close([self.n.nodes[x][2] for x in s if self.n.nodes[x][0] == 'char' and c in self.n.nodes[x][1]])

    def label(self, s):
        if s and self.n.nodes[s[-1]][0] == 'match':
            return self.n.nodes[s[-1]][1]
        return None


class Longest(object):
    """Longest match; among rules matching the same text the first wins."""

    def __init__(self, nfa, start, order):
        self.n = nfa
        self.order = dict((l, i) for i, l in enumerate(order))
        self.start = self.close([start])

    def close(self, roots):
        seen = set()
        out = set()
        stack = list(roots)
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            nd = self.n.nodes[x]
            if nd[0] == 'split':
                stack.extend(nd[1])
            else:
                out.add(x)
        return frozenset(out)

    def step(self, s, c):
        return self.close([self.n.nodes[x][2] for x in s if self.n.nodes[x][0] == 'char' and c in self.n.nodes[x][1]])

    def label(self, s):
        ls = [self.n.nodes[x][1] for x in s if self.n.nodes[x][0] == 'match']
        return min(ls, key=lambda l: self.order[l]) if ls else None


def compare(a, b, chars, limit=20000, skip=lambda word: False, first_only=None):
    """Differences between two labelled automata: [(word, label a, label b)] (one per label pair), states."""
    seen = {(a.start, b.start): ''}
    todo = [(a.start, b.start)]
    diffs = {}
    i = 0
    while i < len(todo):
        s, t = todo[i]
        i += 1
        w = seen[(s, t)]
        la, lb = a.label(s), b.label(t)
        if la != lb and not skip(w):
            diffs.setdefault((la, lb), w)
        for c in chars:
            k = (a.step(s, c), b.step(t, c))
            if not k[0] and not k[1]:
                continue
            if k not in seen:
                seen[k] = w + c
                todo.append(k)
                if len(todo) > limit:
                    raise Unsupported('automaton too large')
    return [(w, la, lb) for (la, lb), w in diffs.items()], len(todo)


def language_has(nfa_start, label, ch, limit=20000):
    """Some word matched under the label contains ch (language level)."""
    nfa, start = nfa_start
    # nodes reachable from start / reaching match, through a char node accepting ch
    def succ(x):
        nd = nfa.nodes[x]
        if nd[0] == 'split':
            return nd[1]
        if nd[0] == 'char':
            return [nd[2]] if nd[1] else []
        return []
    reach = set()
    todo = [start]
    while todo:
        x = todo.pop()
        if x in reach:
            continue
        reach.add(x)
        todo.extend(succ(x))
    return any(nfa.nodes[x][0] == 'char' and ch in nfa.nodes[x][1] for x in reach)
