"""Source lines.  Along the same derivations as the tree checks every leaf sits on its own symbolic line.
The composed value graphs then say, for every node an action builds, which token's line it carries: the
root of a construct carries the line of its first token (a delayed substitution: of its left value), an
inner node a line inside the construct and not past its own first leaf, and never behind its preceding
sibling; the end line of a statement is the line of its last token or the end line of its last part.
The lexer's line counter is judged from the token regular expressions: every rule whose language contains
a newline adds the number of newlines of the matched text, and no other rule moves the counter."""
from ..engine import K, NONE, Sym, kv, show, subterms
from ..sentence import Sentences
from ..spec_grammar import FORMS, parse_forms
from ..spec_lists import TEXT as LISTS
from ..termspec import imprecise
from . import c02
from .c01 import form_name, where_of
from .. import lexlines

ASSUMPTIONS = [
    'PLY gives a token the lexer line at its first character and a nonterminal the line its action sets (0 otherwise)',
    'declared names of one declaration share the line of the first name (the tree keeps one line per list)',
    'nodes without source text (the implicit sensitivity list, an absent parameter list) have no line',
]

NOTEXT = ('Paramlist', 'SensList', 'Sens')
SHARED = ('Input', 'Output', 'Inout', 'Wire', 'Reg', 'Tri', 'Supply', 'Integer', 'Real', 'Genvar', 'Parameter',
          'Localparam', 'Instance', 'IdentifierScopeLabel')
NAMED = SHARED + ('Ioport',)
# the tree of these forms is their operand itself
STMT_STARTS = ('basic_statement', 'function_calc', 'task_calc')


class Lines(object):
    def __init__(self, ctx, S):
        self.ctx, self.S = ctx, S

    def run(self, start, form):
        ctx, S = self.ctx, self.S
        key = form_name(start, form)
        low, up = S.missing(form)
        if low or start not in S.G.nts:
            ctx.unknown('line', key, 'nonterminals missing')
            return
        res, env, vals, lines = S.compose(start, form)
        if len(res) != 1 or res[0] is None or res[0].raises is not None:
            ctx.unknown('line', key, 'no single composed tree')
            return
        c = res[0]
        self.idx = dict((v, i) for i, v in enumerate(vals) if v.k == 'Sym')
        self.lidx = dict((v, i) for i, v in enumerate(lines))
        self.form = form
        self.key = key
        self.where = where_of(c)
        self.problems = []
        self.nodes = 0
        self.unsure = False
        self.visit(c.value, True, -1)
        rootline = None
        if c.value.k == 'Inst':
            rootline = dict(c.value.a[1]).get('lineno')
        sp = self.span(c.value)
        okl = set([lines[0]])
        if rootline is not None:
            okl.add(rootline)
        if sp:
            okl.add(lines[sp[0]])
        if c.line not in okl:
            if c.line.k == 'Gam' and all(x in okl for x in c.line.a[1:]):
                pass
            elif imprecise(c.line):
                self.unsure = True
            else:
                self.problems.append(('nonterminal', 'the nonterminal %s built from "%s" gets line %s instead of the line of '
                                      'its first token' % (start, self.text(), self.lname(c.line))))
        if start in STMT_STARTS or (c.value.k == 'Inst' and 'end_lineno' in dict(c.value.a[1])):
            self.end(c.value, start)
        for what, msg in self.problems:
            ctx.bad('line', key + ':' + what, msg, self.where)
        if not self.problems:
            if self.unsure:
                ctx.unknown('line', key, 'not decided')
            else:
                ctx.ok('line', '%s (%d nodes)' % (key, self.nodes))

    def text(self):
        return ' '.join(s for s, _ in self.form)

    def lname(self, t):
        if t in self.lidx:
            i = self.lidx[t]
            return 'of %s (#%d)' % (self.form[i][0], i + 1)
        return show(t, 4)

    def span(self, t):
        ii = [self.idx[x] for x in subterms(t) if x in self.idx]
        return (min(ii), max(ii)) if ii else None

    def visit(self, t, root, after):
        if t.k == 'Gam':
            self.visit(t.a[1], root, after)
            self.visit(t.a[2], root, after)
        elif t.k in ('Tup', 'List'):
            for x in t.a[0]:
                mine = self.span(x)
                self.visit(x, False, min(after, mine[0] - 1) if mine else after)
                if mine:
                    after = max(after, mine[1])
        elif t.k == 'Inst':
            self.node(t, root, after)
            for n, v in t.a[1]:
                if n not in ('lineno', 'end_lineno'):
                    self.visit(v, False, -1)

    def node(self, t, root, after):
        d = dict(t.a[1])
        cls = t.a[0].rpartition('.')[2]
        if 'lineno' not in d:
            return
        self.nodes += 1
        ls = [d['lineno']]
        if ls[0].k == 'Gam':
            ls = list(ls[0].a[1:])
        sp = self.span(t)
        for l in ls:
            if l not in self.lidx:
                if imprecise(l) or l.k in ('Sym', 'Call', 'Item', 'Attr', 'Gam'):
                    # the line of a leaf sub-tree is a line of this construct
                    if l.k == 'Attr' and l.a[1] == 'lineno' and l.a[0] in self.idx:
                        k = self.idx[l.a[0]]
                    else:
                        self.unsure = True
                        continue
                elif cls in NOTEXT and (sp is None) and l.k == 'K':
                    continue
                else:
                    self.problems.append((cls, '%s built from "%s" carries line %s, which is no line of its text' % (
                        cls, self.text(), show(l, 4))))
                    continue
            else:
                k = self.lidx[l]
            if root:
                left = d.get('left')
                lsp = self.span(left) if left is not None else None
                if k != 0 and not (cls.endswith('Substitution') and lsp and k == lsp[0]):
                    self.problems.append((cls, '%s built from "%s" carries the line %s instead of its first token\'s' % (
                        cls, self.text(), self.lname(l))))
                continue
            own = set()
            for f in ('name', 'left', 'var'):
                q = self.span(d[f]) if f in d else None
                if q:
                    own.add(q[0])
            if sp and k > sp[0] and k not in own and not (cls in NAMED and k <= sp[1]):
                self.problems.append((cls, 'inner %s of "%s" carries the line %s, past its own first leaf' % (
                    cls, self.text(), self.lname(l))))
            elif k <= after and cls not in SHARED:
                self.problems.append((cls, 'inner %s of "%s" carries the line %s of what precedes it' % (
                    cls, self.text(), self.lname(l))))

    def end(self, t, start):
        if t.k == 'Gam':
            self.end(t.a[1], start)
            self.end(t.a[2], start)
            return
        if t.k != 'Inst':
            return
        d = dict(t.a[1])
        cls = t.a[0].rpartition('.')[2]
        n = len(self.form) - 1
        if 'end_lineno' not in d:
            if start in STMT_STARTS:
                self.problems.append((cls + '.end', '%s built from "%s" has no end line (always and if read it)' % (cls, self.text())))
            return
        es = [d['end_lineno']]
        out = []
        while es:
            e = es.pop()
            if e.k == 'Gam':
                es += [e.a[1], e.a[2]]
            else:
                out.append(e)
        for e in out:
            if e in self.lidx:
                if self.lidx[e] == n:
                    continue
            elif e.k == 'Attr' and e.a[1] == 'end_lineno' and self.idx.get(e.a[0]) == n:
                continue
            elif e.k in ('GetAttr', 'Call') or imprecise(e):
                self.unsure = True
                continue
            if cls in ('FunctionDef',):
                continue
            self.problems.append((cls + '.end', 'the end line of %s built from "%s" is %s, not that of its last token' % (
                cls, self.text(), self.lname(e))))


def check(ctx):
    S = Sentences(ctx.repo)
    L = Lines(ctx, S)
    for start, form, want in parse_forms(FORMS + LISTS):
        if want != 'REJECT':
            L.run(start, form)
    for rule, line in c02.forms(ctx.tier == 'thorough'):
        for start, form, want in parse_forms(line):
            if want != 'REJECT':
                L.run(start, form)
    for p in S.G.prods:
        ctx.functions.add(p.func.qual)
    lexlines.check(ctx)
    ctx.floor('line', 250)
