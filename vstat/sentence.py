"""Sentential forms of the Verilog grammar with symbolic leaves, derived and composed."""
from .deriv import Deriver, compose
from .engine import Budget, Info, K, Sym
from .grammar import Grammar
from .lalr import Lalr, precedence_of

KEYTEXT = {
    'SENS_OR': 'or', 'SUPPLY0': 'supply0', 'SUPPLY1': 'supply1', 'POSEDGE': 'posedge', 'NEGEDGE': 'negedge',
}
_punct = {'LPAREN': '(', 'RPAREN': ')', 'LBRACKET': '[', 'RBRACKET': ']', 'LBRACE': '{', 'RBRACE': '}', 'COMMA': ',',
          'COLON': ':', 'SEMICOLON': ';', 'DOT': '.', 'EQUALS': '=', 'DELAY': '#', 'AT': '@', 'DOLLER': '$',
          'PLUSCOLON': '+:', 'MINUSCOLON': '-:', 'COND': '?'}
FREE = ('ID', 'INTNUMBER_DEC', 'SIGNED_INTNUMBER_DEC', 'INTNUMBER_HEX', 'SIGNED_INTNUMBER_HEX', 'INTNUMBER_OCT',
        'SIGNED_INTNUMBER_OCT', 'INTNUMBER_BIN', 'SIGNED_INTNUMBER_BIN', 'FLOATNUMBER', 'STRING_LITERAL')
KEYWORDS = '''MODULE ENDMODULE BEGIN END GENERATE ENDGENERATE GENVAR FUNCTION ENDFUNCTION TASK ENDTASK INPUT INOUT
OUTPUT TRI REG LOGIC WIRE INTEGER REAL SIGNED PARAMETER LOCALPARAM SUPPLY0 SUPPLY1 ASSIGN ALWAYS ALWAYS_FF ALWAYS_COMB
ALWAYS_LATCH SENS_OR POSEDGE NEGEDGE INITIAL IF ELSE FOR WHILE CASE CASEX CASEZ UNIQUE ENDCASE DEFAULT WAIT FOREVER
DISABLE FORK JOIN'''.split()


# representatives of leaf nonterminals and surroundings of start nonterminals for the automaton
REPS = {
    'basic_statement': 'ID EQUALS ID SEMICOLON', 'standard_item': 'ASSIGN ID EQUALS ID SEMICOLON',
    'generate_item': 'ASSIGN ID EQUALS ID SEMICOLON', 'item': 'ASSIGN ID EQUALS ID SEMICOLON',
    'definition': 'MODULE ID SEMICOLON ENDMODULE', 'pointer': 'ID LBRACKET ID RBRACKET', 'expression': 'ID',
    'rvalue': 'ID', 'lvalue': 'ID', 'identifier': 'ID', 'concat': 'LBRACE ID RBRACE',
}
_E = ('MODULE ID SEMICOLON ASSIGN ID EQUALS', 'SEMICOLON ENDMODULE')
CONTEXTS = {
    'expression': [_E, ('MODULE ID SEMICOLON INITIAL ID EQUALS ID LBRACKET', 'RBRACKET SEMICOLON ENDMODULE')],
    'rvalue': [_E],
    'lvalue': [('MODULE ID SEMICOLON ASSIGN', 'EQUALS ID SEMICOLON ENDMODULE'),
               ('MODULE ID SEMICOLON INITIAL', 'EQUALS ID SEMICOLON ENDMODULE')],
    'basic_statement': [('MODULE ID SEMICOLON INITIAL BEGIN', 'END ENDMODULE')],
    'item': [('MODULE ID SEMICOLON', 'ENDMODULE')],
    'standard_item': [('MODULE ID SEMICOLON', 'ENDMODULE'), ('MODULE ID SEMICOLON GENERATE', 'ENDGENERATE ENDMODULE')],
}


class Sentences(object):
    def __init__(self, repo, limit=6):
        self.repo = repo
        self.G = Grammar(repo).analyse()
        self.D = Deriver(self.G, limit=limit)
        self.used = set()
        self._lalr = None

    def leaf(self, sym, i):
        """(value term, Info) of the i-th symbol of a form."""
        if sym in self.G.nts:
            v = Sym('%s$%d' % (sym, i + 1))
            ts = self.G.types.get(sym) or set()
            nodes = frozenset(t for t in ts if t.startswith('vparser.'))
            if ts and len(nodes) == len(ts):
                return v, Info(truth=True, types=nodes)
            if ts and ts - nodes == {'None'}:
                return v, Info(truth=True, types=nodes)
            if ts == {'str'}:
                return v, Info(truth=True, isstr=True)
            if ts == {'tuple'} or ts == {'list'}:
                return v, Info(isseq=True)
            return v, Info(truth=True)
        if sym in FREE:
            return Sym('%s$%d' % (sym, i + 1)), Info(truth=True, isstr=True)
        if sym in KEYWORDS:
            return K(KEYTEXT.get(sym, sym.lower())), None
        if sym in _punct:
            return K(_punct[sym]), None
        return Sym('%s$%d' % (sym, i + 1)), Info(truth=True, isstr=True)

    def missing(self, form):
        """(unknown nonterminal-like names, terminals that no production uses)."""
        low = [s for s, _ in form if s not in self.G.nts and s.lower() == s]
        up = [s for s, _ in form if s not in self.G.nts and s.lower() != s and s not in self.G.terminals]
        return low, up

    @property
    def lalr(self):
        if self._lalr is None:
            self._lalr = Lalr(self.G, precedence_of(self.repo, self.G.cls))
        return self._lalr

    def trees(self, start, syms):
        """The parse(s) of the form: the automaton's own when it can be told, else all of the grammar's.
        -> (trees, accepted) ; accepted False when the grammar derives the form but the automaton errs."""
        every = self.D.derive(start, syms)
        if not every:
            return [], True
        ctxs = [(a.split(), b.split()) for a, b in CONTEXTS.get(start, ())]
        ctxs = [c for c in ctxs if all(x in self.G.terminals for x in c[0] + c[1])]
        ctxs.append(self.lalr.context(start))
        reps = dict((k, v.split()) for k, v in REPS.items() if k in self.G.nts)
        got = []
        for c in ctxs:
            if c is None:
                continue
            for alt in ({}, {'expression': ['INTNUMBER_DEC'], 'rvalue': ['INTNUMBER_DEC']}):
                if any(t not in self.G.terminals for v in alt.values() for t in v):
                    continue
                got.append(self.lalr.tree_for(start, syms, dict(reps, **alt), c))
                if got[-1]:
                    return [got[-1]], True
        if all(g is None for g in got) and got:
            return every, False
        return every, True

    def compose(self, start, form, budget=400000):
        """Every parse of the form, composed.  form: [(symbol, label)] -> (results, env)."""
        syms = [s for s, _ in form]
        trees, self.accepted = self.trees(start, syms)
        vals, infos, env, lines = [], {}, {}, []
        for i, (s, lab) in enumerate(form):
            v, inf = self.leaf(s, i)
            if inf is not None:
                infos[v] = inf
            vals.append(v)
            ln = Sym('L%d' % (i + 1))
            infos[ln] = Info(isint=True, truth=True)
            lines.append(ln)
            if lab:
                env[lab] = v
        out = []
        for t in trees:
            for p in t.prods():
                self.used.add(p.name)
            try:
                c = compose(self.repo, self.G.cls, t, vals, lines, infos=infos, budget=budget)
            except Budget:
                c = None
            out.append(c)
        return out, env, vals, lines
