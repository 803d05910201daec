"""The lexer as PLY assembles it: token rules in matching order, with resolved regular expressions,
and the abstract effect of every rule function."""
import ast

from .engine import Engine, Info, K, NONE, RaiseSig, St, Sym, isK, kv, mk, show, subterms
from .repo import AnalysisBroken


def class_env(E, c):
    """Names bound by executing the class body abstractly."""
    st = St()
    body = []
    for s in c.node.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[s.name] = E.fn(c.methods[s.name]) if s.name in c.methods else mk('Unk', s.name)
        else:
            body.append(s)
    out = E.block(body, st, c.module)
    res = E.merge_normals(out)
    return dict((n, E.snap(v, res)) for n, v in res.env.items())


class Rule(object):
    __slots__ = ('name', 'token', 'regex', 'func', 'line')


class LexModel(object):
    def __init__(self, repo, cls='vparser.lexer.VerilogLexer'):
        self.repo = repo
        self.cls = repo.cls(cls)
        self.E = Engine(repo)
        self.env = class_env(self.E, self.cls)
        self.flags_verbose = True
        funcs, strs = [], []
        for n in sorted(self.env):
            if not n.startswith('t_') or n in ('t_error', 't_ignore', 't_eof'):
                continue
            r = Rule()
            r.name, r.token = n, n[2:]
            if n in self.cls.methods:
                r.func = self.cls.methods[n]
                r.regex = self.regex_of(r.func)
                r.line = min([r.func.node.lineno] + [d.lineno for d in r.func.node.decorator_list])
                funcs.append(r)
            else:
                v = self.env[n]
                r.func = None
                r.regex = kv(v) if v.k == 'K' and v.a[0] == 'str' else None
                r.line = 0
                strs.append(r)
            if r.regex is None:
                raise AnalysisBroken('regular expression of %s is not a constant' % n)
        funcs.sort(key=lambda r: r.line)
        strs.sort(key=lambda r: len(r.regex), reverse=True)
        self.rules = funcs + strs
        if len(self.rules) < 30:
            raise AnalysisBroken('only %d token rules found' % len(self.rules))
        self.ignore = self.const('t_ignore', '')
        self.reserved = self.dict_const('reserved')
        self.tokens = self.seq_const('tokens')
        self.keywords = self.seq_const('keywords')

    def const(self, n, default=None):
        v = self.env.get(n)
        if v is not None and v.k == 'K':
            return kv(v)
        return default

    def seq_const(self, n):
        v = self.env.get(n)
        if v is None or v.k not in ('Tup', 'List') or not all(x.k == 'K' for x in v.a[0]):
            return None
        return [kv(x) for x in v.a[0]]

    def dict_const(self, n):
        v = self.env.get(n)
        if v is None or v.k != 'Dict' or v.a[1] or not all(k.k == 'K' and x.k == 'K' for k, x in v.a[0]):
            return None
        return dict((kv(k), kv(x)) for k, x in v.a[0])

    def regex_of(self, f):
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'TOKEN' and d.args:
                st = St()
                st.env = dict(self.env)
                v = self.E.ev(d.args[0], st, self.cls.module)
                if v.k == 'K' and v.a[0] == 'str':
                    return kv(v)
                return None
        return f.doc()

    def effect(self, r):
        """(returned term, events, raised) of a rule function on an opaque token."""
        E = Engine(self.repo)
        st = St()
        t = Sym('t')
        E.info[t] = Info(truth=True)
        E.info[mk('Attr', t, 'value')] = Info(isstr=True, truth=True)
        E.info[mk('Attr', t, 'type')] = Info(isstr=True, truth=True)
        recv = E.new_inst(st, self.cls, open_=Sym('self'))
        for n, v in self.env.items():
            pass
        try:
            v = E.call_func(r.func, [t], {}, st, recv=recv)
            return E.snap(v, st), st.ev, None, E
        except RaiseSig as x:
            return None, x.st.ev, x.exc, E
