"""Abstract evaluation of the code generator on closed trees whose leaves are uninterpreted words.

The generator's classes and functions are interpreted from source; the templates are parsed (never rendered)
with jinja2's own parser and their syntax trees evaluated here; textwrap.indent and functools.partial are modelled."""
import textwrap

from .engine import Budget, K, NONE, RaiseSig, T, isK, kv, mk, show
from .repo import AnalysisBroken


class Undecided(Exception):
    pass


class TemplateError(Exception):
    """Rendering would fail."""


class Loop(object):
    def __init__(self, i, n):
        self.index, self.index0, self.length = i + 1, i, n
        self.first, self.last = i == 0, i == n - 1
        self.revindex, self.revindex0 = n - i, n - i - 1


class Undef(object):
    pass


UNDEF = Undef()


class Templates(object):
    def __init__(self, repo):
        self.repo = repo
        self.cache = {}

    def parse(self, name, opts):
        key = (name, tuple(sorted(opts.items())))
        if key not in self.cache:
            import jinja2
            src = self.repo.templates.get(name)
            if src is None:
                self.cache[key] = None
            else:
                try:
                    self.cache[key] = jinja2.Environment(**opts).parse(src)
                except jinja2.TemplateSyntaxError as e:
                    self.cache[key] = 'syntax: %s' % e
        return self.cache[key]

    def render(self, name, opts, values):
        t = self.parse(name, opts)
        if t is None:
            raise TemplateError('template %s does not exist' % name)
        if isinstance(t, str):
            raise TemplateError('template %s: %s' % (name, t))
        env = dict(values)
        return ''.join(self.stmts(t.body, env, name))

    # ---- statements
    def stmts(self, body, env, name):
        out = []
        for n in body:
            k = type(n).__name__
            if k == 'Output':
                for x in n.nodes:
                    if type(x).__name__ == 'TemplateData':
                        out.append(x.data)
                    else:
                        out.append(self.text(self.ev(x, env, name)))
            elif k == 'If':
                if self.truth(self.ev(n.test, env, name)):
                    out += self.stmts(n.body, env, name)
                else:
                    for e in n.elif_:
                        if self.truth(self.ev(e.test, env, name)):
                            out += self.stmts(e.body, env, name)
                            break
                    else:
                        out += self.stmts(n.else_, env, name)
            elif k == 'For':
                it = self.ev(n.iter, env, name)
                if it is UNDEF:
                    it = []
                if not isinstance(it, (list, tuple, str)):
                    raise TemplateError('template %s iterates over %r' % (name, it))
                items = list(it)
                if n.test is not None:
                    raise Undecided('loop filter')
                if not items:
                    out += self.stmts(n.else_, env, name)
                for i, v in enumerate(items):
                    e2 = dict(env)
                    e2['loop'] = Loop(i, len(items))
                    self.bind(n.target, v, e2)
                    out += self.stmts(n.body, e2, name)
            elif k == 'Assign':
                self.bind(n.target, self.ev(n.node, env, name), env)
            else:
                raise Undecided('template statement ' + k)
        return out

    def bind(self, t, v, env):
        if type(t).__name__ == 'Name':
            env[t.name] = v
        elif type(t).__name__ == 'Tuple' and len(t.items) == len(v):
            for a, b in zip(t.items, v):
                self.bind(a, b, env)
        else:
            raise Undecided('template target')

    def truth(self, v):
        return False if v is UNDEF else bool(v)

    def text(self, v):
        if v is UNDEF:
            return ''
        if isinstance(v, (str, int, float)) or v is None:
            return str(v)
        raise Undecided('printing %r' % (v,))

    # ---- expressions
    def ev(self, n, env, name):
        k = type(n).__name__
        if k == 'Const':
            return n.value
        if k == 'TemplateData':
            return n.data
        if k == 'Name':
            return env.get(n.name, UNDEF)
        if k in ('List', 'Tuple'):
            return [self.ev(x, env, name) for x in n.items]
        if k == 'Compare':
            left = self.ev(n.expr, env, name)
            for o in n.ops:
                r = self.ev(o.expr, env, name)
                if not self.cmp(o.op, left, r):
                    return False
                left = r
            return True
        if k == 'And':
            a = self.ev(n.left, env, name)
            return self.ev(n.right, env, name) if self.truth(a) else a
        if k == 'Or':
            a = self.ev(n.left, env, name)
            return a if self.truth(a) else self.ev(n.right, env, name)
        if k == 'Not':
            return not self.truth(self.ev(n.node, env, name))
        if k == 'CondExpr':
            if self.truth(self.ev(n.test, env, name)):
                return self.ev(n.expr1, env, name)
            return self.ev(n.expr2, env, name) if n.expr2 is not None else UNDEF
        if k == 'Neg':
            return -self.ev(n.node, env, name)
        if k in ('Add', 'Sub', 'Mul', 'Concat'):
            if k == 'Concat':
                return ''.join(self.text(self.ev(x, env, name)) for x in n.nodes)
            a, b = self.ev(n.left, env, name), self.ev(n.right, env, name)
            try:
                return a + b if k == 'Add' else a - b if k == 'Sub' else a * b
            except TypeError as e:
                raise TemplateError('template %s: %s' % (name, e))
        if k == 'Getitem':
            a = self.ev(n.node, env, name)
            if type(n.arg).__name__ == 'Slice':
                g = [self.ev(x, env, name) if x is not None else None for x in (n.arg.start, n.arg.stop, n.arg.step)]
                return a[slice(*g)]
            i = self.ev(n.arg, env, name)
            if a is UNDEF:
                raise TemplateError('template %s indexes an undefined name' % name)
            try:
                return a[i]
            except (IndexError, KeyError):
                return UNDEF
            except TypeError:
                if isinstance(i, str):
                    return self.attr(a, i, name)
                return UNDEF
        if k == 'Getattr':
            return self.attr(self.ev(n.node, env, name), n.attr, name)
        if k == 'Call':
            f = self.ev(n.node, env, name)
            args = [self.ev(x, env, name) for x in n.args]
            if f is UNDEF:
                raise TemplateError('template %s calls an undefined name' % name)
            if n.kwargs or not (isinstance(f, tuple) and f[0] == 'meth'):
                raise Undecided('template call')
            return getattr(f[1], f[2])(*args)
        if k == 'Filter':
            v = self.ev(n.node, env, name)
            args = [self.ev(x, env, name) for x in n.args]
            if n.name == 'join':
                return (self.text(args[0]) if args else '').join(self.text(x) for x in v)
            if n.name in ('length', 'count'):
                return len(v)
            if n.name == 'trim':
                return self.text(v).strip()
            if n.name in ('lower', 'upper', 'string', 'safe'):
                v = self.text(v)
                return {'lower': v.lower(), 'upper': v.upper()}.get(n.name, v)
            if n.name in ('default', 'd') and args:
                return args[0] if v is UNDEF else v
            if n.name in ('first', 'last') and v:
                return v[0 if n.name == 'first' else -1]
            if n.name == 'indent':
                pad = args[0] if args else 4
                return self.text(v).replace('\n', '\n' + (' ' * pad if isinstance(pad, int) else pad))
            raise Undecided('template filter ' + n.name)
        if k == 'Test':
            v = self.ev(n.node, env, name)
            if n.name == 'defined':
                return v is not UNDEF
            if n.name == 'none':
                return v is None
            if n.name == 'undefined':
                return v is UNDEF
            raise Undecided('template test ' + n.name)
        raise Undecided('template expression ' + k)

    def attr(self, a, name, tname):
        if isinstance(a, Loop) and hasattr(a, name):
            return getattr(a, name)
        if a is UNDEF:
            raise TemplateError('template %s reads .%s of an undefined name' % (tname, name))
        if isinstance(a, (str, list)) and name in ('count', 'startswith', 'endswith', 'strip', 'rstrip', 'lstrip', 'replace',
                                                   'find', 'index', 'split', 'join', 'lower', 'upper'):
            return ('meth', a, name)
        if isinstance(a, (str, list, int)):
            return UNDEF
        raise Undecided('template attribute ' + name)

    def cmp(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            if op in ('eq', 'ne'):
                return (a is b) == (op == 'eq')
            raise Undecided('comparison with an undefined name')
        try:
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'gt': lambda: a > b,
                    'lteq': lambda: a <= b, 'gteq': lambda: a >= b, 'in': lambda: a in b,
                    'notin': lambda: a not in b}[op]()
        except TypeError as e:
            raise TemplateError(str(e))


REFUNCS = ('sub', 'match', 'search', 'fullmatch', 'split', 'findall')


def to_py(v, E, st):
    v = E.simp(v, st)
    if v.k == 'K':
        return kv(v)
    if v.k == 'Ref':
        r = st.heap[v.a[0]]
        if r.kind == 'list':
            return [to_py(x, E, st) for x in r.data]
        if r.kind == 'dict' and not r.extra:
            return dict((kv(k), to_py(x, E, st)) for k, x in r.data.items() if k.k == 'K')
        raise TemplateError('a node object is passed to a template')
    if v.k in ('Tup', 'List'):
        return [to_py(x, E, st) for x in v.a[0]]
    raise Undecided('value %s' % show(v, 3))


class Printer(object):
    """hooks an engine so that the generator's external calls are modelled."""

    def __init__(self, repo, cls='ast_code_generator.codegen.ASTCodeGenerator'):
        self.repo = repo
        self.T = Templates(repo)
        self.cls = repo.cls(cls)
        self.why = None

    def hook(self, old):
        def f(E, target, args, kwargs, st):
            k = target.k
            if k == 'Ext':
                n = target.a[0]
                if n == 'functools.partial' and args:
                    return mk('Partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
                if n == 'textwrap.indent' and args and args[0].k == 'K':
                    pre = kwargs.get('prefix', args[1] if len(args) > 1 else None)
                    if pre is not None and pre.k == 'K' and 'predicate' not in kwargs and len(args) < 3:
                        return K(textwrap.indent(kv(args[0]), kv(pre)))
                if n == 'textwrap.dedent' and args and args[0].k == 'K':
                    return K(textwrap.dedent(kv(args[0])))
                if n == 're.compile' and args and all(x.k == 'K' for x in args) and not kwargs:
                    return mk('Regex', tuple(kv(x) for x in args))
                if n.startswith('re.') and n[3:] in REFUNCS and args and args[0].k in ('K', 'Regex'):
                    pat = (kv(args[0]),) if args[0].k == 'K' else args[0].a[0]
                    return self.regex(E, st, n[3:], pat, args[1:], kwargs)
            if k == 'Attr':
                x = target.a[0]
                if x.k == 'Call' and x.a[0].k == 'Ext' and x.a[0].a[0] == 'jinja2.Environment':
                    if target.a[1] in ('get_template', 'select_template') and args:
                        if args[0].k != 'K':
                            raise Undecided('template name %s' % show(args[0]))
                        opts = []
                        for o, v in x.a[2]:
                            if v.k == 'K':
                                opts.append((o, kv(v)))
                        return mk('Template', kv(args[0]), tuple(opts))
                if x.k == 'Regex' and target.a[1] in REFUNCS:
                    return self.regex(E, st, target.a[1], x.a[0], args, kwargs)
                if x.k == 'Match' and not kwargs and all(y.k == 'K' for y in args):
                    import re
                    m = re.compile(*x.a[0]).match(x.a[1], x.a[2]) if x.a[3] != 'fullmatch' else re.compile(*x.a[0]).fullmatch(x.a[1])
                    if m is not None and target.a[1] in ('group', 'groups', 'start', 'end', 'span'):
                        r = getattr(m, target.a[1])(*[kv(y) for y in args])
                        return mk('Tup', tuple(K(y) for y in r)) if isinstance(r, tuple) else K(r)
                if x.k == 'Template' and target.a[1] == 'render':
                    d = {}
                    for a in args:
                        q = to_py(a, E, st) if a.k != 'Dict' else dict((kv(kk), to_py(v, E, st)) for kk, v in a.a[0])
                        d.update(q)
                    for kk, v in kwargs.items():
                        d[kk] = to_py(v, E, st)
                    return K(self.T.render(x.a[0], dict(x.a[1]), d))
            if old is not None:
                return old(E, target, args, kwargs, st)
            return NotImplemented
        return f

    def regex(self, E, st, fn, pat, args, kwargs):
        """A function of module re on constant text; a replacement function is interpreted per match."""
        import re
        rx = re.compile(*pat)
        if fn == 'sub' and len(args) == 2 and not kwargs and args[1].k == 'K':
            text = kv(args[1])
            if args[0].k == 'K':
                return K(rx.sub(kv(args[0]), text))
            out = []
            pos = 0
            for m in rx.finditer(text):
                r = E.simp(E.call(args[0], [mk('Match', pat, text, m.start(), 'sub')], {}, st), st)
                if r.k != 'K' or r.a[0] != 'str':
                    raise Undecided('replacement %s' % show(r, 3))
                out.append(text[pos:m.start()] + kv(r))
                pos = m.end()
            return K(''.join(out) + text[pos:])
        if not all(x.k == 'K' for x in args) or kwargs:
            raise Undecided('re.' + fn)
        r = getattr(rx, fn)(*[kv(x) for x in args])
        if fn in ('match', 'search', 'fullmatch'):
            return NONE if r is None else mk('Match', pat, kv(args[0]), r.start(), fn)
        if fn in ('split', 'findall') and all(isinstance(x, (str, type(None))) for x in r):
            return E.new_list([K(x) for x in r], st) if hasattr(E, 'new_list') else mk('List', tuple(K(x) for x in r))
        raise Undecided('re.' + fn)

    def text(self, E, st, ref):
        """Text generated for the tree at ref (K str), ('raise', exc) or ('unknown', why)."""
        E.on_opaque = self.hook(E.on_opaque)
        E.recurse = True
        E.max_depth = 300
        try:
            g = E.instantiate(self.cls, [], {}, st)
            v = E.call(E.getattr(g, 'visit', st), [ref], {}, st)
            v = E.simp(v, st)
        except RaiseSig as x:
            return 'raise', x.exc
        except TemplateError as x:
            return 'raise', str(x)
        except (Undecided, Budget) as x:
            return 'unknown', str(x)
        if v.k == 'K' and v.a[0] == 'str':
            return 'text', kv(v)
        return 'unknown', show(v, 5)
