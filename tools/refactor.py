"""rf.py KINDS DEST SEED PROB [filefilter] : behaviour-preserving rewrites of the whole package into DEST/pyverilog."""
import ast, os, random, sys, copy, shutil, re
kinds, dest, seed, prob = sys.argv[1].split(','), sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
ff = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
rnd = random.Random(seed)
N = [0]
def yes():
    r = rnd.random() < prob
    if r: N[0] += 1
    return r
def nm(p):
    N.append(0); return '_%s%d' % (p, len(N))
def names(n, ctx=None):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]
def has(n, *t):
    return any(isinstance(x, t) for x in ast.walk(n))
def loadn(x): return ast.Name(x, ast.Load())
def store(x): return ast.Name(x, ast.Store())
class T(ast.NodeTransformer):
    infn = 0
    def visit_FunctionDef(self, n):
        self.infn += 1
        n.body = self.block(n.body)
        self.infn -= 1
        if self.infn: return n
        if 'rename' in kinds and not has(n, ast.Global, ast.Nonlocal, ast.Lambda) and sum(isinstance(x, ast.FunctionDef) for x in ast.walk(n)) == 1:
            params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
            loc = {x for x in names(n, ast.Store)} - params
            imp = {(a.asname or a.name) for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
            mp = {l: l + '_v' for l in loc - imp if yes()}
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in mp: x.id = mp[x.id]
                if isinstance(x, ast.ExceptHandler) and x.name in mp: x.name = mp[x.name]
        return n
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            s = self.visit(s)
            out.append(s)
            if 'extract' in kinds and isinstance(s, ast.FunctionDef) and not s.name.startswith('__') and not s.decorator_list \
               and not has(s, ast.Yield) and 'super' not in names(s) and not s.args.vararg and not s.args.kwarg and len(s.body) > 1 and yes():
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                rest = s.body[len(doc):]
                if not rest: continue
                a = [x.arg for x in s.args.args]
                h = ast.FunctionDef('_do_' + s.name, ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), rest, [], None)
                h.type_params = []
                s.body = doc + [ast.Return(ast.Call(ast.Attribute(loadn(a[0]), h.name, ast.Load()), [loadn(x) for x in a[1:]], []))]
                out.append(h)
        n.body = out
        return n
    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if 'elseret' in kinds and isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b) and yes():
                s.orelse = b[i+1:]
                b = b[:i+1]
            r = self.stmt(s)
            out.extend(r)
            i += 1
        if 'unelse' in kinds and out and isinstance(out[-1], ast.If) and out[-1].orelse and isinstance(out[-1].body[-1], (ast.Return, ast.Raise)) and yes():
            s = out[-1]
            out = out + s.orelse
            s.orelse = []
        return out
    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)): return [self.visit(s)]
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(s, f, None): setattr(s, f, self.block(getattr(s, f)))
        for h in getattr(s, 'handlers', []): h.body = self.block(h.body)
        s = self.exprs(s)
        if not self.infn: return [s]
        if 'negif' in kinds and isinstance(s, ast.If) and s.orelse and yes():
            s.test = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else ast.UnaryOp(ast.Not(), s.test)
            s.body, s.orelse = s.orelse, s.body
        if 'splitcond' in kinds and isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and yes():
            vs = s.test.values
            inner = ast.If(vs[-1], s.body, [])
            s = ast.If(vs[0] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[:-1]), [inner], [])
        if 'mergecond' in kinds and isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and yes():
            s = ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])
        if 'tmp' in kinds and isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and yes():
            v = nm('r')
            return [ast.Assign([store(v)], s.value), ast.Return(loadn(v))]
        if 'tmpcond' in kinds and isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and yes():
            v = nm('c'); t = s.test; s.test = loadn(v)
            return [ast.Assign([store(v)], t), s]
        if 'tmparg' in kinds and isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and s.value.args and not any(isinstance(a, ast.Starred) for a in s.value.args) and yes():
            pre = []
            if not has(s.value.func, ast.Call):
                for k, a in enumerate(s.value.args):
                    if not isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp)):
                        v = nm('a'); pre.append(ast.Assign([store(v)], a)); s.value.args[k] = loadn(v)
            return pre + [s]
        if 'while' in kinds and isinstance(s, ast.For) and not s.orelse and yes():
            l, i = nm('l'), nm('i')
            return [ast.Assign([store(l)], ast.Call(loadn('list'), [s.iter], [])), ast.Assign([store(i)], ast.Constant(0)),
                    ast.While(ast.Compare(loadn(i), [ast.Lt()], [ast.Call(loadn('len'), [loadn(l)], [])]),
                              [ast.Assign([s.target], ast.Subscript(loadn(l), loadn(i), ast.Load())), ast.AugAssign(store(i), ast.Add(), ast.Constant(1))] + s.body, [])]
        if 'rangefor' in kinds and isinstance(s, ast.For) and yes():
            l, i = nm('l'), nm('i')
            return [ast.Assign([store(l)], ast.Call(loadn('list'), [s.iter], [])),
                    ast.For(store(i), ast.Call(loadn('range'), [ast.Call(loadn('len'), [loadn(l)], [])], []),
                            [ast.Assign([s.target], ast.Subscript(loadn(l), loadn(i), ast.Load()))] + s.body, s.orelse)]
        if 'unenum' in kinds and isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and yes():
            i = nm('i'); it = s.iter.args[0]
            return [ast.Assign([store(i)], ast.Constant(0)), ast.For(s.target.elts[1], it, [ast.Assign([s.target.elts[0]], loadn(i)), ast.AugAssign(store(i), ast.Add(), ast.Constant(1))] + s.body, s.orelse)]
        if 'uncomp' in kinds and isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and yes():
            g = s.value.generators[0]; v = nm('v')
            ren = {x: nm('x') for x in names(g.target)}
            for y in ast.walk(s.value):
                if isinstance(y, ast.Name) and y.id in ren: y.id = ren[y.id]
            body = [ast.Expr(ast.Call(ast.Attribute(loadn(v), 'append', ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            out = [ast.Assign([store(v)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
            s.value = loadn(v)
            return out + [s]
        if 'ifexp2if' in kinds and isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp) and yes():
            return [ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])]
        if 'ifexp2if' in kinds and isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and yes():
            return [ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])]
        if 'if2ifexp' in kinds and isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
           and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and len(s.body[0].targets) == 1 and yes():
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        if 'if2ifexp' in kinds and isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value and yes():
            return [ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        if 'append' in kinds and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and yes():
            s.value.func.attr = 'extend'
            s.value.args = [ast.List(s.value.args, ast.Load())]
        if 'aug' in kinds and isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, (ast.Constant, ast.Name)) and yes() and isinstance(s.value, ast.Constant):
            return [ast.Assign([s.target], ast.BinOp(loadn(s.target.id), s.op, s.value))]
        if 'dead' in kinds and isinstance(s, (ast.Return, ast.If, ast.Assign, ast.For)) and yes():
            return [ast.Assign([store('_unused')], ast.Constant(None)), s]
        if 'tuple' in kinds and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and yes(): return [s]
        return [s]
    def exprs(self, s):
        for f, v in ast.iter_fields(s):
            if f in ('body', 'orelse', 'finalbody', 'handlers', 'decorator_list'): continue
            if isinstance(v, ast.AST): setattr(s, f, X().visit(v))
            elif isinstance(v, list): setattr(s, f, [X().visit(x) if isinstance(x, ast.AST) else x for x in v])
        return s
class X(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) and 'isinst' in kinds and isinstance(n.args[0], (ast.Name, ast.Attribute)) and yes():
            return ast.BoolOp(ast.Or(), [ast.Call(loadn('isinstance'), [n.args[0], t], []) for t in n.args[1].elts])
        if 'joinlist' in kinds and isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and n.args and isinstance(n.args[0], ast.GeneratorExp) and yes():
            n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        if 'kwargs' in kinds and isinstance(n.func, (ast.Name, ast.Attribute)):
            c = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if c in INIT and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(INIT[c]) and yes():
                n.keywords = [ast.keyword(p, a) for p, a in zip(INIT[c], n.args)] + n.keywords
                n.args = []
        return n
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if 'orisinst' in kinds and isinstance(n.op, ast.Or) and all(isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'isinstance' and not isinstance(v.args[1], ast.Tuple) for v in n.values) \
           and len({ast.dump(v.args[0]) for v in n.values}) == 1 and yes():
            return ast.Call(loadn('isinstance'), [n.values[0].args[0], ast.Tuple([v.args[1] for v in n.values], ast.Load())], [])
        return n
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if 'demorgan' in kinds and isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp) and yes():
            return ast.BoolOp(ast.Or() if isinstance(n.operand.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.operand.values])
        if 'notcmp' in kinds and isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1 and isinstance(n.operand.ops[0], (ast.Eq, ast.In, ast.Is)) and yes():
            o = n.operand
            return ast.Compare(o.left, [{ast.Eq: ast.NotEq, ast.In: ast.NotIn, ast.Is: ast.IsNot}[type(o.ops[0])]()], o.comparators)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if 'swapeq' in kinds and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(n.comparators[0], ast.Constant) and yes():
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        if 'swaplt' in kinds and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and yes():
            return ast.Compare(n.comparators[0], [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()], [n.left])
        if 'notin' in kinds and len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn) and yes():
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if 'fmt' in kinds and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and re.fullmatch(r'(?:[^%{}]|%s)*', n.left.value) and yes():
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if n.left.value.count('%s') == len(args):
                return ast.Call(ast.Attribute(ast.Constant(n.left.value.replace('%s', '{}')), 'format', ast.Load()), args, [])
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        if 'negifexp' in kinds and yes():
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n
INIT = {}
for d, _, fs in os.walk('/repo/pyverilog'):
    for f in fs:
        if f in ('ast.py', 'dataflow.py') and f.endswith('.py'):
            for c in ast.parse(open(os.path.join(d, f)).read()).body:
                if isinstance(c, ast.ClassDef):
                    for m in c.body:
                        if isinstance(m, ast.FunctionDef) and m.name == '__init__' and not m.args.vararg:
                            INIT[c.name] = [a.arg for a in m.args.args[1:]]
if os.path.isdir(dest): shutil.rmtree(dest)
shutil.copytree('/repo', dest, symlinks=True, ignore=shutil.ignore_patterns('.git'))
for d, _, fs in os.walk(dest + '/pyverilog'):
    for f in fs:
        p = os.path.join(d, f)
        if f.endswith('.py') and ff.search(p[len(dest):]):
            t = ast.parse(open(p).read())
            t2 = T()
            t.body = t2.block(t.body)
            ast.fix_missing_locations(t)
            s = ast.unparse(t)
            compile(s, p, 'exec')
            open(p, 'w').write(s + '\n')
print(N[0], 'rewrites')
