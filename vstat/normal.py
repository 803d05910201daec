"""Index loops over a list are read as loops over its elements:

    for i in range(len(L)): ... L[i] ...          for i, x in enumerate(L): ... x ...
    i = 0                                         for x in L: ... x ...
    while i < len(L): ... L[i] ...; i += 1

Only loops for which both forms mean the same are rewritten; the rest is left as it is."""
import ast


def key(n):
    return ast.unparse(n)


def simple(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def own(stmts):
    """Nodes of a body with whether they belong to a loop or function inside it."""
    todo = [(s, False) for s in stmts]
    while todo:
        n, inner = todo.pop()
        yield n, inner
        sub = inner or isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda))
        for x in ast.iter_child_nodes(n):
            todo.append((x, sub))


def stores(stmts, name):
    return [n for n, _ in own(stmts) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del))]


def rebinds(stmts, L):
    """Whether L, or L[...], is assigned."""
    lk = key(L)
    for n, _ in own(stmts):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and (key(n) == lk or lk.startswith(key(n) + '.')):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and key(n.value) == lk:
            return True
    return False


def index_of(n, i, L):
    return isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and n.slice.id == i and key(n.value) == key(L)


class Elements(ast.NodeTransformer):
    def __init__(self, i, L, x):
        self.i, self.L, self.x, self.n = i, L, x, 0

    def visit_Subscript(self, n):
        if index_of(n, self.i, self.L):
            self.n += 1
            return ast.copy_location(ast.Name(self.x, ast.Load()), n)
        return self.generic_visit(n)


class Index(ast.NodeTransformer):
    count = 0

    def __init__(self):
        self.fn = None

    def visit_FunctionDef(self, f):
        old, self.fn = self.fn, f
        self.generic_visit(f)
        self.fn = old
        return f

    def fresh(self):
        Index.count += 1
        return '_element%d' % Index.count

    def visit_For(self, s):
        self.generic_visit(s)
        if self.fn is None or not isinstance(s.target, ast.Name):
            return s
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange') and not it.keywords:
            if len(it.args) == 2 and isinstance(it.args[0], ast.Constant) and it.args[0].value == 0 or len(it.args) == 1:
                n = it.args[-1]
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and simple(n.args[0]):
                    L, i = n.args[0], s.target.id
                    if not stores(s.body, i) and not rebinds(s.body, L) and not self.resized(s.body, L):
                        return self.rewrite(s, i, L, s.body, s.orelse, keep=self.loads_outside(s, i))
        return s

    def resized(self, body, L):
        for n, _ in own(body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and key(n.func.value) == key(L):
                if n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'update', 'discard'):
                    return True
        return False

    def loads_outside(self, loop, i):
        inside = set(id(n) for n in ast.walk(loop))
        return any(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(self.fn))

    def rewrite(self, s, i, L, body, orelse, keep):
        x = self.fresh()
        el = Elements(i, L, x)
        new = [el.visit(b) for b in body]
        if not el.n:
            return s
        used = keep or any(isinstance(n, ast.Name) and n.id == i for b in new for n in ast.walk(b))
        if len(new) > 1 and isinstance(new[0], ast.Assign) and len(new[0].targets) == 1 and isinstance(new[0].value, ast.Name) and new[0].value.id == x and el.n == 1:
            target, new = new[0].targets[0], new[1:]        # x = L[i] at the start
        else:
            target = ast.Name(x, ast.Store())
        if used:
            target = ast.Tuple([ast.Name(i, ast.Store()), target], ast.Store())
            it = ast.Call(ast.Name('enumerate', ast.Load()), [L], [])
        else:
            it = L
        out = ast.For(target, it, new, orelse, lineno=s.lineno, col_offset=s.col_offset)
        return ast.fix_missing_locations(ast.copy_location(out, s))

    # ---- while loops, in the block of their start
    def generic_visit(self, n):
        ast.NodeTransformer.generic_visit(self, n)
        if self.fn is not None:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    setattr(n, f, self.block(b))
        return n

    def block(self, b):
        b = list(b)
        for k, s in enumerate(b):
            if isinstance(s, ast.While):
                r = self.while_(b, k, s)
                if r is not None:
                    b[k] = r
        return b

    def while_(self, b, k, s):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        x, o, y = t.left, t.ops[0], t.comparators[0]
        if isinstance(o, ast.Gt):
            x, y = y, x
        elif not isinstance(o, (ast.Lt, ast.NotEq)):
            return None
        if not (isinstance(x, ast.Name) and isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'len' and len(y.args) == 1 and simple(y.args[0])):
            return None
        i, L = x.id, y.args[0]
        for j in range(k - 1, -1, -1):          # i = 0 before the loop
            p = b[j]
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i:
                if not (isinstance(p.value, ast.Constant) and p.value.value == 0 and p.value.value is not False):
                    return None
                break
            if stores([p], i):
                return None
        else:
            return None
        if rebinds(s.body, L):
            return None
        inc = [q for q, p in enumerate(s.body) if self.increment(p, i)]
        if len(inc) != 1 or len(stores(s.body, i)) != 1:
            return None
        q = inc[0]
        if any(isinstance(n, ast.Continue) and not inner_loop(s.body[:q], n) for n, _ in own(s.body[:q])):
            return None         # the index stays
        if any(isinstance(n, ast.Name) and n.id == i for p in s.body[q + 1:] for n in ast.walk(p)):
            return None         # the next index is used
        keep = self.loads_outside(s, i)
        if keep and self.reset_after(b, k, i):
            keep = False
        orelse = s.orelse
        if keep:
            if any(isinstance(n, ast.Break) for n, _ in own(s.body)):
                return None
            orelse = [ast.copy_location(ast.Assign([ast.Name(i, ast.Store())], y), s)] + orelse
        r = self.rewrite(s, i, L, s.body[:q] + s.body[q + 1:], orelse, False)
        return None if r is s else r

    def reset_after(self, b, k, i):
        """Whether every other use of the index belongs to a loop that starts it again."""
        return False

    def increment(self, p, i):
        if isinstance(p, ast.AugAssign):
            return isinstance(p.target, ast.Name) and p.target.id == i and isinstance(p.op, ast.Add) and isinstance(p.value, ast.Constant) and p.value.value == 1
        return isinstance(p, ast.Assign) and key(p) in ('%s = %s + 1' % (i, i), '%s = 1 + %s' % (i, i))


def inner_loop(body, c):
    """Whether a continue belongs to a loop inside the body."""
    def find(n, inside):
        if n is c:
            return inside
        for x in ast.iter_child_nodes(n):
            r = find(x, inside or isinstance(n, (ast.For, ast.While)))
            if r is not None:
                return r
        return None
    return any(find(s, False) for s in body)


def normal(tree):
    return ast.fix_missing_locations(Index().visit(tree))
