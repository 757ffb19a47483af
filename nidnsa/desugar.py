"""Syntax-level rewriting of one list-building idiom into an equivalent one.

    X = []                                   X = []
    for i, v in enumerate(S):                for i, v in enumerate(S):
        X.append(E)                 ==>          t = E
        ... X[i] ...                             ... t ...
                                                 X.append(t)

Valid when the loop index counts from zero, X is empty when the loop starts and the
body mentions X only in that append (first) and as X[i]."""
import ast

_N = [0]


def names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def index_var(loop):
    it = loop.iter
    if not isinstance(it, ast.Call) or not isinstance(it.func, ast.Name) or it.keywords:
        return None
    if it.func.id == "enumerate" and len(it.args) == 1 and isinstance(loop.target, ast.Tuple) and loop.target.elts and isinstance(loop.target.elts[0], ast.Name):
        return loop.target.elts[0].id
    if it.func.id == "range" and len(it.args) == 1 and isinstance(loop.target, ast.Name):
        return loop.target.id
    return None


def is_append(s):
    return (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append"
            and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1 and not s.value.keywords)


class _Sub(ast.NodeTransformer):
    def __init__(self, x, i, t):
        self.x, self.i, self.t = x, i, t

    def visit_Subscript(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == self.x and isinstance(n.slice, ast.Name) and n.slice.id == self.i:
            return ast.copy_location(ast.Name(self.t, n.ctx), n)
        return self.generic_visit(n)


def escapes(stmts):
    """break / continue that leave the loop these statements are the body of, or any return"""
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Continue, ast.Return)):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if any(isinstance(n, ast.Return) for n in ast.walk(s)) or escapes(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if escapes(getattr(s, f, []) or []):
                return True
        if any(escapes(h.body) for h in getattr(s, "handlers", [])):
            return True
    return False


def rewrite_loop(x, loop):
    i = index_var(loop)
    if i is None or loop.orelse or escapes(loop.body):
        return False
    b = loop.body
    k = next((k for k, s in enumerate(b) if x in names(s)), None)
    if k is None or not is_append(b[k]) or b[k].value.func.value.id != x or x in names(b[k].value.args[0]):
        return False
    if any(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store) for s in b for n in ast.walk(s)):
        return False
    rest = b[k + 1:]
    if not any(x in names(s) for s in rest):
        return False
    _N[0] += 1
    t = "_elem%d" % _N[0]
    new = [_Sub(x, i, t).visit(s) for s in rest]
    if any(x in names(s) for s in new):
        for s in new:          # some other use of x: undo
            _Undo(x, i, t).visit(s)
        return False
    first = ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], b[k].value.args[0]), b[k])
    last = ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "append", ast.Load()), [ast.Name(t, ast.Load())], [])), b[k])
    loop.body = b[:k] + [first] + new + [last]
    ast.fix_missing_locations(loop)
    return True


class _Undo(ast.NodeTransformer):
    def __init__(self, x, i, t):
        self.x, self.i, self.t = x, i, t

    def visit_Name(self, n):
        if n.id == self.t:
            return ast.copy_location(ast.Subscript(ast.Name(self.x, ast.Load()), ast.Name(self.i, ast.Load()), n.ctx), n)
        return n


def block(stmts):
    for p, s in enumerate(stmts):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts:
            x = s.targets[0].id
            for q in stmts[p + 1:]:
                if isinstance(q, ast.For):
                    if x in names(q.iter):
                        break
                    if rewrite_loop(x, q):
                        break
                if x in names(q):
                    break
        for f in ("body", "orelse", "finalbody"):
            c = getattr(s, f, None)
            if c:
                block(c)
        for h in getattr(s, "handlers", []):
            block(h.body)


def desugar(tree):
    block(tree.body)
    return tree
