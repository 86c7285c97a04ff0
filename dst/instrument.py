"""Optional source instrumentation (granularity "hook").

`sys.settrace` is suspended while a trace function runs, so a conversion nested inside a
trace callback is not itself observed.  In hook mode the library is loaded from its current
source with a call of `__dst_hook__()` before every statement and before every call and
comprehension element; the hook is an ordinary function, so nested conversions have events
of their own, to any depth.  The code is otherwise unchanged.
"""
import ast


def _hook_expr(node, value):
    call = ast.Call(func=ast.Name(id="__dst_hook__", ctx=ast.Load()), args=[], keywords=[])
    tup = ast.Tuple(elts=[call, value], ctx=ast.Load())
    sub = ast.Subscript(value=tup, slice=ast.Constant(value=1), ctx=ast.Load())
    for n in (call, call.func, tup, sub, sub.slice):
        ast.copy_location(n, node)
    return sub


class _T(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def _func(self, node):
        node.decorator_list = list(node.decorator_list)
        self.depth += 1
        doc = None
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[0], body[1:]
        node.body = ([doc] if doc else []) + self._block(body) or [ast.Pass()]
        self.depth -= 1
        return node

    visit_FunctionDef = _func

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            if not isinstance(s, (ast.Global, ast.Nonlocal)):
                h = ast.Expr(value=ast.Call(func=ast.Name(id="__dst_hook__", ctx=ast.Load()), args=[], keywords=[]))
                for n in ast.walk(h):
                    ast.copy_location(n, s)
                out.append(h)
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        if self.depth:
            for field in ("body", "orelse", "finalbody"):
                v = getattr(node, field, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                    setattr(node, field, _Done(self._block(v)))
        for field, old in ast.iter_fields(node):
            if isinstance(old, _Done):
                setattr(node, field, list(old))
                continue
            if isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                    new.append(x)
                setattr(node, field, new)
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        return _hook_expr(node, node) if self.depth else node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if self.depth:
            node.elt = _hook_expr(node.elt, node.elt)
        return node

    visit_GeneratorExp = visit_ListComp
    visit_SetComp = visit_ListComp


class _Done(list):
    pass


def compile_instrumented(source, path):
    tree = ast.parse(source, path)
    tree = _T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)
