"""Points: where the simulator can act inside library code.

The sources are parsed, and calls to two builtins are inserted before compiling:
`__sim_s__(site)` before every statement of every function, and
`__sim_e__(value, site)` around sub-expressions (attribute loads, calls,
subscripts, arithmetic, comparisons, the right-hand side of augmented
assignments).  Both do nothing unless a controller is installed; the second
returns its argument.  The program's meaning is unchanged, but a controller may
hand over to another thread there, or raise: the seam for interrupts, scheduling
and step counting.  (sys.settrace was tried first; CPython 3.12.3 crashes when
opcode tracing and threads are combined.)
"""

import ast

SITES = []          # site -> (module, function, line)
_hook = None        # controller: callable(site, fine)


def install(hook):
    global _hook
    old = _hook
    _hook = hook
    return old


def stmt_point(site):
    if _hook is not None:
        _hook(site, False)


def expr_point(value, site):
    if _hook is not None:
        _hook(site, True)
    return value


BUILTINS = {"__sim_s__": stmt_point, "__sim_e__": expr_point}


class _Insert(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []

    def site(self, node):
        SITES.append((self.module, ".".join(self.stack), node.lineno))
        return ast.Constant(len(SITES) - 1)

    # -- scopes
    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        node.body = self.block(node.body, doc=True)
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        for s in node.body:
            self.outer(s)
        self.stack.pop()
        return node

    def outer(self, node):
        """Code outside functions: only descend to function definitions."""
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.visit(node)
            return
        if isinstance(node, ast.Lambda):
            self.visit_Lambda(node)
            return
        for child in ast.iter_child_nodes(node):
            self.outer(child)

    def visit_Lambda(self, node):
        self.stack.append("<lambda>")
        node.body = self.visit(node.body)
        self.stack.pop()
        return node

    # -- statements
    def block(self, stmts, doc=False):
        out = []
        for i, s in enumerate(stmts):
            if (doc and i == 0 and isinstance(s, ast.Expr)
                    and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)):
                out.append(s)
                continue
            p = ast.Expr(ast.Call(ast.Name("__sim_s__", ast.Load()), [self.site(s)], []))
            out.append(ast.copy_location(p, s))
            out.append(self.statement(s))
        return out

    def statement(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.visit(s)
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return s
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                s.value = self.visit(s.value)
            s.target = self.visit(s.target)
            return s
        if isinstance(s, ast.AugAssign):
            s.target = self.visit(s.target)
            s.value = self.wrap(self.visit(s.value))
            return s
        if isinstance(s, ast.Match):
            s.subject = self.visit(s.subject)
            for c in s.cases:
                if c.guard is not None:
                    c.guard = self.visit(c.guard)
                c.body = self.block(c.body)
            return s
        for field, old in ast.iter_fields(s):
            if isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                setattr(s, field, self.block(old))
            elif isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.ExceptHandler):
                        if x.type is not None:
                            x.type = self.visit(x.type)
                        x.body = self.block(x.body)
                        new.append(x)
                    elif isinstance(x, ast.withitem):
                        x.context_expr = self.visit(x.context_expr)
                        if x.optional_vars is not None:
                            x.optional_vars = self.visit(x.optional_vars)
                        new.append(x)
                    elif isinstance(x, ast.AST):
                        new.append(self.visit(x))
                    else:
                        new.append(x)
                setattr(s, field, new)
            elif isinstance(old, ast.expr):
                setattr(s, field, self.visit(old))
        return s

    # -- expressions
    def wrap(self, node):
        if (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)
                and node.func.id == "__sim_e__"):
            return node
        call = ast.Call(ast.Name("__sim_e__", ast.Load()), [node, self.site(node)], [])
        return ast.copy_location(call, node)

    def _wrapped(self, node):
        self.generic_visit(node)
        return self.wrap(node)

    visit_Call = visit_BinOp = visit_Compare = visit_UnaryOp = _wrapped

    def _loaded(self, node):
        self.generic_visit(node)
        return self.wrap(node) if isinstance(node.ctx, ast.Load) else node

    visit_Attribute = visit_Subscript = _loaded


    # -- comprehensions: every round is a point
    def _rounds(self, node):
        self.generic_visit(node)
        gen = node.generators[-1]
        if gen.ifs:
            gen.ifs[0] = self.wrap(gen.ifs[0])
        elif isinstance(node, ast.DictComp):
            node.key = self.wrap(node.key)
        else:
            node.elt = self.wrap(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _rounds


def compile_with_points(src, path, module, optimize):
    tree = ast.parse(src, path)
    ins = _Insert(module)
    for s in tree.body:
        ins.outer(s)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True, optimize=optimize)
