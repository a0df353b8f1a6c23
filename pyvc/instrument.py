"""AST instrumentation of the real sources of /repo.

The text of every module is read from /repo at run time, transformed and executed; nothing is dropped.  What the
transformation changes (all of it semantics-preserving on concrete values):
  f(a)            -> __vc__.call(f, a)              (contracts, built-ins on symbolic arguments)
  o[k] / o[k]=v   -> __vc__.getitem / setitem       (symbolic indices into concrete containers and vice versa)
  a in b          -> __vc__.contains
  f"..."          -> __vc__.fstr
  [ ] / { } / set -> tracked containers when inside a contract run
  for / while     -> loop cut points (see loops.py)
  comprehensions  -> __vc__.comp
"""
import ast, sys, os, types, importlib.abc, importlib.machinery, importlib.util

class _Names(ast.NodeVisitor):
    """Names assigned in a loop body (excluding nested function bodies)."""
    def __init__(self): self.names = []
    def add(self, n):
        if n not in self.names: self.names.append(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)
    def visit_FunctionDef(self, n): self.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_Import(self, n):
        for a in n.names: self.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import
    def visit_ExceptHandler(self, n):
        if n.name: self.add(n.name)
        self.generic_visit(n)

def _vc(attr):
    return ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr=attr, ctx=ast.Load())

def _call(attr, *args):
    return ast.Call(func=_vc(attr), args=list(args), keywords=[])

class Transformer(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.n = 0
        self.scope = []
        self.globals_decl = [set()]
        self.infunc = 0

    # -- scopes
    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        self.infunc += 1
        g = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)): g.update(s.names)
        self.globals_decl.append(g)
        node.body = [self.visit(s) for s in node.body]
        node.body = self._flat(node.body)
        node.args = self.visit(node.args)
        self.globals_decl.pop()
        self.infunc -= 1
        self.scope.pop()
        return node
    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        sv, self.infunc = self.infunc, 0
        node.body = self._flat([self.visit(s) for s in node.body])
        self.infunc = sv
        self.scope.pop()
        return node
    @staticmethod
    def _flat(body):
        out = []
        for s in body:
            if isinstance(s, list): out.extend(s)
            elif s is not None: out.append(s)
        return out

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "dir", "eval", "exec", "namedtuple"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_vc("call"), args=[node.func] + node.args, keywords=node.keywords), node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(value=None)
            return _call("slice", none(s.lower), none(s.upper), none(s.step))
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infunc:
            return ast.copy_location(_call("getitem", node.value, self._slice(node.slice)), node)
        return node
    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and self.infunc:
            t = node.targets[0]
            # evaluation order: value first, then container, then key
            return ast.copy_location(ast.Expr(value=_call("setitem_v", node.value, t.value, self._slice(t.slice))), node)
        return node
    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript) and self.infunc:
            t = node.target
            self.n += 1
            o, k = f"__vco{self.n}", f"__vck{self.n}"
            nm = lambda x, c=ast.Load(): ast.Name(id=x, ctx=c)
            sts = [ast.Assign(targets=[nm(o, ast.Store())], value=t.value),
                   ast.Assign(targets=[nm(k, ast.Store())], value=self._slice(t.slice)),
                   ast.Expr(value=_call("setitem_v",
                            _call("inplace", ast.Constant(value=type(node.op).__name__), _call("getitem", nm(o), nm(k)), node.value),
                            nm(o), nm(k)))]
            return [ast.copy_location(s, node) for s in sts]
        if isinstance(node.target, ast.Name) and self.infunc:
            v = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.copy_location(ast.Assign(targets=[node.target],
                    value=_call("inplace", ast.Constant(value=type(node.op).__name__), v, node.value)), node)
        return node
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _call("contains", node.comparators[0], node.left) if False else _call("contains", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn): r = _call("not_", r)
            return ast.copy_location(r, node)
        return node
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Mod, ast.Add, ast.Mult, ast.Sub, ast.BitOr)) and self.infunc:
            return ast.copy_location(_call("binop", ast.Constant(value=type(node.op).__name__), node.left, node.right), node)
        return node
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
            else: parts.append(v)
        return ast.copy_location(_call("fstr", *parts), node)
    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infunc:
            return ast.copy_location(_call("mklist", node), node)
        return node
    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.infunc: return ast.copy_location(_call("mkdict", node), node)
        return node
    def _target_lambda(self, target, expr):
        # lambda __x: expr with target names bound by destructuring
        if isinstance(target, ast.Name):
            args = [ast.arg(arg=target.id)]
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=expr), 0
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            args = [ast.arg(arg=e.id) for e in target.elts]
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=expr), len(args)
        return None, None
    def _comp(self, node, kind, elts):
        has_walrus = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node))
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or has_walrus or not self.infunc:
            return node
        g = node.generators[0]
        body = elts[0]() if len(elts) == 1 else ast.Tuple(elts=[e() for e in elts], ctx=ast.Load())
        lam, n = self._target_lambda(g.target, body)
        if lam is None: return node
        conds = []
        for c in g.ifs:
            l, _ = self._target_lambda(g.target, c)
            conds.append(l)
        return ast.copy_location(_call("comp", ast.Constant(value=kind), g.iter, ast.Constant(value=n), lam,
                                       ast.List(elts=conds, ctx=ast.Load())), node)
    def visit_ListComp(self, node): return self._comp(node, "list", [lambda: node.elt])
    def visit_SetComp(self, node): return self._comp(node, "set", [lambda: node.elt])
    def visit_GeneratorExp(self, node): return self._comp(node, "gen", [lambda: node.elt])
    def visit_DictComp(self, node): return self._comp(node, "dict", [lambda: node.key, lambda: node.value])

    # -- loops
    def _names(self, node):
        v = _Names()
        for s in node.body: v.visit(s)
        if isinstance(node, ast.For): v.visit(node.target)
        g = self.globals_decl[-1]
        return [n for n in v.names if n not in g and not n.startswith("__vc")]
    def _havoc(self, h, names):
        """h.havoc(locals()); name = h.get('name') if bound"""
        out = []
        for n in names:
            out.append(ast.If(test=ast.Call(func=ast.Attribute(value=ast.Name(id=h, ctx=ast.Load()), attr="has", ctx=ast.Load()),
                                            args=[ast.Constant(value=n)], keywords=[]),
                              body=[ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                                    value=ast.Call(func=ast.Attribute(value=ast.Name(id=h, ctx=ast.Load()), attr="get", ctx=ast.Load()),
                                                   args=[ast.Constant(value=n)], keywords=[]))], orelse=[]))
        return [ast.If(test=ast.Attribute(value=ast.Name(id=h, ctx=ast.Load()), attr="cut", ctx=ast.Load()), body=out, orelse=[])] if out else []
    def visit_For(self, node):
        names = self._names(node)
        self.generic_visit(node)
        node.body, node.orelse = self._flat(node.body), self._flat(node.orelse)
        if not self.infunc: return node
        self.n += 1
        h = f"__vch{self.n}"
        site = ".".join([self.module] + self.scope) + f":L{node.lineno}"
        st = [ast.Assign(targets=[ast.Name(id=h, ctx=ast.Store())],
                         value=_call("for_loop", ast.Constant(value=site), node.iter, ast.Constant(value=tuple(names))))]
        st += self._havoc(h, names)
        node.iter = ast.Name(id=h, ctx=ast.Load())
        st.append(node)
        return [ast.copy_location(s, node) for s in st]
    def visit_While(self, node):
        names = self._names(node)
        self.generic_visit(node)
        node.body, node.orelse = self._flat(node.body), self._flat(node.orelse)
        if not self.infunc: return node
        self.n += 1
        h = f"__vch{self.n}"
        site = ".".join([self.module] + self.scope) + f":L{node.lineno}"
        st = [ast.Assign(targets=[ast.Name(id=h, ctx=ast.Store())],
                         value=_call("while_loop", ast.Constant(value=site), ast.Constant(value=tuple(names))))]
        st += self._havoc(h, names)
        head = ast.Call(func=ast.Attribute(value=ast.Name(id=h, ctx=ast.Load()), attr="head", ctx=ast.Load()), args=[], keywords=[])
        node.test = ast.BoolOp(op=ast.And(), values=[head, node.test])
        st.append(node)
        return [ast.copy_location(s, node) for s in st]

def transform(src, filename, module):
    tree = ast.parse(src, filename)
    tr = Transformer(module)
    tree.body = tr._flat([tr.visit(s) for s in tree.body])
    ast.fix_missing_locations(tree)
    return tree

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves flatdata.* from /repo, instrumented."""
    def __init__(self, vc, roots):
        self.vc, self.roots = vc, roots
        self.files = {}
    def find_spec(self, name, path, target=None):
        if name != "flatdata" and not name.startswith("flatdata."): return None
        rel = name.replace(".", "/")
        dirs = []
        for r in self.roots:
            p = os.path.join(r, rel)
            if os.path.isfile(os.path.join(p, "__init__.py")):
                return importlib.util.spec_from_file_location(name, os.path.join(p, "__init__.py"), loader=self, submodule_search_locations=[p])
            if os.path.isfile(p + ".py"):
                return importlib.util.spec_from_file_location(name, p + ".py", loader=self)
            if os.path.isdir(p): dirs.append(p)
        if dirs:
            spec = importlib.machinery.ModuleSpec(name, self, is_package=True)
            spec.submodule_search_locations = dirs
            return spec
        return None
    def create_module(self, spec): return None
    def exec_module(self, module):
        spec = module.__spec__
        module.__dict__["__vc__"] = self.vc
        if spec.origin is None: return
        with open(spec.origin, encoding="utf-8") as f: src = f.read()
        self.files[spec.name] = spec.origin
        tree = transform(src, spec.origin, spec.name)
        exec(compile(tree, spec.origin, "exec"), module.__dict__)
