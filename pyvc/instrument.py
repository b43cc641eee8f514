"""Loads the modules of /repo for verification.

The verified text is the text that runs: every module is read from /repo's working tree on every run, parsed and
compiled with a handful of mechanical rewrites (listed in REWRITES), and executed by CPython.  Nothing is dropped.
"""
from __future__ import annotations

import ast
import builtins
import importlib.util
import os
import sys
import types
import typing

REPO = os.environ.get("PYVC_REPO", "/repo")

REWRITES = [
    "float literals denote the exact decimal number they spell",
    "the operators / and ** (and /=, **=) go through the verifier's exact division and power",
    "a bare 'except:' does not catch the verifier's own control exceptions",
    "loops count iterations (unrolling bound); loops offer their head as a cut point for a contract's loop invariant",
    "and/or/not/chained comparisons/conditional expressions/simple conditional assignments to names and plain attributes build one logical term "
    "instead of branching when their operands are side-effect free",
    "calls of side-effect free functions with truth-valued results explore their paths locally and merge them",
    "indexing a list by an integer term gives one term instead of a fork per index",
    "for loops, list displays, comprehensions and starred calls go through the verifier, which runs them as they are "
    "unless a sequence of any length is involved (then: the loop rule of pyvc/seq.py)",
]

STDLIB = {"colorsys"}         # library modules whose installed source is verified along

MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "popitem",
            "add", "discard", "write", "push", "__setitem__", "__delitem__", "seed", "shuffle"}


def _vc(name):
    return ast.Attribute(ast.Name("__vc__", ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_vc(name), list(args), [])


def _lambda(body):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), body)


def _thunkable(node):
    """May the expression be moved into a lambda and evaluated speculatively?"""
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Name) and n.id in ("super", "locals", "next", "print", "setattr", "delattr", "__class__"):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            return False
    return True


def local_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
    return out


def appearance(fn):
    """The local names in order of first assignment (by which loop invariants know them, whatever they are called)."""
    stores = [(n.lineno, n.col_offset, n.id) for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
    return tuple(dict.fromkeys(n for _, _, n in sorted(stores)))


def pure_function(fn):
    """Syntactic purity: writes only its own local names."""
    fresh = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.List, ast.ListComp)):
            fresh.add(n.targets[0].id)
    for n in ast.walk(fn):
        if n is fn: continue
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.Delete, ast.FunctionDef, ast.ClassDef,
                          ast.With, ast.Import, ast.ImportFrom, ast.Try, ast.NamedExpr)):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return False
        if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Name):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            v = n.func.value
            if not (isinstance(v, ast.Name) and v.id in fresh):
                return False
        if isinstance(n, ast.Name) and n.id in ("super", "next", "print", "setattr", "delattr"):
            return False
    return True


def branches(fn):
    return any(isinstance(n, (ast.If, ast.IfExp, ast.BoolOp, ast.Compare, ast.While, ast.comprehension)) for n in ast.walk(fn))


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.loops = 0
        self.where: list = []           # names of the enclosing classes and functions
        self.whiles: list = []          # [while loops, for loops] so far, per enclosing function
        self.orders: list = []          # local names in order of appearance, per enclosing function

    # -- numbers ---------------------------------------------------------------
    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(_call("lit", ast.Constant(repr(node.value))), node)
        return node

    def visit_JoinedStr(self, node):
        # keep the constant parts and the format specs as they are
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value else None
        if isinstance(node.target, ast.Name):
            return node
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(_call("div", node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(_call("pow", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Pow)):
            import copy
            load = copy.deepcopy(node.target)
            for n in ast.walk(load):
                if hasattr(n, "ctx"): n.ctx = ast.Load()
            f = "div" if isinstance(node.op, ast.Div) else "pow"
            return ast.copy_location(ast.Assign([node.target], _call(f, load, node.value)), node)
        return node

    # -- truth values ------------------------------------------------------------
    def visit_BoolOp(self, node):
        ok = self.depth > 0 and all(_thunkable(v) for v in node.values)
        self.generic_visit(node)
        if not ok: return node
        f = "and_" if isinstance(node.op, ast.And) else "or_"
        return ast.copy_location(_call(f, *[_lambda(v) for v in node.values]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and self.depth:
            return ast.copy_location(_call("not_", node.operand), node)
        return node

    OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

    def visit_Compare(self, node):
        ok = self.depth > 0 and all(_thunkable(v) for v in node.comparators)
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], (ast.In, ast.NotIn)) and self.depth:
                f = _call("contains", node.left, node.comparators[0])
                return ast.copy_location(f if isinstance(node.ops[0], ast.In) else _call("not_", f), node)
            if type(node.ops[0]) in (ast.Eq, ast.NotEq) and self.depth:
                return ast.copy_location(_call("cmp", ast.Constant(self.OPS[type(node.ops[0])]), node.left, node.comparators[0]), node)
            return node
        if not ok or not all(type(o) in self.OPS for o in node.ops): return node
        args = [node.left]
        for o, c in zip(node.ops, node.comparators):
            args += [ast.Constant(self.OPS[type(o)]), _lambda(c)]
        return ast.copy_location(_call("chain", *args), node)

    def visit_IfExp(self, node):
        ok = self.depth > 0 and _thunkable(node.body) and _thunkable(node.orelse)
        self.generic_visit(node)
        if not ok: return node
        return ast.copy_location(_call("ifexp", node.test, _lambda(node.body), _lambda(node.orelse)), node)

    @staticmethod
    def _simple_assigns(stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Pass): continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and Rewriter._place(s.targets[0]):
                name, val = ast.unparse(s.targets[0]), s.value
            else:
                return None
            if not _thunkable(val): return None
            if any(isinstance(n, (ast.Call, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.List, ast.Dict)) for n in ast.walk(val)):
                return None
            used = {n.id for n in ast.walk(val) if isinstance(n, ast.Name)} | {name.split(".")[0]}
            if any(o in used or o == name for o, _ in out): return None
            if any("." in o for o, _ in out) and any(isinstance(n, ast.Attribute) for n in ast.walk(val)): return None
            out.append((name, val))
        return out

    @staticmethod
    def _place(target):
        """A local name, or an attribute of the object a name stands for."""
        return isinstance(target, ast.Name) or (isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name))

    @staticmethod
    def _load(name):
        if "." not in name: return ast.Name(name, ast.Load())
        base, attr = name.split(".")
        return _call("field", ast.Name(base, ast.Load()), ast.Constant(attr))

    @staticmethod
    def _store(name):
        if "." not in name: return ast.Name(name, ast.Store())
        base, attr = name.split(".")
        return ast.Attribute(ast.Name(base, ast.Load()), attr, ast.Store())

    def visit_If(self, node):
        then = self._simple_assigns(node.body) if self.depth else None
        other = self._simple_assigns(node.orelse) if self.depth else None
        self.generic_visit(node)
        if not then or other is None: return node
        then, other = self._simple_assigns2(node.body), self._simple_assigns2(node.orelse)
        names = list(dict.fromkeys([n for n, _ in then + other]))
        dt, do = dict(then), dict(other)

        def tup(d):
            # an attribute must be there already, as a plain one: where it is not, the two cases are kept apart
            guard = [self._load(n) for n in names if "." in n and n in d]
            parts = [d[n] if n in d else self._load(n) for n in names]
            return ast.Subscript(ast.Tuple([*guard, ast.Tuple(parts, ast.Load())], ast.Load()), ast.UnaryOp(ast.USub(), ast.Constant(1)), ast.Load()) if guard else ast.Tuple(parts, ast.Load())
        c, m = f"__vc_c{self.loops}__", f"__vc_m{self.loops}__"
        self.loops += 1
        import copy
        return [
            ast.copy_location(ast.Assign([ast.Name(c, ast.Store())], node.test), node),
            ast.copy_location(ast.Assign([ast.Name(m, ast.Store())],
                                         _call("try_ite", ast.Name(c, ast.Load()), _lambda(copy.deepcopy(tup(dt))), _lambda(copy.deepcopy(tup(do))))), node),
            ast.copy_location(ast.If(ast.Compare(ast.Name(m, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                                     [ast.Assign([ast.Tuple([self._store(n) for n in names], ast.Store())], ast.Name(m, ast.Load()))],
                                     [ast.If(ast.Name(c, ast.Load()), node.body, node.orelse)]), node)]

    @staticmethod
    def _simple_assigns2(stmts):
        return [(ast.unparse(s.targets[0]), s.value) for s in stmts if isinstance(s, ast.Assign)]

    # -- statements -----------------------------------------------------------------
    def visit_Assign(self, node):
        wrap = self.depth > 0 and _thunkable(node.value) and any(
            isinstance(n, ast.comprehension) and n.ifs for n in ast.walk(node.value)) and not isinstance(node.value, (ast.ListComp, ast.Lambda))
        self.generic_visit(node)
        if wrap:
            node.value = ast.copy_location(_call("merge", _lambda(node.value)), node.value)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            node.type = ast.Name("Exception", ast.Load())
        return node

    def visit_While(self, node):
        if self.depth:
            k = self.whiles[-1][0]
            self.whiles[-1][0] += 1
        names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call("tick", ast.Constant(".".join(self.where)))))
        if not self.depth or node.orelse: return node
        # while C: B  ->  loop = cut(...); while True: (restore the invariant's state); if not C: break; B
        lv, vv = f"__vc_w{self.loops}__", f"__vc_v{self.loops}__"
        self.loops += 1
        pre = ast.Assign([ast.Name(lv, ast.Store())], _call("cut", ast.Constant(".".join(self.where)), ast.Constant(k), ast.Constant(tuple(self.orders[-1]))))
        head = self._head(lv, vv, names)
        stop = ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Break()], [])
        new = ast.While(ast.Constant(True), [ast.If(ast.Compare(ast.Name(lv, ast.Load()), [ast.IsNot()], [ast.Constant(None)]), head, []), stop, *node.body], [])
        for n in (pre, new): ast.copy_location(n, node)
        return [pre, new]

    @staticmethod
    def _head(lv, vv, names):
        """The cut point: the invariant is checked of the locals, and they are replaced by its arbitrary state."""
        head = [ast.Assign([ast.Name(vv, ast.Store())], ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), "head", ast.Load()),
                                                                              [ast.Call(ast.Name("locals", ast.Load()), [], []), ast.Constant(tuple(names))], []))]
        for n in names:
            head.append(ast.If(ast.Compare(ast.Constant(n), [ast.In()], [ast.Name(vv, ast.Load())]),
                               [ast.Assign([ast.Name(n, ast.Store())], ast.Subscript(ast.Name(vv, ast.Load()), ast.Constant(n), ast.Load()))], []))
        return head

    def visit_For(self, node):
        if self.depth:
            number = self.whiles[-1][1]
            self.whiles[-1][1] += 1
        has_break = any(isinstance(n, (ast.Break, ast.Return)) for s in node.body for n in ast.walk(s))
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call("tick", ast.Constant(".".join(self.where)))))
        if self.depth == 0: return node
        k = self.loops
        self.loops += 1
        lv, wv, vv = f"__vc_l{k}__", f"__vc_w{k}__", f"__vc_v{k}__"
        cut = []
        if not node.orelse:
            # with an invariant: w = cut(...); while True: (restore the invariant's state); if w is at the end: break; x = w.next(); B
            import copy
            names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not n.id.startswith("__vc_")})
            at = lambda n: ast.Attribute(ast.Name(wv, ast.Load()), n, ast.Load())
            cut = [ast.Assign([ast.Name(wv, ast.Store())], _call("cut", ast.Constant(".".join(self.where)), ast.Constant(("for", number)), ast.Constant(tuple(self.orders[-1])), ast.Name(lv, ast.Load()))),
                   ast.If(ast.Compare(ast.Name(wv, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                          [ast.Expr(ast.Call(at("over"), [ast.Name(lv, ast.Load())], [])),
                           ast.While(ast.Constant(True), [*self._head(wv, vv, names), ast.If(at("ended"), [ast.Break()], []),
                                                          ast.Assign([copy.deepcopy(node.target)], ast.Call(at("next"), [], [])), *copy.deepcopy(node.body)], [])],
                          [])]
        pre = ast.Assign([ast.Name(lv, ast.Store())], _call("loop", node.iter, ast.Constant((lv,)), ast.Constant(has_break)))
        node.iter = ast.Name(lv, ast.Load())
        out = [pre, node]
        if cut:
            cut[1].orelse = [node]
            out = [pre, *cut]
        for n in out: ast.copy_location(n, node)
        return out

    # -- displays, comprehensions, stars ------------------------------------------------
    def visit_List(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            if any(isinstance(e, ast.Starred) for e in node.elts):
                parts = [_call("star", e.value) if isinstance(e, ast.Starred) else ast.List([e], ast.Load()) for e in node.elts]
                return ast.copy_location(_call("join", *parts), node)
            return ast.copy_location(_call("mklist", node), node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if self.depth == 0: return node
        if len(node.generators) == 1:
            g = node.generators[0]
            names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
            if isinstance(g.target, ast.Name) and not g.is_async and all(_thunkable(i) for i in g.ifs) and _thunkable(node.elt):
                arg = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
                conds = [ast.Lambda(arg, i) for i in g.ifs]
                fn = ast.Lambda(arg, node.elt)
                return ast.copy_location(_call("listcomp", g.iter, fn, *conds), node)
        node.generators[0].iter = _call("it", node.generators[0].iter)
        return ast.copy_location(_call("mklist", node), node)

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        if self.depth == 0: return node
        g = node.generators[0]
        if len(node.generators) == 1 and isinstance(g.target, ast.Name) and not g.is_async and all(_thunkable(i) for i in g.ifs) and _thunkable(node.elt):
            arg = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
            return ast.copy_location(_call("genexp", g.iter, ast.Lambda(arg, node.elt), *[ast.Lambda(arg, i) for i in g.ifs]), node)
        g.iter = _call("it", g.iter)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.depth and any(isinstance(a, ast.Starred) for a in node.args):
            node.args = [ast.Starred(_call("starargs", a.value), ast.Load()) if isinstance(a, ast.Starred) else a for a in node.args]
        if self.depth and isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(_call("strjoin", node.func.value, node.args[0]), node)
        # len([... if ...]) and sum(... if ...): one term instead of a fork per element
        if self.depth and isinstance(node.func, ast.Name) and len(node.args) == 1 and not node.keywords and isinstance(node.args[0], ast.Call):
            g = node.args[0]
            if isinstance(g.func, ast.Attribute) and isinstance(g.func.value, ast.Name) and g.func.value.id == "__vc__" and len(g.args) > 2:
                if (node.func.id, g.func.attr) == ("len", "listcomp"): return ast.copy_location(_call("countcomp", *g.args), node)
                if node.func.id == "sum" and g.func.attr in ("listcomp", "genexp"): return ast.copy_location(_call("sumcomp", *g.args), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and isinstance(node.slice, (ast.Name, ast.BinOp, ast.Call, ast.Attribute, ast.Subscript)):
            return ast.copy_location(_call("getitem", node.value, node.slice), node)
        return node

    # -- functions -----------------------------------------------------------------------
    def visit_FunctionDef(self, node):
        pure = pure_function(node) and branches(node)
        impure = not pure_function(node)
        deco = node.decorator_list
        ann = node.returns
        defaults, kw = node.args.defaults, node.args.kw_defaults
        if self.depth == 0:
            node.args.defaults = [self.visit(d) for d in defaults]
        else:
            node.args.defaults = [self.visit(d) for d in defaults]
        node.args.kw_defaults = [self.visit(d) if d else d for d in kw]
        self.depth += 1
        self.where.append(node.name)
        self.whiles.append([0, 0])
        self.orders.append(appearance(node))
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.depth -= 1
        self.where.pop()
        self.whiles.pop()
        self.orders.pop()
        if node.args.vararg:
            n = node.args.vararg.arg
            body.insert(0, ast.Assign([ast.Name(n, ast.Store())], _call("varargs", ast.Name(n, ast.Load()))))
        node.body = body
        node.decorator_list = deco + ([_vc("pure")] if pure else [_vc("impure")] if impure else [])
        return node

    def visit_ClassDef(self, node):
        self.where.append(node.name)
        self.generic_visit(node)
        self.where.pop()
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node


_CODE: dict = {}


def compile_module(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    code = _CODE.get(key)
    if code is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = Rewriter().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        code = _CODE[key] = compile(tree, path, "exec", dont_inherit=True)
    return code


class Loader:
    """One fresh universe of instrumented modules."""

    def __init__(self, hooks, models):
        self.hooks = hooks
        self.models = models            # name -> module object
        self.modules: dict = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(hooks.builtins)
        self.builtins["__import__"] = self._import

    def load(self, name):
        m = self.modules.get(name)
        if m is not None: return m
        if name in self.models:
            return self.models[name]
        rel = name.replace(".", "/")
        base = os.path.join(REPO, rel)
        if name in STDLIB:
            path = importlib.util.find_spec(name).origin
            m = types.ModuleType(name)
        elif os.path.isdir(base):
            m = types.ModuleType(name)
            m.__path__ = [base]
            path = os.path.join(base, "__init__.py")
        else:
            path = base + ".py"
            m = types.ModuleType(name)
        self.modules[name] = m
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__vc__"] = self.hooks
        m.__file__ = path
        m.__package__ = name if hasattr(m, "__path__") else name.rpartition(".")[0]
        if os.path.exists(path):
            exec(compile_module(path), m.__dict__)
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            setattr(self.load(parent), leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            for _ in range(level - 1): pkg = pkg.rpartition(".")[0]
            full = f"{pkg}.{name}" if name else pkg
        else:
            full = name
        top = full.partition(".")[0]
        if top == "PathLib" or full in STDLIB or full in self.models or top in self.models:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and os.path.exists(os.path.join(REPO, full.replace(".", "/"), f + ".py")):
                        self.load(f"{full}.{f}")
                return m
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, level)
