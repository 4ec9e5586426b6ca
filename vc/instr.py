"""Loads the real sources of /repo/czone with loops, comprehensions and displays redirected to the engine.

The only changes made to the program text before compilation are: annotations are dropped; `for`/`while` bodies become
local functions handed to the loop rule; comprehensions are handed to the comprehension rule; list and dict displays
build trail-recording containers; zero-argument super() gets its arguments; each function reports that it was entered.
Everything else is compiled and run by CPython as it stands."""
import ast
import os
import sys
import types
import builtins as _b
from .core import E, traced_setattr
from .terms import Unsupported


class Names(ast.NodeVisitor):
    """names stored in a block, not descending into nested scopes"""

    def __init__(self):
        self.stored = []
        self.has_yield = False
        self.has_return = False
        self.globals = set()

    def add(self, n):
        if n not in self.stored:
            self.stored.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # only walrus targets leak
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_alias(self, n):
        self.add((n.asname or n.name).split(".")[0])

    def visit_Yield(self, n):
        self.has_yield = True

    visit_YieldFrom = visit_Yield
    visit_Await = visit_Yield

    def visit_Return(self, n):
        self.has_return = True
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals |= set(n.names)


def names_in(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v


class BodyJumps(ast.NodeTransformer):
    """break/continue/return of the loop body itself"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    visit_While = visit_For

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(_rt("BRK")), n)

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        v = n.value or ast.Constant(None)
        return ast.copy_location(ast.Return(ast.Tuple([_rt("RET"), v], ast.Load())), n)


def _rt(name):
    return ast.Attribute(ast.Name("__rt__", ast.Load()), name, ast.Load())


def _call(f, *args):
    return ast.Call(f, list(args), [])


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.scope = []      # ('mod',), ('class', name), ('fun', node, first arg, in_class)
        self.qual = []

    # scopes
    def visit_Module(self, n):
        self.scope.append(("mod",))
        n.body = self.block(n.body)
        self.scope.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(d) for d in n.bases]
        self.scope.append(("class", n.name))
        self.qual.append(n.name)
        n.body = self.block(n.body)
        self.qual.pop()
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        n.returns = None
        in_class = self.scope[-1][0] == "class"
        first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
        info = names_in(n.body)
        bound = []
        self.scope.append(("fun", n, first if in_class else self.outer_first(), bound, info))
        self.qual.append(n.name)
        body = self.block(n.body)
        q = ".".join(self.qual)
        self.qual.pop()
        self.scope.pop()
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        pre = [ast.Expr(_call(_rt("enter"), ast.Constant(self.mod + "." + q)))]
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        bn = [b for b in dict.fromkeys(bound) if b not in params]
        if bn:
            pre.append(ast.If(ast.Constant(False), [ast.Assign([ast.Name(b, ast.Store())], ast.Constant(None)) for b in bn], []))
        for p in pre:
            ast.copy_location(p, n)
            for x in ast.walk(p):
                ast.copy_location(x, n)
        n.body = doc + pre + body
        if not n.body:
            n.body = [ast.Pass()]
        return n

    def outer_first(self):
        for s in reversed(self.scope):
            if s[0] == "fun":
                return s[2]
        return None

    def visit_Lambda(self, n):
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        n.body = self.visit(n.body)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    # expressions
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            if any(isinstance(x, ast.Starred) for x in n.elts):
                parts = [ast.Tuple([ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x], ast.Load()) for x in n.elts]
                return ast.copy_location(_call(_rt("mkcat"), *parts), n)
            return ast.copy_location(_call(_rt("mklist"), n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call(_rt("mkdict"), n), n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            first = self.outer_first()
            if first:
                return ast.copy_location(_call(n.func, ast.Name("__class__", ast.Load()), ast.Name(first, ast.Load())), n)
        self.generic_visit(n)
        return n

    def _comp(self, n, kind):
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            return n
        if self.scope and self.scope[-1][0] == "class":
            return n
        if kind == "dict":
            elt = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load())
        else:
            elt = self.visit(n.elt)
        expr = None
        gens = n.generators
        its = [self.visit(g.iter) for g in gens]
        conds = [[self.visit(c) for c in g.ifs] for g in gens]
        expr = elt
        flat = False
        for g, it, cs in zip(reversed(gens), reversed(its), reversed(conds)):
            self.n += 1
            x = "__x%d" % self.n
            inner = ast.ListComp(expr, [ast.comprehension(g.target, ast.Tuple([ast.Name(x, ast.Load())], ast.Load()), cs, 0)])
            lam = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), inner)
            expr = _call(_rt("comp_flat" if flat else "comp"), it, lam)
            flat = True
        if kind == "set":
            expr = _call(_rt("mkset"), expr)
        elif kind == "dict":
            expr = _call(_rt("mkdict_items"), expr)
        elif kind == "gen":
            expr = _call(_rt("mkgen"), expr)
        for x in ast.walk(expr):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        return ast.copy_location(expr, n)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    # loops
    def _loop_ok(self, n):
        if not any(s[0] == "fun" for s in self.scope) or self.scope[-1][0] != "fun":
            return False
        info = names_in(n.body + n.orelse)
        if info.has_yield:
            return False
        finfo = self.scope[-1][4]
        if set(info.stored) & finfo.globals:
            return False
        return True

    def _cells(self, names, k):
        """statements defining accessors, and the expression of the cell table"""
        st = []
        items = []
        for nm in names:
            f = ast.parse("def __set%d_%s(__v):\n nonlocal %s\n %s = __v\n" % (k, nm, nm, nm)).body[0]
            st.append(f)
            items.append(ast.parse("('%s', lambda: %s, __set%d_%s)" % (nm, nm, k, nm), mode="eval").body)
        return st, ast.Tuple(items, ast.Load())

    def _mangle(self, nm):
        return nm

    def visit_For(self, n):
        if not self._loop_ok(n):
            self.generic_visit(n)
            return n
        self.n += 1
        k = self.n
        info = names_in(n.body)
        tinfo = names_in([ast.Expr(n.target)]) if False else Names()
        tinfo.visit(n.target)
        names = list(dict.fromkeys(tinfo.stored + info.stored))
        fun = self.scope[-1]
        fun[3].extend(x for x in names if x not in self._declared_nonlocal(fun))
        n.iter = self.visit(n.iter)
        target = n.target
        self.generic_visit_target(target)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        has_ret = info.has_return
        body = [BodyJumps().visit(s) for s in body]
        bname, rname = "__body%d" % k, "__r%d" % k
        asn = ast.Assign([target], ast.Name("__x", ast.Load()))
        fd = ast.FunctionDef(bname, ast.arguments([], [ast.arg("__x")], None, [], [], None, []),
                             ([ast.Nonlocal(list(names))] if names else []) + [asn] + body, [], None, None)
        fd.type_params = []
        cst, cexpr = self._cells(names, k)
        call = ast.Assign([ast.Name(rname, ast.Store())],
                          _call(_rt("for_"), n.iter, ast.Name(bname, ast.Load()), cexpr,
                                ast.Constant(self.mod + "." + ".".join(self.qual)), ast.Constant(n.lineno)))
        out = [fd] + cst + [call]
        if has_ret:
            out += ast.parse("if %s.__class__ is tuple:\n return %s[1]\n" % (rname, rname)).body
        if orelse:
            t = ast.parse("if %s is None:\n pass\n" % rname).body[0]
            t.body = orelse
            out.append(t)
        return self._locate(out, n)

    def generic_visit_target(self, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Subscript):
                x.slice = self.visit(x.slice)

    def _declared_nonlocal(self, fun):
        s = set()
        for x in ast.walk(fun[1]):
            if isinstance(x, ast.Nonlocal):
                s |= set(x.names)
        return s

    def visit_While(self, n):
        if not self._loop_ok(n) or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            self.generic_visit(n)
            return n
        self.n += 1
        k = self.n
        info = names_in(n.body)
        names = list(info.stored)
        fun = self.scope[-1]
        fun[3].extend(x for x in names if x not in self._declared_nonlocal(fun))
        test = self.visit(n.test)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        body = [BodyJumps().visit(s) for s in body]
        bname, cname, rname = "__body%d" % k, "__cond%d" % k, "__r%d" % k
        fd = ast.FunctionDef(bname, ast.arguments([], [], None, [], [], None, []),
                             ([ast.Nonlocal(list(names))] if names else []) + body, [], None, None)
        fd.type_params = []
        cd = ast.FunctionDef(cname, ast.arguments([], [], None, [], [], None, []), [ast.Return(test)], [], None, None)
        cd.type_params = []
        cst, cexpr = self._cells(names, k)
        call = ast.Assign([ast.Name(rname, ast.Store())],
                          _call(_rt("while_"), ast.Name(cname, ast.Load()), ast.Name(bname, ast.Load()), cexpr,
                                ast.Constant(self.mod + "." + ".".join(self.qual)), ast.Constant(n.lineno)))
        out = [fd, cd] + cst + [call]
        if info.has_return:
            out += ast.parse("if %s.__class__ is tuple:\n return %s[1]\n" % (rname, rname)).body
        if orelse:
            t = ast.parse("if %s is None:\n pass\n" % rname).body[0]
            t.body = orelse
            out.append(t)
        return self._locate(out, n)

    def _locate(self, out, n):
        for s in out:
            for x in ast.walk(s):
                if not hasattr(x, "lineno") or (getattr(x, "lineno", 0) < n.lineno):
                    ast.copy_location(x, n)
        return out


class NonlocalFix(ast.NodeTransformer):
    pass


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Transform(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader:
    """import system for the interpreted package"""

    def __init__(self, root, libs):
        self.root = root
        self.libs = libs            # name -> module-like
        self.modules = {}
        from . import rt
        self.rt = rt
        self.builtins = rt.make_builtins(self)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parts = name.split(".")
        path = os.path.join(self.root, *parts)
        if os.path.isdir(path):
            fn = os.path.join(path, "__init__.py")
            pkg = True
        else:
            fn = path + ".py"
            pkg = False
        if not os.path.exists(fn):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if len(parts) > 1:
            self.load(".".join(parts[:-1]))
            if name in self.modules:
                return self.modules[name]
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__rt__"] = self.rt
        m.__package__ = name if pkg else ".".join(parts[:-1])
        if pkg:
            m.__path__ = [path]
        self.modules[name] = m
        with open(fn) as f:
            src = f.read()
        code = transform(src, fn, name)
        exec(code, m.__dict__)
        if len(parts) > 1:
            setattr(self.modules[".".join(parts[:-1])], parts[-1], m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[:len(pkg) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full.split(".")[0] == "czone":
            m = self.load(full)
            if not fromlist:
                return self.modules[full.split(".")[0]] if not level else m
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                    try:
                        self.load(full + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        # libraries
        if full in self.libs:
            m = self.libs[full]
            if fromlist:
                return m
            top = full.split(".")[0]
            return self.libs.get(top, m)
        top = full.split(".")[0]
        if top in PASS:
            return _b.__import__(name, None, None, fromlist, 0)
        return self.rt.unknown_module(full, fromlist)


PASS = {"abc", "typing", "collections", "itertools", "functools", "math", "__future__", "enum", "dataclasses", "string",
        "re", "os", "sys", "types", "numbers", "json", "time", "unittest", "operator", "contextlib", "inspect"}
