"""Mechanical rewriting of the source under verification so that CPython itself can
execute it on symbolic values.  Nothing is dropped except: type annotations,
`typing.overload` stubs, docstrings (kept, inert) and logging calls' effects.

Rewrites (each preserves the meaning on ordinary values):
  for / while            -> local function for the body + pv__.for_ / pv__.while_
  comprehensions         -> pv__.comp with lambdas
  list/dict/set displays -> pv__.mklist / mkdict / mkset
  x is y, not in, chained-> pv__.is_
  yield e / yield from   -> append/extend to the list the generator stands for
  names of builtins      -> pv__.<builtin> when not shadowed
  super()                -> super(__class__, self)
"""
import ast

BUILTINS = {"list", "dict", "set", "len", "range", "enumerate", "reversed", "sorted", "min", "max", "filter", "map",
            "any", "all", "isinstance", "hasattr", "callable", "iter", "next", "zip", "hash", "sum", "tuple", "id",
            "getattr", "bool", "str", "int", "repr", "issubclass", "frozenset", "type"}


def _marked(names, n):
    """Names of a loop, "+" before those its body only changes by augmented assignment."""
    plain = set(_names_stored(([ast.Assign([n.target], ast.Constant(None))] if isinstance(n, ast.For) else []) + n.body, aug=False))
    return tuple(x if x in plain else "+" + x for x in names)


def _names_stored(nodes, aug=True):
    """Names assigned by these statements in the current scope (not nested functions)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.append(n.name)

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            self.visit(n.generators[0].iter)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_AugAssign(self, n):
            if aug or not isinstance(n.target, ast.Name):
                self.visit(n.target)
            self.visit(n.value)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

    v = V()
    for n in nodes:
        v.visit(n)
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def _has_yield(fn):
    class V(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, n):
            pass

        visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

        def visit_GeneratorExp(self, n):
            self.visit(n.generators[0].iter)

        def visit_Yield(self, n):
            self.found = True

        visit_YieldFrom = visit_Yield

    v = V()
    for s in fn.body:
        v.visit(s)
    return v.found


def pv(name):
    return ast.Attribute(ast.Name("pv__", ast.Load()), name, ast.Load())


def call(name, *args):
    return ast.Call(pv(name), list(args), [])


def lam(params, body):
    return ast.Lambda(ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body)


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.n = 0
        self.fn = []       # stack of dict(shadow=set, gen=bool, loopvars=set, first=arg name, qual)
        self.cls = []
        self.loop = []     # stack of 'loop' / None for try-level bookkeeping
        self.stmtdepth = 0

    # ---- scopes
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n.bases = [b.value if isinstance(b, ast.Subscript) and not (isinstance(b.value, ast.Name) and b.value.id == "Generic") else b for b in n.bases]
        n.bases = [self.visit(b) for b in n.bases]
        n.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        saved_loop, self.loop = self.loop, []
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else ([r] if r is not None else [])
        n.body = body or [ast.Pass()]
        self.loop = saved_loop
        self.cls.pop()
        return n

    def _isoverload(self, n):
        return any((isinstance(d, ast.Name) and d.id == "overload") or (isinstance(d, ast.Attribute) and d.attr == "overload") for d in n.decorator_list)

    def visit_FunctionDef(self, n):
        if self._isoverload(n):
            return None
        if (n.args.vararg is not None or n.args.kwarg is not None) and (n.name == "__init__" or not n.name.startswith("__")) and not self.fn and not n.name.endswith("__va") and not n.decorator_list:
            # companion taking the variadic arguments as ordinary parameters: same body
            import copy
            c = copy.deepcopy(n)
            c.name = n.name.strip("_") + "__va" if n.name == "__init__" else n.name + "__va"
            a = c.args
            extra = ([ast.arg(a.vararg.arg)] if a.vararg else []) + ([ast.arg(a.kwarg.arg)] if a.kwarg else [])
            a.args = a.args + extra
            a.defaults = []
            a.vararg = a.kwarg = None
            return [self._function(n), self._function(c, n.name)]
        return self._function(n)

    def _function(self, n, qualname=None):
        native_gen = any(isinstance(d, ast.Name) and d.id == "contextmanager" for d in n.decorator_list)
        a = n.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        stored = _names_stored(n.body)
        decls = {x for s in ast.walk(n) if isinstance(s, (ast.Nonlocal, ast.Global)) for x in s.names}
        gen = _has_yield(n) and not native_gen
        qual = ".".join(self.cls + [f["name"] for f in self.fn] + [n.name])
        info = dict(name=n.name, shadow=set(params) | (set(stored) - decls), gen=gen, loopnames=[], params=params, stored=stored, native=native_gen, qual=qual,
                    first=params[0] if params else None, incls=bool(self.cls) and not self.fn, nloops=0)
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.returns = None
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        saved_cls, self.cls = self.cls, []
        info["cls"] = saved_cls
        info["qual"] = ".".join(saved_cls + [f["name"] for f in self.fn] + [qualname or n.name])
        saved_loop, self.loop = self.loop, []
        self.fn.append(info)
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        if native_gen:
            nb = [self.visit(s) for s in body]
            nb = [y for x in nb for y in (x if isinstance(x, list) else [x]) if y is not None]
        else:
            nb = self.block(body)
        self.fn.pop()
        self.loop = saved_loop
        self.cls = saved_cls
        pre = []
        names = [x for x in info["loopnames"] if x not in params]
        if names:
            pre.append(ast.If(ast.Attribute(ast.Name("pv__", ast.Load()), "never", ast.Load()),
                              [ast.Assign([ast.Name(x, ast.Store()) for x in names], ast.Constant(None))], []))
        if gen:
            pre.append(ast.Assign([ast.Name("out__", ast.Store())], call("mkout")))
            nb = nb + [ast.Return(call("genout", ast.Name("out__", ast.Load())))]
        n.body = pre + (nb or [ast.Pass()])
        return n

    def visit_Lambda(self, n):
        a = n.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        a.defaults = [self.visit(d) for d in a.defaults]
        self.fn.append(dict(name="<lambda>", shadow=set(params), gen=False, loopnames=[], params=params, stored=[], native=False, first=None, incls=False, cls=[], qual="<lambda>", nloops=0))
        saved, self.loop = self.loop, []
        n.body = self.visit(n.body)
        self.loop = saved
        self.fn.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None if self.fn else n
        if not self.fn and self.cls:
            return ast.AnnAssign(n.target, n.annotation, self.visit(n.value), n.simple)
        return ast.Assign([self.visit(n.target)], self.visit(n.value))

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
        return out

    # ---- names
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in BUILTINS and not any(n.id in f["shadow"] for f in self.fn):
            return pv("b_" + n.id)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and self.fn:
            f = next((f for f in self.fn if f["incls"]), self.fn[0])
            return ast.Call(ast.Name("super", ast.Load()), [ast.Name("__class__", ast.Load()), ast.Name(f["first"], ast.Load())], [])
        if isinstance(n.func, ast.Name) and n.func.id == "cast" and len(n.args) == 2:
            return self.visit(n.args[1])
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and len(n.args) == 1:
            return call("join", n.func.value, self.visit(n.args[0]))
        self.generic_visit(n)
        # f(**d) with a symbolic-dict d
        n.keywords = [ast.keyword(k.arg, call("kwmap", k.value)) if k.arg is None else k for k in n.keywords]
        n.args = [ast.Starred(call("starmap", x.value), ast.Load()) if isinstance(x, ast.Starred) else x for x in n.args]
        return n

    # ---- expressions
    def visit_List(self, n):
        self.generic_visit(n)
        return call("mklist", n) if isinstance(n.ctx, ast.Load) else n

    def visit_Dict(self, n):
        self.generic_visit(n)
        pairs = []
        for k, v in zip(n.keys, n.values):
            pairs.append(ast.Tuple([k if k is not None else pv("SPLAT"), v], ast.Load()))
        return call("mkdict", ast.Tuple(pairs, ast.Load()))

    def visit_Set(self, n):
        self.generic_visit(n)
        return call("mkset", ast.Tuple(n.elts, ast.Load()))

    def _comp(self, n, kind):
        if len(n.generators) != 1:
            # nested generators: outer comprehension of inner ones
            g0 = n.generators[0]
            inner = type(n)(**{**{f: getattr(n, f) for f in n._fields}, "generators": n.generators[1:]})
            res = self._one(g0, inner, "flat", kind)
            return res
        return self._one(n.generators[0], n, kind, kind)

    def _one(self, g, n, mode, kind):
        it = self.visit(g.iter)
        names = _names_stored([ast.Assign([g.target], ast.Constant(None))])
        self.fn.append(dict(name="<comp>", shadow=set(names), gen=False, loopnames=[], params=[], stored=[], native=False, first=None, incls=False, cls=[], qual="<comp>", nloops=0))
        cond = ast.Constant(True)
        if g.ifs:
            conds = [self.visit(c) for c in g.ifs]
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
        if mode == "flat":
            elt = self._comp(n, kind)
        elif isinstance(n, ast.DictComp):
            elt = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load())
        else:
            elt = self.visit(n.elt)
        self.fn.pop()
        if isinstance(g.target, ast.Name):
            params = [g.target.id]
            star = ast.Constant(0)
            f1, f2 = lam(params, cond), lam(params, elt)
        else:
            # tuple target: unpack with a nested lambda
            f1, f2 = self._tuplam(g.target, cond), self._tuplam(g.target, elt)
        return call("comp", ast.Constant(kind if mode != "flat" else "flat:" + kind), it, f1, f2)

    def _tuplam(self, target, body):
        # lambda t: (lambda a, b: body)(*t)
        assert isinstance(target, (ast.Tuple, ast.List))
        ps = []
        for e in target.elts:
            if not isinstance(e, ast.Name):
                raise NotImplementedError("nested comprehension target")
            ps.append(e.id)
        return lam(["t__"], ast.Call(lam(ps, body), [ast.Starred(call("unpack", ast.Name("t__", ast.Load()), ast.Constant(len(ps))), ast.Load())], []))

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_Compare(self, n):
        self.generic_visit(n)
        ops = n.ops
        if len(ops) == 1:
            return self._cmp1(n.left, ops[0], n.comparators[0])
        parts = []
        left = n.left
        # middle operands are evaluated once in Python; all uses here are side-effect free reads
        for op, r in zip(ops, n.comparators):
            parts.append(self._cmp1(left, op, r))
            left = r
        return ast.BoolOp(ast.And(), parts)

    def _cmp1(self, l, op, r):
        if isinstance(op, ast.Is):
            return call("is_", l, r)
        if isinstance(op, ast.IsNot):
            return ast.UnaryOp(ast.Not(), call("is_", l, r))
        if isinstance(op, ast.In):
            return call("in_", l, r)
        if isinstance(op, ast.NotIn):
            return ast.UnaryOp(ast.Not(), call("in_", l, r))
        return ast.Compare(l, [op], [r])

    def visit_Yield(self, n):
        if self.fn[-1]["native"]:
            return self.generic_visit(n)
        v = self.visit(n.value) if n.value else ast.Constant(None)
        return ast.Call(ast.Attribute(ast.Name("out__", ast.Load()), "append", ast.Load()), [v], [])

    def visit_YieldFrom(self, n):
        return ast.Call(ast.Attribute(ast.Name("out__", ast.Load()), "extend", ast.Load()), [self.visit(n.value)], [])

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return call("fstr", ast.Constant("<formatted>"), lam([], n))

    # ---- statements
    def visit_Return(self, n):
        f = self.fn[-1]
        v = self.visit(n.value) if n.value is not None else ast.Constant(None)
        if f["gen"]:
            v = call("genout", ast.Name("out__", ast.Load()))
        if self.loop:
            return ast.Return(call("RET", v))
        return ast.Return(v)

    def visit_Break(self, n):
        return ast.Return(pv("BREAK"))

    def visit_Continue(self, n):
        return ast.Return(pv("NEXT"))

    def _loopfn(self, n, extra_pre, body_nodes, argname):
        f = self.fn[-1]
        self.n += 1
        lid = f["nloops"]
        f["nloops"] += 1
        names = _names_stored(([ast.Assign([n.target], ast.Constant(None))] if isinstance(n, ast.For) else []) + n.body)
        for x in names:
            if x not in f["loopnames"]:
                f["loopnames"].append(x)
        if f["gen"] and "out__" not in names:
            pass
        self.loop.append(1)
        marked = _marked(names, n)
        body = self.block(n.body)
        self.loop.pop()
        fname = "body__%d" % self.n
        fb = ([ast.Nonlocal(names)] if names else []) + extra_pre + body + [ast.Return(pv("NEXT"))]
        fn = ast.FunctionDef(fname, ast.arguments([], [ast.arg(argname)] if argname else [], None, [], [], None, []), fb, [], None)
        fn.type_params = []
        return fname, fn, marked, "%s.%s#%d" % (self.modname, f["qual"], lid)

    def _after(self, n, rname):
        out = []
        f = self.fn[-1]
        test = ast.Compare(ast.Attribute(ast.Name(rname, ast.Load()), "kind", ast.Load()), [ast.Eq()], [ast.Constant("return")])
        val = ast.Attribute(ast.Name(rname, ast.Load()), "value", ast.Load())
        if self.loop:
            val = call("RET", val)
        out.append(ast.If(test, [ast.Return(val)], []))
        if n.orelse:
            t2 = ast.Compare(ast.Attribute(ast.Name(rname, ast.Load()), "kind", ast.Load()), [ast.Eq()], [ast.Constant("end")])
            out.append(ast.If(t2, self.block(n.orelse), []))
        return out

    def visit_For(self, n):
        it = self.visit(n.iter)
        tgt = n.target
        argname = "x__%d" % (self.n + 1)
        pre = [ast.Assign([tgt], ast.Name(argname, ast.Load()))] if isinstance(tgt, ast.Name) else \
              [ast.Assign([tgt], call("unpack", ast.Name(argname, ast.Load()), ast.Constant(len(tgt.elts))))]
        fname, fn, names, lid = self._loopfn(n, pre, n.body, argname)
        tnames = _names_stored([ast.Assign([n.target], ast.Constant(None))])
        rname = fname.replace("body", "res")
        res = [fn, ast.Assign([ast.Name(rname, ast.Store())],
               call("for_", ast.Constant(lid), it, ast.Name(fname, ast.Load()), ast.Constant(tuple(names)), ast.Constant(tuple(tnames))))]
        return res + self._after(n, rname)

    def visit_While(self, n):
        cond = self.visit(n.test)
        fname, fn, names, lid = self._loopfn(n, [], n.body, None)
        rname = fname.replace("body", "res")
        res = [fn, ast.Assign([ast.Name(rname, ast.Store())],
               call("while_", ast.Constant(lid), lam([], cond), ast.Name(fname, ast.Load()), ast.Constant(tuple(names))))]
        return res + self._after(n, rname)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n

    def visit_Assert(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        if isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return [ast.Pass()]
        n.body = self.block(n.body) or [ast.Pass()]
        n.orelse = self.block(n.orelse)
        return n

    def visit_With(self, n):
        n.items = [ast.withitem(self.visit(i.context_expr), i.optional_vars) for i in n.items]
        n.body = self.block(n.body) or [ast.Pass()]
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body) or [ast.Pass()]
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.block(h.body) or [ast.Pass()]
        n.orelse = self.block(n.orelse)
        n.finalbody = self.block(n.finalbody)
        return n


def transform_source(src, filename, modname):
    tree = ast.parse(src, filename)
    t = T(modname)
    body = []
    for s in tree.body:
        r = t.visit(s)
        if r is None:
            continue
        body += r if isinstance(r, list) else [r]
    tree.body = body
    ast.fix_missing_locations(tree)
    return tree
