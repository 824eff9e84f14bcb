"""C16: the declared-type check rejects exactly the wrongly typed values."""
from .base import *
from .coll import *
from .c08 import truthy
from .c18 import VAL
from pyvc.engine import Engine
from pyvc.gdict import GDict, dict_hook

LIT = z3.Function("fixed_by_pattern", I, B)
INST = pv.f_isinst
f_vt = z3.Function("value_type", I, I)


def E_():
    return Engine.cur


class Key:
    """A declared key."""
    _vc_kind = "key"

    def __init__(self, c):
        self.c = c
        self.name = SVal(z3.Function("key_name", I, I)(c), "str")
        self.value_type = SVal(f_vt(c), "any")

    def _vc_enc(self):
        return self.c


@task(["C16", "C20"], "match._BaseMatches.check_declared_keys", functions=["match._BaseMatches.check_declared_keys"])
def _check(e, ctx):
    vm = load_match(e, ctx)

    def body():
        e.decoders["key"] = Key

        def value(self):
            e.stubs_used.add("match.Match.value")
            return SVal(VAL(ref(self)), "any")

        def lit(self):
            e.stubs_used.add("match.Match.has_literal_value")
            return SBool(LIT(ref(self)))
        vm.Match.value = property(value)
        vm.Match.has_literal_value = property(lit)
        M, L = abs_coll(e, vm)
        abstract(e, vm)
        d = GDict.fresh("str", "key", "declared")
        M.__dict__["declared_keys"] = d
        k0, v0 = d.kterm(), d.arr()
        for f in FIELDS:
            sel(e, f, z3.IntVal(0))
        h0 = dict(e.heap)

        def wrong(x):
            nm, v = sel(e, "name", x), VAL(x)
            return z3.And(nm != NONE, nm != 0, f_mem(nm, k0), z3.Not(truthy(sel(e, "private", x))), z3.Not(LIT(x)), v != NONE, z3.Not(INST(v, f_vt(z3.Select(v0, nm)))))
        bad = flt(e, L, wrong)
        try:
            r = M.check_declared_keys()
        except TypeError as x:
            e.prove("rejected only when a public match of a declared name, neither missing nor literal, is not of the declared type", bad != nil, assume=False)
        else:
            e.prove("accepted only when there is none", bad == nil, assume=False)
            e.prove("nothing is returned", r is None)
        e.prove("the collection is not changed", content(M) == L)
        e.prove("the declared keys are not changed", z3.And(d.kterm() == k0, d.arr() == v0))
        for f, t in h0.items():
            e.prove("no match is changed", e.heap[f] == t)
        done(e)
    return body


# ------------------------------------------------------------------ declared and unused
f_props = z3.Function("declared_properties", I, LST)
f_pname = z3.Function("pattern_name", I, I)
f_kindof = z3.Function("pattern_kind", I, I)           # 0: regular expression, 1: chain, else: another
f_parts = z3.Function("parts_of", I, LST)
f_exprs = z3.Function("expressions_of", I, LST)
f_partp = z3.Function("pattern_of_part", I, I)
f_groups = z3.Function("group_names", I, LST)
f_prod = z3.Function("producible_names", I, LST)       # contract of _producible_names, as a set
f_keysof = z3.Function("keys_of", I, LST)
f_patsof = z3.Function("patterns_of", I, LST)


class Bag:
    """A set, by the list of what was put into it: only membership is asked."""
    _vc_isa = (set,)
    _vc_inplace = True

    def __init__(self, l):
        self.l = l
        self._born = l._born

    def add(self, v):
        self.l.append(v)

    def update(self, o):
        self.l.extend(o.l if isinstance(o, Bag) else o)

    def __ior__(self, o):
        self.update(o)
        return self

    def _vc_has(self, x):
        return f_mem(encode(x), self.l.term())


def bag(x=()):
    l = SymList()
    l._kind_hint = "str"
    if not (isinstance(x, tuple) and not x):
        l.extend(x)
    return Bag(l)


class Obj:
    """An object of the code verified, by its code: attributes are functions of it."""

    def __init__(self, c, kind, **attrs):
        self.c = c
        self._vc_kind = kind
        self.__dict__.update(attrs)

    def _vc_enc(self):
        return self.c


@task("C16", "rebulk._producible_names", functions=["rebulk._producible_names"])
def _prod(e, ctx):
    rb = ctx.rebulk
    real = rb._producible_names

    def body():
        e.set_hook = lambda x=(): bag(x)
        e.decoders["part"] = lambda c: Obj(c, "part", pattern=Obj(f_partp(c), "pat"))
        e.decoders["expr"] = lambda c: Obj(c, "expr", groupindex=SymList.of_term(f_groups(c), "str"))
        c = e.freshint("pattern")
        how = e.choose(3)
        cls = (rb.RePattern, rb.Chain, rb.Pattern)[how]
        name = SVal(f_pname(c), "optstr")
        e.assume(name.t >= NONE)

        class P:
            _vc_isa = (cls,)
            properties = SymList.of_term(f_props(c), "str")
        p = P()
        p.name = name
        exprs, parts = f_exprs(c), f_parts(c)
        p.patterns, p.parts = SymList.of_term(exprs, "expr"), SymList.of_term(parts, "part")
        def rec(q):
            e.stubs_used.add("rebulk._producible_names")
            return Bag(SymList.of_term(f_prod(encode(q)), "str"))
        rb._producible_names = rec
        got = real(p).l.term()
        x = e.freshint("name")
        y = e.freshint("y")
        tail = [e.comps.make(y, f_groups(y), exprs), e.comps.make(y, f_prod(f_partp(y)), parts), nil][how]
        want = z3.Or(f_mem(x, f_props(c)), z3.And(name.t == x, x != NONE, x != 0), f_mem(x, tail))
        e.prove("its declared properties, its name, its group names, what the parts of a chain produce", f_mem(x, got) == want, assume=False)
        e.prove("the pattern is not changed", z3.And(p.properties.term() == f_props(c), p.patterns.term() == exprs, p.parts.term() == parts))
        done(e)
    return body


class Declared:
    """A dictionary of declared keys, by its names."""
    _vc_isa = (dict,)

    def __init__(self, t):
        self.l = SymList.of_term(t, "str")
        self._born = self.l._born

    def setdefault(self, k, v):
        c = encode(k)
        if not E_().fork(f_mem(c, self.l.term())):
            self.l.set_term(f_snoc(self.l.term(), c), "str")

    def items(self):
        t = self.l.term()
        it = SymIter(f_len(t), lambda i: (SVal(f_at(t, i), "str"), None), source=self)
        it.enum = lst_iter(t, "str", distinct=True)
        it.of_key = lambda c: (SVal(c, "str"), None)
        return it

    def __bool__(self):
        return bool(self.l)

    def _vc_iter(self):
        return iterate(self.l)


class Part(Obj):
    _vc_kind = "rebulk"

    def __init__(self, c):
        self.c = c
        self._keys = Declared(f_keysof(c))
        self._patterns = SymList.of_term(f_patsof(c), "pat")


def ck_outer(S):
    e = E_()
    x, y = e.freshint("nx"), e.freshint("ny")
    return [("patterns", S.v("patterns").term() == f_cat(f_patsof(e.self_code), e.comps.make(y, f_patsof(y), S.done))),
            ("names", e.built.l.term() == T.f_uni(f_keysof(e.self_code), e.comps.make(x, f_keysof(x), S.done)))]


def ck_inner(S):
    e = E_()
    return [("names", e.built.l.term() == T.f_uni(S.entry["extra"], f_take(f_keysof(E_().inner), S.i)))]


@task("C16", "rebulk.Rebulk.check_keys", functions=["rebulk.Rebulk.check_keys"],
      hints={"rebulk.Rebulk.check_keys#0": dict(inv=ck_outer), "rebulk.Rebulk.check_keys#1": dict(inv=ck_inner, entry=lambda S: E_().built.l.term())})
def _ckeys(e, ctx):
    rb = ctx.rebulk

    def body():
        e.set_hook = lambda x=(): bag(x)
        e.decoders["pat"] = lambda c: Obj(c, "pat")

        def reb(c):
            e.inner = c
            return Part(c)
        e.decoders["rebulk"] = reb

        def copy(*a):
            if len(a) == 1 and isinstance(a[0], Declared):
                e.built = Declared(a[0].l.term())
                return e.built
            return NotImplemented
        e.dict_hook = copy

        def rec(q):
            e.stubs_used.add("rebulk._producible_names")
            return Bag(SymList.of_term(f_prod(encode(q)), "str"))
        rb._producible_names = rec
        e.self_code = c = e.freshint("self")
        r = object.__new__(rb.Rebulk)
        RB = e.fresh("rebulks", LST)
        x = z3.Int("kd!")
        e.assume(T.ax([x], f_dist(f_keysof(x)), f_keysof(x)))
        r.__dict__["_keys"], r.__dict__["_patterns"], r.__dict__["_rebulks"] = Declared(f_keysof(c)), SymList.of_term(f_patsof(c), "pat"), SymList.of_term(RB, "rebulk")
        one = SVal(e.freshint("allowed"), "str")
        many = SymList.of_term(e.fresh("alloweds", LST), "str")
        how = e.choose(3)
        out = r.check_keys() if how == 0 else r.check_keys(allowed_unused=one if how == 1 else many)
        ok = [lambda n: z3.BoolVal(False), lambda n: n == one.t, lambda n: f_mem(n, many.term())][how]
        y, z, w, n = (e.freshint(q) for q in "yzwn")
        pats, names = e.fresh("all_patterns", LST), e.fresh("all_names", LST)
        e.assume(pats == f_cat(f_patsof(c), e.comps.make(y, f_patsof(y), RB)))
        e.assume(names == T.f_uni(f_keysof(c), e.comps.make(z, f_keysof(z), RB)))
        prod = e.comps.make(w, f_prod(w), pats)
        unused = e.comps.make(n, z3.If(z3.And(z3.Not(f_mem(n, prod)), z3.Not(ok(n))), f_snoc(nil, n), nil), names)
        e.prove("the declared names nothing produces or allows, sorted", out.term() == z3.If(names == nil, nil, pv.sort_term(unused, "str", None, False)), assume=False)
        e.prove("nothing is changed", z3.And(r.__dict__["_keys"].l.term() == f_keysof(c), r.__dict__["_patterns"].term() == f_patsof(c), r.__dict__["_rebulks"].term() == RB))
        done(e)
    return body
