"""C15: dictionaries and typed projections carry exactly the matched values."""
from .base import *
from .coll import *
from .c18 import VAL
from pyvc.engine import Engine
from pyvc.gdict import GDict

f_islist = z3.Function("value_is_list", I, B)
f_vitems = z3.Function("items_of_value", I, LST)


def E_():
    return Engine.cur


def values(e, L):
    x = e.freshint("vx")
    return e.comps.make(x, f_snoc(nil, VAL(x)), L)


def env(e, ctx):
    vm = load_match(e, ctx)

    def value(self):
        e.stubs_used.add("match.Match.value")
        return SVal(VAL(ref(self)), "any")
    vm.Match.value = property(value)
    return vm


def frame0(e, M):
    for f in FIELDS:
        sel(e, f, z3.IntVal(0))
    return dict(e.heap)


def untouched(e, M, L, h0):
    e.prove("the collection is not changed", content(M) == L)
    g = [e.heap[f] == t for f, t in h0.items()]
    e.prove("no match is changed", z3.And(g))


# ------------------------------------------------------------------ typed access
class TKey:
    """A typed key, of this name and type."""

    def __init__(self, name, vt):
        self.name, self.value_type = name, vt


@task("C15", "match._BaseMatches.__getitem__ (typed key), all", functions=["match._BaseMatches.all"])
def _keyed(e, ctx):
    vm = env(e, ctx)

    def body():
        M, L = abs_coll(e, vm)
        abstract(e, vm)
        key = type("AKey", (TKey,), dict(_vc_isa=(vm.Key,)))(SVal(e.freshint("key"), "str"), SVal(e.freshint("type"), "any"))
        e.assume(z3.And(key.name.t != NONE, key.name.t != 0))
        h0 = frame0(e, M)
        named = at_key(e, L, "name", key.name.t)
        if e.choose(2):
            r = M[key]
            if r is None:
                e.prove("nothing only when no match has the name", named == nil, assume=False)
            else:
                e.prove("the value of the first match of that name", z3.And(named != nil, encode(r) == VAL(f_at(named, 0))), assume=False)
        else:
            r = M.all(key)
            e.prove("all values of matches of that name, in order", r.term() == values(e, named), assume=False)
        untouched(e, M, L, h0)
        done(e)
    return body


# ------------------------------------------------------------------ element types
f_elem = z3.Function("element_type", I, I)     # contract of _element_type
f_args = z3.Function("type_arguments", I, LST)
CONTAINER = z3.Function("is_container", I, B)
SUB = pv.f_issub


class Hint:
    """An annotation, by its code."""
    _vc_kind = "hint"

    def __init__(self, c):
        self.c = c

    def _vc_enc(self):
        return self.c


@task("C15", "match._element_type", functions=["match._element_type"])
def _elem(e, ctx):
    vm = ctx.match
    real = vm._element_type

    def body():
        how = e.choose(6)       # Any, list, Union, X | Y, a class, anything else
        c = e.freshint("hint")
        nt = e.freshint("NoneType")
        h = vm.Any if how == 0 else Hint(c)
        if how == 4:
            h = type("Hint4", (Hint,), dict(_vc_isa=(type,)))(c)
        vm.get_origin = lambda x: [None, list, vm.Union, vm.UnionType, None, None][how] if x is h else None
        NT = Hint(nt)
        e.decoders["hint"] = Hint
        vm.get_args = lambda x: SymList.of_term(f_args(encode(x)), "hint")
        vm.pv__ = _Types(vm.pv__, NT, h, c)

        def rec(x):
            e.stubs_used.add("match._element_type")
            t = f_elem(encode(x))
            return None if e.fork(t == NONE) else SVal(t, "any")
        vm._element_type = rec
        r = real(h)
        r = NONE if r is None else encode(r)
        A = f_args(c)
        x = e.freshint("arg")
        some = e.comps.make(x, z3.If(x == nt, nil, f_snoc(nil, x)), A)
        if how == 0:
            e.prove("Any: unknown", r == NONE)
        elif how == 1:
            e.prove("a list: that of its items", r == z3.If(A == nil, NONE, f_elem(f_at(A, 0))), assume=False)
        elif how in (2, 3):
            e.prove("a union: that of its only member other than None", r == z3.If(f_len(some) == 1, f_elem(f_at(some, 0)), NONE), assume=False)
        elif how == 4:
            e.prove("a class: itself, unless it is a container", r == z3.If(CONTAINER(c), NONE, c))
        else:
            e.prove("anything else: unknown", r == NONE)
        done(e)
    return body


class _Types:
    """Hooks of the verified module, with type(None), identity of classes and subclassing of containers given."""

    def __init__(self, base, NT, h, c):
        self.__dict__.update(base=base, NT=NT, h=h, c=c)

    def __getattr__(self, n):
        return getattr(self.base, n)

    def is_(self, a, b):
        if isinstance(a, Hint) and isinstance(b, Hint):
            return SBool(a.c == b.c)
        return self.base.is_(a, b)

    def b_isinstance(self, x, cs):
        cs = cs if isinstance(cs, tuple) else (cs,)
        return self.base.b_isinstance(x, tuple(type if c == self.b_type else c for c in cs))

    def b_type(self, *a):
        if a == (None,):
            return self.NT
        return self.base.b_type(*a)

    def b_issubclass(self, a, b):
        if isinstance(a, Hint):
            if isinstance(b, tuple):
                E_().prove("the containers", bool(set(pv.realcls(x) for x in b) == {list, tuple, set, frozenset, dict}))
                return SBool(CONTAINER(a.c))
            return SBool(SUB(a.c, encode(b)))
        return self.base.b_issubclass(a, b)


@task("C15", "match._contradicts", functions=["match._contradicts"])
def _contra(e, ctx):
    vm = ctx.match

    def body():
        h, d = Hint(e.freshint("hint")), SVal(e.freshint("declared"), "any")

        def elem(x):
            e.stubs_used.add("match._element_type")
            t = f_elem(encode(x))
            return None if e.fork(t == NONE) else SVal(t, "any")
        vm._element_type = elem
        r = vm._contradicts(h, d)
        el = f_elem(h.c)
        e.prove("a type contradicts a known element type unless one is a subclass of the other", bterm(r) == z3.And(el != NONE, z3.Not(SUB(el, d.t)), z3.Not(SUB(d.t, el))), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ projections
f_many = z3.Function("list_of_values", LST, I)
f_one = z3.Function("one_value", I, I)
f_hlist = z3.Function("is_list_annotation", I, B)
CON = z3.Function("contradicts", I, I, B)
f_vt = z3.Function("value_type", I, I)


class Filled(GDict):
    """The fields of a model: each a list of values or one value."""

    def __init__(self):
        super().__init__(nil, "str", "kwv")

    def __setitem__(self, k, v):
        c = encode(k)
        self.names.set_term(T.f_uni(self.kterm(), f_snoc(nil, c)), "str")
        E_().write(self.f, c, self.enc(v))

    def enc(self, v):
        if isinstance(v, SymList):
            return f_many(v.term())
        return f_one(encode(v))


class Decl:
    _vc_kind = "decl"

    def __init__(self, c):
        self.c, self.value_type = c, SVal(f_vt(c), "any")

    def _vc_enc(self):
        return self.c


class Field:
    _vc_kind = "field"

    def __init__(self, c):
        self.c, self.name = c, SVal(c, "str")

    def _vc_enc(self):
        return self.c


def to_spec(e):
    L, hk, ha, dk, da = e.to
    named = lambda n: values(e, at_key(e, L, "name", n))
    islist = lambda n: z3.And(f_mem(n, hk), f_hlist(z3.Select(ha, n)))
    bad = lambda n: z3.And(f_mem(n, dk), f_mem(n, hk), CON(z3.Select(ha, n), f_vt(z3.Select(da, n))))
    there = lambda n: z3.Or(islist(n), named(n) != nil)
    what = lambda n: z3.If(islist(n), f_many(named(n)), f_one(f_at(named(n), 0)))
    return bad, there, what


def to_inv(S):
    e = E_()
    bad, there, what = to_spec(e)
    K = S.v("kwargs")
    n = e.n0
    x = z3.Int("tb!")
    return [("fields filled", K.has(n) == z3.And(f_mem(n, S.done), there(n))),
            ("as they should", z3.Implies(K.has(n), K.at(n) == what(n))),
            ("no contradiction yet", allmem(S.done, lambda y: z3.Not(bad(y)), x))]


@task("C15", "match._BaseMatches.to (dataclass)", functions=["match._BaseMatches.to"], hints={"match._BaseMatches.to#0": dict(inv=to_inv, types={"name": "str"})})
def _to1(e, ctx):
    return _to(e, ctx, [1])


@task("C15", "match._BaseMatches.to (typed dictionary)", functions=["match._BaseMatches.to"], hints={"match._BaseMatches.to#0": dict(inv=to_inv, types={"name": "str"})})
def _to2(e, ctx):
    return _to(e, ctx, [2])


@task("C15", "match._BaseMatches.to (list, value)", functions=["match._BaseMatches.to"])
def _to3(e, ctx):
    return _to(e, ctx, [0, 3, 4])


def _to(e, ctx, hows):
    vm = env(e, ctx)

    def body():
        M, L = abs_coll(e, vm)
        abstract(e, vm)
        how = hows[e.choose(len(hows))]
        made = []

        class Model:
            __name__ = "Model"
            _vc_isa = (type,) if how in (1, 2, 3) else ()

            def __call__(self, *a, **kw):
                r = object()
                made.append((r, a, kw))
                return r
        model, item = Model(), Model()
        itemkind = e.choose(4) if how == 0 else 0        # none given, scalar, dataclass, typed dictionary
        hints = GDict.fresh("str", "hint", "hints")
        decl = GDict.fresh("str", "decl", "declared")
        M.__dict__["declared_keys"] = decl
        x = z3.Int("fn!")
        FN = e.fresh("fields", LST)
        e.assume(f_dist(FN))
        e.assume(T.ax([x], z3.Implies(f_mem(x, FN), z3.And(x != NONE, x != 0)), f_mem(x, FN)))
        e.assume(T.ax([x], z3.Implies(f_mem(x, hints.kterm()), z3.And(x != NONE, x != 0)), f_mem(x, hints.kterm())))
        e.decoders["hint"], e.decoders["decl"], e.decoders["field"] = Hint, Decl, Field
        e.mkdict_hook = lambda pairs: Filled() if not list(pairs) else NotImplemented

        def origin(h):
            if h is model:
                return list if how == 0 else None
            if isinstance(h, Hint):
                return list if e.fork(f_hlist(h.c)) else None
            return None

        class DC:
            @staticmethod
            def is_dataclass(m):
                return (m is model and how == 1) or (m is item and itemkind == 2)

            @staticmethod
            def fields(m):
                assert m is model
                return SymList.of_term(FN, "field")
        vm.get_origin, vm.dataclasses = origin, DC
        vm.is_typeddict = lambda m: (m is model and how == 2) or (m is item and itemkind == 3)
        vm.get_args = lambda m: () if itemkind == 0 else (item,)
        vm.get_type_hints = lambda m: hints

        def con(h, d):
            e.stubs_used.add("match._contradicts")
            return False if h is None else SBool(CON(encode(h), encode(d)))
        vm._contradicts = con
        vm.cast = lambda t, v: v
        dk, da, hk, ha = decl.kterm(), decl.arr(), hints.kterm(), hints.arr()
        e.to = (L, hk, ha, dk, da)
        e.n0 = e.freshint("field")
        bad, there, what = to_spec(e)
        F = FN if how == 1 else hk
        h0 = frame0(e, M)
        y = z3.Int("tb!")
        try:
            r = M.to(model)
        except TypeError:
            if how == 0:
                e.prove("refused: a list of structured items", itemkind in (2, 3))
            elif how in (1, 2):
                w = e.freshint("w")
                e.prove("refused: only when the type of a field contradicts the declared key", z3.Not(allmem(F, lambda q: z3.Not(bad(q)), y)), assume=False)
            else:
                e.prove("refused: not a model", how == 4)
        except LookupError:
            e.prove("no value: only when there is no match", z3.And(z3.BoolVal(how == 3), L == nil))
        else:
            if how == 0:
                e.prove("a list: of scalars", itemkind in (0, 1))
                e.prove("a list: the values of all matches, in order", r.term() == values(e, L), assume=False)
            elif how == 3:
                e.prove("a value: that of the first match", z3.And(L != nil, encode(r) == VAL(f_at(L, 0))), assume=False)
            else:
                e.prove("a model: made once, of the fields", bool(how in (1, 2) and len(made) == 1 and made[0][0] is r and not made[0][1] and list(made[0][2]) == ["**"]))
                K = made[0][2]["**"]
                n = e.n0
                e.prove("a model: no field contradicts a declared key", z3.Implies(f_mem(n, F), z3.Not(bad(n))), assume=False)
                e.prove("a model: the fields that are lists or have a match", K.has(n) == z3.And(f_mem(n, F), there(n)), assume=False)
                e.prove("a model: a list field has all values of that name, another the first", z3.Implies(K.has(n), K.at(n) == what(n)), assume=False)
        untouched(e, M, L, h0)
        e.prove("the declared keys are not changed", z3.And(decl.kterm() == dk, decl.arr() == da))
        done(e)
    return body


# ------------------------------------------------------------------ dictionary
f_itemcode = z3.Function("list_as_value", LST, I)


class Lists:
    """defaultdict(list) of a result: name -> list, on the heap."""

    def __init__(self, kind):
        e = E_()
        e.counter += 1
        self._born = stamp()
        self.f = "td%d" % e.counter
        self.kind = kind
        e.field(self.f, TAGS)
        y = z3.Int("td!")
        e.assume(T.ax([y], z3.Select(e.heap[self.f], y) == nil, z3.Select(e.heap[self.f], y)))

    def at(self, c):
        return z3.Select(E_().heap[self.f], c)

    def __getitem__(self, k):
        e, c = E_(), encode(k)
        return SymList.of_slot(lambda: self.at(c), lambda t: e.write(self.f, c, t), self.kind, ("td", self.f, c))


class Result:
    """The dictionary under construction: per name, a bare value or a list."""
    _vc_isa = (dict,)

    def __init__(self):
        e = E_()
        self._born = stamp()
        e.counter += 1
        self.names = SymList.of_term(nil, "optstr")
        self.fl, self.fb, self.fv = ("tr%d%s" % (e.counter, s) for s in ("l", "b", "v"))
        e.field(self.fl, TAGS)
        e.field(self.fb), e.field(self.fv)
        self.matches, self.values_list = Lists(e.tdkind), Lists(e.tdkind)
        e.ret = self

    def has(self, c):
        return f_mem(c, self.names.term())

    def lst(self, c):
        return z3.Select(E_().heap[self.fl], c)

    def islist(self, c):
        return z3.Select(E_().heap[self.fb], c) == 1

    def bare(self, c):
        return z3.Select(E_().heap[self.fv], c)

    def _vc_has(self, k):
        return self.has(encode(k))

    def __getitem__(self, k):
        e, c = E_(), encode(k)
        if not e.fork(self.has(c)):
            raise prog(KeyError("key"))
        if e.fork(self.islist(c)):
            return SymList.of_slot(lambda: self.lst(c), lambda t: e.write(self.fl, c, t), e.tdkind, ("td", self.fl, c))
        return decode(self.bare(c), e.tdkind)

    def __setitem__(self, k, v):
        e, c = E_(), encode(k)
        self.names.set_term(T.f_uni(self.names.term(), f_snoc(nil, c)), "optstr")
        if isinstance(v, SymList):
            if v._slot is not None:
                raise Unsupported("a list stored twice")
            e.write(self.fl, c, v.term())
            e.write(self.fb, c, z3.IntVal(1))
        else:
            e.write(self.fv, c, encode(v))
            e.write(self.fb, c, z3.IntVal(0))


def td_state(e, done):
    """What the result says of the name n0 after these matches."""
    n = e.n0
    F = flt(e, done, lambda x: sel(e, "name", x) == n)
    V = F if e.details else values(e, F)
    v0 = f_at(V, 0)
    R = e.ret
    lv = z3.And(z3.BoolVal(not e.details), f_islist(v0))
    U = T.f_uni(nil, V)
    if e.first:
        isl = z3.Or(lv, z3.BoolVal(e.enforce))
        lst = z3.If(lv, f_vitems(v0), f_snoc(nil, v0))
    else:
        isl = z3.Or(lv, z3.BoolVal(e.enforce), U != f_snoc(nil, v0))      # more than one distinct value
        lst = z3.If(lv, T.f_uni(f_vitems(v0), f_drop(V, 1)), U)
    some = F != nil
    r = [("entry for each name", R.has(n) == some),
         ("matches of each name", R.matches.at(n) == F),
         ("distinct values of each name", R.values_list.at(n) == (nil if e.enforce else U)),
         ("a bare value or a list", z3.Implies(some, R.islist(n) == isl)),
         ("the list", z3.Implies(z3.And(some, isl), R.lst(n) == lst)),
         ("the value", z3.Implies(z3.And(some, z3.Not(isl)), R.bare(n) == v0))]
    return r


def td_inv(S):
    e = E_()
    x = e.freshint("tn")
    y = z3.Int("tq!")
    R = e.ret
    bare = T.ax([y], z3.Implies(z3.And(R.has(y), z3.Not(R.islist(y))), z3.Not(f_islist(R.bare(y)))), R.bare(y))
    return td_state(e, S.done) + [("no list is a bare value", z3.BoolVal(True) if e.details else bare), ("names in order", e.ret.names.term() == T.f_uni(nil, e.comps.make(x, f_snoc(nil, sel(e, "name", x)), S.done)))]


def _td(e, ctx, how):
    vm = env(e, ctx)

    def body():
        M, L = abs_coll(e, vm)
        abstract(e, vm)
        e.details, e.first, e.enforce = bool(how & 1), bool(how & 2), bool(how & 4)
        e.tdkind = "ref" if e.details else "any"
        vm.MatchesDict = Result
        S = e.fresh("sorted", LST)

        def srt(s, key, reverse):
            e.prove("sorted by position", bool(key is None and reverse is False) and s.lst == L)
            return SymList.of_term(S, "ref")
        e.sort_hook = srt
        wf_matches(e, S)
        e.isinstance_hook = lambda x, cs: SBool(f_islist(x.t)) if set(cs) == {list} else NotImplemented
        e.iter_hook = lambda x: lst_iter(f_vitems(x.t), "any") if isinstance(x, SVal) else NotImplemented
        # values are taken up to equality (lawful: C18); two matches in play are equal only when they are the same
        e.mem_eq = {"any": lambda v, t: f_mem(encode(v), t), "ref": lambda v, t: f_mem(encode(v), t)}
        e.assumptions.add("values are compared by a lawful equality; two matches in one collection do not compare equal")

        def same(a, b):        # equal values may be different objects
            t = e.fresh("same_object", B)
            e.assume(z3.Implies(t, a.t == b.t))
            return SBool(t)
        e.is_hook = same
        a, b = z3.Int("ea!"), z3.Int("eb!")
        e.assume(T.ax([a, b], T.f_veq(a, b) == (a == b), T.f_veq(a, b)))

        def eq(self, o):
            e.stubs_used.add("match.Match.__eq__")
            return SBool(ref(self) == ref(o))
        vm.Match.__eq__ = eq
        e.n0 = e.freshint("name")
        h0 = frame0(e, M)
        R = M.to_dict(details=e.details, first_value=e.first, enforce_list=e.enforce)
        e.prove("the dictionary", R is e.ret)
        for label, g in td_state(e, S):
            e.prove(label, g, assume=False)
        untouched(e, M, L, h0)
        done(e)
    return body


for _h in range(8):
    _n = "match._BaseMatches.to_dict (%s)" % (", ".join(n for b, n in ((1, "details"), (2, "first_value"), (4, "enforce_list")) if _h & b) or "values")
    task("C15", _n, functions=["match._BaseMatches.to_dict"], hints={"match._BaseMatches.to_dict#0": dict(inv=td_inv, types={"match": "ref"})})(lambda e, ctx, h=_h: _td(e, ctx, h))


@task(["C15", "C20"], "match.MatchesDict.__init__", functions=["match.MatchesDict.__init__"])
def _mdinit(e, ctx):
    m = ctx.match

    def body():
        made = []

        class Table:
            def __init__(self, default=None):
                self.default = default
                made.append(self)
        m.defaultdict = Table
        d = m.MatchesDict.__new__(m.MatchesDict)
        m.MatchesDict.__init__(d)
        e.prove("the matches and the values by name are two new tables of lists", len(made) == 2 and {id(d.matches), id(d.values_list)} == {id(x) for x in made} and all(x.default is not None and issubclass(x.default, list) or x.default is SymList for x in made))
        done(e)
    return body
