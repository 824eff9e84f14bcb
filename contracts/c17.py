"""C17: a composed rebulk runs exactly its enabled parts, once each."""
from .base import *
from .coll import load_match, allmem, flt
from .c11 import Pat, f_pdis
from pyvc.engine import Engine
from pyvc.values import f_app

f_rdis = z3.Function("rebulk_disabled", I, I, B)
f_hashable = z3.Function("hashable", I, B)
f_part = {n: z3.Function("own_" + n, I, LST) for n in ("_patterns", "_rules")}


def E_():
    return Engine.cur


# ------------------------------------------------------------------ the union
class Elt:
    """An arbitrary element: equality is that of its code, it may be hashable or not."""
    _vc_kind = "elt"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    def __eq__(self, o):
        return SBool(self.code == o.code) if isinstance(o, Elt) else False

    def __ne__(self, o):
        return SBool(self.code != o.code) if isinstance(o, Elt) else True

    __hash__ = None


class HSet(SymSet):
    """A set: putting in, or asking for, something unhashable raises TypeError."""

    def __init__(self, it=()):
        e = E_()
        src = iterate(it)
        if isinstance(src, SymIter):
            x = z3.Int("hx!")
            if not e.fork(T.ax([x], z3.Implies(f_mem(x, src.lst), f_hashable(x)), f_mem(x, src.lst))):
                raise prog(TypeError("unhashable"))
        SymSet.__init__(self, it)

    def _check(self, v):
        if isinstance(v, Elt) and not E_().fork(f_hashable(v.code)):
            raise prog(TypeError("unhashable"))

    def contains(self, v):
        self._check(v)
        return SymSet.contains(self, v)

    def add(self, v):
        self._check(v)
        SymSet.add(self, v)


def marked(s, x):
    if s._fn is not None:
        return s._fn(x)
    return z3.Or([encode(v) == x for v in s._items] or [z3.BoolVal(False)])


def pats(t):
    t = z3.simplify(t)
    return [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() else []


def ext_inv(S):
    e = E_()
    t = e.target.term()
    x = z3.Int("ex!")
    seen = S.v("seen")
    r = marked(seen, x)
    return [("target so far", t == T.f_uni(e.T0, S.done)), ("what was seen is what is in target", T.ax([x], r == f_mem(x, t), *(pats(r) or [f_mem(x, t)]))),
            ("what is in target was seen", T.ax([x], r == f_mem(x, t), f_mem(x, t)))]


def ext_entry(S):
    return E_().target.term()


def ext_inv2(S):
    e = E_()
    return [("target so far", e.target.term() == T.f_uni(S.entry["extra"], S.done))]


@task(["C17"], "utils.extend_safe", functions=["utils.extend_safe"], hints={"utils.extend_safe#0": dict(inv=ext_inv), "utils.extend_safe#1": dict(inv=ext_inv2, entry=ext_entry)})
def _ext(e, ctx):
    u = ctx.utils
    e.decoders["elt"] = Elt
    e.set_hook = HSet
    e.mem_eq["elt"] = lambda v, t: f_mem(encode(v), t)
    e.assumptions.add("equality of patterns, rules and property values is an equivalence consistent with their hash")

    def body():
        e.T0, S0 = e.fresh("T", LST), e.fresh("S", LST)
        e.target = SymList.of_term(e.T0, "elt")
        src = SymList.of_term(S0, "elt")
        u.extend_safe(e.target, src)
        e.prove("target is followed by the elements of source that were not there, each once, in order", e.target.term() == T.f_uni(e.T0, S0), assume=False)
        e.prove("source is not changed", src.term() == S0)
        done(e)
    return body


# ------------------------------------------------------------------ composition
class Child:
    """An arbitrary child rebulk: its own parts are not to be written."""
    _vc_kind = "child"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    def disabled(self, context):
        e = E_()
        e.prove("the context given reaches the disabling function of every child", z3.BoolVal(context is e.given_context))
        return SBool(f_rdis(self.code, encode(context)))

    def _own(self, name):
        def put(t):
            raise Unsupported("the own %s of a child are modified" % name)
        return SymList.of_slot(lambda: f_part[name](self.code), put, "pat" if name == "_patterns" else "rule")

    _patterns = property(lambda self: self._own("_patterns"))
    _rules = property(lambda self: self._own("_rules"))

    @property
    def _keys(self):
        return OwnKeys(self.code)


class ARule(Elt):
    _vc_kind = "rule"


def contract_extend_safe(e, mod):
    """target is followed by the elements of source that were not there (proved on utils.extend_safe)."""
    def extend_safe(target, source):
        e.stubs_used.add("utils.extend_safe")
        src = iterate(source)
        if isinstance(src, SymIter):
            t = src.lst
        else:
            t = nil
            for v in src:
                t = f_snoc(t, encode(v))
        target.set_term(T.f_uni(target.term(), t), (target._kind or (src.kind if isinstance(src, SymIter) else None)))
    mod.extend_safe = extend_safe


def compose(e, rb):
    e.decoders["pat"] = Pat
    e.decoders["rule"] = ARule
    e.decoders["child"] = Child
    contract_extend_safe(e, rb)
    r = object.__new__(rb.Rebulk)
    RB = e.fresh("children", LST)
    e.given_context = object()
    r.__dict__["_rebulks"] = SymList.of_term(RB, "child")
    return r, RB


def effective(e, P0, RB, name):
    c = encode(e.given_context)
    x = e.freshint("cx")
    return T.f_uni(P0, e.comps.make(x, z3.If(f_rdis(x, c), nil, f_part[name](x)), RB))


@task(["C17", "C20"], "rebulk.Rebulk.effective_patterns", functions=["rebulk.Rebulk.effective_patterns"])
def _ep(e, ctx):
    rb = ctx.rebulk

    def body():
        r, RB = compose(e, rb)
        P0 = e.fresh("own", LST)
        own = r.__dict__["_patterns"] = SymList.of_term(P0, "pat")
        before = dict(r.__dict__)
        out = r.effective_patterns(e.given_context)
        e.prove("the rebulk is not changed", same_attributes(r, before))
        e.prove("own patterns, then those of enabled children that are not there yet", isinstance(out, SymList) and out.term() == effective(e, P0, RB, "_patterns"), assume=False)
        e.prove("the own patterns are not changed", own.term() == P0)
        e.prove("a new list is handed out", out is not own)
        e.prove("the children are not changed", r.__dict__["_rebulks"].term() == RB)
        done(e)
    return body


@task(["C17", "C20"], "rebulk.Rebulk.effective_rules", functions=["rebulk.Rebulk.effective_rules"])
def _er(e, ctx):
    rb = ctx.rebulk

    def body():
        r, RB = compose(e, rb)
        P0 = e.fresh("own", LST)
        e.stubs_used.add("rules.Rules.__init__")
        mk = []

        def new_rules(*a):
            if a:
                raise Unsupported("rules given to Rules()")
            l = SymList.of_term(nil, "rule")
            mk.append(l)
            return l
        rb.Rules = new_rules
        own = r.__dict__["_rules"] = SymList.of_term(P0, "rule")
        before = dict(r.__dict__)
        out = r.effective_rules(e.given_context)
        e.prove("the rebulk is not changed", same_attributes(r, before))
        e.prove("the children are not changed", r.__dict__["_rebulks"].term() == RB)
        e.prove("own rules, then those of enabled children that are not there yet", isinstance(out, SymList) and out.term() == effective(e, P0, RB, "_rules"), assume=False)
        e.prove("the own rules are not changed", own.term() == P0)
        e.prove("a new rule list is handed out", any(out is m for m in mk))
        done(e)
    return body


# ------------------------------------------------------------------ declared keys
f_names = z3.Function("key_names", I, LST)
f_keyof = z3.Function("key_of", I, I, I)
f_win = z3.Function("winner", I, I)


class OwnKeys:
    """The declared keys of a rebulk: distinct names, each with its key.  Read only."""

    def __init__(self, code):
        self.code = code

    def items(self):
        c = self.code
        t = f_names(c)
        it = SymIter(f_len(t), lambda i: (SVal(f_at(t, i), "str"), SVal(f_keyof(c, f_at(t, i)), "any")), source=self)
        it.enum = lst_iter(t, "str")
        return it

    def __iter__(self):
        raise Unsupported("iteration")

    def _vc_iter(self):
        return lst_iter(f_names(self.code), "str")

    def keys(self):
        return SymList.of_term(f_names(self.code), "str")

    def __getitem__(self, k):
        return SVal(f_keyof(self.code, encode(k)), "any")


class Keys:
    """A dictionary under construction: names in order, values on the heap."""

    def __init__(self, names):
        self.names = names

    def setdefault(self, k, v=None):
        e = E_()
        c = encode(k)
        if not e.fork(f_mem(c, self.names.term())):
            self.names.set_term(f_snoc(self.names.term(), c), "str")
            e.write("declared", c, encode(v))
        return SVal(e.read("declared", c), "any")

    def __setitem__(self, k, v):
        e = E_()
        c = encode(k)
        if not e.fork(f_mem(c, self.names.term())):
            self.names.set_term(f_snoc(self.names.term(), c), "str")
        e.write("declared", c, encode(v))

    def __contains__(self, k):
        return E_().fork(f_mem(encode(k), self.names.term()))


def new_dict(src=()):
    e = E_()
    if not isinstance(src, OwnKeys):
        return NotImplemented
    x = z3.Int("kx!")
    k = Keys(SymList.of_term(f_names(src.code), "str"))
    h = e.fresh("own_keys", T.ARR)
    e.assume(T.ax([x], z3.Select(h, x) == f_keyof(src.code, x), z3.Select(h, x)))
    e.field("declared")
    e.heap["declared"] = h
    e.built = k
    return k


def won(e, x):
    """The key in effect for the name x."""
    return z3.If(f_mem(x, f_names(e.self_code)), f_keyof(e.self_code, x), f_keyof(f_at(e.RB, f_win(x)), x))


def names_upto(e, lst):
    c = encode(e.given_context)
    x = e.freshint("nx")
    return T.f_uni(f_names(e.self_code), e.comps.make(x, z3.If(f_rdis(x, c), nil, f_names(x)), lst))


def declares(e, j, x):
    return z3.And(z3.Not(f_rdis(f_at(e.RB, j), encode(e.given_context))), f_mem(x, f_names(f_at(e.RB, j))))


def passed(e, i, t):
    """Every name an enabled child before i declares is in t."""
    x, j = z3.Int("kx!"), z3.Int("kj!")
    return T.ax([x, j], z3.Implies(z3.And(0 <= j, j < i, declares(e, j, x)), f_mem(x, t)), f_mem(x, f_names(f_at(e.RB, j))))


def keys_outer(S):
    e = E_()
    x = z3.Int("kx!")
    h = e.field("declared")
    t = e.built.names.term()
    return [("names", t == names_upto(e, S.done)), ("nothing passed over", passed(e, S.i, t)), ("values", T.ax([x], z3.Implies(f_mem(x, t), z3.Select(h, x) == won(e, x)), z3.Select(h, x), f_mem(x, t)))]


def keys_inner(S):
    e = E_()
    x = z3.Int("kx!")
    h = e.field("declared")
    t = e.built.names.term()
    rbk = S.loop.s.source.code
    return [("names", t == T.f_uni(S.entry["extra"], f_take(f_names(rbk), S.i))), ("nothing passed over", passed(e, rbk.arg(1), t)), ("values", T.ax([x], z3.Implies(f_mem(x, t), z3.Select(h, x) == won(e, x)), z3.Select(h, x), f_mem(x, t)))]


@task(["C16", "C17", "C20"], "rebulk.Rebulk.effective_keys", functions=["rebulk.Rebulk.effective_keys"],
      hints={"rebulk.Rebulk.effective_keys#0": dict(inv=keys_outer), "rebulk.Rebulk.effective_keys#1": dict(inv=keys_inner, entry=lambda S: E_().built.names.term())})
def _ek(e, ctx):
    rb = ctx.rebulk

    def body():
        r, RB = compose(e, rb)
        e.RB = RB
        e.self_code = e.freshint("self")
        r.__dict__["_keys"] = OwnKeys(e.self_code)
        e.dict_hook = new_dict
        c = encode(e.given_context)
        x, i = z3.Int("kx!"), z3.Int("ki!")
        w = f_win(x)
        has = lambda j: declares(e, j, x)
        # the winner of a name: the first enabled child that declares it
        e.assume(T.ax([x, i], z3.Implies(z3.And(0 <= i, i < f_len(RB), has(i)), z3.And(0 <= w, w <= i, has(w))), f_mem(x, f_names(f_at(RB, i)))))
        before = dict(r.__dict__)
        k = r.effective_keys(e.given_context)
        e.prove("the rebulk is not changed", same_attributes(r, before))
        e.prove("a dictionary of its own is handed out", isinstance(k, Keys))
        n = e.freshint("name")
        e.prove("names: own ones, then those of enabled children", k.names.term() == names_upto(e, RB), assume=False)
        e.prove("own keys win, then the first enabled child that declares the name", z3.Implies(f_mem(n, k.names.term()), z3.Select(e.field("declared"), n) == won(e, n)), assume=False)
        done(e)
    return body


@task(["C17", "C20"], "rebulk.Rebulk._execute_rules", functions=["rebulk.Rebulk._execute_rules"])
def _xr(e, ctx):
    rb = ctx.rebulk

    def body():
        r = object.__new__(rb.Rebulk)
        given, M = object(), object()
        off = SVal(e.freshint("off"), "any")
        seen, ran = [], []
        r.__dict__["disabled"] = lambda c: (seen.append(c), off)[1]

        class RR:
            def execute_all_rules(self, matches, context):
                ran.append((matches, context))
                return []

        def eff(self, context=None):
            e.stubs_used.add("rebulk.Rebulk.effective_rules")
            seen.append(context)
            return RR()
        rb.Rebulk.effective_rules = eff
        before = dict(r.__dict__)
        r._execute_rules(M, given)
        e.prove("the rebulk is not changed", same_attributes(r, before))
        e.prove("the context given reaches the disabling function and the choice of rules", all(c is given for c in seen) and len(seen) >= 1)
        e.prove("the effective rules run once, on the matches and with the context given, unless disabled", z3.If(bterm(off), z3.BoolVal(not ran), z3.BoolVal(len(ran) == 1 and ran[0][0] is M and ran[0][1] is given)))
        done(e)
    return body


@task("C17", "rebulk.Rebulk.disabled", functions=["rebulk.Rebulk.__init__"])
def _dis(e, ctx):
    rb = ctx.rebulk

    def body():
        rb.Rules.load = lambda self, *a: None
        given = object()
        r = rb.Rebulk()
        e.prove("a rebulk is enabled unless told otherwise", not r.disabled(given))
        v = bool(e.choose(2))
        e.prove("a fixed value: that value, whatever the context", rb.Rebulk(disabled=v).disabled(given) is v and rb.Rebulk(disabled=v).disabled(None) is v)
        got = []
        f = lambda c: (got.append(c), v)[1]
        e.prove("a function: what it says of the context", rb.Rebulk(disabled=f).disabled(given) is v and len(got) == 1 and got[0] is given)
        done(e)
    return body


# ------------------------------------------------------------------ introspection
class Described(Elt):
    _vc_kind = "described"


f_desc = z3.Function("description", I, I)
f_attr = z3.Function("pattern_attr", I, I, I)


class DPat(Pat):
    private = property(lambda self: SVal(f_attr(self.code, z3.IntVal(1)), "any"))
    marker = property(lambda self: SVal(f_attr(self.code, z3.IntVal(2)), "any"))


@task("C17", "introspector.Introspection.__init__", functions=["introspector.Introspection.__init__", "introspector.introspect"])
def _intro(e, ctx):
    it = ctx.introspector

    def body():
        e.decoders["pat"] = DPat
        e.decoders["rule"] = ARule
        e.decoders["described"] = Described
        PS, RS = e.fresh("patterns", LST), e.fresh("rules", LST)
        given = object()

        class RB_:
            def effective_patterns(self, context=None):
                e.prove("introspection: the context given reaches the choice of patterns", context is given)
                return SymList.of_term(PS, "pat")

            def effective_rules(self, context=None):
                e.prove("introspection: the context given reaches the choice of rules", context is given)
                return SymList.of_term(RS, "rule")
        mk = lambda p: Described(f_desc(p.code))
        it.PatternDescription = mk
        it.RuleDescription = mk
        r = it.introspect(RB_(), given)
        x = e.freshint("px")
        on = lambda n: z3.And(f_attr(x, z3.IntVal(n)) != NONE, T.f_truthy(f_attr(x, z3.IntVal(n))))
        want = e.comps.make(x, z3.If(z3.And(z3.Not(on(1)), z3.Not(on(2))), f_snoc(nil, f_desc(x)), nil), PS)
        e.prove("described: exactly the effective patterns that are neither private nor markers, in order", r.patterns.term() == want, assume=False)
        e.prove("described: exactly the effective rules, in order", r.rules.term() == e.comps.make(x, f_snoc(nil, f_desc(x)), RS), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ what a description holds
class Props:
    """defaultdict(list) under construction: names in the order they were first used, name -> list on the heap."""
    _vc_isa = (dict,)

    def __init__(self):
        e = E_()
        e.counter += 1
        self._born = stamp()
        self.f = "ip%d" % e.counter
        self.names = SymList.of_term(nil, "any")
        e.field(self.f, T.TAGS if hasattr(T, "TAGS") else z3.ArraySort(I, LST))
        y = z3.Int("ip!")
        e.assume(T.ax([y], z3.Select(e.heap[self.f], y) == nil, z3.Select(e.heap[self.f], y)))
        e.props.append(self)

    def at(self, c):
        return z3.Select(E_().heap[self.f], c)

    def has(self, c):
        return f_mem(c, self.names.term())

    def _vc_has(self, k):
        return self.has(encode(k))

    def __getitem__(self, k):
        e, c = E_(), encode(k)
        self.names.set_term(T.f_uni(self.names.term(), f_snoc(nil, c)), "any")
        return SymList.of_slot(lambda: self.at(c), lambda t: e.write(self.f, c, t), "any", ("ip", self.f, c))

    def __setitem__(self, k, v):
        raise Unsupported("a list stored in a table of properties")


f_pkeys = z3.Function("described_names", I, LST)
f_pval = z3.Function("described_values", I, I, LST)
f_gnames = z3.Function("group_names", I, LST)


class Given:
    """A dictionary of property lists (of a pattern, a rule or a description): read only."""
    _vc_isa = (dict,)

    def __init__(self, code):
        self.code = code

    def items(self):
        c = self.code
        t = f_pkeys(c)
        it = SymIter(f_len(t), lambda i: (SVal(f_at(t, i), "any"), SymList.of_term(f_pval(c, f_at(t, i)), "any")), source=self)
        it.enum = lst_iter(t, "any")
        return it

    def __bool__(self):
        return E_().fork(f_pkeys(self.code) != nil)


def given(e, name):
    c = e.freshint(name)
    e.assume(f_dist(f_pkeys(c)))
    return Given(c)


def copied(S):
    """The keys seen so far, each with the distinct values of its list."""
    e = E_()
    P = e.props[-1]
    D = f_take(f_pkeys(e.src), S.i)
    return [("names so far", P.names.term() == T.f_uni(nil, D)), ("values of a name", P.at(e.n0) == z3.If(f_mem(e.n0, D), T.f_uni(nil, f_pval(e.src, e.n0)), nil))]


def desc_env(e, it):
    contract_extend_safe(e, it)
    e.props = []

    def dd(factory):
        if factory is not list and factory is not SymList:
            raise Unsupported("defaultdict of another factory")
        return Props()
    it.defaultdict = dd
    it.cast = lambda t, v: v
    e.n0 = e.freshint("name")


def copied_all(e, P, c, what):
    e.prove("%s: the names given, in order" % what, P.names.term() == T.f_uni(nil, f_pkeys(c)), assume=False)
    e.prove("%s: the distinct values of each name, in order" % what, P.at(e.n0) == z3.If(f_mem(e.n0, f_pkeys(c)), T.f_uni(nil, f_pval(c, e.n0)), nil), assume=False)


@task("C17", "introspector.RuleDescription", functions=["introspector.RuleDescription.__init__", "introspector.RuleDescription.properties"], hints={"introspector.RuleDescription.__init__#0": dict(inv=copied)})
def _rdesc(e, ctx):
    it = ctx.introspector

    def body():
        desc_env(e, it)
        how = e.choose(2)

        class Rule:
            properties = None
        if how:
            Rule.properties = given(e, "props")
            e.src = Rule.properties.code
        rule = Rule()
        d = it.RuleDescription(rule)
        e.prove("the rule described is the one given", d.rule is rule)
        P = d.properties
        e.prove("properties of a rule: a table of its own", isinstance(P, Props))
        if how:
            copied_all(e, P, e.src, "properties of a rule")
        else:
            e.prove("a rule without properties: none", P.names.term() == nil)
        done(e)
    return body


# the values fixed by a pattern, by match name
def dictcomp(e, x, s, keep, key, val):
    """{key(x): val(x) for x in values if keep(x)} whose keys differ."""
    y = z3.Int("dc!")
    sub = lambda t, v: z3.substitute(t, (x, v))
    k = e.freshint("dk")
    K = e.comps.make(k, z3.If(sub(keep, k), f_snoc(nil, sub(key, k)), nil), s.lst)
    a, b = z3.Int("da!"), z3.Int("db!")
    inn = lambda v: z3.And(f_mem(v, s.lst), sub(keep, v))
    # precondition: no two values are given for one name
    e.assume(f_dist(K))
    h = e.fresh("fixed", T.ARR)
    e.assume(T.ax([y], z3.Implies(inn(y), z3.Select(h, sub(key, y)) == sub(val, y)), f_mem(y, s.lst)))
    from pyvc.gdict import GDict
    e.fixed = (K, h)
    e.fixed_by = lambda v: (sub(keep, v), sub(key, v), sub(val, v))
    return GDict(K, "any", "any", h)


def fixed_inv(S):
    e = E_()
    P = e.props[-1]
    K, h = e.fixed
    D = f_take(K, S.i)
    return [("names so far", P.names.term() == T.f_uni(nil, D)), ("value of a name", P.at(e.n0) == z3.If(f_mem(e.n0, D), f_snoc(nil, z3.Select(h, e.n0)), nil))]


def shown(e, lst):
    """Group names of these expressions that are not private."""
    x, y = e.freshint("rx"), e.freshint("gx")
    return e.comps.make(x, flt(e, f_gnames(x), lambda g: z3.Not(f_mem(g, e.private))), lst)


def groups_outer(S):
    e = E_()
    P = e.props[-1]
    return [("names so far", P.names.term() == T.f_uni(e.N0, shown(e, S.done))), ("one unknown value each", P.at(e.n0) == z3.If(P.has(e.n0), f_snoc(nil, NONE), nil))]


def groups_inner(S):
    e = E_()
    P = e.props[-1]
    g = flt(e, S.done, lambda g: z3.Not(f_mem(g, e.private)))
    return [("names so far", P.names.term() == T.f_uni(S.entry["extra"], g)), ("one unknown value each", P.at(e.n0) == z3.If(P.has(e.n0), f_snoc(nil, NONE), nil))]


class Expr:
    _vc_kind = "expr"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    @property
    def groupindex(self):
        return SymList.of_term(f_gnames(self.code), "str")


def _pd(e, ctx, kind):
    it = ctx.introspector

    def body():
        desc_env(e, it)
        e.decoders["expr"] = Expr
        base = {"string": it.StringPattern, "regex": it.RePattern, "functional": it.FunctionalPattern, "other": it.Pattern}[kind]
        cls = type("P", (base,), dict(__init__=lambda self: None, patterns=None, properties=None, match_options=None, _match=None))
        p = cls()
        how = e.choose(2)
        cls.properties = given(e, "props")
        e.src = cls.properties.code
        e.assume(f_pkeys(e.src) != nil if how else f_pkeys(e.src) == nil)
        d_ = p.__dict__
        name = e.freshint("pname")
        d_["name"] = SVal(name, "optstr")
        from pyvc.gdict import GDict
        vals = d_["values"] = GDict.fresh("optstr", "any", "values")
        e.private = e.fresh("private_names", LST)
        d_["private_names"] = SymList.of_term(e.private, "str")
        pc = e.fresh("private_children", B)
        d_["private_children"] = SBool(pc)
        pl = e.fresh("patterns", LST)
        cls.patterns = SymList.of_term(pl, "expr" if kind == "regex" else "any")
        e.N0 = None
        e.dictcomp_hook = lambda *a: dictcomp(e, *a)
        vk, va = vals.kterm(), vals.arr()
        given_name = z3.And(name != NONE, name != 0)
        e.N0 = z3.If(z3.And(given_name, z3.Not(f_mem(name, e.private))), f_snoc(nil, name), nil)
        d = it.PatternDescription(p)
        e.prove("the pattern described is the one given", d.pattern is p)
        P = d.properties
        e.prove("properties of a pattern: a table of its own", isinstance(P, Props))
        e.prove("describing does not change the pattern", z3.And(vals.kterm() == vk, vals.arr() == va, cls.patterns.term() == pl, d_["private_names"].term() == e.private))
        n = e.n0
        if how == 1:
            copied_all(e, P, e.src, "declared properties")
            done(e)
            return
        if not hasattr(e, "fixed"):
            raise Unsupported("fixed values are not taken by a comprehension")
        K, h = e.fixed
        if not e.fork(K == nil):
            x = e.freshint("vx")
            kx = z3.If(z3.And(x != NONE, x != 0), x, name)
            keep, key, val = e.fixed_by(x)
            here = z3.And(f_mem(x, vk), z3.Select(va, x) != NONE)
            e.prove("fixed values: exactly those given that are not None", z3.Implies(f_mem(x, vk), keep == here))
            e.prove("fixed values: under the name they are given for, the general one under the name of the pattern", z3.Implies(here, z3.And(key == kx, val == z3.Select(va, x))))
            e.prove("fixed values: their names, in order", P.names.term() == K, assume=False)
            e.prove("fixed values: each name has its value", z3.Implies(z3.And(here, n == key), P.at(n) == f_snoc(nil, z3.Select(va, x))), assume=False)
        elif kind == "string":
            e.prove("a literal pattern: its name", P.names.term() == f_snoc(nil, name), assume=False)
            e.prove("a literal pattern: the literals, each once", P.at(name) == T.f_uni(nil, pl), assume=False)
        else:
            N = e.N0 if kind != "other" else nil
            if kind == "regex":
                N = z3.If(pc, N, T.f_uni(N, shown(e, pl)))
            e.prove("%s: the name and the group names that are not private" % kind, P.names.term() == N, assume=False)
            e.prove("%s: the value is not known" % kind, P.at(n) == z3.If(f_mem(n, N), f_snoc(nil, NONE), nil), assume=False)
        done(e)
    return body


for _k in ("string", "regex", "functional", "other"):
    task("C17", "introspector.PatternDescription (%s)" % _k, functions=["introspector.PatternDescription.__init__", "introspector.PatternDescription.properties"],
         hints={"introspector.PatternDescription.__init__#0": dict(inv=copied), "introspector.PatternDescription.__init__#1": dict(inv=fixed_inv),
                "introspector.PatternDescription.__init__#2": dict(inv=groups_outer), "introspector.PatternDescription.__init__#3": dict(inv=groups_inner, entry=lambda S: E_().props[-1].names.term())})(lambda e, ctx, k=_k: _pd(e, ctx, k))


class Desc(Described):
    """An arbitrary description."""

    @property
    def properties(self):
        e = E_()
        e.stubs_used |= {"introspector.PatternDescription.__init__", "introspector.RuleDescription.__init__"}
        e.assume(f_dist(f_pkeys(self.code)))
        return Given(self.code)


def merged(e, lst):
    x = e.freshint("mx")
    return e.comps.make(x, z3.If(f_mem(e.n0, f_pkeys(x)), f_pval(x, e.n0), nil), lst)


def named(e, lst):
    x = e.freshint("my")
    return e.comps.make(x, f_pkeys(x), lst)


def merge_outer(S):
    e = E_()
    P = e.props[-1]
    n, v = S.entry["extra"]
    return [("names so far", P.names.term() == T.f_uni(n, named(e, S.done))), ("values so far", P.at(e.n0) == T.f_uni(v, merged(e, S.done)))]


def merge_inner(S):
    e = E_()
    P = e.props[-1]
    c = S.loop.s.source.code
    n, v = S.entry["extra"]
    D = f_take(f_pkeys(c), S.i)
    return [("names so far", P.names.term() == T.f_uni(n, D)), ("values so far", P.at(e.n0) == z3.If(f_mem(e.n0, D), T.f_uni(v, f_pval(c, e.n0)), v))]


def merge_entry(S):
    e = E_()
    return (e.props[-1].names.term(), e.props[-1].at(e.n0))


@task("C17", "introspector.Introspection.properties", functions=["introspector.Introspection.properties"],
      hints={"introspector.Introspection.properties#%d" % k: dict(inv=merge_inner if k % 2 else merge_outer, entry=merge_entry) for k in range(4)})
def _iprops(e, ctx):
    it = ctx.introspector

    def body():
        desc_env(e, it)
        e.decoders["described"] = Desc
        r = object.__new__(it.Introspection)
        PS, RS = e.fresh("patterns", LST), e.fresh("rules", LST)
        r.__dict__["patterns"], r.__dict__["rules"] = SymList.of_term(PS, "described"), SymList.of_term(RS, "described")
        before = dict(r.__dict__)
        P = r.properties
        e.prove("a table of its own", isinstance(P, Props))
        e.prove("the introspection is not changed", z3.And(z3.BoolVal(same_attributes(r, before)), before["patterns"].term() == PS, before["rules"].term() == RS))
        e.prove("all names: of the patterns, then of the rules", P.names.term() == T.f_uni(T.f_uni(nil, named(e, PS)), named(e, RS)), assume=False)
        e.prove("values of a name: those of all patterns and rules that have it, in order, each once", P.at(e.n0) == T.f_uni(T.f_uni(nil, merged(e, PS)), merged(e, RS)), assume=False)
        done(e)
    return body


@task(["C17", "C20"], "rebulk.Rebulk.pattern, rules, rebulk", functions=["rebulk.Rebulk.pattern", "rebulk.Rebulk.rules", "rebulk.Rebulk.rebulk"])
def _add(e, ctx):
    rb = ctx.rebulk

    def body():
        r = object.__new__(rb.Rebulk)
        own = {n: e.fresh("own" + n, LST) for n in ("_patterns", "_rebulks")}
        for n, k in (("_patterns", "pat"), ("_rebulks", "child")):
            e.decoders[k] = Pat if k == "pat" else Child
            r.__dict__[n] = SymList.of_term(own[n], k)
        loaded = []

        class Own:
            def load(self, *a):
                e.stubs_used.add("rules.Rules.load")
                loaded.append(a)
        r.__dict__["_rules"] = Own()
        before = dict(r.__dict__)
        which = ("pattern", "rules", "rebulk")[e.choose(3)]
        G = e.fresh("given", LST)
        g = SymList.of_term(G, {"pattern": "pat", "rules": "any", "rebulk": "child"}[which])
        out = getattr(rb.Rebulk, which + "__va")(r, g)
        for n, w in (("_patterns", "pattern"), ("_rebulks", "rebulk")):
            e.prove("%s: those there, then those given, in order" % n[1:], r.__dict__[n].term() == (f_cat(own[n], G) if w == which else own[n]), assume=False)
        ok = len(loaded) == 1 and len(loaded[0]) == 1 and isinstance(loaded[0][0], pv.Splat) and loaded[0][0].of is g
        e.prove("rules given are loaded, once, and nothing else is", ok if which == "rules" else not loaded)
        e.prove("what is given is not changed", g.term() == G)
        e.prove("no attribute is changed, and the rebulk is handed back", z3.BoolVal(out is r and same_attributes(r, before)))
        done(e)
    return body
