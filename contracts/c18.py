"""C18: comparing matches is a lawful equality, hash and order."""
from .base import *
from .coll import *
from .c03 import E_
from pyvc.values import f_app

EQ = z3.Function("EqM", I, I, B)          # the relation Match.__eq__ decides
VAL = z3.Function("ValueOf", I, I)        # the value of a match (contract of the property)
ROOT = z3.Function("outermost_parent", I, I)
DEPTH = z3.Function("depth", I, I)        # length of the parent chain
F18 = dict(FIELDS, parent="optref")


def load(e, ctx):
    vm = load_match(e, ctx, fields=F18)
    e.decoders["optref"] = lambda c: None if e.fork(c == NONE) else mkref(vm.Match, c)
    return vm


def stub_value(e, vm):
    """The value by its contract: a function of the match while nothing is assigned."""
    def get(self):
        e.stubs_used.add("match.Match.value")
        return SVal(VAL(ref(self)), "any")
    vm.Match.value = property(get, lambda self, v: _no("value assigned"))


def stub_eq(e, vm):
    def eq(self, o):
        e.stubs_used.add("match.Match.__eq__")
        if not hasattr(o, "__dict__") or "_ref" not in o.__dict__:
            return NotImplemented
        return SBool(EQ(ref(self), ref(o)))
    real = (vm.Match.__eq__, vm.Match.__ne__)
    vm.Match.__eq__ = eq
    vm.Match.__ne__ = lambda self, o: SBool(z3.Not(EQ(ref(self), ref(o)))) if hasattr(o, "__dict__") and "_ref" in o.__dict__ else NotImplemented
    return real


def some_match(e, vm, name):
    m = mkref(vm.Match, e.freshint(name))
    r = ref(m)
    e.assume(z3.And(0 <= r, r < e.alloc, sel(e, "name", r) >= NONE, z3.Or(psel(e, r) == NONE, z3.And(0 <= psel(e, r), psel(e, r) < e.alloc))))
    return m, r


def psel(e, x):
    return z3.Select(e.field("parent"), x)


def eq_def(e, a, b):
    """Span, value, name and parent are equal."""
    pa, pb = psel(e, a), psel(e, b)
    return z3.And(sel(e, "start", a) == sel(e, "start", b), sel(e, "end", a) == sel(e, "end", b), T.f_veq(VAL(a), VAL(b)),
                  sel(e, "name", a) == sel(e, "name", b), z3.Or(z3.And(pa == NONE, pb == NONE), z3.And(pa != NONE, pb != NONE, EQ(pa, pb))))


@task(["C18", "C05"], "match.Match.__eq__", functions=["match.Match.__eq__", "match.Match.__ne__", "match.Match.span"])
def _eq(e, ctx):
    vm = load(e, ctx)
    stub_value(e, vm)
    eq, ne = stub_eq(e, vm)

    def body():
        m, a = some_match(e, vm, "a")
        o, b = some_match(e, vm, "b")
        r = eq(m, o)
        e.prove("__eq__: true exactly when span, value, name and parent are equal", bterm(r) == eq_def(e, a, b))
        e.prove("__eq__: answers a truth value", isinstance(r, (bool, SBool)))
        n = ne(m, o)
        e.prove("__ne__: the exact negation", bterm(n) == z3.Not(bterm(r)))
        e.prove("__ne__: answers a truth value", isinstance(n, (bool, SBool)))
        done(e)
    return body


OTHERS = {"None": lambda e: None, "int": lambda e: SInt(e.freshint("o")), "str": lambda e: SVal(e.freshint("s"), "str"), "tuple": lambda e: (SInt(e.freshint("o")), SInt(e.freshint("p"))),
          "list": lambda e: SymList.of_term(e.fresh("L", LST), "int"), "object": lambda e: object()}


@task("C18", "match.Match comparison with anything else", functions=["match.Match.__eq__", "match.Match.__ne__", "match.Match.__lt__", "match.Match.__gt__", "match.Match.__le__", "match.Match.__ge__"])
def _other(e, ctx):
    vm = load(e, ctx)

    def body():
        m, a = some_match(e, vm, "a")
        ks = list(OTHERS)
        k = ks[e.choose(len(ks))]
        o = OTHERS[k](e)
        for op in ("__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__"):
            e.prove("%s with something that is no match is refused" % op, getattr(vm.Match, op)(m, o) is NotImplemented)
        done(e)
    return body


@task("C18", "match.Match order", functions=["match.Match.__lt__", "match.Match.__gt__", "match.Match.__le__", "match.Match.__ge__", "match.Match.span"])
def _order(e, ctx):
    vm = load(e, ctx)

    def body():
        m, a = some_match(e, vm, "a")
        o, b = some_match(e, vm, "b")
        lt = lex(e, a, b)
        eqs = z3.And(sel(e, "start", a) == sel(e, "start", b), sel(e, "end", a) == sel(e, "end", b))
        e.prove("__lt__ compares spans", bterm(vm.Match.__lt__(m, o)) == lt)
        e.prove("__le__ compares spans", bterm(vm.Match.__le__(m, o)) == z3.Or(lt, eqs))
        e.prove("__gt__ compares spans", bterm(vm.Match.__gt__(m, o)) == lex(e, b, a))
        e.prove("__ge__ compares spans", bterm(vm.Match.__ge__(m, o)) == z3.Or(lex(e, b, a), eqs))
        done(e)
    return body


def lex(e, a, b):
    sa, sb = sel(e, "start", a), sel(e, "start", b)
    return z3.Or(sa < sb, z3.And(sa == sb, sel(e, "end", a) < sel(e, "end", b)))


@task("C18", "lemma: the order of spans is total, transitive, and its operators agree")
def _orderlaws(e, ctx):
    def body():
        a, b, c = (e.freshint(x) for x in "abc")
        lt = lambda x, y: lex(e, x, y)
        same = lambda x, y: z3.And(sel(e, "start", x) == sel(e, "start", y), sel(e, "end", x) == sel(e, "end", y))
        le = lambda x, y: z3.Or(lt(x, y), same(x, y))
        e.prove("order: exactly one of before, same span, after", z3.And(z3.Or(lt(a, b), same(a, b), lt(b, a)), z3.Not(z3.And(lt(a, b), lt(b, a))), z3.Not(z3.And(lt(a, b), same(a, b)))))
        e.prove("order: transitive", z3.And(z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)), z3.Implies(z3.And(le(a, b), le(b, c)), le(a, c))))
        e.prove("order: not above is at most", le(a, b) == z3.Not(lt(b, a)))
        done(e)
    return body


@task("C18", "lemma: equality of matches is an equivalence")
def _eqlaws(e, ctx):
    """By induction on the length of the parent chain: the definition (contract of __eq__) is used
    at the matches in hand, the laws themselves at their parents only."""
    def body():
        e.field("parent")
        e.use_veq = True
        a, b, c = (e.freshint(x) for x in "abc")
        for x, y in ((a, a), (a, b), (b, a), (b, c), (a, c)):
            e.assume(EQ(x, y) == eq_def(e, x, y))
        pa, pb, pc = psel(e, a), psel(e, b), psel(e, c)
        e.assumptions.add("the parents of a match form a finite chain")
        # induction hypothesis: at the parents (nearer the end of the chain)
        e.assume(z3.Implies(pa != NONE, EQ(pa, pa)))
        e.assume(z3.Implies(z3.And(pa != NONE, pb != NONE), EQ(pa, pb) == EQ(pb, pa)))
        e.assume(z3.Implies(z3.And(EQ(pa, pb), EQ(pb, pc)), EQ(pa, pc)))
        e.prove("equality: reflexive", EQ(a, a), assume=False)
        e.prove("equality: symmetric", EQ(a, b) == EQ(b, a), assume=False)
        e.prove("equality: transitive", z3.Implies(z3.And(EQ(a, b), EQ(b, c)), EQ(a, c)), assume=False)
        done(e)
    return body


@task("C18", "match.Match.__hash__", functions=["match.Match.__hash__"])
def _hash(e, ctx):
    vm = load(e, ctx)

    def body():
        m, a = some_match(e, vm, "a")
        o, b = some_match(e, vm, "b")
        e.assume(EQ(a, b) == eq_def(e, a, b))
        h = SInt.lift(vm.Match.__hash__(m))
        e.prove("__hash__: equal matches have equal hashes", z3.Implies(EQ(a, b), h == SInt.lift(vm.Match.__hash__(o))))
        m._value = SVal(e.freshint("newvalue"), "any")
        m.name = SVal(e.freshint("newname"), "str")
        m.tags = SymList.of_term(e.fresh("newtags", LST), "str")
        m.private = SVal(e.freshint("x"), "any")
        m.formatter = SVal(e.freshint("x"), "any")
        m.match_index = SInt(e.freshint("x"))
        e.prove("__hash__: independent of value, name, tags and flags", h == SInt.lift(vm.Match.__hash__(m)))
        done(e)
    return body


@task(["C18", "C05", "C07", "C20"], "match.Match length, raw text and value", functions=["match.Match.__len__", "match.Match.span", "match.Match.raw", "match.Match.raw_start", "match.Match.raw_end", "match.Match.value", "match.Match.has_literal_value"])
def _value(e, ctx):
    vm = load(e, ctx)
    e.call_hook = lambda f, args, kw: SVal(app(f.t, args), "any")

    def app(f, args):
        e.assumptions.add("formatters are deterministic and do not raise")
        for a in args:
            f = f_app(f, encode(a))
        return f

    def body():
        m, a = some_match(e, vm, "a")
        st, en = sel(e, "start", a), sel(e, "end", a)
        rs0, re0 = z3.Select(e.field("_raw_start"), a), z3.Select(e.field("_raw_end"), a)
        e.assume(z3.And(0 <= st, st <= en, z3.Or(rs0 == NONE, rs0 >= 0), z3.Or(re0 == NONE, re0 >= 0)))
        e.assumptions.add("positions are not negative")
        L = vm.Match.__len__(m)
        e.prove("__len__: the length of the span", SInt.lift(L) == en - st)
        sp = m.span
        e.prove("span: start and end", z3.And(SInt.lift(sp[0]) == st, SInt.lift(sp[1]) == en))
        rs, re_ = SInt.lift(m.raw_start), SInt.lift(m.raw_end)
        e.prove("raw_start: the start unless set", rs == z3.If(rs0 == NONE, st, rs0))
        e.prove("raw_end: the end unless set", re_ == z3.If(re0 == NONE, en, re0))
        text = z3.Select(e.field("input_string"), a)
        e.assume(text >= NONE)
        has = z3.And(text != NONE, text != 0)
        n = T.f_slen(text)
        cl = lambda x: z3.If(x > n, n, x)
        raw = z3.If(has, T.f_ssub(text, cl(rs), cl(re_)), NONE)
        h0 = dict(e.heap)
        e.prove("raw: the slice of the text at the raw span", encode(m.raw) == raw)
        v0, f = z3.Select(e.field("_value"), a), z3.Select(e.field("formatter"), a)
        lit = z3.And(v0 != NONE, T.f_truthy(v0))
        want = z3.If(lit, v0, z3.If(z3.And(f != NONE, T.f_truthy(f)), f_app(f, raw), raw))
        e.prove("value: the fixed literal, else the formatted text, else the text", encode(m.value) == want)
        e.prove("nothing is changed by reading it", all(t.eq(h0[f]) for f, t in e.heap.items() if f in h0))
        e.prove("has_literal_value: says whether the literal is used", bterm(m.has_literal_value) == lit)
        x = SVal(e.freshint("x"), "any")
        m.value = x
        e.prove("value: setting it fixes the literal", z3.Select(e.field("_value"), a) == x.t)
        e.prove("value: setting it changes no span", z3.And(sel(e, "start", a) == st, sel(e, "end", a) == en))
        done(e)
    return body


@task("C18", "match.Match.initiator", functions=["match.Match.initiator"], hints={"match.Match.initiator#0": dict(
    inv=lambda S: [("a match", z3.And(ref(S.v("match")) >= 0, DEPTH(ref(S.v("match"))) >= 0)), ("with the same outermost parent", ROOT(ref(S.v("match"))) == E_().root)], types={"match": "ref"}, variant=lambda S: DEPTH(ref(S.v("match"))))})
def _init(e, ctx):
    vm = load(e, ctx)
    e.decoders["ref"] = lambda c: mkref(vm.Match, c)
    e.decoders["optref"] = lambda c: None if e.fork(c == NONE) else mkref(vm.Match, c)

    def body():
        m, a = some_match(e, vm, "a")
        x = z3.Int("x!")
        e.assumptions.add("the parents of a match form a finite chain")
        p = psel(e, x)
        e.assume(T.ax([x], z3.Or(p == NONE, z3.And(p >= 0, 0 <= DEPTH(p), DEPTH(p) < DEPTH(x))), p))
        e.assume(DEPTH(a) >= 0)
        empty = sel(e, "start", p) == sel(e, "end", p)
        e.assume(T.ax([x], ROOT(x) == z3.If(z3.Or(p == NONE, empty), x, ROOT(p)), ROOT(x)))
        e.root = ROOT(a)
        r = ref(m.initiator)
        e.prove("initiator: the outermost parent", r == ROOT(a), assume=False)
        e.prove("initiator: has no parent", z3.Or(psel(e, r) == NONE, sel(e, "start", psel(e, r)) == sel(e, "end", psel(e, r))))
        done(e)
    return body


# ------------------------------------------------------------------ the names and tags of a match
f_kids = z3.Function("children", I, LST)
f_names = z3.Function("names", I, LST)          # contract of Match.names, as a set


def names_outer(S):
    e = E_()
    y = e.freshint("cy")
    return [("the names of the children so far", S.v("ret").l.term() == e.comps.make(y, f_names(y), S.done))]


def names_inner(S):
    return [("the names of this child so far", S.v("ret").l.term() == f_cat(S.entry["extra"], S.done))]


@task("C18", "match.Match.names", functions=["match.Match.names"],
      hints={"match.Match.names#0": dict(inv=names_outer), "match.Match.names#1": dict(inv=names_inner, entry=lambda S: S.v("ret").l.term())})
def _names(e, ctx):
    from .c16 import Bag, bag
    m = ctx.match

    class Names(Bag):
        def _vc_iter(self):
            return iterate(self.l)

    class Child:
        _vc_kind = "child"

        def __init__(self, c):
            self.c = c

        def _vc_enc(self):
            return self.c

        @property
        def names(self):
            e.stubs_used.add("match.Match.names")
            return Names(SymList.of_term(f_names(self.c), "optstr"))

        @property
        def name(self):
            return SVal(z3.Function("own_name", I, I)(self.c), "optstr")

    def body():
        e.set_hook = lambda x=(): bag(x)
        e.decoders["child"] = Child
        c = e.freshint("match")
        name = SVal(e.freshint("name"), "optstr")
        e.assume(name.t >= NONE)

        class Here:
            pass
        h = Here()
        h.name, h.children = name, SymList.of_term(f_kids(c), "child")
        got = m.Match.names.fget(h)
        x = e.freshint("name")
        y = e.freshint("y")
        kids = f_kids(c)
        has = f_mem(x, got.l.term()) if isinstance(got, Bag) else z3.Or([encode(v) == x for v in got._items] or [z3.BoolVal(False)])
        e.prove("its own name when it has no children, the names of its children otherwise", has == z3.If(kids == nil, x == name.t, f_mem(x, e.comps.make(y, f_names(y), kids))), assume=False)
        e.prove("the children are not changed", h.children.term() == kids)
        done(e)
    return body


@task("C18", "match.Match.tagged, named", functions=["match.Match.tagged", "match.Match.named"])
def _tagged(e, ctx):
    from .c16 import Bag
    m = ctx.match

    def body():
        own, asked = e.fresh("own", LST), e.fresh("asked", LST)
        which = e.choose(2)

        class Here:
            pass
        h = Here()
        h.tags = SymList.of_term(own, "str")
        h.names = Bag(SymList.of_term(own, "str"))
        f = (m.Match.tagged__va, m.Match.named__va)[which]
        r = f(h, SymList.of_term(asked, "str"))
        e.prove("answers a truth value", isinstance(r, (bool, SBool)))
        x = e.freshint("x")
        y = z3.Int("tx!")
        e.prove("true when one of those asked is there", z3.Implies(z3.And(f_mem(x, own), f_mem(x, asked)), bterm(r)), assume=False)
        e.prove("false when none is", z3.Implies(T.ax([y], z3.Not(z3.And(f_mem(y, own), f_mem(y, asked))), f_mem(y, asked)), z3.Not(bterm(r))), assume=False)
        e.prove("its tags are not changed", h.tags.term() == own)
        done(e)
    return body
