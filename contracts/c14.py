"""C14: defaults apply by precedence and never leak between patterns."""
from .base import *
from .c08 import truthy
from pyvc.engine import Engine
from pyvc.gdict import GDict, dict_hook
from pyvc.builtins_ import SPLATKW

f_vkind = z3.Function("option_kind", I, I)        # 1: list, 2: dict, else: another value
f_lcat = z3.Function("list_concat", I, I, I)
f_merged = z3.Function("merged", I, I, I)         # more general dictionary, more specific one -> merged one


def E_():
    return Engine.cur


class Value:
    """An option value: a list or a dictionary, by its content."""

    def __init__(self, c, fresh=False):
        self.c, self.fresh = c, fresh
        self._born = stamp()

    def _vc_enc(self):
        return self.c

    def __bool__(self):
        return E_().fork(truthy(self.c))

    def __iter__(self):
        raise Unsupported("native iteration")

    def _no(self, *a, **k):
        raise Unsupported("an option value is changed in place")
    append = extend = insert = clear = pop = __setitem__ = __iadd__ = __ior__ = update = _no


class LVal(Value):
    _vc_kind = "opt"
    _vc_isa = (list,)

    def __add__(self, o):
        if not isinstance(o, LVal):
            raise Unsupported("list concatenation")
        return LVal(f_lcat(self.c, o.c), True)

    def _vc_iter(self):
        raise Unsupported("list content")


class DVal(Value):
    _vc_kind = "opt"
    _vc_isa = (dict,)


def decode_opt(e, c):
    if e.fork(f_vkind(c) == 1):
        return LVal(c)
    if e.fork(f_vkind(c) == 2):
        return DVal(c)
    return SVal(c, "any")


def copies(*a):
    """dict(x), list(x): a new object of the same content."""
    if len(a) == 1 and isinstance(a[0], (LVal, DVal)):
        return type(a[0])(a[0].c, True)
    return dict_hook(*a)


def setup(e):
    e.decoders["opt"] = lambda c: decode_opt(e, c)
    e.dict_hook = copies
    e.list_hook = copies
    e.isinstance_hook = lambda x, cs: False if not (set(cs) - {list, dict}) else NotImplemented
    a, b = z3.Int("oa!"), z3.Int("ob!")
    e.assume(T.ax([a, b], z3.And(f_vkind(f_lcat(a, b)) == 1), f_lcat(a, b)))
    e.assume(T.ax([a, b], z3.And(f_vkind(f_merged(a, b)) == 2), f_merged(a, b)))


def comb(d, k):
    """A more general value d, a more specific one k."""
    return z3.If(z3.And(f_vkind(d) == 1, f_vkind(k) == 1), f_lcat(d, k), z3.If(z3.And(f_vkind(d) == 2, f_vkind(k) == 2), f_merged(d, k), k))


def new_val(dk, da, kk, ka, override):
    """What the merge of (dk, da) into (kk, ka) holds at a name of dk."""
    def f(x):
        d, k = z3.Select(da, x), z3.Select(ka, x)
        if override is True:
            return d
        v = z3.If(f_mem(x, kk), comb(d, k), d)
        return v if override is False else z3.If(override, d, v)
    return f


def merge_values(dk, da, kk, ka, override):
    n = new_val(dk, da, kk, ka, override)
    return lambda x: z3.If(f_mem(x, dk), n(x), z3.Select(ka, x))


def contract_merge(e, D, K, override=False):
    """Contract of _merge_defaults on symbolic dictionaries."""
    dk, da, kk, ka = D.kterm(), D.arr(), K.kterm(), K.arr()
    x = z3.Int("mk!")
    n = e.fresh("merged_vals", T.ARR)
    v = merge_values(dk, da, kk, ka, override)
    e.assume(T.ax([x], z3.Select(n, x) == v(x), z3.Select(n, x)))
    K.names.set_term(T.f_uni(kk, dk), "str")
    e.heap[K.f] = n


def contract_set_defaults(e, D, K, override=False):
    """Contract of set_defaults."""
    e.stubs_used.add("loose.set_defaults")
    c = e.code_of_str("clear")
    if e.fork(D.has(c)):
        v = D.at(c)
        D._drop(c)
        if e.fork(truthy(v)):
            K.names.set_term(nil, "str")
    contract_merge(e, D, K, override)


def md_inv(S):
    e = E_()
    dk, da, kk, ka, ov, K = e.md
    x = z3.Int("mk!")
    done = f_take(dk, S.i)
    n = new_val(dk, da, kk, ka, ov)
    return [("names", K.kterm() == T.f_uni(kk, done)),
            ("values", T.ax([x], z3.Select(K.arr(), x) == z3.If(f_mem(x, done), n(x), z3.Select(ka, x)), z3.Select(K.arr(), x)))]


@task("C14", "loose._merge_defaults", functions=["loose._merge_defaults"], hints={"loose._merge_defaults#0": dict(inv=md_inv, types={"value": "opt", "merged": "opt", "key": "str"})})
def _md(e, ctx):
    lo = ctx.loose
    real = lo._merge_defaults

    def body():
        setup(e)
        D, K = GDict.fresh("str", "opt", "defaults"), GDict.fresh("str", "opt", "kwargs")
        ov = bool(e.choose(2))
        dk, da, kk, ka = D.kterm(), D.arr(), K.kterm(), K.arr()
        e.md = (dk, da, kk, ka, ov, K)

        def rec(d, k, override=False):
            e.stubs_used.add("loose._merge_defaults")
            e.prove("a dictionary is merged into a copy", bool(isinstance(d, DVal) and isinstance(k, DVal) and k.fresh and override is False))
            k.c = f_merged(d.c, k.c)
        lo._merge_defaults = rec
        r = real(D, K, ov) if ov else real(D, K)
        e.prove("names: those there, then those of the defaults", K.kterm() == T.f_uni(kk, dk), assume=False)
        x = e.freshint("option")
        e.prove("an option there wins; lists accumulate, the more general first; dictionaries merge, the more specific winning; overriding, the new value wins",
                z3.Implies(f_mem(x, K.kterm()), z3.Select(K.arr(), x) == merge_values(dk, da, kk, ka, ov)(x)), assume=False)
        e.prove("the defaults are not changed", z3.And(D.kterm() == dk, D.arr() == da))
        done(e)
    return body


@task("C14", "loose.set_defaults", functions=["loose.set_defaults"])
def _sd(e, ctx):
    lo = ctx.loose

    def body():
        setup(e)
        D, K = GDict.fresh("str", "opt", "defaults"), GDict.fresh("str", "opt", "kwargs")
        ov = bool(e.choose(2))
        dk, da, kk, ka = D.kterm(), D.arr(), K.kterm(), K.arr()

        def merge(d, k, override=False):
            e.stubs_used.add("loose._merge_defaults")
            contract_merge(e, d, k, override)
        lo._merge_defaults = merge
        lo.set_defaults(D, K, override=ov)
        c = e.code_of_str("clear")
        clr = z3.And(f_mem(c, dk), truthy(z3.Select(da, c)))
        x = e.freshint("option")
        e.prove("the request to clear is taken out", z3.Not(D.has(c)), assume=False)
        e.prove("the other defaults are not changed", z3.Implies(x != c, D.has(x) == f_mem(x, dk)), assume=False)
        e.prove("no default changes its value", D.arr() == da)
        isd = z3.And(x != c, f_mem(x, dk))
        kept = z3.And(z3.Not(clr), f_mem(x, kk))
        e.prove("names: those there unless cleared, and those of the defaults", K.has(x) == z3.Or(kept, isd), assume=False)
        d, k = z3.Select(da, x), z3.Select(ka, x)
        e.prove("values by precedence", z3.Implies(K.has(x), K.at(x) == z3.If(isd, d if ov else z3.If(kept, comb(d, k), d), k)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ overrides
f_items = z3.Function("list_items", I, LST)


class Names(LVal):
    """An option value that is a list of names."""

    def __bool__(self):
        return E_().fork(f_items(self.c) != nil)

    def _vc_iter(self):
        return lst_iter(f_items(self.c), "str")


def opts(e, name="kwargs"):
    return GDict.fresh("str", "opt", name)


def given_overrides(e, K):
    """Names to restore: a list of options that are given, if any is."""
    c = e.code_of_str("overrides")
    x = z3.Int("ov!")
    O = e.fresh("overridden", LST)
    v = K.at(c)
    e.assume(O == z3.If(z3.And(K.has(c), f_vkind(v) == 1), f_items(v), nil))
    e.assume(T.ax([x], z3.Implies(f_mem(x, O), z3.And(K.has(x), x != c)), f_mem(x, O)))
    e.assume(z3.Implies(K.has(c), z3.Or(f_vkind(v) == 1, v == NONE)))
    return O


def mk(pairs):
    pairs = list(pairs)
    if any(k is not pv.SPLAT or not isinstance(v, GDict) for k, v in pairs):
        return NotImplemented
    if not pairs:
        return GDict(nil, "str", "opt")
    r = pairs[0][1].copy()
    for _, v in pairs[1:]:
        r.update(v)
    return r


def ov_inv(S):
    K, B = S.v("kwargs"), S.v("backup")
    x = z3.Int("ob!")
    done = S.done
    return [("names kept", T.ax([x], B.has(x) == f_mem(x, done), B.has(x))),
            ("values kept", T.ax([x], z3.Implies(f_mem(x, done), z3.Select(B.arr(), x) == z3.Select(K.arr(), x)), z3.Select(B.arr(), x)))]


@task("C14", "builder.overrides", functions=["builder.overrides"], hints={"builder.overrides#0": dict(inv=ov_inv, types={"override_key": "str"})})
def _ovr(e, ctx):
    b = ctx.builder

    def body():
        setup(e)
        e.mkdict_hook = mk
        e.decoders["opt"] = lambda c: Names(c) if e.fork(f_vkind(c) == 1) else DVal(c) if e.fork(f_vkind(c) == 2) else SVal(c, "any")
        K = opts(e)
        O = given_overrides(e, K)
        k0, v0 = K.kterm(), K.arr()
        c = e.code_of_str("overrides")
        n = opts(e, "changed")
        x = e.freshint("option")
        with b.overrides(K) as B:
            e.prove("the list of options to restore is taken out, nothing else", z3.And(K.has(x) == z3.And(x != c, f_mem(x, k0)), K.arr() == v0), assume=False)
            e.prove("the options kept", z3.And(B.has(x) == f_mem(x, O), z3.Implies(B.has(x), B.at(x) == z3.Select(v0, x))), assume=False)
            K.clear()
            K.update(n)
            k1, v1 = K.kterm(), K.arr()
        e.prove("the options overridden are given back", K.has(x) == z3.Or(f_mem(x, k1), f_mem(x, O)), assume=False)
        e.prove("their values are restored, the others are as they have become", z3.Implies(K.has(x), K.at(x) == z3.If(f_mem(x, O), z3.Select(v0, x), z3.Select(v1, x))), assume=False)
        done(e)
    return body


def contract_overrides(e, O):
    import contextlib

    @contextlib.contextmanager
    def overrides(K):
        e.stubs_used.add("builder.overrides")
        c = e.code_of_str("overrides")
        v0 = K.arr()
        if e.fork(K.has(c)):
            K._drop(c)
        yield None
        x = z3.Int("ov!")
        n = e.fresh("restored", T.ARR)
        v1 = K.arr()
        e.assume(T.ax([x], z3.Select(n, x) == z3.If(f_mem(x, O), z3.Select(v0, x), z3.Select(v1, x)), z3.Select(n, x)))
        K.names.set_term(T.f_uni(K.kterm(), O), "str")
        e.heap[K.f] = n
    return overrides


# ------------------------------------------------------------------ defaults of a builder
OWN = ["_defaults", "_regex_defaults", "_string_defaults", "_functional_defaults", "_chain_defaults"]


def factory(e, cls):
    """A builder.  Invariant: no default is a request to clear."""
    p = object.__new__(cls)
    for n in OWN:
        d = p.__dict__[n] = opts(e, n)
        e.assume(z3.Not(d.has(e.code_of_str("clear"))))
    return p


def state(p):
    return {n: (p.__dict__[n], p.__dict__[n].kterm(), p.__dict__[n].arr()) for n in OWN}


def unchanged(e, p, st, but=()):
    e.prove("the other defaults are kept" if but else "the defaults are kept", bool(all(p.__dict__[n] is d for n, (d, k, a) in st.items())))
    e.prove("the values of the other defaults" if but else "the values of the defaults", z3.And([z3.And(d.kterm() == k, d.arr() == a) for n, (d, k, a) in st.items() if n not in but]))


DEFAULTS = [("defaults", "_defaults"), ("regex_defaults", "_regex_defaults"), ("string_defaults", "_string_defaults"),
            ("functional_defaults", "_functional_defaults"), ("chain_defaults", "_chain_defaults")]


@task("C14", "builder.PatternFactory.defaults, regex_defaults, string_defaults, functional_defaults, chain_defaults", functions=["builder.PatternFactory." + m for m, _ in DEFAULTS])
def _def(e, ctx):
    b = ctx.builder

    def body():
        setup(e)
        m, own = DEFAULTS[e.choose(5)]
        p = factory(e, b.PatternFactory)
        K = opts(e)
        k0, v0 = K.kterm(), K.arr()
        st = state(p)
        _, d0, a0 = st[own]
        b.set_defaults = lambda d, k, override=False: contract_set_defaults(e, d, k, override)
        r = getattr(b.PatternFactory, m + "__va")(p, K)
        e.prove("%s: answers the builder" % m, bool(r is p))
        unchanged(e, p, st, but=(own,))
        D = p.__dict__[own]
        x = e.freshint("option")
        c = e.code_of_str("clear")
        clr = z3.And(f_mem(c, k0), truthy(z3.Select(v0, c)))
        new, old = z3.And(x != c, f_mem(x, k0)), z3.And(z3.Not(clr), f_mem(x, d0))
        e.prove("%s: those defined, and those there unless cleared" % m, D.has(x) == z3.Or(new, old), assume=False)
        e.prove("%s: the value defined last" % m, z3.Implies(D.has(x), D.at(x) == z3.If(new, z3.Select(v0, x), z3.Select(a0, x))), assume=False)
        e.prove("%s: no default is a request to clear" % m, z3.Not(D.has(c)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ patterns built with the defaults
BUILDS = [("build_re", "_regex_defaults", "RePattern"), ("build_string", "_string_defaults", "StringPattern"),
          ("build_functional", "_functional_defaults", "FunctionalPattern"), ("build_chain", "_chain_defaults", "Chain")]


@task("C14", "builder.PatternFactory.build_re, build_string, build_functional, build_chain", functions=["builder.PatternFactory." + m for m, _, _ in BUILDS])
def _build(e, ctx):
    b = ctx.builder

    def body():
        setup(e)
        m, own, cls = BUILDS[e.choose(4)]
        p = factory(e, b.PatternFactory)
        K = opts(e)
        O = given_overrides(e, K)
        k0, v0 = K.kterm(), K.arr()
        st = state(p)
        made, inh = [], []
        P = SymList.of_term(e.fresh("args", LST), "any")
        pt = P.term()

        class Made:
            pass

        def make(*a, **kw):
            r = Made()
            made.append((r, a, kw))
            return r

        def wrong(*a, **kw):
            e.prove("%s: builds its own class of patterns" % m, False)
        for _, _, k in BUILDS:
            setattr(b, k, make if k == cls else wrong)
        b.set_defaults = lambda d, k, override=False: contract_set_defaults(e, d, k, override)
        b.overrides = contract_overrides(e, O)

        def inherit(q):
            e.stubs_used.add("builder.PatternFactory._inherit_keys")
            inh.append(q)
            return q
        p._inherit_keys = inherit
        f = getattr(b.PatternFactory, m + "__va")
        r = f(p, K) if m == "build_chain" else f(p, P, K)
        e.prove("%s: one pattern, that inherits the keys declared" % m, bool(len(made) == 1 and inh == [made[0][0]] and r is inh[0]))
        _, a, kw = made[0]
        if m == "build_chain":
            e.prove("%s: the options" % m, bool(not a and list(kw) == [SPLATKW]))
        else:
            e.prove("%s: the arguments and the options" % m, bool(len(a) == 1 and isinstance(a[0], pv.Splat) and a[0].of is P and list(kw) == [SPLATKW]))
            e.prove("%s: the arguments are not changed" % m, P.term() == pt)
        R = kw[SPLATKW]
        unchanged(e, p, st)
        (_, sk, sa), (_, dk, da) = st[own], st["_defaults"]
        x = e.freshint("option")
        own_ = z3.And(f_mem(x, k0), x != e.code_of_str("overrides"))
        e.prove("%s: the options given, the defaults of the kind of pattern and the defaults of all patterns" % m, R.has(x) == z3.Or(own_, f_mem(x, sk), f_mem(x, dk)), assume=False)
        o, s, d = z3.Select(v0, x), z3.Select(sa, x), z3.Select(da, x)
        one = z3.If(f_mem(x, sk), z3.If(own_, comb(s, o), s), o)
        two = z3.If(f_mem(x, dk), z3.If(z3.Or(own_, f_mem(x, sk)), comb(d, one), d), one)
        e.prove("%s: an option given wins over the defaults of the kind of pattern, that win over those of all patterns" % m, z3.Implies(R.has(x), R.at(x) == z3.If(f_mem(x, O), o, two)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ typed keys
f_kname = z3.Function("key_name", I, I)
f_conv = z3.Function("key_converter", I, I)


class AKey:
    """A typed key, by its code."""
    _vc_kind = "key"

    def __init__(self, c, name=None):
        self.c = c
        self.name = SVal(f_kname(c) if name is None else name, "str")
        self.converter = SVal(f_conv(c), "any")

    def _vc_enc(self):
        return self.c


class KeyDict(GDict):
    """Declared keys.  Invariant: each under its own name."""

    @classmethod
    def make(cls, e, t=None):
        d = cls.fresh("str", "key", "declared") if t is None else cls(t, "str", "key")
        d.checked = d.arr()
        x = z3.Int("kn!")
        e.assume(T.ax([x], z3.Implies(d.has(x), f_kname(d.at(x)) == x), d.has(x)))
        return d

    def val(self, c):
        # the invariant gives the name of the key found, as long as the dictionary has not changed
        return AKey(self.at(c), c if self.arr().eq(self.checked) else None)


def dk_inv(S):
    e = E_()
    D, a0, j0, x0 = e.dk
    x, j = z3.Int("kn!"), z3.Int("kj!")
    L = S.lst
    nm = lambda i: f_kname(f_at(L, i))
    return [("each under its name", T.ax([x], z3.Implies(D.has(x), f_kname(D.at(x)) == x), D.has(x))),
            ("those declared", z3.And(z3.Implies(z3.And(0 <= j0, j0 < S.i), D.has(nm(j0))), z3.Implies(f_mem(x0, D.k0), D.has(x0)))),
            ("the last declared of a name", z3.Implies(z3.And(0 <= j0, j0 < S.i, T.ax([j], z3.Implies(z3.And(j0 < j, j < f_len(L)), nm(j) != nm(j0)), f_at(L, j))), D.at(nm(j0)) == f_at(L, j0))),
            ("no other name", z3.Implies(T.ax([j], z3.Implies(z3.And(0 <= j, j < f_len(L)), nm(j) != x0), f_at(L, j)), z3.And(D.has(x0) == f_mem(x0, D.k0), D.at(x0) == z3.Select(a0, x0))))]


@task("C14", "builder.PatternFactory.declare_keys", functions=["builder.PatternFactory.declare_keys"], hints={"builder.PatternFactory.declare_keys#0": dict(inv=dk_inv, types={"key": "key"})})
def _decl(e, ctx):
    b = ctx.builder

    def body():
        setup(e)
        e.decoders["key"] = AKey
        p = object.__new__(b.PatternFactory)
        D = p.__dict__["_keys"] = KeyDict.make(e)
        D.k0 = D.kterm()
        L = SymList.of_term(e.fresh("keys", LST), "key")
        lt = L.term()
        j0, x0 = e.freshint("j0"), e.freshint("x0")
        a0 = D.arr()
        e.dk = (D, a0, j0, x0)
        r = b.PatternFactory.declare_keys__va(p, L)
        j = z3.Int("kj!")
        nm = lambda i: f_kname(f_at(lt, i))
        e.prove("answers the builder, with the same declared keys", bool(r is p and p.__dict__["_keys"] is D))
        inr = z3.And(0 <= j0, j0 < f_len(lt))
        last = T.ax([j], z3.Implies(z3.And(j0 < j, j < f_len(lt)), nm(j) != nm(j0)), f_at(lt, j))
        e.prove("every key given is declared under its name, the last one of a name", z3.Implies(inr, z3.And(D.has(nm(j0)), z3.Implies(last, D.at(nm(j0)) == f_at(lt, j0)))), assume=False)
        e.prove("the keys declared before stay", z3.Implies(f_mem(x0, D.k0), D.has(x0)), assume=False)
        e.prove("and are the same, but those declared again", z3.Implies(T.ax([j], z3.Implies(z3.And(0 <= j, j < f_len(lt)), nm(j) != x0), f_at(lt, j)), z3.And(D.has(x0) == f_mem(x0, D.k0), D.at(x0) == z3.Select(a0, x0))), assume=False)
        e.prove("each key is under its own name", z3.Implies(D.has(x0), f_kname(D.at(x0)) == x0), assume=False)
        done(e)
    return body


@task(["C14", "C08"], "builder.PatternFactory._inherit_keys", functions=["builder.PatternFactory._inherit_keys"])
def _inh(e, ctx):
    b = ctx.builder

    def body():
        e.dict_hook = dict_hook
        e.mkdict_hook = mk
        e.decoders["key"] = AKey
        p = object.__new__(b.PatternFactory)
        D = p.__dict__["_keys"] = KeyDict.make(e)
        kt, ka = D.kterm(), D.arr()
        F = GDict.fresh("str", "any", "formatters")
        ft, fa = F.kterm(), F.arr()
        Q = type("Pattern", (), {})
        q = Q()
        own = SVal(e.freshint("own_default"), "any")
        lib = b.default_formatter
        e.is_default = z3.Bool("default_formatter")
        has_own = e.choose(2)
        q._default_formatter = (lambda *a: None) if has_own else lib
        q.formatters = F
        r = p._inherit_keys(q)
        e.prove("answers the pattern", bool(r is q))
        x = e.freshint("name")
        G = q.formatters
        e.prove("the declared keys are not changed", z3.And(D.kterm() == kt, D.arr() == ka, z3.BoolVal(p.__dict__["_keys"] is D)))
        e.prove("the formatters it was given, that other patterns may share, are not changed", z3.And(F.kterm() == ft, F.arr() == fa), assume=False)
        add = z3.And(z3.BoolVal(not has_own), f_mem(x, kt))
        e.prove("a formatter for each name: its own, and those declared unless it has its own formatter", G.has(x) == z3.Or(f_mem(x, ft), add), assume=False)
        e.prove("its own formatter of a name wins over the one declared", z3.Implies(G.has(x), G.at(x) == z3.If(f_mem(x, ft), z3.Select(fa, x), f_conv(z3.Select(ka, x)))), assume=False)
        e.prove("nothing else of the pattern is changed", bool(set(q.__dict__) == {"_default_formatter", "formatters"}))
        done(e)
    return body


f_dkeys = z3.Function("dict_names", I, LST)
f_dvals = z3.Function("dict_values", I, T.ARR)


class Inner(GDict):
    """A dictionary that is an option value: encoded by its content, and not changed afterwards."""
    _vc_kind = "opt"
    code = None

    def _vc_enc(self):
        e = E_()
        if self.code is None:
            self.code = e.freshint("dict")
            self.frozen = (self.kterm(), self.arr())
            e.assume(z3.And(f_vkind(self.code) == 2, f_dkeys(self.code) == self.kterm(), f_dvals(self.code) == self.arr()))
        elif not (self.frozen[0].eq(self.kterm()) and self.frozen[1].eq(self.arr())):
            raise Unsupported("a dictionary changed after it was stored")
        return self.code


def ak_inv(S):
    e = E_()
    L, ft, fa, j0, x0 = e.ak
    F = S.v("formatter")
    j = z3.Int("kj!")
    nm = lambda i: f_kname(f_at(L, i))
    before = T.ax([j], z3.Implies(z3.And(0 <= j, j < j0), nm(j) != nm(j0)), f_at(L, j))
    return [("its own", z3.Implies(f_mem(x0, ft), z3.And(F.has(x0), F.at(x0) == z3.Select(fa, x0)))),
            ("those of the keys", z3.Implies(z3.And(0 <= j0, j0 < S.i), F.has(nm(j0)))),
            ("the first key of a name", z3.Implies(z3.And(0 <= j0, j0 < S.i, before, z3.Not(f_mem(nm(j0), ft))), F.at(nm(j0)) == f_conv(f_at(L, j0)))),
            ("not yet there", z3.Implies(z3.And(S.i <= j0, before, z3.Not(f_mem(nm(j0), ft))), z3.Not(F.has(nm(j0))))),
            ("no other", z3.Implies(T.ax([j], z3.Implies(z3.And(0 <= j, j < f_len(L)), nm(j) != x0), f_at(L, j)), F.has(x0) == f_mem(x0, ft)))]


@task(["C14", "C08"], "builder._apply_key", functions=["builder._apply_key"], hints={"builder._apply_key#0": dict(inv=ak_inv, types={"single_key": "key"})})
def _akey(e, ctx):
    b = ctx.builder

    def body():
        setup(e)
        AK = type("AKey1", (AKey,), dict(_vc_isa=(b.Key,)))
        e.decoders["key"] = AK
        nmc, fmc = e.code_of_str("name"), e.code_of_str("formatter")
        givens = []

        def opt(c):
            if e.fork(f_vkind(c) == 2):
                r = Inner(f_dkeys(c), "str", "any", f_dvals(c))
                e.assume(f_dist(f_dkeys(c)))
                givens.append((r, r.kterm(), r.arr()))
                return r
            return decode_opt(e, c)
        e.decoders["opt"] = opt
        e.mkdict_hook = lambda pairs: Inner(nil, "str", "any") if not list(pairs) else NotImplemented
        e.dict_hook = lambda *a: a[0].copy() if len(a) == 1 and isinstance(a[0], GDict) else NotImplemented
        K = opts(e)
        k0, v0 = K.kterm(), K.arr()
        x = e.freshint("option")
        how = e.choose(3)
        if how == 0:
            r = b._apply_key(None, K)
            e.prove("no key: the options as given", z3.And(z3.BoolVal(r is K), K.kterm() == k0, K.arr() == v0))
        elif how == 1:
            key = AK(e.freshint("key"))
            r = b._apply_key(key, K)
            e.prove("a key: answers the options", bool(r is K))
            e.prove("a key: the options given, its name and formatter", K.has(x) == z3.Or(f_mem(x, k0), x == nmc, x == fmc), assume=False)
            e.prove("a key: an option given wins over the key", z3.Implies(K.has(x), K.at(x) == z3.If(f_mem(x, k0), z3.Select(v0, x), z3.If(x == nmc, key.name.t, key.converter.t))), assume=False)
        else:
            L = SymList.of_term(e.fresh("keys", LST), "key")
            lt = L.term()
            f = z3.Select(v0, fmc)
            isd, isnone = z3.And(f_mem(fmc, k0), f_vkind(f) == 2), z3.Or(z3.Not(f_mem(fmc, k0)), f == NONE)
            e.assume(f_vkind(NONE) == 0)
            j0, x0 = e.freshint("j0"), e.freshint("x0")
            ft, fa = e.fresh("own_names", LST), e.fresh("own_formatters", T.ARR)
            e.assume(z3.And(ft == z3.If(isd, f_dkeys(f), nil), fa == z3.If(isd, f_dvals(f), fa)))
            e.ak = (lt, ft, fa, j0, x0)
            try:
                r = b._apply_key(L, K)
            except TypeError:
                e.prove("keys: refused only with a single formatter", z3.And(lt != nil, z3.Not(isd), z3.Not(isnone)))
                e.prove("keys: refused, nothing changed", z3.And(K.kterm() == k0, K.arr() == v0))
                done(e)
                return
            e.prove("keys: refused with a single formatter", z3.Or(lt == nil, isd, isnone))
            e.prove("keys: answers the options", bool(r is K))
            e.prove("keys: the options given, and a formatter", K.has(x) == z3.Or(f_mem(x, k0), z3.And(x == fmc, lt != nil)), assume=False)
            e.prove("keys: no other option is changed", z3.Implies(z3.And(f_mem(x, k0), x != fmc), K.at(x) == z3.Select(v0, x)), assume=False)
            j = z3.Int("kj!")
            nm = lambda i: f_kname(f_at(lt, i))
            inr = z3.And(0 <= j0, j0 < f_len(lt))
            first = T.ax([j], z3.Implies(z3.And(0 <= j, j < j0), nm(j) != nm(j0)), f_at(lt, j))
            g = K.at(fmc)
            gk, ga = f_dkeys(g), f_dvals(g)
            some = lt != nil
            e.prove("keys: a formatter of its own for a name wins", z3.Implies(z3.And(some, f_mem(x0, ft)), z3.And(f_mem(x0, gk), z3.Select(ga, x0) == z3.Select(fa, x0))), assume=False)
            e.prove("keys: else the converter of the key of that name", z3.Implies(inr, z3.And(f_mem(nm(j0), gk), z3.Implies(z3.And(first, z3.Not(f_mem(nm(j0), ft))), z3.Select(ga, nm(j0)) == f_conv(f_at(lt, j0))))), assume=False)
            e.prove("keys: the dictionary of formatters given is not changed", z3.And([z3.And(d.kterm() == k, d.arr() == a) for d, k, a in givens]), assume=False)
            e.prove("keys: no other name", z3.Implies(z3.And(some, T.ax([j], z3.Implies(z3.And(0 <= j, j < f_len(lt)), nm(j) != x0), f_at(lt, j))), f_mem(x0, gk) == f_mem(x0, ft)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ registering
VIA = [("Builder", "regex", "build_re"), ("Builder", "string", "build_string"), ("Builder", "functional", "build_functional"),
       ("ChainBuilder", "regex", "build_re"), ("ChainBuilder", "string", "build_string"), ("ChainBuilder", "functional", "build_functional")]


@task(["C14", "C07"], "builder.Builder.regex, string, functional, ChainBuilder.regex, string, functional", functions=["builder.%s.%s" % (c, m) for c, m, _ in VIA])
def _via(e, ctx):
    b = ctx.builder

    def body():
        setup(e)
        cn, m, build = VIA[e.choose(6)]
        cls = getattr(b, cn)
        p = object.__new__(cls) if cn == "ChainBuilder" else object.__new__(type("B", (b.Builder,), {"pattern": None}))
        P = SymList.of_term(e.fresh("args", LST), "any")
        K, K2 = opts(e), opts(e)
        pt, k0, v0 = P.term(), K.kterm(), K.arr()
        key = SVal(e.freshint("key"), "any")
        log = []

        def apply(k, kw):
            e.stubs_used.add("builder._apply_key")
            log.append(("key", k, kw))
            return K2
        b._apply_key = apply

        def built(name):
            def f(*a, **kw):
                e.stubs_used.add("builder.PatternFactory." + name)
                log.append((name, a, kw))
                return "the pattern"
            return f
        for _, _, n in VIA:
            p.__dict__[n] = built(n)

        def put(*a):
            log.append(("put",) + a)
            return "answer"
        p.__dict__["pattern" if cn == "Builder" else "_add"] = put
        r = getattr(cls, m + "__va")(p, P, K, key=key)
        ok = len(log) == 3 and log[0][0] == "key" and log[0][1] is key and log[0][2] is K
        e.prove("%s.%s: the options, with those of the key" % (cn, m), bool(ok))
        _, a, kw = log[1]
        e.prove("%s.%s: builds one pattern of its kind, with the arguments and these options" % (cn, m),
                bool(log[1][0] == build and len(a) == 1 and isinstance(a[0], pv.Splat) and a[0].of is P and list(kw) == [SPLATKW] and kw[SPLATKW] is K2))
        e.prove("%s.%s: registers it" % (cn, m), bool(log[2] == ("put", "the pattern") and r == "answer"))
        e.prove("%s.%s: the arguments are not changed" % (cn, m), z3.And(P.term() == pt, K.kterm() == k0, K.arr() == v0))
        done(e)
    return body


@task(["C14", "C09"], "builder.Builder.chain, ChainBuilder.chain, ChainBuilder.__init__, _inherit_defaults, _add, PatternFactory.__init__, Builder.reset",
      functions=["builder.Builder.chain", "builder.ChainBuilder.chain", "builder.ChainBuilder.__init__", "builder.ChainBuilder._inherit_defaults", "builder.ChainBuilder._add",
                 "builder.PatternFactory.__init__", "builder.Builder.reset"])
def _chain(e, ctx):
    b = ctx.builder

    def body():
        setup(e)
        e.mkdict_hook = mk
        e.decoders["key"] = AKey
        how = e.choose(3)
        B = type("B", (b.Builder,), {"pattern": None})

        def copy(x, deep):
            if isinstance(x, GDict):
                r = x.copy()
                if deep:
                    r.deep = x
                return r
            return NotImplemented
        e.copy_hook = copy
        e.dict_hook = lambda *a: a[0].copy() if len(a) == 1 and isinstance(a[0], GDict) else NotImplemented
        if how == 2:
            p = factory(e, B)
            p.__dict__["_keys"] = KeyDict.make(e)
            st = state(p)
            b.Builder.reset(p)
            e.prove("reset: no default is left", z3.And([p.__dict__[n].kterm() == nil for n in OWN + ["_keys"]]))
            e.prove("reset: in new dictionaries", bool(len({id(p.__dict__[n]) for n in OWN + ["_keys"]}) == 6 and not any(p.__dict__[n] is st[n][0] for n in OWN)))
            e.prove("reset: those before are not changed", z3.And([z3.And(d.kterm() == k, d.arr() == a) for d, k, a in st.values()]))
            done(e)
            return
        cls = (B, b.ChainBuilder)[how]
        p = factory(e, cls)
        D = p.__dict__["_keys"] = KeyDict.make(e)
        kt, ka = D.kterm(), D.arr()
        st = state(p)
        K = opts(e)
        k0, v0 = K.kterm(), K.arr()
        log = []

        class Chain:
            pass
        made = Chain()

        def build(*a, **kw):
            e.stubs_used.add("builder.PatternFactory.build_chain")
            log.append((a, kw))
            return made
        p.build_chain = build
        put = []
        if how == 0:
            p.pattern = lambda q: put.append(q)
        else:
            own = Chain()
            own.parts = SymList()
            own.parts.append("before")
            p._chain, p._parent = own, "parent"

            class Part:
                def __init__(self, owner, q):
                    e.stubs_used.add("chain.ChainPart.__init__")
                    self.owner, self.q = owner, q
            b.ChainPart = Part
        r = getattr(cls, "chain__va")(p, K)
        e.prove("one chain is built with the options", bool(len(log) == 1 and not log[0][0] and list(log[0][1]) == [SPLATKW] and log[0][1][SPLATKW] is K) and z3.And(K.kterm() == k0, K.arr() == v0))
        if how == 0:
            e.prove("the chain is registered", bool(put == [made]))
        else:
            items = own.parts._items
            e.prove("the chain is the last part of its chain", bool(items is not None and len(items) == 2 and items[0] == "before" and type(items[1]) is Part and items[1].owner is p and items[1].q is made))
        e.prove("answers a builder of that chain", bool(type(r) is b.ChainBuilder and r is not p and r._chain is made and r._parent is p))
        unchanged(e, p, st)
        e.prove("the declared keys are kept", z3.And(z3.BoolVal(p.__dict__["_keys"] is D), D.kterm() == kt, D.arr() == ka))
        for n in OWN:
            d, k, a = st[n]
            q = r.__dict__[n]
            e.prove("it starts with the same %s" % n, bool(isinstance(q, GDict)) and z3.And(q.kterm() == k, q.arr() == a))
            e.prove("it has its own copy, at every depth, of %s" % n, bool(getattr(q, "deep", None) is d))
        q = r.__dict__["_keys"]
        e.prove("it has its own copy of the declared keys", bool(isinstance(q, GDict) and q is not D) and z3.And(q.kterm() == kt, q.arr() == ka))
        done(e)
    return body


# ------------------------------------------------------------------ a typed key
f_isdc = z3.Function("is_dataclass", I, B)
f_istd = z3.Function("is_typed_dict", I, B)


@task(["C14", "C15", "C16"], "key.Key.__post_init__, converter", functions=["key.Key.__post_init__", "key.Key.converter"])
def _key(e, ctx):
    m = ctx.key
    m.is_dataclass = lambda t: SBool(f_isdc(encode(t)))
    m.is_typeddict = lambda t: SBool(f_istd(encode(t)))

    class Here:
        pass

    def body():
        k = Here()
        k.name = SVal(e.freshint("name"), "str")
        k.value_type = SVal(e.freshint("value_type"), "any")
        k.formatter = SVal(e.freshint("formatter"), "any")
        vt, f = k.value_type.t, k.formatter.t
        e.assume(vt != NONE)
        before = dict(k.__dict__)
        r = encode(m.Key.converter.fget(k))
        e.prove("the converter is the formatter given, even a falsy one, else the declared type", r == z3.If(f != NONE, f, vt))
        try:
            m.Key.__post_init__(k)
            refused = z3.BoolVal(False)
        except TypeError:
            refused = z3.BoolVal(True)
        e.prove("a key of a structured type is refused, any other accepted", refused == z3.Or(f_isdc(vt), f_istd(vt)))
        e.prove("the key is not changed", set(before) == set(k.__dict__) and all(before[n] is k.__dict__[n] for n in before))
        done(e)
    return body
