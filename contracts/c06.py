"""C06: literal search finds exactly the leftmost non-overlapping occurrences."""
from .base import *
from .coll import flt
from pyvc.engine import Engine
from pyvc.gdict import GDict
from pyvc.builtins_ import SPLATKW

f_occ = z3.Function("occurs_at", I, I, I, B)          # text, literal, index
f_next = z3.Function("next_occurrence", I, I, I, I, I)  # text, literal, from, end
f_run = z3.Function("occurrences", I, I, I, I, LST)    # text, literal, from, end
f_lower = z3.Function("lower", I, I)
f_low1 = z3.Function("lower_same_length", I, I)        # rebulk.utils._lower
slen = T.f_slen


def E_():
    return Engine.cur


def next_facts(e, s, u, b, hi):
    """The least occurrence from b on that ends by hi, or -1 (what str.find is documented to return)."""
    n, i = f_next(s, u, b, hi), z3.Int("oi!")
    found = z3.And(b <= n, n + slen(u) <= hi, f_occ(s, u, n))
    none = T.ax([i], z3.Implies(z3.And(b <= i, i + slen(u) <= hi, f_occ(s, u, i)), z3.And(n != -1, n <= i)), f_occ(s, u, i))
    e.assume(z3.And(z3.Or(n == -1, found), b >= 0, slen(u) >= 0))
    e.assume(none)
    return n


def run_facts(e, s, u, b, hi):
    """Definition of the leftmost non-overlapping occurrences from b on: the first one, then those from its end on
    (well founded: the next search starts beyond the occurrence found)."""
    n = next_facts(e, s, u, b, hi)
    step = z3.If(slen(u) == 0, z3.IntVal(1), slen(u))
    e.assume(f_run(s, u, b, hi) == z3.If(n == -1, nil, f_cat(f_snoc(nil, n), f_run(s, u, n + step, hi))))
    return n


def bound(v, n, dflt):
    """An argument of str.find as a position: None, or an int counted from the end when negative, not below 0."""
    if v is None:
        return dflt
    t = v if z3.is_expr(v) else SInt.lift(v)
    return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), t)


def m_find(e):
    def find(s, sub, start=None, end=None):
        n = slen(s.t)
        b = bound(start, n, z3.IntVal(0))
        hi = bound(end, n, n)
        hi = z3.If(hi > n, n, hi)
        r = run_facts(e, s.t, encode(sub), z3.simplify(b), z3.simplify(hi))
        return SInt(r)
    e.str_methods["find"] = find
    e.str_methods["lower"] = lambda s: SVal(f_lower(s.t), "str")
    e.assumptions.add("str.find and str.lower behave as documented")


def cur(e, S):
    v = S.v("start")
    n = slen(e.text)
    return bound(v, n, z3.IntVal(0))


def fa_inv(S):
    e = E_()
    b = z3.simplify(cur(e, S))
    return [("found so far, and what is still to be found", f_cat(S.term("out__"), f_run(e.text, e.lit, b, e.hi)) == e.want), ("position", b >= 0)]


def fa_ahead(S):
    """The same, for a loop entered with the next occurrence already looked for."""
    e = E_()
    st = S.int("start")
    step = z3.If(slen(e.lit) == 0, z3.IntVal(1), slen(e.lit))
    rest = f_run(e.text, e.lit, z3.simplify(st + step), e.hi)
    return [("found so far, the one just found, and what is still to be found", z3.If(st == -1, S.term("out__"), f_cat(f_snoc(S.term("out__"), st), rest)) == e.want), ("position", z3.Or(st == -1, z3.And(st >= 0, st + slen(e.lit) <= e.hi)))]


def fa_ahead_variant(S):
    e = E_()
    return z3.If(z3.And(S.int("start") >= 0, S.int("start") <= e.hi), e.hi - S.int("start") + 1, 0)


def fa_variant(S):
    e = E_()
    b = z3.simplify(cur(e, S))
    return z3.If(b <= e.hi, e.hi - b + 1, 0)


@task("C06", "utils.find_all", functions=["utils.find_all"],
      hints={"utils.find_all#0": dict(inv=fa_inv, variant=fa_variant, types={"start": "optint", "out__[]": "int"}, carried=("start",)),
             "utils.find_all#0|": dict(inv=fa_ahead, variant=fa_ahead_variant, types={"start": "int", "out__[]": "int"}, carried=("start",))})
def _fa(e, ctx):
    u = ctx.utils

    def body():
        m_find(e)
        s, w = SVal(e.freshint("text"), "str"), SVal(e.freshint("literal"), "str")
        e.assume(z3.And(slen(s.t) >= 0, slen(w.t) >= 0, (slen(w.t) == 0) == (w.t == 0)))
        ic = SVal(e.freshint("ignore_case"), "any")
        e.stubs_used.add("utils._lower")

        def lower(x):
            t = f_low1(encode(x))
            e.assume(z3.And(slen(t) == slen(encode(x)), (slen(t) == 0) == (t == 0)))
            return SVal(t, "str")
        u._lower = lower
        on = bterm(ic)
        start = None if e.choose(2) == 0 else SInt(e.freshint("start"))
        end = None if e.choose(2) == 0 else SInt(e.freshint("end"))
        lower(s), lower(w)
        e.text = z3.If(on, f_low1(s.t), s.t)
        e.lit = z3.If(on, f_low1(w.t), w.t)
        if e.fork(on):
            e.text, e.lit = f_low1(s.t), f_low1(w.t)
        else:
            e.text, e.lit = s.t, w.t
        n = slen(e.text)
        lo = z3.simplify(bound(start, n, z3.IntVal(0)))
        hi = bound(end, n, n)
        e.hi = z3.simplify(z3.If(hi > n, n, hi))
        e.want = f_run(e.text, e.lit, lo, e.hi)
        r = u.find_all(s, w, start, end, ignore_case=ic, other=object())
        e.prove("exactly the leftmost non-overlapping occurrences inside the bounds, in order", r.term() == e.want, assume=False)
        done(e)
    return body


@task("C06", "utils._lower", functions=["utils._lower"])
def _lw(e, ctx):
    u = ctx.utils

    def body():
        m_find(e)
        s = SVal(e.freshint("text"), "str")
        e.assume(slen(s.t) >= 0)
        k = z3.Int("ck!")
        e.assume(T.ax([k], z3.Implies(z3.And(0 <= k, k < slen(s.t)), slen(T.f_schar(s.t, k)) == 1), T.f_schar(s.t, k)))
        e.assume(T.ax([k], z3.Implies(slen(k) == 1, z3.And(slen(f_lower(k)) >= 0)), f_lower(k)))
        r = u._lower(s)
        t = encode(r)
        e.prove("positions are those of the text", slen(t) == slen(s.t), assume=False)
        i = e.freshint("i")
        c = T.f_schar(s.t, i)
        same = slen(f_lower(s.t)) == slen(s.t)
        e.prove("lower case of the text when that has as many characters", z3.Implies(same, t == f_lower(s.t)), assume=False)
        e.prove("else each character in lower case, unless that is not one character", z3.Implies(z3.And(z3.Not(same), 0 <= i, i < slen(s.t)), T.f_schar(t, i) == z3.If(slen(f_lower(c)) == 1, f_lower(c), c)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ the list reported, described position by position
@task("C06", "lemma: what leftmost non-overlapping occurrences are", functions=[])
def _lem(e, ctx):
    def body():
        """By induction on the length of the text left: the list starts with the first occurrence and goes on behind it."""
        s, u, hi, b = e.freshint("text"), e.freshint("literal"), e.freshint("hi"), e.freshint("from")
        e.assume(z3.And(0 <= b, slen(u) >= 0))
        n = run_facts(e, s, u, b, hi)
        step, Q, R = e.freshint("step"), e.fresh("later", LST), e.fresh("all", LST)
        e.assume(z3.And(step == z3.If(slen(u) == 0, z3.IntVal(1), slen(u)), Q == f_run(s, u, n + step, hi), R == f_run(s, u, b, hi)))
        ok = lambda L, frm: [T.ax([z3.Int("li!")], z3.Implies(z3.And(0 <= z3.Int("li!"), z3.Int("li!") < f_len(L)), z3.And(f_at(L, z3.Int("li!")) >= frm, f_at(L, z3.Int("li!")) + slen(u) <= hi, f_occ(s, u, f_at(L, z3.Int("li!"))))), f_at(L, z3.Int("li!"))),
                             T.ax([z3.Int("li!")], z3.Implies(z3.And(0 <= z3.Int("li!"), z3.Int("li!") + 1 < f_len(L)), f_at(L, z3.Int("li!") + 1) >= f_at(L, z3.Int("li!")) + step), f_at(L, z3.Int("li!")))]
        for f in ok(Q, n + step):      # induction hypothesis
            e.assume(f)
        i, p = e.freshint("i"), e.freshint("p")
        e.prove("every index reported is an occurrence inside the bounds", z3.Implies(z3.And(0 <= i, i < f_len(R)), z3.And(f_at(R, i) >= b, f_at(R, i) + slen(u) <= hi, f_occ(s, u, f_at(R, i)))), assume=False)
        e.prove("indices ascend without overlap", z3.Implies(z3.And(0 <= i, i + 1 < f_len(R)), f_at(R, i + 1) >= f_at(R, i) + step), assume=False)
        e.prove("no occurrence before the first one reported", z3.Implies(z3.And(f_occ(s, u, p), b <= p, p + slen(u) <= hi), z3.And(f_len(R) > 0, f_at(R, 0) <= p)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ StringPattern
f_made = z3.Function("match_at", I, I, I)


class Made:
    _vc_kind = "made"

    def __init__(self, code, a=None, b=None):
        self.code, self.a, self.b = code, a, b

    def _vc_enc(self):
        return self.code

    def __bool__(self):
        if self.a is None:
            raise Unsupported("truth of a stored match")
        return E_().fork(self.b - self.a > 0)

    def __len__(self):
        raise Unsupported("len")

    def sym_len(self):
        return SInt(z3.If(self.b - self.a > 0, self.b - self.a, 0))


@task(["C06", "C20"], "pattern.StringPattern._match", functions=["pattern.StringPattern._match"])
def _sp(e, ctx):
    pm = ctx.pattern

    def body():
        e.decoders["made"] = Made
        p = object.__new__(pm.StringPattern)
        opts, mopts = GDict.fresh("str", "any", "options"), GDict.fresh("str", "any", "match_options")
        p.__dict__["_kwargs"], p.__dict__["_match_kwargs"] = opts, mopts
        before = dict(p.__dict__)
        text, lit = SVal(e.freshint("text"), "str"), SVal(e.freshint("literal"), "str")
        e.assume(z3.And(slen(text.t) >= 0, slen(lit.t) >= 0))
        R = e.fresh("found", LST)
        e.stubs_used.add("utils.find_all")

        def find_all(s, sub, *a, **kw):
            e.prove("the whole input is searched for the literal", z3.And(encode(s) == text.t, encode(sub) == lit.t))
            e.prove("with the options of the pattern (bounds, ignore_case)", not a and list(kw) == [SPLATKW] and kw[SPLATKW] is opts)
            return SymList.of_term(R, "int")

        def match(a, b, **kw):
            e.prove("the match belongs to this pattern and this text, with its match options", sorted(kw) == [SPLATKW, "input_string", "pattern"] and kw["pattern"] is p and kw["input_string"] is text and kw[SPLATKW] is mopts)
            a, b = SInt.lift(a), SInt.lift(b)
            return Made(f_made(a, b), a, b)
        pm.find_all, pm.Match = find_all, match
        k0, m0, v0, w0 = opts.kterm(), mopts.kterm(), opts.arr(), mopts.arr()
        out = p._match(lit, text, object())
        x = e.freshint("ix")
        want = e.comps.make(x, z3.If(slen(lit.t) > 0, f_snoc(nil, f_made(x, x + slen(lit.t))), nil), R)
        e.prove("one match for every occurrence, as long as the literal, in order; none for an empty literal", out.term() == want, assume=False)
        e.prove("the pattern and its options are not changed", z3.And(opts.kterm() == k0, mopts.kterm() == m0, opts.arr() == v0, mopts.arr() == w0))
        e.prove("the pattern keeps its attributes", p.__dict__ == before and all(p.__dict__[q] is before[q] for q in before))
        done(e)
    return body
