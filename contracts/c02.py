"""C02: positional queries."""
from .base import *
from .coll import *


def span(e, x):
    return sel(e, "start", x), sel(e, "end", x)


def text_end(e, M, L):
    t = M.__dict__["input_string"].t
    me = maxend(e, L)
    n = T.f_slen(t)
    return z3.If(z3.And(t != NONE, n > me), n, me)


def lt_span(e, a, b):
    (sa, ea), (sb, eb) = span(e, a), span(e, b)
    return z3.Or(sa < sb, z3.And(sa == sb, ea < eb))


def query(name, fns, **kw):
    """The query `name` checked without selection and with an arbitrary predicate and index handed through."""
    def deco(fn):
        for v in ("all", "select"):
            @task("C02", "match._BaseMatches.%s [%s]" % (name, v), functions=fns, **kw)
            def t(e, ctx, v=v):
                vm = load_match(e, ctx)
                abstract(e, vm)
                eq_is_identity(e, vm)
                contract_filter_index(e, vm)
                contract_lookups(e, vm)

                def body():
                    M, L = abs_coll(e, vm)
                    p, i = (None, None) if v == "all" else (Arg("predicate"), Arg("index"))
                    base = [None]

                    def run(call):
                        r = call(p, i)
                        if v == "all":
                            if not isinstance(r, SymList):
                                e.fail("%s: answers a list" % name, type(r).__name__)
                                raise PathEnd()
                            e.prove("%s: the list handed back is not an internal one" % name, r._slot is None and r is not M.__dict__["_delegate"])
                            return r.term()
                        if not isinstance(r, Selection):
                            e.fail("%s: answers a selection of filter_index" % name, type(r).__name__)
                            raise PathEnd()
                        e.prove("%s: predicate and index reach the selection" % name, r.predicate is p and r.index is i)
                        return r.term
                    fn(e, vm, M, L, run)
                    e.prove("%s: collection unchanged" % name, z3.And(content(M) == L, lk(M).term() == L))
                    done(e)
                return body
        return fn
    return deco


def member_spec(e, label, base, L, pred, once=True):
    """base holds exactly the members of L satisfying pred, each once."""
    x = e.freshint("q")
    pc = list(e.pc)
    e.assume(f_mem(x, L))
    e.prove("%s: only matches described" % label, z3.Implies(f_mem(x, base), pred(x)), assume=False)
    e.prove("%s: every match described" % label, z3.Implies(pred(x), f_mem(x, base)), assume=False)
    e.pc = pc
    e.prove("%s: nothing but matches of the collection" % label, z3.Implies(f_mem(x, base), f_mem(x, L)), assume=False)
    if once:
        e.prove("%s: each once" % label, f_dist(base), assume=False)


@query("range", ["match._BaseMatches.range", "match._BaseMatches.max_end", "match.Match.__lt__"])
def _range(e, vm, M, L, run):
    a, b = e.freshint("a"), e.freshint("b")
    noend = e.choose(2) == 0
    base = run(lambda p, i: M.range(SInt(a), None if noend else SInt(b), p, i))
    te = text_end(e, M, L)
    lim = te if noend else z3.If(b < te, b, te)

    def over(x):
        s, n = span(e, x)
        return z3.And(s < lim, n > a)
    member_spec(e, "range", base, L, over)
    k, l = e.freshint("k"), e.freshint("l")
    e.prove("range: sorted by position", z3.Implies(z3.And(0 <= k, k < l, l < f_len(base)), z3.Not(lt_span(e, f_at(base, l), f_at(base, k)))), assume=False)


@query("conflicting", ["match._BaseMatches.conflicting", "match._BaseMatches.at_index"])
def _conflicting(e, vm, M, L, run):
    m = new_match(e, vm)
    base = run(lambda p, i: M.conflicting(m, p, i))
    x = e.freshint("q")
    (s, n), (ms, me) = span(e, x), span(e, ref(m))
    lo = z3.If(s < ms, ms, s)
    hi = z3.If(n < me, n, me)
    pc = list(e.pc)
    e.assume(f_mem(x, L))
    e.prove("conflicting: only other matches sharing an index", z3.Implies(f_mem(x, base), z3.And(x != ref(m), lo < hi)), assume=False)
    # an index both have, when there is one
    e.prove("conflicting: first common index", f_mem(lo, T.f_rng(ms, me)) == z3.And(ms <= lo, lo < me))
    at_lo = at_key(e, L, "index", lo)
    e.prove("conflicting: common index is looked up", f_mem(x, at_lo) == z3.And(s <= lo, lo < n))
    e.assume(z3.And(x != ref(m), lo < hi))
    e.assume(f_mem(x, at_lo))
    e.prove("conflicting: every other match sharing an index", f_mem(x, base), assume=False)
    e.pc = pc
    e.prove("conflicting: nothing but matches of the collection", z3.Implies(f_mem(x, base), f_mem(x, L)), assume=False)
    e.prove("conflicting: each once", f_dist(base), assume=False)


def at_span_spec(e, label, M, L, base, a, b):
    def covers(x):
        s, n = span(e, x)
        return z3.Or(z3.And(s <= a, a < n), z3.And(s <= b - 1, b - 1 < n))
    member_spec(e, label, base, L, covers)


@query("at_span", ["match._BaseMatches.at_span"])
def _at_span(e, vm, M, L, run):
    a, b = e.freshint("a"), e.freshint("b")
    base = run(lambda p, i: M.at_span((SInt(a), SInt(b)), p, i))
    at_span_spec(e, "at_span", M, L, base, a, b)


@query("at_match", ["match._BaseMatches.at_match", "match._BaseMatches.at_span"])
def _at_match(e, vm, M, L, run):
    m = new_match(e, vm)
    base = run(lambda p, i: M.at_match(m, p, i))
    at_span_spec(e, "at_match", M, L, base, *span(e, ref(m)))


@query("previous", ["match._BaseMatches.previous", "match._BaseMatches.ending"])
def _previous(e, vm, M, L, run):
    m = new_match(e, vm)
    base = run(lambda p, i: M.previous(m, p, i))
    nearest(e, "previous", base, L, lambda x: sel(e, "end", x), "end", lambda z: z <= sel(e, "start", ref(m)), lambda z, w: z > w)


@query("next", ["match._BaseMatches.next", "match._BaseMatches.starting"])
def _next(e, vm, M, L, run):
    m = new_match(e, vm)
    base = run(lambda p, i: M.next(m, p, i))
    nearest(e, "next", base, L, lambda x: sel(e, "start", x), "start", lambda z: z > sel(e, "start", ref(m)), lambda z, w: z < w)


def nearest(e, label, base, L, edge, which, side, nearer):
    """base is the list of matches whose edge is the nearest one on the given side."""
    x, y = e.freshint("q"), e.freshint("y")
    pc = list(e.pc)
    e.assume(z3.And(f_mem(x, L), f_mem(y, L)))
    # the lookups at the edges of these two matches are what the search compares
    for z in (x, y):
        t = at_key(e, L, which, edge(z))
        e.prove("%s: a match is found at its edge" % label, f_mem(z, t))
        e.assume(t != nil)
    e.prove("%s: only matches on that side" % label, z3.Implies(f_mem(x, base), side(edge(x))), assume=False)
    e.prove("%s: none nearer is left out" % label, z3.Implies(z3.And(f_mem(x, base), side(edge(y))), z3.Not(nearer(edge(y), edge(x)))), assume=False)
    e.prove("%s: all at the same distance" % label, z3.Implies(z3.And(f_mem(x, base), edge(y) == edge(x)), f_mem(y, base)), assume=False)
    e.prove("%s: empty only when there is none" % label, z3.Implies(base == nil, z3.Not(side(edge(x)))), assume=False)
    e.pc = pc
    e.prove("%s: nothing but matches of the collection" % label, z3.Implies(f_mem(x, base), f_mem(x, L)), assume=False)
    e.prove("%s: each once" % label, f_dist(base), assume=False)


@task("C02", "match._BaseMatches.max_end", functions=["match._BaseMatches.max_end"])
def _maxend(e, ctx):
    vm = load_match(e, ctx)
    abstract(e, vm)

    def body():
        M, L = abs_coll(e, vm)
        r = M.max_end
        e.prove("max_end: end of the text or of the last match", SInt.lift(r) == text_end(e, M, L))
        x = e.freshint("x")
        e.prove("max_end: no match ends later", z3.Implies(f_mem(x, L), sel(e, "end", x) <= SInt.lift(r)))
        done(e)
    return body
