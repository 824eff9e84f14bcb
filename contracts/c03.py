"""C03: holes are exactly the uncovered parts of the queried range."""
from .base import *
from .coll import *
from .c02 import text_end
from pyvc.values import f_charin


def active(e, ign):
    """Not ignored."""
    if ign is None:
        return lambda x: z3.BoolVal(True)
    p = predterm(e, ign)
    return lambda x: z3.Not(p(x))


def at_active(e, L, which, k, ign):
    """The matches found by a lookup that are not ignored."""
    kk = e.freshint("kk")
    act = active(e, ign)
    t = flt(e, L, lambda x: z3.And(spec(e, which, kk)(x), act(x)))
    return z3.substitute(t, (kk, k))


def nonempty(e, L):
    e.assumptions.add("matches of a collection are not empty (start < end)")
    e.assume(allmem(L, lambda x: sel(e, "start", x) < sel(e, "end", x)))


def prep(e, ctx):
    vm = load_match(e, ctx)
    abstract(e, vm)
    eq_is_identity(e, vm)
    contract_filter_index(e, vm)
    contract_lookups(e, vm)
    return vm


def ignored(e):
    """The ignore argument: none, or an arbitrary predicate."""
    return None if e.choose(2) == 0 else SFn(e.freshint("ign"))


@task("C03", "match._BaseMatches._hole_start", functions=["match._BaseMatches._hole_start"])
def _hs(e, ctx):
    vm = prep(e, ctx)

    def body():
        M, L = abs_coll(e, vm)
        ign = ignored(e)
        p = e.freshint("p")
        e.assume(p >= 0)
        r = SInt.lift(M._hole_start(SInt(p), ign))
        hole_start_spec(e, L, p, ign, r, e.prove, "_hole_start")
        done(e)
    return body


def hole_start_spec(e, L, p, ign, r, put, label):
    y = e.freshint("y") if put == e.prove else z3.Int("hy!")
    st = at_active(e, L, "start", y, ign)
    put("%s: within the text before the position" % label, z3.And(0 <= r, z3.Or(r < p, r == 0)))


@task("C03", "match._BaseMatches._hole_end", functions=["match._BaseMatches._hole_end"])
def _he(e, ctx):
    vm = prep(e, ctx)

    def body():
        M, L = abs_coll(e, vm)
        ign = ignored(e)
        p, y = e.freshint("p"), e.freshint("y")
        e.assume(p >= 0)
        me = text_end(e, M, L)
        r = SInt.lift(M._hole_end(SInt(p), ign))
        hole_end_spec(e, L, p, me, ign, r, y)
        done(e)
    return body


def hole_end_spec(e, L, p, me, ign, r, y):
    st = at_active(e, L, "start", y, ign)
    e.prove("_hole_end: no match that counts starts before the answer", z3.Implies(z3.And(p <= y, y < r, y < me), st == nil), assume=False)
    e.prove("_hole_end: a match starts there, or the end of the text", z3.Or(r == me, z3.And(p <= r, r < me, at_active(e, L, "start", r, ign) != nil)), assume=False)


def contract_hole_bounds(e, vm):
    """_hole_start and _hole_end by their contracts."""
    def hole_start(self, position, ignore=None):
        e.stubs_used.add("match._BaseMatches._hole_start")
        r, p = e.freshint("hs"), SInt.lift(position)
        e.prove("_hole_start is called with a position of the text", p >= 0)
        e.assume(z3.And(0 <= r, z3.Or(r < p, r == 0)))
        return SInt(r)

    def hole_end(self, position, ignore=None):
        e.stubs_used.add("match._BaseMatches._hole_end")
        L = content(self)
        r, p = e.freshint("he"), SInt.lift(position)
        e.prove("_hole_end is called with a position of the text", p >= 0)
        me = text_end(e, self, L)
        y = z3.Int("hy!")
        ign = ignore if isinstance(ignore, SFn) else None
        st = at_active(e, L, "start", y, ign)
        e.assume(z3.ForAll([y], z3.Implies(z3.And(p <= y, y < r, y < me), st == nil), patterns=[st]))
        e.assume(z3.Or(r == me, z3.And(p <= r, r < me, at_active(e, L, "start", r, ign) != nil)))
        return SInt(r)
    vm._BaseMatches._hole_start = hole_start
    vm._BaseMatches._hole_end = hole_end


class Spec:
    """What holes() is asked."""

    def __init__(self, e, M, L, start, end, ign, seps, text):
        self.e, self.M, self.L, self.start, self.end, self.ign, self.seps, self.text = e, M, L, start, end, ign, seps, text

    def cov(self, i):
        """Some match that is not ignored covers index i."""
        return at_active(self.e, self.L, "index", i, self.ign) != nil

    def covpat(self, i):
        return at_active(self.e, self.L, "index", i, self.ign)

    def sep(self, i):
        return f_charin(T.f_schar(self.text, i), self.seps.t) if self.seps is not None else z3.BoolVal(False)

    def shut(self, i):
        """No hole goes on through index i."""
        return z3.Or(self.cov(i), self.sep(i))


def hstart(e, x):
    return z3.Select(e.field("start"), x)


def hend(e, x):
    return z3.Select(e.field("end"), x)


def inv(S):
    e = E_()
    sp = e.spec
    hole = bterm(S.v("hole"))
    R = S.term("ret")
    lo = S.rng[0]
    i = z3.simplify(lo + S.i)              # next index to look at
    n = f_len(R)
    a0, al = e.frozen_below, e.alloc
    k, l, j = z3.Int("k?"), z3.Int("l?"), z3.Int("j?")
    s = lambda q: hstart(e, f_at(R, q))
    t = lambda q: hend(e, f_at(R, q))
    closed = z3.And(0 <= k, z3.Or(k < n - 1, z3.And(k == n - 1, z3.Not(hole))))
    out = [("allocation grows", al >= a0),
           ("the last index looked at", S.int("rindex") == z3.If(S.i > 0, i - 1, sp.start)),
           ("the holes are new matches", T.ax([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(a0 <= f_at(R, k), f_at(R, k) < al)), f_at(R, k))),
           ("the holes are different matches", f_dist(R)),
           ("an open hole is the last one", z3.Implies(hole, n > 0)),
           ("holes start in the range", T.ax([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(sp.start <= s(k), z3.Or(s(k) < i, s(k) == sp.start))), f_at(R, k))),
           ("closed holes end before here", T.ax([k], z3.Implies(closed, z3.And(0 <= t(k), t(k) <= i)), f_at(R, k))),
           ("holes are in order", T.ax([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), z3.And(t(k) <= s(l), s(k) <= s(l))), (f_at(R, k), f_at(R, l)))),
           ("closed holes hold no covered index", T.ax([k, j], z3.Implies(z3.And(closed, s(k) <= j, j < t(k)), z3.Not(sp.cov(j))), (f_at(R, k), sp.covpat(j)))),
           ("the open hole holds no covered index", z3.Implies(hole, T.ax([j], z3.Implies(z3.And(s(n - 1) <= j, j < i), z3.Not(sp.cov(j))), sp.covpat(j)))),
           ("without an open hole the last index is shut", z3.Implies(z3.And(z3.Not(hole), S.i > 0), sp.shut(i - 1))),
           ("before a hole is a shut index", T.ax([k], z3.Implies(z3.And(0 <= k, k < n, s(k) > sp.start), sp.shut(s(k) - 1)), f_at(R, k))),
           ("after a closed hole is a shut index", T.ax([k], z3.Implies(closed, sp.shut(t(k))), f_at(R, k))),
           ("an open index of the range is in a hole", z3.Implies(z3.And(sp.start <= sp.j0, sp.j0 < i, z3.Not(sp.shut(sp.j0))),
                                                                   exists(k, z3.And(0 <= k, k < n, s(k) <= sp.j0, z3.Or(sp.j0 < t(k), z3.And(hole, k == n - 1)))))),
           ]
    if sp.seps is not None:
        sj = T.f_schar(sp.text, j)
        out += [("closed holes hold no separator after the first index", T.ax([k, j], z3.Implies(z3.And(closed, s(k) < j, j < t(k)), z3.Not(sp.sep(j))), (f_at(R, k), sj))),
                ("the open hole holds no separator after the first index", z3.Implies(hole, T.ax([j], z3.Implies(z3.And(s(n - 1) < j, j < i), z3.Not(sp.sep(j))), sj)))]
    e.assume(z3.And(f_mark(n), f_mark(n - 1)))
    return out


f_mark = z3.Function("witness", I, B)


def exists(k, body):
    """There is a k (the marker only guides the instantiation: witness(x) holds of every x)."""
    return z3.Not(z3.ForAll([k], z3.Not(z3.And(f_mark(k), body)), patterns=[f_mark(k)]))


def E_():
    from pyvc.engine import Engine
    return Engine.cur


HINT = {"match._BaseMatches.holes#0": dict(inv=inv, types={"hole": "bool", "[]": "ref"})}


def _holes(e, ctx, withseps, withign):
    vm = prep(e, ctx)
    contract_hole_bounds(e, vm)
    vm.defined_at = lambda *a: None

    def body():
        M, L = abs_coll(e, vm)
        nonempty(e, L)
        text = M.__dict__["input_string"].t
        ign = SFn(e.freshint("ign")) if withign else None
        seps = SVal(e.freshint("seps"), "str") if withseps else None
        if seps is not None:
            e.assume(seps.t > 0)
            e.assume(z3.And(text != NONE, text != 0))
            e.assumptions.add("matches lie within the text of their collection, bounds are not negative")
            e.assume(maxend(e, L) <= T.f_slen(text))
        a, b = e.freshint("a"), e.freshint("b")
        e.assume(z3.And(a >= 0, b >= 0))
        noend = e.choose(2) == 0
        me = text_end(e, M, L)
        lim = e.freshint("lim")
        e.assume(lim == (me if noend else z3.If(b < me, b, me)))
        e.spec = Spec(e, M, L, a, lim, ign, seps, text)
        j0 = e.spec.j0 = e.freshint("j0")
        sp = e.spec
        e.freeze(["start", "end", "name", "marker"])
        r = M.holes(SInt(a), None if noend else SInt(b), None, ign, seps)
        if not isinstance(r, SymList):
            e.fail("holes: answers a list", type(r).__name__)
            raise PathEnd()
        R = r.term()
        k, j = e.freshint("k"), e.freshint("j")
        done(e)
        e.prove("holes: every other index of the range is in one", z3.Implies(z3.And(a <= j0, j0 < lim, z3.Not(sp.shut(j0))), z3.Exists([j], z3.And(f_mem(j, R), hstart(e, j) <= j0, j0 < hend(e, j)))), assume=False)
        e.assume(z3.And(0 <= k, k < f_len(R)))
        x = f_at(R, k)
        e.prove("holes: not empty", hstart(e, x) < hend(e, x))
        e.prove("holes: within the range", z3.And(a <= hstart(e, x), hend(e, x) <= lim))
        e.prove("holes: hold no covered index", z3.Implies(z3.And(hstart(e, x) <= j, j < hend(e, x)), z3.Not(e.spec.cov(j))))
        e.prove("holes: begin at the range or after an index that is covered or a separator", z3.Or(hstart(e, x) == a, sp.shut(hstart(e, x) - 1)))
        e.prove("holes: end with the range or before an index that is covered or a separator", z3.Or(hend(e, x) == lim, sp.shut(hend(e, x))))
        if seps is not None:
            e.prove("holes: hold no separator after the first index", z3.Implies(z3.And(hstart(e, x) < j, j < hend(e, x)), z3.Not(sp.sep(j))))
        l = e.freshint("l")
        e.prove("holes: in order, not overlapping", z3.Implies(z3.And(k < l, l < f_len(R)), hend(e, x) <= hstart(e, f_at(R, l))))
    return body


for _s in (False, True):
    for _i in (False, True):
        task("C03", "match._BaseMatches.holes[%s,%s]" % ("separators" if _s else "plain", "ignore" if _i else "all"), functions=["match._BaseMatches.holes", "match.Match.__init__"],
             hints=HINT, budget=300)(lambda e, ctx, _s=_s, _i=_i: _holes(e, ctx, _s, _i))
