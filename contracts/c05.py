"""C05: cropping and splitting a match partition it exactly."""
from .base import *
from .coll import *
from .c03 import f_mark, hstart, hend, E_
from pyvc.values import f_charin

f_cs = z3.Function("crop_start", I, I)
f_ce = z3.Function("crop_end", I, I)
f_ct = z3.Function("crop_is_tuple", I, B)
KEPT = [n for n in FIELDS if n not in ("start", "end")]


def exists_in(e, L, p):
    """Some element of L satisfies p."""
    y = z3.Int("y?")
    return z3.Not(z3.ForAll([y], z3.Not(z3.And(f_mem(y, L), p(y))), patterns=[f_mem(y, L)]))


def keeps(e, x, m):
    """x has every attribute of m but the bounds."""
    return z3.And([z3.Select(fld(e, n) if n not in e.frozen else e.heap[n], x) == sel(e, n, m) for n in KEPT])


def copier(e, vm):
    """copy.deepcopy of a match (library contract): a new match with equal attributes."""
    def copy(x, deep):
        if not hasattr(x, "__dict__") or "_ref" not in x.__dict__:
            return NotImplemented
        e.stubs_used.add("copy.deepcopy")
        own = [n for c in vm.Match.__mro__ if c is not object for n in ("__deepcopy__", "__copy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__getnewargs__") if n in vars(c)]
        e.prove("a match is copied by the rule of the library", not own)
        e.assumptions.add("copy.deepcopy of a match is a new match whose attributes equal those of the original")
        r = z3.simplify(e.alloc)
        e.alloc = z3.simplify(e.alloc + 1)
        for n in FIELDS:
            e.heap[n] = z3.Store(e.field(n, fld(e, n).sort()), r, e.read(n, x.__dict__["_ref"]))
        return mkref(vm.Match, r)
    e.copy_hook = copy


def remover(e):
    """list.remove finds the match itself: no other element has the same span (and == of matches implies the same span, a task of C18)."""
    def remove(l, v):
        t, r = l.term(), encode(v)
        y = z3.Int("y?")
        if not e.fork(f_mem(r, t)):
            raise prog(ValueError("list.remove(x): x not in list"))
        e.prove("no other piece has the span of the piece removed", T.ax([y], z3.Implies(z3.And(f_mem(y, t), y != r), z3.Or(hstart(e, y) != hstart(e, r), hend(e, y) != hend(e, r))), f_mem(y, t)))
        e.prove("each piece is listed once", f_dist(t))
        l.set_term(but(e, t, r), "ref")
    e.list_remove["ref"] = remove


class Crop:
    """What crop() is asked: the match m, an index k0, and whether the crops so far leave k0."""

    def __init__(self, e, vm, m):
        self.e, self.m, self.r = e, m, ref(m)
        self.s0, self.e0 = sel(e, "start", self.r), sel(e, "end", self.r)
        self.k0 = e.freshint("k0")
        self.inside = z3.And(self.s0 <= self.k0, self.k0 < self.e0)


def free(sp, D):
    """No crop of the list D covers k0."""
    c = z3.Int("c?")
    return T.ax([c], z3.Implies(f_mem(c, D), z3.Not(z3.And(f_cs(c) <= sp.k0, sp.k0 < f_ce(c)))), f_mem(c, D))


def shape(S, R):
    e = E_()
    sp = e.spec
    a0, al = e.frozen_below, e.alloc
    x, y = z3.Int("x?"), z3.Int("y?")
    s, t = lambda q: hstart(e, q), lambda q: hend(e, q)
    return [("allocation grows", al >= a0),
            ("each piece once", f_dist(R)),
            ("the pieces are new matches within the match", T.ax([x], z3.Implies(f_mem(x, R), z3.And(a0 <= x, x < al, sp.s0 <= s(x), s(x) < t(x), t(x) <= sp.e0)), f_mem(x, R))),
            ("the pieces keep the other attributes", T.ax([x], z3.Implies(f_mem(x, R), keeps(e, x, sp.r)), f_mem(x, R))),
            ("the pieces do not overlap", T.ax([x, y], z3.Implies(z3.And(f_mem(x, R), f_mem(y, R), x != y), z3.Or(t(x) <= s(y), t(y) <= s(x))), (f_mem(x, R), f_mem(y, R))))]


def covers(e, sp):
    return lambda x: z3.And(hstart(e, x) <= sp.k0, sp.k0 < hend(e, x))


def outer(S):
    e = E_()
    sp = e.spec
    R = S.term("ret")
    x = z3.Int("x?")
    cov = covers(e, sp)
    ok = sp.left(S.i)
    if z3.is_const(S.i) and not z3.is_int_value(S.i):
        sp.now = ok
    return shape(S, R) + [("no piece covers an index cropped", T.ax([x], z3.Implies(f_mem(x, R), z3.Or(ok, z3.Not(cov(x)))), f_mem(x, R))),
                          ("an index not cropped is in a piece", z3.Implies(ok, exists_in(e, R, cov)))]


def inner(S):
    e = E_()
    sp = e.spec
    R = S.term("ret")
    x = z3.Int("x?")
    cov = covers(e, sp)
    P, i = S.lst, S.i
    a, b = S.int("start"), S.int("end")
    todo = lambda q: z3.And(f_mem(q, P), f_idx_(q, P) >= i)
    h0 = S.entry["heap"]
    hs, he = lambda q: z3.Select(h0["start"], q), lambda q: z3.Select(h0["end"], q)
    was = S.entry["extra"]
    ok = z3.And(was, z3.Not(z3.And(a <= sp.k0, sp.k0 < b)))
    return shape(S, R) + [
        ("a piece to come is as it was", T.ax([x], z3.Implies(todo(x), z3.And(f_mem(x, R), hstart(e, x) == hs(x), hend(e, x) == he(x))), f_mem(x, P))),
        ("a piece done is outside the crop", T.ax([x], z3.Implies(f_mem(x, R), z3.Or(todo(x), b <= hstart(e, x), hend(e, x) <= a)), f_mem(x, R))),
        ("no piece covers an index cropped before", T.ax([x], z3.Implies(f_mem(x, R), z3.Or(was, z3.Not(cov(x)))), f_mem(x, R))),
        ("an index not cropped is in a piece", z3.Implies(ok, exists_in(e, R, cov)))]


f_idx_ = T.f_idx


def inner_entry(S):
    e = E_()
    return e.spec.now


CROP = {"match.Match.crop#0": dict(inv=outer, types={"[]": "ref"}), "match.Match.crop#1": dict(inv=inner, entry=inner_entry, types={"[]": "ref"})}


def prep(e, ctx):
    vm = load_match(e, ctx)
    contract_filter_index(e, vm)
    copier(e, vm)
    remover(e)
    return vm


def subject(e, vm):
    m = new_match(e, vm)
    r = ref(m)
    e.assume(sel(e, "start", r) < sel(e, "end", r))
    e.assume(sel(e, "name", r) >= NONE)
    return m


def answer(e, label, r, sel_):
    if sel_:
        if not isinstance(r, Selection):
            e.fail("%s: the predicate and index select from the pieces" % label, type(r).__name__)
            raise PathEnd()
        e.prove("%s: the predicate and index select from the pieces" % label, bool(r.predicate is e.args[0] and r.index is e.args[1]))
        return r.term
    if not isinstance(r, SymList):
        e.fail("%s: answers a list" % label, type(r).__name__)
        raise PathEnd()
    return r.term()


def _crop(e, ctx, how, sel_):
    vm = prep(e, ctx)

    def body():
        m = subject(e, vm)
        e.freeze(list(FIELDS))
        sp = e.spec = Crop(e, vm, m)
        e.assumptions.add("crop spans are not empty (start < end)")
        if how == "list":
            C = e.fresh("C", LST)
            crop = dec(e, vm)
            e.decoders["crop"] = crop
            c = z3.Int("c?")
            e.assume(allmem(C, lambda c: z3.And(0 <= c, f_cs(c) < f_ce(c), 0 <= f_cs(c), z3.Implies(z3.Not(f_ct(c)), z3.And(c < e.frozen_below, f_cs(c) == sel(e, "start", c), f_ce(c) == sel(e, "end", c))))))
            arg = SymList.of_term(C, "crop")
            sp.left = lambda i: z3.And(sp.inside, free(sp, f_take(C, i)))
        elif how == "match":
            arg = new_match(e, vm, name="o")
            a, b = sel(e, "start", ref(arg)), sel(e, "end", ref(arg))
        else:
            a, b = e.freshint("a"), e.freshint("b")
            arg = (SInt(a), SInt(b))
        if how != "list":
            e.assume(z3.And(0 <= a, a < b))
            out = z3.And(a <= sp.k0, sp.k0 < b)
            sp.left = lambda i: z3.And(sp.inside, z3.Not(z3.And(i > 0, out)))
        e.args = (SFn(e.freshint("pred")), Arg("index"))
        r = m.crop(arg, *e.args) if sel_ else m.crop(arg)
        R = answer(e, "crop", r, sel_)
        k, x, y = sp.k0, e.freshint("x"), e.freshint("y")
        done(e)
        left = z3.And(sp.inside, free(sp, C) if how == "list" else z3.Not(out))
        cov = covers(e, sp)
        e.prove("crop: an index of the match in none of the spans is in a piece", z3.Implies(left, z3.Exists([y], z3.And(f_mem(y, R), cov(y)))), assume=False)
        e.assume(f_mem(x, R))
        e.prove("crop: a piece holds only indices of the match in none of the spans", z3.Implies(cov(x), left))
        e.prove("crop: no index is in two pieces", z3.Implies(z3.And(cov(x), cov(y), f_mem(y, R)), x == y))
        e.prove("crop: pieces are not empty", hstart(e, x) < hend(e, x))
        e.prove("crop: every piece is a new match", z3.And(x >= e.frozen_below, x < e.alloc))
        e.prove("crop: every piece is listed once", f_dist(R))
        e.prove("crop: every piece keeps name, tags, value, formatter and the rest", keeps(e, x, sp.r))
        e.prove("crop: the match is as it was", z3.And(SInt.lift(m.start) == sp.s0, SInt.lift(m.end) == sp.e0))
    return body


def dec(e, vm):
    def crop(c):
        if e.fork(f_ct(c)):
            return (SInt(f_cs(c)), SInt(f_ce(c)))
        return mkref(vm.Match, c)
    return crop


for _h in ("list", "match", "span"):
    for _s in (False, True):
        task("C05", "match.Match.crop[%s%s]" % (_h, ", select" if _s else ""), functions=["match.Match.crop", "utils.is_iterable"], hints=CROP,
             budget=300)(lambda e, ctx, _h=_h, _s=_s: _crop(e, ctx, _h, _s))


class Split:
    """What split() is asked: the match, the separators, a fixed index j0."""

    def __init__(self, e, m, seps, text):
        self.r = ref(m)
        self.s0, self.e0 = sel(e, "start", self.r), sel(e, "end", self.r)
        self.seps, self.text, self.j0 = seps, text, e.freshint("j0")

    def sep(self, j):
        """The character at index j of the text is a separator."""
        return f_charin(T.f_schar(self.text, j), self.seps.t)


def splitting(S):
    e = E_()
    sp = e.spec
    R = S.term("ret")
    cur, nxt = S.v("current_match"), S.v("split_match")
    opened = z3.BoolVal(nxt is None)
    c = ref(cur)
    i = z3.simplify(sp.s0 + S.i)
    n = f_len(R)
    a0, al = e.frozen_below, e.alloc
    k, l, j = z3.Int("k?"), z3.Int("l?"), z3.Int("j?")
    s = lambda q: hstart(e, f_at(R, q))
    t = lambda q: hend(e, f_at(R, q))
    at = T.f_schar(sp.text, j)
    inr = z3.And(0 <= k, k < n)
    closed = z3.And(0 <= k, z3.Or(k < n - 1, z3.And(k == n - 1, z3.Not(opened))))
    out = [("allocation grows", al >= a0),
           ("the pieces are new matches", T.ax([k], z3.Implies(inr, z3.And(a0 <= f_at(R, k), f_at(R, k) < al)), f_at(R, k))),
           ("each piece once", f_dist(R)),
           ("the pieces keep the other attributes", T.ax([k], z3.Implies(inr, keeps(e, f_at(R, k), sp.r)), f_at(R, k))),
           ("an open piece is the last one", z3.Implies(opened, z3.And(n > 0, c == f_at(R, n - 1), hend(e, c) == sp.e0, hstart(e, c) < i))),
           ("the current piece is a new match to the end", z3.And(a0 <= c, c < al, z3.Implies(S.i == 0, z3.And(n == 0, z3.Not(opened))), keeps(e, c, sp.r))),
           ("pieces start in the match", T.ax([k], z3.Implies(inr, z3.And(sp.s0 <= s(k), s(k) < i)), f_at(R, k))),
           ("closed pieces end before here", T.ax([k], z3.Implies(closed, z3.And(s(k) < t(k), t(k) < i)), f_at(R, k))),
           ("pieces are in order", T.ax([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), t(k) < s(l)), (f_at(R, k), f_at(R, l)))),
           ("closed pieces hold no separator", T.ax([k, j], z3.Implies(z3.And(closed, s(k) <= j, j < t(k)), z3.Not(sp.sep(j))), (f_at(R, k), at))),
           ("the open piece holds no separator", z3.Implies(opened, T.ax([j], z3.Implies(z3.And(s(n - 1) <= j, j < i), z3.Not(sp.sep(j))), at))),
           ("without an open piece the last character is a separator", z3.Implies(z3.And(z3.Not(opened), S.i > 0), sp.sep(i - 1))),
           ("before a piece is a separator", T.ax([k], z3.Implies(z3.And(inr, s(k) > sp.s0), sp.sep(s(k) - 1)), f_at(R, k))),
           ("after a closed piece is a separator", T.ax([k], z3.Implies(closed, sp.sep(t(k))), f_at(R, k))),
           ("an index that is no separator is in a piece", z3.Implies(z3.And(sp.s0 <= sp.j0, sp.j0 < i, z3.Not(sp.sep(sp.j0))),
                                                                     exists_at(k, z3.And(0 <= k, k < n, s(k) <= sp.j0, z3.Or(sp.j0 < t(k), z3.And(opened, k == n - 1))))))]
    if nxt is not None:
        q = ref(nxt)
        out.append(("the next piece is a new match to the end, not listed yet", z3.And(a0 <= q, q < al, z3.Not(f_mem(q, R)), hend(e, q) == sp.e0, hstart(e, q) < sp.e0, sp.s0 <= hstart(e, q), keeps(e, q, sp.r))))
    e.assume(z3.And(f_mark(n), f_mark(n - 1)))
    return out


def exists_at(k, body):
    return z3.Not(z3.ForAll([k], z3.Not(z3.And(f_mark(k), body)), patterns=[f_mark(k)]))


SPLIT = {"match.Match.split#0": dict(inv=splitting, types={"[]": "ref", "current_match": "ref", "split_match": "optref"}, carried=("current_match", "split_match"))}


def _split(e, ctx, sel_):
    vm = prep(e, ctx)

    def body():
        m = subject(e, vm)
        r0 = ref(m)
        e.assumptions.add("the match lies within its text and its raw bounds are not set apart")
        e.assume(z3.And(sel(e, "_raw_start", r0) == NONE, sel(e, "_raw_end", r0) == NONE))
        text = sel(e, "input_string", r0)
        e.assume(z3.And(text > 0, T.f_truthy(text), sel(e, "end", r0) <= T.f_slen(text)))
        e.freeze(list(FIELDS))
        seps = SVal(e.freshint("seps"), "str")
        e.assume(seps.t >= 0)
        sp = e.spec = Split(e, m, seps, text)
        e.args = (SFn(e.freshint("pred")), Arg("index"))
        r = m.split(seps, *e.args) if sel_ else m.split(seps)
        R = answer(e, "split", r, sel_)
        k, j, l = e.freshint("k"), e.freshint("j"), e.freshint("l")
        done(e)
        j0 = sp.j0
        e.prove("split: an index that is no separator is in a piece", z3.Implies(z3.And(sp.s0 <= j0, j0 < sp.e0, z3.Not(sp.sep(j0))), z3.Exists([j], z3.And(f_mem(j, R), hstart(e, j) <= j0, j0 < hend(e, j)))), assume=False)
        e.assume(z3.And(0 <= k, k < f_len(R)))
        x = f_at(R, k)
        a, b = hstart(e, x), hend(e, x)
        e.prove("split: pieces are not empty and lie in the match", z3.And(sp.s0 <= a, a < b, b <= sp.e0))
        e.prove("split: a piece holds no separator", z3.Implies(z3.And(a <= j, j < b), z3.Not(sp.sep(j))))
        e.prove("split: a piece starts with the match or after a separator", z3.Or(a == sp.s0, sp.sep(a - 1)))
        e.prove("split: a piece ends with the match or before a separator", z3.Or(b == sp.e0, sp.sep(b)))
        e.prove("split: pieces are in order", z3.Implies(z3.And(k < l, l < f_len(R)), b < hstart(e, f_at(R, l))))
        e.prove("split: every piece is a new match", z3.And(x >= e.frozen_below, x < e.alloc))
        e.prove("split: every piece keeps name, tags, value, formatter and the rest", keeps(e, x, sp.r))
        e.prove("split: the match is as it was", z3.And(SInt.lift(m.start) == sp.s0, SInt.lift(m.end) == sp.e0))
    return body


for _s in (False, True):
    task("C05", "match.Match.split%s" % ("[select]" if _s else ""), functions=["match.Match.split", "match.Match.raw", "match.Match.raw_start", "match.Match.raw_end"], hints=SPLIT,
         budget=300)(lambda e, ctx, _s=_s: _split(e, ctx, _s))
