"""C09: a chain match is a run of the pieces its parts find."""
from .base import *
from .coll import ref, but, flt
from pyvc.gdict import GDict
from pyvc.terms import f_idx
from .c12 import group_runs, f_grp, f_gkey, f_members, LISTS
from pyvc.engine import Engine
from pyvc import builtins_ as pv
from pyvc.builtins_ import SPLATKW

# a match as a chain part sees it: where it was found, which repetition it is, the match it belongs to
f_rs = z3.Function("raw_start", I, I)
f_re = z3.Function("raw_end", I, I)
f_mi = z3.Function("match_index_of", I, I)
f_ini = z3.Function("initiator_of", I, I)


def E_():
    return Engine.cur


class Found:
    """A match handed out by the pattern of a part, read only."""
    _vc_kind = "found"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    @property
    def initiator(self):
        E_().stubs_used.add("match.Match.initiator")
        return Found(f_ini(self.code))

    @property
    def raw_start(self):
        return SInt(f_rs(self.code))

    @property
    def raw_end(self):
        return SInt(f_re(self.code))

    @property
    def match_index(self):
        return SInt(f_mi(self.code))


def part(e, m):
    p = object.__new__(m.ChainPart)
    lo = e.freshint("least")
    e.assume(lo >= 0)
    p.__dict__["repeater_start"] = SInt(lo)
    if e.choose(2):
        hi = e.freshint("most")
        e.assume(hi >= 0)
        p.__dict__["repeater_end"] = SInt(hi)
    else:
        hi = None
        p.__dict__["repeater_end"] = None
    return p, lo, hi


def spans(e, n):
    """Matches lie in the text searched."""
    x = z3.Int("sx!")
    e.assume(T.ax([x], z3.And(0 <= f_rs(x), f_rs(x) <= n), f_rs(x)))
    e.assume(T.ax([x], z3.And(0 <= f_re(x), f_re(x) <= n), f_re(x)))
    e.assume(T.ax([x], f_mi(x) >= 0, f_mi(x)))


def adj(a, b):
    """No character of the text between a match and the next."""
    return f_rs(f_ini(b)) <= f_re(f_ini(a))


def upto_gap(L, g, k):
    """g matches of L (not empty) are before the first gap."""
    n = f_len(L)
    return z3.And(1 <= g, g <= n, T.ax([k], z3.Implies(z3.And(0 <= k, k < g - 1), adj(f_at(L, k), f_at(L, k + 1))), f_at(L, k)), z3.Or(g == n, z3.Not(adj(f_at(L, g - 1), f_at(L, g)))))


def below(e, hi, L):
    x = e.freshint("bx")
    return L if hi is None else e.comps.make(x, z3.If(f_mi(x) < hi, f_snoc(nil, x), nil), L)


def truncated(e, L, g, start, hi):
    """What _truncate_repeater answers; g: how many are before the first gap."""
    first = z3.Or(start, f_rs(f_ini(f_at(L, 0))) == 0)
    return z3.If(z3.And(L != nil, first), below(e, hi, f_take(L, g)), nil)


@task(["C09", "C20"], "chain.ChainPart._validate_repeater", functions=["chain.ChainPart._validate_repeater"])
def _vr(e, ctx):
    m = ctx.chain

    def body():
        e.decoders["found"] = Found
        p, lo, hi = part(e, m)
        spans(e, e.freshint("n"))
        L = e.fresh("matches", LST)
        l = SymList.of_term(L, "found")
        x = z3.Int("vx!")
        before = dict(p.__dict__)
        few = z3.And(lo > 0, T.ax([x], z3.Implies(f_mem(x, L), f_mi(x) + 1 < lo), f_mem(x, L)))
        try:
            p._validate_repeater(l)
        except m._InvalidChainException:
            e.prove("refused only when there are fewer repetitions than asked", few, assume=False)
            done(e)
            return
        e.prove("accepted only when there are as many repetitions as asked", z3.Not(few), assume=False)
        e.prove("the matches are not changed", l.term() == L)
        e.prove("the part is not changed", same_attributes(p, before))
        done(e)
    return body


TRUNC = "chain.ChainPart._truncate_repeater"


def trunc_inv(S):
    L, k = S.entry["terms"]["matches"] if "matches" in S.entry["terms"] else S.v("matches").term(), z3.Int("tk!")
    return [("counted", SInt.lift(S.v("j")) == S.i + 1), ("no gap before", T.ax([k], z3.Implies(z3.And(0 <= k, k < S.i), adj(f_at(L, k), f_at(L, k + 1))), f_at(L, k)))]


@task(["C09", "C20"], TRUNC, functions=[TRUNC], hints={TRUNC + "#0": dict(inv=trunc_inv)})
def _tr(e, ctx):
    m = ctx.chain

    def body():
        e.decoders["found"] = Found
        p, lo, hi = part(e, m)
        text = SVal(e.freshint("text"), "str")
        spans(e, T.f_slen(text.t))
        start = e.fresh("start", B)
        m.ChainPart._is_chain_start = property(lambda s: (e.stubs_used.add("chain.ChainPart._is_chain_start"), SBool(start))[1])
        L = e.fresh("matches", LST)
        l = SymList.of_term(L, "found")
        g, k = e.freshint("before_gap"), z3.Int("tk!")
        e.assume(z3.Implies(L != nil, upto_gap(L, g, k)))
        before = dict(p.__dict__)
        r = p._truncate_repeater(l, text)
        e.prove("the matches before the first gap and within the repeat bound; none when a later part does not find one at once", r.term() == truncated(e, L, g, start, hi), assume=False)
        e.prove("the list given is not changed", l.term() == L)
        e.prove("the part is not changed", same_attributes(p, before))
        done(e)
    return body


class Searched:
    """The pattern of a part, searched: every piece it finds, and what it hands out for those accepted."""

    def __init__(self, e):
        self.asked = []
        self.A, self.R = e.fresh("accepted", LST), e.fresh("raw", LST)

    def matches(self, *a, **k):
        self.asked.append((a, k))
        return SymList.of_term(self.A, "found"), SymList.of_term(self.R, "found")


f_acc = z3.Function("one_accepted", I, I)      # a match handed out for the piece with this index


def pieces(e, R):
    """The pieces a pattern finds: each its own initiator, numbered, ascending, apart."""
    j, k = z3.Int("pj!"), z3.Int("pk!")
    at = lambda i: f_at(R, i)
    inr = lambda i: z3.And(0 <= i, i < f_len(R))
    e.assumptions.add("a part reports the pieces it finds in ascending order, without overlap, none empty (one expression, one literal)")
    e.assume(f_dist(R))
    e.assume(T.ax([j], z3.Implies(inr(j), z3.And(f_ini(at(j)) == at(j), f_mi(at(j)) == j, f_rs(at(j)) < f_re(at(j)))), at(j)))
    e.assume(T.ax([j, k], z3.Implies(z3.And(inr(j), inr(k), j < k), f_re(at(j)) <= f_rs(at(k))), (at(j), at(k))))


def handed_out(e, A, R):
    """What is handed out belongs to the pieces found, in their order."""
    j, k, x = z3.Int("pj!"), z3.Int("pk!"), z3.Int("px!")
    e.assume(f_dist(A))
    e.assume(T.ax([x], z3.Implies(f_mem(x, A), z3.And(f_mem(f_ini(x), R), f_mi(x) == f_mi(f_ini(x)))), f_mem(x, A)))
    e.assume(T.ax([j, k], z3.Implies(z3.And(0 <= j, j < k, k < f_len(A)), f_mi(f_at(A, j)) <= f_mi(f_at(A, k))), (f_at(A, j), f_at(A, k))))


@task(["C09", "C20"], "chain.ChainPart.matches", functions=["chain.ChainPart.matches"])
def _pm(e, ctx):
    m = ctx.chain

    def body():
        e.axioms.update(T.PLACE_AXIOMS)
        e.decoders["found"] = Found
        p, lo, hi = part(e, m)
        text, cx = SVal(e.freshint("text"), "str"), object()
        n = T.f_slen(text.t)
        spans(e, n)
        start = e.fresh("start", B)
        pt = p.__dict__["pattern"] = Searched(e)
        A, R = pt.A, pt.R
        pieces(e, R)
        handed_out(e, A, R)
        gA, gR, k = e.freshint("gapA"), e.freshint("gapR"), z3.Int("tk!")
        e.assume(z3.Implies(A != nil, upto_gap(A, gA, k)))
        e.assume(z3.Implies(R != nil, upto_gap(R, gR, k)))

        def trunc(self, ms, t):
            e.stubs_used.add(TRUNC)
            e.prove("truncated within the text searched", t is text)
            l = ms.term()
            which = [c for L, c in ((A, A2), (R, R2)) if l.eq(L)]
            if not which:
                raise Unsupported("another list truncated")
            return SymList.of_term(which[0], "found")
        m.ChainPart._truncate_repeater = trunc

        def valid(self, ms):
            e.stubs_used.add("chain.ChainPart._validate_repeater")
            x = z3.Int("vx!")
            if e.fork(z3.And(lo > 0, T.ax([x], z3.Implies(f_mem(x, ms.term()), f_mi(x) + 1 < lo), f_mem(x, ms.term())))):
                raise prog(m._InvalidChainException())
        m.ChainPart._validate_repeater = valid
        e.decoders["found"] = Found
        A2, R2 = e.fresh("accepted_kept", LST), e.fresh("raw_kept", LST)
        e.assume(A2 == truncated(e, A, gA, start, hi))
        e.assume(R2 == truncated(e, R, gR, start, hi))
        # the repetitions kept: the first ones
        cnt = gR if hi is None else z3.If(hi < 0, 0, z3.If(gR < hi, gR, hi))
        want = z3.If(z3.And(R != nil, z3.Or(start, f_rs(f_at(R, 0)) == 0)), f_take(R, cnt), nil)

        def lemma():
            if hi is None:
                return
            P = f_take(R, gR)
            some = z3.And(R != nil)
            e.prove("lemma: those within the bound come first", z3.Implies(some, below(e, hi, f_take(P, cnt)) == f_take(P, cnt)))
            e.prove("lemma: those after are beyond it", z3.Implies(some, below(e, hi, f_drop(P, cnt)) == nil))
            e.prove("lemma: the bound cuts a prefix", z3.Implies(some, below(e, hi, f_cat(f_take(P, cnt), f_drop(P, cnt))) == f_take(P, cnt)))
            e.prove("lemma: and it is one of the pieces found", z3.Implies(some, below(e, hi, P) == f_take(P, cnt)))
        lemma()
        last = f_at(R2, f_len(R2) - 1)
        at_lo = f_at(R2, lo - 1)
        e.prove("lemma: the pieces are numbered from none", z3.Implies(z3.And(0 < lo, lo <= f_len(R2)), z3.And(f_mem(at_lo, R2), f_mi(at_lo) == lo - 1)))
        raw = bool(e.choose(2))
        before = dict(p.__dict__)
        try:
            r = p.matches(text, cx, with_raw_matches=True) if raw else p.matches(text, cx)
        except m._InvalidChainException:
            e.prove("refused only with fewer pieces than asked", f_len(R2) < lo, assume=False)
            done(e)
            return
        e.prove("the pattern is searched once, in the text, with the context", len(pt.asked) == 1 and (pt.asked[0][0] + tuple(pt.asked[0][1].get(q) for q in ("context",) if q in pt.asked[0][1])) == (text, cx) and pt.asked[0][1].get("with_raw_matches", False) is True)
        acc, rr = r if raw else (r, None)
        e.prove("the part is not changed", same_attributes(p, before))
        if raw:
            Q = rr.term()
            j = e.freshint("j")
            inq = z3.And(0 <= j, j < f_len(Q))
            e.prove("the pieces: a run of those found", Q == R2)
            x = e.freshint("x")
            e.prove("every one of them is found by the pattern", z3.Implies(f_mem(x, Q), f_mem(x, R)), assume=False)
            e.prove("numbered from none", z3.Implies(inq, z3.And(f_at(Q, j) == f_at(R, j), f_mi(f_at(Q, j)) == j)))
            e.prove("one begins where the one before ends", z3.Implies(z3.And(inq, j > 0), f_rs(f_at(Q, j)) == f_re(f_at(Q, j - 1))), assume=False)
            e.prove("the first of a later part begins at once", z3.Implies(z3.And(Q != nil, z3.Not(start)), f_rs(f_at(Q, 0)) == 0), assume=False)
            e.prove("no more than allowed", f_len(Q) <= hi if hi is not None else z3.BoolVal(True), assume=False)
            e.prove("no fewer than asked", f_len(Q) >= lo, assume=False)
        S = acc.term()
        y, q = e.freshint("y"), z3.Int("aq!")
        e.prove("what is handed out was handed out by the pattern", z3.Implies(f_mem(y, S), f_mem(y, A)), assume=False)
        # everything handed out for a piece of the run, none before it being rejected
        ok = T.ax([q], z3.Implies(z3.And(0 <= q, q <= f_mi(y)), z3.And(f_mem(f_acc(q), A), f_mi(f_acc(q)) == q)), f_acc(q), f_at(R, q))
        H = z3.And(f_mem(y, A), f_mem(f_ini(y), R2), ok)
        at = lambda i: f_at(R, i)
        u, v = f_at(A, gA - 1), f_at(A, gA)
        nx = f_acc(f_mi(u) + 1)
        cut = z3.And(H, f_idx(y, A) >= gA)
        e.prove("lemma: a match belongs to the piece of its number", z3.Implies(f_mem(y, A), z3.And(f_ini(y) == at(f_mi(y)), 0 <= f_mi(y), f_mi(y) < f_len(R))))
        e.prove("lemma: the first handed out is for the first piece", z3.Implies(H, z3.And(f_mi(f_acc(0)) == 0, f_mem(f_acc(0), A), f_at(A, f_idx(f_acc(0), A)) == f_acc(0), f_mi(f_at(A, 0)) == 0, f_ini(f_at(A, 0)) == at(0))))
        e.prove("lemma: pieces up to that of the match are of the run", z3.Implies(z3.And(H), f_mi(y) < f_len(R2)))
        e.prove("lemma: around a gap", z3.Implies(cut, z3.And(f_mem(u, A), f_mem(v, A), f_mi(u) <= f_mi(v), f_mi(v) <= f_mi(y), f_at(A, f_idx(y, A)) == y)))
        e.prove("lemma: both belong to the pieces of their numbers", z3.Implies(cut, z3.And(f_ini(u) == at(f_mi(u)), f_ini(v) == at(f_mi(v)))))
        e.prove("lemma: none of one piece", z3.Implies(z3.And(cut, gA < f_len(A)), f_mi(u) != f_mi(v)))
        e.prove("lemma: the next piece has one", z3.Implies(z3.And(cut, f_mi(u) < f_mi(v)), z3.And(f_mem(nx, A), f_mi(nx) == f_mi(u) + 1, f_at(A, f_idx(nx, A)) == nx)))
        e.prove("lemma: which is the one after the gap", z3.Implies(z3.And(cut, f_mi(u) < f_mi(v)), f_mi(v) == f_mi(u) + 1))
        e.prove("lemma: no gap before the match", z3.Implies(H, f_idx(y, A) < gA))
        e.prove("lemma: it is kept before the bound", z3.Implies(H, f_mem(y, f_take(A, gA))))
        e.prove("everything handed out for a piece of the run is kept, when none before is rejected", z3.Implies(z3.And(f_mem(y, A), f_mem(f_ini(y), R2), ok), f_mem(y, S)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ groups of one repetition
class Groups(GDict):
    """A dictionary of lists of matches by number."""
    def __init__(self, *a):
        e = E_()
        super().__init__(nil, "int", "list", e.fresh("groups", LISTS))

    def val(self, c):
        return SymList.of_term(self.at(c), "found")

    def enc(self, v):
        if not isinstance(v, SymList):
            raise Unsupported("a group that is no list")
        return v.term()


GROUP = "chain.Chain._group_by_match_index"


def groups_done(S):
    e = E_()
    D, g = S.v("grouped_matches_dict"), z3.Int("gg!")
    y = e.freshint("gy")
    return [("one number for each run", D.kterm() == e.comps.make(y, f_snoc(nil, f_gkey(y)), S.done)),
            ("the run of a number", T.ax([g], z3.Implies(f_mem(g, S.done), z3.Select(D.arr(), f_gkey(g)) == f_members(g)), f_mem(g, S.done)))]


@task("C09", GROUP, functions=[GROUP], hints={GROUP + "#0": dict(inv=groups_done)})
def _gr(e, ctx):
    m = ctx.chain

    class It:
        groupby = staticmethod(group_runs)
    m.itertools = It

    def body():
        e.axioms.update(T.PLACE_AXIOMS)
        e.decoders["found"] = Found
        e.sort_hook = pv_stable
        e.mkdict_hook = lambda pairs: Groups() if not pairs else NotImplemented
        spans(e, e.freshint("n"))
        L = e.fresh("matches", LST)
        e.assume(f_dist(L))
        e.assumptions.add("no match is handed out twice by one search")
        l = SymList.of_term(L, "found")
        D = m.Chain._group_by_match_index(l)
        x, y, k = e.freshint("x"), e.freshint("y"), e.freshint("k")
        K, a = D.kterm(), z3.Select(D.arr(), k)
        G, S = e.G, e.S
        g1, g2 = e.freshint("g1"), e.freshint("g2")
        w = z3.Function("one_of_group", I, I)
        two = z3.And(f_mem(g1, G), f_mem(g2, G), f_idx(g1, G) < f_idx(g2, G))
        e.prove("lemma: runs are in order", z3.Implies(two, z3.And(f_mem(w(g1), S), f_mem(w(g2), S), f_grp(w(g1)) == g1, f_grp(w(g2)) == g2, f_idx(w(g1), S) < f_idx(w(g2), S))))
        e.prove("lemma: numbers ascend", z3.Implies(two, f_gkey(g1) < f_gkey(g2)))
        e.prove("every match is in the group of its number", z3.Implies(f_mem(x, L), z3.And(f_mem(f_mi(x), K), f_mem(x, z3.Select(D.arr(), f_mi(x))))), assume=False)
        e.prove("a group holds matches of its number only", z3.Implies(z3.And(f_mem(k, K), f_mem(x, a)), z3.And(f_mem(x, L), f_mi(x) == k)), assume=False)
        e.prove("each once", z3.Implies(f_mem(k, K), f_dist(a)), assume=False)
        e.prove("in the order given", z3.Implies(z3.And(f_mem(k, K), f_mem(x, a), f_mem(y, a)), (f_idx(x, a) < f_idx(y, a)) == (f_idx(x, L) < f_idx(y, L))), assume=False)
        i, j = e.freshint("i"), e.freshint("j")
        e.prove("the numbers ascend", z3.Implies(z3.And(0 <= i, i < j, j < f_len(K)), f_at(K, i) < f_at(K, j)), assume=False)
        e.prove("no group is empty", z3.Implies(f_mem(k, K), a != nil), assume=False)
        e.prove("the list given is not changed", l.term() == L)
        done(e)
    return body


from pyvc.builtins_ import stable_sort as pv_stable  # noqa: E402


# ------------------------------------------------------------------ positions in the whole text
from .c08 import f_kids  # noqa: E402
F09 = dict(start="int", end="int", input_string="str", parent="optref", match_index="int", pattern="any")
f_below = z3.Function("in_or_below", LST, I, B)      # y is one of the list, or a child of one of it, or of one of these, ...
OWN = "chain.Chain._fix_matches_offset"


def rd(e, f, x):
    return z3.Select(e.field(f), x)


def heap_setup(e, ctx):
    vm = ctx.match
    manage(vm.Match, F09)
    e.decoders["ref"] = lambda c: mkref(vm.Match, c)
    e.alloc = z3.Int("alloc0")
    vm.Match.children = property(lambda s: (e.stubs_used.add("match.Match.children"), SymList.of_term(f_kids(ref(s)), "ref"))[1], lambda s, v: _no("children assigned"))
    for f in F09:
        e.field(f)
    L, x, y = z3.Const("bl!", LST), z3.Int("bx!"), z3.Int("by!")
    e.assume(T.ax([y], z3.Not(f_below(nil, y)), f_below(nil, y)))
    e.assume(T.ax([L, x, y], f_below(f_snoc(L, x), y) == z3.Or(f_below(L, y), y == x, f_below(f_kids(x), y)), f_below(f_snoc(L, x), y)))
    return vm


def _no(m):
    raise Unsupported(m)


def shifted(e, h0, S, text, off, y):
    """The positions of y are those in the whole text when y is in S, else what they were."""
    at = lambda h, f: z3.Select(h[f], y)
    mv = z3.And(S(y), at(h0, "input_string") != text)
    return z3.And(at(e.heap, "start") == z3.If(mv, at(h0, "start") + off, at(h0, "start")), at(e.heap, "end") == z3.If(mv, at(h0, "end") + off, at(h0, "end")),
                  at(e.heap, "input_string") == z3.If(S(y), text, at(h0, "input_string")))


def shift_all(e, S, text, off):
    """The effect of _fix_matches_offset."""
    h0 = dict(e.heap)
    y = z3.Int("sy!")
    for f in ("start", "end", "input_string"):
        e.heap[f] = e.fresh("fixed_" + f, T.ARR)
    e.assume(T.ax([y], shifted(e, h0, S, text, off, y), *[z3.Select(e.heap[f], y) for f in ("start", "end", "input_string")]))


def fix_inv(S):
    e = E_()
    y = z3.Int("sy!")
    if not S.lst.eq(e.cur_list):
        raise Unsupported("a loop over something else")
    done_ = S.done
    return [("those before are fixed, no other", T.ax([y], shifted(e, e.h0, lambda v: f_below(done_, v), e.text, e.off, y), *[z3.Select(e.heap[f], y) for f in ("start", "end", "input_string")]))]


f_depth = z3.Function("depth_below", I, I)


@task(["C09", "C20"], OWN, functions=[OWN], hints={OWN + "#0": dict(inv=fix_inv, types={"chain_part_match": "ref"})})
def _fix(e, ctx):
    m = ctx.chain
    real = m.Chain._fix_matches_offset

    def body():
        vm = heap_setup(e, ctx)
        L = e.cur_list = e.fresh("matches", LST)
        text, off = e.freshint("text"), e.freshint("offset")
        e.text, e.off = text, off
        st, so = SVal(text, "str"), SInt(off)
        e.h0 = dict(e.heap)
        x, y = z3.Int("dx!"), z3.Int("dy!")
        e.assumptions.add("the children of a match form a finite tree")
        e.assume(T.ax([x, y], z3.Implies(f_mem(y, f_kids(x)), z3.And(0 <= f_depth(y), f_depth(y) < f_depth(x))), f_mem(y, f_kids(x))))

        def again(ms, t, o):
            e.stubs_used.add(OWN)
            e.prove("children are fixed to the same text, by the same offset", z3.And(encode(t) == text, SInt.lift(o) == off))
            K = ms.term()
            if not (z3.is_app(K) and K.decl().name() == f_kids.name()):
                raise Unsupported("a call on something else than children")
            z = e.freshint("z")
            e.prove("it ends: children are less deep", z3.Implies(f_mem(z, K), f_depth(z) < f_depth(K.arg(0))), assume=False)
            shift_all(e, lambda v: f_below(K, v), text, off)
        m.Chain._fix_matches_offset = staticmethod(again)
        l = SymList.of_term(L, "ref")
        real(l, st, so)
        v = e.freshint("v")
        e.prove("every match and everything below it is placed in the whole text, once, and nothing else is touched", shifted(e, e.h0, lambda q: f_below(L, q), text, off, v), assume=False)
        e.prove("the list is not changed", l.term() == L)
        e.prove("no other attribute is touched", all(e.heap[f].eq(e.h0[f]) for f in F09 if f not in ("start", "end", "input_string")))
        done(e)
    return body


# ------------------------------------------------------------------ one part of one attempt
@task(["C09", "C20"], "chain.Chain._chain_breaker_eval", functions=["chain.Chain._chain_breaker_eval"])
def _cb(e, ctx):
    m = ctx.chain

    def body():
        c = object.__new__(m.Chain)
        f = c.__dict__["chain_breaker"] = SVal(e.freshint("breaker"), "any")
        made, asked = [], []
        ans = SVal(e.freshint("answer"), "any")

        class Coll:
            def __init__(self, *a, **k):
                made.append((self, a, k))
        m.Matches = Coll
        e.call_hook = lambda g, a, k: (asked.append((g, a, k)), ans)[1]
        L = e.fresh("matches", LST)
        l = SymList.of_term(L, "ref")
        before = dict(c.__dict__)
        r = c._chain_breaker_eval(l)
        off = z3.Not(z3.And(f.t != NONE, T.f_truthy(f.t)))
        no = z3.And(ans.t != NONE, T.f_truthy(ans.t))
        if asked:
            e.prove("a breaker given is asked once, about a collection of these matches", z3.And(z3.Not(off), z3.BoolVal(len(asked) == 1 and len(made) == 1 and asked[0][0] is f and len(asked[0][1]) == 1 and asked[0][1][0] is made[0][0] and made[0][1] == (l,) and not made[0][2] and not asked[0][2])))
        e.prove("the matches are taken unless a breaker refuses them", bterm(r) == (z3.Or(off, z3.Not(no)) if asked else off))
        e.prove("the matches are not changed", l.term() == L)
        e.prove("the chain is not changed", same_attributes(c, before))
        done(e)
    return body


f_takes = z3.Function("breaker_takes", LST, B)
f_cur = z3.Function("visible_after", I, LST)


class Groups9:
    """What _group_by_match_index answers."""
    _vc_isa = (dict,)

    def __init__(self, e, L):
        e.counter += 1
        self.L = L
        self.K = e.fresh("numbers", LST)
        self.G = z3.Function("group.%d" % e.counter, I, LST)
        x, k, i, j = z3.Int("gx!"), z3.Int("gk!"), z3.Int("gi!"), z3.Int("gj!")
        K, G = self.K, self.G
        mi = lambda v: rd(e, "match_index", v)
        e.assume(f_dist(K))
        e.assume(T.ax([x], z3.Implies(f_mem(x, L), z3.And(f_mem(mi(x), K), f_mem(x, G(mi(x))))), f_mem(x, L)))
        e.assume(T.ax([k, x], z3.Implies(z3.And(f_mem(k, K), f_mem(x, G(k))), z3.And(f_mem(x, L), mi(x) == k)), f_mem(x, G(k))))
        e.assume(T.ax([k], z3.Implies(f_mem(k, K), z3.And(f_dist(G(k)), G(k) != nil)), G(k)))
        e.assume(T.ax([i, j], z3.Implies(z3.And(0 <= i, i < j, j < f_len(K)), f_at(K, i) < f_at(K, j)), (f_at(K, i), f_at(K, j))))
        e.assume((K == nil) == (L == nil))

    def group(self, k):
        return SymList.of_term(self.G(k), "ref")

    def items(self):
        d = self

        class Items:
            def _vc_iter(self):
                it = SymIter(f_len(d.K), lambda i: (SInt(f_at(d.K, i)), d.group(f_at(d.K, i))), source=d)
                it.enum = lst_iter(d.K, "int")
                it.of_key = lambda c: (SInt(c), d.group(c))
                return it
        return Items()

    def _vc_iter(self):
        return lst_iter(self.K, "int", distinct=True)

    def keys(self):
        return self

    def __contains__(self, k):
        return E_().fork(f_mem(encode(k), self.K))

    def get(self, k, d=None):
        c = encode(k)
        return self.group(c) if E_().fork(f_mem(c, self.K)) else d

    def __getitem__(self, k):
        c = encode(k)
        if not E_().fork(f_mem(c, self.K)):
            raise prog(KeyError("key"))
        return self.group(c)

    def __bool__(self):
        return E_().fork(self.K != nil)


NEXT = "chain.Chain._to_next_chain_part"


def next_inv(S):
    e = E_()
    K, G = e.raw.K, e.raw.G
    i = S.i
    prev = G(f_at(K, i - 1))
    end = rd(e, "end", f_at(prev, f_len(prev) - 1))
    off = SInt.lift(S.v("offset"))
    return [("visible so far", S.v("current_chain_matches").term() == f_cur(i)),
            ("something is found", bterm(S.v("chain_found")) == z3.If(i > 0, z3.BoolVal(True), e.found0)),
            ("the run goes to the end of the last piece", off == z3.If(i > 0, end, e.off)),
            ("what is left is the text from there", encode(S.v("chain_input_string")) == z3.If(i > 0, T.f_ssub(e.text, off, T.f_slen(e.text)), e.rest0))]


@task(["C09", "C20"], NEXT, functions=[NEXT], hints={NEXT + "#0": dict(inv=next_inv, types={"chain_found": "bool", "offset": "int", "chain_input_string": "str"})})
def _nx(e, ctx):
    m = ctx.chain

    def body():
        vm = heap_setup(e, ctx)
        e.axioms.update(T.PLACE_AXIOMS)
        A, R, C0 = e.fresh("accepted", LST), e.fresh("raw", LST), e.fresh("current", LST)
        text, off = e.freshint("text"), e.freshint("offset")
        n = T.f_slen(text)
        e.text, e.off, e.rest0, e.found0 = text, off, e.freshint("rest"), e.fresh("found", B)
        j = z3.Int("pj!")
        e.assumptions.add("the raw bounds of a piece are its bounds (not set apart by a processor)")
        e.assume(z3.And(f_dist(R), f_dist(A), 0 <= off, off <= n))
        h0 = dict(e.heap)
        mi0 = e.heap["match_index"]
        e.assume(T.ax([j], z3.Implies(z3.And(0 <= j, j < f_len(R)), z3.And(z3.Select(mi0, f_at(R, j)) == j, 0 <= z3.Select(h0["end"], f_at(R, j)), z3.Select(h0["end"], f_at(R, j)) + off <= n,
                                                                           z3.Or(off == 0, z3.Select(h0["input_string"], f_at(R, j)) != text))), f_at(R, j)))
        e.assumptions.add("a piece found in the whole text was searched from its first index")
        vm.Match.raw_end = property(lambda s: (e.stubs_used.add("match.Match.raw_end"), SInt(rd(e, "end", ref(s))))[1])
        c = object.__new__(m.Chain)
        a, r, cur = SymList.of_term(A, "ref"), SymList.of_term(R, "ref"), SymList.of_term(C0, "ref")
        whole = SVal(text, "str")

        def fix(ms, t, o):
            e.stubs_used.add(OWN)
            e.prove("positions are fixed to the whole text, by the offset of the search", z3.And(encode(t) == text, SInt.lift(o) == off))
            K = ms.term()
            shift_all(e, lambda v: f_below(K, v), text, off)
        m.Chain._fix_matches_offset = staticmethod(fix)
        seen = []

        def group(ms):
            e.stubs_used.add(GROUP)
            t = ms.term()
            g = Groups9(e, t)
            if t.eq(R):
                e.raw = g
            elif t.eq(A):
                e.acc = g
            else:
                raise Unsupported("another list grouped")
            return g
        m.Chain._group_by_match_index = staticmethod(group)
        hid = e.fresh("hidden", B)

        class P:
            @property
            def is_hidden(self):
                e.stubs_used.add("chain.ChainPart.is_hidden")
                return SBool(hid)

        def breaker(self, ms):
            e.stubs_used.add("chain.Chain._chain_breaker_eval")
            return SBool(f_takes(ms.term()))
        m.Chain._chain_breaker_eval = breaker
        x = z3.Int("cx!")
        e.raw = e.acc = None
        # visible pieces after the first i numbers: those of the next one are added unless hidden or refused
        e.assume(f_cur(0) == C0)

        def grown(i):
            G = z3.If(f_mem(f_at(e.raw.K, i), e.acc.K), e.acc.G(f_at(e.raw.K, i)), nil)
            w = f_cat(f_cur(i), G)
            return z3.Implies(z3.And(0 <= i, i < f_len(e.raw.K)), f_cur(i + 1) == z3.If(z3.And(z3.Not(hid), f_takes(w)), w, f_cur(i)))
        orig = group

        def group2(ms):
            g = orig(ms)
            if e.raw is not None and e.acc is not None:
                e.assume(T.ax([x], grown(x), f_cur(x + 1), f_at(e.raw.K, x)))
            return g
        m.Chain._group_by_match_index = staticmethod(group2)
        before = dict(c.__dict__)
        f1, t1, o1 = c._to_next_chain_part(P(), a, r, SBool(e.found0), whole, SVal(e.rest0, "str"), SInt(off), cur)
        v = e.freshint("v")
        e.prove("the matches handed out and the pieces are placed in the whole text, nothing else is touched", shifted(e, h0, lambda q: z3.Or(f_below(A, q), f_below(R, q)), text, off, v), assume=False)
        lastR = f_at(R, f_len(R) - 1)
        o, tt = SInt.lift(o1), encode(t1)
        some = R != nil
        if e.raw is not None:
            K, G = e.raw.K, e.raw.G
            kl = f_at(K, f_len(K) - 1)
            fin = f_at(G(kl), f_len(G(kl)) - 1)
            lm = z3.Select(mi0, lastR)
            e.prove("lemma: the last piece has the last number", z3.Implies(some, z3.And(f_mem(lastR, R), lm == f_len(R) - 1)))
            e.prove("lemma: which is one of the numbers", z3.Implies(some, z3.And(f_mem(lm, K), f_at(K, f_idx(lm, K)) == lm)))
            e.prove("lemma: the last number is no smaller", z3.Implies(some, z3.And(f_mem(kl, K), kl >= lm)))
            e.prove("lemma: the last match of the last group is a piece of that number", z3.Implies(some, z3.And(f_mem(fin, G(kl)), f_mem(fin, R), f_at(R, f_idx(fin, R)) == fin, z3.Select(mi0, fin) == kl)))
            e.prove("lemma: the last piece", z3.Implies(some, fin == lastR))
        e.prove("without a piece, the search stays where it is", z3.Implies(z3.Not(some), z3.And(o == off, tt == e.rest0, bterm(f1) == e.found0, cur.term() == C0)), assume=False)
        e.prove("with pieces, something is found", z3.Implies(some, bterm(f1)), assume=False)
        e.prove("with pieces, the search goes on at the end of the last", z3.Implies(some, o == rd(e, "end", lastR)), assume=False)
        e.prove("in the rest of the whole text", z3.Implies(some, tt == T.f_ssub(text, o, n)), assume=False)
        if e.raw is not None and e.acc is not None:
            e.prove("visible pieces are added, number after number, unless hidden or refused by the breaker", z3.Implies(some, cur.term() == f_cur(f_len(e.raw.K))), assume=False)
        e.prove("the chain is not changed", same_attributes(c, before))
        e.prove("the lists of the part are not changed", z3.And(a.term() == A, r.term() == R))
        done(e)
    return body


# ------------------------------------------------------------------ the match of a chain
BUILD = "chain.Chain._build_chain_match"
f_alike = z3.Function("one_equal_in", I, LST, B)      # a match of the list equals this one


def alike_axioms(e):
    L, x, y = z3.Const("bl!", LST), z3.Int("bx!"), z3.Int("by!")
    e.assume(T.ax([L, x, y], z3.Implies(f_alike(y, L), f_alike(y, f_snoc(L, x))), f_alike(y, f_snoc(L, x))))
    e.assume(T.ax([L, x], f_alike(x, f_snoc(L, x)), f_snoc(L, x)))
    M = z3.Const("bm!", LST)
    e.assume(T.ax([L, M, y], z3.Implies(z3.Or(f_alike(y, L), f_alike(y, M)), f_alike(y, f_cat(L, M))), f_alike(y, f_cat(L, M))))


def bounds_inv(S):
    e = E_()
    k = z3.Int("bk!")
    if not S.lst.eq(e.cur_list):
        raise Unsupported("a loop over something else")
    st, en = encode(S.v("start")), encode(S.v("end"))
    at = lambda f, i: rd(e, f, f_at(e.cur_list, i))
    w1, w2 = e.w1, e.w2
    return [("nothing before the first", z3.Implies(S.i == 0, z3.And(st == NONE, en == NONE))),
            ("no smaller start, no greater end", z3.Implies(S.i > 0, z3.And(st != NONE, en != NONE, T.ax([k], z3.Implies(z3.And(0 <= k, k < S.i), z3.And(st <= at("start", k), at("end", k) <= en)), f_at(e.cur_list, k))))),
            ("those of one of them", z3.Implies(S.i > 0, z3.And(0 <= w1(S.i), w1(S.i) < S.i, st == at("start", w1(S.i)), 0 <= w2(S.i), w2(S.i) < S.i, en == at("end", w2(S.i)))))]


def bounds_ghost(e):
    i = z3.Int("wi!")
    at = lambda f, q: rd(e, f, f_at(e.cur_list, q))
    for w, f, better in ((e.w1, "start", lambda a, b: a > b), (e.w2, "end", lambda a, b: a < b)):
        e.assume(T.ax([i], z3.Implies(0 <= i, w(i + 1) == z3.If(z3.Or(i == 0, better(at(f, w(i)), at(f, i))), i, w(i))), w(i + 1)))


f_chn = z3.Function("children_after", I, LST)


def withkids(e, i):
    return f_cat(f_chn(i), f_kids(f_at(e.cur_list, i)))


def kids_ghost(e):
    i = z3.Int("wi!")
    e.assume(f_chn(0) == nil)
    w = withkids(e, i)
    x = f_at(e.cur_list, i)
    e.assume(T.ax([i], z3.Implies(z3.And(0 <= i, i < f_len(e.cur_list)), f_chn(i + 1) == z3.If(f_alike(x, w), w, f_snoc(w, x))), f_chn(i + 1), x))


def kids_inv(S):
    e = E_()
    if not S.lst.eq(e.cur_list):
        raise Unsupported("a loop over something else")
    C = e.made.kids.term()
    y, x = z3.Int("ky!"), z3.Int("kx!")
    D = S.done
    return [("children are matches of the chain or children of one", T.ax([y], z3.Implies(f_mem(y, C), f_mem(y, e.flat(D))), f_mem(y, C))),
            ("every match seen, or one equal, is a child", T.ax([x], z3.Implies(f_mem(x, D), f_alike(x, C)), f_mem(x, D))),
            ("with its children", T.ax([x, y], z3.Implies(z3.And(f_mem(x, D), f_mem(y, f_kids(x))), f_mem(y, C)), (f_mem(x, D), f_mem(y, f_kids(x))))),
            ("children in order", C == f_chn(S.i)),
            ("a match that was not there gets its parent", T.ax([x], z3.Implies(z3.And(0 <= x, x < S.i, z3.Not(f_alike(f_at(e.cur_list, x), withkids(e, x)))), rd(e, "parent", f_at(e.cur_list, x)) == e.made.code), f_at(e.cur_list, x))),
            ("no other match gets one", T.ax([x], z3.And(
                z3.Implies(z3.Not(f_mem(x, D)), rd(e, "parent", x) == z3.Select(e.h0["parent"], x)),
                z3.Or(rd(e, "parent", x) == z3.Select(e.h0["parent"], x), z3.And(f_mem(x, D), rd(e, "parent", x) == e.made.code))), rd(e, "parent", x)))]


class Made:
    def __init__(self, e, fields):
        self.code = e.alloc
        self.kids = SymList.of_term(nil, "ref")
        self.fields = fields


@task(["C09", "C20"], BUILD, functions=[BUILD], hints={BUILD + "#0": dict(inv=bounds_inv, types={"start": "optint", "end": "optint"}),
                                              BUILD + "#1": dict(inv=kids_inv, types={"[]": "ref"})})
def _bc(e, ctx):
    m = ctx.chain

    def body():
        vm = heap_setup(e, ctx)
        alike_axioms(e)
        e.axioms.update(T.PLACE_AXIOMS)
        L = e.cur_list = e.fresh("current", LST)
        e.assume(L != nil)
        e.w1, e.w2 = z3.Function("where_least", I, I), z3.Function("where_greatest", I, I)
        bounds_ghost(e)
        kids_ghost(e)
        x, y = z3.Int("kx!"), z3.Int("ky!")
        # the matches of the chain and their children
        fl = z3.Function("with_children", LST, LST)
        e.flat = fl
        P = z3.Const("bl!", LST)
        e.assume(fl(nil) == nil)
        e.assume(T.ax([P, x], fl(f_snoc(P, x)) == f_snoc(f_cat(fl(P), f_kids(x)), x), fl(f_snoc(P, x))))
        e.assume(T.ax([x], z3.Implies(f_mem(x, L), z3.And(0 <= x, x < e.alloc, rd(e, "start", x) >= 0, rd(e, "end", x) >= 0)), f_mem(x, L)))
        e.mem_eq["ref"] = lambda v, t: f_alike(encode(v), t)
        kw = SymDictStub(e)
        c = object.__new__(m.Chain)
        c.__dict__["_match_kwargs"] = kw
        before = dict(c.__dict__)
        text = SVal(e.freshint("text"), "str")
        made = []

        def children(s):
            e.stubs_used.add("match.Match.children")
            r = ref(s)
            if made and r.eq(e.made.code):
                return e.made.kids
            return SymList.of_term(f_kids(r), "ref")
        vm.Match.children = property(children, lambda s, v: _no("children assigned"))

        def made_match(f, a, k):
            if f is not vm.Match or made:
                raise Unsupported("something else called")
            made.append((a, k))
            e.made = Made(e, None)
            o = mkref(vm.Match, e.alloc)
            for q in F09:
                e.heap[q] = z3.Store(e.heap[q], e.alloc, encode(a[0]) if q == "start" and a else e.freshint("new_" + q))
            e.alloc = e.alloc + 1
            e.h0 = dict(e.heap)
            return o
        m.Match = vm.Match
        e.call_hook = made_match
        m.call = lambda f, *a, **k: made_match(f, a, {**k})
        h00 = dict(e.heap)
        r = c._build_chain_match(SymList.of_term(L, "ref"), text)
        e.prove("one match is built", len(made) == 1 and ref(r).eq(e.made.code))
        a, k = made[0]
        e.prove("with this chain as pattern, the whole text and what was asked for the matches of the chain", k.get("pattern") is c and k.get("input_string") is text and k.get(SPLATKW) is kw and set(k) == {"pattern", "input_string", SPLATKW} and len(a) == 2)
        z = e.freshint("z")
        w = e.freshint("w")
        C = e.made.kids.term()
        st, en = encode(a[0]), encode(a[1])
        at = lambda f, q: z3.Select(h00[f], q)
        inL = f_mem(z, L)
        e.prove("it spans every match of the chain", z3.Implies(inL, z3.And(st != NONE, en != NONE, st <= at("start", z), at("end", z) <= en, f_at(L, f_idx(z, L)) == z)), assume=False)
        n = f_len(L)
        ws, we = f_at(L, e.w1(n)), f_at(L, e.w2(n))
        e.prove("and no more: one begins where it begins, one ends where it ends", z3.And(
            [z3.Or(z3.And(f_mem(x0, L), at(f, x0) == b), z3.Not(T.ax([w], z3.Implies(f_mem(w, L), at(f, w) != b), f_mem(w, L)))) for x0, f, b in ((ws, "start", st), (we, "end", en))]), assume=False)
        e.prove("its children are matches of the chain and theirs", z3.Implies(f_mem(w, C), f_mem(w, e.flat(L))), assume=False)
        e.prove("every match of the chain, or one equal to it, is a child", z3.Implies(inL, f_alike(z, C)), assume=False)
        e.prove("and all of its children", z3.Implies(z3.And(inL, f_mem(w, f_kids(z))), f_mem(w, C)), assume=False)
        ix = f_idx(z, L)
        e.prove("a match that is no child already gets the match built as parent", z3.Implies(z3.And(inL, z3.Not(f_alike(z, f_cat(f_chn(ix), f_kids(z))))), z3.And(f_at(L, ix) == z, rd(e, "parent", z) == e.made.code)), assume=False)
        e.prove("children come before their match, matches in the order of the chain", C == f_chn(n), assume=False)
        e.prove("only matches of the chain get a parent: the match built", z3.Or(rd(e, "parent", z) == at("parent", z), z3.And(inL, rd(e, "parent", z) == e.made.code), z == e.made.code), assume=False)
        e.prove("no position is changed", z3.Implies(z < z3.Int("alloc0"), z3.And([rd(e, f, z) == at(f, z) for f in F09 if f != "parent"])), assume=False)
        e.prove("the chain is not changed", same_attributes(c, before))
        done(e)
    return body


class SymDictStub:
    """The keyword arguments kept for the matches of a chain."""
    _vc_isa = (dict,)
    _vc_splat = True

    def __init__(self, e):
        pass


# ------------------------------------------------------------------ every attempt
MATCH = "chain.Chain._match"
f_seg = z3.Function("pieces_of", I, I, LST)        # attempt, part: the pieces this part found
f_vis9 = z3.Function("visible_before", I, I, LST)    # attempt, part: the matches visible before the part was searched
f_from = z3.Function("searched_from", I, I, I)      # attempt, part: where the search of the part began
f_att = z3.Function("attempt_of", I, I)              # a match built: the attempt it was built from
f_ok9 = z3.Function("part_done", I, I, B)            # attempt, part: see part_ok


def g9(e, f):
    return z3.Select(e.field(f), 0)


def set9(e, f, v):
    e.heap[f] = z3.Store(e.field(f), 0, v)


def part_ok(e, a, j):
    """Part j of attempt a was searched in the text from f_from(a, j); its pieces are f_seg(a, j); the search of the next part begins where they end."""
    R, x = f_seg(a, j), f_from(a, j)
    return z3.And(0 <= x, x <= f_from(a, j + 1), f_from(a, j + 1) <= e.n9, z3.Implies(R == nil, z3.And(f_from(a, j + 1) == x, f_vis9(a, j + 1) == f_vis9(a, j))), z3.Implies(R != nil, x < f_from(a, j + 1)))


def whole_attempt(e, a):
    """Every part of the chain was searched, one after another, each where the one before ended."""
    j = z3.Int("wj!")
    return z3.And(f_vis9(a, 0) == nil, f_vis9(a, f_len(e.parts9)) != nil, T.ax([j], z3.Implies(z3.And(0 <= j, j < f_len(e.parts9)), z3.And(f_ok9(a, j))), f_at(e.parts9, j)))


def attempts_inv(S):
    e = E_()
    off, rest = SInt.lift(S.v("offset")), encode(S.v("chain_input_string"))
    x = z3.Int("mx!")
    M = S.v("chain_matches").term()
    return [("within the text", z3.And(0 <= off, off <= e.n9)), ("what is left is the text from there", rest == T.f_ssub(e.text, off, e.n9)),
            ("every match so far was built from a whole attempt", T.ax([x], z3.Implies(f_mem(x, M), f_whole(f_att(x))), f_mem(x, M)))]


f_whole = z3.Function("whole_attempt", I, B)


def parts_inv(S):
    e = E_()
    if not S.lst.eq(e.parts9):
        raise Unsupported("a loop over something else")
    off, rest = SInt.lift(S.v("offset")), encode(S.v("chain_input_string"))
    j = z3.Int("wj!")
    a, i = g9(e, "g_attempt"), S.i
    off0 = S.entry["extra"]
    cur = S.v("current_chain_matches").term()
    fnd = bterm(S.v("chain_found"))
    return [("nothing searched yet", z3.Implies(i == 0, z3.And(off == off0, cur == nil, z3.Not(fnd)))),
            ("parts before were searched in this attempt", z3.Implies(i > 0, z3.And(g9(e, "g_asked") == i, f_from(a, 0) == off0, f_from(a, i) == off, f_vis9(a, i) == cur, f_vis9(a, 0) == nil))),
            ("each where the one before ended", z3.Implies(i > 0, T.ax([j], z3.Implies(z3.And(0 <= j, j < i), f_ok9(a, j)), f_ok9(a, j), f_at(e.parts9, j)))),
            ("within the text", z3.And(0 <= off, off0 <= off, off <= e.n9)), ("what is left is the text from there", rest == T.f_ssub(e.text, off, e.n9)),
            ("found once the search goes on", fnd == (off > off0)),
            ("visible matches end after the start of the attempt", T.ax([j], z3.Implies(f_mem(j, cur), z3.And(f_re(j) > off0, f_re(j) <= e.n9)), f_mem(j, cur)))]


@task(["C09", "C20"], MATCH, functions=[MATCH], hints={MATCH + "#0": dict(inv=attempts_inv, types={"offset": "int", "chain_input_string": "str", "chain_matches[]": "ref"}, variant=lambda S: E_().n9 - SInt.lift(S.v("offset"))),
                                              MATCH + "#1": dict(inv=parts_inv, entry=lambda S: SInt.lift(S.v("offset")), types={"chain_found": "bool", "offset": "int", "chain_input_string": "str", "current_chain_matches[]": "found", "valid_chain": "bool"})})
def _mm(e, ctx):
    m = ctx.chain

    def body():
        e.axioms.update(T.PLACE_AXIOMS)
        P = e.parts9 = e.fresh("parts", LST)
        e.assumptions.add("no part is twice in a chain")
        e.assume(f_dist(P))
        text = e.text = e.freshint("text")
        n = e.n9 = T.f_slen(text)
        whole, cx = SVal(text, "str"), object()
        for f in ("g_attempt", "g_asked"):
            e.field(f)
        e.decoders["found"] = Found
        last = []
        j = z3.Int("wj!")
        # what part_done stands for
        aa, jj = z3.Int("pa!"), z3.Int("pb!")
        e.assume(T.ax([aa, jj], z3.Implies(f_ok9(aa, jj), part_ok(e, aa, jj)), f_ok9(aa, jj)))

        class P9:
            _vc_kind = "part9"

            def __init__(self, code):
                self.code = code

            def _vc_enc(self):
                return self.code

            def matches(self, *a, **k):
                e.stubs_used.add("chain.ChainPart.matches")
                names = ("input_string", "context", "with_raw_matches")
                g = dict(zip(names, a), **k)
                e.prove("every piece found is asked for, with the context", g.get("with_raw_matches") is True and g.get("context") is cx and set(g) == set(names))
                t = encode(g["input_string"])
                o = n - T.f_slen(t)
                first = self.code == f_at(P, 0)
                if e.fork(first):
                    at = e.freshint("attempt")
                    e.assume(z3.And(f_vis9(at, 0) == nil, f_from(at, 0) == o))
                    set9(e, "g_attempt", at)
                    set9(e, "g_asked", z3.IntVal(0))
                ix, at = g9(e, "g_asked"), g9(e, "g_attempt")
                e.prove("a part is searched in the rest of the whole text", z3.And(0 <= o, o <= n, t == T.f_ssub(text, o, n)))
                e.prove("parts are searched in their order", z3.And(f_at(P, ix) == self.code, 0 <= ix, ix < f_len(P)))
                e.prove("each where the one before ended", f_from(at, ix) == o)
                if e.fork(e.fresh("refused", B)):
                    raise prog(m._InvalidChainException())
                A, R = e.fresh("accepted", LST), e.fresh("raw", LST)
                e.assume(f_seg(at, ix) == R)
                last[:] = [(self, SymList.of_term(A, "found"), SymList.of_term(R, "found"), A, R, ix, at, o)]
                return last[0][1], last[0][2]
        e.decoders["part9"] = P9
        m.ChainPart = P9

        def nxt(self, *a, **k):
            e.stubs_used.add(NEXT)
            names = ("chain_part", "chain_part_matches", "raw_chain_part_matches", "chain_found", "input_string", "chain_input_string", "offset", "current_chain_matches")
            g = dict(zip(names, a), **k)
            if len(last) != 1 or set(g) != set(names):
                raise Unsupported("matches used before a part is searched")
            p, la, lr, A, R, ix, at, o = last.pop()
            e.prove("what this part found is taken, for this part", z3.And(z3.BoolVal(g["chain_part_matches"] is la and g["raw_chain_part_matches"] is lr), encode(g["chain_part"]) == p.code))
            e.prove("in this text, where the part was searched", z3.And(encode(g["input_string"]) == text, SInt.lift(g["offset"]) == o, encode(g["chain_input_string"]) == T.f_ssub(text, o, n)))
            cur = g["current_chain_matches"]
            c0 = cur.term()
            e.prove("after the matches of this attempt", c0 == f_vis9(at, ix))
            V = e.fresh("visible", LST)
            o2 = e.freshint("goes_on_at")
            x = z3.Int("mx!")
            some = R != nil
            e.assume(z3.And(o <= o2, o2 <= n, z3.Implies(some, o < o2), z3.Implies(z3.Not(some), z3.And(o2 == o, V == c0))))
            e.assume(T.ax([x], z3.Implies(f_mem(x, V), z3.Or(f_mem(x, c0), z3.And(f_re(x) > o, f_re(x) <= n))), f_mem(x, V)))
            e.assume(z3.And(f_from(at, ix + 1) == o2, f_vis9(at, ix + 1) == V))
            e.prove("the pieces of the part", part_ok(e, at, ix))
            e.assume(f_ok9(at, ix))
            set9(e, "g_asked", ix + 1)
            cur.set_term(V, "found")
            return (SBool(z3.Or(bterm(g["chain_found"]), some)), SVal(z3.If(some, T.f_ssub(text, o2, n), encode(g["chain_input_string"])), "str"), SInt(o2))
        m.Chain._to_next_chain_part = nxt

        def build(self, ms, t):
            e.stubs_used.add(BUILD)
            at = g9(e, "g_attempt")
            e.prove("of this text", encode(t) == text)
            e.prove("a match is built from the matches of this attempt", ms.term() == f_vis9(at, f_len(P)))
            e.prove("once every part was searched", g9(e, "g_asked") == f_len(P))
            e.prove("each where the one before ended, with something visible", whole_attempt(e, at))
            e.assume(f_whole(at))
            x = e.freshint("built")
            e.assume(f_att(x) == at)
            return Found(x)
        m.Chain._build_chain_match = build
        c = object.__new__(m.Chain)
        c.__dict__["parts"] = pl = SymList.of_term(P, "part9")
        before = dict(c.__dict__)
        r = c._match(object(), whole, cx)
        x = e.freshint("x")
        out = r.term()
        e.prove("every match of the chain was built from a whole attempt", z3.Implies(f_mem(x, out), f_whole(f_att(x))), assume=False)
        e.prove("the chain and its parts are not changed", z3.And(z3.BoolVal(same_attributes(c, before)), pl.term() == P))
        done(e)
    return body


# ------------------------------------------------------------------ a chain match its validators reject
MINIMUM = "chain.Chain._minimum_repetitions"
f_ppat = z3.Function("pattern_of_part", I, I)
f_least = z3.Function("least_of_part", I, I)


class PartRO:
    """A part of a chain, read only."""
    _vc_kind = "part9"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    @property
    def pattern(self):
        return SVal(f_ppat(self.code), "any")

    @property
    def repeater_start(self):
        return SInt(f_least(self.code))


def min_inv(S):
    e = E_()
    P = e.parts9
    n, j = f_len(P), z3.Int("qj!")
    return [("the parts after are others, none required", T.ax([j], z3.Implies(z3.And(n - S.i <= j, j < n), z3.And(z3.Not(T.f_veq(f_ppat(f_at(P, j)), e.asked9)), f_least(f_at(P, j)) == 0)), f_at(P, j)))]


@task(["C09", "C20"], MINIMUM, functions=[MINIMUM], hints={MINIMUM + "#0": dict(inv=min_inv)})
def _mr(e, ctx):
    m = ctx.chain

    def body():
        e.decoders["part9"] = PartRO
        P = e.parts9 = e.fresh("parts", LST)
        x, j = z3.Int("qx!"), z3.Int("qj!")
        e.assume(T.ax([x], f_least(x) >= 0, f_least(x)))
        c = object.__new__(m.Chain)
        c.__dict__["parts"] = pl = SymList.of_term(P, "part9")
        e.asked9 = e.freshint("pattern")
        e.assume(e.asked9 != NONE)
        before = dict(c.__dict__)
        r = c._minimum_repetitions(SVal(e.asked9, "any"))
        n = f_len(P)
        k, q = e.freshint("k"), e.freshint("q")
        mine = lambda i: T.f_veq(f_ppat(f_at(P, i)), e.asked9)
        ink = z3.And(0 <= k, k < n)
        t = encode(r)
        last = T.ax([j], z3.Implies(z3.And(k < j, j < n), z3.Not(mine(j))), f_at(P, j))
        e.prove("repetitions the last part of this pattern asks for", z3.Implies(z3.And(ink, mine(k), last, t != NONE), t == f_least(f_at(P, k))), assume=False)
        e.prove("a later part that is required keeps the match from being shortened", z3.Implies(z3.And(ink, mine(k), last, k < q, q < n, f_least(f_at(P, q)) > 0), t == NONE), assume=False)
        ex = e.freshint("other")
        e.prove("nothing else does", z3.Implies(t == NONE, z3.Not(T.ax([j], z3.Implies(z3.And(0 <= j, j < n), f_least(f_at(P, j)) == 0), f_at(P, j)))), assume=False)
        e.prove("the chain is not changed", z3.And(z3.BoolVal(same_attributes(c, before)), pl.term() == P))
        done(e)
    return body


PROC = "chain.Chain._process_match"


def keep(e, x, i):
    return z3.Not(z3.And(T.f_veq(rd(e, "pattern", x), e.last9), i > 0, rd(e, "match_index", x) >= cut9(e, i)))


def cut9(e, i):
    """Number of the last of i dropped repetitions."""
    K = e.groups9.K
    return f_at(K, f_len(K) - i)


def kept(e, i):
    return flt(e, e.C0, lambda x: keep(e, x, i))


def last_end(e, C):
    return z3.If(C == nil, rd(e, "start", e.m9), rd(e, "end", f_at(C, f_len(C) - 1)))


def shorten_inv(S):
    e = E_()
    C = e.kids9.term()
    i = S.i
    return [("the match ends with what is left", rd(e, "end", e.m9) == z3.If(i == 0, e.end9, last_end(e, C))),
            ("nothing else changes", others9(e)),
            ("no repetition asked for is dropped", z3.Implies(i > 0, z3.And(e.min9 != NONE, cut9(e, i) >= e.min9))),
            ("each is tried", g9(e, "g_tries") == i)]


def others9(e):
    y = z3.Int("oy!")
    return T.ax([y], z3.Implies(y != e.m9, rd(e, "end", y) == z3.Select(e.h0["end"], y)), rd(e, "end", y))


def drop_def(S):
    e = E_()
    return [("those of this repetition seen are dropped", e.kids9, flt(e, S.entry["extra"], lambda x: z3.Not(f_mem(x, S.done))))]


@task(["C09", "C20"], PROC, functions=[PROC], hints={PROC + "#0": dict(inv=shorten_inv, defs=lambda S: [("the last repetitions are dropped", E_().kids9, kept(E_(), S.i))], types={"last_match": "ref", "ret": "bool"}),
                                             PROC + "#1": dict(defs=drop_def, entry=lambda S: E_().kids9.term(), types={"last_match": "ref"})})
def _ps(e, ctx):
    m = ctx.chain

    def body():
        vm = heap_setup(e, ctx)
        e.axioms.update(T.PLACE_AXIOMS)
        m.Match = vm.Match
        C0 = e.C0 = e.fresh("children", LST)
        e.assume(f_dist(C0))
        r = e.m9 = e.freshint("match")
        x = z3.Int("qx!")
        e.assume(z3.And(0 <= r, r < e.alloc, z3.Not(f_mem(r, C0))))
        e.assume(T.ax([x], z3.Implies(f_mem(x, C0), z3.And(0 <= x, x < e.alloc)), f_mem(x, C0)))
        for f in F09:
            e.field(f)
        e.field("g_tries")
        set9(e, "g_tries", z3.IntVal(0))
        e.h0 = dict(e.heap)
        e.end9 = rd(e, "end", r)
        mt = mkref(vm.Match, r)
        e.kids9 = SymList.of_term(C0, "ref")
        e.last9 = rd(e, "pattern", f_at(C0, f_len(C0) - 1))

        def children(s):
            e.stubs_used.add("match.Match.children")
            if not ref(s).eq(r):
                raise Unsupported("children of another match")
            return e.kids9

        def assign(s, v):
            if not ref(s).eq(r):
                raise Unsupported("children of another match")
            e.kids9 = v
        vm.Match.children = property(children, assign)

        def remove(l, v):
            e.stubs_used.add("match._BaseMatches.remove")
            t, c = l.term(), encode(v)
            if not e.fork(f_mem(c, t)):
                raise prog(ValueError("not there"))
            l.set_term(but(e, t, c), "ref")
        e.list_remove["ref"] = remove
        m.Matches = lambda l=None: SymList.of_term(l.term(), "ref")
        grouped = []

        def group(ms):
            e.stubs_used.add(GROUP)
            if grouped:
                raise Unsupported("grouped again")
            grouped.append(ms.term())
            e.groups9 = Groups9(e, ms.term())
            return e.groups9
        m.Chain._group_by_match_index = staticmethod(group)
        mn = e.freshint("minimum")
        e.min9 = mn
        e.assume(z3.Or(mn == NONE, mn >= 0))

        def minimum(self, p):
            e.stubs_used.add(MINIMUM)
            e.prove("repetitions are asked for the part of the last child", encode(p) == e.last9)
            return decode(mn, "optint")
        m.Chain._minimum_repetitions = minimum
        ix = SInt(e.freshint("index"))
        child = childflag9(e)
        verdicts = []

        def process(self, *a, **k):
            e.stubs_used.add("pattern.Pattern._process_match")
            g = dict(zip(("match", "match_index", "child"), a), **k)
            e.prove("the match is processed, with its index", z3.BoolVal(g["match"] is mt and g["match_index"] is ix and g.get("child", False) is child))
            if verdicts and grouped:
                i, K, G = g9(e, "g_tries"), e.groups9.K, e.groups9.G
                k = cut9(e, i + 1)
                x = e.freshint("lx")
                mx = rd(e, "match_index", x)
                own = z3.And(f_mem(x, C0), T.f_veq(rd(e, "pattern", x), e.last9))
                e.prove("lemma: a piece of the last part is in the group of its number", z3.Implies(own, z3.And(f_mem(mx, K), f_mem(x, G(mx)), f_at(K, f_idx(mx, K)) == mx)))
                e.prove("lemma: numbers before are smaller", z3.Implies(z3.And(own, mx >= k, i >= 0, i < f_len(K)), z3.Or(mx == k, z3.And(i > 0, mx >= cut9(e, i)))))
                e.prove("lemma: numbers after are greater", z3.Implies(z3.And(0 < i, i < f_len(K)), cut9(e, i) > k))
                e.prove("lemma: it is one of the numbers", z3.Implies(z3.And(i >= 0, i < f_len(K)), f_mem(k, K)))
                e.prove("lemma: the group holds that number", z3.Implies(z3.And(i >= 0, i < f_len(K), f_mem(x, G(k))), z3.And(f_mem(x, grouped[0]), mx == k)))
                e.prove("lemma: of the last part", z3.Implies(f_mem(x, grouped[0]), own))
                f = lambda v: z3.And(keep(e, v, i), z3.Not(f_mem(v, G(k)))) == keep(e, v, i + 1)
                e.prove("lemma: dropping the group leaves what the next number leaves, one by one", z3.Implies(f_mem(x, C0), f(x)), assume=False)
            ok = e.fresh("valid", B)
            verdicts.append((ok, e.kids9.term(), rd(e, "end", r)))
            if len(verdicts) > 1:
                set9(e, "g_tries", g9(e, "g_tries") + 1)
            return SBool(ok)
        ctx.pattern.Pattern._process_match = process
        c = object.__new__(m.Chain)
        before = dict(c.__dict__)
        e.last_verdicts = verdicts
        ret = c._process_match(mt, ix, child)
        ok, Cv, ev = verdicts[-1]
        C, en = e.kids9.term(), rd(e, "end", r)
        y = e.freshint("y")
        t = bterm(ret)
        e.prove("accepted as it was left", z3.Implies(t, z3.And(ok, C == Cv, en == ev)), assume=False)
        e.prove("accepted at once when its validators do", z3.Implies(verdicts[0][0], t), assume=False)
        e.prove("and then not changed", z3.Implies(verdicts[0][0], z3.And(C == C0, en == e.end9)), assume=False)
        e.prove("a match that is rejected is left as it was", z3.Implies(z3.Not(t), z3.And(C == C0, en == e.end9)), assume=False)
        if len(verdicts) > 1:
            short = z3.And(t, z3.Not(verdicts[0][0]))
            G = grouped[0]
            z = e.freshint("z")
            D = z3.And(f_mem(y, C0), z3.Not(f_mem(y, C)))
            e.prove("what is left comes from its children, in their order", z3.Implies(z3.And(short, f_mem(y, C), f_mem(z, C)), z3.And(f_mem(y, C0), (f_idx(y, C) < f_idx(z, C)) == (f_idx(y, C0) < f_idx(z, C0)))), assume=False)
            e.prove("what is dropped was found by the last part, beyond the repetitions it asks for", z3.Implies(z3.And(short, D), z3.And(T.f_veq(rd(e, "pattern", y), e.last9), mn != NONE, rd(e, "match_index", y) >= mn)), assume=False)
            e.prove("and nothing of that part after it is left", z3.Implies(z3.And(short, D, f_mem(z, C0), T.f_veq(rd(e, "pattern", z), e.last9), rd(e, "match_index", z) >= rd(e, "match_index", y)), z3.Not(f_mem(z, C))), assume=False)
            e.prove("it ends where what is left ends", z3.Implies(short, en == last_end(e, C)), assume=False)
        if grouped:
            K = e.groups9.K
            k = e.freshint("k")
            e.prove("rejected only when it is rejected with any repetition dropped that may be", z3.Implies(z3.And(z3.Not(t), mn != NONE, f_mem(k, K), k >= mn), f_idx(k, K) >= f_len(K) - g9(e, "g_tries")), assume=False)
        e.prove("nothing else changes", others9(e))
        e.prove("no other attribute is touched", all(e.heap[f].eq(e.h0[f]) for f in F09 if f != "end"))
        e.prove("the chain is not changed", same_attributes(c, before))
        done(e)
    return body


def childflag9(e):
    return SBool(e.fresh("child", B))


# ------------------------------------------------------------------ what a part asks for
REP = "chain.ChainPart.repeater"
f_num = z3.Function("number_in", I, I)          # the number a text of digits is


@task("C09", REP, functions=[REP])
def _rp(e, ctx):
    m = ctx.chain

    def body():
        p = object.__new__(m.ChainPart)
        lo, hi = e.freshint("least"), e.freshint("most")
        p.__dict__.update(repeater_start=SInt(lo), repeater_end=SInt(hi))
        n = e.freshint("n")
        a, b = e.freshint("from_text"), e.freshint("to_text")
        kind = e.choose(3)
        braces = e.fresh("braces", B)

        def num(v):
            if isinstance(v, SInt):
                return v
            if isinstance(v, SVal) and (v.t.eq(a) or v.t.eq(b)):
                return SInt(f_num(v.t))
            if isinstance(v, SVal) or isinstance(v, str):
                raise prog(ValueError("not a number"))
            raise Unsupported("int() of something else")
        e.int_hook = num

        class Found9:
            def group(self, i):
                return SVal({1: a, 2: b}[i], "str")

        class Re:
            @staticmethod
            def match(rx, v, *k):
                e.stubs_used.add("re.match")
                if k or not isinstance(rx, str):
                    raise Unsupported("another expression")
                import re as real
                # the expression is that of {n,m}: spaces allowed, either left out
                for t, want in (("{2,3}", ("2", "3")), ("{ 12 , 3 }", ("12", "3")), ("{,4}", ("", "4")), ("{5,}", ("5", "")), ("{,}", ("", "")), ("2,3", None), ("{a}", None), ("+", None)):
                    g = real.match(rx, t)
                    e.prove("the expression recognises repetitions in braces [%s]" % t, (g and g.groups()) == want)
                if isinstance(v, str):
                    if real.match(rx, v):
                        raise Unsupported("braces")
                    return None
                return Found9() if e.fork(braces) else None
        m.re = Re
        if kind == 0:
            v = SInt(n)
        elif kind == 1:
            v = ("+", "*", "?")[e.choose(3)]
        else:
            t = e.freshint("text")
            for s in ("+", "*", "?"):
                e.assume(t != encode(s))
            v = SVal(t, "str")
        before = dict(p.__dict__)
        r = p.repeater(v)
        lo1, hi1 = encode(p.__dict__["repeater_start"]), encode(p.__dict__["repeater_end"])
        e.prove("the part is handed back", r is p)
        if kind == 0:
            e.prove("a number is exactly that many", z3.And(lo1 == n, hi1 == n))
        elif v == "+" and kind == 1:
            e.prove("at least one", z3.And(lo1 == 1, hi1 == NONE))
        elif v == "*" and kind == 1:
            e.prove("any number", z3.And(lo1 == 0, hi1 == NONE))
        elif v == "?" and kind == 1:
            e.prove("at most one", z3.And(lo1 == 0, hi1 == 1))
        else:
            A, Bq = a != encode(""), b != encode("")
            e.prove("from the first number to the second", z3.Implies(z3.And(braces, A, Bq), z3.And(lo1 == f_num(a), hi1 == f_num(b))))
            e.prove("to the second number at most", z3.Implies(z3.And(braces, z3.Not(A), Bq), z3.And(lo1 == 0, hi1 == f_num(b))))
            e.prove("from the first number at least", z3.Implies(z3.And(braces, A), lo1 == f_num(a)))
            e.prove("something else changes nothing", z3.Implies(z3.Not(braces), z3.And(lo1 == lo, hi1 == hi)))
        e.prove("nothing else changes", set(p.__dict__) == set(before))
        done(e)
    return body


SMALL = ["__init__", "_chain", "_is_chain_start", "hidden", "is_hidden", "chain", "regex", "functional", "string", "close"]


@task("C09", "chain.ChainPart, as built", functions=["chain.ChainPart." + n for n in SMALL])
def _cp(e, ctx):
    m = ctx.chain

    def body():
        log = []

        def note(n):
            def f(*a, **k):
                log.append((n, a, k))
                return "answer of " + n
            return f

        class Built:
            pass
        b, ch = Built(), Built()
        for n in ("chain", "regex", "functional", "string", "close"):
            setattr(b, n, note(n))
        b._chain = ch
        pt = SVal(e.freshint("pattern"), "any")
        p = m.ChainPart(b, pt)
        d = p.__dict__
        e.prove("a part keeps its pattern, once and visible by default", bool(d["pattern"] is pt and encode(d["repeater_start"]) is not None) and d["repeater_start"] == 1 and d["repeater_end"] == 1 and d["_hidden"] is False)
        e.prove("its chain is that of its builder", p._chain is ch)
        # the first of the parts
        first, n = e.choose(2), 1 + e.choose(3)
        others = [object.__new__(m.ChainPart) for _ in range(n)]
        ch.parts = SymList.of_items([p] + others if first else others + [p]) if hasattr(SymList, "of_items") else ([p] + others if first else others + [p])
        e.prove("the start of a chain is its first part", bterm(p._is_chain_start) == z3.BoolVal(bool(first)))
        e.prove("visible unless hidden", bterm(p.is_hidden) == z3.BoolVal(False))
        h = e.fresh("hidden", B)
        r = p.hidden(SBool(h))
        e.prove("hidden or not as asked", z3.And(z3.BoolVal(r is p), bterm(p.is_hidden) == h))
        r = p.hidden()
        e.prove("hidden by default", z3.And(z3.BoolVal(r is p), bterm(p.is_hidden)))
        before = dict(d)
        del log[:]
        r = p.close()
        e.prove("closing a part closes the chain", log == [("close", (), {})] and r == "answer of close")
        del log[:]
        r = p.chain()
        e.prove("a chain within the chain", log == [("chain", (), {})] and r == "answer of chain")
        for n in ("regex", "functional", "string"):
            del log[:]
            P, K = SymList.of_term(e.fresh("args", LST), "any"), Splatted()
            r = getattr(m.ChainPart, n + "__va")(p, P, K)
            ok = len(log) == 1 and log[0][0] == n and r == "answer of " + n
            a, k = (log[0][1], log[0][2]) if ok else ((), {})
            e.prove("%s: the next part, by the builder, with all that is given" % n, bool(ok and len(a) == 1 and isinstance(a[0], pv.Splat) and a[0].of is P and list(k) == [SPLATKW] and k[SPLATKW] is K))
        e.prove("the part is not changed", same_attributes(p, before))
        done(e)
    return body


class Splatted:
    _vc_isa = (dict,)
    _vc_splat = True


@task("C09", "chain.Chain.__init__, patterns, match_options", functions=["chain.Chain.__init__", "chain.Chain.patterns", "chain.Chain.match_options"])
def _ci(e, ctx):
    m = ctx.chain

    def body():
        kws, ini, flt_ = Splatted(), [], object()

        def call(f, *a, **k):
            e.stubs_used.add("loose.call")
            ini.append((f, a, k))
        m.call = call
        e.call_hook = lambda f, a, k: call(f, *a, **k)

        def fmk(d, children=False):
            e.stubs_used.add("pattern.filter_match_kwargs")
            e.prove("options of the matches are filtered from the arguments", d is kws and not children)
            return flt_
        m.filter_match_kwargs = fmk
        c = object.__new__(m.Chain)
        fn = e.choose(3)
        br = (None, lambda ms: True, 3)[fn]
        m.Chain.init__va(c, br, kws)
        e.prove("options are those of a pattern", len(ini) == 1 and ini[0][0] is m.Pattern.__init__ and ini[0][1] == (c,) and list(ini[0][2]) == [SPLATKW] and ini[0][2][SPLATKW] is kws)
        d = c.__dict__
        e.prove("the breaker given, when it can be called", d["chain_breaker"] is (br if fn == 1 else None))
        e.prove("no part yet", len(d["parts"]) == 0)
        e.prove("the options of its matches", d["_match_kwargs"] is flt_)
        before = dict(d)
        ps = c.patterns
        e.prove("a chain is searched as one pattern", len(ps) == 1 and ps[0] is c)
        e.prove("without options of its own for the match", len(c.match_options) == 0)
        e.prove("the chain is not changed", same_attributes(c, before))
        done(e)
    return body


CLOSE = "builder.ChainBuilder.close"
f_top = z3.Function("begun_in", I, I)           # the first builder above that builds no chain
f_isch = z3.Function("builds_a_chain", I, B)
f_nest = z3.Function("nesting", I, I)


@task("C09", CLOSE, functions=[CLOSE], hints={CLOSE + "#0": dict(inv=lambda S: [("the same builder above", f_top(encode(S.v("parent"))) == E_().top9)], types={"parent": "any"}, variant=lambda S: f_nest(encode(S.v("parent"))))})
def _cl(e, ctx):
    b = ctx.builder

    def body():
        x = z3.Int("px!")
        f_par = z3.Function("parent_of_builder", I, I)
        e.assumptions.add("a chain builder is not within itself")
        e.assume(T.ax([x], f_top(x) == z3.If(f_isch(x), f_top(f_par(x)), x), f_top(x)))
        e.assume(T.ax([x], z3.And(f_nest(x) >= 0, z3.Implies(f_isch(x), f_nest(f_par(x)) < f_nest(x))), f_nest(x), f_isch(x)))
        e.isinstance_hook = lambda v, cs: SBool(f_isch(v.t)) if set(cs) == {b.ChainBuilder} else NotImplemented
        e.attr_hook = lambda v, n: SVal(f_par(v.t), "any") if n == "_parent" else NotImplemented
        c = object.__new__(b.ChainBuilder)
        p0 = e.freshint("parent")
        c.__dict__["_parent"] = SVal(p0, "any")
        e.top9 = f_top(p0)
        before = dict(c.__dict__)
        r = encode(c.close())
        e.prove("closing a chain goes back to the builder it was begun in, however deep", z3.And(r == f_top(p0), z3.Not(f_isch(r))), assume=False)
        e.prove("the builder is not changed", same_attributes(c, before))
        done(e)
    return body
