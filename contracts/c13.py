"""C13: consequences change exactly the matches they are given."""
from .base import *
from .coll import *
from pyvc.engine import Engine


def E_():
    return Engine.cur


def prep(e, ctx):
    vm = load_match(e, ctx)
    abstract(e, vm)
    eq_is_identity(e, vm)
    contract_mutators(e, vm)
    return vm, ctx.rules


def inL(e, L, W):
    """Those of W that are in L, each once, in the order of W."""
    return T.f_uni(nil, flt(e, W, lambda x: f_mem(x, L)))


def without(e, L, W):
    return flt(e, L, lambda x: z3.Not(f_mem(x, W)))


# ------------------------------------------------------------------ removal
def rm_inv(S):
    e = E_()
    M, L = e.coll, e.L0
    return [("content", M.__dict__["_delegate"], without(e, L, S.done)), ("lookups", lk(M), without(e, L, S.done)), ("removed so far", S.v("ret"), inL(e, L, S.done))]


FORMS = ("list", "the collection itself", "set of matches", "match", "None")


def response(e, vm, M, L, form):
    """(argument handed to the consequence, list of matches it stands for or None)."""
    if form == "list":
        W = given(e, vm)
        return SymList.of_term(W, "ref"), W
    if form == "the collection itself":
        return M, L
    if form == "set of matches":
        W = given(e, vm)
        e.assume(f_dist(W))
        o = Bag(W)
        return o, W
    if form == "match":
        m = new_match(e, vm)
        return m, ref(m)
    return None, None


class Bag:
    """Some iterable that is not a list (a set, a generator)."""

    def __init__(self, W):
        self.W = W

    def __iter__(self):
        raise Unsupported("plain iteration")

    def _vc_iter(self):
        return lst_iter(self.W, "ref")


def given(e, vm, name="W"):
    W = e.fresh(name, LST)
    a0 = e.alloc
    e.assume(allmem(W, lambda x: z3.And(0 <= x, x < a0, 0 <= sel(e, "start", x), sel(e, "start", x) <= sel(e, "end", x))))
    return W


def ends(e, M, label, want):
    e.prove("%s: content" % label, content(M) == want, assume=False)
    e.prove("%s: lookups describe the content" % label, lk(M).term() == content(M), assume=False)


def unchanged(e, heap0, label, names=("name", "tags", "start", "end", "marker", "_value", "private"), but=()):
    for n in names:
        if n in but:
            continue
        a, b = heap0.get(n, None), e.heap.get(n)
        if b is not None:
            e.prove("%s: no match has its %s changed" % (label, n), z3.BoolVal(True) if a is not None and a.eq(b) else (fld(e, n) == (a if a is not None else z3.Const("F_" + n, b.sort()))), assume=False)


for _f in FORMS:
    @task("C13", "rules.RemoveMatch.then [%s]" % _f, functions=["rules.RemoveMatch.then", "utils.is_iterable"], hints={"rules.RemoveMatch.then#0": dict(defs=rm_inv)})
    def _rm(e, ctx, form=_f):
        vm, rules = prep(e, ctx)

        def body():
            M, L = abs_coll(e, vm)
            e.coll, e.L0 = M, L
            W, w = response(e, vm, M, L, form)
            h0 = dict(e.heap)
            r = rules.RemoveMatch().then(M, W, None)
            if form == "None":
                e.prove("removal of nothing: nothing", r is None)
                ends(e, M, "removal", L)
            elif form == "match":
                e.prove("removal: answers the match when it was there", z3.If(f_mem(w, L), z3.BoolVal(r is not None and ref(r).eq(w)), z3.BoolVal(r is None)))
                ends(e, M, "removal", but(e, L, w))
            else:
                ends(e, M, "removal", without(e, L, w))
                e.prove("removal: answers those that were there, in the order given", isinstance(r, SymList) and r.term() == inL(e, L, w), assume=False)
            unchanged(e, h0, "removal")
            done(e)
        return body


# ------------------------------------------------------------------ appending
def ap_inv(S):
    e = E_()
    M, L = e.coll, e.L0
    x = z3.Int("an!")
    nm = fld(e, "name")
    old = e.name0
    out = [("content", content(M) == T.f_uni(L, S.done)), ("lookups", lk(M).term() == content(M)),
           ("appended so far", S.term("ret") == T.f_uni(nil, flt(e, S.done, lambda x: z3.Not(f_mem(x, L))))),
           ("names", T.ax([x], z3.Select(nm, x) == z3.If(z3.And(f_mem(x, S.done), z3.Not(f_mem(x, L)), z3.BoolVal(e.newname is not None)), e.newname if e.newname is not None else 0, z3.Select(old, x)), z3.Select(nm, x)))]
    return out


for _f in ("list", "the collection itself", "set of matches", "match"):
    for _n in ("named", "as is"):
        @task("C13", "rules.AppendMatch.then [%s, %s]" % (_f, _n), functions=["rules.AppendMatch.then", "rules.AppendMatch.__init__", "utils.is_iterable"], hints={"rules.AppendMatch.then#0": dict(inv=ap_inv)})
        def _ap(e, ctx, form=_f, naming=_n):
            vm, rules = prep(e, ctx)

            def body():
                M, L = abs_coll(e, vm)
                e.coll, e.L0 = M, L
                W, w = response(e, vm, M, L, form)
                nn = SVal(e.freshint("newname"), "str")
                e.assume(nn.t > 0)
                if naming == "as is":
                    nn = [None, ""][e.choose(2)]
                e.newname = nn.t if isinstance(nn, SVal) else None
                e.name0 = fld(e, "name")
                if form == "match":
                    e.assume(z3.Not(is_marker(e, w)))
                else:
                    e.assume(allmem(w, lambda x: z3.Not(is_marker(e, x))))
                guard_writes(e, M)
                h0 = dict(e.heap)
                c = rules.AppendMatch(nn)
                r = c.then(M, W, None)
                e.write_guard = None
                x = e.freshint("x")
                if form == "match":
                    e.prove("appending: answers the match when it was absent", z3.If(f_mem(w, L), z3.BoolVal(r is None), z3.BoolVal(r is not None and ref(r).eq(w))))
                    ends(e, M, "appending", z3.If(f_mem(w, L), L, f_snoc(L, w)))
                    given_ = x == w
                else:
                    ends(e, M, "appending", T.f_uni(L, w))
                    e.prove("appending: answers those that were absent, in the order given", isinstance(r, SymList) and r.term() == T.f_uni(nil, flt(e, w, lambda q: z3.Not(f_mem(q, L)))), assume=False)
                    given_ = f_mem(x, w)
                new = z3.And(given_, z3.Not(f_mem(x, L)), z3.BoolVal(e.newname is not None))
                e.prove("appending: names only what it appends", z3.Select(fld(e, "name"), x) == z3.If(new, e.newname if e.newname is not None else 0, z3.Select(e.name0, x)), assume=False)
                unchanged(e, h0, "appending", but=("name",))
                done(e)
            return body


# ------------------------------------------------------------------ renaming and tagging, over removal and appending
def contract_remove_append(e, rules):
    def rm(self, matches, when_response, context):
        e.stubs_used.add("rules.RemoveMatch.then")
        need_wf(e, matches, "removal")
        L = content(matches)
        if when_response is None:
            return None
        if hasattr(when_response, "__dict__") and "_ref" in when_response.__dict__:
            w = ref(when_response)
            there = e.fork(f_mem(w, L))
            setc(matches, but(e, L, w))
            return when_response if there else None
        W = L if when_response is matches else term_of(when_response)
        setc(matches, without(e, L, W))
        return SymList.of_term(inL(e, L, W), "ref")

    def ap(self, matches, when_response, context):
        e.stubs_used.add("rules.AppendMatch.then")
        need_wf(e, matches, "appending")
        if self.match_name is not None:
            raise Unsupported("appending with a name")
        L = content(matches)
        if hasattr(when_response, "__dict__") and "_ref" in when_response.__dict__:
            w = ref(when_response)
            e.prove("appended matches are of the right kind", z3.Not(is_marker(e, w)))
            setc(matches, z3.If(f_mem(w, L), L, f_snoc(L, w)))
            return None
        W = term_of(when_response)
        e.prove("appended matches are of the right kind", allmem(W, lambda x: z3.Not(is_marker(e, x))), assume=False)
        setc(matches, T.f_uni(L, W))
        return None
    rules.RemoveMatch.then = rm
    rules.AppendMatch.then = ap


def setc(M, t):
    M.__dict__["_delegate"].set_term(t, "ref")
    lk(M).set_term(t, "ref")


def term_of(v):
    if isinstance(v, SymList):
        return v.term()
    if isinstance(v, Bag):
        return v.W
    raise Unsupported("consequence applied to a %s" % type(v).__name__)


def ren_inv(S):
    e = E_()
    x = z3.Int("an!")
    nm = fld(e, "name")
    return [("names", T.ax([x], z3.Select(nm, x) == z3.If(f_mem(x, S.done), e.newname, z3.Select(e.name0, x)), z3.Select(nm, x)))]


def tags_after(e, which, old):
    if which == "AppendTags":
        return f_cat(old, e.tags0)
    return None


def tag_inv(S):
    e = E_()
    x = z3.Int("an!")
    tg = fld(e, "tags")
    return [("tags", T.ax([x], z3.Select(tg, x) == z3.If(f_mem(x, S.done), f_cat(z3.Select(e.tagsh0, x), e.tags0), z3.Select(e.tagsh0, x)), z3.Select(tg, x))),
            ("own tags", e.cons.tags.term() == e.tags0)]


def apply_rest(e, M, L, w, form, label):
    if form == "match":
        ends(e, M, label, z3.If(f_mem(w, L), f_snoc(but(e, L, w), w), L))
    elif form == "None":
        ends(e, M, label, L)
    else:
        ends(e, M, label, f_cat(without(e, L, w), inL(e, L, w)))


for _f in FORMS:
    @task("C13", "rules.RenameMatch.then [%s]" % _f, functions=["rules.RenameMatch.then", "rules.RenameMatch.__init__", "utils.is_iterable"], hints={"rules.RenameMatch.then#0": dict(inv=ren_inv)})
    def _ren(e, ctx, form=_f):
        vm, rules = prep(e, ctx)
        contract_remove_append(e, rules)

        def body():
            M, L = abs_coll(e, vm)
            W, w = response(e, vm, M, L, form)
            nn = SVal(e.freshint("newname"), "str")
            e.newname = nn.t
            e.name0 = fld(e, "name")
            guard_writes(e, M)
            h0 = dict(e.heap)
            c = rules.RenameMatch(nn)
            c.then(M, W, None)
            apply_rest(e, M, L, w, form, "renaming")
            x = e.freshint("x")
            hit = {"match": lambda: z3.And(x == w, f_mem(x, L)), "None": lambda: z3.BoolVal(False)}.get(form, lambda: z3.And(f_mem(x, w), f_mem(x, L)))()
            e.prove("renaming: exactly the given matches that are there", z3.Select(fld(e, "name"), x) == z3.If(hit, nn.t, z3.Select(e.name0, x)), assume=False)
            unchanged(e, h0, "renaming", but=("name",))
            done(e)
        return body

    @task("C13", "rules.AppendTags.then [%s]" % _f, functions=["rules.AppendTags.then", "rules.AppendTags.__init__", "utils.is_iterable"], hints={"rules.AppendTags.then#0": dict(inv=tag_inv)})
    def _atg(e, ctx, form=_f):
        vm, rules = prep(e, ctx)
        contract_remove_append(e, rules)

        def body():
            M, L = abs_coll(e, vm)
            W, w = response(e, vm, M, L, form)
            e.tags0 = e.fresh("newtags", LST)
            e.tagsh0 = fld(e, "tags")
            guard_writes(e, M)
            h0 = dict(e.heap)
            e.cons = rules.AppendTags(SymList.of_term(e.tags0, "str"))
            e.cons.then(M, W, None)
            apply_rest(e, M, L, w, form, "tagging")
            x = e.freshint("x")
            hit = {"match": lambda: z3.And(x == w, f_mem(x, L)), "None": lambda: z3.BoolVal(False)}.get(form, lambda: z3.And(f_mem(x, w), f_mem(x, L)))()
            e.prove("tagging: exactly the given matches that are there", z3.Select(fld(e, "tags"), x) == z3.If(hit, f_cat(z3.Select(e.tagsh0, x), e.tags0), z3.Select(e.tagsh0, x)), assume=False)
            e.prove("tagging: the tags of the consequence are not changed", e.cons.tags.term() == e.tags0)
            unchanged(e, h0, "tagging", but=("tags",))
            done(e)
        return body


# ------------------------------------------------------------------ removing tags
def rest(e, old, Tg):
    """Those of old that are not in Tg, in order."""
    return flt(e, old, lambda t: z3.Not(f_mem(t, Tg)))


def rtag_one(name):
    def defs(S):
        e = E_()
        m = S.v(name)
        h0 = S.entry["heap"]["tags"]
        return [("tags removed so far", "tags", z3.Store(h0, ref(m), rest(e, z3.Select(h0, ref(m)), S.done)))]
    return defs


def rtag_many(S):
    e = E_()
    x = z3.Int("an!")
    tg = fld(e, "tags")
    return [("tags", T.ax([x], z3.Select(tg, x) == z3.If(f_mem(x, S.done), rest(e, z3.Select(e.tagsh0, x), e.tags0), z3.Select(e.tagsh0, x)), z3.Select(tg, x))),
            ("own tags", e.cons.tags.term() == e.tags0)]


for _f in FORMS:
    @task("C13", "rules.RemoveTags.then [%s]" % _f, functions=["rules.RemoveTags.then", "rules.RemoveTags.__init__", "utils.is_iterable"],
          hints={"rules.RemoveTags.then#0": dict(inv=rtag_many), "rules.RemoveTags.then#1": dict(heapdefs=rtag_one("match")), "rules.RemoveTags.then#2": dict(heapdefs=rtag_one("removed"))})
    def _rtg(e, ctx, form=_f):
        vm, rules = prep(e, ctx)
        contract_remove_append(e, rules)
        e.assumptions.add("a match has a tag once (RemoveTags)")

        def body():
            M, L = abs_coll(e, vm)
            W, w = response(e, vm, M, L, form)
            e.tags0 = e.fresh("oldtags", LST)
            e.tagsh0 = fld(e, "tags")
            x = z3.Int("an!")
            e.assume(T.ax([x], f_dist(z3.Select(e.tagsh0, x)), z3.Select(e.tagsh0, x)))
            guard_writes(e, M)
            h0 = dict(e.heap)
            e.cons = rules.RemoveTags(SymList.of_term(e.tags0, "str"))
            e.cons.then(M, W, None)
            apply_rest(e, M, L, w, form, "untagging")
            x = e.freshint("x")
            hit = {"match": lambda: z3.And(x == w, f_mem(x, L)), "None": lambda: z3.BoolVal(False)}.get(form, lambda: z3.And(f_mem(x, w), f_mem(x, L)))()
            e.prove("untagging: exactly the given matches that are there", z3.Select(fld(e, "tags"), x) == z3.If(hit, rest(e, z3.Select(e.tagsh0, x), e.tags0), z3.Select(e.tagsh0, x)), assume=False)
            e.prove("untagging: the tags of the consequence are not changed", e.cons.tags.term() == e.tags0)
            unchanged(e, h0, "untagging", but=("tags",))
            done(e)
        return body


# ------------------------------------------------------------------ several consequences
f_iscls = z3.Function("is_class", I, B)
f_inst = z3.Function("instance_of", I, I)
f_applied = z3.Function("applied", I, I, I)     # consequence instance, response


class Cons:
    """An arbitrary consequence class or instance."""
    _vc_kind = "cons"

    def __init__(self, code):
        self.code = code

    def _vc_code(self):
        return self.code

    def __call__(self):
        return Cons(f_inst(self.code))

    def then(self, matches, response, context):
        e = E_()
        e.prove("the consequence gets the matches and the context as they are", matches is e.given_matches and context is e.given_context)
        e.got.append((self.code, response))
        if isinstance(response, SymList):
            return
        e.trace.append(SVal(f_applied(self.code, encode(response)), "any"))


class Inspect:
    @staticmethod
    def isclass(c):
        if isinstance(c, Cons):
            return SBool(f_iscls(c.code))
        return isinstance(c, type)


def as_inst(c):
    return z3.If(f_iscls(c), f_inst(c), c)


def then_inv(S):
    e = E_()
    k = z3.Int("tk!")
    it = S.v("iterator")
    tr = e.trace.term()
    return [("responses taken", SInt.lift(it.pos) == S.i), ("one application per consequence", f_len(tr) == S.i),
            ("each consequence with its own response", T.ax([k], z3.Implies(z3.And(0 <= k, k < S.i), f_at(tr, k) == f_applied(as_inst(f_at(e.C0, k)), f_at(e.R0, k))), f_at(tr, k)))]


for _f in ("one consequence", "several, list of responses", "several, one response"):
    @task("C13", "rules.Rule.then [%s]" % _f, functions=["rules.Rule.then", "utils.is_iterable"], hints={"rules.Rule.then#0": dict(inv=then_inv)})
    def _rt(e, ctx, form=_f):
        rules = ctx.rules
        vm = load_match(e, ctx)
        rules.inspect = Inspect
        e.decoders["cons"] = Cons
        e.assumptions.add("there are at least as many responses as consequences")

        class R(rules.Rule):
            def when(self, matches, context):
                raise Unsupported("condition")

        def body():
            e.given_matches, e.given_context = object(), object()
            e.trace = SymList.of_term(nil, "any")
            r = object.__new__(R)
            e.got = []
            k = e.freshint("k")
            if form == "one consequence":
                c = Cons(e.freshint("cons"))
                resp = mkref(vm.Match, e.freshint("resp")) if e.choose(2) else SymList.of_term(e.fresh("R", LST), "ref")
                r.__dict__["consequence"] = c
                r.then(e.given_matches, resp, e.given_context)
                e.prove("one consequence: applied once, with the response as it is", len(e.got) == 1 and e.got[0][1] is resp)
                e.prove("one consequence: a class is made an instance", e.got[0][0] == as_inst(c.code))
            else:
                e.C0 = e.fresh("C", LST)
                e.assume(f_len(e.C0) > 0)
                r.__dict__["consequence"] = SymList.of_term(e.C0, "cons")
                if form.endswith("list of responses"):
                    e.R0 = e.fresh("R", LST)
                    e.assume(f_len(e.R0) >= f_len(e.C0))
                    resp = SymList.of_term(e.R0, "ref")
                else:
                    x = e.freshint("resp")
                    resp = mkref(vm.Match, x)
                    e.R0 = f_snoc(nil, x)
                    e.assume(f_len(e.C0) == 1)
                r.then(e.given_matches, resp, e.given_context)
                tr = e.trace.term()
                e.prove("every consequence is applied once", f_len(tr) == f_len(e.C0))
                e.prove("each with its own response, in order", z3.Implies(z3.And(0 <= k, k < f_len(e.C0)), f_at(tr, k) == f_applied(as_inst(f_at(e.C0, k)), f_at(e.R0, k))))
            done(e)
        return body
