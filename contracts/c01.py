"""C01: lookups agree with content."""
from .base import *
from .coll import *


# ---------------------------------------------------------------- representation level
def _builder(which):
    prop = "_%s_dict" % which

    @task("C01", "match._BaseMatches.%s" % prop, functions=["match._BaseMatches.%s" % prop])
    def t(e, ctx):
        vm = load_match(e, ctx)
        lazy_lookups(e, vm._BaseMatches)

        def body():
            M, L = new_coll(e, vm)
            M.__dict__["_lookup_list"] = L
            r = getattr(M, prop)
            prove_dict(e, r, which, L, "%s answers the filter of the content" % prop)
            e.prove("%s: content unchanged" % prop, M.__dict__["_delegate"].term() == L)
            prove_wf(e, M, L, prop)
            e.prove("%s is kept for later" % prop, r is M.__dict__[attr(which)])
            done(e)
        return body


for _w in LOOKUPS:
    _builder(_w)


def _add(cls):
    @task(["C01", "C11"], "match.%s._add_match" % cls, functions=["match.%s._add_match" % cls, "match._BaseMatches._add_match"])
    def t(e, ctx):
        vm = load_match(e, ctx)
        lazy_lookups(e, vm._BaseMatches)

        def body():
            M, L = new_coll(e, vm, cls)
            M.__dict__["_lookup_list"] = L
            m = mkref(vm.Match, e.freshint("m"))
            r = m.__dict__["_ref"]
            e.assume(z3.And(0 <= r, r < e.alloc, 0 <= sel(e, "start", r), sel(e, "start", r) <= sel(e, "end", r)))
            mk = z3.And(sel(e, "marker", r) != NONE, T.f_truthy(sel(e, "marker", r)))
            ok = mk if cls == "Markers" else z3.Not(mk)
            try:
                M._add_match(m)
            except AssertionError:
                e.prove("_add_match refuses only a match of the wrong kind", z3.Not(ok))
                prove_wf(e, M, L, "_add_match refused")
                prove_maxend(e, "_add_match refused: max end", SInt.lift(M.__dict__["_max_end"]), L)
                done(e)
                return
            e.prove("_add_match accepts only a match of the right kind", ok)
            L2 = f_snoc(L, r)
            e.prove("_add_match leaves the content to its caller", M.__dict__["_delegate"].term() == L)
            for w in LOOKUPS:
                v = M.__dict__.get(attr(w))
                if v is None:
                    continue
                prove_dict(e, v, w, L2, "_add_match: %s lookup includes the new match" % w)
            for w in LOOKUPS:
                if attr(w) not in M.__dict__:
                    e.fail("_add_match: %s lookup includes the new match" % w, "lookup not updated")
            prove_maxend(e, "_add_match: max end", SInt.lift(M.__dict__["_max_end"]), L2)
            done(e)
        return body


_add("Matches")
_add("Markers")


@task("C01", "match._BaseMatches._reset_lookups", functions=["match._BaseMatches._reset_lookups"])
def _t(e, ctx):
    vm = load_match(e, ctx)
    lazy_lookups(e, vm._BaseMatches)

    def body():
        M, L = new_coll(e, vm)
        M.__dict__["_lookup_list"] = e.fresh("stale", LST)
        M.__dict__["_max_end"] = SInt(e.freshint("stale"))
        M._reset_lookups()
        for w in LOOKUPS:
            e.prove("_reset_lookups forgets the %s lookup" % w, M.__dict__.get(attr(w), 0) is None)
        e.prove("_reset_lookups: content unchanged", M.__dict__["_delegate"].term() == L)
        prove_maxend(e, "_reset_lookups: max end", SInt.lift(M.__dict__["_max_end"]), L)
        done(e)
    return body


# ---------------------------------------------------------------- lookups, above the representation
def _query(meth, which):
    for v in VARIANTS:
        @task("C01", "match._BaseMatches.%s [%s]" % (meth, v), functions=["match._BaseMatches.%s" % meth])
        def t(e, ctx, v=v):
            vm = load_match(e, ctx)
            abstract(e, vm)

            def body():
                M, L = abs_coll(e, vm)
                kd = KEYKIND[which]
                k = decode(e.freshint("k"), "str" if kd == "optstr" else kd)
                e.assume(encode(k) >= 0) if which in ("name", "tag") else None
                p, i = variant(e, v)
                r = getattr(M, meth)(k, p, i)
                expect(e, meth, r, flt(e, L, spec(e, which, encode(k))), v, p, i, M)
                e.prove("%s: collection unchanged" % meth, z3.And(content(M) == L, lk(M).term() == L))
                done(e)
            return body


for _m, _w in (("tagged", "tag"), ("starting", "start"), ("ending", "end"), ("at_index", "index")):
    _query(_m, _w)


def _named(v):
    @task("C01", "match._BaseMatches.named [%s]" % v, functions=["match._BaseMatches.named"])
    def t(e, ctx):
        vm = load_match(e, ctx)
        abstract(e, vm)

        def body():
            M, L = abs_coll(e, vm)
            names = e.fresh("names", LST)
            e.assume(allmem(names, lambda x: x >= 0))
            p, i = variant(e, v)
            kw = SymDict()
            if p is not None:
                kw["predicate"] = p
            if i is not None:
                kw["index"] = i
            r = vm._BaseMatches.named__va(M, SymList.of_term(names, "str"), kw)
            y = e.freshint("y")
            x = e.freshint("x")
            per = e.comps.make(x, z3.If(spec(e, "name", y)(x), f_snoc(nil, x), nil), L)
            want = e.comps.make(y, per, T.f_dedup(names))
            expect(e, "named", r, want, v, p, i, M)
            e.prove("named: collection unchanged", z3.And(content(M) == L, lk(M).term() == L))
            done(e)
        return body


for _v in VARIANTS:
    _named(_v)


def _listing(meth, which):
    @task("C01", "match._BaseMatches.%s" % meth, functions=["match._BaseMatches.%s" % meth])
    def t(e, ctx):
        vm = load_match(e, ctx)
        abstract(e, vm)

        def body():
            M, L = abs_coll(e, vm)
            r = getattr(M, meth)
            k = e.freshint("k")
            from pyvc.values import SymKeys
            if not isinstance(r, SymKeys):
                e.fail("%s: a view of keys" % meth, type(r).__name__)
                return
            e.prove("%s: exactly the keys some match has" % meth, r.has(k) == z3.Not(flt(e, L, spec(e, which, k)) == nil), assume=False)
            e.prove("%s: collection unchanged" % meth, z3.And(content(M) == L, lk(M).term() == L))
            done(e)
        return body


_listing("names", "name")
_listing("tags", "tag")


@task("C01", "match._BaseMatches.__len__", functions=["match._BaseMatches.__len__"])
def _len(e, ctx):
    vm = load_match(e, ctx)
    real = vm._BaseMatches.__len__
    abstract(e, vm)

    def body():
        M, L = abs_coll(e, vm)
        e.prove("__len__: the number of matches", SInt.lift(real(M)) == T.f_len(L))
        e.prove("__len__: collection unchanged", z3.And(content(M) == L, lk(M).term() == L))
        done(e)
    return body


# ---------------------------------------------------------------- mutations, above the representation
def kinds(e):
    """Both collection classes."""
    return ("Matches", "Markers")[e.choose(2)]


def after(e, M, label, want):
    e.prove("%s: content" % label, content(M) == want, assume=False)
    e.prove("%s: lookups describe the content" % label, lk(M).term() == content(M))


def mutation(name, **kw):
    def deco(fn):
        @task(["C01", "C11"], "match._BaseMatches.%s" % name, functions=["match._BaseMatches.%s" % name.split(" ")[0]], **kw)
        def t(e, ctx):
            vm = load_match(e, ctx)
            abstract(e, vm)

            def body():
                cls = kinds(e)
                M, L = abs_coll(e, vm, cls)
                fn(e, vm, cls, M, L)
                done(e)
            return body
        return fn
    return deco


def right(e, cls, r):
    return is_marker(e, r) if cls == "Markers" else z3.Not(is_marker(e, r))


def refused(e, cls, M, L, m, label):
    e.prove("%s: refused only in the wrong collection" % label, z3.Not(right(e, cls, ref(m))))
    after(e, M, "%s refused" % label, L)


def clip(e, i, n):
    return z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))


@mutation("insert")
def _insert(e, vm, cls, M, L):
    m = new_match(e, vm)
    i = e.freshint("i")
    e.assume(i >= 0)
    try:
        M.insert(SInt(i), m)
    except AssertionError:
        return refused(e, cls, M, L, m, "insert")
    e.prove("insert: accepted only in the right collection", right(e, cls, ref(m)))
    after(e, M, "insert", T.f_ins(L, clip(e, i, f_len(L)), ref(m)))


@mutation("insert (negative index)")
def _insertneg(e, vm, cls, M, L):
    m = new_match(e, vm)
    i = e.freshint("i")
    e.assume(i < 0)
    try:
        M.insert(SInt(i), m)
    except AssertionError:
        return refused(e, cls, M, L, m, "insert")
    e.prove("insert: accepted only in the right collection", right(e, cls, ref(m)))
    after(e, M, "insert", T.f_ins(L, clip(e, i, f_len(L)), ref(m)))


@mutation("append")
def _append(e, vm, cls, M, L):
    m = new_match(e, vm)
    try:
        M.append(m)
    except AssertionError:
        return refused(e, cls, M, L, m, "append")
    e.prove("append: accepted only in the right collection", right(e, cls, ref(m)))
    after(e, M, "append", f_snoc(L, ref(m)))


@mutation("__setitem__ [int]")
def _setitem(e, vm, cls, M, L):
    m = new_match(e, vm)
    i = e.freshint("i")
    n = f_len(L)
    eff = z3.If(i < 0, i + n, i)
    inside = z3.And(0 <= eff, eff < n)
    try:
        M[SInt(i)] = m
    except AssertionError:
        return refused(e, cls, M, L, m, "__setitem__")
    except IndexError:
        e.prove("__setitem__: index error only out of range", z3.Not(inside))
        return after(e, M, "__setitem__ out of range", L)
    e.prove("__setitem__: accepted only in the right collection and range", z3.And(right(e, cls, ref(m)), inside))
    after(e, M, "__setitem__", T.f_set(L, eff, ref(m)))


def given(e, vm, name="vs"):
    """An arbitrary list of allocated matches, of any kind."""
    V = e.fresh(name, LST)
    a0 = e.alloc
    e.assume(allmem(V, lambda x: z3.And(0 <= x, x < a0, 0 <= sel(e, "start", x), sel(e, "start", x) <= sel(e, "end", x))))
    return V


def slicebounds(e, L):
    a, b = e.freshint("a"), e.freshint("b")
    n = f_len(L)
    return a, b, clip(e, a, n), clip(e, b, n)


HINT_SET = {"match._BaseMatches.__setitem__#0": dict(inv=lambda S: [
    ("content untouched", content(S.v("self")) == S.entry["extra"]),
    ("accepted so far", allmem(f_take(S.lst, S.i), lambda x: right(E_(), cls_of(S.v("self")), x)))],
    entry=lambda S: content(S.v("self")))}


def E_():
    return Engine.cur


def cls_of(M):
    return type(M).__name__


@mutation("__setitem__ [slice]", hints=HINT_SET)
def _setslice(e, vm, cls, M, L):
    V = given(e, vm)
    a, b, ea, eb = slicebounds(e, L)
    try:
        M[slice(SInt(a), SInt(b))] = SymList.of_term(V, "ref")
    except AssertionError:
        e.prove("__setitem__ slice: refused only with a match of the wrong kind", z3.Not(allmem(V, lambda x: right(e, cls, x))))
        return after(e, M, "__setitem__ slice refused", L)
    e.prove("__setitem__ slice: accepted only matches of the right kind", allmem(V, lambda x: right(e, cls, x)))
    b2 = z3.If(eb < ea, ea, eb)
    after(e, M, "__setitem__ slice", f_cat(f_cat(f_take(L, ea), V), f_drop(L, b2)))


@mutation("__delitem__ [int]")
def _delitem(e, vm, cls, M, L):
    i = e.freshint("i")
    n = f_len(L)
    eff = z3.If(i < 0, i + n, i)
    inside = z3.And(0 <= eff, eff < n)
    try:
        del M[SInt(i)]
    except IndexError:
        e.prove("__delitem__: index error only out of range", z3.Not(inside))
        return after(e, M, "__delitem__ out of range", L)
    e.prove("__delitem__: in range", inside)
    after(e, M, "__delitem__", T.f_del(L, eff))


@mutation("__delitem__ [slice]")
def _delslice(e, vm, cls, M, L):
    a, b, ea, eb = slicebounds(e, L)
    del M[slice(SInt(a), SInt(b))]
    b2 = z3.If(eb < ea, ea, eb)
    after(e, M, "__delitem__ slice", f_cat(f_take(L, ea), f_drop(L, b2)))


@mutation("pop")
def _pop(e, vm, cls, M, L):
    i = e.freshint("i")
    n = f_len(L)
    dflt = e.choose(2) == 0
    if dflt:
        i = z3.IntVal(-1)
    eff = z3.If(i < 0, i + n, i)
    inside = z3.And(0 <= eff, eff < n)
    try:
        r = M.pop() if dflt else M.pop(SInt(i))
    except IndexError:
        e.prove("pop: index error only out of range", z3.Not(inside))
        return after(e, M, "pop out of range", L)
    e.prove("pop: returns the element", z3.And(inside, ref(r) == f_at(L, eff)))
    after(e, M, "pop", T.f_del(L, eff))


@mutation("__getitem__ [int]")
def _getitem(e, vm, cls, M, L):
    i = e.freshint("i")
    n = f_len(L)
    eff = z3.If(i < 0, i + n, i)
    inside = z3.And(0 <= eff, eff < n)
    try:
        r = M[SInt(i)]
    except IndexError:
        e.prove("__getitem__: index error only out of range", z3.Not(inside))
        return after(e, M, "__getitem__", L)
    e.prove("__getitem__: the element", z3.And(inside, ref(r) == f_at(L, eff)))
    after(e, M, "__getitem__", L)


def extend_inv(S):
    M = S.v("self")
    e = E_()
    return [("appended so far", content(M) == f_cat(S.entry["extra"], f_take(S.lst, S.i))),
            ("lookups", lk(M).term() == content(M)),
            ("accepted so far", allmem(f_take(S.lst, S.i), lambda x: right(e, cls_of(M), x)))]


HINT_EXT = {"collections.abc.MutableSequence.extend#0": dict(inv=extend_inv, entry=lambda S: content(S.v("self")))}


def bulk(name, op):
    @mutation(name, hints=HINT_EXT)
    def f(e, vm, cls, M, L):
        V = given(e, vm)
        try:
            op(M, SymList.of_term(V, "ref"))
        except AssertionError:
            e.prove("%s: refused only with a match of the wrong kind" % name, z3.Not(allmem(V, lambda x: right(e, cls, x))))
            e.prove("%s refused: lookups describe the content" % name, lk(M).term() == content(M))
            return
        e.prove("%s: accepted only matches of the right kind" % name, allmem(V, lambda x: right(e, cls, x)))
        after(e, M, name, f_cat(L, V))


bulk("extend", lambda M, v: M.extend(v))


def _iadd(M, v):
    M += v


bulk("__iadd__", _iadd)


@task(["C01", "C11", "C20"], "match._BaseMatches.__init__", hints=HINT_EXT, functions=["match._BaseMatches.__init__", "match.Matches.__init__", "match.Markers.__init__"])
def _init(e, ctx):
    vm = load_match(e, ctx)
    abstract(e, vm)

    def body():
        cls = kinds(e)
        V = given(e, vm)
        text = SVal(e.freshint("text"), "optstr")
        form = e.choose(3)
        arg = None if form == 0 else SymList.of_term(V, "ref") if form == 1 else SymList()
        try:
            M = getattr(vm, cls)(arg, text)
        except AssertionError:
            e.prove("__init__: refused only with a match of the wrong kind", z3.Not(allmem(V, lambda x: right(e, cls, x))))
            done(e)
            return
        after(e, M, "__init__", V if form == 1 else nil)
        e.prove("__init__: text kept", M.__dict__["input_string"].t == text.t)
        if cls == "Matches":
            e.prove("__init__: markers of its own, empty", type(M.markers).__name__ == "Markers" and M.markers is not M)
            after(e, M.markers, "__init__ markers", nil)
        done(e)
    return body


@mutation("__getitem__ [slice]", hints=HINT_EXT)
def _getslice(e, vm, cls, M, L):
    a, b, ea, eb = slicebounds(e, L)
    r = M[slice(SInt(a), SInt(b))]
    e.prove("__getitem__ slice: a new collection of the same class", type(r) is type(M) and r is not M)
    want = z3.If(ea < eb, f_take(f_drop(L, ea), eb - ea), nil)
    after(e, r, "__getitem__ slice", want)
    after(e, M, "__getitem__ slice: original", L)


def rev_inv(S):
    M = S.v("self")
    L = S.entry["extra"]
    D = content(M)
    n = f_len(L)
    j = z3.Int("rj!")
    e = E_()
    if not z3.is_const(D):
        c = e.fresh("now", LST)
        e.assume(c == D)
        D = c
    return [("length", f_len(D) == n), ("lookups", lk(M).term() == D),
            ("swapped so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f_at(D, j) == z3.If(z3.Or(j < S.i, j >= n - S.i), f_at(L, n - 1 - j), f_at(L, j))), patterns=[f_at(D, j)]))]


@mutation("reverse", hints={"collections.abc.MutableSequence.reverse#0": dict(inv=rev_inv, entry=lambda S: content(S.v("self")))})
def _reverse(e, vm, cls, M, L):
    M.reverse()
    after(e, M, "reverse", T.f_rev(L))


@mutation("clear", hints={"collections.abc.MutableSequence.clear#0": dict(inv=lambda S: [("lookups", lk(S.v("self")).term() == content(S.v("self")))])})
def _clear(e, vm, cls, M, L):
    M.clear()
    after(e, M, "clear", nil)


def remove_inv(S):
    L = S.lst
    M = S.v("self")
    v = ref(S.v("value"))
    return [("not found yet", z3.Not(f_mem(v, f_take(L, S.i)))), ("unchanged", z3.And(content(M) == L, lk(M).term() == L))]


def index_inv(S):
    M = S.v("self")
    L = content(M)
    i = S.int("i")
    e = E_()
    e.assume(z3.Implies(z3.And(0 <= i, i < f_len(L)), z3.And(f_take(L, i + 1) == f_snoc(f_take(L, i), f_at(L, i)), f_mem(f_at(L, i), L))))
    e.assume(f_take(L, f_len(L)) == L)
    return [("not found yet", z3.Not(f_mem(ref(S.v("value")), f_take(L, i)))), ("position", z3.And(0 <= i, i <= f_len(L)))]


HINT_INDEX = {"collections.abc.Sequence.index#0": dict(inv=index_inv, types={"i": "int", "v": "ref"}, variant=lambda S: f_len(content(S.v("self"))) - S.int("i"))}


@mutation("remove", hints=dict({"match._BaseMatches.remove#0": dict(inv=remove_inv)}, **HINT_INDEX))
def _remove(e, vm, cls, M, L):
    m = new_match(e, vm)
    eq_is_identity(e, vm)
    try:
        M.remove(m)
    except ValueError:
        e.prove("remove: error only when absent", z3.Not(f_mem(ref(m), L)))
        return after(e, M, "remove absent", L)
    e.prove("remove: was present", f_mem(ref(m), L))
    p = e.freshint("p")
    D = content(M)
    e.prove("remove: lookups describe the content", lk(M).term() == D)
    q = z3.Int("rq!")
    # D is L without the first occurrence of m (L has each match once)
    e.prove("remove: exactly the given match is gone", D == T.f_del(L, T.f_idx(ref(m), L)), assume=False)


@mutation("__contains__", hints={"collections.abc.Sequence.__contains__#0": dict(inv=lambda S: [("not found yet", z3.Not(f_mem(ref(S.v("value")), f_take(S.lst, S.i))))])})
def _contains(e, vm, cls, M, L):
    m = new_match(e, vm)
    eq_is_identity(e, vm)
    r = m in M
    e.prove("in: exactly when the match is there", z3.BoolVal(bool(r)) == f_mem(ref(m), L))
    after(e, M, "in", L)


@mutation("remove is filtering", hints=dict({"match._BaseMatches.remove#0": dict(inv=remove_inv)}, **HINT_INDEX))
def _remove2(e, vm, cls, M, L):
    m = new_match(e, vm)
    eq_is_identity(e, vm)
    e.assume(f_mem(ref(m), L))
    M.remove(m)
    e.prove("remove: all but the given match stay, in order", content(M) == but(e, L, ref(m)), assume=False)


# ------------------------------------------------------------------ selection
for _v in VARIANTS:
    @task("C01", "loose.filter_index [%s]" % _v, functions=["loose.filter_index"])
    def _fi(e, ctx, v=_v):
        vm = load_match(e, ctx)
        loose = ctx.loose

        def body():
            L = e.fresh("L", LST)
            l = SymList.of_term(L, "ref")
            p, ix = variant(e, v)
            r = loose.filter_index(l, p, ix)
            if v == "all":
                e.prove("filter_index: without criteria the collection itself", r is l)
            else:
                expect(e, "filter_index", r, L, v, p, ix)
            e.prove("filter_index: collection unchanged", l.term() == L)
            done(e)
        return body
