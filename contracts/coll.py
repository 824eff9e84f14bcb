"""The collection of matches: representation, abstract view, and what all collection contracts share.

Representation invariant of _BaseMatches with content L (its _delegate):
  each of the five lookup dictionaries is None or maps every key to the filter of L by that key, in order;
  _max_end is the greatest end in L (0 when empty).
Abstract view (used for every function above the representation): ghost list LK that the
lookups describe; the object is well formed when LK equals the content.
"""
import z3
from .base import *
from pyvc.engine import Engine

FIELDS = dict(start="int", end="int", name="optstr", _value="any", tags="list:str", marker="any", parent="any", private="any", pattern="any",
              input_string="optstr", formatter="any", conflict_solver="any", _children="any", _raw_start="optint", _raw_end="optint", match_index="int", defined_at="any")

TAGS = z3.ArraySort(I, LST)


def load_match(e, ctx, managed=True, fields=FIELDS):
    m = ctx.match
    if managed:
        manage(m.Match, fields)
        e.decoders["ref"] = lambda c: mkref(m.Match, c)
        e.decoders["optref"] = lambda c: None if e.fork(c == NONE) else mkref(m.Match, c)
    e.alloc = z3.Int("alloc0")
    e.assumptions.add("attributes of a match are not modified while it is in a collection, except through the code verified")
    return m


def fld(e, name):
    if name in e.frozen:
        return e.frozen[name]
    k = FIELDS[name]
    return e.field(name, TAGS if k.startswith("list:") else T.ARR)


def sel(e, name, x):
    return z3.Select(fld(e, name), x)


def allmem(L, f, x=None):
    x = x if x is not None else z3.Int("am!")
    return T.ax([x], z3.Implies(f_mem(x, L), f(x)), f_mem(x, L))


def wf_matches(e, L, marker=False):
    """Every element is an allocated match with 0 <= start <= end and the right marker flag."""
    a0 = e.alloc

    def good(x):
        st, en = sel(e, "start", x), sel(e, "end", x)
        mk = sel(e, "marker", x)
        t = z3.And(mk != NONE, T.f_truthy(mk))
        return z3.And(0 <= x, x < a0, 0 <= st, st <= en, t if marker else z3.Not(t), sel(e, "name", x) >= NONE)
    e.assume(allmem(L, good))


def flt(e, L, pred):
    """Filter of L by pred (a function from element code to Bool), in order."""
    x = e.freshint("fx")
    return e.comps.make(x, z3.If(pred(x), f_snoc(nil, x), nil), L)


def at_key(e, L, which, k):
    """What the lookup `which` answers at key k: the filter of L by that key."""
    kk = e.freshint("lk")
    return z3.substitute(flt(e, L, spec(e, which, kk)), (kk, k))


def spec(e, which, k):
    """Predicate of the lookup `which` at key k."""
    if which == "name":
        return lambda x: z3.And(sel(e, "name", x) == k, k != 0, k != NONE)
    if which == "tag":
        return lambda x: f_mem(k, sel(e, "tags", x))
    if which == "start":
        return lambda x: sel(e, "start", x) == k
    if which == "end":
        return lambda x: sel(e, "end", x) == k
    return lambda x: z3.And(sel(e, "start", x) <= k, k < sel(e, "end", x))


LOOKUPS = ("name", "tag", "start", "end", "index")
KEYKIND = dict(name="optstr", tag="str", start="int", end="int", index="int")


def attr(which):
    return "_BaseMatches__%s_dict" % which


def lookup_dict(e, which, L, has=None):
    """A dictionary from every key to the filter of L."""
    d = SymDict()
    d._factory = SymList
    d._elemkind, d._keykind = "ref", KEYKIND[which]
    e.counter += 1
    H = has or z3.Function("has_%s.%d" % (which, e.counter), I, B)
    kk = e.freshint("lk")
    t = flt(e, L, spec(e, which, kk))

    def base(k):
        c = z3.substitute(t, (kk, k))
        return z3.Or(H(k), z3.Not(c == nil)), c
    d._base = base
    return d


def maxend(e, L):
    return T.f_maxend(fld(e, "end"), L)


def assume_maxend(e, me, L):
    e.assume(me == maxend(e, L))


def prove_maxend(e, label, me, L):
    e.prove(label + " is the greatest end", me == maxend(e, L), assume=False)


def new_coll(e, vm, cls="Matches", L=None, present=None, distinct=True):
    """A symbolic well-formed collection in its concrete representation."""
    C = getattr(vm, cls)
    M = object.__new__(C)
    d = M.__dict__
    d["_born"] = stamp()
    L = L if L is not None else e.fresh("L", LST)
    wf_matches(e, L, marker=(cls == "Markers"))
    if distinct:
        e.assume(f_dist(L))
    d["_delegate"] = SymList.of_term(L, "ref")
    d["input_string"] = SVal(e.freshint("text"), "optstr")
    e.assume(d["input_string"].t >= NONE)
    me = e.freshint("maxend")
    assume_maxend(e, me, L)
    d["_max_end"] = SInt(me)
    d["declared_keys"] = SymDict()
    for w in LOOKUPS:
        if present is None:
            continue
        d[attr(w)] = lookup_dict(e, w, L) if (present is True or w in present) else None
    if present is None:
        d["_lazy"] = {}
    return M, L


def lazy_lookups(e, C):
    """The five dictionaries of a collection are None or present: decided when first read."""
    def make(w):
        a = attr(w)

        def get(self):
            dd = self.__dict__
            if a not in dd:
                v = None if e.choose(2) == 0 else lookup_dict(e, w, dd["_lookup_list"])
                dd[a] = v
                e.undo.append((None, lambda: dd.pop(a, None)))
            return dd[a]

        def put(self, v):
            dd = self.__dict__
            old = dd.get(a, _MISSING)

            def restore():
                if old is _MISSING:
                    dd.pop(a, None)
                else:
                    dd[a] = old
            e.record((self, a), restore)
            dd[a] = v
        return property(get, put)
    for w in LOOKUPS:
        setattr(C, attr(w), make(w))


_MISSING = object()


def prove_wf(e, M, L, label):
    """The representation invariant holds for content L."""
    d = M.__dict__
    e.prove("%s: content" % label, d["_delegate"].term() == L)
    for w in LOOKUPS:
        v = d.get(attr(w), _MISSING)
        if v is None or v is _MISSING and "_lookup_list" not in d:
            continue
        if v is _MISSING:
            # never touched: still what it was, None or the filter of the list it described
            e.prove("%s: %s lookup untouched" % (label, w), d["_lookup_list"] == L)
            continue
        prove_dict(e, v, w, L, "%s: %s lookup agrees with content" % (label, w))


def prove_dict(e, v, w, L, label):
    if not isinstance(v, SymDict):
        e.fail(label, "not a dictionary")
        return
    v._tobase()
    k = e.freshint("key")
    h, c = v._base(k)
    e.prove(label, c == flt(e, L, spec(e, w, k)), assume=False)


# ------------------------------------------------------------------ abstract view
def lk(M):
    d = M.__dict__
    if "_LK" not in d:
        l = SymList.of_term(nil, "ref")
        l._born = d.get("_born", 0)
        d["_LK"] = l
    return d["_LK"]


def content(M):
    return M.__dict__["_delegate"].term()


def need_wf(e, M, what):
    e.prove("%s: lookups describe the content when used" % what, lk(M).term() == content(M))


def abstract(e, vm, stub_add=True, stub_iter=True):
    """Replace the representation by its contracts (each proved in C01 tasks on the real code)."""
    B = vm._BaseMatches
    for w in LOOKUPS:
        def get(self, w=w):
            need_wf(e, self, "_%s_dict" % w)
            e.stubs_used.add("match._BaseMatches._%s_dict" % w)
            return lookup_dict(e, w, lk(self).term())
        setattr(B, "_%s_dict" % w, property(get))
        setattr(B, attr(w), property(lambda self: _no("direct use of a lookup"), lambda self, v: None if v is None and not self.__dict__.get("_ready") else _no("direct use of a lookup")))

    def me_get(self):
        need_wf(e, self, "_max_end")
        return SInt(maxend(e, lk(self).term()))

    def me_set(self, v):
        e.prove("_max_end set to the greatest end", SInt.lift(v) == maxend(e, lk(self).term()))
    B._max_end = property(me_get, me_set)
    if stub_add:
        for cls, want in (("Matches", False), ("Markers", True)):
            def add(self, match, want=want):
                e.stubs_used.add("match.%s._add_match" % ("Markers" if want else "Matches"))
                r = match.__dict__["_ref"] if not isinstance(match, (SVal, SInt)) and hasattr(match, "__dict__") and "_ref" in match.__dict__ else _no("_add_match of something else")
                mk = z3.And(sel(e, "marker", r) != NONE, T.f_truthy(sel(e, "marker", r)))
                if not e.fork(mk if want else z3.Not(mk)):
                    raise prog(AssertionError("wrong collection"))
                l = lk(self)
                l.set_term(f_snoc(l.term(), r))
            getattr(vm, cls)._add_match = add

        def reset(self):
            e.stubs_used.add("match._BaseMatches._reset_lookups")
            lk(self).set_term(content(self))
        B._reset_lookups = reset
    if stub_iter:
        B._vc_iter = lambda self: _iter(e, self)


def _iter(e, M):
    e.stubs_used.add("collections.abc.Sequence.__iter__")
    d = M.__dict__["_delegate"]
    return iterate(d)


def _no(m):
    raise Unsupported(m)


def abs_coll(e, vm, cls="Matches", L=None, distinct=True, name="L"):
    C = getattr(vm, cls)
    M = object.__new__(C)
    d = M.__dict__
    d["_born"] = stamp()
    L = L if L is not None else e.fresh(name, LST)
    wf_matches(e, L, marker=(cls == "Markers"))
    if distinct:
        e.assume(f_dist(L))
    d["_delegate"] = SymList.of_term(L, "ref")
    d["_LK"] = SymList.of_term(L, "ref")
    d["input_string"] = SVal(e.freshint("text"), "optstr")
    e.assume(d["input_string"].t >= NONE)
    d["declared_keys"] = SymDict()
    return M, L


def new_match(e, vm, marker=None, distinct_from=None, name="m"):
    """An arbitrary allocated match with 0 <= start <= end."""
    m = mkref(vm.Match, e.freshint(name))
    r = m.__dict__["_ref"]
    e.assume(z3.And(0 <= r, r < e.alloc, 0 <= sel(e, "start", r), sel(e, "start", r) <= sel(e, "end", r)))
    if marker is not None:
        mk = z3.And(sel(e, "marker", r) != NONE, T.f_truthy(sel(e, "marker", r)))
        e.assume(mk if marker else z3.Not(mk))
    return m


def ref(m):
    return m.__dict__["_ref"]


def is_marker(e, r):
    return z3.And(sel(e, "marker", r) != NONE, T.f_truthy(sel(e, "marker", r)))


VARIANTS = ("all", "pred", "index", "pred+index", "int")


def variant(e, v):
    """(predicate, index) arguments for a query variant."""
    fn = SFn(e.freshint("pred"))
    ix = SInt(e.freshint("ix"))
    return {"all": (None, None), "pred": (fn, None), "index": (None, ix), "pred+index": (fn, ix), "int": (ix, None)}[v]


def predterm(e, fn):
    from pyvc.values import f_app
    return lambda x: z3.And(f_app(fn.t, x) != NONE, T.f_truthy(f_app(fn.t, x)))


def expect(e, label, r, term, v, pred, index, owner=None):
    """r is the answer of a query whose unfiltered answer is the list `term`."""
    if v == "int":
        pred, index = None, pred
    if pred is not None:
        term = flt(e, term, predterm(e, pred))
    if index is None:
        if not isinstance(r, SymList):
            e.fail("%s: answers a list" % label, type(r).__name__)
            return
        e.prove("%s: exact answer" % label, r.term() == term, assume=False)
        fresh_list(e, label, r, owner)
        return
    i = SInt.lift(index)
    n = f_len(term)
    eff = z3.If(i < 0, i + n, i)
    inside = z3.And(0 <= eff, eff < n)
    if r is None:
        e.prove("%s: nothing only when the index is out of range" % label, z3.Not(inside))
    elif hasattr(r, "__dict__") and "_ref" in r.__dict__:
        e.prove("%s: index selects the element" % label, z3.And(inside, ref(r) == f_at(term, eff)))
    else:
        e.fail("%s: index selects the element" % label, type(r).__name__)


def fresh_list(e, label, r, owner=None):
    ok = r._slot is None and (owner is None or r is not owner.__dict__.get("_delegate"))
    e.prove("%s: the list handed back is not an internal one" % label, ok)


def eq_is_identity(e, vm):
    """Matches of one collection that compare equal are the same object (assumption of the domain)."""
    e.assumptions.add("two different matches in play never compare equal (Match.__eq__ is proved lawful in C18)")
    vm.Match.__eq__ = lambda self, o: SBool(ref(self) == ref(o)) if hasattr(o, "__dict__") and "_ref" in o.__dict__ else False
    vm.Match.__ne__ = lambda self, o: SBool(ref(self) != ref(o)) if hasattr(o, "__dict__") and "_ref" in o.__dict__ else True

    def mem(v, t):
        return f_mem(encode(v), t)
    e.mem_eq["ref"] = mem

    def remove(l, v):
        t = l.term()
        r = encode(v)
        if not e.fork(f_mem(r, t)):
            raise prog(ValueError("list.remove(x): x not in list"))
        l.set_term(T.f_del(t, T.f_idx(r, t)))
    e.list_remove["ref"] = remove


# ------------------------------------------------------------------ contracts of callees
class Selection:
    """The answer of filter_index(collection, predicate, index) when something is selected."""

    def __init__(self, term, predicate, index):
        self.term, self.predicate, self.index = term, predicate, index

    def _no(self, *a):
        raise Unsupported("use of a selected answer")

    __iter__ = __getitem__ = __len__ = __bool__ = __eq__ = _no
    __hash__ = None


class Arg:
    """An arbitrary predicate or index handed through."""

    def __init__(self, name):
        self.name = name

    def _no(self, *a, **k):
        raise Unsupported("use of the %s argument" % self.name)

    __call__ = __bool__ = __eq__ = __lt__ = __index__ = _no
    __hash__ = None


def contract_filter_index(e, vm):
    """filter_index(c, None, None) is c; otherwise the selection from c (contract proved on loose.filter_index)."""
    def filter_index(collection, predicate=None, index=None):
        e.stubs_used.add("loose.filter_index")
        if not isinstance(collection, SymList):
            raise Unsupported("filter_index of %s" % type(collection).__name__)
        if predicate is None and index is None:
            return collection
        return Selection(collection.term(), predicate, index)
    vm.filter_index = filter_index


def contract_lookups(e, vm, names=("starting", "ending", "at_index")):
    """starting, ending and at_index answer a new list: the filter of the content by that key (proved in C01)."""
    for n in names:
        which = {"starting": "start", "ending": "end", "at_index": "index"}[n]

        def get(self, key, predicate=None, index=None, which=which, n=n):
            need_wf(e, self, n)
            e.stubs_used.add("match._BaseMatches.%s" % n)
            t = at_key(e, lk(self).term(), which, SInt.lift(key))
            if predicate is None and index is None:
                return SymList.of_term(t, "ref")
            return Selection(t, predicate, index)
        setattr(vm._BaseMatches, n, get)


def but(e, L, r):
    """L without r."""
    return flt(e, L, lambda x: z3.Not(x == r))


def contract_mutators(e, vm):
    """in, remove, append of a collection without repetition (proved in C01 on the real code)."""
    B = vm._BaseMatches

    def contains(self, m):
        need_wf(e, self, "in")
        e.stubs_used.add("match._BaseMatches.__contains__")
        if not hasattr(m, "__dict__") or "_ref" not in m.__dict__:
            return False
        return SBool(f_mem(ref(m), content(self)))

    def remove(self, m):
        need_wf(e, self, "remove")
        e.stubs_used.add("match._BaseMatches.remove")
        D = content(self)
        r = ref(m)
        if not e.fork(f_mem(r, D)):
            raise prog(ValueError("not there"))
        self.__dict__["_delegate"].set_term(but(e, D, r), "ref")
        lk(self).set_term(content(self), "ref")

    def append(self, m):
        need_wf(e, self, "append")
        e.stubs_used.add("match._BaseMatches.append")
        r = ref(m)
        mk = is_marker(e, r)
        if not e.fork(mk if type(self).__name__ == "Markers" else z3.Not(mk)):
            raise prog(AssertionError("wrong collection"))
        self.__dict__["_delegate"].set_term(f_snoc(content(self), r), "ref")
        lk(self).set_term(content(self), "ref")
    B.__contains__ = contains
    B.remove = remove
    B.append = append


def guard_writes(e, M, names=("name", "tags", "start", "end", "marker")):
    """No attribute a lookup depends on is written while the match is in the collection."""
    def g(name, r):
        if name in names:
            e.prove("no match has its %s modified while it is in the collection" % name, z3.Not(f_mem(r, content(M))), assume=False)
    e.write_guard = g
