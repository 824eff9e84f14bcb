"""C10: conflict resolution names, and only names, one of two overlapping public matches."""
from .base import *
from .coll import *
from .c02 import span
from pyvc.engine import Engine

f_solve = z3.Function("solve", I, I, I, I)      # solver, first, second -> 0 nothing, 1 the default marker, 2 the first, 3 the second
f_init = z3.Function("initiator", I, I)
f_named = z3.Function("named_for_removal", I, B)
f_conf = z3.Function("conflicting", LST, I, LST)


def E_():
    return Engine.cur


def pub(e, x):
    p = sel(e, "private", x)
    return z3.Not(z3.And(p != NONE, T.f_truthy(p)))


def has_solver(e, x):
    p = sel(e, "conflict_solver", x)
    return z3.And(p != NONE, T.f_truthy(p))


def overlap(e, x, y):
    (a, b), (c, d) = span(e, x), span(e, y)
    return z3.And(a < d, c < b, a < b, c < d)


def ilen(e, x):
    return sel(e, "end", f_init(x)) - sel(e, "start", f_init(x))


def default(e, m, c):
    return z3.If(ilen(e, c) < ilen(e, m), c, z3.If(ilen(e, m) < ilen(e, c), m, NONE))


def decision(e, m, c):
    """Which of the pair the solver in force names (NONE: neither)."""
    d1, d2 = f_solve(sel(e, "conflict_solver", c), c, m), f_solve(sel(e, "conflict_solver", m), m, c)
    own = z3.If(z3.And(has_solver(e, m), d2 != 1), z3.If(d2 == 2, m, z3.If(d2 == 3, c, NONE)), default(e, m, c))
    return z3.If(z3.And(has_solver(e, c), d1 != 1), z3.If(d1 == 2, c, z3.If(d1 == 3, m, NONE)), own)


def marked(S_or_set, x):
    """x is in the identity set."""
    s = S_or_set.refs
    if s._fn is not None:
        return s._fn(x)
    return z3.Or([encode(v) == x for v in s._items] or [z3.BoolVal(False)])


def pair(e, m, c):
    L = e.L0
    return z3.And(f_mem(m, L), f_mem(c, L), pub(e, m), pub(e, c), m != c, overlap(e, m, c))


def only_named(e, R):
    x = z3.Int("cn!")
    r = marked(R, x)
    return [("only public matches of the collection", T.ax([x], z3.Implies(r, z3.And(f_mem(x, e.L0), pub(e, x))), *pats(r))),
            ("only matches a solver named", T.ax([x], z3.Implies(r, f_named(x)), *pats(r)))]


def pats(t):
    t = z3.simplify(t)
    return [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() else []


def settled(e, m, c, R):
    return z3.Implies(z3.And(pair(e, m, c), decision(e, m, c) != NONE), z3.Or(marked(R, m), marked(R, c)))


def outer(S):
    e = E_()
    R = S.v("to_remove_matches")
    m, c = z3.Int("cm!"), z3.Int("cc!")
    return only_named(e, R) + [("every pair seen is settled", T.ax([m, c], z3.Implies(f_mem(m, S.done), settled(e, m, c, R)), (f_mem(m, S.done), f_mem(c, e.L0))))]


def inner_entry(S):
    s = S.v("to_remove_matches").refs
    fn, items = s._fn, list(s._items)
    return (lambda x: fn(x)) if fn is not None else (lambda x: z3.Or([encode(v) == x for v in items] or [z3.BoolVal(False)]))


def inner(S):
    e = E_()
    R = S.v("to_remove_matches")
    m = ref(S.v("match"))
    x, c = z3.Int("cx!"), z3.Int("cc!")
    was = S.entry["extra"](x) if "extra" in S.entry else z3.BoolVal(False)
    out = only_named(e, R)
    if not z3.is_false(z3.simplify(was)):
        out += [("nothing is taken back", T.ax([x], z3.Implies(was, marked(R, x)), *(pats(was) or [])))]
    return out + [("every pair seen is settled", T.ax([c], z3.Implies(f_mem(c, S.done), settled(e, m, c, R)), f_mem(c, S.done)))]


def prep(e, ctx):
    vm = load_match(e, ctx)
    p = ctx.processors
    u = ctx.utils
    abstract(e, vm)
    eq_is_identity(e, vm)
    e.feas_ms = 80
    p.log = lambda *a, **k: None
    u._Ref._vc_kind = "idref"
    u._Ref._vc_enc = lambda self: encode(self.value)
    e.decoders["idref"] = lambda c: u._Ref(mkref(vm.Match, c))

    def conflicting(self, match, predicate=None, index=None):
        need_wf(e, self, "conflicting")
        e.stubs_used.add("match._BaseMatches.conflicting")
        if predicate is not None or index is not None:
            raise Unsupported("conflicting with a selection")
        m = ref(match)
        return SymList.of_term(f_conf(content(self), m), "ref")
    vm._BaseMatches.conflicting = conflicting

    def initiator(self):
        e.stubs_used.add("match.Match.initiator")
        return mkref(vm.Match, f_init(ref(self)))
    vm.Match.initiator = property(initiator)
    e.assumptions.add("a conflict solver names one of the two matches it is given, neither, or defers to the default one")
    e.assumptions.add("overlapping matches are not empty (an empty match shares no index)")

    def call(f, args, kw):
        a, b = args
        if kw:
            raise Unsupported("solver with keywords")
        d = f_solve(f.t, ref(a), ref(b))
        e.assume(z3.And(0 <= d, d <= 3))
        if e.fork(d == 0):
            return None
        if e.fork(d == 1):
            return p.DEFAULT
        return a if e.fork(d == 2) else b
    e.call_hook = call
    return vm, p


def domain(e, vm):
    x, y = z3.Int("dx!"), z3.Int("dy!")
    e.assume(T.ax([x], z3.And(f_init(x) >= 0, sel(e, "start", f_init(x)) <= sel(e, "end", f_init(x))), f_init(x)))
    e.assume(allmem(e.L0, lambda z: sel(e, "start", z) < sel(e, "end", z)))
    C = f_conf(e.L0, y)
    e.assume(T.ax([x, y], f_mem(x, C) == z3.And(f_mem(x, e.L0), x != y, overlap(e, x, y)), f_mem(x, C)))
    e.assume(T.ax([x, y], z3.Implies(z3.And(f_mem(x, e.L0), x != y, overlap(e, x, y)), f_mem(x, C)), (f_mem(x, e.L0), C)))
    # what "named by the solver in force" means; nothing else makes a match named
    e.assume(T.ax([x, y], z3.Implies(z3.And(pair(e, x, y), decision(e, x, y) != NONE), f_named(decision(e, x, y))), (f_mem(x, e.L0), f_mem(y, e.L0))))


@task("C10", "processors._default_conflict_solver", functions=["processors._default_conflict_solver"])
def _dcs(e, ctx):
    vm, p = prep(e, ctx)

    def body():
        m, c = new_match(e, vm, name="m"), new_match(e, vm, name="c")
        x = z3.Int("dx!")
        e.assume(T.ax([x], z3.And(f_init(x) >= 0, sel(e, "start", f_init(x)) <= sel(e, "end", f_init(x))), f_init(x)))
        r = p._default_conflict_solver(m, c)
        e.prove("the default solver names the shorter one", default(e, ref(m), ref(c)) == (ref(r) if r is not None else NONE))
        done(e)
    return body


@task(["C10", "C20"], "processors.ConflictSolver.when", functions=["processors.ConflictSolver.when", "processors.ConflictSolver.default_conflict_solver", "utils.IdentitySet.add", "utils.IdentitySet.__contains__"],
      hints={"processors.ConflictSolver.when#0": dict(inv=outer), "processors.ConflictSolver.when#1": dict(inv=inner, entry=inner_entry)})
def _cs(e, ctx):
    vm, p = prep(e, ctx)

    def body():
        M, L = abs_coll(e, vm)
        e.L0 = L
        domain(e, vm)
        r = object.__new__(p.ConflictSolver)
        r.__dict__["log_level"] = 0
        h0 = dict(e.heap)
        R = r.when(M, {})
        e.prove("the rule is not changed", set(r.__dict__) == {"log_level"})
        x, y = e.freshint("x"), e.freshint("y")
        e.prove("what is removed is public and in the collection", z3.Implies(marked(R, x), z3.And(f_mem(x, L), pub(e, x))), assume=False)
        e.prove("what is removed was named by the solver in force for an overlapping public pair", z3.Implies(marked(R, x), f_named(x)), assume=False)
        e.prove("of a pair for which one is named, one is removed", settled(e, x, y, R), assume=False)
        e.stubs_used.update(["rules.RemoveMatch.then", "rules.Rule.then"])
        e.prove("what the condition answers is removed", p.ConflictSolver.consequence is ctx.rules.RemoveMatch)
        e.prove("the collection is not changed by the condition", z3.And(content(M) == L, lk(M).term() == L))
        e.prove("no match is changed by the condition", all(e.heap[n].eq(h0.get(n, z3.Const("F_" + n, e.heap[n].sort()))) for n in e.heap))
        done(e)
    return body


# ------------------------------------------------------------------ what is marked for removal: a set of objects, told apart by identity
f_ident = z3.Function("id", I, I)


class RefSet:
    """A set of references: members are told apart as their references are (proved below: by the object referred to)."""

    _vc_isa = (set,)
    _vc_inplace = True

    def __init__(self, it=()):
        src = iterate(it)
        self.l = SymList.of_term(src.lst if isinstance(src, SymIter) else nil, "idref")
        if not isinstance(src, SymIter):
            for v in src:
                self.add(v)

    def add(self, r):
        self.l.set_term(T.f_uni(self.l.term(), f_snoc(nil, encode(r))), "idref")

    def discard(self, r):
        e, x, c = E_(), E_().freshint("dx"), encode(r)
        self.l.set_term(e.comps.make(x, z3.If(x == c, nil, f_snoc(nil, x)), self.l.term()), "idref")

    def _vc_has(self, r):
        return f_mem(encode(r), self.l.term())

    def _vc_iter(self):
        return iterate(self.l)

    def sym_len(self):
        return SInt(T.f_len(self.l.term()))


@task("C10", "utils._Ref, IdentitySet", functions=["utils._Ref.__init__", "utils._Ref.__eq__", "utils._Ref.__hash__"] + ["utils.IdentitySet.%s" % n for n in ("__init__", "__contains__", "__iter__", "__len__", "add", "discard", "update")],
      hints={"utils.IdentitySet.update#0": dict(inv=lambda S: [("those before, and the ones so far", S.v("self").refs.l.term() == T.f_uni(E_().before, S.done))])})
def _ids(e, ctx):
    vm, p = prep(e, ctx)
    u = ctx.utils
    real = u._Ref.__eq__, u._Ref.__hash__
    same = z3.Function("compare_equal", I, I, B)          # nothing is known of how the objects compare
    vm.Match.__eq__ = lambda self, o: SBool(same(ref(self), ref(o)))
    vm.Match.__hash__ = lambda self: SInt(z3.Function("own_hash", I, I)(ref(self)))

    def body():
        e.id_hook = lambda v: SInt(f_ident(ref(v)))
        e.set_hook = lambda x=(): RefSet(x)
        a, b = e.freshint("a"), e.freshint("b")
        m, n = mkref(vm.Match, a), mkref(vm.Match, b)
        r, q = u._Ref(m), u._Ref(n)
        e.prove("a reference is to the object given", r.value is m)
        e.prove("references are equal exactly when they are to one object", bterm(real[0](r, q)) == (a == b))
        e.prove("a reference is hashed by identity", SInt.lift(real[1](r)) == f_ident(a))
        L, M = e.fresh("items", LST), e.fresh("more", LST)
        e.assume(z3.And(f_dist(L)))
        s = u.IdentitySet() if e.choose(2) else u.IdentitySet(SymList.of_term(L, "ref"))
        L = L if not s.refs.l.term().eq(nil) else nil
        x = e.freshint("x")
        has = lambda c: bterm(u.IdentitySet.__contains__(s, mkref(vm.Match, c)))
        e.prove("it holds what it is given", has(x) == f_mem(x, L))
        e.prove("its size", SInt.lift(u.IdentitySet.__len__(s)) == T.f_len(L))
        s.add(m)
        e.prove("adding one adds that one only", has(x) == z3.Or(x == a, f_mem(x, L)))
        s.discard(n)
        e.prove("discarding one discards that one only", has(x) == z3.And(x != b, z3.Or(x == a, f_mem(x, L))))
        it = iterate(u.IdentitySet.__iter__(s))
        e.prove("it iterates over the objects, each once", it.lst == s.refs.l.term(), assume=False)
        before = e.before = s.refs.l.term()
        s.update(SymList.of_term(M, "ref"))
        e.prove("updating adds all of them and nothing else", has(x) == z3.Or(f_mem(x, before), f_mem(x, M)), assume=False)
        done(e)
    return body
