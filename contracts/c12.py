"""C12: rules run by priority, dependencies first, each enabled rule once."""
from .base import *
from .c08 import truthy
from pyvc.engine import Engine
from pyvc.gdict import GDict, GItems
from pyvc.terms import f_idx

SET = z3.ArraySort(I, B)
SETS = z3.ArraySort(I, SET)
EMPTY = z3.K(I, z3.BoolVal(False))
f_card = z3.Function("set_size", SET, I)


def E_():
    return Engine.cur


f_minus = z3.Function("set_minus", SET, SET, SET)
f_plus = z3.Function("set_plus", SET, SET, SET)


def minus(a, b):
    return f_minus(a, b)


def set_axioms(e):
    a, b, x = z3.Const("sa!", SET), z3.Const("sb!", SET), z3.Int("sx!")
    for f, v in ((f_minus, z3.And(z3.Select(a, x), z3.Not(z3.Select(b, x)))), (f_plus, z3.Or(z3.Select(a, x), z3.Select(b, x)))):
        e.assume(T.ax([a, b, x], z3.Select(f(a, b), x) == v, z3.Select(f(a, b), x)))


class ASet:
    """A finite set of items, by membership: a value of its own, or the value of a dictionary at a key."""
    _vc_kind = "nset"
    _vc_isa = (set,)
    __hash__ = None

    elem = "node"

    def __init__(self, a=EMPTY, slot=None):
        self._born = stamp()
        self.a, self.slot = a, slot
        if slot is None:
            # kept on the heap, so that loops may change it
            e = E_()
            e.counter += 1
            self.f = "set%d" % e.counter
            e.field_born[self.f] = self._born
            e.field_sorts[self.f] = SETS

    def arr(self):
        if self.slot is not None:
            return self.slot[0].at(self.slot[1])
        h = E_().heap.get(self.f)
        return self.a if h is None else z3.simplify(z3.Select(h, 0))

    def put(self, a):
        e = E_()
        if self.slot is not None:
            if self.slot[0].shared:
                e.prove("a set given is not changed", False)
            e.write(self.slot[0].f, self.slot[1], a)
        else:
            e.heap.setdefault(self.f, z3.K(I, self.a))
            e.write(self.f, z3.IntVal(0), a)

    def _vc_enc(self):
        if self.slot is not None:
            raise Unsupported("a set shared by two dictionaries")
        return self.arr()

    def _vc_has(self, x):
        return z3.Select(self.arr(), encode(x))

    def __contains__(self, x):
        return E_().fork(self._vc_has(x))

    def add(self, x):
        self.put(z3.Store(self.arr(), encode(x), True))

    def discard(self, x):
        self.put(z3.Store(self.arr(), encode(x), False))

    def __sub__(self, o):
        return ASet(minus(self.arr(), o.arr()))

    def __isub__(self, o):
        self.put(minus(self.arr(), o.arr()))
        return self
    difference_update = __isub__

    def difference(self, o):
        return self - o

    def sym_len(self):
        a = self.arr()
        c = f_card(a)
        return SInt(z3.If(a == EMPTY, 0, 1 + z3.If(c >= 0, c, -c)))

    def __bool__(self):
        return E_().fork(self.arr() != EMPTY)

    def _vc_iter(self):
        return lst_iter(listed(self.arr()), self.elem, distinct=True)


def listed(a):
    """The items of a finite set, in some order."""
    e = E_()
    t = e.fresh("listed", LST)
    x = z3.Int("ls!")
    e.assume(z3.And(f_dist(t), T.ax([x], f_mem(x, t) == z3.Select(a, x), f_mem(x, t)), T.ax([x], f_mem(x, t) == z3.Select(a, x), z3.Select(a, x))))
    return t


def members(t):
    """The set of the items of a list."""
    e = E_()
    if t.eq(nil):
        return EMPTY
    a = e.fresh("members", SET)
    x = z3.Int("ls!")
    e.assume(z3.And(T.ax([x], f_mem(x, t) == z3.Select(a, x), f_mem(x, t)), T.ax([x], f_mem(x, t) == z3.Select(a, x), z3.Select(a, x))))
    return a


class Graph(GDict):
    """Items and the set of items each depends on."""
    shared = False

    def val(self, c):
        return ASet(slot=(self, c))

    def items(self):
        E_().iterated = self
        return super().items()

    @classmethod
    def fresh(cls, name):
        e = E_()
        t = e.fresh(name + "_items", LST)
        e.assume(f_dist(t))
        return cls(t, "node", "nset", e.fresh(name + "_deps", SETS))


def to_set(x=()):
    if isinstance(x, tuple) and not x:
        return ASet()
    if isinstance(x, ASet):
        return ASet(x.arr())
    if isinstance(x, GDict):
        return ASet(members(x.kterm()))
    s = iterate(x)
    if isinstance(s, SymIter) and s.lst is not None:
        return ASet(members(s.lst))
    raise Unsupported("set of this")


def union_all(f, it, *init):
    """functools.reduce(set.union, values): contract of the library."""
    e = E_()
    if f is not pv.b_set.union or not isinstance(it, GItems) or it.what != "values" or any(not isinstance(i, ASet) for i in init):
        raise Unsupported("reduce")
    e.assumptions.add("functools.reduce(set.union, sets) is their union")
    d = it.d
    u = e.fresh("union", SET)
    e.counter += 1
    w = z3.Function("union_from.%d" % e.counter, I, I)
    x, k = z3.Int("ux!"), z3.Int("uk!")
    more = z3.Or([z3.Select(i.arr(), x) for i in init] or [z3.BoolVal(False)])
    e.assume(T.ax([x], z3.Implies(z3.Select(u, x), z3.Or(more, z3.And(d.has(w(x)), z3.Select(d.at(w(x)), x)))), z3.Select(u, x)))
    e.assume(T.ax([x, k], z3.Implies(z3.And(d.has(k), z3.Select(d.at(k), x)), z3.Select(u, x)), z3.MultiPattern(f_mem(k, d.kterm()), z3.Select(z3.Select(d.arr(), k), x)),
                  z3.MultiPattern(f_mem(k, d.kterm()), z3.Select(d.arr(), k), z3.Select(u, x))))
    return ASet(u)


def setup(e):
    set_axioms(e)
    e.set_hook = to_set
    e.setcomp_hook = lambda t, k: ASet(members(t))
    e.dict_class = {"nset": Graph}
    e.decoders["node"] = lambda c: SVal(c, "any")


X = "given_before"


class Out:
    """What a sort has given so far: each group must be right when it is given."""
    _vc_inplace = True

    def __init__(self):
        e = E_()
        self._born = stamp()
        e.field(X, SETS)
        e.heap[X] = z3.K(I, EMPTY)
        self.ended = False

    def append(self, s):
        e = E_()
        done = z3.Select(e.heap[X], 0)
        g = s.arr() if isinstance(s, ASet) else None
        e.prove("a set is given", g is not None)
        e.prove("no group is empty", g != EMPTY, assume=False)
        x = e.freshint("item")
        e.prove("a group has exactly the items, not given before, that depend only on items given before",
                z3.Select(g, x) == z3.And(z3.Select(e.ALL, x), z3.Not(z3.Select(done, x)), minus(z3.Select(e.DEP, x), done) == EMPTY), assume=False)
        e.write(X, z3.IntVal(0), f_plus(done, g))


def fresh_graph(v):
    return Graph.fresh("data")


def ts_for(S):
    e = E_()
    x = z3.Int("tx!")
    v0 = e.g0[1]
    D = e.iterated
    return [("itself taken out", T.ax([x], z3.Implies(f_mem(x, S.done), z3.Select(D.arr(), x) == z3.Store(z3.Select(v0, x), x, False)), z3.Select(D.arr(), x), z3.Select(v0, x))),
            ("the others not yet", T.ax([x], z3.Implies(z3.And(f_mem(x, e.g0[0]), z3.Not(f_mem(x, S.done))), z3.Select(D.arr(), x) == z3.Select(v0, x)), z3.Select(D.arr(), x), z3.Select(v0, x)))]


def ts_while(S):
    e = E_()
    x = z3.Int("tx!")
    D = S.v("data")
    done = z3.Select(e.heap[X], 0)
    t, a = D.kterm(), D.arr()
    c = z3.And(z3.Select(e.ALL, x), z3.Not(z3.Select(done, x)))
    return [("items left", z3.And(T.ax([x], f_mem(x, t) == c, f_mem(x, t)), T.ax([x], z3.Implies(c, f_mem(x, t)), z3.Select(e.ALL, x)))),
            ("dependencies left", T.ax([x], z3.Implies(f_mem(x, t), z3.Select(a, x) == minus(z3.Select(e.DEP, x), done)), z3.Select(a, x)))]


def ts_ahead(S):
    """The same, for a loop entered with the next group already gathered."""
    x = z3.Int("tx!")
    D, g = S.v("data"), S.v("ordered")
    return ts_while(S) + [("the next group", T.ax([x], z3.Select(g.arr(), x) == z3.And(f_mem(x, D.kterm()), z3.Select(D.arr(), x) == EMPTY), z3.Select(g.arr(), x)))]


@task(["C12", "C20"], "toposort.toposort", functions=["toposort.toposort"], cvc5=True,
      hints={"toposort.toposort#0": dict(inv=ts_for, types={"k": "node"}), "toposort.toposort#1": dict(inv=ts_while, types={"data": fresh_graph}),
             "toposort.toposort#1|": dict(inv=ts_ahead, when=False, types={"data": fresh_graph, "ordered": lambda v: ASet(E_().fresh("ordered", SET))})})
def _topo(e, ctx):
    m = ctx.toposort

    def body():
        setup(e)
        G = Graph.fresh("graph")
        G.shared = True
        k0, v0 = e.g0 = G.kterm(), G.arr()
        x, y = z3.Int("ax!"), z3.Int("ay!")
        e.ALL, e.DEP = e.fresh("all_items", SET), e.fresh("depends_on", SETS)
        w = z3.Function("wanted_by", I, I)
        # every item: those listed and those they depend on; what an item depends on, other than itself
        e.assume(T.ax([x], z3.Select(e.ALL, x) == z3.Or(f_mem(x, k0), z3.And(f_mem(w(x), k0), z3.Select(z3.Select(v0, w(x)), x))), z3.Select(e.ALL, x)))
        e.assume(T.ax([x, y], z3.Implies(z3.And(f_mem(y, k0), z3.Select(z3.Select(v0, y), x)), z3.Select(e.ALL, x)), z3.MultiPattern(f_mem(y, k0), z3.Select(z3.Select(v0, y), x))))
        e.assume(T.ax([x], z3.Select(e.DEP, x) == z3.If(f_mem(x, k0), z3.Store(z3.Select(v0, x), x, False), EMPTY), z3.Select(e.DEP, x)))
        m.reduce = union_all
        m.pv__ = Hooks(m.pv__)
        left = None
        try:
            r = m.toposort(G)
        except m.CyclicDependency as c:
            left = c.cyclic
        done_ = z3.Select(e.field(X, SETS), 0)
        i = e.freshint("item")
        if left is None:
            e.prove("every item is given", z3.Implies(z3.Select(e.ALL, i), z3.Select(done_, i)), assume=False)
        else:
            t = left.kterm()
            e.prove("circular: some item is left", t != nil)
            e.prove("circular: every item left depends on another item left", z3.Implies(z3.And(z3.Select(e.ALL, i), z3.Not(z3.Select(done_, i))), minus(z3.Select(e.DEP, i), done_) != EMPTY), assume=False)
            e.prove("circular: those reported are those left", f_mem(i, t) == z3.And(z3.Select(e.ALL, i), z3.Not(z3.Select(done_, i))), assume=False)
        e.prove("the graph is not changed", z3.And(G.kterm() == k0, G.arr() == v0))
        done(e)
    return body


class Hooks:
    def __init__(self, base):
        self.__dict__["base"] = base

    def __getattr__(self, n):
        return getattr(self.base, n)

    def mkout(self):
        return Out()


# ------------------------------------------------------------------ one rule
f_prio = z3.Function("rule_priority", I, I)
f_level = z3.Function("rule_log_level", I, I)
f_cls = z3.Function("class_of", I, I)
f_isclass = z3.Function("is_a_class", I, B)
f_trig = z3.Function("triggered", I, B)
f_resp = z3.Function("response", I, I)
f_depends = z3.Function("rule_depends_on", I, I, B)


class Opaque:
    """An arbitrary rule, watched."""
    name = "rule"

    def __init__(self, e):
        self.log_level = SInt(e.freshint("log_level"))
        self.on = SVal(e.freshint("enabled"), "any")
        self.response = SVal(e.freshint("response"), "any")
        self.seen = []

    def enabled(self, *a, **k):
        self.seen.append(("enabled", a, k))
        return self.on

    def when(self, *a, **k):
        self.seen.append(("when", a, k))
        return self.response

    def then(self, *a, **k):
        self.seen.append(("then", a, k))
        return SVal(E_().freshint("done"), "any")


@task(["C12", "C20"], "rules.execute_rule", functions=["rules.execute_rule"])
def _exec(e, ctx):
    m = ctx.rules

    def body():
        R, M, X = Opaque(e), object(), object()
        r = m.execute_rule(R, M, X)
        e.prove("the rule is not changed", set(R.__dict__) == {"log_level", "on", "response", "seen"})
        on, trig = truthy(R.on.t), truthy(R.response.t)
        names = [n for n, _, _ in R.seen]
        same = lambda i, *w: len(R.seen[i][1]) == len(w) and not R.seen[i][2] and all(p is q for p, q in zip(R.seen[i][1], w))
        e.prove("asked whether it is enabled, once, for the context", names[:1] == ["enabled"] and names.count("enabled") == 1 and same(0, X))
        e.prove("the condition is evaluated exactly when enabled", on if len(names) > 1 else z3.Not(on))
        if len(names) > 1:
            e.prove("the condition is evaluated once, before anything else, with the matches and the context", names[1] == "when" and names.count("when") == 1 and same(1, M, X))
            e.prove("the consequence is run exactly when the condition is truthy", trig if len(names) > 2 else z3.Not(trig))
        if len(names) > 2:
            e.prove("the consequence is run once, with the matches, the response and the context", names[2:] == ["then"] and same(2, M, R.response, X))
            e.prove("the response is returned", r is R.response)
        else:
            e.prove("nothing is returned when not triggered", r is None)
        done(e)
    return body


# ------------------------------------------------------------------ rules as list elements
class Cls:
    """A class: equal to itself only."""
    _vc_kind = "cls"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    def __eq__(self, o):
        return SBool(self.code == o.code) if isinstance(o, (Cls, Dep)) else SBool(z3.BoolVal(False))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        raise Unsupported("native hash of a class")


class RuleVal:
    _vc_kind = "rule"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    @property
    def priority(self):
        return SInt(f_prio(self.code))

    @property
    def log_level(self):
        return SInt(f_level(self.code))

    @property
    def __class__(self):
        return Cls(f_cls(self.code))

    def _vc_type(self):
        return Cls(f_cls(self.code))

    def __lt__(self, o):
        return E_().rules.CustomRule.__lt__(self, o)

    def __gt__(self, o):
        return E_().rules.CustomRule.__lt__(o, self)


XE, RAN = "executed", "run_in_order"
f_grp = z3.Function("group_of", I, I)
f_gkey = z3.Function("group_key", I, I)
f_members = z3.Function("group_members", I, LST)
f_levels = z3.Function("levels_of", LST, LST)
f_lvl = z3.Function("level_of", I, I)
f_lset = z3.Function("level_set", I, SET)
f_twice = z3.Function("class_twice", LST, B)
f_cyc = z3.Function("circular", LST, B)


def group_runs(src, key=None):
    """itertools.groupby over a list without repeats: contract of the library."""
    e = E_()
    s = iterate(src)
    if not isinstance(s, SymIter) or s.lst is None or s.kind not in ("rule", "found") or key is None:
        raise Unsupported("groupby of this")
    kind = s.kind
    e.assumptions.add("itertools.groupby gives the maximal runs of equal keys, in order")
    S = s.lst
    x0 = e.freshint("gx")
    k0 = SInt.lift(key(decode(x0, kind)))
    K = lambda t: z3.substitute(k0, (x0, t))
    G = e.fresh("groups", LST)
    e.S, e.G = S, G
    x, y, g = z3.Int("gr!"), z3.Int("gs!"), z3.Int("gg!")
    e.counter += 1
    btw = z3.Function("between.%d" % e.counter, I, I, I)
    e.assume(f_dist(G))
    e.assume(T.ax([x], z3.Implies(f_mem(x, S), z3.And(f_mem(f_grp(x), G), f_mem(x, f_members(f_grp(x))), f_gkey(f_grp(x)) == K(x))), f_mem(x, S), f_grp(x)))
    e.assume(T.ax([x, g], z3.Implies(f_mem(g, G), f_mem(x, f_members(g)) == z3.And(f_mem(x, S), f_grp(x) == g)), f_mem(x, f_members(g))))
    e.assume(T.ax([g], z3.Implies(f_mem(g, G), f_dist(f_members(g))), f_members(g)))
    both = (f_mem(x, S), f_mem(y, S))
    i = lambda t: f_idx(t, S)
    # an element between two of the list with equal keys has another key, or the two are in one run
    w = btw(x, y)
    e.assume(T.ax([x, y], z3.Implies(z3.And(*both, i(x) < i(y)),
                                     z3.And(f_idx(f_grp(x), G) <= f_idx(f_grp(y), G),
                                            z3.Implies(f_grp(x) == f_grp(y), K(x) == K(y)),
                                            z3.Implies(z3.And(f_grp(x) != f_grp(y), K(x) == K(y)), z3.And(f_mem(w, S), i(x) < i(w), i(w) < i(y), K(w) != K(x))))), both))
    # a run keeps the order of the list
    e.assume(T.ax([x, y], z3.Implies(z3.And(*both, f_grp(x) == f_grp(y)), (i(x) < i(y)) == (f_idx(x, f_members(f_grp(x))) < f_idx(y, f_members(f_grp(y))))), both))
    w0 = z3.Function("one_of_group", I, I)(g)
    e.assume(T.ax([g], z3.Implies(f_mem(g, G), z3.And(f_mem(w0, S), f_grp(w0) == g, f_gkey(g) == K(w0))), f_mem(g, G)))
    e.decoders["group"] = lambda c: (SInt(f_gkey(c)), Run(c, kind))
    return SymList.of_term(G, "group")


class Run:
    def __init__(self, g, kind):
        self.g, self.kind = g, kind

    def _vc_iter(self):
        return lst_iter(f_members(self.g), self.kind, distinct=True)


def same_prio(x, y):
    return f_prio(x) == f_prio(y)


def level_order(rules_):
    """toposort_rules: its contract, with that of toposort."""
    e = E_()
    s = iterate(rules_)
    if not isinstance(s, SymIter) or s.lst is None:
        raise Unsupported("rules to sort")
    t = s.lst
    e.stubs_used.add("rules.toposort_rules")
    e.cur = t
    if e.fork(f_twice(t)):
        raise refusal()
    x, y = z3.Int("lx!"), z3.Int("ly!")
    e.assume(T.ax([x, y], z3.Implies(z3.And(f_mem(x, t), f_mem(y, t), x != y), f_cls(x) != f_cls(y)), (f_mem(x, t), f_mem(y, t))))
    L = f_levels(t)
    x, y, l = z3.Int("lx!"), z3.Int("ly!"), z3.Int("ll!")
    e.assume(f_dist(L))
    e.assume(T.ax([x, l], z3.Implies(f_mem(l, L), z3.Select(f_lset(l), x) == z3.And(f_mem(x, t), f_lvl(x) == l)), z3.Select(f_lset(l), x)))
    e.assume(z3.Implies(z3.Not(f_cyc(t)), T.ax([x], z3.Implies(f_mem(x, t), f_mem(f_lvl(x), L)), f_mem(x, t))))
    e.assume(T.ax([x, y], z3.Implies(z3.And(f_mem(x, t), f_mem(y, t), f_mem(f_lvl(x), L), x != y, f_depends(x, y)),
                                     z3.And(f_mem(f_lvl(y), L), f_idx(f_lvl(y), L) < f_idx(f_lvl(x), L))), f_depends(x, y)))
    e.decoders["level"] = lambda c: RuleSet(f_lset(c))
    return Levels(t, L)


def refusal():
    """What toposort_rules and the iteration of its result raise."""
    v = prog(ValueError("refused"))
    v.expected = True
    return v


class RuleSet(ASet):
    elem = "rule"


class StrSet(ASet):
    elem = "str"        # items that have an order


class Levels:
    def __init__(self, t, L):
        self.t, self.L = t, L

    def _vc_iter(self):
        it = lst_iter(self.L, "level", distinct=True)
        it.onend = self.end
        return it

    def end(self):
        if E_().fork(f_cyc(self.t)):
            raise refusal()


def executed():
    return z3.Select(E_().field(XE, SETS), 0)


def run_stub(rule, matches, context):
    """execute_rule: its contract; what the schedule promises is proved where it is called."""
    e = E_()
    e.stubs_used.add("rules.execute_rule")
    e.prove("a rule gets the matches and the context as they are", matches is e.M and context is e.X)
    r, X_, y = rule.code, executed(), e.freshint("other")
    e.prove("only rules of the list are run", f_mem(r, e.R0), assume=False)
    e.prove("no rule is run twice", z3.Not(z3.Select(X_, r)), assume=False)
    there = f_mem(y, e.R0)
    S, G, higher = e.S, e.G, z3.And(f_mem(y, e.R0), f_prio(y) > f_prio(r))
    for lab, f in (("rules of higher priority are sorted before", z3.Implies(higher, f_idx(y, S) < f_idx(r, S))),
                   ("rules of higher priority are in an earlier group", z3.Implies(higher, f_idx(f_grp(y), G) < f_idx(f_grp(r), G))),
                   ("rules of one priority are in one group", z3.Implies(z3.And(there, same_prio(y, r)), f_grp(y) == f_grp(r))),
                   ("a group keeps the order in which rules were added", z3.Implies(z3.And(there, same_prio(y, r)), (f_idx(y, e.R0) < f_idx(r, e.R0)) == (f_idx(y, e.cur) < f_idx(r, e.cur))))):
        e.prove(lab, f)
    e.prove("rules of higher priority are run before", z3.Implies(z3.And(there, f_prio(y) > f_prio(r)), z3.Select(X_, y)), assume=False)
    e.prove("the rules a rule depends on are run before", z3.Implies(z3.And(there, same_prio(y, r), y != r, f_depends(r, y)), z3.Select(X_, y)), assume=False)
    e.prove("rules ready together are run in the order they were added", z3.Implies(z3.And(there, same_prio(y, r), f_lvl(y) == f_lvl(r), f_idx(y, e.R0) < f_idx(r, e.R0)), z3.Select(X_, y)), assume=False)
    e.write(XE, z3.IntVal(0), z3.Store(X_, r, True))
    e.write(RAN, z3.IntVal(0), f_snoc(ran(), r))
    if e.fork(f_trig(r)):
        v = SVal(f_resp(r), "any")
        e.assume(z3.And(truthy(v.t), v.t != NONE))
        return v
    return None


def ran():
    return z3.Select(E_().field(RAN, LISTS), 0)


LISTS = z3.ArraySort(I, LST)


def pairs(t):
    e = E_()
    x = e.freshint("px")
    return e.comps.make(x, z3.If(f_trig(x), f_snoc(nil, T_pair(x, f_resp(x))), nil), t)


from pyvc.values import f_pair as T_pair  # noqa: E402


def returned(S):
    return [("the pairs collected are those of the rules triggered, in order", S.v("ret").term() == pairs(ran()))]


def all_groups(S):
    e = E_()
    x, y = z3.Int("hx!"), z3.Int("hy!")
    return [("rules of the groups done", T.ax([x], z3.Select(executed(), x) == z3.And(f_mem(x, e.R0), f_mem(f_grp(x), S.done)), z3.Select(executed(), x))),
            ("no two rules of one class in a group done", T.ax([x, y], z3.Implies(z3.And(f_mem(x, e.R0), f_mem(y, e.R0), x != y, f_grp(x) == f_grp(y), f_mem(f_grp(x), S.done)), f_cls(x) != f_cls(y)),
                                                               (f_cls(x), f_cls(y))))] + returned(S)


def all_levels(S):
    e = E_()
    x = z3.Int("hx!")
    X0 = S.entry["extra"]
    return [("rules of the levels done", T.ax([x], z3.Select(executed(), x) == z3.Or(z3.Select(X0, x), z3.And(f_mem(x, e.cur), f_mem(f_lvl(x), S.done))), z3.Select(executed(), x)))] + returned(S)


def all_rules(S):
    x = z3.Int("hx!")
    X0 = S.entry["extra"]
    return [("rules of the level done", T.ax([x], z3.Select(executed(), x) == z3.Or(z3.Select(X0, x), f_mem(x, S.done)), z3.Select(executed(), x)))] + returned(S)


def position(lst, v):
    """list.index (no rule equals another of one run: two of one class are refused before)."""
    c = encode(v)
    if not E_().fork(f_mem(c, lst.term())):
        raise prog(ValueError("not in list"))
    return SInt(f_idx(c, lst.term()))


from pyvc.builtins_ import stable_sort  # noqa: E402
EX = "rules.Rules.execute_all_rules"


@task(["C12", "C20"], "rules.Rules.execute_all_rules", functions=["rules.Rules.execute_all_rules", "rules.CustomRule.__lt__"], cvc5=True,
      hints={EX + "#0": dict(inv=all_groups), EX + "#1": dict(inv=all_levels, entry=lambda S: executed()), EX + "#2": dict(inv=lambda S: [], types={"group_log_level": "optint"}),
             EX + "#3": dict(inv=all_rules, entry=lambda S: executed(), types={"ret[]": "any"})})
def _all(e, ctx):
    m = ctx.rules
    m.groupby = group_runs
    m.toposort_rules = level_order
    m.execute_rule = run_stub

    def body():
        setup(e)
        e.axioms.update(T.PLACE_AXIOMS)
        e.rules = m
        e.decoders["rule"] = RuleVal
        e.sort_hook = stable_sort
        e.list_index = {"rule": position}
        e.field(XE, SETS)
        e.field(RAN, LISTS)
        e.heap[XE], e.heap[RAN] = z3.K(I, EMPTY), z3.K(I, nil)
        e.R0 = e.fresh("rules", LST)
        e.assume(f_dist(e.R0))
        e.assumptions.add("no rule object is in the list twice")
        e.M, e.X = object(), object()
        i, j = e.freshint("rule"), e.freshint("rule")
        bad = z3.And(f_mem(i, e.R0), f_mem(j, e.R0), i != j, same_prio(i, j), f_cls(i) == f_cls(j))
        try:
            given = SymList.of_term(e.R0, "rule")
            r = m.Rules.execute_all_rules(given, e.M, e.X)
        except ValueError as v:
            if not getattr(v, "expected", False):
                raise
            return
        e.prove("the list of rules is not changed", given.term() == e.R0)
        e.prove("two rules of one class at one priority are refused", z3.Not(bad))
        e.prove("every rule is run", z3.Implies(f_mem(i, e.R0), z3.Select(executed(), i)), assume=False)
        e.prove("the pairs of the rules triggered are returned, in order", r.term() == pairs(ran()))
        done(e)
    return body


# ------------------------------------------------------------------ the graph of one group
f_form = z3.Function("dependency_form", I, I)        # 0 none, 1 one, 2 several
f_one = z3.Function("dependency_given", I, I)
f_many = z3.Function("dependencies_given", I, LST)


class Dep:
    """A dependency as declared: a class or an instance."""
    _vc_kind = "dep"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    @property
    def __class__(self):
        return Cls(f_cls(self.code))

    def _vc_type(self):
        return Cls(f_cls(self.code))


class ReadRule(RuleVal):
    @property
    def dependency(self):
        e = E_()
        c = self.code
        if e.fork(f_form(c) == 0):
            return None
        if e.fork(f_form(c) == 1):
            return Dep(f_one(c))
        return SymList.of_term(f_many(c), "dep")


class Inspect:
    @staticmethod
    def isclass(c):
        if isinstance(c, Dep):
            return SBool(f_isclass(c.code))
        raise Unsupported("isclass")


def dep_classes(t):
    """The classes a list of declared dependencies stands for."""
    e = E_()
    x = e.freshint("dx")
    return e.comps.make(x, f_snoc(nil, z3.If(f_isclass(x), x, f_cls(x))), t)


def declared(c):
    return z3.If(f_form(c) == 0, nil, z3.If(f_form(c) == 1, f_snoc(nil, f_one(c)), f_many(c)))


class Lazy(GDict):
    """A dictionary display: of what, is learnt when it is filled."""

    def __init__(self, *a):
        super().__init__(nil, None, None)

    def __setitem__(self, k, v):
        if self.kk is None:
            self.kk = kind_of(k)
        super().__setitem__(k, v)


f_items = z3.Function("items_of_set", I, SET)


class SetVal(ASet):
    """A set in a dictionary, by a code."""

    def _vc_enc(self):
        e = E_()
        c = e.freshint("setcode")
        e.assume(f_items(c) == self.arr())
        return c


def classes_seen(S):
    e = E_()
    D, x = S.v("class_dict"), z3.Int("cx!")
    t = D.kterm()
    y = e.freshint("cy")
    return [("one class each", t == e.comps.make(y, f_snoc(nil, f_cls(y)), S.done)), ("no class twice", f_dist(t)),
            ("the rule of a class", T.ax([x], z3.Implies(f_mem(x, S.done), z3.Select(D.arr(), f_cls(x)) == x), f_mem(x, S.done)))]


def graph_made(S):
    e = E_()
    D, x, y = S.v("graph"), z3.Int("cx!"), z3.Int("cy!")
    return [("the rules done", D.kterm() == S.done),
            ("what they depend on", T.ax([x, y], z3.Implies(f_mem(x, S.done), z3.Select(f_items(z3.Select(D.arr(), x)), y) == e.depends(x, y)), z3.Select(f_items(z3.Select(D.arr(), x)), y)))]


def deps_found(S):
    e = E_()
    y = z3.Int("cy!")
    return [("dependencies found", T.ax([y], z3.Select(S.v("dependencies").arr(), y) == z3.And(f_mem(y, e.R0), f_mem(f_cls(y), dep_classes(S.done))), z3.Select(S.v("dependencies").arr(), y)))]


TR = "rules.toposort_rules"


@task("C12", TR, functions=[TR, "utils.is_iterable"], cvc5=True,
      hints={TR + "#0": dict(inv=classes_seen), TR + "#1": dict(inv=graph_made), TR + "#2": dict(inv=deps_found)})
def _tr(e, ctx):
    m = ctx.rules
    m.inspect = Inspect

    def body():
        setup(e)
        e.set_hook = lambda x=(): SetVal() if isinstance(x, tuple) and not x else to_set(x)
        e.mkdict_hook = lambda pairs: Lazy() if not pairs else NotImplemented
        e.decoders["rule"] = ReadRule
        e.decoders["dep"] = Dep
        e.decoders["cls"] = Cls
        e.R0 = e.fresh("rules", LST)
        e.assume(f_dist(e.R0))
        e.depends = lambda x, y: z3.And(f_mem(y, e.R0), f_mem(f_cls(y), dep_classes(declared(x))))
        got = []

        def sort(g):
            e.stubs_used.add("toposort.toposort")
            got.append(g)
            return got
        m.toposort = sort
        i, j, k = e.freshint("rule"), e.freshint("rule"), e.freshint("at")
        e.assume(f_form(i) >= 0)
        try:
            r = m.toposort_rules(SymList.of_term(e.R0, "rule"))
        except ValueError:
            x, y = z3.Int("cx!"), z3.Int("cy!")
            e.prove("refused only for two rules of one class", z3.Not(T.ax([x, y], z3.Implies(z3.And(f_mem(x, e.R0), f_mem(y, e.R0), x != y), f_cls(x) != f_cls(y)), (f_mem(x, e.R0), f_mem(y, e.R0)))))
            return
        e.prove("two rules of one class are refused", z3.Implies(z3.And(f_mem(i, e.R0), f_mem(j, e.R0), i != j), f_cls(i) != f_cls(j)), assume=False)
        e.prove("the graph is sorted, once", r is got and len(got) == 1)
        g = got[0]
        e.prove("every rule is in the graph", z3.Implies(f_mem(i, e.R0), f_mem(i, g.kterm())), assume=False)
        e.prove("nothing else is", z3.Implies(f_mem(i, g.kterm()), f_mem(i, e.R0)), assume=False)
        e.prove("a rule depends on the rules of the list whose class it declares", z3.Implies(f_mem(i, e.R0), z3.Select(f_items(z3.Select(g.arr(), i)), j) == e.depends(i, j)), assume=False)
        done(e)
    return body


@task("C12", "rules.CustomRule equality", functions=["rules.CustomRule.__eq__", "rules.CustomRule.__hash__"])
def _req(e, ctx):
    m = ctx.rules

    def body():
        a, b = RuleVal(e.freshint("rule")), RuleVal(e.freshint("rule"))
        e.prove("two rules are equal exactly when of one class", bterm(m.CustomRule.__eq__(a, b)) == (f_cls(a.code) == f_cls(b.code)), assume=False)
        e.assume(f_cls(a.code) == f_cls(b.code))
        e.prove("equal rules have equal hashes", SInt.lift(m.CustomRule.__hash__(a)) == SInt.lift(m.CustomRule.__hash__(b)))
        done(e)
    return body


# ------------------------------------------------------------------ flat order
def flat(S):
    e = E_()
    x, y = z3.Int("fx!"), z3.Int("fy!")
    r = S.v("result").term()
    return [("the items of the groups done", T.ax([x], f_mem(x, r) == f_mem(f_lvl(x), S.done), f_mem(x, r))), ("each once", f_dist(r)),
            ("group by group", T.ax([x, y], z3.Implies(z3.And(f_mem(x, r), f_mem(y, r), f_idx(f_lvl(x), e.L) < f_idx(f_lvl(y), e.L)), f_idx(x, r) < f_idx(y, r)), (f_mem(x, r), f_mem(y, r))))]


TF = "toposort.toposort_flatten"


@task("C12", TF, functions=[TF], cvc5=True, hints={TF + "#0": dict(inv=flat, types={"result[]": "str"})})
def _flat(e, ctx):
    m = ctx.toposort

    def body():
        setup(e)
        e.axioms.update(T.PLACE_AXIOMS)
        e.sort_hook = stable_sort
        e.L = e.fresh("groups", LST)
        x, l = z3.Int("lx!"), z3.Int("ll!")
        e.assume(f_dist(e.L))
        e.assume(T.ax([x, l], z3.Select(f_lset(l), x) == (f_lvl(x) == l), z3.Select(f_lset(l), x)))
        e.decoders["level"] = lambda c: StrSet(f_lset(c))
        G = object()

        def sort(g):
            e.stubs_used.add("toposort.toposort")
            e.prove("the graph given is sorted", g is G)
            return SymList.of_term(e.L, "level")
        m.toposort = sort
        r = m.toposort_flatten(G, bool(e.choose(2))).term()
        i, j = e.freshint("item"), e.freshint("item")
        e.prove("exactly the items of the groups", f_mem(i, r) == f_mem(f_lvl(i), e.L), assume=False)
        e.prove("each once", f_dist(r))
        e.prove("those of an earlier group first", z3.Implies(z3.And(f_mem(i, r), f_mem(j, r), f_idx(f_lvl(i), e.L) < f_idx(f_lvl(j), e.L)), f_idx(i, r) < f_idx(j, r)), assume=False)
        done(e)
    return body


# ------------------------------------------------------------------ the list of rules is built
f_ismod = z3.Function("is_module", I, B)
f_new = z3.Function("instance_made", I, I)            # what a class given at some place of the arguments makes
f_members_of = z3.Function("held_by_module", I, LST)         # everything a module holds, by name
f_modname = z3.Function("defined_in_module_named", I, I)
f_mname = z3.Function("module_name", I, I)
f_hasmod = z3.Function("has_module_name", I, B)


class Given:
    """Something given to a list of rules: a module, a class or a rule."""
    _vc_kind = "given"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    def _vc_call(self):
        return Given(f_new(self.code))

    def __call__(self):
        e = E_()
        e.prove("only a class is called to make a rule", f_isclass(self.code))
        return Given(f_new(self.code))

    @property
    def __name__(self):
        return SVal(f_mname(self.code), "str")


class Module(Given):
    @property
    def __name__(self):
        return SVal(f_mname(self.code), "str")


class Member(Given):
    def _vc_hasattr(self, n):
        if n != "__module__":
            raise Unsupported("attribute %s of a member" % n)
        return SBool(f_hasmod(self.code))

    def __getattribute__(self, n):
        if n == "__module__":
            return SVal(f_modname(self.code), "str")
        return object.__getattribute__(self, n)


class Inspected:
    @staticmethod
    def isclass(c):
        return SBool(f_isclass(c.code))

    @staticmethod
    def ismodule(c):
        return SBool(f_ismod(c.code))

    @staticmethod
    def getmembers(mod, predicate=None):
        e = E_()
        e.assumptions.add("inspect.getmembers gives the members for which the predicate is truthy, by name")
        if not isinstance(mod, Given) or predicate is None:
            raise Unsupported("getmembers")
        x = e.freshint("mx")
        pc0 = list(e.pc)
        e.assume(f_mem(x, f_members_of(mod.code)))
        keep = pred(e, predicate, x)
        e.pc = pc0
        t = e.comps.make(x, z3.If(keep, f_snoc(nil, x), nil), f_members_of(mod.code))
        e.decoders["named member"] = lambda c: (SVal(f_attr(c), "str"), Member(c))
        return SymList.of_term(t, "named member")


f_attr = z3.Function("attribute_name", I, I)


def pred(e, predicate, x):
    """The condition a predicate computes on an arbitrary member."""
    out = []

    def run():
        v = predicate(Member(x))
        return z3.BoolVal(True) if callable(v) else bterm(v)
    for suf, kind, v in e.explore(run):
        if kind != "ok":
            raise Unsupported("predicate raises %r" % (v,))
        out.append(z3.And([v] + list(e.forks_of(suf))))
    return z3.Or(out) if out else z3.BoolVal(False)


def rules_of_module(e, code):
    y = e.freshint("my")
    return e.comps.make(y, z3.If(z3.And(f_hasmod(y), f_modname(y) == f_mname(code), f_isclass(y)), f_snoc(nil, f_new(y)), nil), f_members_of(code))


def rule_list(e, m, t, **stubs):
    """A list of rules: a list with the methods of Rules."""
    d = {n: getattr(m.Rules, n) for n in ("load", "load_module", "load_class")}
    d.update(stubs)
    cls = type("RulesHere", (SymList,), d)
    l = SymList.of_term(t, "given")
    l.__class__ = cls
    return l


@task(["C12", "C20"], "rules.Rules.load_class", functions=["rules.Rules.load_class"])
def _lc(e, ctx):
    m = ctx.rules

    def body():
        e.decoders["given"] = Given
        R0 = e.fresh("rules", LST)
        l = rule_list(e, m, R0)
        c = Given(e.freshint("class"))
        e.assume(f_isclass(c.code))
        l.load_class(c)
        e.prove("the rule the class makes comes last, those before stay", l.term() == f_snoc(R0, f_new(c.code)))
        done(e)
    return body


@task(["C12", "C20"], "rules.Rules.load_module", functions=["rules.Rules.load_module"])
def _lm(e, ctx):
    m = ctx.rules
    m.inspect = Inspected

    def body():
        e.decoders["given"] = Given
        R0 = e.fresh("rules", LST)
        mod = Given(e.freshint("module"))

        def one(self, c):
            e.stubs_used.add("rules.Rules.load_class")
            e.prove("only a class is loaded as one", f_isclass(encode(c)))
            self.set_term(f_snoc(self.term(), f_new(encode(c))), "given")
        l = rule_list(e, m, R0, load_class=one)
        l.load_module(mod)
        e.prove("a rule of each class the module defines, by name, after those there", l.term() == f_cat(R0, rules_of_module(e, mod.code)), assume=False)
        done(e)
    return body


@task(["C12", "C20"], "rules.Rules.load", functions=["rules.Rules.load"])
def _ld(e, ctx):
    m = ctx.rules
    m.inspect = Inspected

    def body():
        e.decoders["given"] = Given
        R0, G = e.fresh("rules", LST), e.fresh("given", LST)
        e.assumptions.add("a module is no class")
        y = z3.Int("my!")
        f_modrules = z3.Function("rules_of_module", I, LST)

        def module(self, c):
            e.stubs_used.add("rules.Rules.load_module")
            e.prove("only a module is loaded as one", f_ismod(encode(c)))
            self.set_term(f_cat(self.term(), f_modrules(encode(c))), "given")

        def one(self, c):
            e.stubs_used.add("rules.Rules.load_class")
            e.prove("only a class is loaded as one", f_isclass(encode(c)))
            self.set_term(f_snoc(self.term(), f_new(encode(c))), "given")
        l = rule_list(e, m, R0, load_class=one, load_module=module)
        g = SymList.of_term(G, "given")
        m.Rules.load__va(l, g)
        x = e.freshint("gx")
        want = e.comps.make(x, z3.If(f_ismod(x), f_modrules(x), z3.If(f_isclass(x), f_snoc(nil, f_new(x)), f_snoc(nil, x))), G)
        e.prove("what is given is loaded in order, after the rules there: the rules of a module, one rule of a class, a rule itself", l.term() == f_cat(R0, want), assume=False)
        e.prove("what is given is not changed", g.term() == G)
        done(e)
    return body


@task(["C12", "C17", "C20"], "rules.Rules.__init__", functions=["rules.Rules.__init__"])
def _ri(e, ctx):
    m = ctx.rules

    def body():
        g = SymList.of_term(e.fresh("given", LST), "given")
        seen = []

        def load(self, *a):
            e.stubs_used.add("rules.Rules.load")
            seen.append((self, list(self), [x.of if isinstance(x, pv.Splat) else x for x in a]))
        m.Rules.load = load
        m.Rules.load__va = lambda self, a: load(self, pv.Splat(a))
        l = m.Rules.__new__(m.Rules)
        getattr(m.Rules, "init__va")(l, g)
        e.prove("a new list of rules is empty, then what is given is loaded, once, in order", len(seen) == 1 and seen[0][0] is l and seen[0][1] == [] and len(seen[0][2]) == 1 and seen[0][2][0] is g and list(l) == [])
        done(e)
    return body


@task(["C12", "C20"], "rules.CustomRule.__init__, enabled; toposort.CyclicDependency.__init__", functions=["rules.CustomRule.__init__", "rules.CustomRule.enabled", "toposort.CyclicDependency.__init__"])
def _cr(e, ctx):
    m, t, d = ctx.rules, ctx.toposort, ctx.debug
    e.assumptions.add("debug.defined_at has no effect")

    def body():
        d.defined_at = lambda: None
        d.LOG_LEVEL = SVal(e.freshint("general_level"), "any")
        own = e.choose(2)
        cls = type("ARule", (m.CustomRule,), dict(when=lambda self, a, b: None, then=lambda self, a, b, c: None, **(dict(log_level=SVal(e.freshint("own_level"), "any")) if own else {})))
        given = e.choose(2)
        lv = SVal(e.freshint("level"), "any")
        e.assume(lv.t != NONE)
        r = object.__new__(cls)
        m.CustomRule.__init__(r, *([lv] if given else []))
        want = lv if given else cls.log_level if own else d.LOG_LEVEL
        e.prove("its level is the one given, else the one of its class, else the general one", encode(r.log_level) == encode(want))
        e.prove("nothing else is kept", set(r.__dict__) <= {"defined_at", "log_level"})
        e.prove("a rule is enabled unless it says otherwise", m.CustomRule.enabled(r, {}) is True)
        cyc = {1: {2}, 2: {1}}
        x = t.CyclicDependency(cyc)
        e.prove("the error tells the dependencies left", x.cyclic is cyc and isinstance(x, ValueError))
        done(e)
    return body
