"""C08: each match gets the value, formatter, validation and visibility configured.  (Also the validator and formatter helpers of C20.)"""
from .base import *
from .coll import *
from pyvc.engine import Engine
from pyvc.gdict import GDict, dict_hook
from pyvc.builtins_ import SPLATKW
from pyvc.values import f_app

F08 = dict(start="int", end="int", name="optstr", _value="any", tags="list:str", marker="any", private="any", formatter="any", match_index="int", input_string="optstr")
VERDICT = z3.Function("verdict", I, B, B)    # answer of _process_match(match, child)


def E_():
    return Engine.cur


def setup(e, ctx):
    vm, pm = ctx.match, ctx.pattern
    manage(vm.Match, F08)
    e.decoders["ref"] = lambda c: mkref(vm.Match, c)
    e.alloc = z3.Int("alloc0")
    e.calls = []

    def call(f, args, kw):
        e.assumptions.add("validators and formatters are deterministic and do not raise")
        e.calls.append((f, args, kw))
        t = f.t
        for a in args:
            t = f_app(t, encode(a))
        return SVal(t, "any")
    e.call_hook = call
    return vm, pm


def a_match(e, vm, name="m"):
    m = mkref(vm.Match, e.freshint(name))
    e.assume(z3.And(0 <= ref(m), ref(m) < e.alloc, rd(e, "name", ref(m)) >= NONE))
    return m


def rd(e, f, x):
    k = F08[f]
    return z3.Select(e.field(f, TAGS if k.startswith("list:") else T.ARR), x)


def truthy(c):
    return z3.And(c != NONE, T.f_truthy(c))


def snapshot(e):
    for f in F08:
        rd(e, f, z3.IntVal(0))
    return dict(e.heap)


def frame(e, h0, r, allowed):
    """Nothing but the fields allowed of this one match is modified."""
    other = e.freshint("other")
    for f, t in h0.items():
        n = e.heap[f]
        if n.eq(t):
            continue
        if f in allowed:
            e.prove("no other match is modified", z3.Implies(other != r, z3.Select(n, other) == z3.Select(t, other)), assume=False)
        else:
            e.prove("only %s of the match is modified" % (allowed[0] if allowed else "nothing"), n == t, assume=False)


def names_of(e, kk="optstr"):
    return e.code_of_str("__children__"), e.code_of_str("__parent__")


def cfg(e, d, dflt, nm, child):
    """What a configuration (dictionary d, default) says for a match of name nm."""
    ch, pa = names_of(e)
    sp = ch if child else pa
    has, at = d.has, d.at
    return z3.If(z3.And(nm != NONE, nm != 0, has(nm)), at(nm), z3.If(has(sp), at(sp), z3.If(has(z3.IntVal(NONE) if isinstance(NONE, int) else NONE), at(NONE), dflt)))


class Ns:
    pass


def pattern(e, pm):
    p = object.__new__(pm.StringPattern)
    d = p.__dict__
    for n in ("values", "formatters", "validators"):
        d[n] = GDict.fresh("optstr", "any", n)
        x = z3.Int("kx!")
        e.assume(T.ax([x], z3.Implies(f_mem(x, d[n].kterm()), x >= NONE), f_mem(x, d[n].kterm())))
    for n in ("_default_value", "_default_formatter", "_default_validator", "children", "every", "private", "private_parent", "private_children",
              "format_all", "validate_all", "pre_match_processor", "post_match_processor", "post_processor"):
        d[n] = SVal(e.freshint(n), "any")
    for n in ("private_names", "ignore_names"):
        d[n] = SymList.of_term(e.fresh(n, LST), "optstr")
    return p


def untouched(e, p, before):
    same = p.__dict__.keys() == before.keys() and all(p.__dict__[k] is v for k, v in before.items())
    e.prove("the pattern keeps its attributes", bool(same))


def frozen(p):
    """The option objects of the pattern, as they are now."""
    return [(v, v.kterm(), v.arr()) for v in p.__dict__.values() if isinstance(v, GDict)] + [(v, v.term(), None) for v in p.__dict__.values() if isinstance(v, SymList)]


def same_options(e, fz):
    g = [(v.kterm() == t) if a is not None else (v.term() == t) for v, t, a in fz] + [v.arr() == a for v, t, a in fz if a is not None]
    e.prove("the options of the pattern are not modified", z3.And(g), assume=False)


# ------------------------------------------------------------------ lookup of a configuration
@task(["C08", "C20"], "utils.get_first_defined", functions=["utils.get_first_defined"],
      hints={"utils.get_first_defined#0": dict(inv=lambda S: [("no key before is there", E_().gfd(S))], types={"key": "optstr"})})
def _gfd(e, ctx):
    u = ctx.utils

    def body():
        d = GDict.fresh("optstr", "any", "data")
        K = SymList.of_term(e.fresh("keys", LST), "optstr")
        dflt = SVal(e.freshint("default"), "any")
        k = K.term()
        j = e.freshint("j")
        e.gfd = lambda S: none_before(e, d, k, S.i)
        kt, ka = d.kterm(), d.arr()
        r = encode(u.get_first_defined(d, K, dflt))
        n = f_len(k)
        x = z3.Int("gf!")
        allmiss = z3.Int("some")
        first = z3.Exists([x], z3.And(0 <= x, x < n, f_mem(f_at(k, x), kt), r == z3.Select(ka, f_at(k, x)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x), z3.Not(f_mem(f_at(k, j), kt))))))
        none = none_before(e, d, k, n)
        e.prove("the value at the first of the keys that is there, else the default", z3.Or(first, z3.And(none, r == dflt.t)), assume=False)
        e.prove("the data is not modified", z3.And(d.kterm() == kt, d.arr() == ka))
        done(e)
    return body


def none_before(e, d, k, i):
    j = z3.Int("nb!")
    kt = d.kterm()
    return T.ax([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(f_mem(f_at(k, j), kt))), f_at(k, j))


@task(["C08", "C20"], "pattern.Pattern._match_config_property_keys", functions=["pattern.Pattern._match_config_property_keys"])
def _mk(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        m = a_match(e, vm)
        child = bool(e.choose(2))
        h0 = snapshot(e)
        r = pm.Pattern._match_config_property_keys(m, child=child)
        ch, pa = names_of(e)
        t = nil
        for v in iterate(r):
            t = f_snoc(t, encode(v))
        nm = rd(e, "name", ref(m))
        first = z3.If(z3.And(nm != NONE, nm != 0), f_snoc(nil, nm), nil)
        e.prove("the name if there is one, then all children or all parents, then the general one", t == f_snoc(f_snoc(first, ch if child else pa), NONE), assume=False)
        frame(e, h0, ref(m), ())
        done(e)
    return body


@task("C08", "loose.ensure_dict", functions=["loose.ensure_dict"])
def _ed(e, ctx):
    lo = ctx.loose

    def body():
        dflt = SVal(e.freshint("default"), "any")
        e.isinstance_hook = lambda x, cs: False
        case = e.choose(3)
        if case == 0:
            p = None
        elif case == 1:
            p = GDict.fresh("optstr", "any", "param")
        else:
            p = SVal(e.freshint("param"), "any")     # anything that is no dictionary
        given = case == 1 and bool(p)
        d, r = lo.ensure_dict(p, dflt)
        if given:
            e.prove("a dictionary is used as it is, with the default", bool(d is p and r is dflt))
        else:
            pc = NONE if case < 2 else p.t
            eff = z3.If(truthy(pc), pc, dflt.t)
            e.prove("one entry: the general one", bool(isinstance(d, SymDict) and len(d) == 1 and list(d) == [None]))
            e.prove("a single object is the general configuration", encode(d[None]) == eff)
            e.prove("and the default", z3.Implies(truthy(pc), encode(r) == pc))
            e.prove("else the default is kept", z3.Implies(z3.Not(truthy(pc)), encode(r) == dflt.t))
        done(e)
    return body


@task(["C08", "C13"], "loose.ensure_list", functions=["loose.ensure_list"])
def _el(e, ctx):
    lo = ctx.loose

    def body():
        iterable = z3.Function("is_iterable", I, B)
        e.hasattr_hook = lambda x, n: SBool(iterable(x.t)) if n == "__iter__" else NotImplemented
        e.isinstance_hook = lambda x, cs: SBool(z3.Const("isstr", B)) if str in cs else SBool(z3.Const("isgen", B)) if len(cs) == 1 and cs[0].__name__ == "generator" else NotImplemented
        case = e.choose(3)
        if case == 0:
            p = None
        elif case == 1:
            p = SymList.of_term(e.fresh("L", LST), "str")
        else:
            p = SVal(e.freshint("param"), "any")
        before = p.term() if case == 1 else None
        nonempty = case == 1 and bool(p)
        r = lo.ensure_list(p)
        if nonempty:
            e.prove("a list is used as it is", z3.And(z3.BoolVal(r is p), p.term() == before))
        elif case < 2:
            e.prove("nothing gives an empty list", r.term() == nil)
        else:
            it = z3.Or(z3.And(iterable(p.t), z3.Not(z3.Const("isstr", B))), z3.Const("isgen", B))
            if r is p:
                e.prove("an iterable is used as it is", z3.And(truthy(p.t), it))
            else:
                e.prove("nothing gives an empty list, a single object a list of it", z3.And(z3.Not(z3.And(truthy(p.t), it)), r.term() == z3.If(truthy(p.t), f_snoc(nil, p.t), nil)))
        done(e)
    return body


# ------------------------------------------------------------------ the steps of processing a match
def stub_lookup(e, pm):
    """get_first_defined over the keys of a match: proved above."""
    def keys(match, child=False):
        e.stubs_used.add("pattern.Pattern._match_config_property_keys")
        e.prove("the keys are those of the match", hasattr(match, "__dict__") and "_ref" in match.__dict__)
        k = Ns()
        k.name, k.child = rd(e, "name", ref(match)), child
        return k

    def first(data, ks, default=None):
        e.stubs_used.add("utils.get_first_defined")
        e.prove("the keys of the match are looked up", isinstance(ks, Ns))
        return SVal(cfg(e, data, encode(default), ks.name, ks.child), "any")
    pm.Pattern._match_config_property_keys = staticmethod(keys)
    pm.get_first_defined = first


def childflag(e):
    return bool(e.choose(2))


@task(["C08", "C20"], "pattern.Pattern._process_match_value", functions=["pattern.Pattern._process_match_value"])
def _pv(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        stub_lookup(e, pm)
        p, m, child = pattern(e, pm), a_match(e, vm), childflag(e)
        before, fz, h0 = dict(p.__dict__), frozen(p), snapshot(e)
        r = ref(m)
        v0 = rd(e, "_value", r)
        want = cfg(e, p.values, p._default_value.t, rd(e, "name", r), child)
        vm.Match.value = property(lambda s: _no("value read"), lambda s, v: setattr(s, "_value", v))
        e.stubs_used.add("match.Match.value")
        p._process_match_value(m, child)
        e.prove("the value configured for the match, if any; else unchanged", rd(e, "_value", r) == z3.If(truthy(want), want, v0), assume=False)
        frame(e, h0, r, ("_value",))
        untouched(e, p, before)
        same_options(e, fz)
        done(e)
    return body


@task(["C08", "C20"], "pattern.Pattern._process_match_formatter", functions=["pattern.Pattern._process_match_formatter", "pattern.Pattern._should_include_children", "pattern.Pattern._should_include_parent"])
def _pf(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        stub_lookup(e, pm)
        p, m, child = pattern(e, pm), a_match(e, vm), childflag(e)
        before, fz, h0 = dict(p.__dict__), frozen(p), snapshot(e)
        r = ref(m)
        f0 = rd(e, "formatter", r)
        want = cfg(e, p.formatters, p._default_formatter.t, rd(e, "name", r), child)
        on = z3.Or(included(p, child), truthy(p.format_all.t))
        p._process_match_formatter(m, child)
        e.prove("the formatter configured for the match, if it is returned or all are to be formatted", rd(e, "formatter", r) == z3.If(on, want, f0), assume=False)
        frame(e, h0, r, ("formatter",))
        untouched(e, p, before)
        same_options(e, fz)
        done(e)
    return body


def included(p, child):
    c, ev = truthy(p.children.t), truthy(p.every.t)
    return z3.Or(c, ev) if child else z3.Or(z3.Not(c), ev)


@task(["C08", "C20"], "pattern.Pattern._process_match_validator", functions=["pattern.Pattern._process_match_validator", "pattern.Pattern._should_include_children", "pattern.Pattern._should_include_parent"])
def _pval(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        stub_lookup(e, pm)
        p, m, child = pattern(e, pm), a_match(e, vm), childflag(e)
        before, fz, h0 = dict(p.__dict__), frozen(p), snapshot(e)
        r = ref(m)
        want = cfg(e, p.validators, p._default_validator.t, rd(e, "name", r), child)
        on = z3.Or(included(p, child), truthy(p.validate_all.t))
        e.calls.clear()
        ok = p._process_match_validator(m, child)
        e.prove("rejected exactly when the validator configured for it applies and rejects it", bterm(ok) == z3.Not(z3.And(on, truthy(want), z3.Not(truthy(f_app(want, r))))), assume=False)
        e.prove("the validator is called once at most", len(e.calls) <= 1)
        frame(e, h0, r, ())
        untouched(e, p, before)
        same_options(e, fz)
        done(e)
    return body


@task(["C08", "C20"], "pattern.Pattern._process_match_private", functions=["pattern.Pattern._process_match_private"])
def _ppr(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        p, m, child = pattern(e, pm), a_match(e, vm), childflag(e)
        before, fz, h0 = dict(p.__dict__), frozen(p), snapshot(e)
        r = ref(m)
        v0, nm = rd(e, "private", r), rd(e, "name", r)
        made = z3.Or(z3.And(nm != NONE, nm != 0, f_mem(nm, p.private_names.term())), truthy(p.private_children.t) if child else truthy(p.private_parent.t))
        p._process_match_private(m, child)
        e.prove("private exactly when it was, or its name, the parents or the children are made private", rd(e, "private", r) == z3.If(made, z3.IntVal(1), v0), assume=False)
        frame(e, h0, r, ("private",))
        untouched(e, p, before)
        same_options(e, fz)
        done(e)
    return body


@task(["C08", "C20"], "pattern.Pattern._process_match_index", functions=["pattern.Pattern._process_match_index"])
def _pix(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        p, m = pattern(e, pm), a_match(e, vm)
        h0 = snapshot(e)
        ix = SInt(e.freshint("index"))
        p._process_match_index(m, ix)
        e.prove("the match knows its index", rd(e, "match_index", ref(m)) == ix.t)
        frame(e, h0, ref(m), ("match_index",))
        done(e)
    return body


@task(["C08", "C20"], "pattern.Pattern._process_match", functions=["pattern.Pattern._process_match"])
def _pm(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        p, m, child = pattern(e, pm), a_match(e, vm), childflag(e)
        ix, ev, ans = SInt(e.freshint("index")), [], SVal(e.freshint("valid"), "any")

        def stub(n, r=None):
            def f(match, child=False):
                e.stubs_used.add("pattern.Pattern._process_match_" + n)
                ev.append((n, match is m, child))
                return r
            return f
        p.__dict__["_process_match_index"] = lambda match, i: (ev.append(("index", match is m and i is ix, None)), e.stubs_used.add("pattern.Pattern._process_match_index"))[0]
        for n in ("private", "value", "formatter"):
            p.__dict__["_process_match_" + n] = stub(n)
        p.__dict__["_process_match_validator"] = stub("validator", ans)
        before, fz = dict(p.__dict__), frozen(p)
        r = p._process_match(m, ix, child)
        untouched(e, p, before)
        same_options(e, fz)
        e.prove("index, privacy, value and formatter are set, each once", sorted(x[0] for x in ev[:-1]) == ["formatter", "index", "private", "value"])
        e.prove("then the match is validated", ev[-1][0] == "validator")
        e.prove("each for this match", all(x[1] for x in ev) and all(x[2] in (None, child) for x in ev))
        e.prove("the answer is that of the validation", r is ans)
        done(e)
    return body


@task("C08", "pattern.Pattern._process_match_processor", functions=["pattern.Pattern._process_match_processor"])
def _pp(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        m = a_match(e, vm)
        f = SVal(e.freshint("processor"), "any")
        r = pm.Pattern._process_match_processor(m, f)
        out = f_app(f.t, ref(m))
        e.prove("what the processor gives, if there is one and it gives something; else the match", encode(r) == z3.If(z3.And(truthy(f.t), out != NONE), out, ref(m)))
        done(e)
    return body


# ------------------------------------------------------------------ dispatch
f_kids = z3.Function("children_of", I, LST)


def loop_inv(S):
    e = E_()
    j = z3.Int("cv!")
    K = f_kids(e.cur_match)
    return [("children before are accepted", T.ax([j], z3.Implies(z3.And(0 <= j, j < S.i), VERDICT(f_at(K, j), z3.BoolVal(True))), f_at(K, j))),
            ("children before are processed", T.ax([j], z3.Implies(z3.And(0 <= j, j < S.i), z3.Select(e.field("processed"), f_at(K, j)) == 1), f_at(K, j))),
            ("children from here on are not", T.ax([j], z3.Implies(z3.And(S.i <= j, j < f_len(K)), z3.Select(e.field("processed"), f_at(K, j)) == 0), f_at(K, j))),
            ("the parent is processed", z3.Select(e.field("processed"), e.cur_match) == 1)]


@task(["C08", "C20"], "pattern.Pattern._process_matches", functions=["pattern.Pattern._process_matches", "pattern.Pattern._should_include_children", "pattern.Pattern._should_include_parent"],
      hints={"pattern.Pattern._process_matches#0": dict(inv=loop_inv, types={"child": "ref"}, frame=("processed",))})
def _pms(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        p, m0 = pattern(e, pm), a_match(e, vm)
        before, fz = dict(p.__dict__), frozen(p)
        e.assume(f_dist(f_kids(ref(m0))))
        ix = SInt(e.freshint("index"))
        pre, post = [SVal(e.freshint(n), "any") for n in ("pre", "post")]
        m1, m2 = mkmaybe(e, vm, "pre"), mkmaybe(e, vm, "post")
        L1, L2 = len_of(e, m1), len_of(e, m2)
        e.field("processed")
        ev = []
        p.__dict__["pre_match_processor"], p.__dict__["post_match_processor"] = pre, post

        def processor(match, f):
            e.stubs_used.add("pattern.Pattern._process_match_processor")
            ev.append((f, match))
            if f is pre:
                e.prove("the first processor gets the match found", match is m0)
                return m1
            e.prove("the last processor gets the match processed", z3.And(z3.BoolVal(f is post), ref(match) == ref(m1)))
            return m2
        p.__dict__["_process_match_processor"] = processor
        e.cur_match = ref(m1)
        e.assume(z3.And(f_dist(f_kids(ref(m1))), z3.Not(f_mem(ref(m1), f_kids(ref(m1))))))

        def process(match, i, child=False):
            e.stubs_used.add("pattern.Pattern._process_match")
            r = ref(match)
            e.prove("processed with the index of the match", i is ix)
            e.prove("the parent as a parent, a child as a child", z3.If(r == ref(m1), z3.BoolVal(not bool(child)), z3.BoolVal(bool(child))))
            e.prove("each is processed once", z3.Select(e.field("processed"), r) == 0)
            e.write("processed", r, z3.IntVal(1))
            return SBool(VERDICT(r, z3.BoolVal(bool(child))))
        p.__dict__["_process_match"] = process
        x = z3.Int("px!")
        e.assume(T.ax([x], z3.Select(e.field("processed"), x) == 0, z3.Select(e.field("processed"), x)))
        vm.Match.children = property(lambda s: kids(e, s), lambda s, v: _no("children assigned"))
        vm.Match.__len__ = lambda s: SInt(rd(e, "end", ref(s)) - rd(e, "start", ref(s)))
        vm.Match.__bool__ = lambda s: e.fork(rd(e, "end", ref(s)) > rd(e, "start", ref(s)))
        before = dict(p.__dict__)
        out = p._process_matches(m0, ix)
        t = out_term(out)
        untouched(e, p, before)
        K = f_kids(ref(m1))
        j = e.freshint("j")
        ign = p.ignore_names.term()
        alive1, alive2 = (rd(e, "end", ref(q)) > rd(e, "start", ref(q)) for q in (m1, m2))
        parent = z3.And(z3.Or(included(p, False), truthy(p.private_parent.t)), z3.Not(f_mem(rd(e, "name", ref(m2)), ign)))
        kids_on = z3.Or(included(p, True), truthy(p.private_children.t))
        K2 = f_kids(ref(m2))
        kept = flt(e, K2, lambda c: z3.Not(f_mem(rd(e, "name", c), ign)))
        answer = f_cat(z3.If(parent, f_snoc(nil, ref(m2)), nil), z3.If(kids_on, kept, nil))
        ok1 = VERDICT(ref(m1), z3.BoolVal(False))
        bad = flt(e, K, lambda c: z3.Not(VERDICT(c, z3.BoolVal(True)))) != nil
        e.prove("nothing when the match or one of its children is rejected, or a processor drops it; else the parent if wanted, then the children wanted, without ignored names",
                t == z3.If(z3.And(alive1, ok1, z3.Not(bad), alive2), answer, nil), assume=False)
        y = e.freshint("y")
        e.prove("every match returned by the first processor and its children are processed, unless one before is rejected",
                z3.Implies(z3.And(alive1, ok1, z3.Not(bad)), z3.And(z3.Select(e.field("processed"), ref(m1)) == 1, z3.Implies(z3.And(0 <= j, j < f_len(K)), z3.Select(e.field("processed"), f_at(K, j)) == 1))), assume=False)
        same_options(e, fz)
        done(e)
    return body


def kids(e, s):
    return SymList.of_term(f_kids(ref(s)), "ref")


def mkmaybe(e, vm, n):
    return a_match(e, vm, n)


def len_of(e, m):
    return rd(e, "end", ref(m)) - rd(e, "start", ref(m))


def out_term(r):
    if isinstance(r, SymList):
        return r.term()
    it = iterate(r)
    if isinstance(it, SymIter):
        return it.lst
    t = nil
    for v in it:
        t = f_snoc(t, encode(v))
    return t


f_rawm = z3.Function("raw_matches", I, I, LST)          # of one pattern, in one text
f_proc = z3.Function("processed_matches", I, I, LST)     # match, index


f_seq = z3.Function("processed_run", LST, I, LST)       # the first n matches of a list, processed with their index


def all_raw(e, P):
    x = e.freshint("px")
    return e.comps.make(x, f_rawm(x, e.text), P)


def all_proc(e, P):
    x = e.freshint("px")
    return e.comps.make(x, f_seq(f_rawm(x, e.text), f_len(f_rawm(x, e.text))), P)


def outer_defs(S):
    e = E_()
    return [("raw matches of the patterns before", S.v("raw_matches"), all_raw(e, S.done)), ("matches of the patterns before", S.v("matches"), all_proc(e, S.done))]


def inner_defs(S):
    e = E_()
    t0 = S.entry["terms"]
    return [("raw matches before", S.v("raw_matches"), f_cat(t0["raw_matches"], S.done)), ("matches processed before", S.v("matches"), f_cat(t0["matches"], f_seq(S.lst, S.i)))]


@task(["C08", "C20"], "pattern.Pattern.matches", functions=["pattern.Pattern.matches"],
      hints={"pattern.Pattern.matches#0": dict(defs=outer_defs), "pattern.Pattern.matches#1": dict(defs=inner_defs)})
def _ms(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        p = pattern(e, pm)
        pats = SymList.of_term(e.fresh("patterns", LST), "any")
        text, cx = SVal(e.freshint("text"), "str"), SVal(e.freshint("context"), "any")
        type(p).patterns = property(lambda s: pats)
        p.__dict__["_match"] = lambda q, s, c: (e.prove("each pattern is searched in the text, with the context", bool(s is text and c is cx)), e.stubs_used.add("pattern.StringPattern._match"), SymList.of_term(f_rawm(encode(q), text.t), "ref"))[2]
        p.__dict__["_process_matches"] = lambda m, i: (e.stubs_used.add("pattern.Pattern._process_matches"), SymList.of_term(f_proc(ref(m), SInt.lift(i)), "ref"))[1]
        last = []

        def post(ms):
            e.stubs_used.add("pattern.Pattern._post_process_matches")
            last.append(ms.term())
            return ms
        p.__dict__["_post_process_matches"] = post
        raw = bool(e.choose(2))
        e.text = text.t
        L = z3.Const("Lq!", LST)
        i = z3.Int("sq!")
        e.assume(z3.ForAll([L], f_seq(L, 0) == nil, patterns=[f_seq(L, 0)]))
        e.assume(z3.ForAll([L, i], z3.Implies(i >= 0, f_seq(L, i + 1) == f_cat(f_seq(L, i), f_proc(f_at(L, i), i))), patterns=[f_seq(L, i + 1)]))
        before, fz, p0 = dict(p.__dict__), frozen(p), pats.term()
        r = p.matches(text, cx, with_raw_matches=raw)
        ms = r[0] if raw else r
        untouched(e, p, before)
        same_options(e, fz)
        e.prove("the expressions of the pattern are not modified", pats.term() == p0)
        P = pats.term()
        if raw:
            e.prove("the raw matches are those of every pattern, in order", r[1].term() == all_raw(e, P), assume=False)
        want = all_proc(e, P)
        e.prove("what is found is every raw match processed with its index, in order, then post processed", z3.And(ms.term() == want, last[0] == want), assume=False)
        done(e)
    return body


@task(["C08", "C20"], "pattern.Pattern._post_process_matches", functions=["pattern.Pattern._post_process_matches"])
def _ppm(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        p = pattern(e, pm)
        ms = SymList.of_term(e.fresh("matches", LST), "ref")
        t0 = ms.term()
        f = p.post_processor
        got = []
        ans = object()
        e.call_hook = lambda g, a, k: (got.append((g, a, k)), ans)[1]
        before, fz = dict(p.__dict__), frozen(p)
        r = p._post_process_matches(ms)
        untouched(e, p, before)
        same_options(e, fz)
        if got:
            e.prove("the post processor is asked once, with the matches and the pattern", bool(len(got) == 1 and got[0][0] is f and got[0][1][0] is ms and got[0][1][1] is p and len(got[0][1]) == 2 and not got[0][2]))
            e.prove("its answer is the answer", r is ans)
            e.prove("asked only when there is one", truthy(f.t))
        else:
            e.prove("else the matches as they are", z3.And(z3.Not(truthy(f.t)), z3.BoolVal(r is ms), ms.term() == t0))
        done(e)
    return body


@task(["C08", "C20", "C06"], "pattern.filter_match_kwargs", functions=["pattern.filter_match_kwargs"])
def _fmk(e, ctx):
    pm = ctx.pattern

    def body():
        e.feas_ms = 40
        d = GDict.fresh("str", "any", "kwargs")
        k0, v0 = d.kterm(), d.arr()
        children = bool(e.choose(2))
        r = pm.filter_match_kwargs(d, children) if children else pm.filter_match_kwargs(d)
        drop = [e.code_of_str(s) for s in ("pattern", "start", "end", "parent", "formatter", "value") + (("name",) if children else ())]
        x = e.freshint("k")
        e.prove("exactly the options not set by the search itself", r.has(x) == z3.And(f_mem(x, k0), *[x != c for c in drop]), assume=False)
        e.prove("with their values", z3.Implies(r.has(x), r.at(x) == z3.Select(v0, x)), assume=False)
        e.prove("the options given are not modified, the result is another dictionary", z3.And(z3.BoolVal(r is not d), d.kterm() == k0, d.arr() == v0))
        done(e)
    return body


@task(["C08", "C20", "C14"], "pattern.Pattern.__init__", functions=["pattern.Pattern.__init__", "pattern._callable_or_none"])
def _pinit(e, ctx):
    vm, pm = setup(e, ctx)

    def body():
        p = object.__new__(pm.StringPattern)
        a = {}
        for n in ("name", "formatter", "value", "validator", "children", "every", "private_parent", "private_children", "private", "marker", "format_all", "validate_all",
                  "log_level", "properties", "post_processor", "pre_match_processor", "post_match_processor", "disabled", "tags"):
            a[n] = SVal(e.freshint(n), "any")
        for n in ("private_names", "ignore_names"):
            a[n] = SymList.of_term(e.fresh(n, LST), "str")
        e.hasattr_hook = lambda x, n: NotImplemented
        tl = object()
        dd = {}

        def ensure_dict(v, dflt):
            e.stubs_used.add("loose.ensure_dict")
            for n in ("formatter", "value", "validator"):
                if v is a[n]:
                    dd[n] = ({n: 1}, object(), dflt)
                    return dd[n][:2]
            e.prove("only formatter, value and validator are configurations", False)

        def ensure_list(v):
            e.stubs_used.add("loose.ensure_list")
            e.prove("the tags are a list", v is a["tags"])
            return tl
        pm.ensure_dict, pm.ensure_list = ensure_dict, ensure_list
        pm.debug.defined_at = lambda: None
        pm.Pattern.__init__(p, **a, other=object())
        d = p.__dict__
        e.prove("the options are kept as given", all(d[n] is a[n] for n in ("name", "children", "every", "private_parent", "private_children", "private", "marker", "format_all", "validate_all")))
        e.prove("configurations: values", bool(d["values"] is dd["value"][0] and d["_default_value"] is dd["value"][1] and dd["value"][2] is None))
        e.prove("configurations: formatters, else the text itself", bool(d["formatters"] is dd["formatter"][0] and d["_default_formatter"] is dd["formatter"][1] and dd["formatter"][2] is pm.default_formatter))
        e.prove("configurations: validators, else accepting", bool(d["validators"] is dd["validator"][0] and d["_default_validator"] is dd["validator"][1] and dd["validator"][2] is pm.allways_true))
        e.prove("tags", d["tags"] is tl)
        for n in ("private_names", "ignore_names"):
            e.prove("%s: the names given" % n, d[n].term() == a[n].term())
        iscall = lambda v: bterm(pv.b_callable(v))
        for n in ("post_processor", "pre_match_processor", "post_match_processor"):
            e.prove("%s: kept when it is callable" % n, encode(d[n]) == z3.If(iscall(a[n]), a[n].t, NONE))
        dis = a["disabled"]
        if d["disabled"] is dis:
            e.prove("disabled: a function is asked", iscall(dis))
        else:
            e.prove("disabled: else the flag is the answer", z3.And(z3.Not(iscall(dis)), z3.BoolVal(d["disabled"](object()) is dis)))
        done(e)
    return body


class Given:
    """A pattern that defines a match."""
    defined_at = "there"


@task(["C08", "C20", "C18"], "match.Match.__init__", functions=["match.Match.__init__", "match.Match.children"])
def _minit(e, ctx):
    vm = ctx.match

    def body():
        m = object.__new__(vm.Match)
        a, b = SInt(e.freshint("start")), SInt(e.freshint("end"))
        o = {n: SVal(e.freshint(n), "any") for n in ("value", "name", "marker", "parent", "private", "formatter", "conflict_solver")}
        o["input_string"] = SVal(e.freshint("text"), "str")
        o["tags"] = SVal(e.freshint("tags"), "any")
        o["pattern"] = None if e.choose(2) else Given()
        L = SymList.of_term(e.fresh("tags", LST), "str")
        t0 = L.term()

        def ensure_list(v):
            e.stubs_used.add("loose.ensure_list")
            e.prove("the tags are those given", v is o["tags"])
            return L
        vm.ensure_list = ensure_list
        vm.defined_at = lambda: None
        vm.Match.__init__(m, a, b, **o, something_else=object())
        d = m.__dict__
        e.prove("the span is the one given", bool(d["start"] is a and d["end"] is b))
        e.prove("the options are those given", all(d["_value" if n == "value" else n] is o[n] for n in o if n != "tags"))
        e.prove("the tags are a list of its own, with the tags given", z3.And(z3.BoolVal(d["tags"] is not L), d["tags"].term() == t0, L.term() == t0))
        e.prove("no child yet, no raw bounds", all(d[n] is None for n in ("_children", "_raw_start", "_raw_end")))
        made = []

        class Coll:
            def __init__(self, *a, **k):
                made.append((self, a, k))
        vm.Matches = Coll
        c = m.children
        e.prove("its children are a collection of its own, empty, of the same text", len(made) == 1 and c is made[0][0] and made[0][1] == (None, o["input_string"]) and not made[0][2])
        e.prove("and stay that collection", m.children is c and len(made) == 1)
        done(e)
    return body


# ------------------------------------------------------------------ helpers (C20)
@task("C20", "validators.chars_before, chars_after, chars_surround", functions=["validators.chars_before", "validators.chars_after", "validators.chars_surround"])
def _chars(e, ctx):
    vm, pm = setup(e, ctx)
    va = ctx.validators

    class Chars:
        def __init__(self):
            self.f = z3.Function("allowed", I, B)

        def _vc_has(self, x):
            return self.f(encode(x))

    def body():
        m, chars = a_match(e, vm), Chars()
        r = ref(m)
        st, en, text = rd(e, "start", r), rd(e, "end", r), rd(e, "input_string", r)
        e.assume(z3.And(text != NONE, text >= 0, 0 <= st, st <= en, en <= T.f_slen(text)))
        h0 = snapshot(e)
        n = T.f_slen(text)
        before = z3.Or(st == 0, chars.f(T.f_schar(text, st - 1)))
        after = z3.Or(en == n, chars.f(T.f_schar(text, en)))
        e.prove("before: at the start of the text or after an allowed character", bterm(va.chars_before(chars, m)) == before, assume=False)
        e.prove("after: at the end of the text or before an allowed character", bterm(va.chars_after(chars, m)) == after, assume=False)
        e.prove("surround: both", bterm(va.chars_surround(chars, m)) == z3.And(before, after), assume=False)
        frame(e, h0, r, ())
        done(e)
    return body


@task("C20", "validators.validators, allways_true", functions=["validators.validators", "validators.allways_true"])
def _vals(e, ctx):
    vm, pm = setup(e, ctx)
    va = ctx.validators

    def body():
        m = a_match(e, vm)
        V = SymList.of_term(e.fresh("validators", LST), "any")
        chain = va.validators__va(V)
        r = chain(m)
        bad = flt(e, V.term(), lambda x: z3.Not(truthy(f_app(x, ref(m))))) != nil
        e.prove("a chain of validators accepts exactly when all accept", bterm(r) == z3.Not(bad), assume=False)
        e.prove("always true", va.allways_true(m) is True)
        done(e)
    return body


f_chain = z3.Function("apply_all", LST, I, I)


@task("C20", "formatters.formatters, default_formatter", functions=["formatters.formatters", "formatters.default_formatter"],
      hints={"formatters.formatters__va.formatters_chain#0": dict(inv=lambda S: [("those before are applied", encode(S.v("input_string")) == f_chain(f_take(E_().chainL, S.i), E_().chainx))], types={"input_string": "any"})})
def _fmts(e, ctx):
    vm, pm = setup(e, ctx)
    fo = ctx.formatters

    def body():
        x = SVal(e.freshint("x"), "any")
        V = SymList.of_term(e.fresh("formatters", LST), "any")
        e.chainL, e.chainx = V.term(), x.t
        L, f, v = z3.Const("L!", LST), z3.Int("f!"), z3.Int("v!")
        # definition of applying a list of functions from left to right
        e.assume(f_chain(nil, x.t) == x.t)
        e.assume(z3.ForAll([L, f, v], f_chain(f_snoc(L, f), v) == f_app(f, f_chain(L, v)), patterns=[f_chain(f_snoc(L, f), v)]))
        r = fo.formatters__va(V)(x)
        e.prove("a chain of formatters applies them from left to right", encode(r) == f_chain(V.term(), x.t), assume=False)
        e.prove("the default formatter changes nothing", fo.default_formatter(x) is x)
        done(e)
    return body
