"""C04: chained neighbours stop exactly at the first gap."""
from .base import *
from .coll import *
from pyvc.values import f_charin
from .c02 import text_end


def chain(direction):
    name = "chain_" + direction

    def setup(v, pos_kind, with_pred):
        @task("C04", "match._BaseMatches.%s [%s, %s, %s]" % (name, v, pos_kind, "predicate" if with_pred else "no predicate"), functions=["match._BaseMatches." + name])
        def t(e, ctx):
            vm = load_match(e, ctx)
            abstract(e, vm)
            eq_is_identity(e, vm)
            contract_filter_index(e, vm)
            contract_lookups(e, vm)

            def body():
                M, L = abs_coll(e, vm)
                text = M.__dict__["input_string"].t
                e.assume(text != NONE)
                me = text_end(e, M, L)
                e.assumptions.add("matches lie within the text of their collection, bounds are not negative")
                e.assume(maxend(e, L) <= T.f_slen(text))
                seps = SVal(e.freshint("seps"), "str")
                e.assume(seps.t >= 0)
                fn = SFn(e.freshint("pred")) if with_pred else None
                if pos_kind == "match":
                    m = new_match(e, vm)
                    pos, p = m, sel(e, "start" if direction == "before" else "end", ref(m))
                else:
                    p = e.freshint("pos")
                    pos = SInt(p)
                e.assume(p >= 0)
                bound = e.freshint("bound")
                e.assume(bound >= 0)
                none = direction == "after" and e.choose(2) == 0
                ix = Arg("index") if v == "select" else None
                kw = {} if none else {"start" if direction == "before" else "end": SInt(bound)}
                if with_pred:
                    kw["predicate"] = fn
                if ix is not None:
                    kw["index"] = ix
                r = getattr(M, name)(pos, seps, **kw)
                acc = predterm(e, fn) if with_pred else (lambda x: z3.BoolVal(True))
                if isinstance(r, Selection) and (v == "select" or with_pred):
                    e.prove("%s: the index selects from the chain" % name, r.index is ix and (r.predicate is None or r.predicate is fn and with_pred))
                    got = r.term
                    if r.predicate is fn and with_pred:
                        e.prove("%s: every match of the chain is accepted by the predicate" % name, flt(e, got, acc) == got)
                elif isinstance(r, SymList) and v == "all":
                    e.prove("%s: the list handed back is not an internal one" % name, r._slot is None and r is not M.__dict__["_delegate"])
                    got = r.term()
                else:
                    e.fail("%s: answers the chain" % name, type(r).__name__)
                    raise PathEnd()
                if direction == "before":
                    lo, hi = bound, z3.If(me < p, me, p)
                else:
                    lo, hi = p, me if none else z3.If(me < bound, me, bound)

                def accepted(i):
                    kk = e.freshint("kk")
                    t = flt(e, L, lambda x: z3.And(spec(e, "index", kk)(x), acc(x)))
                    return z3.substitute(t, (kk, i))

                def stop(i):
                    return z3.And(accepted(i) == nil, z3.Not(f_charin(T.f_schar(text, i), seps.t)))
                # g: the first index (in walking order) that stops the chain, or the end of the walk
                g, y, k = e.freshint("g"), z3.Int("gy!"), e.freshint("i")
                if direction == "before":
                    e.assume(z3.And(lo - 1 <= g, g < z3.If(hi > lo, hi, lo)))
                    free = z3.And(g < y, y < hi)
                    e.assume(z3.Or(z3.And(g == lo - 1), stop(g)))
                    walked = T.f_rev(T.f_rng(g + 1, hi))
                else:
                    e.assume(z3.And(lo <= g, g <= z3.If(hi > lo, hi, lo)))
                    free = z3.And(lo <= y, y < g)
                    e.assume(z3.Or(z3.And(g == z3.If(hi > lo, hi, lo)), stop(g)))
                    walked = T.f_rng(lo, g)
                sy = stop(y)
                pats = [c for c in _lists(sy)]
                e.assume(z3.ForAll([y], z3.Implies(free, z3.Not(sy)), patterns=pats[:2]))
                i = e.freshint("i")
                want = T.f_uni(nil, e.comps.make(i, accepted(i), walked))
                for q in apps(got, "rng"):
                    e.hint(z3.And(q.arg(0) == g + 1, q.arg(1) == hi) if direction == "before" else z3.And(q.arg(0) == lo, q.arg(1) == g))
                e.prove("%s: exactly the accepted matches reached before the first gap, in order, each once" % name, got == want, assume=False)
                e.prove("%s: each once" % name, f_dist(got), assume=False)
                x = e.freshint("x")
                s, n = sel(e, "start", x), sel(e, "end", x)
                e.prove("%s: only accepted matches of the collection" % name, z3.Implies(f_mem(x, got), z3.And(f_mem(x, L), acc(x))), assume=False)
                e.prove("%s: none wholly beyond the bounds" % name, z3.Implies(f_mem(x, got), z3.And(n > lo, s < hi)), assume=False)
                e.prove("%s: collection unchanged" % name, z3.And(content(M) == L, lk(M).term() == L))
                done(e)
            return body
    for v in ("all", "select"):
        for pk in ("int", "match"):
            for wp in (False, True):
                setup(v, pk, wp)


def apps(t, name, out=None):
    """Applications of a function in a term."""
    out = [] if out is None else out
    if z3.is_app(t):
        if t.decl().name() == name and not any(t.eq(o) for o in out):
            out.append(t)
        for c in t.children():
            apps(c, name, out)
    return out


def _lists(t):
    from pyvc.loops import lists_over
    return lists_over(t, z3.Int("gy!"))


chain("after")
chain("before")
