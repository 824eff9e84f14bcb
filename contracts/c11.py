"""C11: the result holds no private match, every public one, and markers stay apart."""
from .base import *
from .coll import *
from pyvc.engine import Engine
from pyvc.values import f_app

f_found = z3.Function("found", I, I, I, LST)      # pattern, text, context -> matches returned by it
f_pdis = z3.Function("pattern_disabled", I, I, B)
f_plog = z3.Function("pattern_log", I, I)


def E_():
    return Engine.cur


def private(e, x):
    p = sel(e, "private", x)
    return z3.And(p != NONE, T.f_truthy(p))


def public_of(e, L):
    return flt(e, L, lambda x: z3.Not(private(e, x)))


@task(["C11", "C20"], "processors.PrivateRemover.when", functions=["processors.PrivateRemover.when"])
def _pr(e, ctx):
    vm = load_match(e, ctx)
    p = ctx.processors
    abstract(e, vm)

    def body():
        M, L = abs_coll(e, vm)
        r = object.__new__(p.PrivateRemover)
        h0 = dict(e.heap)
        R = r.when(M, {})
        e.prove("the rule is not changed", not r.__dict__)
        e.prove("the condition: exactly the private matches", isinstance(R, SymList) and R.term() == flt(e, L, lambda x: private(e, x)))
        e.prove("the condition changes nothing", z3.And(content(M) == L, lk(M).term() == L))
        e.prove("the condition hands out no internal list", R is not M.__dict__["_delegate"])
        e.stubs_used.update(["rules.RemoveMatch.then", "rules.Rule.then"])
        e.prove("the rule removes what the condition answers", p.PrivateRemover.consequence is ctx.rules.RemoveMatch)
        # with the contract of the consequence (rules.RemoveMatch.then): what is left
        x = e.freshint("x")
        left = flt(e, L, lambda x: z3.Not(f_mem(x, R.term())))
        e.prove("what is left: exactly the public matches, in order", left == public_of(e, L), assume=False)
        e.prove("what is left holds no private match", z3.Implies(f_mem(x, left), z3.Not(private(e, x))), assume=False)
        done(e)
    return body


@task("C11", "rebulk.Rebulk.__init__ default rules", functions=["rebulk.Rebulk.__init__", "rebulk.Rebulk.rules"])
def _defrules(e, ctx):
    r = ctx.rebulk
    p = ctx.processors

    def body():
        got = []
        r.Rules.load = lambda self, *rules: got.append(list(rules))
        e.stubs_used.add("rules.Rules.load")
        b = r.Rebulk()
        e.prove("default rules: conflict resolution and private removal are installed", {x for g in got for x in g} == {p.ConflictSolver, p.PrivateRemover})
        del got[:]
        r.Rebulk(default_rules=False)
        e.prove("without default rules: none is installed", not any(got))
        e.prove("conflict resolution runs before rules of ordinary priority, private removal after", bool(p.ConflictSolver.priority == 2048 and p.PrivateRemover.priority == -2048))
        e.prove("a rebulk has patterns, rules and children of its own", b._patterns is not r.Rebulk()._patterns and b._rules is not r.Rebulk()._rules and b._rebulks is not r.Rebulk()._rebulks)
        done(e)
    return body


class Pat:
    """An arbitrary pattern, by the contract of its search: a list of matches made by that search."""
    _vc_kind = "pat"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    def disabled(self, context):
        e = E_()
        e.prove("the context given reaches the disabling function of the pattern", z3.BoolVal(context is e.given_context))
        return SBool(f_pdis(self.code, encode(context)))

    def matches(self, string, context=None, with_raw_matches=False):
        e = E_()
        e.prove("the pattern searches the input text, with the context given", z3.And(encode(string) == e.text, z3.BoolVal(context is e.given_context)))
        e.prove("only an enabled pattern is searched", z3.Not(f_pdis(self.code, encode(context))))
        return SymList.of_term(f_found(self.code, e.text, encode(context)), "ref")

    @property
    def log_level(self):
        return SInt(f_plog(self.code))


def simple_append(e, vm):
    """append by its contract: at the end; refused in the wrong collection (proved in C01)."""
    def append(self, m):
        e.stubs_used.add("match._BaseMatches.append")
        r = ref(m)
        mk = is_marker(e, r)
        if not e.fork(mk if type(self).__name__ == "Markers" else z3.Not(mk)):
            raise prog(AssertionError("wrong collection"))
        d = self.__dict__["_delegate"]
        d.set_term(f_snoc(d.term(), r), "ref")
    vm._BaseMatches.append = append


@task(["C11", "C17", "C20"], "rebulk.Rebulk._matches_patterns", functions=["rebulk.Rebulk._matches_patterns"])
def _mp(e, ctx):
    vm = load_match(e, ctx)
    rb = ctx.rebulk
    e.decoders["pat"] = Pat
    simple_append(e, vm)
    e.assumptions.add("patterns do not touch the collections while they search")

    def body():
        M, L0 = abs_coll(e, vm)
        K, K0 = abs_coll(e, vm, cls="Markers", name="K")
        M.__dict__["markers"] = K
        text = M.__dict__["input_string"]
        e.text = text.t
        ctxo = e.given_context = object()
        PS = e.fresh("patterns", LST)
        r = object.__new__(rb.Rebulk)
        off = e.fresh("off", B)

        def disabled(c):
            e.prove("the context given reaches the disabling function of the rebulk", z3.BoolVal(c is ctxo))
            return SBool(off)
        r.__dict__["disabled"] = disabled

        def eff(self, context=None):
            e.stubs_used.add("rebulk.Rebulk.effective_patterns")
            e.prove("the context given reaches the choice of patterns", z3.BoolVal(context is ctxo))
            return SymList.of_term(PS, "pat")
        rb.Rebulk.effective_patterns = eff
        h0 = dict(e.heap)
        before = dict(r.__dict__)
        r._matches_patterns(M, ctxo)
        e.prove("the rebulk is not changed", same_attributes(r, before))
        c = encode(ctxo)

        def part(want):
            x = e.freshint("px")
            found = f_found(x, e.text, c)
            keep = flt(e, found, (lambda y: is_marker(e, y)) if want else (lambda y: z3.Not(is_marker(e, y))))
            return nil if e.fork(off) else e.comps.make(x, z3.If(f_pdis(x, c), nil, keep), PS)
        e.prove("matches: what every enabled pattern found and is no marker, once, in order", content(M) == f_cat(L0, part(False)), assume=False)
        e.prove("markers: what every enabled pattern found and is a marker, once, in order", content(K) == f_cat(K0, part(True)), assume=False)
        e.prove("no match is changed", all(e.heap[n].eq(h0.get(n, z3.Const("F_" + n, e.heap[n].sort()))) for n in e.heap))
        done(e)
    return body


@task(["C11", "C16", "C17", "C20"], "rebulk.Rebulk.matches", functions=["rebulk.Rebulk.matches"])
def _m(e, ctx):
    rb = ctx.rebulk

    def body():
        e.assumptions.add("a context given is used as it is")
        trace = []
        r = object.__new__(rb.Rebulk)
        given = [None, {}, {"a": 1}, SymDict()][e.choose(4)]
        off = bool(e.choose(2))
        chk = bool(e.choose(2))
        rb.debug.CHECK_DECLARED_KEYS = chk
        keys = SymDict()

        def rec(name, ret=None):
            def f(self, *a, **k):
                trace.append((name, self) + a)
                return ret
            return f
        r.__dict__["disabled"] = lambda c: (trace.append(("disabled", None, c)), off)[1]
        C = rb.Rebulk
        C.effective_keys = rec("keys", keys)
        C._matches_patterns = rec("patterns")
        C._execute_rules = rec("rules")
        rb.Matches.check_declared_keys = rec("check")
        e.stubs_used.update(["rebulk.Rebulk.effective_keys", "rebulk.Rebulk._matches_patterns", "rebulk.Rebulk._execute_rules", "match._BaseMatches.check_declared_keys"])
        text = SVal(e.freshint("text"), "str")
        before = dict(r.__dict__)
        M = r.matches(text, given) if given is not None or e.choose(2) else r.matches(text)
        e.prove("the rebulk is not changed", same_attributes(r, before))
        steps = [t for t in trace if t[0] != "disabled"]
        want = ([] if off else ["keys"]) + ["patterns"] + (["check"] if chk else []) + ["rules"]
        e.prove("patterns are searched, then types are checked when asked, then rules run, each once", [t[0] for t in steps] == want)
        if [t[0] for t in steps] != want:
            done(e)
            return
        ps = next(t for t in steps if t[0] == "patterns")
        rs = next(t for t in steps if t[0] == "rules")
        c = ps[3]
        e.prove("the result is the collection the patterns and the rules worked on", ps[2] is M and rs[2] is M)
        e.prove("the rules get the context of the patterns", rs[3] is c)
        e.prove("the context is the one given", c is given if given is not None else isinstance(c, (dict, SymDict)) and len(c) == 0)
        e.prove("everything else gets that context", all(t[2] is c for t in trace if t[0] in ("disabled", "keys")))
        e.prove("the check is made on the result", all(t[1] is M for t in steps if t[0] == "check"))
        e.prove("the collection is new, empty, and of that text", type(M).__name__ == "Matches" and M.input_string is text and bool(len(M._delegate) == 0) and bool(len(M.markers._delegate) == 0))
        e.prove("declared keys: those in effect, none when disabled", M.declared_keys is keys if not off else len(M.declared_keys) == 0)
        e.prove("markers: a collection of their own", M.markers is not M and type(M.markers).__name__ == "Markers")
        done(e)
    return body
