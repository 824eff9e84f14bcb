"""Facets of the rule properties C10-C13."""
from base import facet, same, show, snap
from rebulk import Rebulk
from rebulk.match import Match, Matches
from rebulk.processors import ConflictSolver, PrivateRemover, DEFAULT
from rebulk.rules import (AppendMatch, AppendTags, Consequence, CustomRule, RemoveMatch, RemoveTags, RenameMatch, Rule, Rules)
from p_matches import genpool, lookups, mkpool


def named_by(solver, owner, other):
    if solver == "self":
        return owner
    if solver == "other":
        return other
    if solver == "none":
        return None
    if solver == "default":
        return DEFAULT
    if solver == "later":
        return owner if owner.start > other.start else other
    if solver == "shorter-or-default":
        return DEFAULT if len(owner) == len(other) else (owner if len(owner) < len(other) else other)
    raise ValueError(solver)


SOLVERS = [None, None, None, None, "self", "other", "none", "default", "later", "shorter-or-default"]


@facet("C10", "solver", 2)
class _:
    @staticmethod
    def gen(rng):
        return dict(ms=[dict(s=rng.randint(0, 7), l=rng.randint(1, 5), cs=rng.choice(SOLVERS), p=rng.random() < .2, par=rng.choice([0, 0, 0, 3, 6])) for _ in range(rng.randint(0, 6))],
                    mk=[dict(s=rng.randint(0, 5), l=4) for _ in range(rng.choice([0, 0, 1]))], how=rng.choice(["rules", "rebulk"]))

    @staticmethod
    def check(case):
        text = "abcdefghijklmnop"
        ms, calls = [], []
        par = {}
        for n, p in enumerate(case["ms"]):
            cs = p["cs"]
            solver = None
            if cs:
                def solver(a, b, cs=cs):
                    calls.append((a, b))
                    return named_by(cs, a, b)
            ini = None
            if p["par"]:
                ini = Match(0, p["par"] + n % 2, value="par%d" % n)
            ms.append(Match(p["s"], p["s"] + p["l"], value="v%d" % n, name="n%d" % n, private=p["p"], conflict_solver=solver, parent=ini, input_string=text))
        spec = {id(m): p for m, p in zip(ms, case["ms"])}
        c = Matches(list(ms), input_string=text)
        marks = [Match(k["s"], k["s"] + k["l"], marker=True, input_string=text) for k in case["mk"]]
        c.markers.extend(marks)
        before = [snap(m) for m in ms]
        if case["how"] == "rules":
            Rules(ConflictSolver).execute_all_rules(c, {})
        else:
            def find(string):
                return []
            rb = Rebulk().functional(find)
            rb.effective_rules().execute_all_rules(c, {})
        left = list(c)
        if [snap(m) for m in ms] != before:
            return "conflict resolution changed a match"
        if case["how"] == "rebulk" and any(m.private for m in left):
            return "private match left after the default rules"
        gone = [m for m in ms if not any(m is x for x in left) and not m.private]
        if any(not any(m is x for x in ms) for m in left) or [m for m in ms if any(m is x for x in left)] != left:
            return "the remaining matches are not those of before in order"
        if case["how"] == "rules" and any(m.private and not any(m is x for x in left) for m in ms):
            return "a private match was removed by conflict resolution"
        if not same(list(c.markers), marks):
            return "markers changed"
        pub = [m for m in ms if not m.private]

        def inforce(a, b):
            """What is named for the ordered pair (match a, other b)."""
            for owner, other, sv in ((b, a, spec[id(b)]["cs"]), (a, b, spec[id(a)]["cs"])):
                if sv:
                    r = named_by(sv, owner, other)
                    if r == DEFAULT:
                        continue
                    return r
            la, lb = len(a.initiator), len(b.initiator)
            return b if lb < la else a if la < lb else None
        named = []
        for i, a in enumerate(pub):
            for b in pub[i + 1:]:
                if a.start < b.end and b.start < a.end:
                    n1, n2 = inforce(a, b), inforce(b, a)
                    named += [x for x in (n1, n2) if x is not None]
                    if (n1 is not None or n2 is not None) and not any(x is a or x is b for x in gone):
                        return "both %s and %s are kept although %s is named for removal" % (a.span, b.span, (n1 or n2).span)
                    # the solvers were asked about overlapping public matches only
        for m in gone:
            if not any(m is x for x in named):
                return "%s was removed but no solver in force named it" % (m.span,)
        for a, b in calls:
            if a.private or b.private or not (a.start < b.end and b.start < a.end) or a is b or a.marker or b.marker:
                return "a solver was asked about %s and %s" % (a, b)
        return lookups(c, left)


@facet("C10", "search")
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("abc ") for _ in range(rng.randint(0, 9))), ps=[dict(s=rng.choice(["a", "ab", "b", "bc", "abc", "c", " a"]), p=rng.random() < .2, mk=rng.random() < .1, cs=rng.choice(SOLVERS)) for _ in range(rng.randint(1, 4))])

    @staticmethod
    def check(case):
        def build(**kw):
            rb = Rebulk(**kw)
            for n, p in enumerate(case["ps"]):
                o = {}
                if p["p"]:
                    o["private"] = True
                if p["mk"]:
                    o["marker"] = True
                if p["cs"]:
                    o["conflict_solver"] = lambda a, b, cs=p["cs"]: named_by(cs, a, b)
                rb.string(p["s"], name="n%d" % n, **o)
            return rb
        found = build(default_rules=False).matches(case["text"])
        res = build().matches(case["text"])
        for i, a in enumerate(res):
            for b in list(res)[i + 1:]:
                if a.start < b.end and b.start < a.end and len(a) != len(b):
                    if case["ps"][int(a.name[1:])]["cs"] is None and case["ps"][int(b.name[1:])]["cs"] is None:
                        return "overlapping %s and %s of different length both kept" % (a, b)
        key = lambda m: (m.span, m.name)
        fs = [key(m) for m in found]
        rs = [key(m) for m in res]
        if any(k not in fs for k in rs):
            return "result holds a match that was not found"
        for m in found:
            if m.private:
                continue
            if key(m) not in rs and not any(x is not m and not x.private and x.start < m.end and m.start < x.end for x in found):
                return "public match %s without conflict is missing" % (key(m),)
        if sorted(key(m) for m in found.markers) != sorted(key(m) for m in res.markers):
            return "markers took part in conflict resolution"
        return None


@facet("C11", "search", 2)
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("abcd") for _ in range(rng.randint(0, 8))), ps=[dict(s=rng.choice("abcd"), e=rng.choice([None, None, "(a)(b)?", "(?P<x>c)d?"]), p=rng.random() < .3, mk=rng.random() < .3,
                    pp=rng.random() < .2, pc=rng.random() < .2, pn=rng.random() < .2, ch=rng.random() < .2, ev=rng.random() < .2) for _ in range(rng.randint(1, 4))], rule=rng.choice([0, 0, 1, 2]))

    @staticmethod
    def check(case):
        def build(**kw):
            rb = Rebulk(**kw)
            for n, p in enumerate(case["ps"]):
                o = {}
                for k, a in (("p", "private"), ("mk", "marker"), ("pp", "private_parent"), ("pc", "private_children"), ("ch", "children"), ("ev", "every")):
                    if p[k] and (p["e"] or k in ("p", "mk")):
                        o[a] = True
                if p["pn"]:
                    o["private_names"] = ["x", "n0"]
                if p["e"]:
                    rb.regex(p["e"], name="n%d" % n, conflict_solver=lambda a, b: None, **o)
                else:
                    rb.string(p["s"], name="n%d" % n, conflict_solver=lambda a, b: None, **o)
            return rb
        found = build(default_rules=False).matches(case["text"])
        rb = build()

        class R(Rule):
            priority = 64
            consequence = RemoveMatch if case["rule"] == 1 else RenameMatch("ren")

            def when(self, matches, context):
                return [m for m in matches if m.start == 1 and not m.private]
        if case["rule"]:
            rb.rules(R)
        res = rb.matches(case["text"])
        if any(m.private for m in res):
            return "the result holds the private match %s" % [m for m in res if m.private][0]
        if any(m.marker for m in res) or any(m.marker for m in found):
            return "a marker is among the matches"
        if any(not m.marker for m in res.markers):
            return "a match is among the markers"
        key = lambda m: (m.span, m.name)
        want = []
        for m in found:
            if m.private:
                continue
            if m.start == 1 and case["rule"] == 1:
                continue
            want.append((m.span, "ren" if m.start == 1 and case["rule"] == 2 else m.name))
        if case["rule"] != 2:
            if [key(m) for m in res] != want:
                return "result is %s instead of %s" % ([key(m) for m in res], want)
        elif sorted(set(key(m) for m in res), key=str) != sorted(set(want), key=str):
            return "result is %s instead of %s" % ([key(m) for m in res], want)
        if [key(m) for m in res.markers] != [key(m) for m in found.markers]:
            return "markers are %s" % show(res.markers)
        return None


# ------------------------------------------------------------------ C12
FAILED = object()


@facet("C12", "schedule", 2)
class _:
    @staticmethod
    def gen(rng):
        n = rng.randint(0, 6)
        inst = rng.random() < .5
        return dict(rules=[dict(p=rng.choice([0, 0, 0, 1, 64, -5]), dep=[rng.randrange(n) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))], en=rng.random() < .85, resp=rng.choice([None, 0, [], "", 1, "x", [1], True]), ds=rng.random() < .5,
                                 same=rng.randrange(n) if inst and rng.random() < .2 else None, di=rng.random() < .3) for k in range(n)], dup=rng.random() < .05, inst=inst, ta=rng.random() < .3, mod=rng.random() < .3, at=rng.choice([0, 1, 2, 9]), more=rng.random() < .6)

    @staticmethod
    def check(case):
        specs = case["rules"]
        log, classes, cls = [], [], []
        ctx = {"k": 1}
        ms = Matches([Match(0, 1)])

        class Base(CustomRule):
            def enabled(self, context):
                log.append(("enabled", self.n, context is ctx))
                return specs[self.n]["en"]

            def when(self, matches, context):
                log.append(("when", self.n, context is ctx and matches is ms))
                return specs[self.n]["resp"]

            def then(self, matches, resp, context):
                log.append(("then", self.n, context is ctx and matches is ms and resp is specs[self.n]["resp"]))
                return ("answer", self.n) if case.get("ta") else None
        for n, p in enumerate(specs):
            classes.append(type("R%d" % n, (Base,), dict(priority=p["p"], n=n)))
            m = p.get("same")
            cls.append(cls[m] if case["inst"] and m is not None and m < n else n)
        insts = []
        for n, p in enumerate(specs):
            r = classes[cls[n]]() if case["inst"] else classes[n]
            if case["inst"]:
                r.n, r.priority = n, p["p"]
            insts.append(r)
        for n, p in enumerate(specs):
            deps = [classes[cls[d]]() if p.get("di") else classes[cls[d]] for d in p["dep"] if d < len(classes)]
            if deps:
                insts[n].dependency = deps[0] if len(deps) == 1 and p["ds"] else deps
        rules = Rules(*insts[:case.get("at", 0)])
        rest = insts[case.get("at", 0):]
        if case.get("mod") and not case["inst"]:
            # the rules of a module are its rule classes, by name
            import types
            mod = types.ModuleType("rulemod")
            for c in rest:
                c.__module__ = "rulemod"
                setattr(mod, c.__name__, c)
            if case.get("more"):
                # what else a module may hold makes no rule
                def helper(a, b):
                    log.append(("helper", -1, False))
                helper.__module__ = "rulemod"
                mod.A_HELPER, mod.A_CONSTANT, mod.Imported, mod.CustomRule = helper, 3, type("Imported", (Base,), dict(priority=9, n=0, __module__="elsewhere")), CustomRule
            rest = [mod]
        rules.load(*rest)
        dup = case["dup"] and len(classes) > 0
        if dup:
            rules.load(classes[0])
        # expected order
        order, error = [], False
        prios = sorted({p["p"] for p in specs}, reverse=True)
        for pr in prios:
            mine = [n for n, p in enumerate(specs) if p["p"] == pr]
            if len({cls[n] for n in mine}) != len(mine) or dup and pr == specs[0]["p"] and 0 in {cls[n] for n in mine}:
                error = True
                break
            deps = {n: {m for m in mine if m != n and cls[m] in {cls[d] for d in specs[n]["dep"] if d < len(classes)}} for n in mine}
            left = list(mine)
            while left:
                ready = [n for n in left if not (deps[n] & set(left))]
                if not ready:
                    error = True
                    break
                order += ready
                left = [n for n in left if n not in ready]
            if error:
                break
        try:
            ret = rules.execute_all_rules(ms, ctx)
        except ValueError as e:
            if not error:
                return "raised %s" % e
            ret = FAILED
        else:
            if error:
                return "circular dependencies or duplicate rules of one class accepted"
        got = [n for what, n, ok in log if what == "enabled"]
        if any(not ok for _, _, ok in log):
            return "a rule was given other objects: %r" % [l for l in log if not l[2]][0][:2].__repr__()
        if ret is not FAILED and got != order:
            return "rules ran in the order %s instead of %s" % (got, order)
        if ret is FAILED and got != order[:len(got)]:
            return "rules ran in the order %s before the error" % (got,)
        want = []
        for n in got:
            want.append(("enabled", n))
            if specs[n]["en"]:
                want.append(("when", n))
                if specs[n]["resp"]:
                    want.append(("then", n))
        if [l[:2] for l in log] != want:
            return "calls are %s instead of %s" % ([l[:2] for l in log], want)
        if ret is not FAILED:
            w = [(n, specs[n]["resp"]) for n in order if specs[n]["en"] and specs[n]["resp"]]
            g = [(r.n, v) for r, v in ret]
            if g != w or any(a[1] is not b[1] for a, b in zip(g, w)):
                return "returned pairs are %s instead of %s" % (g, w)
        return None


@facet("C12", "toposort")
class _:
    @staticmethod
    def gen(rng):
        n = rng.randint(0, 6)
        return dict(deps=[[rng.randrange(8) for _ in range(rng.choice([0, 0, 1, 1, 2]))] for _ in range(n)])

    @staticmethod
    def check(case):
        from rebulk.toposort import toposort, CyclicDependency
        data = {n: set(d) for n, d in enumerate(case["deps"])}
        keep = {n: set(d) for n, d in data.items()}
        nodes = set(data) | {d for ds in data.values() for d in ds}
        if not data:
            nodes = set()
        left, levels, cyc = set(nodes), [], False
        while left:
            ready = {n for n in left if not ((data.get(n, set()) - {n}) & left)}
            if not ready:
                cyc = True
                break
            levels.append(ready)
            left -= ready
        got = []
        try:
            for g in toposort(data):
                got.append(set(g))
                if len(got) > 50:
                    return "toposort does not end"
        except CyclicDependency:
            if not cyc:
                return "cycle reported in %r" % keep
            return None if got == levels[:len(got)] else "levels %r" % got
        if data != keep:
            return "toposort changed its input"
        if cyc:
            return "cycle in %r not reported" % keep
        return None if got == levels else "levels of %r are %r instead of %r" % (keep, got, levels)


# ------------------------------------------------------------------ C13
@facet("C13", "consequences", 3)
class _:
    @staticmethod
    def gen(rng):
        return dict(pool=genpool(rng, rng.randint(0, 5)), out=genpool(rng, rng.randint(0, 2)), given=[rng.randint(0, 6) for _ in range(rng.randint(0, 4))], form=rng.choice(["list", "tuple", "gen", "single", "set", "itself"]),
                    cons=rng.choice(["remove", "append", "appendn", "rename", "tag", "untag"]), warm=rng.choice([0, 1, 2]), inrule=rng.random() < .4, asclass=rng.random() < .5)

    @staticmethod
    def check(case):
        model = mkpool(case["pool"])
        outs = mkpool(case["out"])
        for n, m in enumerate(outs):
            m.value = "out%d" % n
        c = Matches(list(model))
        if case["warm"] == 1:
            lookups(c, model)
        elif case["warm"] == 2:
            c.named("a"), c.tagged("x")
        every = model + outs
        given = []
        for g in case["given"]:
            if g < len(every) and not any(every[g] is x for x in given):
                given.append(every[g])
        form = case["form"]
        if form == "itself":
            given = list(model)
        if form == "single":
            given = given[:1]
            if not given or (case["inrule"] and not given[0]):
                return None  # a zero-length match is falsy: a rule returning it is not triggered
        cons = case["cons"]
        k = {"remove": RemoveMatch, "append": AppendMatch, "appendn": lambda: AppendMatch("new"), "rename": lambda: RenameMatch("new"), "tag": lambda: AppendTags(["x", "T"]), "untag": lambda: RemoveTags(["x", "y"])}[cons]
        arg = given[0] if form == "single" else tuple(given) if form == "tuple" else (g for g in given) if form == "gen" else list(given)
        if form == "set":
            from rebulk.utils import IdentitySet
            arg = IdentitySet(given)
        if form == "itself":
            arg = c
        before = {id(m): snap(m) for m in every}
        if case["inrule"] and given:
            cs = RemoveMatch if (cons == "remove" and case["asclass"]) else k()

            class R(Rule):
                consequence = cs

                def when(self, matches, context):
                    return arg
            Rules(R).execute_all_rules(c, {})
        else:
            k().then(c, arg, {})
        pres = [m for m in given if any(m is x for x in model)]
        absn = [m for m in given if not any(m is x for x in model)]
        left = [m for m in model if not any(m is x for x in given)]
        if cons == "remove":
            want, sets = left, []
        elif cons in ("append", "appendn"):
            want, sets = model + absn, absn
        else:
            want, sets = left + pres, pres
        now = list(c)
        exact = form != "set"
        head = left if cons in ("rename", "tag", "untag", "remove") else model
        if (exact and cons in ("append", "appendn") and not same(now, want)) or not same(now[:len(head)], head) or sorted(map(id, now)) != sorted(map(id, want)):
            return "after %s the collection is %s instead of %s" % (cons, show(now), show(want))
        for m in every:
            b = list(before[id(m)])
            if any(m is x for x in sets):
                tags = list(b[5])
                if cons in ("rename", "appendn"):
                    b[4] = "new"
                elif cons == "tag":
                    if list(m.tags) != tags + ["x", "T"] and set(m.tags) != set(tags) | {"x", "T"}:
                        return "tags are %r after adding x, T to %r" % (m.tags, tags)
                    b[5] = tuple(m.tags)
                elif cons == "untag":
                    t = list(tags)
                    for x in ("x", "y"):
                        if x in t:
                            t.remove(x)
                    if list(m.tags) != t:
                        return "tags are %r after removing x, y from %r" % (m.tags, tags)
                    b[5] = tuple(t)
            if snap(m) != tuple(b):
                return "%s changed the match %s: %r instead of %r" % (cons, m.span, snap(m), tuple(b))
        err = lookups(c, now)
        return err and "after %s: %s" % (cons, err)


@facet("C13", "several")
class _:
    @staticmethod
    def gen(rng):
        return dict(n=rng.randint(2, 4), pos=[rng.randint(0, 3) for _ in range(4)], kinds=[rng.choice(["class", "obj"]) for _ in range(4)], shape=rng.choice(["list", "tuple"]))

    @staticmethod
    def check(case):
        n = max(2, case["n"])
        got = []
        mks = []
        for i in range(n):
            def then(self, matches, resp, context, i=i):
                got.append((i, resp))
            cl = type("K%d" % i, (Consequence,), dict(then=then))
            mks.append(cl if (case["kinds"] + ["obj"] * 4)[i] == "class" else cl())
        parts = [[Match(i, i + 1)] if i % 2 else Match(i, i + 1) for i in range(n)]

        class R(Rule):
            consequence = mks if case["shape"] == "list" else tuple(mks)

            def when(self, matches, context):
                return parts
        Rules(R).execute_all_rules(Matches(), {})
        if [g[0] for g in got] != list(range(n)) or any(g[1] is not p for g, p in zip(got, parts)):
            return "consequences received %r of %r" % (got, parts)
        return None
