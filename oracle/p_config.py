"""Facets of the configuration properties C14, C16 (declared names), C17, C19, C20."""
import functools
import copy
from base import facet, same, show, snap
from rebulk import Rebulk, Key
from rebulk.match import Match
from rebulk.loose import call
from rebulk.rules import CustomRule, Rule, RemoveMatch
from rebulk.formatters import formatters
from rebulk.validators import validators, chars_before, chars_after, chars_surround


def f_up(s):
    return s.upper()


def f_low(s):
    return s.lower()


def f_rev(s):
    return s[::-1]


def v_yes(m):
    return True


def v_no(m):
    return True if m.start >= 0 else False


FN = {"up": f_up, "low": f_low, "rev": f_rev, "yes": v_yes, "no": v_no}


def genopts(rng, n):
    out = {}
    for k in rng.sample(["name", "tags", "private_names", "ignore_names", "private", "every", "formatter", "validator", "value"], rng.randint(0, n)):
        if k == "name":
            out[k] = rng.choice(["n1", "n2", "n3"])
        elif k in ("tags", "private_names", "ignore_names"):
            out[k] = [rng.choice("pqrs") for _ in range(rng.randint(1, 2))] if rng.random() < .9 else rng.choice("pqrs")
        elif k in ("private", "every"):
            out[k] = rng.random() < .5
        elif k == "value":
            out[k] = rng.choice(["v3", 7]) if rng.random() < .2 else {rng.choice(["x", "y", "z", "clear"]): rng.choice(["v1", "v2"]) for _ in range(rng.randint(1, 2))}
        else:
            out[k] = {rng.choice(["x", "y", "z", "clear"]): rng.choice(["up", "low", "rev"] if k == "formatter" else ["yes", "no"]) for _ in range(rng.randint(1, 2))}
    return out


def real(o):
    r = {}
    for k, v in o.items():
        if k in ("formatter", "validator"):
            r[k] = {a: FN[b] for a, b in v.items()}
        else:
            r[k] = copy.deepcopy(v)
    return r


def merge(general, specific):
    """The specific options completed by the more general ones."""
    out = dict(specific)
    for k, v in general.items():
        if k not in out:
            out[k] = v
        elif isinstance(v, list) and isinstance(out[k], list):
            out[k] = list(v) + list(out[k])
        elif isinstance(v, dict) and isinstance(out[k], dict):
            out[k] = {**{a: b for a, b in v.items()}, **out[k]}
    return out


def describe(p):
    return dict(name=p.name, tags=list(p.tags), private_names=list(p.private_names), ignore_names=list(p.ignore_names), private=bool(p.private), every=bool(p.every),
                formatter={k: f for k, f in p.formatters.items() if k is not None}, validator={k: f for k, f in p.validators.items() if k is not None},
                value={k: f for k, f in p.values.items() if f is not None})


def listed(x):
    return x if isinstance(x, list) else [x]


def wanted(o):
    o = real(o)
    return dict(name=o.get("name"), tags=listed(o.get("tags", [])), private_names=listed(o.get("private_names", [])), ignore_names=listed(o.get("ignore_names", [])), private=bool(o.get("private")), every=bool(o.get("every")),
                formatter=o.get("formatter", {}), validator=o.get("validator", {}), value=o["value"] if isinstance(o.get("value"), dict) else {None: o["value"]} if "value" in o else {})


KINDS = ["string", "regex", "functional", "chain"]


def fnpat(string):
    return (0, 1)


@facet("C14", "defaults", 3)
class _:
    @staticmethod
    def gen(rng):
        ops = []
        for _ in range(rng.randint(1, 7)):
            o = rng.choice(["def", "def", "kdef", "kdef", "build", "build", "build", "inchain", "inchain", "reset"] if rng.random() < .3 else ["def", "kdef", "build", "inchain"])
            ops.append(dict(o=o, kind=rng.choice(KINDS), opts=genopts(rng, 4), clear=rng.random() < .1, ov=rng.random() < .2, mut=rng.random() < .3,
                            deep=rng.randint(1, 3), cdef=genopts(rng, 3) if rng.random() < .4 else {}, ckind=rng.choice(KINDS + ["all"])))
        return dict(ops=ops)

    @staticmethod
    def check(case):
        rb = Rebulk()
        gen, kinds = {}, {k: {} for k in KINDS}

        def define(tab, op):
            o = dict(op["opts"])
            if op["clear"]:
                tab.clear()
            tab.update(o)
        for step, op in enumerate(case["ops"]):
            kind = op["kind"]
            args = real(op["opts"])
            if op["o"] in ("def", "kdef"):
                if op["clear"]:
                    args["clear"] = True
                if op["o"] == "def":
                    r = rb.defaults(**args)
                    define(gen, op)
                else:
                    r = getattr(rb, kind + "_defaults")(**args)
                    define(kinds[kind], op)
                if r is not rb:
                    return "step %d: defining defaults returned %r" % (step, r)
                continue
            if op["o"] == "reset":
                rb.reset()
                gen, kinds = {}, {k: {} for k in KINDS}
                continue
            keep = copy.deepcopy(args)
            ov = sorted(args)[:1] if op["ov"] and args else []
            kw = dict(args)
            if ov:
                kw["overrides"] = list(ov)
            chain = None
            cgen, ckinds = gen, kinds
            if op["o"] == "inchain":
                host = chain = rb.chain(name="outer")
                for lvl in range(op["deep"] - 1):
                    host = chain = chain.chain()
                    if op["cdef"]:
                        # the chain's own defaults hold in it and below, never above
                        cgen, ckinds = dict(cgen), {k: dict(v) for k, v in ckinds.items()}
                        d = real(op["cdef"])
                        if op["ckind"] == "all":
                            chain.defaults(**d)
                            cgen.update(op["cdef"])
                        else:
                            getattr(chain, op["ckind"] + "_defaults")(**d)
                            ckinds[op["ckind"]].update(op["cdef"])
            else:
                host = rb
            if kind == "chain":
                p = host.build_chain(**kw)
            elif kind == "string":
                p = host.build_string("a", **kw)
            elif kind == "regex":
                p = host.build_re("a", **kw)
            else:
                p = host.build_functional(fnpat, **kw)
            w = merge(cgen, merge(ckinds[kind], op["opts"]))
            for k in ov:
                w[k] = op["opts"][k]
            d, want = describe(p), wanted(w)
            for k in want:
                if d[k] != want[k]:
                    return "step %d: option %s of the %s pattern is %r instead of %r" % (step, k, kind, d[k], want[k])
            if args != keep:
                return "step %d: building changed the objects passed: %r instead of %r" % (step, args, keep)
            if chain is not None and op["mut"]:
                chain.defaults(name="leak", tags=["leak"], value={"x": "leak"})
                getattr(chain, kind + "_defaults")(tags=["leak2"], formatter={"x": f_rev})
        # options of a second pattern are the same as those of a fresh builder with the same definitions
        for kind in KINDS:
            p = rb.build_chain() if kind == "chain" else getattr(rb, {"regex": "build_re"}.get(kind, "build_" + kind))(*(() if kind == "chain" else ("a",) if kind != "functional" else (fnpat,)))
            d, want = describe(p), wanted(merge(gen, kinds[kind]))
            if d != want:
                k = [k for k in want if d[k] != want[k]][0]
                return "at the end: option %s of a %s pattern is %r instead of %r" % (k, kind, d[k], want[k])
        return None


@facet("C14", "keys")
class _:
    @staticmethod
    def gen(rng):
        return dict(keys=[dict(n=rng.choice(["x", "y"]), f=rng.choice(["up", "rev"])) for _ in range(rng.randint(0, 3))], opts=genopts(rng, 3), dflt=genopts(rng, 3), arg=rng.choice(["none", "one", "seq"]), kind=rng.choice(["string", "regex", "functional"]), deep=rng.choice([0, 0, 1, 2, 3]), leak=rng.random() < .5)

    @staticmethod
    def check(case):
        rb = Rebulk()
        decl = {}
        for k in case["keys"]:
            decl[k["n"]] = FN[k["f"]]
            rb.declare_keys(Key(k["n"], str, formatter=FN[k["f"]]))
        dflt = real(case["dflt"])
        shared = dflt.get("formatter")
        keep = copy.deepcopy(dflt)
        rb.defaults(**dflt)
        o = real(case["opts"])
        okeep = copy.deepcopy(o)
        kw = dict(o)
        if case["arg"] == "one":
            kw["key"] = Key("kk", str)
            kw.pop("formatter", None)
        elif case["arg"] == "seq":
            kw["key"] = [Key("x", str, formatter=f_low), Key("kk", str, formatter=f_low)]
        host = rb
        for _ in range(case["deep"]):
            host = host.chain()
        src = fnpat if case["kind"] == "functional" else "a"
        r = getattr(host, case["kind"])(src, **kw)
        p = r.pattern if case["deep"] else rb.effective_patterns()[-1]
        if case["deep"] and case["leak"]:
            # a key declared in a chain stays in that chain
            host.declare_keys(Key("leak", str, formatter=f_up))
            q = rb.build_string("a")
            if "leak" in q.formatters or "leak" in rb.effective_keys():
                return "a key declared in a chain reached its builder"
            if "leak" not in host.build_string("a").formatters:
                return "a key declared in a chain is not used in it"
        w = merge(case["dflt"], {k: v for k, v in case["opts"].items() if not (k == "formatter" and case["arg"] == "one")})
        exp = wanted(w)
        if case["arg"] == "one":
            exp["name"] = case["opts"].get("name", "kk")
            if getattr(p, "_default_formatter", str) is not str and "formatter" not in case["dflt"]:
                return "formatter of the key is not used"
        else:
            f = dict(exp["formatter"])
            if case["arg"] == "seq":
                own = real(case["opts"]).get("formatter", {})
                f = {**real(case["dflt"]).get("formatter", {}), "x": f_low, "kk": f_low, **own}
            for n, c in decl.items():
                f.setdefault(n, c)
            d = describe(p)["formatter"]
            if d != f:
                return "formatters are %r instead of %r" % (d, f)
        if dflt != keep or o != okeep:
            return "building changed the objects passed"
        if describe(p)["tags"] != exp["tags"] or p.name != exp["name"]:
            return "name or tags differ: %r" % describe(p)
        return None


# ------------------------------------------------------------------ C16 declared but unused
@facet("C16", "unused")
class _:
    @staticmethod
    def gen(rng):
        def pat():
            return dict(k=rng.choice(["string", "regex", "props", "chain", "nested", "private"]), n=rng.choice(["a", "b", "c", None]), g=rng.choice(["a", "d", "e"]))
        return dict(keys=[rng.choice("abcdef") for _ in range(rng.randint(0, 4))], ckeys=[rng.choice("abcdef") for _ in range(rng.randint(0, 2))], ps=[pat() for _ in range(rng.randint(0, 3))], cps=[pat() for _ in range(rng.randint(0, 2))],
                    allow=rng.choice([None, "a", ["b", "f"]]), dis=rng.random() < .3, lazy=rng.random() < .3)

    @staticmethod
    def check(case):
        prod = set()

        def add(rb, ps):
            for p in ps:
                kw = {"name": p["n"]} if p["n"] else {}
                if p["n"]:
                    prod.add(p["n"])
                if p["k"] == "string":
                    rb.string("q", **kw)
                elif p["k"] == "private":
                    rb.string("q", private=True, marker=True, **kw)
                elif p["k"] == "regex":
                    rb.regex("(?P<%s>q)" % p["g"], **kw)
                    prod.add(p["g"])
                elif p["k"] == "props":
                    rb.functional(fnpat, properties={p["g"]: [1]}, **kw)
                    prod.add(p["g"])
                elif p["k"] == "chain":
                    rb.chain(**kw).regex("(?P<%s>q)" % p["g"]).string("z", name="c").close()
                    prod.update([p["g"], "c"])
                else:
                    c = rb.chain(**kw)
                    c.chain(name="e").regex("(?P<%s>q)" % p["g"]).close()
                    prod.update([p["g"], "e"])
        rb = Rebulk()
        rb.declare_keys(*[Key(k, str) for k in case["keys"]])
        add(rb, case["ps"])
        ch = Rebulk(disabled=case["dis"])
        ch.declare_keys(*[Key(k, int) for k in case["ckeys"]])
        add(ch, case["cps"])
        rb.rebulk(ch)
        al = case["allow"]
        keep = list(rb.effective_patterns({})), dict(rb.effective_keys({}))
        got = rb.check_keys(**({} if al is None else {"allowed_unused": (x for x in al) if case.get("lazy") and not isinstance(al, str) else al}))
        if not same(rb.effective_patterns({}), keep[0]) or list(rb.effective_keys({}).items()) != list(keep[1].items()):
            return "asking for unused keys changed the configuration"
        allow = set() if al is None else {al} if isinstance(al, str) else set(al)
        want = sorted((set(case["keys"]) | set(case["ckeys"])) - prod - allow)
        return None if got == want else "unused keys are %r instead of %r" % (got, want)


@facet("C16", "search")
class _:
    @staticmethod
    def gen(rng):
        return dict(ps=[dict(n=rng.choice(["a", "b", None]), f=rng.choice(["int", "str", "none", "float"]), lit=rng.random() < .2, priv=rng.random() < .2) for _ in range(rng.randint(1, 3))],
                    keys=[dict(n=rng.choice("ab"), t=rng.choice(["int", "str"])) for _ in range(rng.randint(0, 2))], text="12 3", on=rng.random() < .8)

    @staticmethod
    def check(case):
        from rebulk import debug
        T = {"int": int, "str": str, "none": lambda s: None, "float": float}
        rb = Rebulk()
        keys = {k["n"]: T[k["t"]] for k in case["keys"]}
        for n, t in keys.items():
            rb.declare_keys(Key(n, t))
        bad = False
        for i, p in enumerate(case["ps"]):
            kw = dict(formatter=T[p["f"]])
            if p["n"]:
                kw["name"] = p["n"]
            if p["lit"]:
                kw["value"] = 1.25
            if p["priv"]:
                kw["private"] = True
            rb.regex(r"\d+", **kw)
            t = keys.get(p["n"])
            if t is not None and not p["priv"] and not p["lit"] and p["f"] != "none":
                bad = bad or not issubclass(T[p["f"]], t)
        old = debug.CHECK_DECLARED_KEYS
        debug.CHECK_DECLARED_KEYS = case["on"]
        try:
            rb.matches(case["text"])
            raised = False
        except TypeError:
            raised = True
        finally:
            debug.CHECK_DECLARED_KEYS = old
        w = bad and case["on"]
        return None if raised == w else "the declared-type check %s" % ("raised although every value is right" if raised else "accepted a wrong value")


# ------------------------------------------------------------------ C17
class RA(CustomRule):
    def when(self, m, c): return False
    def then(self, m, w, c): pass


class RB(RA):
    properties = {"rb": [1]}


class RC(RA):
    properties = {"rc": ["v"], "rb": [1, 2]}


@facet("C17", "compose", 2)
class _:
    @staticmethod
    def gen(rng):
        def part():
            return dict(ps=[dict(i=rng.randrange(5), dis=rng.choice([0, 0, 0, 1, 2]), own=rng.random() < .5) for _ in range(rng.randint(0, 3))], rules=[rng.randrange(3) for _ in range(rng.randint(0, 2))],
                        keys=[rng.choice("abc") for _ in range(rng.randint(0, 2))], dis=rng.choice([0, 0, 0, 1, 2, 3]))
        return dict(parts=[part() for _ in range(rng.randint(1, 4))], ctx=rng.choice([None, {"off": True}, {"off": False}, {}]), warm=rng.random() < .5)

    @staticmethod
    def check(case):
        from rebulk.pattern import StringPattern
        ctx = case["ctx"]
        seen = []

        def disf(d, tag):
            if d == 0:
                return None
            if d == 1:
                return True

            def f(context):
                seen.append((tag, context))
                if d == 3:
                    return False
                return bool(context and context.get("off"))
            return f

        def isoff(d):
            return d == 1 or (d == 2 and bool(ctx and ctx.get("off")))
        shared = [StringPattern("abcde"[i], name="s%d" % i, value="val%d" % (i // 2)) for i in range(5)]
        rules = [RA, RB, RC]
        rbs, pats, rls, keys = [], [], [], []
        for pi, part in enumerate(case["parts"]):
            f = disf(part["dis"], "bulk")
            rb = Rebulk(**({} if f is None else {"disabled": f}), default_rules=False)
            mine, mr, mk = [], [], {}
            for p in part["ps"]:
                i = p["i"] % 5
                if p["own"]:
                    g = disf(p["dis"], "pattern")
                    pt = StringPattern("abcde"[i], name="o%d" % i, **({} if g is None else {"disabled": g}))
                    pt_dis = p["dis"]
                else:
                    pt, pt_dis = shared[i], 0
                rb.pattern(pt)
                mine.append((pt, pt_dis))
            for r in dict.fromkeys(part["rules"]):
                rb.rules(rules[r % 3])
                mr.append(rules[r % 3])
            for k in part["keys"]:
                key = Key(k, int, formatter=lambda s, pi=pi: pi)
                rb.declare_keys(key)
                mk[k] = key
            rbs.append(rb); pats.append(mine); rls.append(mr); keys.append(mk)
        if not rbs:
            return None
        rbs[0].rebulk(*rbs[1:])
        for c in ({"off": True}, {"off": False}) if case.get("warm") else ():
            # what is in effect for one context does not stay for another
            rbs[0].effective_patterns(c), rbs[0].effective_rules(c), rbs[0].effective_keys(c), rbs[0].check_keys(), rbs[0].matches("abc", c)
        del seen[:]
        on = [0] + [i for i in range(1, len(rbs)) if not isoff(case["parts"][i]["dis"])]
        wp, wr, wk = [], [], {}
        for i in on:
            for p in pats[i]:
                if i == 0 or not any(p[0] is q[0] for q in wp):
                    wp.append(p)
            for r in rls[i]:
                if r not in wr:
                    wr.append(r)
            for k, v in keys[i].items():
                wk.setdefault(k, v)
        top = rbs[0]
        if not same(top.effective_patterns(ctx), [p[0] for p in wp]):
            return "effective patterns are %r" % top.effective_patterns(ctx)
        if [type(r) for r in top.effective_rules(ctx)] != wr:
            return "effective rules are %r instead of %r" % (list(top.effective_rules(ctx)), wr)
        ek = top.effective_keys(ctx)
        if set(ek) != set(wk) or any(ek[k] is not wk[k] for k in wk):
            return "effective keys are %r" % ek
        if any(c is not ctx for _, c in seen):
            return "a disabling function received another context"
        from rebulk.introspector import introspect
        intro = introspect(top, ctx)
        if not same([d.pattern for d in intro.patterns], [p[0] for p in wp if not p[0].private and not p[0].marker]):
            return "introspection describes other patterns"
        if [type(d.rule) for d in intro.rules] != wr:
            return "introspection describes other rules"
        props = {}
        for p, _ in wp:
            vs = [p.values[None]] if p.values.get(None) is not None else list(p.patterns)
            for v in vs:
                props.setdefault(p.name, [])
                if v not in props[p.name]:
                    props[p.name].append(v)
        for r in wr:
            for k, vs in r.properties.items():
                for v in vs:
                    props.setdefault(k, [])
                    if v not in props[k]:
                        props[k].append(v)
        if dict(intro.properties) != props:
            return "introspected properties are %r instead of %r" % (dict(intro.properties), props)
        text = "abcdeabc"
        del seen[:]
        ms = top.matches(text, ctx)
        want = []
        if not isoff(case["parts"][0]["dis"]):
            for p, d in wp:
                if not isoff(d):
                    want += [((i, i + 1), p.name) for i, ch in enumerate(text) if ch == p.patterns[0]]
        if [(m.span, m.name) for m in ms] != want:
            return "search finds %s instead of %s" % (show(ms), want)
        if not isoff(case["parts"][0]["dis"]) and ms.declared_keys != wk:
            return "declared keys of the result are %r" % ms.declared_keys
        if any((c is not ctx) if ctx is not None else (c != {}) for _, c in seen):
            return "a disabling function received another context during the search"
        return None


@facet("C17", "rules")
class _:
    @staticmethod
    def gen(rng):
        return dict(dis=rng.choice([0, 1, 2]), cdis=rng.choice([0, 1, 2]), off=rng.random() < .5)

    @staticmethod
    def check(case):
        ran = []
        ctx = {"off": case["off"]}
        D = {0: False, 1: True, 2: lambda c: c["off"]}

        class P(CustomRule):
            def when(self, m, c):
                ran.append(("P", c is ctx)); return True
            def then(self, m, w, c): ran.append(("Pt", c is ctx))

        class Q(P):
            def when(self, m, c):
                ran.append(("Q", c is ctx)); return True
            def then(self, m, w, c): ran.append(("Qt", c is ctx))
        off = lambda d: d == 1 or (d == 2 and case["off"])
        a = Rebulk(disabled=D[case["dis"]]).string("a").rules(P)
        b = Rebulk(disabled=D[case["cdis"]]).string("b").rules(Q)
        a.rebulk(b)
        ms = a.matches("ab", ctx)
        want, sp = [], []
        if not off(case["dis"]):
            want += [("P", True), ("Pt", True)]
            sp.append((0, 1))
            if not off(case["cdis"]):
                want += [("Q", True), ("Qt", True)]
                sp.append((1, 2))
        if sorted(ran) != sorted(want):
            return "rules run are %r instead of %r" % (ran, want)
        return None if [m.span for m in ms] == sp else "matches are %s instead of %s" % (show(ms), sp)


@facet("C17", "describe")
class _:
    """Introspection of one pattern."""
    @staticmethod
    def gen(rng):
        return dict(k=rng.choice(["string", "regex", "functional", "chain"]), n=rng.choice([None, "a", "b"]), g=rng.sample(["x", "y"], rng.randint(0, 2)), pn=rng.sample(["a", "x"], rng.choice([0, 0, 1, 2])), pc=rng.random() < .3,
                    priv=rng.random() < .2, mk=rng.random() < .2, value=rng.choice([None, None, "v", {"x": "vx"}, {"null": "vn", "y": 3}]), props=rng.choice([None, None, {"q": [1, 2]}]))

    @staticmethod
    def check(case):
        from rebulk.introspector import introspect
        kw = {}
        if case["n"]:
            kw["name"] = case["n"]
        if case["pn"]:
            kw["private_names"] = case["pn"]
        for k, a in (("pc", "private_children"), ("priv", "private"), ("mk", "marker")):
            if case[k]:
                kw[a] = True
        v = case["value"]
        if v:
            v = {(None if k == "null" else k): x for k, x in v.items()} if isinstance(v, dict) else v
            kw["value"] = v
        if case["props"]:
            kw["properties"] = case["props"]
        rb = Rebulk()
        if case["k"] == "string":
            rb.string("s1", "s2", **kw)
        elif case["k"] == "regex":
            rb.regex("".join("(?P<%s>q)" % g for g in case["g"]) or "q", **kw)
        elif case["k"] == "chain":
            rb.chain(**kw).string("s1").close()
        else:
            rb.functional(fnpat, **kw)
        got = {k: list(x) for k, x in introspect(rb).properties.items()}
        n = case["n"]
        if case["priv"] or case["mk"]:
            want = {}
        elif case["props"]:
            want = case["props"]
        elif v:
            want = {(k or n): [x] for k, x in v.items()} if isinstance(v, dict) else {n: [v]}
        elif case["k"] == "string":
            want = {n: ["s1", "s2"]}
        elif case["k"] == "chain":
            want = {}
        else:
            want = {n: [None]} if n and n not in case["pn"] else {}
            if case["k"] == "regex" and not case["pc"]:
                for g in case["g"]:
                    if g not in case["pn"]:
                        want[g] = [None]
        return None if got == want else "introspected properties are %r instead of %r" % (got, want)


# ------------------------------------------------------------------ C19
@facet("C19", "call", 3)
class _:
    @staticmethod
    def gen(rng):
        return dict(np=rng.randint(0, 3), nd=rng.randint(0, 2), va=rng.random() < .25, ko=rng.randint(0, 2), vk=rng.random() < .25, args=rng.randint(0, 5), kw=[rng.choice(["k0", "k1", "z", "q", "p0", "p1", "p2"]) for _ in range(rng.randint(0, 4))],
                    how=rng.choice(["func", "method", "static", "classm", "class", "object", "lambda", "nested", "new", "partial", "partialm", "partialc", "bare", "wrapped", "wrapclass"]), po=rng.choice([0, 0, 1, 2]), exc=rng.random() < .1, none=rng.choice([[], [], [], [0, 2], ["k0", "z", "p1"], ["k1", "p0", "p2", 1]]))

    @staticmethod
    def check(case):
        np, nd = case["np"], min(case["nd"], case["np"])
        ps = ["p%d" % i for i in range(np)]
        sig = ["%s" % p if i < np - nd else "%s=%d" % (p, 90 + i) for i, p in enumerate(ps)]
        po = min(case["po"], np)
        how = case["how"]
        if how == "bare":
            class Bare:
                pass
            return None if type(call(Bare, *range(case["args"]), **{k: 1 for k in case["kw"]})) is Bare else "a class without constructor was not called"
        if po:
            sig.insert(po, "/")
        if case["va"]:
            sig.append("*va")
        elif case["ko"]:
            sig.append("*")
        sig += ["k%d=7" % i for i in range(case["ko"])]
        if case["vk"]:
            sig.append("**vk")
        body = "record(dict(p=[%s], va=%s, k=[%s], vk=%s))" % (", ".join(ps), "va" if case["va"] else "()", ", ".join("k%d" % i for i in range(case["ko"])), "dict(vk)" if case["vk"] else "{}")
        ns = {}
        got = []

        def record(d):
            got.append(d)
            if case["exc"]:
                raise KeyError("from the function")
            return got
        ns["record"] = record
        s = ", ".join(sig)
        slf = "self" + (", " + s if s else "")
        def other(u, v, *, w=1):
            pass
        if how in ("func", "lambda", "partial", "wrapped"):
            exec("def f(%s):\n return %s" % (s, body), ns)
            f = ns["f"]
            if how == "lambda":
                f = eval("lambda %s: %s" % (s, body), ns)
            if how == "wrapped":
                functools.update_wrapper(f, other)
        elif how == "nested":
            exec("def mk(u):\n def f(%s):\n  return %s\n return f" % (s, body), ns)
            f = ns["mk"](3)
        elif how == "new":
            exec("class C:\n def __new__(%s):\n  %s\n  return object.__new__(self)" % (slf, body), ns)
            f = ns["C"]
        elif how in ("class", "wrapclass"):
            exec("class C:\n def __init__(%s):\n  %s" % (slf, body), ns)
            f = ns["C"]
            if how == "wrapclass":
                functools.update_wrapper(f.__init__, other)
        else:
            exec("class C:\n def m(%s):\n  return %s\n @staticmethod\n def st(%s):\n  return %s\n @classmethod\n def cm(%s):\n  return %s\n def __call__(%s):\n  return %s" % (
                slf, body, s, body, slf.replace("self", "cls"), body, slf, body), ns)
            o = ns["C"]()
            f = {"method": o.m, "static": o.st, "classm": o.cm, "object": o, "partialm": o.m, "partialc": o.cm}[how]
        if how.startswith("partial"):
            f = functools.partial(f)
        none = set(case.get("none", []))
        objs = [None if i in none else object() for i in range(case["args"])]
        kwv = {k: None if k in none else object() for k in case["kw"]}
        # arguments the function can take without clash
        takes = len(objs) if case["va"] else min(len(objs), np)
        if any(k in kwv and po <= i < takes for i, k in enumerate(ps)):
            return None
        missing = [p for i, p in enumerate(ps) if i >= takes and i < np - nd and (i < po or p not in kwv)]
        if missing:
            return None
        kcopy = dict(kwv)
        try:
            r = call(f, *objs, **kwv)
        except KeyError as e:
            if not case["exc"]:
                raise
            if "from the function" not in str(e):
                return "another exception came out"
            r = got if how not in ("class", "new", "wrapclass") else None
        else:
            if case["exc"]:
                return "the exception of the function was swallowed"
            if (r is not got) if how not in ("class", "new", "wrapclass") else not isinstance(r, f):
                return "the result of the function was not returned"
        if len(got) != 1:
            return "the function was called %d times" % len(got)
        g = got[0]
        names = set(ps[po:]) | {"k%d" % i for i in range(case["ko"])}
        for i, p in enumerate(ps):
            w = objs[i] if i < takes else kwv.get(p, 90 + i) if i >= po else 90 + i
            if g["p"][i] is not w and g["p"][i] != w:
                return "parameter %s got a wrong argument" % p
        if case["va"]:
            if not same(g["va"], objs[np:]):
                return "variadic arguments are %d instead of %d" % (len(g["va"]), len(objs[np:]))
        for i in range(case["ko"]):
            w = kwv.get("k%d" % i, 7)
            if g["k"][i] is not w and g["k"][i] != w:
                return "keyword k%d got a wrong argument" % i
        wvk = {k: v for k, v in kwv.items() if k not in names} if case["vk"] else {}
        if set(g["vk"]) != set(wvk) or any(g["vk"][k] is not wvk[k] for k in wvk):
            return "extra keywords are %s instead of %s" % (sorted(g["vk"]), sorted(wvk))
        return None if kwv == kcopy else "the arguments were modified"


# ------------------------------------------------------------------ C20
def deep(o, seen, depth=0):
    """Structure of a configuration object for comparison."""
    if id(o) in seen or depth > 7:
        return "*"
    if isinstance(o, (str, int, float, bool, type(None))):
        return o
    if isinstance(o, dict):
        return ("dict", tuple((deep(k, seen, depth + 1), deep(v, seen, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(deep(v, seen, depth + 1) for v in o), tuple((k, deep(v, seen | {id(o)}, depth + 1)) for k, v in sorted(getattr(o, "__dict__", {}).items())))
    if isinstance(o, (set, frozenset)):
        return ("set", len(o))
    if type(o).__module__.startswith("rebulk") or type(o).__module__ == __name__:
        if hasattr(o, "__dict__"):
            s2 = seen | {id(o)}
            return (type(o).__name__, tuple((k, deep(v, s2, depth + 1)) for k, v in sorted(vars(o).items())))
    return ("id", id(o))


class Cut(Rule):
    consequence = RemoveMatch

    def when(self, matches, context):
        return [m for m in matches if m.start == 2 and context and context.get("cut")]


@facet("C20", "repeat", 2)
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("abcab ") for _ in range(rng.randint(0, 9))), other="".join(rng.choice("abc ") for _ in range(rng.randint(0, 6))), ps=[dict(k=rng.choice(["string", "regex", "fdict", "flist", "chain", "ftup"]),
                    tags=rng.choice([None, ["t"], ["t", "u"]]), v=rng.random() < .3, ch=rng.choice([0, 0, 1, 2]), mk=rng.random() < .1, pn=rng.random() < .1) for _ in range(rng.randint(1, 4))], dflt=rng.choice([0, 0, 1]), ctx=rng.choice([None, {"cut": 1}, {}]), mess=rng.random() < .7)

    @staticmethod
    def check(case):
        rb = Rebulk()
        if case["dflt"]:
            rb.defaults(tags=["dt"], value={"zz": [1]})
        rb.rules(Cut)
        fdict = {"start": 0, "end": 1, "name": "fd", "tags": ["own"]}
        fl = [{"start": 1, "end": 2, "tags": ["own"]}, (2, 3, {"name": "q"})]
        for n, p in enumerate(case["ps"]):
            kw = {"name": "n%d" % n}
            if p["tags"]:
                kw["tags"] = p["tags"]
            if p["v"]:
                kw["value"] = {"n%d" % n: ["lit"]}
            if p["mk"]:
                kw["marker"] = True
            if p["pn"]:
                kw["private_names"] = ["g"]
            if p["ch"] == 1:
                kw["every"] = True
            elif p["ch"] == 2:
                kw["children"] = True
            if p["k"] == "string":
                rb.string("a", "b", **{k: v for k, v in kw.items() if k not in ("every", "children")})
            elif p["k"] == "regex":
                rb.regex("(?P<g>a)(b)?", **kw)
            elif p["k"] == "fdict":
                rb.functional(lambda s: fdict, **kw)
            elif p["k"] == "flist":
                rb.functional(lambda s: fl, **kw)
            elif p["k"] == "ftup":
                rb.functional(lambda s: (0, 2), **kw)
            elif not p["mk"]:
                rb.chain(**kw).regex("a", tags=["c"]).repeater("+").regex("(?P<g>b)").repeater("*").close()
        cfg0 = deep(rb, frozenset())
        obj0 = (copy.deepcopy(fdict), copy.deepcopy(fl), copy.deepcopy(case["ps"]))
        ctx = copy.deepcopy(case["ctx"])

        def result():
            ms = rb.matches(case["text"], ctx)
            return ms, ([snap(m) for m in ms], [snap(m) for m in ms.markers], ms.input_string)
        m1, r1 = result()
        rb.matches(case["other"], {"cut": 2})
        if case["mess"]:
            for m in list(m1) + list(m1.markers):
                for c in list(m.children):
                    c.tags.append("poison")
                    c.name = "poison"
                m.tags.append("poison")
                m.name = "poison"
                if isinstance(m.value, list):
                    pass
                m.value = "poison"
                m.start += 1
            m1.clear()
            m1.declared_keys["poison"] = 1
        if deep(rb, frozenset()) != cfg0:
            return "a search changed the configuration"
        if (fdict, fl, case["ps"]) != obj0 or ctx != case["ctx"]:
            return "a search changed the options or the context it was given: %r" % ((fdict, fl),)
        m2, r2 = result()
        if r1 != r2:
            for a, b in zip(r1[0] + r1[1] + [None] * 9, r2[0] + r2[1] + [None] * 9):
                if a != b:
                    return "the same search gives %r, then %r" % (a, b)
        own = [id(x) for m in list(m1) + list(m1.markers) for x in (m, m.tags)] if not case["mess"] else []
        for m in list(m2) + list(m2.markers):
            if id(m) in own or id(m.tags) in own:
                return "two results share an object"
        return None


@facet("C20", "helpers")
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("ab .") for _ in range(rng.randint(1, 7))), s=rng.randint(0, 5), l=rng.randint(1, 4), chars=rng.choice(["", " ", " .", "ab", "."]), vs=[rng.random() < .7 for _ in range(rng.randint(0, 4))],
                    fs=[rng.choice(["up", "rev", "len"]) for _ in range(rng.randint(0, 4))], lst=rng.random() < .3)

    @staticmethod
    def check(case):
        text = case["text"]
        s = min(case["s"], len(text) - 1)
        e = min(len(text), s + case["l"])
        if not text or e <= s:
            return None
        m = Match(s, e, input_string=text)
        chars = list(case["chars"]) if case["lst"] else case["chars"]
        wb = s == 0 or text[s - 1] in chars
        wa = e == len(text) or text[e] in chars
        if bool(chars_before(chars, m)) != wb or bool(chars_after(chars, m)) != wa or bool(chars_surround(chars, m)) != (wb and wa):
            return "surrounding characters of %s in %r with %r" % ((s, e), text, chars)
        seen = []

        def mk(i, v):
            def f(x):
                seen.append((i, x is m))
                return v
            return f
        v = validators(*[mk(i, b) for i, b in enumerate(case["vs"])])
        for _ in range(2):
            del seen[:]
            if bool(v(m)) != all(case["vs"]):
                return "validators(%r) gives %r" % (case["vs"], v(m))
            if any(not ok for _, ok in seen):
                return "a chained validator got another match"
        fs = [{"up": lambda x: x + "U", "rev": lambda x: x[::-1], "len": lambda x: x + str(len(x))}[f] for f in case["fs"]]
        g = formatters(*fs)
        for _ in range(2):
            w = "ab"
            for f in fs:
                w = f(w)
            if g("ab") != w:
                return "formatters(%r) gives %r instead of %r" % (case["fs"], g("ab"), w)
        return None
