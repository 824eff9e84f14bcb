"""Facets of the pattern properties C06-C09."""
import re
from base import facet, same, show, snap
from rebulk import Rebulk
from rebulk.match import Match
from rebulk.pattern import StringPattern, RePattern, FunctionalPattern
from rebulk.remodule import re as rre, REGEX_ENABLED
from rebulk.utils import find_all


def low(s):
    l = s.lower()
    if len(l) == len(s):
        return l
    return "".join(c.lower() if len(c.lower()) == 1 else c for c in s)


def occurrences(text, sub, a, b, ignore):
    if ignore:
        text, sub = low(text), low(sub)
    n = len(text)
    b = n if b is None else b
    a = 0 if a is None else a
    if b < 0:
        b = max(0, n + b)
    if a < 0:
        a = max(0, n + a)
    b = min(b, n)
    out, i = [], a
    while i + len(sub) <= b:
        if text[i:i + len(sub)] == sub:
            out.append(i)
            i += len(sub)
        else:
            i += 1
    return out


@facet("C06", "literal", 3)
class _:
    @staticmethod
    def gen(rng):
        al = rng.choice(["ab", "aAbB", "abc ", "İiIı", "aß"])
        return dict(text="".join(rng.choice(al) for _ in range(rng.randint(0, 10))), sub="".join(rng.choice(al) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))),
                    a=rng.choice([None, None, 0, 1, 3, 12]), b=rng.choice([None, None, 0, 2, 5, 30]), ic=rng.random() < .4)

    @staticmethod
    def check(case):
        text, sub, a, b, ic = case["text"], case["sub"], case["a"], case["b"], case["ic"]
        if sub:
            w = occurrences(text, sub, a, b, ic)
            got = list(find_all(text, sub, a, b, ic))
            if got != w:
                return "find_all(%r, %r, %r, %r, %r) is %r instead of %r" % (text, sub, a, b, ic, got, w)
        else:
            got = list(find_all(text, sub, a, b, ic))
            if got != sorted(set(got)):
                return "find_all with an empty literal repeats positions"
        kw = {}
        if ic:
            kw["ignore_case"] = True
        if a is not None:
            kw["start"] = a
        if b is not None:
            kw["end"] = b
        opts = {k: v for k, v in kw.items() if k == "ignore_case"}
        w = occurrences(text, sub, None, None, ic) if sub else []
        p = StringPattern(sub, "b", **opts)
        got = [m.span for m in p.matches(text)]
        want = [(i, i + len(sub)) for i in w] + [(i, i + 1) for i in occurrences(text, "b", None, None, ic)]
        if got != want:
            return "string pattern %r, 'b' in %r reports %r instead of %r" % (sub, text, got, want)
        for m in p.matches(text):
            if m.raw != text[m.start:m.end] or m.value != m.raw or m.input_string != text:
                return "match %s reports %r" % (m.span, m.raw)
        ms = Rebulk().string(sub, **opts).matches(text)
        if [m.span for m in ms] != [(i, i + len(sub)) for i in w]:
            return "search for %r in %r gives %s instead of %r" % (sub, text, show(ms), w)
        return None


EXPRS = [r"(?P<x>a)(b)?", r"a+", r"(a)|(?P<y>b)", r"(?P<x>(?P<y>a)b)c?", r"()a", r"(a*)(b*)", r"b*", r"(?P<x>[ab])(?P<y>[bc])?", r"(?:a|b)c", r"(a(b)?)+", r"(?=a)", r"(?P<x>)b", r"\b", r"((a)(b)|(?P<z>c))"]


@facet("C07", "regex", 2)
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("aabbc ") for _ in range(rng.randint(0, 8))), es=[rng.randrange(len(EXPRS)) for _ in range(rng.randint(1, 2))], name=rng.choice([None, "nm"]),
                    tags=rng.choice([None, ["t"]]), how=rng.choice(["str", "tuple", "dict", "compiled"]), rep=rng.random() < .5, ic=rng.random() < .2, abbr=rng.random() < .2)

    @staticmethod
    def check(case):
        text = case["text"]
        kw = {}
        if case["name"]:
            kw["name"] = case["name"]
        if case["tags"]:
            kw["tags"] = case["tags"]
        rep = case["rep"] and REGEX_ENABLED
        kw["repeated_captures"] = rep
        fl = rre.IGNORECASE if case["ic"] else 0
        pats, refs = [], []
        for e in case["es"]:
            x = EXPRS[e]
            y = x
            if case["abbr"]:
                x, y = x.replace("a", "~"), x
            if case["how"] == "str":
                pats.append(x if not case["abbr"] else x)
                refs.append(rre.compile(y, fl))
            elif case["how"] == "tuple" and not case["abbr"]:
                pats.append((x, fl))
                refs.append(rre.compile(x, fl))
            elif case["how"] == "dict":
                pats.append({"pattern": x, "flags": fl})
                refs.append(rre.compile(y, fl))
            else:
                pats.append(rre.compile(y, fl))
                refs.append(rre.compile(y, fl))
        if case["abbr"]:
            kw["abbreviations"] = [("~", "a")]
        if case["how"] == "str" and fl:
            kw["flags"] = fl
        keep = [dict(p) if isinstance(p, dict) else p for p in pats]
        p = RePattern(*pats, **kw)
        if keep != pats:
            return "building the pattern changed the expression passed"
        res, raw = p.matches(text, {}, True)
        want = []
        for r in refs:
            inv = {v: k for k, v in r.groupindex.items()}
            for mo in r.finditer(text):
                if mo.end() <= mo.start():
                    continue
                kids = []
                for g in range(1, r.groups + 1):
                    spans = mo.spans(g) if rep else [mo.span(g)]
                    kids += [(s, inv.get(g, case["name"])) for s in spans if s[0] >= 0 and s[1] > s[0]]
                want.append((mo.span(), case["name"], kids))
        got = [(m.span, m.name, [(c.span, c.name) for c in m.children]) for m in raw]
        if got != want:
            return "raw matches of %s in %r are %r instead of %r" % ([EXPRS[e] for e in case["es"]], text, got, want)
        for m in raw:
            for c in [m] + list(m.children):
                if c.raw != text[c.start:c.end] or c.input_string != text or list(c.tags) != (case["tags"] or []) or c.pattern is not p:
                    return "match %s reports %r, tags %r" % (c.span, c.raw, c.tags)
            if any(c.parent is not m for c in m.children) or m.parent is not None:
                return "parent of a child is wrong"
        if [m.span for m in res] != [w[0] for w in want]:
            return "matches of the pattern are %s" % show(res)
        return None


@facet("C07", "functional", 2)
class _:
    @staticmethod
    def gen(rng):
        def span():
            return dict(k=rng.choice(["t", "t", "d", "to"]), s=rng.randint(0, 6), l=rng.choice([0, 1, 2, 3]), name=rng.choice([None, None, "own"]), val=rng.choice([None, None, "lit"]),
                        tags=rng.choice([None, ["o"]]), extra=rng.random() < .2)
        return dict(text="abcdefghij", fns=[dict(shape=rng.choice(["none", "single", "list", "tuple", "gen", "empty", "list"]), ret=[span() for _ in range(rng.randint(1, 3))]) for _ in range(rng.randint(1, 2))],
                    name=rng.choice([None, "nm"]), tags=rng.choice([None, ["t"]]), ctx=rng.random() < .5)

    @staticmethod
    def check(case):
        text = case["text"]
        name, tags = case["name"], case["tags"]

        def opts(sp):
            d = {}
            if sp["name"]:
                d["name"] = sp["name"]
            if sp["val"]:
                d["value"] = sp["val"]
            if sp["tags"]:
                d["tags"] = list(sp["tags"])
            return d

        def mk(sp):
            s, e = sp["s"], sp["s"] + sp["l"]
            if sp["k"] == "t":
                return (s, e)
            if sp["k"] == "to":
                return (s, e, opts(sp))
            d = dict(start=s, end=e, **opts(sp))
            if sp["extra"]:
                d["input_string"] = "other"
                d["pattern"] = None
            return d
        fns, want = [], []
        for f in case["fns"]:
            ret = f["ret"]
            if not ret:
                return None
            sh = f["shape"]
            if sh == "single":
                ret = ret[:1]
            if sh in ("none", "empty"):
                ret = []

            def fn(string, context=None, ret=ret, sh=sh):
                if string != text:
                    raise ValueError("text")
                if sh == "none":
                    return None
                if sh == "empty":
                    return []
                v = [mk(r) for r in ret]
                if sh == "single":
                    return v[0]
                if sh == "tuple":
                    return tuple(v)
                if sh == "gen":
                    return (x for x in v)
                return v
            fns.append(fn)
            for sp in ret:
                if sp["l"] > 0:
                    o = opts(sp) if sp["k"] != "t" else {}
                    want.append(((sp["s"], sp["s"] + sp["l"]), o.get("name", name), o.get("tags", tags or []), o.get("value", text[sp["s"]:sp["s"] + sp["l"]])))
        kw = {}
        if name:
            kw["name"] = name
        if tags:
            kw["tags"] = tags
        p = FunctionalPattern(*fns, **kw)
        for turn in (0, 1):
            res, raw = p.matches(text, {}, True)
            got = [(m.span, m.name, list(m.tags), m.value) for m in raw]
            if got != want:
                return "functional matches are %r instead of %r (search %d)" % (got, want, turn)
            for m in raw:
                if m.input_string != text or m.raw != text[m.start:m.end] or m.pattern is not p or list(m.children):
                    return "match %s reports %r" % (m.span, m.raw)
                m.tags.append("poison")
        return None


# ------------------------------------------------------------------ C08
KEYS = ["x", "y", "nm", "__children__", "__parent__", "null"]


def pick(table, name, child, default):
    for k in ([name] if name else []) + ["__children__" if child else "__parent__", "null"]:
        if k in table:
            return table[k]
    return default


def gentable(rng, choices, n):
    return {k: rng.choice(choices) for k in rng.sample(KEYS, rng.randint(0, n))}


VAL = {"short": lambda m: len(m) < 2, "no": lambda m: False, "yes": lambda m: True, "early": lambda m: m.start < 3, "hasb": lambda m: "b" in (m.raw or ""), "off": None}
FMT = {"up": lambda s: s.upper(), "wrap": lambda s: "<%s>" % s, "len": lambda s: len(s), "rev": lambda s: s[::-1], "off": None}


@facet("C08", "process", 3)
class _:
    @staticmethod
    def gen(rng):
        fl = {k: rng.random() < .25 for k in ("children", "every", "private", "private_parent", "private_children", "validate_all", "format_all", "marker")}
        return dict(text="".join(rng.choice("aabbc") for _ in range(rng.randint(1, 7))), e=rng.choice([0, 2, 3, 7, 13]), name=rng.choice([None, "nm"]), fl=fl,
                    value=gentable(rng, ["v1", "v2", 7, None], 2), formatter=gentable(rng, list(FMT), 3), validator=gentable(rng, list(VAL), 2), single=rng.random() < .2,
                    pn=rng.sample(["x", "y", "nm"], rng.choice([0, 0, 1, 2])), ig=rng.sample(["x", "y", "nm"], rng.choice([0, 0, 1])))

    @staticmethod
    def check(case):
        text = case["text"]
        fl = case["fl"]
        un = lambda d, T: {(None if k == "null" else k): T[v] if T else v for k, v in d.items()}
        kw = {k: v for k, v in fl.items() if v}
        value, fmt, val = dict(case["value"]), dict(case["formatter"]), dict(case["validator"])
        if case["single"]:
            value, fmt, val = [{k: d[k] for k in d if k == "null"} for d in (value, fmt, val)]
            for key, d, T in (("value", value, None), ("formatter", fmt, FMT), ("validator", val, VAL)):
                if d:
                    kw[key] = T[d["null"]] if T else d["null"]
        else:
            for key, d, T in (("value", value, None), ("formatter", fmt, FMT), ("validator", val, VAL)):
                if d:
                    kw[key] = un(d, T)
        if case["name"]:
            kw["name"] = case["name"]
        if case["pn"]:
            kw["private_names"] = list(case["pn"])
        if case["ig"]:
            kw["ignore_names"] = list(case["ig"])
        rx = re.compile(EXPRS[case["e"]])
        p = RePattern(EXPRS[case["e"]], **kw)
        got = p.matches(text, {})
        inc_child = fl["children"] or fl["every"]
        inc_par = not fl["children"] or fl["every"]
        inv = {v: k for k, v in rx.groupindex.items()}
        want = []
        n = -1
        for mo in rx.finditer(text):
            if mo.end() <= mo.start():
                continue
            n += 1
            kids = [(mo.span(g), inv.get(g, case["name"])) for g in range(1, rx.groups + 1) if mo.span(g)[0] >= 0 and mo.span(g)[1] > mo.span(g)[0]]
            ok = True
            for (span, name), child in [((mo.span(), case["name"]), False)] + [(k, True) for k in kids]:
                if (inc_child if child else inc_par) or fl["validate_all"]:
                    v = pick(val, name, child, "yes")
                    if VAL[v] is not None and not VAL[v](Match(span[0], span[1], input_string=text)):
                        ok = False
            if not ok:
                continue

            def descr(span, name, child):
                raw = text[span[0]:span[1]]
                lit = pick(value, name, child, None)
                f = pick(fmt, name, child, None)
                if not ((inc_child if child else inc_par) or fl["format_all"]):
                    f = None
                v = lit if lit else (FMT[f](raw) if f and FMT[f] else raw)
                priv = fl["private"] or (name and name in case["pn"]) or (fl["private_children"] if child else fl["private_parent"])
                return (span, name, v, bool(priv), fl["marker"], n)
            if (inc_par or fl["private_parent"]) and case["name"] not in case["ig"]:
                want.append(descr(mo.span(), case["name"], False))
            if inc_child or fl["private_children"]:
                want += [descr(s, nm, True) for s, nm in kids if nm not in case["ig"]]
        g = [(m.span, m.name, m.value, bool(m.private), bool(m.marker), m.match_index) for m in got]
        if g != want:
            for a, b in zip(g + [None] * 9, want + [None] * 9):
                if a != b:
                    return "pattern %s in %r returns %r where %r is configured" % (EXPRS[case["e"]], text, a, b)
        for m in got:
            if m.raw != text[m.start:m.end]:
                return "raw text of %s is %r" % (m.span, m.raw)
        return None


@facet("C08", "hooks")
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("ab ") for _ in range(rng.randint(1, 8))), pre=rng.choice([None, "drop", "keep", "grow"]), post=rng.choice([None, "drop", "keep", "other"]), pp=rng.choice([None, "rev", "first"]), val=rng.choice([None, "early"]))

    @staticmethod
    def check(case):
        text = case["text"]
        seen = []

        def pre(m):
            seen.append(("pre", m.span))
            if case["pre"] == "drop" and m.start % 2:
                return False
            if case["pre"] == "grow":
                m.name = "pre"

        def post(m):
            seen.append(("post", m.span))
            if case["post"] == "drop" and m.start % 2 == 0:
                return False
            if case["post"] == "other":
                return Match(m.start, m.end, name="post", input_string=text)

        def pp(ms, pattern):
            return list(reversed(ms)) if case["pp"] == "rev" else ms[:1]
        kw = {}
        if case["pre"]:
            kw["pre_match_processor"] = pre
        if case["post"]:
            kw["post_match_processor"] = post
        if case["pp"]:
            kw["post_processor"] = pp
        if case["val"]:
            kw["validator"] = VAL["early"]
        got = RePattern("[ab]+", **kw).matches(text)
        want = []
        for mo in re.finditer("[ab]+", text):
            nm = None
            if case["pre"] == "drop" and mo.start() % 2:
                continue
            if case["pre"] == "grow":
                nm = "pre"
            if case["val"] and not mo.start() < 3:
                continue
            if case["post"] == "drop" and mo.start() % 2 == 0:
                continue
            if case["post"] == "other":
                nm = "post"
            want.append((mo.span(), nm))
        if case["pp"] == "rev":
            want.reverse()
        elif case["pp"] == "first":
            want = want[:1]
        g = [(m.span, m.name) for m in got]
        return None if g == want else "with processors the matches are %r instead of %r" % (g, want)


# ------------------------------------------------------------------ C09
PARTS = ["a", "b", "[ab]", "c", "ab", "(?P<g>a)", "a|bc", " "]
REPS = [1, "?", "*", "+", 2, "{1,2}", "{2,}", "{0,2}", "{,3}"]


def bounds(r):
    return {1: (1, 1), 2: (2, 2), "?": (0, 1), "*": (0, None), "+": (1, None), "{1,2}": (1, 2), "{2,}": (2, None), "{0,2}": (0, 2), "{,3}": (0, 3)}[r]


def segment(text, parts):
    """Can text be cut into consecutive pieces, part k contributing between lo and hi pieces it fully matches?"""
    import functools
    n = len(text)

    @functools.lru_cache(None)
    def go(pos, k, cnt):
        if k == len(parts):
            return pos == n
        p, lo, hi = parts[k]
        if cnt >= lo and go(pos, k + 1, 0):
            return True
        if hi is not None and cnt >= hi:
            return False
        for e in range(pos + 1, n + 1):
            if p.fullmatch(text, pos, e) and go(e, k, min(cnt + 1, 12)):
                return True
        return False
    return go(0, 0, 0)


def run_exists(text, specs, tops, pv):
    """Is there a run of consecutive pieces, part after part, each part within its bounds, whose visible accepted pieces are tops?"""
    import functools
    n = len(text)

    @functools.lru_cache(None)
    def go(pos, k, cnt, ti, rej):
        if k == len(specs):
            return ti == len(tops)
        rx, lo, hi, hidden, part = specs[k]
        if cnt >= lo and go(pos, k + 1, 0, ti, False):
            return True
        if hi is not None and cnt >= hi:
            return False
        for e in range(pos + 1, n + 1):
            if not rx.fullmatch(text, pos, e):
                continue
            if hidden:
                if go(e, k, cnt + 1, ti, rej):
                    return True
                continue
            if ti < len(tops) and tops[ti].span == (pos, e) and tops[ti].pattern is part.pattern and go(e, k, cnt + 1, ti + 1, rej):
                return True
            bad = bool(pv) and text[pos:e] in pv
            if (bad or rej) and go(e, k, cnt + 1, ti, True):
                return True
        return False
    return any(go(s, 0, 0, 0, False) for s in range(0, (tops[0].start if tops else n) + 1))


def spanfn(src):
    def fn(string, context):
        return [m.span() for m in re.finditer(src, string)] if context.get("on") else None
    return fn


@facet("C09", "chain", 3)
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("aabbc x") for _ in range(rng.randint(0, 9))), parts=[dict(p=rng.randrange(len(PARTS)), r=rng.randrange(len(REPS)), h=rng.random() < .2,
                    kind=rng.choice(["re", "re", "str", "fn"])) for _ in range(rng.randint(1, 4))], pre=rng.choice([0, 0, 1]), brk=rng.choice([0, 0, 0, 1]), vd=rng.choice([0, 0, 0, 1, 1, 2]), kids=rng.random() < .3, pv=rng.choice([None, None, None, ["b"], ["a"], ["ab", "c"]]))

    @staticmethod
    def check(case):
        text = case["text"]
        if not case["parts"]:
            return None
        kw = {}
        if case["brk"]:
            kw["chain_breaker"] = lambda ms: len(ms) > 3
        if case["vd"]:
            most = 4 if case["vd"] == 1 else 2
            kw["validator"] = {"__parent__": lambda m: len(m) < most}
        pk = {}
        if case.get("pv"):
            pk["validator"] = lambda m: m.raw not in case["pv"]
        if case["kids"]:
            kw["children"] = True
        ch = Rebulk().chain(**kw)
        specs = []
        cb = ch
        for q in case["parts"]:
            src = PARTS[q["p"] % len(PARTS)]
            rep = REPS[q["r"] % len(REPS)]
            kind = q["kind"]
            if kind == "str" and not src.isalnum() and src != " ":
                kind = "re"
            if kind == "str":
                part = cb.string(src, **pk)
            elif kind == "fn":
                part = cb.functional(spanfn(src), **pk)
            else:
                part = cb.regex(src, **pk)
            part = part.repeater(rep)
            if q["h"]:
                part = part.hidden()
            specs.append((re.compile(src), bounds(rep)[0], bounds(rep)[1], q["h"], part))
        rb = ch.close()
        ctx = {"on": True}
        out = rb.effective_patterns(ctx)[0].matches(text, ctx, True)
        ms, raw = out
        for m in raw:
            kids = list(m.children)
            for c in kids:
                if c.input_string != text or c.raw != text[c.start:c.end] or not (0 <= c.start < c.end <= len(text)):
                    return "child %s reports %r of %r" % (c.span, c.raw, text)
            if m.input_string != text:
                return "match is not relative to the whole input"
            hidden = any(s[3] for s in specs)
            if case["brk"] and len([c for c in kids if c.parent is m]) > 3:
                return "chain breaker ignored: %s" % show(kids)
            if not kids:
                continue
            if not hidden and not case["brk"]:
                # sequence of the parts, contiguous, in order, within bounds
                if not case.get("pv"):
                    if not segment(text[m.start:m.end], tuple((s[0], s[1], s[2]) for s in specs)):
                        return "match %s %r is not a sequence of %s" % (m.span, text[m.start:m.end], [(s[0].pattern, s[1], s[2]) for s in specs])
                if min(c.start for c in kids) != m.start or max(c.end for c in kids) != m.end:
                    return "match %s does not span its parts %s" % (m.span, show(kids))
                top = [c for c in kids if c.parent is m]
                pos = m.start
                for c in top:
                    if c.start != pos and not case.get("pv"):
                        return "parts of %s are not adjacent: %s" % (m.span, show(top))
                    pos = c.end
                if pos != m.end:
                    return "parts of %s are not adjacent: %s" % (m.span, show(top))
            if not case["brk"] and not run_exists(text, specs, [c for c in kids if c.parent is m], case.get("pv")):
                return "no run of pieces of %s has the pieces %s of match %s" % ([(s[0].pattern, s[1], s[2], "hidden" if s[3] else "") for s in specs], [c.span for c in kids if c.parent is m], m.span)
            # attribution
            last = -1
            for c in [c for c in kids if c.parent is m]:
                ks = [k for k, s in enumerate(specs) if s[4].pattern is c.pattern]
                if len(ks) != 1:
                    return "child attributed to no part"
                if specs[ks[0]][3]:
                    return "hidden part %s returned as child" % (c.span,)
                if not specs[ks[0]][0].fullmatch(text, c.start, c.end):
                    return "piece %r attributed to part %s" % (c.raw, specs[ks[0]][0].pattern)
                if ks[0] < last:
                    return "parts out of order in %s" % show(kids)
                last = ks[0]
            for k, s in enumerate(specs):
                if s[3] or case["brk"]:
                    continue
                cnt = len([c for c in kids if c.pattern is s[4].pattern and c.parent is m])
                if (cnt < s[1] and not case.get("pv")) or (s[2] is not None and cnt > s[2]):
                    return "part %s occurs %d times in %s (bounds %s)" % (s[0].pattern, cnt, m.span, s[1:3])
        if case["vd"]:
            for m in ms:
                if not case["kids"] and len(m) >= most:
                    return "match %s of length %d kept although the validator refuses it" % (m.span, len(m))
        full = rb.matches(text, ctx)
        if not case["kids"]:
            for m in full:
                if m.raw != text[m.start:m.end]:
                    return "result text %r" % m.raw
        return None


VALID = ["len(m) < 2", "len(m) < 3", "len(m) < 5", "len(m) == 2", "m.raw.endswith('a')", "m.raw.endswith('b')", "m.raw[:1] == m.raw[-1:]", "len(m.children) < 3", "len(m.children) % 2 == 0", "True", "False", "m.end < 5", "not m.raw"]


@facet("C09", "retry", 2)
class _:
    """What a validator makes of the matches of a chain: each is kept, or shortened by the last repetitions of its last part, or dropped."""
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("aabbc x") for _ in range(rng.randint(0, 10))), parts=[dict(p=rng.randrange(len(PARTS)), r=rng.choice([0, 1, 2, 3, 3, 3, 4, 5, 6, 7, 8]), h=rng.random() < .12) for _ in range(rng.randint(1, 3))],
                    v=rng.randrange(len(VALID)), kids=rng.random() < .4)

    @staticmethod
    def check(case):
        text = case["text"]
        if not case["parts"]:
            return None

        def build(**kw):
            cb = Rebulk().chain(**kw)
            parts = []
            for q in case["parts"]:
                rep = REPS[q["r"] % len(REPS)]
                cb = cb.regex(PARTS[q["p"] % len(PARTS)].replace("(?P<g>a)", "a")).repeater(rep)
                if q["h"]:
                    cb = cb.hidden()
                parts.append((cb.pattern, bounds(rep)[0]))
            return cb.close().effective_patterns({})[0], parts
        plain, parts = build()
        ok = eval("lambda m: " + VALID[case["v"] % len(VALID)])
        want = []
        dropped = []
        for m in plain.matches(text):
            kids = list(m.children)
            if ok(m):
                want.append((m.span, [c.span for c in kids]))
                continue
            if not kids:
                continue
            lastp = kids[-1].pattern
            low = None
            for p, lo in reversed(parts):
                if p is lastp:
                    low = lo
                    break
                if lo:
                    break
            n = len([c for c in kids if c.pattern is lastp])
            full = (m.span, [c.span for c in kids])
            while low is not None and n > low:
                n -= 1
                kids.pop()
                x = Match(m.start, kids[-1].end if kids else m.start, input_string=text)
                for c in kids:
                    x.children.append(c)
                if ok(x):
                    if kids:
                        want.append((x.span, [c.span for c in kids]))
                    break
            else:
                dropped.append(full)
        seen = []

        def valid(m):
            seen.append(m)
            return ok(m)
        chain, _ = build(validator={"__parent__": valid}, **({"every": True} if case["kids"] else {}))
        ms, raw = chain.matches(text, None, True)
        got = [(m.span, [c.span for c in m.children]) for m in ms if not case["kids"] or m.parent is None]
        if got != want:
            return "the chain gives %s instead of %s" % (got, want)
        if any(c.parent is not m for m in raw for c in m.children):
            return "a piece has another parent"
        as_raw = [(m.span, [c.span for c in m.children]) for m in raw]
        if any(d not in as_raw for d in dropped):
            return "a match dropped is not as it was found: %s among %s" % (dropped, as_raw)
        if case["kids"] and [m.span for m in ms if m.parent is not None] != [c for _, cs in want for c in cs]:
            return "the pieces returned are %s instead of %s" % ([m.span for m in ms if m.parent is not None], [c for _, cs in want for c in cs])
        return None


EVERY = ["a", "(a)b", "(b)", "b(c)", "a(b)(c)", "(a)(b)?c", "c", "(?:(a)|(b))c"]


@facet("C09", "groups")
class _:
    """Parts with groups, returning pieces, groups or both: the match spans them all and holds them all."""
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("aabbc") for _ in range(rng.randint(0, 9))), parts=[dict(p=rng.randrange(len(EVERY)), r=rng.choice(["1", "+", "?", "*", "{1,2}"]),
                    how=rng.choice(["", "every", "children", "private_children", "private_parent"])) for _ in range(rng.randint(1, 3))])

    @staticmethod
    def check(case):
        text = case["text"]
        if not case["parts"]:
            return None
        ch = Rebulk().chain()
        cb = ch
        for q in case["parts"]:
            cb = cb.regex(EVERY[q["p"] % len(EVERY)], **({q["how"]: True} if q["how"] else {})).repeater(q["r"])
        rb = cb.close()
        ms, raw = rb.effective_patterns({})[0].matches(text, {}, True)
        for m in raw:
            kids = list(m.children)
            if len({id(c) for c in kids}) != len(kids):
                return "a piece is listed twice in %s" % show(kids)
            if not kids or (min(c.start for c in kids), max(c.end for c in kids)) != m.span:
                return "match %s does not span its pieces %s" % (m.span, show(kids))
            for c in kids:
                if c.input_string != text or c.raw != text[c.start:c.end]:
                    return "piece %s reports %r" % (c.span, c.raw)
                for g in c.children:
                    if not (c.start <= g.start and g.end <= c.end) or g.input_string != text:
                        return "group %s is outside its piece %s" % (g.span, c.span)
        return None


@facet("C09", "complete")
class _:
    """One part chains and disjoint-letter chains: exactly the runs."""
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("aabbcx") for _ in range(rng.randint(0, 10))), ra=rng.randrange(4), rb=rng.randrange(4), h=rng.choice([0, 0, 1, 2]))

    @staticmethod
    def check(case):
        text = case["text"]
        R = ["", "?", "*", "+"]
        ra, rb = R[case["ra"] % 4], R[case["rb"] % 4]
        if ra in ("?", "*") and rb in ("?", "*"):
            rb = ""
        if ra == "?":
            ra = ""
        if ra == "*":
            ra = "+"
        pa = Rebulk().chain().regex("a").repeater(ra or 1)
        if case["h"] == 1:
            pa = pa.hidden()
        pb = pa.regex("b").repeater(rb or 1)
        if case["h"] == 2:
            pb = pb.hidden()
        got = pb.close().matches(text)
        # soundness only: each result is such a sequence
        for m in got:
            seq = [text[c.start:c.end] for c in m.children]
            vis = {0: "a%s b%s", 1: "b%s", 2: "a%s"}[case["h"]]
            rx = {0: "a%sb%s" % (ra, rb), 1: "b%s" % rb, 2: "a%s" % ra}[case["h"]]
            if not re.fullmatch(rx, "".join(seq)):
                return "children %r of %s" % (seq, m.span)
        # a text that is exactly one sequence is found
        if re.fullmatch("(?:a%sb%s)" % (ra, rb), text) and len(text) > 0 and case["h"] == 0:
            if [m.span for m in got] != [(0, len(text))]:
                return "%r is a sequence a%sb%s but the result is %s" % (text, ra, rb, show(got))
        return None
