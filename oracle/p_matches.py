"""Facets of the match collection properties C01-C05, C11 (collections), C15, C16, C18."""
from base import facet, same, show, snap
from rebulk.match import Match, Matches, Markers

TEXTS = ["abcdefghij", "a b  c.d e", "..ab..cd..", "x", "ab-cd ef_gh-ij kl", " a"]


def mkpool(case, marker=False, text=None):
    """Distinct match objects; values are distinct so that == coincides with identity."""
    out = []
    for n, p in enumerate(case):
        s = p["s"]
        e = s + p["l"]
        if text is not None and e > len(text):
            s = min(s, len(text) - 1)
            e = len(text)
        out.append(Match(s, e, value=p.get("v") or "v%d" % n, name=p["n"], tags=list(p["t"]), marker=marker, input_string=text,
                         private=p.get("p")))
        if p.get("r"):
            # the text reported may be set apart from the span: lookups go by the span
            out[-1].raw_start, out[-1].raw_end = (0 if p["r"] == 1 else e), (e + 2 if p["r"] == 1 else 0)
    return out


def genpool(rng, n, minlen=0, maxpos=8):
    return [dict(s=rng.randint(0, maxpos), l=rng.choice([0, 1, 1, 2, 3, 4]) if minlen == 0 else rng.randint(1, 4),
                 n=rng.choice([None, "a", "b", "c", "a"]), t=[rng.choice("xyz") for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))],
                 r=rng.choice([0] * 10 + [1, 2])) for _ in range(n)]


def lookups(c, model, rng_positions=range(0, 14)):
    """Compare every lookup with its definition; None or a message."""
    if len(c) != len(model) or not same(list(c), model):
        return "content is %s instead of %s" % (show(c), show(model))
    if any(c[i] is not model[i] for i in range(len(model))):
        return "indexing differs from iteration"
    for name in ("a", "b", "c", "zz"):
        w = [m for m in model if m.name == name]
        g = c.named(name)
        if not same(g, w):
            return "named(%r) is %s instead of %s" % (name, show(g), show(w))
    for tag in ("x", "y", "z", "zz"):
        w = [m for m in model if tag in m.tags]
        g = c.tagged(tag)
        if not same(g, w):
            return "tagged(%r) is %s instead of %s" % (tag, show(g), show(w))
    for i in rng_positions:
        for fn, w in (("starting", [m for m in model if m.start == i]), ("ending", [m for m in model if m.end == i]),
                      ("at_index", [m for m in model if m.start <= i < m.end])):
            g = getattr(c, fn)(i)
            if not same(g, w):
                return "%s(%d) is %s instead of %s" % (fn, i, show(g), show(w))
    w = {m.name for m in model if m.name}
    if set(c.names) != w or len(c.names) != len(w):
        return "names is %r instead of %r" % (sorted(c.names), sorted(w))
    w = {t for m in model for t in m.tags}
    if set(c.tags) != w or len(c.tags) != len(w):
        return "tags is %r instead of %r" % (sorted(c.tags), sorted(w))
    w = max([m.end for m in model] + [len(c.input_string or "")])
    if c.max_end != w:
        return "max_end is %r instead of %r" % (c.max_end, w)
    return None


def probe(c, model, which):
    """Use one lookup (it then has to be kept up to date), also checking it."""
    k = which % 7
    if k == 0:
        return None if same(c.named("a"), [m for m in model if m.name == "a"]) else "named('a') wrong"
    if k == 1:
        return None if same(c.tagged("x"), [m for m in model if "x" in m.tags]) else "tagged('x') wrong"
    if k == 2:
        return None if same(c.starting(2), [m for m in model if m.start == 2]) else "starting(2) wrong"
    if k == 3:
        return None if same(c.ending(4), [m for m in model if m.end == 4]) else "ending(4) wrong"
    if k == 4:
        return None if same(c.at_index(3), [m for m in model if m.start <= 3 < m.end]) else "at_index(3) wrong"
    if k == 5:
        return None if set(c.names) == {m.name for m in model if m.name} else "names wrong"
    return None if set(c.tags) == {t for m in model for t in m.tags} else "tags wrong"


OPS = ["append", "append", "insert", "insert", "extend", "set", "setslice", "setext", "del", "delslice", "pop", "popi", "remove", "reverse", "clear", "iadd",
       "probe", "probe", "probe", "probe", "probeall", "mutate", "getslice", "removeeq"]


@facet("C01", "mutations", 3)
class _:
    @staticmethod
    def gen(rng):
        n = rng.randint(0, 9)
        return dict(marker=rng.random() < .2, text=rng.choice([None, "abcdefghij"]), init=genpool(rng, rng.randint(0, 4)),
                    ops=[dict(o=rng.choice(OPS), a=rng.randint(-3, 6), b=rng.randint(-3, 6), k=rng.choice([1, 1, 2, -1]), m=genpool(rng, rng.randint(1, 3))) for _ in range(n)])

    @staticmethod
    def check(case):
        mk = case["marker"]
        model = mkpool(case["init"], mk)
        c = (Markers if mk else Matches)(list(model), input_string=case["text"])
        serial = 100
        for step, op in enumerate(case["ops"]):
            o, a, b = op["o"], op["a"], op["b"]
            new = mkpool(op["m"], mk) or mkpool([dict(s=0, l=1, n="a", t=[])], mk)
            for m in new:
                m.value = "v%d" % serial
                serial += 1
            n = len(model)
            err = None
            if o == "append":
                c.append(new[0]); model.append(new[0])
            elif o == "insert":
                c.insert(a, new[0]); model.insert(a, new[0])
            elif o == "extend":
                c.extend((x for x in new) if op["k"] == -1 else new); model.extend(new)
            elif o == "iadd":
                c += new; model += new
            elif o == "set" and -n <= a < n:
                c[a] = new[0]; model[a] = new[0]
            elif o == "setslice":
                c[a:b] = (x for x in new) if op["k"] == -1 else new
                model[a:b] = new
            elif o == "setext":
                idx = range(*slice(None, None, op["k"]).indices(n))
                rep = (new * 9)[:0]
                rep = [Match(2, 4, value="w%d" % (serial + j), name="b", tags=["x"], marker=mk) for j in range(len(idx))]
                serial += len(idx)
                c[::op["k"]] = rep
                model[::op["k"]] = rep
            elif o == "del" and -n <= a < n:
                del c[a]; del model[a]
            elif o == "delslice":
                del c[a:b:op["k"]]; del model[a:b:op["k"]]
            elif o == "pop" and n:
                x = c.pop(); y = model.pop()
                err = None if x is y else "pop returned another match"
            elif o == "popi" and -n <= a < n:
                x = c.pop(a); y = model.pop(a)
                err = None if x is y else "pop(%d) returned another match" % a
            elif o in ("remove", "removeeq") and n:
                x = model[a % n]
                c.remove(x); del model[a % n]
            elif o == "reverse":
                c.reverse(); model.reverse()
            elif o == "clear":
                c.clear(); model = []
            elif o == "probe":
                err = probe(c, model, a + 3 * b)
            elif o == "probeall":
                err = lookups(c, model)
            elif o == "mutate":
                for fn, arg in (("named", "a"), ("tagged", "x"), ("starting", 2), ("ending", 4), ("at_index", 3)):
                    r = getattr(c, fn)(arg)
                    r.append(new[0])
                    r.reverse()
                for fn, arg in (("at_span", (2, 4)), ("range", 0), ("named", "b")):
                    getattr(c, fn)(arg).clear()
            elif o == "getslice":
                sub = c[a:b]
                if type(sub) is not type(c):
                    err = "slice is a %s" % type(sub).__name__
                else:
                    err = lookups(sub, model[a:b]) if sub.input_string is None else None
            if err:
                return "step %d (%s): %s" % (step, o, err)
        err = lookups(c, model)
        return err and "at the end: " + err


@facet("C01", "arguments")
class _:
    @staticmethod
    def gen(rng):
        return dict(pool=genpool(rng, rng.randint(0, 6)), names=[rng.choice(["a", "b", "c", "zz"]) for _ in range(rng.randint(1, 3))], i=rng.randint(-3, 3), pos=rng.randint(0, 6),
                    k=rng.randint(1, 4), tag=rng.choice("xyz"))

    @staticmethod
    def check(case):
        model = mkpool(case["pool"])
        c = Matches(list(model))
        pred = lambda m: m.start % 4 < case["k"]
        i, pos, tag = case["i"], case["pos"], case["tag"]
        names = case["names"] or ["a"]

        def sel(ms, index):
            try:
                return ms[index]
            except IndexError:
                return None
        ordered = []
        for nm in dict.fromkeys(names):
            ordered += [m for m in model if m.name == nm]
        tests = [("named", names, ordered), ("tagged", [tag], [m for m in model if tag in m.tags]), ("starting", [pos], [m for m in model if m.start == pos]),
                 ("ending", [pos], [m for m in model if m.end == pos]), ("at_index", [pos], [m for m in model if m.start <= pos < m.end])]
        for fn, args, w in tests:
            f = getattr(c, fn)
            fw = [m for m in w if pred(m)]
            for got, want, how in ((f(*args), w, ""), (f(*args, predicate=pred), fw, "predicate"), (f(*args, predicate=None), w, "no predicate"), (f(*args, pred), fw, "positional predicate")):
                if not same(got, want):
                    return "%s%r %s is %s instead of %s" % (fn, tuple(args), how, show(got), show(want))
            for got, want, how in ((f(*args, index=i), sel(w, i), "index"), (f(*args, i), sel(w, i), "positional index"), (f(*args, predicate=pred, index=i), sel(fw, i), "predicate and index"),
                                   (f(*args, pred, i), sel(fw, i), "positional predicate and index"), (f(*args, None, i), sel(w, i), "None and index")):
                if got is not want:
                    return "%s%r with %s %d is %r instead of %r" % (fn, tuple(args), how, i, got, want)
        return lookups(c, model)


# ------------------------------------------------------------------ C02
@facet("C02", "queries")
class _:
    @staticmethod
    def gen(rng):
        return dict(pool=genpool(rng, rng.randint(0, 7), 1), text=rng.choice([None, "abcdefghij", "abcdefghijklmnop"]), q=dict(s=rng.randint(0, 9), l=rng.randint(1, 4)),
                    own=rng.randint(-1, 6), a=rng.randint(0, 9), b=rng.choice([None] + list(range(0, 15))), i=rng.randint(-2, 2), k=rng.randint(1, 4), mut=rng.choice([0, 0, 1, 2, 3]))

    @staticmethod
    def check(case):
        model = mkpool(case["pool"])
        c = Matches(list(model), input_string=case["text"])
        if case["mut"]:
            c.max_end, c.at_index(3), c.starting(1), c.ending(1)
            extra = Match(1, 13, value="extra")
            if case["mut"] == 1:
                c.append(extra); c.remove(extra)
            elif case["mut"] == 2:
                c.insert(0, extra); model.insert(0, extra)
            else:
                c.append(extra); model.append(extra)
        q = model[case["own"]] if 0 <= case["own"] < len(model) else Match(case["q"]["s"], case["q"]["s"] + case["q"]["l"], value="q")
        pred = lambda m: m.start % 4 < case["k"]
        i = case["i"]
        mx = max([m.end for m in model] + [len(case["text"] or "")])
        a = case["a"]
        end = mx if case["b"] is None else min(mx, case["b"])
        rng_ = sorted((m for m in model if m.start < end and m.end > a), key=lambda m: m.span)
        conf = [m for m in model if m is not q and m.start < q.end and q.start < m.end]
        span = [m for m in model if m.start <= q.start < m.end or m.start <= q.end - 1 < m.end]
        pe = [m.end for m in model if m.end <= q.start]
        prev = [m for m in model if m.end == max(pe)] if pe else []
        ns = [m.start for m in model if m.start > q.start]
        nxt = [m for m in model if m.start == min(ns)] if ns else []

        def sel(ms, index):
            try:
                return ms[index]
            except IndexError:
                return None
        for fn, args, want, ordered in (("range", (a, case["b"]), rng_, True), ("conflicting", (q,), conf, False), ("at_span", (q.span,), span, False), ("at_match", (q,), span, False),
                                        ("previous", (q,), prev, False), ("next", (q,), nxt, False)):
            f = getattr(c, fn)
            got = f(*args)
            if ordered and [m.span for m in got] != [m.span for m in want]:
                return "%s%r is not the sorted %s but %s" % (fn, args, show(want), show(got))
            if sorted(map(id, got)) != sorted(map(id, want)):
                return "%s(%s) is %s instead of %s" % (fn, args, show(got), show(want))
            if not same(f(*args, predicate=pred), [m for m in got if pred(m)]):
                return "%s with a predicate does not filter the list" % fn
            if f(*args, index=i) is not sel(got, i) or f(*args, predicate=pred, index=i) is not sel([m for m in got if pred(m)], i):
                return "%s with an index does not select from the list" % fn
        if case["b"] is None and a == 0:
            if not same(c.range(), c.range(0, None)):
                return "range() differs from range(0)"
        return None if same(list(c), model) else "a query changed the collection"


# ------------------------------------------------------------------ C03
@facet("C03", "holes")
class _:
    @staticmethod
    def gen(rng):
        t = rng.choice(TEXTS + [None])
        return dict(text=t, pool=genpool(rng, rng.randint(0, 5), 1, 10), a=rng.choice([0, 0, 0, 1, 2, 3, 5, 12, 20]), b=rng.choice([None, None, None, 0, 3, 5, 8, 12, 99]),
                    ign=rng.choice([0, 0, 1, 2]), seps=rng.choice([None, None, " ", " .-", "_-"]), fmt=rng.random() < .3, full=rng.random() < .5)

    @staticmethod
    def check(case):
        text = case["text"]
        model = mkpool(case["pool"], text=text if case["full"] else None)
        c = Matches(list(model), input_string=text)
        seps = case["seps"] if text else None
        ig = {0: None, 1: (lambda m: m.start % 2 == 0), 2: (lambda m: m.name == "a")}[case["ign"]]
        mx = max([m.end for m in model] + [len(text or "")])
        if seps and mx > len(text):
            return None
        a, end = case["a"], mx if case["b"] is None else min(mx, case["b"])
        cov = {i for m in model if not (ig and ig(m)) for i in range(m.start, m.end)}
        fmt = (lambda s: "<%s>" % s) if case["fmt"] else None
        got = c.holes(a, case["b"], formatter=fmt, ignore=ig, seps=seps)
        free = [i for i in range(a, end) if i not in cov]
        last = a
        for h in got:
            if not (last <= h.start < h.end <= end) or h.start < a:
                return "hole %s not in order or not inside [%d, %d)" % (h.span, a, end)
            last = h.end
            bad = [i for i in range(h.start, h.end) if i in cov]
            if bad:
                return "hole %s contains the covered index %d" % (h.span, bad[0])
            if seps and any(text[i] in seps for i in range(h.start + 1, h.end)):
                return "hole %s contains a separator after its first index" % (h.span,)
            if text and h.end <= len(text):
                w = text[h.start:h.end]
                if h.raw != w or h.value != (fmt(w) if fmt else w):
                    return "hole %s has text %r, value %r" % (h.span, h.raw, h.value)
        inh = {i for h in got for i in range(h.start, h.end)}
        if seps:
            miss = [i for i in free if i not in inh and text[i] not in seps]
            if miss:
                return "uncovered non-separator index %d is in no hole (%s)" % (miss[0], show(got))
        else:
            runs = []
            for i in free:
                if runs and runs[-1][1] == i:
                    runs[-1][1] = i + 1
                else:
                    runs.append([i, i + 1])
            if [list(h.span) for h in got] != runs:
                return "holes are %s instead of %s" % ([h.span for h in got], runs)
        even = c.holes(a, case["b"], formatter=fmt, ignore=ig, seps=seps, predicate=lambda h: h.start % 2 == 0)
        if [h.span for h in even] != [h.span for h in got if h.start % 2 == 0]:
            return "predicate does not filter the holes"
        first = c.holes(a, case["b"], formatter=fmt, ignore=ig, seps=seps, index=0)
        if (first and first.span) != (got[0].span if got else None):
            return "index does not select the hole"
        return None if same(list(c), model) else "holes changed the collection"


# ------------------------------------------------------------------ C04
@facet("C04", "chains")
class _:
    @staticmethod
    def gen(rng):
        t = rng.choice(TEXTS)
        return dict(text=t, pool=genpool(rng, rng.randint(0, 6), 1, 12), pos=rng.randint(0, len(t) + 2), own=rng.randint(-2, 5), bound=rng.choice([None, None, 0, 1, 2, 4, 6, 9]),
                    seps=rng.choice(["", " ", " .", " .-_", "abc "]), k=rng.choice([0, 0, 1, 2]))

    @staticmethod
    def check(case):
        text = case["text"]
        if not text:
            return None
        model = mkpool(case["pool"], text=text)
        c = Matches(list(model), input_string=text)
        pred = {0: None, 1: (lambda m: m.name != "a"), 2: (lambda m: m.start % 2 == 0)}[case["k"]]
        own = model[case["own"]] if 0 <= case["own"] < len(model) else None
        n = len(text)
        for fn in ("chain_before", "chain_after"):
            if fn == "chain_before":
                pos = own.start if own else case["pos"]
                lo = case["bound"] or 0
                idx = list(range(min(pos, n) - 1, lo - 1, -1))
                kw = {} if case["bound"] is None else dict(start=lo)
            else:
                pos = own.end if own else case["pos"]
                hi = n if case["bound"] is None else min(n, case["bound"])
                idx = list(range(pos, hi))
                kw = {} if case["bound"] is None else dict(end=case["bound"])
            want = []
            for i in idx:
                at = [m for m in model if m.start <= i < m.end and (pred is None or pred(m))]
                if not at and text[i] not in case["seps"]:
                    break
                want += [m for m in at if not any(m is w for w in want)]
            got = getattr(c, fn)(own if own else pos, case["seps"], predicate=pred, **kw)
            if not same(got, want):
                return "%s(%r, %r, %r) is %s instead of %s" % (fn, own.span if own else pos, case["seps"], kw, show(got), show(want))
            g0 = getattr(c, fn)(own if own else pos, case["seps"], predicate=pred, index=-1, **kw)
            if g0 is not (want[-1] if want else None):
                return "%s with an index does not select from the chain" % fn
        return None


# ------------------------------------------------------------------ C05
@facet("C05", "crop")
class _:
    @staticmethod
    def gen(rng):
        return dict(s=rng.randint(0, 5), l=rng.randint(1, 8), crops=[dict(s=rng.randint(0, 12), l=rng.choice([0, 1, 1, 2, 3, 6]), m=rng.random() < .4) for _ in range(rng.randint(0, 4))],
                    lit=rng.random() < .4, fmt=rng.random() < .5, single=rng.random() < .3, kids=rng.random() < .3, raw=rng.random() < .15, i=rng.randint(-2, 2))

    @staticmethod
    def check(case):
        text = "abcdefghijklmnopqrst"
        fmt = str.upper if case["fmt"] else None
        s, e = case["s"], case["s"] + case["l"]
        if e == s:
            return None
        m = Match(s, e, name="nm", tags=["t1", "t2"], value=["lit"] if case["lit"] else None, formatter=fmt, input_string=text)
        if case["kids"]:
            m.children.append(Match(s, e, name="kid", parent=m, input_string=text))
        if case.get("raw"):
            m.raw_start, m.raw_end = max(0, s - 2), e + 1
        before = snap(m)
        cs = [dict(c) for c in case["crops"]]
        crops = [Match(c["s"], c["s"] + c["l"], input_string=text) if c["m"] else (c["s"], c["s"] + c["l"]) for c in cs]
        if case["single"] and crops:
            cs = cs[:1]
            got = m.crop(crops[0])
        else:
            got = m.crop(crops)
        gone = {i for c in cs for i in range(c["s"], c["s"] + c["l"])}
        want = [i for i in range(s, e) if i not in gone]
        have = sorted(i for p in got for i in range(p.start, p.end))
        if any(p.end <= p.start for p in got):
            return "crop returned an empty piece %s" % show(got)
        if have != want:
            return "pieces %s of %s cropped by %s cover %s instead of %s" % (show(got), (s, e), [(c["s"], c["s"] + c["l"]) for c in cs], have, want)
        if snap(m) != before or m.tags != ["t1", "t2"]:
            return "crop changed the original"
        sp = [p.span for p in got]
        arg = crops[0] if case["single"] and crops else crops
        bad = chosen(lambda *a, **k: m.crop(arg, *a, **k), sp, case.get("i", 0))
        if bad:
            return "crop " + bad
        if case.get("raw"):
            return None
        return pieces(m, got, text, case["lit"], fmt, "crop")


def chosen(f, spans, i):
    """A list of spans filtered by a predicate, or one of them by index."""
    odd = lambda p: p.start % 2 == 1
    fs = [x for x in spans if x[0] % 2 == 1]
    get = lambda l: l[i] if -len(l) <= i < len(l) else None
    if [p.span for p in f(predicate=odd)] != fs:
        return "with a predicate does not filter"
    for r, w in ((f(index=i), get(spans)), (f(predicate=odd, index=i), get(fs)), (f(i), get(spans))):
        if (r.span if r is not None else None) != w:
            return "with index %d gives %r instead of %r" % (i, r, w)
    return None


def pieces(m, got, text, lit, fmt, what):
    for n, p in enumerate(got):
        if p is m or any(p is q for q in got[:n]):
            return "%s returned an object twice or the original" % what
        if p.name != m.name or list(p.tags) != list(m.tags) or p.formatter is not m.formatter:
            return "%s piece lost name, tags or formatter" % what
        if p.tags is m.tags or any(p.tags is q.tags for q in got[:n]):
            return "%s pieces share their tag list" % what
        raw = text[p.start:p.end]
        if p.raw != raw:
            return "%s piece %s has text %r" % (what, p.span, p.raw)
        want = m.value if lit else (fmt(raw) if fmt else raw)
        if p.value != want:
            return "%s piece %s has value %r instead of %r" % (what, p.span, p.value, want)
    return None


@facet("C05", "split")
class _:
    @staticmethod
    def gen(rng):
        return dict(text="".join(rng.choice("ab .-") for _ in range(rng.randint(1, 12))), s=rng.randint(0, 4), l=rng.randint(1, 10), seps=rng.choice([" ", " .", " .-", "", "a"]), lit=rng.random() < .4, fmt=rng.random() < .5, i=rng.randint(-2, 2))

    @staticmethod
    def check(case):
        text = case["text"]
        s = min(case["s"], max(0, len(text) - 1))
        e = min(len(text), s + case["l"])
        if e <= s:
            return None
        fmt = str.upper if case["fmt"] else None
        m = Match(s, e, name="nm", tags=["t1"], value=["lit"] if case["lit"] else None, formatter=fmt, input_string=text)
        before = snap(m)
        got = m.split(case["seps"])
        want = []
        for i in range(s, e):
            if text[i] not in case["seps"]:
                if want and want[-1][1] == i:
                    want[-1][1] = i + 1
                else:
                    want.append([i, i + 1])
        if [list(p.span) for p in got] != want:
            return "split(%r) of %r is %s instead of %s" % (case["seps"], text[s:e], [p.span for p in got], want)
        if snap(m) != before:
            return "split changed the original"
        bad = chosen(lambda *a, **k: m.split(case["seps"], *a, **k), [p.span for p in got], case.get("i", 0))
        if bad:
            return "split " + bad
        return pieces(m, got, text, case["lit"], fmt, "split")


# ------------------------------------------------------------------ C11 collections
@facet("C11", "wrong-collection")
class _:
    @staticmethod
    def gen(rng):
        return dict(marker=rng.random() < .5, pool=genpool(rng, rng.randint(0, 4)), bad=genpool(rng, 1), op=rng.choice(["append", "insert", "set", "setslice", "extend", "init", "iadd"]), a=rng.randint(0, 4), good=rng.random() < .5, warm=rng.random() < .5)

    @staticmethod
    def check(case):
        mk = case["marker"]
        model = mkpool(case["pool"], mk)
        cls = Markers if mk else Matches
        c = cls(list(model))
        if case["warm"]:
            lookups(c, model)
        bad = (mkpool(case["bad"], not mk) or [Match(0, 1, marker=not mk)])[0]
        good = Match(1, 2, value="good", marker=mk)
        items = [bad] if not case["good"] else [good, bad]
        op, a = case["op"], case["a"]
        try:
            if op == "append":
                c.append(bad)
            elif op == "insert":
                c.insert(a, bad)
            elif op == "set":
                if a >= len(model):
                    return None
                c[a] = bad
            elif op == "setslice":
                c[a:a + 1] = items
            elif op == "extend":
                c.extend([bad])
            elif op == "iadd":
                c += [bad]
            else:
                cls(model + [bad])
        except AssertionError:
            pass
        else:
            return "%s accepted a match of the wrong kind into %s" % (op, cls.__name__)
        return lookups(c, model)


# ------------------------------------------------------------------ C18
NAMES = [None, "a", "b"]


def mkrich(p, cache):
    par = None
    if p["par"]:
        par = Match(0, p["par"], name="par", value="P")
    m = Match(p["s"], p["s"] + p["l"], value=p["v"], name=NAMES[p["n"]], tags=list(p["t"]), parent=par, input_string="abcdefghijklmno" if p["txt"] else None,
              formatter={0: None, 1: str.upper, 2: len}[p["f"]] if p["txt"] else None)
    if p.get("r"):
        m.raw_start, m.raw_end = p["r"]
    return m


class Reflected:
    """Equal to everything."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = object.__hash__


@facet("C18", "compare")
class _:
    @staticmethod
    def gen(rng):
        return dict(ms=[dict(s=rng.randint(0, 2), l=rng.randint(0, 2), v=rng.choice([None, None, "x", "ab", 5, 0, ""]), n=rng.choice([0, 1, 1]), t=rng.choice([[], ["q"]]), par=rng.choice([0, 0, 0, 1, 2]),
                             txt=rng.random() < .7, f=rng.choice([0, 0, 1, 2]), r=rng.choice([None, None, None, [0, 3], [2, 0], [0, 0]])) for _ in range(3)], nv=rng.choice(["zz", None, 7]))

    @staticmethod
    def check(case):
        ms = [mkrich(p, {}) for p in case["ms"]]
        for p, m in zip(case["ms"], ms):
            a, b = p.get("r") or (m.start, m.end)
            raw = "abcdefghijklmno"[a:b] if p["txt"] else None
            want = p["v"] if p["v"] else ({0: lambda x: x, 1: str.upper, 2: len}[p["f"]](raw) if p["txt"] else None)
            if m.value != want or type(m.value) is not type(want):
                return "value of %s is %r instead of %r" % (p, m.value, want)
            if m.raw != raw:
                return "raw is %r" % (m.raw,)
            if len(m) != m.end - m.start or m.span != (m.start, m.end):
                return "length or span wrong"
            if m.has_literal_value != bool(p["v"]):
                return "has_literal_value is %r for a literal of %r" % (m.has_literal_value, p["v"])
            for other in (None, 1, "x", (m.start, m.end), object()):
                if m == other or not (m != other):
                    return "match equals %r" % (other,)
                for op in ("__lt__", "__le__", "__gt__", "__ge__"):
                    if getattr(m, op)(other) is not NotImplemented:
                        return "%s with %r is not refused" % (op, other)
                if (m == Reflected()) is not True or (m != Reflected()) is not False:
                    return "comparison with another type is answered, not left to it"
                try:
                    m < other
                    return "order with %r is not refused" % (other,)
                except TypeError:
                    pass

        def key(m):
            return None if m is None else (m.span, m.value, m.name, key(m.parent))
        for a in ms:
            for b in ms:
                w = key(a) == key(b)
                if bool(a == b) != w:
                    return "%r == %r is %s" % (key(a), key(b), not w)
                if bool(a != b) == w:
                    return "!= is not the negation of == for %r, %r" % (key(a), key(b))
                if w and hash(a) != hash(b):
                    return "equal matches with different hashes"
                if ((a < b), (a <= b), (a > b), (a >= b)) != (a.span < b.span, a.span <= b.span, a.span > b.span, a.span >= b.span):
                    return "order of %s and %s is not the order of the spans" % (a.span, b.span)
        for m in ms:
            h = hash(m)
            m.value = case["nv"]
            m.name = "other"
            m.tags.append("more")
            m.private = True
            m.children.append(Match(0, 1))
            if hash(m) != h:
                return "hash changed with value, name, tags or children"
        return None


@facet("C18", "family")
class _:
    """The names, tags and outermost parent of the matches of a tree."""
    @staticmethod
    def gen(rng):
        n = rng.randint(1, 6)
        return dict(ms=[dict(n=rng.choice([None, "a", "b", "c"]), t=[rng.choice("xyz") for _ in range(rng.choice([0, 0, 1, 2]))], par=rng.randrange(k) if k and rng.random() < .8 else None) for k in range(n)],
                    ask=[rng.choice(["a", "b", "c", "x", "y", "z"]) for _ in range(rng.choice([0, 1, 2]))])

    @staticmethod
    def check(case):
        ps = case["ms"]
        ms = [Match(0, 3, value="v", name=p["n"], tags=list(p["t"])) for p in ps]
        kids = [[] for _ in ps]
        for k, p in enumerate(ps):
            if p["par"] is not None and p["par"] < k:
                ms[k].parent = ms[p["par"]]
                ms[p["par"]].children.append(ms[k])
                kids[p["par"]].append(k)

        def names(k):
            return {ps[k]["n"]} if not kids[k] else set().union(*[names(c) for c in kids[k]])

        def top(k):
            return top(ps[k]["par"]) if ps[k]["par"] is not None and ps[k]["par"] < k else k
        for k, m in enumerate(ms):
            if set(m.names) != names(k):
                return "names of %d are %s instead of %s" % (k, m.names, names(k))
            if m.named(*case["ask"]) is not bool(names(k) & set(case["ask"])):
                return "named(%s) of %s is %s" % (case["ask"], names(k), m.named(*case["ask"]))
            if m.tagged(*case["ask"]) is not bool(set(ps[k]["t"]) & set(case["ask"])):
                return "tagged(%s) of %s is %s" % (case["ask"], ps[k]["t"], m.tagged(*case["ask"]))
            if m.initiator is not ms[top(k)]:
                return "the outermost parent of %d is not %d" % (k, top(k))
            if m.tags != ps[k]["t"] or m.name != ps[k]["n"] or [id(c) for c in m.children] != [id(ms[c]) for c in kids[k]]:
                return "match changed by reading it"
        return None


# ------------------------------------------------------------------ C15
VALS = ["x", "y", 1, 2, 1.0, True, "z", [1], [1, 2], ["x"], {"k": 1}, []]


def coll(case):
    ms = [Match(p["s"], p["s"] + p["l"], value=VALS[p["v"] % len(VALS)], name=p["n"], input_string="abcdefghijklmno") for p in case]
    import copy
    for m in ms:
        m.value = copy.deepcopy(m._value) if hasattr(m, "_value") else m.value
    return ms


def gencoll(rng, n, vs):
    return [dict(s=rng.randint(0, 6), l=rng.randint(1, 3), v=rng.choice(vs), n=rng.choice(["a", "b", "c", None])) for _ in range(n)]


@facet("C15", "to_dict", 2)
class _:
    @staticmethod
    def gen(rng):
        return dict(ms=gencoll(rng, rng.randint(0, 6), list(range(7)) if rng.random() < .6 else list(range(len(VALS)))), details=rng.random() < .2)

    @staticmethod
    def check(case):
        import copy
        ms = coll(case["ms"])
        c = Matches(list(ms), input_string="abcdefghijklmno")
        vals = [copy.deepcopy(m.value) for m in ms]
        order = sorted(ms, key=lambda m: m.span)
        for first in (False, True):
            for enf in (False, True):
                d = c.to_dict(details=case["details"], first_value=first, enforce_list=enf)
                if list(d.keys()) != list(dict.fromkeys(m.name for m in order)):
                    return "names of the dictionary are %r" % list(d.keys())
                for name in d:
                    mine = [m for m in order if m.name == name]
                    vs = mine if case["details"] else [m.value for m in mine]
                    dist = []
                    for v in vs:
                        if v not in dist:
                            dist.append(v)
                    if not same(d.matches[name], mine):
                        return "matches attached for %r are %s" % (name, show(d.matches[name]))
                    if not enf and d.values_list[name] != dist:
                        return "values_list[%r] is %r instead of %r" % (name, d.values_list[name], dist)
                    if any(isinstance(v, list) for v in vs):
                        if len(vs) == 1 and d[name] != vs[0]:
                            return "single list value of %r became %r" % (name, d[name])
                        continue
                    want = dist[0] if first or len(dist) == 1 else dist
                    if enf:
                        want = [dist[0]] if first else dist
                    if d[name] != want or type(d[name]) is not type(want):
                        return "to_dict(first_value=%s, enforce_list=%s)[%r] is %r instead of %r" % (first, enf, name, d[name], want)
                if [m.value for m in ms] != vals or not same(list(c), ms):
                    return "to_dict changed the matches or their values"
                for name in d:
                    if isinstance(d[name], list):
                        d[name].append("poison")
                if [m.value for m in ms] != vals:
                    return "to_dict hands out the value list of a match"
        return None


@facet("C15", "typed", 2)
class _:
    @staticmethod
    def gen(rng):
        return dict(ms=gencoll(rng, rng.randint(0, 5), [0, 1, 2, 3, 6]), key=rng.choice(["a", "b", "zz"]), model=rng.randint(0, 9), decl=rng.choice([None, "int", "str", "bool", "object"]))

    @staticmethod
    def check(case):
        import dataclasses
        import typing
        from rebulk import Key
        ms = coll(case["ms"])
        c = Matches(list(ms), input_string="abcdefghijklmno")
        nm = case["key"]
        k = Key(nm, int)
        vs = [m.value for m in ms if m.name == nm]
        if c.all(k) != vs or (c[k] != (vs[0] if vs else None)):
            return "typed retrieval of %r gives %r / %r instead of %r" % (nm, c[k], c.all(k), vs)

        @dataclasses.dataclass
        class D:
            a: list[str] = dataclasses.field(default_factory=lambda: ["dflt"])
            b: int = -5
            c: "str | None" = "none"
            uu: "int | str | None" = None
            yy: typing.Optional[typing.Union[int, str]] = None
            xx: "list[int] | None" = None

        @dataclasses.dataclass
        class R:
            b: int

        TD = typing.TypedDict("TD", {"a": list[int], "b": int, "zz": str}, total=False)
        by = lambda n: [m.value for m in ms if m.name == n]
        model = case["model"]
        decl = {"int": int, "str": str, "bool": bool, "object": object}.get(case["decl"])
        if decl is not None:
            c.declared_keys = {"b": Key("b", decl), "uu": Key("uu", str), "yy": Key("yy", str), "xx": Key("xx", int)}
        bad = decl is str
        try:
            if model == 0:
                got = c.to(D)
                want = D(by("a"), by("b")[0] if by("b") else -5, by("c")[0] if by("c") else "none")
            elif model == 1:
                want = {"a": by("a")}
                for n in ("b", "zz"):
                    if by(n):
                        want[n] = by(n)[0]
                got = c.to(TD)
            elif model == 2:
                got, want = c.to(R), (R(by("b")[0]) if by("b") else "TypeError")
            elif model == 3:
                bad = False
                got, want = c.to(list[int]), [m.value for m in ms]
            elif model == 4:
                bad = False
                try:
                    got = c.to(int)
                except LookupError:
                    got = "LookupError"
                want = ms[0].value if ms else "LookupError"
            elif model == 5:
                bad = False
                try:
                    got = c.to(list[D])
                except TypeError:
                    return None
                return "list of a dataclass accepted"
            else:
                got, want = c.to(D), D(by("a"), by("b")[0] if by("b") else -5, by("c")[0] if by("c") else "none")
        except TypeError as e:
            if bad or (model == 2 and not by("b")):
                return None
            return "projection raised %s" % e
        if bad:
            return "field of int accepted although the declared key is %s" % decl
        if got != want:
            return "projection gives %r instead of %r" % (got, want)
        if model == 0:
            got.a.append("poison")
            if c.to(D) != want or [m.value for m in ms if m.name == "a"] != by("a"):
                return "projection shares lists with the collection"
        return None if same(list(c), ms) else "projection changed the collection"


# ------------------------------------------------------------------ C16 (collection part)
@facet("C16", "check", 2)
class _:
    @staticmethod
    def gen(rng):
        return dict(ms=[dict(s=rng.randint(0, 5), l=1, n=rng.choice(["a", "b", "c", None, ""]), lit=rng.choice([None, None, None, "str", 3, 0, ""]), priv=rng.random() < .2, f=rng.randint(0, 9)) for _ in range(rng.randint(0, 4))],
                    keys=[dict(n=rng.choice(["a", "b", "d"]), t=rng.choice(["int", "str", "bool", "float"])) for _ in range(rng.randint(0, 3))])

    @staticmethod
    def check(case):
        from rebulk import Key
        T = {"int": int, "str": str, "bool": bool, "float": float}
        fs = [None, len, str.upper, lambda s: None, lambda s: True, lambda s: 1.5, lambda s: 0, lambda s: "", lambda s: False, lambda s: 0.0]
        ms = [Match(p["s"], p["s"] + p["l"], value=p["lit"], name=p["n"], private=p["priv"], formatter=fs[p["f"] % len(fs)], input_string="abcdefghijkl") for p in case["ms"]]
        c = Matches(list(ms), input_string="abcdefghijkl")
        c.declared_keys = {k["n"]: Key(k["n"], T[k["t"]]) for k in case["keys"] if k["t"] in T}
        before = [snap(m) for m in ms]
        bad = [m for p, m in zip(case["ms"], ms) if m.name in c.declared_keys and not m.private and not p["lit"] and m.value is not None and not isinstance(m.value, c.declared_keys[m.name].value_type)]
        try:
            c.check_declared_keys()
            if bad:
                return "value %r of %r accepted for %r" % (bad[0].value, bad[0].name, c.declared_keys[bad[0].name].value_type)
        except TypeError as e:
            if not bad:
                return "rejected: %s" % e
        return None if [snap(m) for m in ms] == before else "the check changed a match"
