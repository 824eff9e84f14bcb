"""C07: regex and functional patterns report exactly what they found."""
from .base import *
from .coll import flt
from .c08 import truthy
from pyvc.engine import Engine
from pyvc.gdict import GDict, dict_hook
from pyvc.builtins_ import SPLATKW, Splat

f_gs = z3.Function("group_start", I, I, I)         # match object, group -> start (-1: takes no part)
f_ge = z3.Function("group_end", I, I, I)
f_spans = z3.Function("group_spans", I, I, LST)    # every capture of the group
f_gname = z3.Function("group_name", I, I)
f_full = z3.Function("match_with", I, I, LST, I)   # start, end, children
f_child = z3.Function("child_with", I, I, I, I)    # start, end, name
f_code = z3.Function("match_of_result", I, I, I, I)


def E_():
    return Engine.cur


class Found:
    """A match object of the regular expression engine."""
    _vc_kind = "mo"

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    def _g(self, g):
        return z3.IntVal(0) if g is None else SInt.lift(g)

    def start(self, g=None):
        return SInt(f_gs(self.code, self._g(g)))

    def end(self, g=None):
        return SInt(f_ge(self.code, self._g(g)))

    def span(self, g=None):
        return (self.start(g), self.end(g))

    def spans(self, g=None):
        return SymList.of_term(f_spans(self.code, self._g(g)), "pair")


class Regex:
    """A compiled regular expression."""

    def __init__(self, e):
        self.G = e.freshint("groups")
        self.N = e.fresh("named", LST)
        self.F = e.fresh("found", LST)
        x, g, i = z3.Int("mx!"), z3.Int("mg!"), z3.Int("mi!")
        e.assume(z3.And(self.G >= 0, f_dist(self.N)))
        e.assume(T.ax([x], z3.Implies(f_mem(x, self.N), z3.And(1 <= x, x <= self.G, f_gname(x) > 0)), f_mem(x, self.N)))
        e.assume(T.ax([x], z3.And(0 <= f_gs(x, 0), f_gs(x, 0) <= f_ge(x, 0)), f_gs(x, 0)))
        e.assume(z3.ForAll([x, g], z3.Or(z3.And(f_gs(x, g) == -1, f_ge(x, g) == -1), z3.And(0 <= f_gs(x, g), f_gs(x, g) <= f_ge(x, g))), patterns=[f_gs(x, g)]))
        e.assumptions.add("the regular expression engine: finditer yields the matches of the expression in order, span(i) the span of group i or (-1, -1), spans(i) every capture, groupindex maps names to group numbers")
        self.groups = SInt(self.G)

    @property
    def groupindex(self):
        return self

    def items(self):
        it = SymIter(f_len(self.N), lambda i: _no("position"), source=self)
        it.enum = lst_iter(self.N, "int", distinct=True)
        it.of_key = lambda c: (SVal(f_gname(c), "str"), SInt(c))
        return it

    def finditer(self, text):
        E_().prove("the whole input is searched", text is self.text)
        return SymList.of_term(self.F, "mo")


def _no(m):
    raise Unsupported(m)


class Made:
    """A match made by the code under verification: its code says everything about it."""
    _vc_kind = "made"

    def __init__(self, e, a, b, **kw):
        self.e, self.a, self.b = e, SInt.lift(a), SInt.lift(b)
        self.__dict__.update(kw)
        self._born = stamp()

    def __bool__(self):
        return self.e.fork(self.b - self.a > 0)


class Main(Made):
    def _vc_enc(self):
        return f_full(self.a, self.b, self.children.term())


class Child(Made):
    def _vc_enc(self):
        return f_child(self.a, self.b, encode(self.name))


@task(["C07", "C20"], "pattern.RePattern._match", functions=["pattern.RePattern._match"])
def _re(e, ctx):
    pm = ctx.pattern

    def body():
        e.decoders["mo"] = Found
        p = object.__new__(pm.RePattern)
        opts, kopts = GDict.fresh("str", "any", "match_options"), GDict.fresh("str", "any", "child_options")
        p.__dict__["_match_kwargs"], p.__dict__["_children_match_kwargs"] = opts, kopts
        rep = bool(e.choose(2))
        p.__dict__["repeated_captures"] = rep
        before = dict(p.__dict__)
        text = SVal(e.freshint("text"), "str")
        rx = Regex(e)
        rx.text = text
        nm, mk = SVal(e.freshint("name"), "optstr"), SVal(e.freshint("marker"), "any")
        made = []

        def match(a, b, **kw):
            parent = kw.pop("parent", None)
            e.prove("a match of this pattern, in this text", bool(kw.pop("pattern", None) is p and kw.pop("input_string", None) is text))
            if parent is None:
                e.prove("with the options of the pattern", bool(list(kw) == [SPLATKW] and kw[SPLATKW] is opts))
                l = SymList()
                l._kind_hint = "made"
                m = Main(e, a, b, name=nm, marker=mk, children=l)
                made.append(m)
                return m
            e.prove("a child of the match, with the options for children", bool(parent is made[-1] and sorted(kw) == [SPLATKW, "name"] and kw[SPLATKW] is kopts))
            return Child(e, a, b, name=kw["name"])

        def markers(base=None, input_string=None):
            l = SymList()
            l.is_markers = True
            e.prove("children of a marker know the text", bool(base is None and input_string is text))
            return l
        pm.Match, pm.Markers = match, markers
        k0, c0, v0, w0 = opts.kterm(), kopts.kterm(), opts.arr(), kopts.arr()
        out = p._match(rx, text, object())
        x, g, c = e.freshint("mo"), e.freshint("grp"), e.freshint("cap")
        name = z3.If(f_mem(g, rx.N), f_gname(g), nm.t)
        if rep:
            fst, snd = pv_pair(c)
            one = e.comps.make(c, z3.If(snd - fst > 0, f_snoc(nil, f_child(fst, snd, name)), nil), f_spans(x, g))
        else:
            s, t = f_gs(x, g), f_ge(x, g)
            one = z3.If(z3.And(s > -1, t > -1, t - s > 0), f_snoc(nil, f_child(s, t, name)), nil)
        kids = e.comps.make(g, one, T.f_rng(z3.IntVal(1), rx.G + 1))
        kids = z3.If(rx.G != 0, kids, nil)
        s, t = f_gs(x, 0), f_ge(x, 0)
        want = e.comps.make(x, z3.If(t - s > 0, f_snoc(nil, f_full(s, t, kids)), nil), rx.F)
        e.prove("one match for every non-empty match of the expression, in order, with its participating non-empty groups as children, in group order, under the group's name or else the pattern's",
                out.term() == want, assume=False)
        e.prove("the pattern and its options are not changed", z3.And(opts.kterm() == k0, kopts.kterm() == c0, opts.arr() == v0, kopts.arr() == w0))
        e.prove("the pattern keeps its attributes", bool(p.__dict__ == before and all(p.__dict__[q] is before[q] for q in before)))
        done(e)
    return body


def pv_pair(c):
    from pyvc.values import f_fst, f_snd
    return f_fst(c), f_snd(c)


# ------------------------------------------------------------------ functional patterns
f_shape = z3.Function("result_shape", I, I)
f_rs = z3.Function("result_start", I, I)
f_re = z3.Function("result_end", I, I)
f_rv = z3.Function("result_value", I, I)
f_rk = z3.Function("result_option_names", I, LST)
f_ra = z3.Function("result_options", I, T.ARR)
f_made = z3.Function("match_of", I, I)             # result -> match
f_full_ = z3.Function("spans_something", I, B)
SHAPES = ["options", "pair", "pair and options", "triple", "triple and options"]


class Res(Made):
    def __init__(self, e, c):
        self.e, self.c = e, c
        self._born = stamp()

    def _vc_enc(self):
        return f_made(self.c)

    def __bool__(self):
        return self.e.fork(f_full_(self.c))


def a_result(e, c, n=None):
    """A result of a user function, of any of the documented shapes."""
    if n is None:
        n = len(SHAPES) - 1
        for k in range(len(SHAPES) - 1):
            if e.fork(f_shape(c) == k):
                n = k
                break
    else:
        e.assume(f_shape(c) == n)
    e.cur, e.curshape = c, n
    e.assume(f_dist(f_rk(c)))
    if n == 0:
        # a result given as options says where it is
        e.assume(z3.And([f_mem(e.code_of_str(x), f_rk(c)) for x in ("start", "end")]))
    d = GDict(f_rk(c), "str", "any", f_ra(c))
    s, t, v = SInt(f_rs(c)), SInt(f_re(c)), SVal(f_rv(c), "any")
    return [d, (s, t), (s, t, d), (s, t, v), (s, t, v, d)][n]


class Gen:
    """A generator of results: iterable, not a sequence."""

    def __init__(self, l):
        self.l = l

    def _vc_iter(self):
        return iterate(self.l)

    def __iter__(self):
        raise Unsupported("native iteration")


@task(["C07", "C20"], "pattern.FunctionalPattern._match", functions=["pattern.FunctionalPattern._match"])
def _fn(e, ctx):
    pm = ctx.pattern

    def body():
        e.dict_hook = dict_hook
        e.feas_ms = 60
        e.isinstance_hook = lambda x, cs: False     # the value of a result is no dictionary
        e.decoders["fret"] = lambda c: a_result(e, c)
        p = object.__new__(pm.FunctionalPattern)
        opts = GDict.fresh("str", "any", "match_options")
        cs = {n: e.code_of_str(n) for n in ("pattern", "input_string", "start", "end")}
        # what filter_match_kwargs leaves: no pattern, no start, no end
        e.assume(z3.And([z3.Not(opts.has(cs[n])) for n in cs]))
        kws = GDict.fresh("str", "any", "kwargs")
        p.__dict__["_match_kwargs"], p.__dict__["_kwargs"] = opts, kws
        before = dict(p.__dict__)
        text, context, fn = SVal(e.freshint("text"), "str"), SVal(e.freshint("context"), "any"), SVal(e.freshint("function"), "any")
        how = e.choose(4)
        c0 = e.freshint("result")
        items = e.fresh("results", LST)
        one = False
        if how == 0:
            ret = [None, [], ()][e.choose(3)]
            items = nil
        elif how == 1:
            sh = e.choose(len(SHAPES))
            ret = a_result(e, c0, sh)
            if sh and e.choose(2):
                ret = list(ret)
            items = f_snoc(nil, c0)
            one = True
        else:
            l = SymList.of_term(items, "fret")
            ret = l if how == 2 else Gen(l)
        calls = []

        def call(f, *a, **kw):
            calls.append(1)
            e.prove("the user function is called with the text and the context, and the options of the pattern", bool(f is fn and a[0] is text and a[1] is context and len(a) == 2 and list(kw) == [SPLATKW] and kw[SPLATKW] is kws))
            return ret
        pm.call = call
        k0, v0 = opts.kterm(), opts.arr()

        def match(*a, **kw):
            c, n = e.cur, e.curshape
            e.prove("a match of this pattern, in this text", bool(kw.pop("pattern", None) is p and kw.pop("input_string", None) is text))
            e.prove("options come as one dictionary", bool(list(kw) == [SPLATKW] and isinstance(kw[SPLATKW], GDict)))
            d = kw[SPLATKW]
            want = 0 if n == 0 else 2 if n < 3 else 3
            e.prove("positions and value of the result", bool(len(a) == want) and z3.And([encode(x) == y for x, y in zip(a, (f_rs(c), f_re(c), f_rv(c)))] + [z3.BoolVal(True)]))
            k = e.freshint("key")
            hasopt = n in (0, 2, 4)
            own = z3.And(f_mem(k, f_rk(c)), z3.And([k != cs[x] for x in ("pattern", "input_string")])) if n == 0 else f_mem(k, f_rk(c)) if hasopt else z3.BoolVal(False)
            e.prove("the options of the result, and those of the pattern", d.has(k) == z3.Or(own, f_mem(k, k0)), assume=False)
            e.prove("an option of the result wins over that of the pattern",
                    z3.Implies(z3.Or(own, f_mem(k, k0)), d.at(k) == z3.If(own, z3.Select(f_ra(c), k), z3.Select(v0, k))), assume=False)
            return Res(e, c)
        pm.Match = match
        out = p._match(fn, text, context)
        outt = out.term()
        c = e.freshint("c")
        want = e.comps.make(c, z3.If(f_full_(c), f_snoc(nil, f_made(c)), nil), items)
        if one:
            want = z3.If(f_full_(c0), f_snoc(nil, f_made(c0)), nil)
        e.prove("one match for every non-empty result, in order", outt == want, assume=False)
        e.prove("the function is called once", bool(len(calls) == 1))
        e.prove("the options of the pattern are not changed", z3.And(opts.kterm() == k0, opts.arr() == v0))
        e.prove("the pattern keeps its attributes", bool(p.__dict__ == before and all(p.__dict__[q] is before[q] for q in before)))
        done(e)
    return body


# ------------------------------------------------------------------ construction
f_pshape = z3.Function("pattern_shape", I, I)
f_pk = z3.Function("pattern_entries", I, LST)
f_pa = z3.Function("pattern_entry", I, T.ARR)
f_pl = z3.Function("pattern_args", I, LST)
f_comp = z3.Function("compiled", I, I)             # pattern given -> expression searched
f_repl = z3.Function("replaced", I, I, I, I)       # str.replace
f_abbr = z3.Function("abbreviated", I, LST, I, I)  # text, abbreviations, how many of them


class Kwargs(GDict):
    """Keyword arguments: any names, any values; the abbreviations are pairs of strings."""

    def val(self, c):
        if self.named and any(c.eq(k) for k in self.named):
            return next(v for k, v in self.named.items() if c.eq(k))
        return GDict.val(self, c)


class Entries(GDict):
    """A pattern given as options: the expression itself is text."""

    def val(self, c):
        return SVal(self.at(c), "str") if c.eq(E_().kpattern) else GDict.val(self, c)


class Args:
    _vc_splat = True

    def __init__(self, e, c):
        self.l = SymList.of_term(f_pl(c), "any")

    def _vc_iter(self):
        return iterate(self.l)

    def __iter__(self):
        raise Unsupported("native iteration")


class Compiled:
    _vc_kind = "rx"
    _vc_isa = (object,)

    def __init__(self, c):
        self.c = c

    def _vc_enc(self):
        return self.c


def a_pattern(e, c):
    """A pattern as given by the user: text, options, arguments, or a compiled expression."""
    n = 3
    for k in range(3):
        if e.fork(f_pshape(c) == k):
            n = k
            break
    e.cur, e.curshape = c, n
    if n == 0:
        return SVal(c, "str")
    if n == 1:
        e.assume(f_dist(f_pk(c)))
        d = Entries(f_pk(c), "str", "any", f_pa(c))
        e.given.append((d, f_pk(c), f_pa(c)))
        return d
    if n == 2:
        return Args(e, c)
    return Compiled(f_comp(c))


@task("C07", "pattern.RePattern.__init__", functions=["pattern.RePattern.__init__"],
      hints={"pattern.RePattern.__init__#1": dict(inv=lambda S: [("abbreviations before are replaced", encode(S.v("pattern")) == f_abbr(E_().cur, E_().abbrs, S.i))], types={"pattern": "str"}),
             "pattern.RePattern.__init__#2": dict(inv=lambda S: [("abbreviations before are replaced", S.v("pattern").at(E_().kpattern) == f_abbr(z3.Select(f_pa(E_().cur), E_().kpattern), E_().abbrs, S.i)),
                                                                              ("the other options stay", z3.Implies(E_().k0 != E_().kpattern, S.v("pattern").at(E_().k0) == z3.Select(f_pa(E_().cur), E_().k0)))])})
def _reinit(e, ctx):
    pm = ctx.pattern

    def body():
        from pyvc.values import f_fst, f_snd
        e.feas_ms = 100
        e.given = []
        e.decoders["rx"] = Compiled
        e.decoders["abbr"] = lambda c: (SVal(f_fst(c), "str"), SVal(f_snd(c), "str"))
        e.decoders["pat"] = lambda c: a_pattern(e, c)
        e.dict_hook = dict_hook
        e.kpattern = key = e.code_of_str("pattern")
        L = e.abbrs = e.fresh("abbreviations", LST)
        s, i, l = z3.Int("as!"), z3.Int("ai!"), z3.Const("al!", LST)
        e.assume(T.ax([s, l], f_abbr(s, l, 0) == s, f_abbr(s, l, 0)))
        e.assume(T.ax([s, l, i], z3.Implies(z3.And(0 <= i, i < f_len(l)), f_abbr(s, l, i + 1) == f_repl(f_abbr(s, l, i), f_fst(f_at(l, i)), f_snd(f_at(l, i)))), f_abbr(s, l, i + 1)))
        e.str_methods = {"replace": lambda x, a, b: SVal(f_repl(x.t, encode(a), encode(b)), "str")}
        p = object.__new__(pm.RePattern)
        e.k0 = e.freshint("key")        # an arbitrary option
        kws = GDict.fresh("str", "any", "kwargs")
        kws.__class__ = Kwargs
        ab = SymList.of_term(L, "abbr")
        kab = e.code_of_str("abbreviations")
        kws.named = {kab: ab}
        k0, v0 = kws.kterm(), kws.arr()
        given = SymList.of_term(e.fresh("patterns", LST), "pat")
        e.REGEX = z3.Const("regex_module", B)
        pm.REGEX_ENABLED = SBool(e.REGEX)
        e.isinstance_hook = lambda x, cs: False
        ini = []
        pm.Pattern.__init__ = lambda self, **kw: ini.append(bool(self is p and list(kw) == [SPLATKW] and kw[SPLATKW] is kws))
        filtered = {}

        def fmk(d, children=False):
            e.stubs_used.add("pattern.filter_match_kwargs")
            e.prove("options are filtered from the arguments", d is kws)
            return filtered.setdefault(children, object())
        pm.filter_match_kwargs = fmk
        hasab = z3.And(f_mem(kab, k0), L != nil)
        n = f_len(L)

        def text(c):
            return z3.If(z3.And(hasab, c != 0), f_abbr(c, L, n), c)

        class Re:
            compile = staticmethod(lambda *a, **kw: comp(a, kw, False))

        def call(f, *a, **kw):
            e.stubs_used.add("loose.call")
            e.prove("only compile is called", f is Re.compile)
            e.prove("text is compiled with the options it can take", bool(kw.pop("ignore_unused", None) is True and list(kw) == [SPLATKW] and kw[SPLATKW] is kws))
            return comp(a, {}, True)

        def comp(a, kw, loose):
            c = e.cur
            e.prove("text is compiled loosely, else as given", loose == (e.curshape == 0))
            if e.curshape == 0:
                e.prove("the expression, with its abbreviations replaced", z3.And(z3.BoolVal(len(a) == 1 and not kw), encode(a[0]) == text(c)))
            elif e.curshape == 1:
                e.prove("options of the expression", bool(not a and list(kw) == [SPLATKW]))
                d = kw[SPLATKW]
                g, kt, at = e.given[-1]
                e.prove("the pattern given is not changed", z3.And(g.kterm() == kt, g.arr() == at), assume=False)
                k = e.k0
                e.prove("the options given", d.has(k) == f_mem(k, f_pk(c)), assume=False)
                e.prove("an option given is passed on", z3.Implies(z3.And(f_mem(k, f_pk(c)), k != key), d.at(k) == z3.Select(f_pa(c), k)), assume=False)
                o = z3.Select(f_pa(c), key)
                e.prove("the expression, with its abbreviations replaced", z3.Implies(f_mem(key, f_pk(c)), d.at(key) == z3.If(hasab, f_abbr(o, L, n), o)), assume=False)
            elif e.curshape == 2:
                e.prove("the arguments given", bool(len(a) == 1 and not kw and isinstance(a[0], pv.Splat)) and encode_splat(a[0]) == f_pl(c))
            else:
                e.prove("an expression already compiled is taken as it is", False)
            return Compiled(f_comp(c))
        pm.re = Re
        pm.call = call
        try:
            pm.RePattern.init__va(p, given, kws)
        except NotImplementedError:
            e.prove("repeated captures are refused only without the regex module", z3.And(z3.Not(e.REGEX), kws.has(e.code_of_str("repeated_captures"))))
            done(e)
            return
        d = p.__dict__
        c = e.freshint("c")
        e.prove("every pattern given, compiled, in order", d["_patterns"].term() == e.comps.make(c, f_snoc(nil, f_comp(c)), given.term()), assume=False)
        e.prove("configured once, with the arguments", bool(ini == [True]))
        e.prove("options of matches and of children", bool(d["_match_kwargs"] is filtered[False] and d["_children_match_kwargs"] is filtered[True] and d["_kwargs"] is kws))
        rep = e.code_of_str("repeated_captures")
        from .c08 import truthy
        e.prove("repeated captures: as asked, else when the regex module is there",
                bterm(d["repeated_captures"]) == z3.If(f_mem(rep, k0), truthy(z3.Select(v0, rep)), e.REGEX), assume=False)
        e.prove("the arguments are not changed", z3.And(kws.kterm() == k0, kws.arr() == v0))
        done(e)
    return body


def encode_splat(s):
    o = s.of
    return o.l.term() if isinstance(o, Args) else o.term()


@task(["C07", "C06"], "pattern.StringPattern.__init__, FunctionalPattern.__init__", functions=["pattern.StringPattern.__init__", "pattern.FunctionalPattern.__init__"])
def _sfinit(e, ctx):
    pm = ctx.pattern

    def body():
        cls = (pm.StringPattern, pm.FunctionalPattern)[e.choose(2)]
        p = object.__new__(cls)
        kws = GDict.fresh("str", "any", "kwargs")
        k0, v0 = kws.kterm(), kws.arr()
        given = SymList.of_term(e.fresh("patterns", LST), "any")
        g0 = given.term()
        ini, opt = [], object()
        pm.Pattern.__init__ = lambda self, **kw: ini.append(bool(self is p and list(kw) == [SPLATKW] and kw[SPLATKW] is kws))

        def fmk(d, children=False):
            e.stubs_used.add("pattern.filter_match_kwargs")
            e.prove("options of matches are filtered from the arguments", bool(d is kws and children is False))
            return opt
        pm.filter_match_kwargs = fmk
        cls.init__va(p, given, kws)
        e.prove("configured once, with the arguments", bool(ini == [True]))
        e.prove("the patterns given, in order", z3.And(p.patterns.term() == g0, given.term() == g0), assume=False)
        e.prove("options of matches and arguments", bool(p.match_options is opt and p.__dict__["_kwargs"] is kws and p.__dict__["_match_kwargs"] is opt))
        e.prove("the arguments are not changed", z3.And(kws.kterm() == k0, kws.arr() == v0))
        done(e)
    return body


# ------------------------------------------------------------------ what a pattern says of itself
@task(["C06", "C07", "C16", "C17"], "pattern.StringPattern, RePattern, FunctionalPattern: patterns, match_options; Pattern.properties",
      functions=["pattern.%s.%s" % (c, n) for c in ("StringPattern", "RePattern", "FunctionalPattern") for n in ("patterns", "match_options")] + ["pattern.Pattern.properties"])
def _says(e, ctx):
    m = ctx.pattern

    def body():
        cls = (m.StringPattern, m.RePattern, m.FunctionalPattern)[e.choose(3)]
        p = object.__new__(cls)
        ps, mk, pr = SymList.of_term(e.fresh("given", LST), "any"), {"marker": True}, {"year": [1]}
        p.__dict__.update(_patterns=ps, _match_kwargs=mk, _properties=pr)
        e.prove("its patterns are those given", cls.patterns.fget(p) is ps)
        e.prove("its match options are those given", cls.match_options.fget(p) is mk and mk == {"marker": True})
        e.prove("its properties are those declared", m.Pattern.properties.fget(p) is pr)
        p.__dict__["_properties"] = (None, {})[e.choose(2)]
        e.prove("none when none are declared", not m.Pattern.properties.fget(p))
        e.prove("it is not changed", set(p.__dict__) == {"_patterns", "_match_kwargs", "_properties"} and p.__dict__["_patterns"] is ps)
        done(e)
    return body
