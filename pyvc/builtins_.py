"""What the rewritten source calls: builtins, displays, comprehensions, loops."""
import builtins
import types
import z3
from . import terms as T
from .engine import Engine, PathEnd, PoisonUse, Unsupported
from .terms import I, LST, NONE, nil, f_len, f_at, f_mem, f_snoc, f_cat, f_take, f_rng, f_rev
from .values import (E, SInt, SBool, SVal, SFn, SymList, SymDict, SymSet, SymIter, SymKeys, SymItems, Poison, IterBase, bterm, decode, encode,
                     iterate, iterate_concrete, kind_of, lst_iter, prog, value_eq, stamp)

never = False
SPLAT = object()


class _Sig:
    def __init__(self, n):
        self.n = n


NEXT = _Sig("next")
BREAK = _Sig("break")


class RET:
    def __init__(self, v):
        self.v = v


class Res:
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


def active():
    return Engine.cur is not None


# ------------------------------------------------------------------ displays
def mklist(x):
    if not active():
        return x
    return SymList(tuple(x)) if x else SymList()


def mkout():
    return SymList()


def genout(x):
    return x


def mkdict(pairs):
    if not active():
        d = {}
        for k, v in pairs:
            if k is SPLAT:
                d.update(v)
            else:
                d[k] = v
        return d
    h = getattr(E(), "mkdict_hook", None)
    if h is not None:
        r = h(pairs)
        if r is not NotImplemented:
            return r
    d = SymDict()
    for k, v in pairs:
        if k is SPLAT:
            d.update(v)
        else:
            d[k] = v
    return d


def mkset(t):
    return SymSet(t) if active() else set(t)


class Fmt(str):
    """The result of an f-string: opaque, good for messages only."""

    def _no(self, *a):
        raise Unsupported("use of a formatted string")

    __eq__ = __ne__ = __hash__ = __lt__ = __gt__ = __le__ = __ge__ = __contains__ = __getitem__ = __len__ = __iter__ = __bool__ = _no

    def __add__(self, o):
        return Fmt("<formatted>")

    __radd__ = __mod__ = __mul__ = __add__


def fstr(s, thunk):
    return Fmt(s) if active() else thunk()


class Splat:
    """A variadic argument of symbolic length at a call: only contracts of callees take it."""

    def __init__(self, of):
        self.of = of


SPLATKW = "**"


def join(sep, x):
    """sep.join(x)"""
    if not active():
        return sep.join(x)
    s = iterate(x)
    if not isinstance(s, SymIter):
        s = list(s)
        if all(isinstance(v, str) for v in s):
            return sep.join(s)
        t = nil
        for v in s:
            t = f_snoc(t, encode(v))
    else:
        t = s.lst
    if sep or t is None:
        raise Unsupported("join")
    e = E()
    i = e.freshint("ji")
    if not e.valid(z3.Implies(z3.And(0 <= i, i < f_len(t)), T.f_slen(f_at(t, i)) == 1))[0]:
        raise Unsupported("join of strings that are not single characters")
    j = T.f_join(t)
    k = z3.Int("ji!")
    e.assume(T.f_slen(j) == f_len(t))
    e.assume(T.ax([k], z3.Implies(z3.And(0 <= k, k < f_len(t)), T.f_schar(j, k) == f_at(t, k)), T.f_schar(j, k)))
    return SVal(j, "str")


def kwmap(d):
    if isinstance(d, SymDict):
        return dict(zip(d._need_assoc(), d._vals))
    if hasattr(type(d), "_vc_splat"):
        return {SPLATKW: d}
    return d


def starmap(x):
    if isinstance(x, (tuple, list, dict)):
        return x
    if isinstance(x, SymList) and not x.concrete or getattr(x, "_vc_splat", False):
        return (Splat(x),)
    return iterate_concrete(x)


def unpack(x, n):
    if isinstance(x, tuple):
        return x
    if isinstance(x, SVal):
        h = getattr(E(), "unpack_hook", None)
        if h is not None:
            return h(x, n)
    return tuple(iterate_concrete(x))


# ------------------------------------------------------------------ identity, membership
def is_(a, b):
    if a is None and b is None:
        return True
    if a is None:
        a, b = b, a
    if isinstance(a, Poison):
        a._p()
    if b is None:
        if isinstance(a, SVal):
            return a.isnone()
        return False
    if isinstance(b, Poison):
        b._p()
    ra = getattr(a, "__dict__", {}).get("_ref") if not isinstance(a, (SInt, SBool, SVal, SFn)) else None
    rb = getattr(b, "__dict__", {}).get("_ref") if not isinstance(b, (SInt, SBool, SVal, SFn)) else None
    if ra is not None and rb is not None:
        return SBool(ra == rb)
    if isinstance(a, SVal) and isinstance(b, SVal):
        h = getattr(E(), "is_hook", None)
        return h(a, b) if h is not None else SBool(a.t == b.t)
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return SBool(bterm(a) == bterm(b))
    if isinstance(a, SVal) and isinstance(b, bool):
        return SBool(a.t == encode(b))
    if isinstance(b, SVal) and isinstance(a, bool):
        return SBool(b.t == encode(a))
    if isinstance(a, SFn) and isinstance(b, SFn):
        return SBool(a.t == b.t)
    if isinstance(a, SVal) or isinstance(b, SVal):
        return SBool(encode(a) == encode(b))
    if callable(a) and callable(b) and a is not b:
        try:
            return realcls(a) is realcls(b)
        except TypeError:      # unhashable
            return False
    return a is b


def in_(x, c):
    """x in c, without forking when the container gives a term."""
    if isinstance(c, (SymList, SymSet)):
        if isinstance(x, Poison):
            x._p()
        return SBool(c.contains(x))
    if isinstance(c, SymKeys):
        return SBool(c.has(encode(x)))
    if isinstance(c, SymDict):
        if c.symbolic:
            return SBool(c._base(encode(x))[0])
        return x in c
    if isinstance(c, (RangeObj,)):
        t = SInt.lift(x)
        return SBool(z3.And(c.a <= t, t < c.b)) if c.step == 1 else SBool(z3.And(t <= c.a, t > c.b))
    if isinstance(c, SVal):
        if c.kind in ("str", "optstr"):
            from .values import f_charin
            if isinstance(x, SVal) and x.kind == "char":
                return SBool(f_charin(x.t, c.t))
            raise Unsupported("substring test")
        h = getattr(E(), "in_hook", None)
        if h is not None:
            return h(x, c)
        raise Unsupported("membership in an opaque value")
    if isinstance(c, (list, tuple)):
        if any(isinstance(v, (SInt, SVal, SBool)) for v in c) or isinstance(x, (SInt, SVal, SBool)):
            return SBool(z3.Or([z3.Or(z3.BoolVal(v is x), bterm(value_eq(v, x))) for v in c] or [z3.BoolVal(False)]))
        return x in c
    if isinstance(c, (dict, set, frozenset)):
        if isinstance(x, SVal):
            return SBool(z3.Or([bterm(value_eq(x, v)) for v in c] or [z3.BoolVal(False)]))
        if isinstance(x, SInt):
            return SBool(z3.Or([bterm(x == v) for v in c] or [z3.BoolVal(False)]))
        return x in c
    if isinstance(c, str) and isinstance(x, SVal):
        if x.kind in ("char", "str") and len(c) <= 1:
            return x == c
        return SBool(z3.Or([bterm(x == ch) for ch in c]))if x.kind == "char" else _unsup("substring")
    if hasattr(type(c), "_vc_has"):
        return SBool(c._vc_has(x))
    f = getattr(type(c), "__contains__", None)
    if f is None:
        raise prog(TypeError("argument is not iterable"))
    return f(c, x)


def _unsup(m):
    raise Unsupported(m)


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, SymList):
        return x.sym_len()
    if isinstance(x, (SymDict, SymSet)):
        return x.sym_len()
    if isinstance(x, SVal):
        if x.kind in ("str", "optstr"):
            return x.slen()
        h = getattr(E(), "len_hook", None)
        if h:
            return h(x)
        raise Unsupported("len of opaque")
    if isinstance(x, RangeObj):
        return SInt(z3.If(x.b > x.a, x.b - x.a, 0))
    if isinstance(x, (str, tuple, list, dict, set, frozenset, bytes)):
        return len(x)
    if hasattr(type(x), "sym_len"):
        return x.sym_len()
    f = getattr(type(x), "__len__", None)
    if f is None:
        if isinstance(x, Poison):
            x._p()
        raise prog(TypeError("object has no len()"))
    return f(x)


class RangeObj:
    """range over symbolic bounds; step 1 or -1."""

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    def _vc_iter(self):
        if self.step == 1:
            t = f_rng(self.a, self.b)
        else:
            t = f_rev(f_rng(self.b + 1, self.a + 1))
        r = lst_iter(t, "int", True, self)
        a, s = self.a, self.step
        r.elem = (lambda i: SInt(z3.simplify(a + i))) if s == 1 else (lambda i: SInt(z3.simplify(a - i)))
        r.n = z3.If(self.b > self.a, self.b - self.a, 0) if s == 1 else z3.If(self.a > self.b, self.a - self.b, 0)
        r.rng = (self.a, self.b, s)
        return r

    def __bool__(self):
        return E().fork(self.b > self.a if self.step == 1 else self.a > self.b)


def b_range(*args):
    if not active() or all(type(a) is int for a in args):
        return range(*args)
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        a, b, s = args[0], args[1], 1
    else:
        a, b, s = args
    ta, tb, ts = SInt.lift(a), SInt.lift(b), SInt.lift(s)
    if ta is None or tb is None or ts is None:
        if isinstance(a, Poison) or isinstance(b, Poison):
            (a if isinstance(a, Poison) else b)._p()
        raise prog(TypeError("range argument"))
    sv = z3.simplify(ts)
    if not z3.is_int_value(sv) or sv.as_long() not in (1, -1):
        raise Unsupported("range step")
    sa, sb = z3.simplify(ta), z3.simplify(tb)
    if z3.is_int_value(sa) and z3.is_int_value(sb):
        return range(sa.as_long(), sb.as_long(), sv.as_long())
    return RangeObj(sa, sb, sv.as_long())


class EnumObj:
    def __init__(self, src, start):
        self.src, self.start = src, start

    def _vc_iter(self):
        s = self.src
        st = SInt.lift(self.start)
        r = SymIter(s.n, lambda i: (SInt(z3.simplify(st + i)), s.elem(i)), None, None, source=s)
        r.enum = s
        r.enum_start = self.start
        return r


def b_enumerate(x, start=0):
    s = iterate(x)
    if isinstance(s, SymIter):
        return EnumObj(s, start)
    return list(zip([start + i for i in range(len(s))], s))


def b_reversed(x):
    if isinstance(x, RangeObj):
        return RangeObj(z3.simplify(x.b - 1), z3.simplify(x.a - 1), -1) if x.step == 1 else RangeObj(z3.simplify(x.b + 1), z3.simplify(x.a + 1), 1)
    if type(x) is range:
        return reversed(x)
    s = iterate(x)
    if isinstance(s, SymIter):
        if s.lst is None:
            raise Unsupported("reversed")
        return lst_iter(f_rev(s.lst), s.kind, s.distinct, s.source)
    return list(reversed(s))


def b_zip(*its):
    srcs = [iterate(x) for x in its]
    if not any(isinstance(s, SymIter) for s in srcs):
        return list(zip(*srcs))
    raise Unsupported("zip of symbolic iterables")


def b_iter(x):
    s = iterate(x)
    if isinstance(s, SymIter):
        return IterObj(s)
    return IterObj(lst=list(s))


class IterObj(IterBase):
    def __init__(self, sym=None, lst=None):
        self.sym, self.lst = sym, lst
        self.pos = 0
        self._born = stamp()

    def _vc_iter(self):
        if self.sym is None:
            r = self.lst[self.pos:]
            self._set(len(self.lst))
            return r
        if isinstance(self.pos, int) and self.pos == 0:
            return self.sym
        raise Unsupported("iterating a partly consumed iterator")

    def __iter__(self):
        return self

    def _set(self, p):
        old = self.pos
        E().record(self, lambda: setattr(self, "pos", old))
        self.pos = p

    def step(self):
        if self.sym is None and not isinstance(self.pos, int):
            l = SymList(list(self.lst))
            self.sym = lst_iter(l.term(), l.kind())
        if self.sym is None:
            if self.pos >= len(self.lst):
                return False, None
            v = self.lst[self.pos]
            self._set(self.pos + 1)
            return True, v
        p = SInt.lift(self.pos)
        if not E().fork(p < self.sym.n):
            return False, None
        v = self.sym.elem(p)
        self._set(SInt(p + 1))
        return True, v


_missing = object()


def b_next(it, default=_missing):
    if not isinstance(it, IterObj):
        it = b_iter(it)   # generator results are lists here; next() on one takes its first element
    ok, v = it.step()
    if ok:
        return v
    if default is _missing:
        raise prog(StopIteration())
    return default


REAL = {}


def realcls(c):
    if isinstance(c, tuple):
        return tuple(realcls(x) for x in c)
    if c in REAL:
        return REAL[c]
    return c


f_isinst = z3.Function("isinst", I, I, z3.BoolSort())


def _flat(c):
    if isinstance(c, tuple):
        return [y for x in c for y in _flat(x)]
    return [c]


def b_isinstance(x, cls):
    if not active():
        return isinstance(x, realcls(cls))
    if isinstance(x, Poison):
        x._p()
    if isinstance(cls, SVal):
        return SBool(f_isinst(encode(x), cls.t))
    cs = [realcls(c) for c in _flat(cls)]
    if isinstance(x, SInt):
        return any(c is int or c is object for c in cs)
    if isinstance(x, SBool):
        return any(c in (int, bool, object) for c in cs)
    if isinstance(x, SFn):
        return any(c is object for c in cs)
    if isinstance(x, SVal):
        if x.kind in ("str", "char"):
            return any(c in (str, object) for c in cs)
        if x.kind == "optstr":
            return SBool(x.t != NONE) if any(c is str for c in cs) else any(c is object for c in cs)
        h = getattr(E(), "isinstance_hook", None)
        if h is not None:
            r = h(x, cs)
            if r is not NotImplemented:
                return r
        if any(c is object for c in cs):
            return True
        return SBool(z3.And(x.t != NONE, z3.Or([f_isinst(x.t, E_cls(c)) for c in cs])))
    if isinstance(x, SymList):
        if type(x) is not SymList and any(isinstance(c, type) and isinstance(x, c) for c in cs):
            return True
        return any(c in (list, object, SymList) for c in cs) or any(getattr(c, "__name__", "") in ("Iterable", "Sequence", "MutableSequence", "Collection", "Sized", "Container") for c in cs)
    if isinstance(x, SymDict):
        if type(x) is not SymDict and any(isinstance(c, type) and isinstance(x, c) for c in cs):
            return True
        return any(c in (dict, object, SymDict) for c in cs) or any(getattr(c, "__name__", "") in ("Iterable", "Mapping", "MutableMapping", "Collection", "Sized", "Container") for c in cs)
    if isinstance(x, SymSet):
        return any(c in (set, object, SymSet) for c in cs)
    isa = getattr(type(x), "_vc_isa", None)
    if isa is not None:
        return any(c is object or c in isa for c in cs)
    return isinstance(x, tuple(cs))


def E_cls(c):
    return encode(c)


def b_issubclass(a, b):
    if isinstance(a, SVal) or isinstance(b, SVal):
        return SBool(f_issub(encode(a), encode(b)))
    return issubclass(realcls(a), realcls(b))


f_issub = z3.Function("issub", I, I, z3.BoolSort())
f_hasattr = z3.Function("hasattr_", I, I, z3.BoolSort())


def b_hasattr(x, name):
    if not active():
        return hasattr(x, name)
    if isinstance(x, Poison):
        x._p()
    if isinstance(x, (SInt, SBool)):
        return hasattr(1, name)
    if isinstance(x, SFn):
        return hasattr(len, name)
    if isinstance(x, SVal):
        if x.kind in ("str", "char"):
            return hasattr("", name)
        if x.kind == "optstr":
            return SBool(x.t != NONE) if hasattr("", name) and not hasattr(None, name) else hasattr("", name)
        h = getattr(E(), "hasattr_hook", None)
        if h is not None:
            r = h(x, name)
            if r is not NotImplemented:
                return r
        return SBool(z3.And(x.t != NONE, f_hasattr(x.t, E().code_of_str(name))))
    if isinstance(x, SymList):
        return hasattr([], name) or hasattr(type(x), name) and type(x) is not SymList
    if isinstance(x, SymDict):
        return hasattr({}, name)
    if isinstance(x, (SymSet,)):
        return hasattr(set(), name)
    if isinstance(x, (SymIter, IterObj, RangeObj, EnumObj)):
        return name == "__iter__"
    own = getattr(type(x), "_vc_hasattr", None)
    if own is not None:
        return own(x, name)
    isa = getattr(type(x), "_vc_isa", None)
    if isa is not None:
        return hasattr(isa[0], name)
    return hasattr(x, name)


def b_getattr(x, name, *d):
    if isinstance(x, SVal):
        h = getattr(E(), "attr_hook", None)
        if h is not None:
            r = h(x, name)
            if r is not NotImplemented:
                return r
    return getattr(x, name, *d)


def b_callable(x):
    if isinstance(x, SFn):
        return True
    if isinstance(x, SVal):
        if x.kind in ("str", "optstr", "char"):
            return False
        h = getattr(E(), "callable_hook", None)
        if h is not None:
            return h(x)
        return SBool(z3.And(x.t != NONE, f_hasattr(x.t, E().code_of_str("__call__"))))
    if isinstance(x, (SInt, SBool, SymList, SymDict, SymSet)):
        return False
    return callable(x)


def b_bool(x=False):
    if isinstance(x, (SInt, SVal, SymList)) and active():
        return SBool(bterm(x))
    if isinstance(x, SBool):
        return x
    return bool(x)


def b_str(x=""):
    if isinstance(x, SVal) and x.kind == "str":
        return x
    return "<str>" if active() else str(x)


def b_repr(x):
    return "<repr>" if active() else repr(x)


def b_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(SInt.lift(x))
    if isinstance(x, SVal):
        h = getattr(E(), "int_hook", None)
        if h is not None:
            return h(x)
        raise Unsupported("int() of opaque")
    try:
        return int(x, *a)
    except Exception as exc:
        raise prog(exc)


f_hash1 = z3.Function("hash1", I, I)


def b_hash(x):
    if not active():
        return hash(x)
    return SInt(_hash(x))


def _hash(x):
    if isinstance(x, tuple):
        t = z3.IntVal(7)
        for v in x:
            t = f_hash2(t, _hash(v))
        return t
    if isinstance(x, SVal) and x.kind == "any":
        return f_hashv(x.t)
    if isinstance(x, SInt) or isinstance(x, int):
        return f_hash1(SInt.lift(x))
    if isinstance(x, (SVal, str)) or x is None:
        return f_hashs(encode(x))
    m = getattr(type(x), "__hash__", None)
    if hasattr(x, "__dict__") and "_ref" in x.__dict__ and m is not None:
        return SInt.lift(m(x))
    return f_hash1(encode(x))


f_hash2 = z3.Function("hash2", I, I, I)
f_hashv = z3.Function("hashv", I, I)
f_hashs = z3.Function("hashs", I, I)


def b_id(x):
    h = getattr(E(), "id_hook", None)
    if h is not None:
        return h(x)
    raise Unsupported("id()")


def b_type(x, *a):
    if a:
        return type(x, *a)
    t = getattr(type(x), "_vc_type", None)
    if t is not None:
        return t(x)
    if isinstance(x, SVal) and x.kind == "any":
        return SVal(f_typeof(x.t), "any")
    if active() and isinstance(x, (SVal, SInt, SBool)):
        return {"str": str}.get(getattr(x, "kind", ""), int)
    return type(x)


f_typeof = z3.Function("typeof", I, I)


def b_tuple(x=()):
    s = iterate(x)
    if isinstance(s, SymIter):
        return s.to_list()
    return tuple(s)


def b_frozenset(x=()):
    return SymSet(x) if active() else frozenset(x)


def b_set(x=()):
    h = getattr(E(), "set_hook", None) if active() else None
    if h is not None:
        return h(x)
    return SymSet(x) if active() else set(x)


b_set.__name__ = "set"
b_set.union = lambda a, *b: a.union(*b)


def b_min(*args, key=None, default=_missing):
    return _minmax(args, key, default, True)


def b_max(*args, key=None, default=_missing):
    return _minmax(args, key, default, False)


def _minmax(args, key, default, ismin):
    if not active():
        f = min if ismin else max
        kw = {}
        if key is not None:
            kw["key"] = key
        if default is not _missing:
            kw["default"] = default
        return f(*args, **kw)
    if len(args) > 1:
        if all(type(a) is int for a in args) and key is None:
            return min(args) if ismin else max(args)
        vals = list(args)
    else:
        s = iterate(args[0])
        if isinstance(s, SymIter):
            return _symminmax(s, key, default, ismin)
        vals = list(s)
        if not vals:
            if default is _missing:
                raise prog(ValueError("empty"))
            return default
    if key is None and all(SInt.lift(v) is not None for v in vals):
        t = SInt.lift(vals[0])
        for v in vals[1:]:
            u = SInt.lift(v)
            t = z3.If(u < t, u, t) if ismin else z3.If(u > t, u, t)
        return SInt(z3.simplify(t))
    best = vals[0]
    kb = key(best) if key else best
    for v in vals[1:]:
        kv = key(v) if key else v
        if (kv < kb) if ismin else (kv > kb):
            best, kb = v, kv
    return best


def _symminmax(s, key, default, ismin):
    e = E()
    if s.lst is None or s.kind != "int" or key is not None:
        raise Unsupported("min/max over a symbolic iterable of %s" % s.kind)
    L = s.lst
    if not e.fork(z3.Not(L == nil)):
        if default is _missing:
            raise prog(ValueError("empty"))
        return default
    r = e.freshint("mx")
    x = z3.Int("mx!")
    e.assume(f_mem(r, L))
    e.assume(T.ax([x], z3.Implies(f_mem(x, L), x >= r if ismin else x <= r), f_mem(x, L)))
    # comprehension lists: members reachable through their source
    src = e.comp_source(L)
    if src is not None:
        ent, ps, base = src
        d = ent["D"](*ps, x)
        body = z3.substitute(ent["body"], (z3.Const("$x", I), x), *[(z3.Const("$p%d_%s" % (m, c.sort()), c.sort()), c) for m, c in enumerate(ps)])
        one = _single(body)
        if one is not None:
            c, v = one
            e.assume(T.ax([x], z3.Implies(z3.And(f_mem(x, base), c), v >= r if ismin else v <= r), f_mem(x, base)))
            w = e.freshint("mxw")
            e.assume(z3.And(f_mem(w, base), z3.substitute(c, (x, w)), z3.substitute(v, (x, w)) == r))
    return SInt(r)


def _single(body):
    """body == If(c, snoc(nil, v), nil) or snoc(nil, v) -> (c, v)"""
    if z3.is_app(body) and body.decl().name() == "snoc" and body.arg(0).eq(nil):
        return z3.BoolVal(True), body.arg(1)
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        a, b = _single(body.arg(1)), _single(body.arg(2))
        if body.arg(2).eq(nil) and a is not None:
            return z3.And(body.arg(0), a[0]), a[1]
        if body.arg(1).eq(nil) and b is not None:
            return z3.And(z3.Not(body.arg(0)), b[0]), b[1]
        if a is not None and b is not None:
            return z3.If(body.arg(0), a[0], b[0]), z3.If(body.arg(0), a[1], b[1])
    return None


def b_sum(x, start=0):
    s = iterate_concrete(x)
    t = start
    for v in s:
        t = t + v
    return t


def _truth_list(s):
    """(list term, code meaning true) for an eager list of truth values."""
    return s


def b_any(x):
    s = iterate(x)
    if isinstance(s, SymIter):
        if s.lst is not None and s.kind == "bool":
            return SBool(f_mem(z3.IntVal(1), s.lst))
        m = comp("list", s, lambda v: True, lambda v: SBool(bterm(v)))
        return SBool(f_mem(z3.IntVal(1), m.term()))
    r = False
    for v in s:
        if v:
            return True
    return r


def b_all(x):
    s = iterate(x)
    if isinstance(s, SymIter):
        if s.lst is not None and s.kind == "bool":
            return SBool(z3.Not(f_mem(z3.IntVal(0), s.lst)))
        m = comp("list", s, lambda v: True, lambda v: SBool(bterm(v)))
        return SBool(z3.Not(f_mem(z3.IntVal(0), m.term())))
    for v in s:
        if not v:
            return False
    return True


def b_filter(f, x):
    if f is None:
        return comp("list", x, lambda v: v, lambda v: v)
    return comp("list", x, f, lambda v: v)


def b_map(f, x, *more):
    if more:
        return [f(*a) for a in b_zip(x, *more)]
    return comp("list", x, lambda v: True, f if hasattr(f, "__code__") else lambda v: f(v))


def b_sorted(x, key=None, reverse=False):
    if not active():
        return sorted(x, key=key, reverse=reverse)
    s = iterate(x)
    if isinstance(s, SymIter):
        return sym_sorted(s, key, reverse)
    vals = list(s)
    ks = [key(v) for v in vals] if key else vals
    if all(type(k) in (int, str) for k in ks):
        try:
            order = sorted(range(len(vals)), key=lambda i: ks[i], reverse=reverse)
        except TypeError as exc:
            raise prog(exc)
        r = SymList()
        r._items = [vals[i] for i in order]
        return r
    # insertion sort, stable, forking on comparisons
    out = []
    for v, k in zip(vals, ks):
        j = len(out)
        while j > 0 and ((out[j - 1][1] < k) if reverse else (k < out[j - 1][1])):
            j -= 1
        out.insert(j, (v, k))
    r = SymList()
    r._items = [v for v, _ in out]
    return r


def sym_sorted(s, key, reverse):
    e = E()
    h = getattr(e, "sort_hook", None)
    if h is not None:
        r = h(s, key, reverse)
        if r is not NotImplemented:
            return r
    if s.lst is None or not isinstance(reverse, bool):
        raise Unsupported("sorted of this iterable")
    return SymList.of_term(sort_term(s.lst, s.kind, key, reverse), s.kind)


def explore_bool(thunk, n0):
    """Term of a truth value computed without side effects on every path."""
    e = E()
    pc0 = list(e.pc)
    mark = len(e.undo)
    res = e.explore(lambda: bterm(thunk()))
    e.pc = pc0
    t = None
    for suf, k, v in reversed(res):
        if k != "ok":
            raise Unsupported("may raise %r" % (v,))
        c = e.forks_of(suf)
        t = v if t is None else z3.If(z3.And(c), v, t)
    if t is None or _fresh_in(e, t, n0):
        raise Unsupported("order not determined by the elements")
    return z3.simplify(t)


def order_of(lst, kind, key, reverse):
    """The strict weak order sorted() uses, as a term over two elements of the list."""
    e = E()
    a, b = e.freshint("sa"), e.freshint("sb")
    n0 = e.counter
    pc0 = list(e.pc)
    e.assume(f_mem(a, lst))
    e.assume(f_mem(b, lst))
    va, vb = decode(a, kind), decode(b, kind)
    k = key or (lambda v: v)
    lt = explore_bool(lambda: (k(va) < k(vb)), n0)
    e.pc = pc0
    if reverse:
        lt = z3.substitute(lt, (a, b), (b, a))
    # sorted() needs a strict weak order to be characterised this way
    c = e.freshint("sc")
    f = lambda p, q: z3.substitute(lt, (a, p), (b, q))
    ok, why = e.valid(z3.And(z3.Implies(lt, z3.Not(f(b, a))), z3.Implies(z3.And(f(a, b), f(b, c)), f(a, c)),
                             z3.Implies(z3.And(z3.Not(f(a, b)), z3.Not(f(b, c))), z3.Not(f(a, c)))))
    if not ok:
        raise Unsupported("sort order is not a strict weak order (%s)" % why)
    return a, b, lt


def stable_sort(s, key, reverse):
    """sorted() of a list without repeats, as a sort_hook: the permutation of it in which one element is before
    another if it is smaller, or not greater and was before it."""
    e = E()
    lst = s.lst
    if lst is None or not isinstance(reverse, bool):
        raise Unsupported("sorted of this iterable")
    ok, why = e.valid(T.f_dist(lst))
    if not ok:
        raise Unsupported("stable sort of a list that may repeat elements (%s)" % why)
    a, b, lt = order_of(lst, s.kind, key, reverse)
    out = e.fresh("sorted", LST)
    x, y = z3.Int("ox!"), z3.Int("oy!")
    f = lambda p, q: z3.substitute(lt, (a, p), (b, q))
    e.assume(z3.And(T.f_dist(out), T.f_len(out) == T.f_len(lst)))
    e.assume(T.ax([x], f_mem(x, out) == f_mem(x, lst), f_mem(x, out), f_mem(x, lst)))
    e.assume(T.ax([x, y], z3.Implies(z3.And(f_mem(x, out), f_mem(y, out), x != y),
                                     (T.f_idx(x, out) < T.f_idx(y, out)) == z3.Or(f(x, y), z3.And(z3.Not(f(y, x)), T.f_idx(x, lst) < T.f_idx(y, lst)))),
                  (T.f_idx(x, out), T.f_idx(y, out)), (f_mem(x, out), f_mem(y, out))))
    r = SymList.of_term(out, s.kind)
    return r


def sort_term(lst, kind, key, reverse):
    """sorted(): a permutation of lst in which no element comes after one it is smaller than.  (Stability is
    not claimed, except that a list already in order is left alone.)"""
    e = E()
    if lst.eq(nil):
        return lst
    a, b, lt = order_of(lst, kind, key, reverse)
    return e.comps.sort(a, b, lt, lst)


REAL.update({SymList: list, SymDict: dict, b_set: set, b_str: str, b_int: int, b_bool: bool, b_tuple: tuple, b_frozenset: frozenset, b_range: range, b_type: type})
b_list = SymList
b_dict = SymDict


def _fromkeys(it, v=None):
    s = iterate(it)
    if isinstance(s, SymIter):
        if s.lst is None or s.kind not in ("str", "int", "optstr", "char"):
            raise Unsupported("fromkeys")
        t = T.f_dedup(s.lst)
        return DedupObj(t, s.kind)
    d = SymDict()
    for k in s:
        d[k] = v
    return d


class DedupObj:
    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def _vc_iter(self):
        return lst_iter(self.t, self.kind, True)


SymDict.fromkeys = staticmethod(_fromkeys)


def defaultdict(factory=None, *a, **k):
    d = SymDict(*a, **k)
    d._factory = factory
    if factory is SymList:
        d._elemkind = None
    return d


# ------------------------------------------------------------------ comprehensions
def merge_delta(e, results, flat=False):
    """[(suffix, 'ok', (included, value))] -> Lst term, element kind"""
    kinds = set()
    t = None
    for suf, k, v in reversed(results):
        if k != "ok":
            raise Unsupported("comprehension body may raise %r" % (v,))
        inc, val = v
        if not inc:
            d = nil
        elif flat:
            src = iterate(val)
            if isinstance(src, SymIter):
                d = src.lst
                if d is None:
                    raise Unsupported("nested comprehension")
                kinds.add(src.kind)
            else:
                d = nil
                for w in src:
                    kinds.add(kind_of(w))
                    d = f_snoc(d, encode(w))
        else:
            kinds.add(kind_of(val))
            d = f_snoc(nil, encode(val))
        conds = e.forks_of(suf)
        t = d if t is None else z3.If(z3.And(conds) if len(conds) != 1 else conds[0], d, t)
    if t is None:
        t = nil
    kinds.discard(None)
    if kinds <= {"str", "char"} and len(kinds) > 1:
        kinds = {"str"}
    if kinds <= {"str", "optstr", "none", "char"} and len(kinds) > 1:
        kinds = {"optstr"}
    if len(kinds) > 1:
        raise Unsupported("comprehension of mixed kinds %s" % kinds)
    return t, (kinds.pop() if kinds else None)


def _fresh_in(e, term, base):
    for c in T.free_consts(term):
        n = c.decl().name()
        if "." in n:
            try:
                if int(n.rsplit(".", 1)[1]) > base:
                    return True
            except ValueError:
                pass
    return False


def comp(kind, it, condf, eltf):
    if not active():
        def g():
            for x in it:
                if condf(x):
                    yield eltf(x)
        if kind == "list":
            return list(g())
        if kind == "set":
            return set(g())
        if kind == "dict":
            return dict(g())
        if kind.startswith("flat"):
            r = [y for x in g() for y in x]
            return {"flat:list": list, "flat:set": set, "flat:dict": dict, "flat:gen": iter}[kind](r)
        return g()
    if isinstance(it, SymItems) and kind == "dict":
        return _dict_filter(it.d, condf, eltf)
    s = iterate(it)
    base_kind = kind.split(":")[-1]
    flat = kind.startswith("flat")
    if not isinstance(s, SymIter):
        out = []
        for x in s:
            if condf(x):
                v = eltf(x)
                if flat:
                    out.append(v)
                else:
                    out.append(v)
        if flat:
            acc = SymList()
            for v in out:
                acc.extend(v)
            if base_kind == "set":
                return SymSet(acc)
            return acc
        if base_kind in ("list", "gen"):
            r = SymList()
            r._items = out
            return r
        if base_kind == "set":
            return SymSet(tuple(out))
        d = SymDict()
        for k, v in out:
            d[k] = v
        return d
    e = E()
    of_key = getattr(s, "of_key", None)
    if s.lst is None and of_key is not None:
        s = s.enum
    if s.lst is None and getattr(s, "enum", None) is not None:
        # over the positions, each with the element there
        src = s.enum
        st = SInt.lift(s.enum_start)
        of_key = lambda c: (SInt(z3.simplify(st + c)), src.elem(c))
        s = lst_iter(f_rng(z3.IntVal(0), src.n), "int", distinct=True)
    if s.lst is None:
        raise Unsupported("comprehension over a symbolic iterable without list form")
    x = e.freshint("x")
    n0 = e.counter
    pc0 = list(e.pc)
    e.assume(f_mem(x, s.lst))

    def run():
        v = decode(x, s.kind) if of_key is None else of_key(x)
        mark = len(e.undo)
        h0 = dict(e.heap)
        if condf(v):
            r = (True, eltf(v))
        else:
            r = (False, None)
        b = E().born
        for o, _ in e.undo[mark:]:
            if getattr(o, "_born", 0) <= born0:
                raise Unsupported("comprehension with side effects")
        for f in e.heap:
            if f in h0 and not e.heap[f].eq(h0[f]):
                raise Unsupported("comprehension writing a field")
        if r[0] and flat:
            w = iterate(r[1])
            r = (True, SymList.of_term(w.lst, w.kind) if isinstance(w, SymIter) and w.lst is not None else r[1])
        return r
    born0 = e.born
    mark, rec = len(e.undo), e.records()
    try:
        res = e.explore(run)
    except Unsupported as u:
        if base_kind != "list" or flat or not str(u).startswith("comprehension"):
            raise
        e.rollback(mark)
        e.forget(rec)
        e.pc = pc0
        return _comp_loop(s, condf, eltf)
    e.pc = pc0
    if base_kind == "dict" and not flat:
        return _dict_of(e, x, s, n0, res)
    t, k = merge_delta(e, res, flat)
    if _fresh_in(e, t, n0):
        raise Unsupported("comprehension result not determined by its element")
    if base_kind == "dict":
        raise Unsupported("dict comprehension over a symbolic iterable")
    ct = e.comps.make(x, t, s.lst)
    if k is None:
        k = s.kind
    if base_kind == "set":
        h = getattr(e, "setcomp_hook", None)
        return SymSet(lst_iter(ct, k)) if h is None else h(ct, k)
    return SymList.of_term(ct, k)


def _comp_loop(s, condf, eltf):
    """A list comprehension whose parts have effects: the loop that builds the list."""
    from .loops import ForLoop
    acc = SymList()

    def body(v):
        if condf(v):
            acc.append(eltf(v))
        return NEXT
    n = getattr(condf, "__qualname__", "comprehension")
    fl = ForLoop(n.replace(".<locals>.<lambda>", "") + "#comp", s, body, (), ())
    fl.acc = acc
    for f in (condf, eltf):
        for name, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            fl.allcells.setdefault(name, c)
    r = fl.run()
    if r.kind != "end":
        raise Unsupported("comprehension left early")
    return acc


def _dict_of(e, x, s, n0, res):
    """{k: v for k in list if cond}: the keys are elements of the list."""
    from .gdict import GDict
    keep, val, vk, key, other = [], None, set(), None, False
    for suf, k, v in reversed(res):
        if k != "ok":
            raise Unsupported("comprehension body may raise %r" % (v,))
        inc, kv = v
        if not inc:
            continue
        kk, vv = kv
        c = z3.And(e.forks_of(suf) or [z3.BoolVal(True)])
        if not encode(kk).eq(x):
            if getattr(e, "dictcomp_hook", None) is None:
                raise Unsupported("dict comprehension whose keys are not the elements")
            other = True
        key = encode(kk) if key is None else z3.If(c, encode(kk), key)
        keep.append(c)
        vk.add(kind_of(vv))
        val = encode(vv) if val is None else z3.If(c, encode(vv), val)
    if len(vk) > 1:
        raise Unsupported("dict comprehension of mixed kinds %s" % vk)
    cond = z3.simplify(z3.Or(keep)) if keep else z3.BoolVal(False)
    if _fresh_in(e, cond, n0) or val is not None and _fresh_in(e, val, n0):
        raise Unsupported("comprehension result not determined by its element")
    if other:
        if _fresh_in(e, key, n0):
            raise Unsupported("comprehension result not determined by its element")
        return e.dictcomp_hook(x, s, cond, key, val)
    ct = e.comps.make(x, z3.If(cond, f_snoc(nil, x), nil), s.lst)
    v = val if val is not None else z3.IntVal(0)
    if not s.distinct and not e.valid(T.f_dist(s.lst), timeout=1500)[0]:
        ct = T.f_uni(nil, ct)
    return GDict.where(ct, s.kind, vk.pop() if vk else None, lambda c: z3.substitute(v, (x, c)))


def _dict_filter(d, condf, eltf):
    """{k: v for k, v in d.items() if cond(v)} on a symbolic dict: keys kept where cond holds."""
    e = E()
    k0 = e.freshint("k")
    n0 = e.counter

    def run():
        key = decode(k0, d._keykind or "any")
        val = SymList.of_term(d._base(k0)[1], d._elemkind)
        c = condf((key, val))
        ok = bool(c)
        if not ok:
            return None
        kk, vv = eltf((key, val))
        if not (isinstance(kk, SVal) and kk.t.eq(k0)) and not (isinstance(kk, SInt) and kk.t.eq(k0)):
            raise Unsupported("dict comprehension changing keys")
        return vv.term() if isinstance(vv, SymList) else _unsup("dict comprehension value")
    res = e.explore(run)
    conds = []
    for suf, k, v in res:
        if k != "ok":
            raise Unsupported("dict comprehension may raise")
        if v is not None:
            if not v.eq(d._base(k0)[1]):
                raise Unsupported("dict comprehension changing values")
            conds.append(z3.And(e.forks_of(suf) or [z3.BoolVal(True)]))
    cond = z3.Or(conds) if conds else z3.BoolVal(False)
    if _fresh_in(e, cond, n0):
        raise Unsupported("dict comprehension condition")
    r = SymDict()
    r._elemkind, r._keykind = d._elemkind, d._keykind
    old = d._base

    def base(k):
        h, c = old(k)
        keep = z3.And(h, z3.substitute(cond, (k0, k)))
        return keep, z3.If(keep, c, nil)
    r._base = base
    return r


# ------------------------------------------------------------------ loops
def for_(lid, it, body, names, tnames):
    if not active():
        for x in it:
            r = body(x)
            if r is BREAK:
                return Res("break")
            if isinstance(r, RET):
                return Res("return", r.v)
        return Res("end")
    if isinstance(it, (types.GeneratorType,)):
        raise Unsupported("native generator")
    s = iterate(it)
    if not isinstance(s, SymIter):
        live = getattr(s, "live", None)
        for x in s:
            r = body(x)
            if r is BREAK:
                return Res("break")
            if isinstance(r, RET):
                return Res("return", r.v)
            if live is not None and (live._items is None or len(live._items) != len(s) or any(a is not b for a, b in zip(live._items, s))):
                raise Unsupported("loop %s: the list is modified while it is iterated" % lid)
        return Res("end")
    from .loops import ForLoop
    return ForLoop(lid, s, body, names, tnames).run()


def while_(lid, cond, body, names):
    if not active():
        while cond():
            r = body()
            if r is BREAK:
                return Res("break")
            if isinstance(r, RET):
                return Res("return", r.v)
        return Res("end")
    from .loops import WhileLoop
    return WhileLoop(lid, cond, body, names).run()
