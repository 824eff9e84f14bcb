"""Symbolic values.  Each proxy wraps an Int code (or Lst / Bool term)."""
import z3
from . import terms as T
from .engine import Engine, PathEnd, PoisonUse, Unsupported
from .terms import I, LST, NONE, nil, f_len, f_at, f_mem, f_snoc, f_cat


def E():
    return Engine.cur


def prog(exc):
    """Mark an exception as raised by the modelled program (not by the executor)."""
    exc._program = True
    return exc


def stamp():
    e = Engine.cur
    if e is None:
        return 0
    e.born += 1
    return e.born


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def lift(o):
        if isinstance(o, SInt):
            return o.t
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SBool):
            return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, Poison):
            o._p()
        return None

    def _bin(self, o, f):
        b = SInt.lift(o)
        if b is None:
            return NotImplemented
        return SInt(z3.simplify(f(self.t, b)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SInt(z3.simplify(self.t / o))     # integer division of SMT-LIB is floor for a positive divisor
        raise Unsupported("floor division")

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SInt(z3.simplify(self.t % o))
        raise Unsupported("modulo")

    def __abs__(self): return SInt(z3.If(self.t < 0, -self.t, self.t))
    def __neg__(self): return SInt(-self.t)
    def __pos__(self): return self

    def _cmp(self, o, f):
        b = SInt.lift(o)
        if b is None:
            return NotImplemented
        return SBool(f(self.t, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        b = SInt.lift(o)
        if b is None:
            if isinstance(o, SVal):
                return o == self
            return SBool(z3.BoolVal(False))
        return SBool(self.t == b)

    def __ne__(self, o):
        return ~(self == o)

    def __bool__(self):
        return E().fork(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of SInt")

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("concrete int needed")

    def __format__(self, spec):
        return "<int>"

    __repr__ = __str__ = lambda self: "<int>"


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().fork(self.t)

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __and__(self, o):
        return SBool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.t == bterm(o))
        return SBool(z3.BoolVal(False))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        raise Unsupported("hash of SBool")

    __repr__ = lambda self: "<bool>"


def bterm(o):
    """Bool term of the truth value of o, without forking when possible."""
    if isinstance(o, SBool):
        return o.t
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if o is None:
        return z3.BoolVal(False)
    if isinstance(o, SInt):
        return o.t != 0
    if isinstance(o, SVal):
        return o.truth()
    if isinstance(o, SymList):
        return z3.Not(o.term() == nil)
    return z3.BoolVal(bool(o))


class SVal:
    """A value of kind 'str', 'optstr', 'any' (opaque object or None) or 'obj:<X>' (opaque non-None)."""
    __slots__ = ("t", "kind", "extra")

    def __init__(self, t, kind, extra=None):
        self.t, self.kind, self.extra = t, kind, extra

    def truth(self):
        if self.kind in ("str", "char"):
            return self.t != 0
        if self.kind == "optstr":
            return z3.And(self.t != NONE, self.t != 0)
        if self.kind == "any":
            return z3.And(self.t != NONE, T.f_truthy(self.t))
        return z3.BoolVal(True)

    def __bool__(self):
        return E().fork(self.truth())

    def isnone(self):
        if self.kind in ("optstr", "any"):
            return SBool(self.t == NONE)
        return SBool(z3.BoolVal(False))

    def __eq__(self, o):
        if self.kind in ("str", "optstr", "char"):
            if isinstance(o, str):
                return SBool(self.t == E().code_of_str(o))
            if o is None:
                return SBool(self.t == NONE) if self.kind == "optstr" else SBool(z3.BoolVal(False))
            if isinstance(o, SVal) and o.kind in ("str", "optstr", "char"):
                return SBool(self.t == o.t)
            if isinstance(o, SVal):
                return SBool(E_veq(self.t, o.t))
            return SBool(z3.BoolVal(False))
        if isinstance(o, SVal):
            return SBool(E_veq(self.t, o.t))
        if o is None:
            return SBool(self.t == NONE) if self.kind == "any" else SBool(z3.BoolVal(False))
        c = encode(o)
        return SBool(E_veq(self.t, c))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        raise Unsupported("hash of SVal")

    def __format__(self, spec):
        return "<val>"

    __repr__ = __str__ = lambda self: "<val>"

    # ------- strings
    def slen(self):
        return SInt(T.f_slen(self.t))

    def _str(self):
        if self.kind not in ("str", "optstr"):
            raise Unsupported("string operation on %s" % self.kind)

    def __getitem__(self, i):
        self._str()
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("string slice step")
            n = self.slen().t
            a = norm_slice(i.start, n, 0)
            b = norm_slice(i.stop, n, None)
            return str_slice(self, a, b, n)
        it = SInt.lift(i)
        if it is None:
            raise Unsupported("string index")
        n = self.slen().t
        eff = it if nonneg(it) else z3.simplify(z3.If(it < 0, it + n, it))
        if not E().fork(z3.And(0 <= eff, eff < n)):
            raise prog(IndexError("string index out of range"))
        return SVal(T.f_schar(self.t, eff), "char")

    def _cmp(self, o, flip):
        if self.kind not in ("str", "char", "optstr") or kind_of(o) not in ("str", "char", "optstr"):
            raise Unsupported("order of %s values" % self.kind)
        a, b = self.t, encode(o)
        return f_strlt(b, a) if flip else f_strlt(a, b)

    def __lt__(self, o):
        return SBool(self._cmp(o, False))

    def __gt__(self, o):
        return SBool(self._cmp(o, True))

    def __le__(self, o):
        return SBool(z3.Not(self._cmp(o, True)))

    def __ge__(self, o):
        return SBool(z3.Not(self._cmp(o, False)))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic string outside a loop")

    def __contains__(self, o):
        self._str()
        if isinstance(o, SVal) and o.kind == "char":
            return bool(SBool(f_charin(o.t, self.t)))
        raise Unsupported("substring test")

    def __getattr__(self, name):
        if self.kind == "any" or self.kind.startswith("obj"):
            h = getattr(E(), "attr_hook", None)
            if h is not None:
                r = h(self, name)
                if r is not NotImplemented:
                    return r
        m = getattr(E(), "str_methods", {}).get(name)
        if m is not None and self.kind in ("str", "optstr", "char"):
            return lambda *a, **k: m(self, *a, **k)
        if name.startswith("__"):
            raise AttributeError("SVal %s" % name)
        raise Unsupported("attribute %s of a %s value" % (name, self.kind))

    def __call__(self, *args, **kw):
        if self.kind == "any" or self.kind.startswith("obj"):
            h = getattr(E(), "call_hook", None)
            if h is not None:
                return h(self, args, kw)
        raise Unsupported("call of a %s value" % self.kind)


def nonneg(t):
    """t >= 0 is known on this path."""
    if z3.is_true(z3.simplify(t >= 0)):
        return True
    e = E()
    return e.query(e.pc + [t < 0], timeout=1500).status == "unsat"


f_strrank = z3.Function("str_rank", I, z3.RealSort())   # countable linear orders embed in the rationals


def f_strlt(a, b):
    return f_strrank(a) < f_strrank(b)


f_charin = z3.Function("charin", I, I, z3.BoolSort())
f_app = z3.Function("app", I, I, I)
f_sub = T.f_ssub


def str_slice(s, a, b, n):
    """s[a:b] with 0<=a<=n, 0<=b<=n."""
    if a is None:
        a = z3.IntVal(0)
    t = T.f_ssub(s.t, a, b)
    return SVal(t, "str")


def norm_slice(v, n, dflt):
    if v is None:
        return z3.IntVal(0) if dflt == 0 else n
    t = SInt.lift(v)
    if t is None:
        raise Unsupported("slice bound")
    t = z3.If(t < 0, z3.If(t + n < 0, 0, t + n), z3.If(t > n, n, t))
    return z3.simplify(t)


def E_veq(a, b):
    """Python == on opaque values: an equivalence relation (assumed lawful)."""
    e = E()
    e.assumptions.add("== on match values is an equivalence relation")
    e.use_veq = True
    return T.f_veq(a, b)


class SFn:
    """A user supplied callable, assumed pure and total: application is a function of the arguments."""
    __slots__ = ("t", "ret", "calls")

    def __init__(self, t, ret="any"):
        self.t, self.ret = t, ret

    def __call__(self, *args, **kw):
        e = E()
        e.assumptions.add("user callables (predicates, formatters, validators, solvers) are deterministic, have no side effects on the collection and do not raise")
        t = self.t
        for a in args:
            t = f_app(t, encode(a))
        for k in sorted(kw):
            t = f_app(t, encode(kw[k]))
        if self.ret == "bool":
            return SBool(T.f_truthy(t))
        return SVal(t, self.ret)

    def __bool__(self):
        return True

    def __eq__(self, o):
        return SBool(self.t == o.t) if isinstance(o, SFn) else SBool(z3.BoolVal(False))

    def __hash__(self):
        raise Unsupported("hash of SFn")


class Poison:
    __slots__ = ("key",)

    def __init__(self, key):
        object.__setattr__(self, "key", key)

    def _p(self, *a, **k):
        raise PoisonUse(object.__getattribute__(self, "key"))

    __getattr__ = __getitem__ = __call__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _p
    __add__ = __radd__ = __sub__ = __rsub__ = __iter__ = __contains__ = __len__ = __hash__ = __setattr__ = _p
    __repr__ = lambda self: "<poison>"


# ------------------------------------------------------------------ encoding
def encode(v):
    """Int code of a value."""
    e = E()
    if isinstance(v, Poison):
        v._p()
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SVal):
        return v.t
    if isinstance(v, SFn):
        return v.t
    if v is None:
        return NONE
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return e.code_of_str(v)
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, tuple) and len(v) == 2:
        return f_pair(encode(v[0]), encode(v[1]))
    r = v.__dict__.get("_ref") if hasattr(v, "__dict__") else None
    if r is not None:
        return r
    enc = getattr(type(v), "_vc_enc", None)
    if enc is not None:
        return enc(v)
    if hasattr(type(v), "_vc_managed") or not isinstance(v, (SymList, SymDict, SymSet, SymIter)):
        # any other object: a distinct constant per object
        k = id(v)
        if k not in e.objcodes:
            c = z3.IntVal(-1000 - len(e.objcodes))
            e.objcodes[k] = (c, v)
        return e.objcodes[k][0]
    raise Unsupported("cannot encode %s" % type(v).__name__)


f_pair = z3.Function("pair", I, I, I)
f_fst = z3.Function("fst", I, I)
f_snd = z3.Function("snd", I, I)


def decode(code, kind):
    if kind == "int":
        return SInt(code)
    if kind == "bool":
        return SBool(code != 0)
    if kind in ("str", "optstr", "any", "char") or kind.startswith("obj"):
        return SVal(code, kind)
    if kind == "pair":
        return (SInt(f_fst(code)), SInt(f_snd(code)))
    if kind == "none":
        return None
    if kind == "optint":
        return None if E().fork(code == NONE) else SInt(code)
    if kind == "fn":
        return SFn(code)
    if kind == "fnbool":
        return SFn(code, "bool")
    d = getattr(E(), "decoders", {}).get(kind)
    if d is None:
        raise Unsupported("cannot decode kind %s" % kind)
    return d(code)


def kind_of(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, str):
        return "str"
    if isinstance(v, SVal):
        return v.kind
    if v is None:
        return "none"
    if isinstance(v, SFn):
        return "fnbool" if v.ret == "bool" else "fn"
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, (int, SInt)) for x in v):
        return "pair"
    k = getattr(type(v), "_vc_kind", None)
    if k is not None:
        return k
    return "pyobj"


def value_eq(a, b):
    """Python a == b as SBool/bool."""
    return a == b


class IterBase:
    """Iterators with a position."""


class SymIter:
    """An iterable of symbolic length.  lst: Lst term with element kind, or None."""

    def __init__(self, n, elem, lst=None, kind=None, distinct=False, source=None, index=None):
        self.n, self.elem, self.lst, self.kind, self.distinct, self.source, self.index = n, elem, lst, kind, distinct, source, index

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic iterable")

    def __bool__(self):
        return True

    def to_list(self):
        if self.lst is None:
            raise Unsupported("list() of a symbolic iterable without list form")
        return SymList.of_term(self.lst, self.kind)


def lst_iter(term, kind, distinct=False, source=None):
    return SymIter(f_len(term), lambda i: decode(f_at(term, i), kind), term, kind, distinct, source)


class SymList:
    """A Python list.  Concrete mode: python list of values.  Symbolic mode: an Lst term and an element kind."""
    _vc_kind = "list"

    def __class_getitem__(cls, item):
        return cls

    def __new__(cls, *a):
        h = getattr(E(), "list_hook", None) if cls is SymList and a else None
        r = h(*a) if h is not None else NotImplemented
        return object.__new__(cls) if r is NotImplemented else r

    def __init__(self, it=()):
        self._born = stamp()
        self._items = []
        self._t = None
        self._kind = None
        self._slot = None
        if not (isinstance(it, tuple) and not it):
            self.extend(it)

    @classmethod
    def of_term(cls, t, kind):
        l = SymList.__new__(cls)
        l._items, l._t, l._kind, l._slot, l._born = None, t, kind, None, stamp()
        return l

    @classmethod
    def of_slot(cls, getter, setter, kind, tag=None):
        l = SymList.__new__(cls)
        l._items, l._t, l._kind, l._slot, l._born = None, None, kind, (getter, setter, tag), stamp()
        return l

    # ---- state
    @property
    def concrete(self):
        return self._items is not None

    def term(self):
        if self._slot is not None:
            return self._slot[0]()
        if self._items is not None:
            t = nil
            for v in self._items:
                t = f_snoc(t, encode(v))
            return t
        return self._t

    def kind(self):
        if self._items is not None:
            ks = {kind_of(v) for v in self._items}
            if self._kind is not None:
                return self._kind
            if len(ks) == 1:
                return ks.pop()
            if not ks:
                return None
            if ks == {"str", "optstr"}:
                return "optstr"
            if ks <= {"str", "optstr", "none"}:
                return "optstr"
            raise Unsupported("list of mixed kinds %s" % ks)
        return self._kind

    def _save(self):
        st = (list(self._items) if self._items is not None else None, self._t, self._kind, self._slot)

        def restore():
            self._items, self._t, self._kind, self._slot = st
        E().record(self, restore)

    def set_term(self, t, kind=None):
        k = kind or self.kind()
        if self._slot is not None:
            self._slot[1](t)
            if self._kind is None:
                self._kind = k
            return
        self._save()
        self._items, self._t, self._kind = None, t, k

    def set_items(self, items):
        self._save()
        self._items, self._t = list(items), None

    def _join(self, k, own=None):
        """Kind of the elements once one of kind k is added."""
        own = own or self.kind()
        if own is None or k is None or own == k:
            return own or k
        if {own, k} <= {"str", "optstr", "none", "char"}:
            return "optstr" if "none" in (own, k) or "optstr" in (own, k) else "str"
        if "any" in (own, k):
            return "any"
        raise Unsupported("list of kinds %s and %s" % (own, k))

    # ---- operations
    def append(self, v):
        if self.concrete:
            self._save()
            self._items.append(v)
        else:
            c = encode(v)
            self.set_term(f_snoc(self.term(), c), self._join(kind_of(v)))

    def extend(self, it):
        it = iterate(it)
        if isinstance(it, SymIter):
            if it.lst is None:
                raise Unsupported("extend by a symbolic iterable without list form")
            k = self._join(it.kind)
            self.set_term(f_cat(self.term(), it.lst) if not (self.concrete and not self._items) else it.lst, k)
            return
        if self.concrete:
            self._save()
            self._items.extend(it)
        else:
            t = self.term()
            k = self.kind()
            for v in it:
                t = f_snoc(t, encode(v))
                k = self._join(kind_of(v), k)
            self.set_term(t, k)

    def insert(self, i, v):
        if self.concrete and isinstance(i, int):
            self._save()
            self._items.insert(i, v)
            return
        t = self.term()
        n = f_len(t)
        it = SInt.lift(i)
        eff = norm_slice(SInt(it), n, 0)
        self.set_term(T.f_ins(t, eff, encode(v)), self._join(kind_of(v)))

    def sym_len(self):
        if self.concrete:
            return len(self._items)
        return SInt(f_len(self.term()))

    def __len__(self):
        if self.concrete:
            return len(self._items)
        raise Unsupported("native len of a symbolic list")

    def __bool__(self):
        if self.concrete:
            return bool(self._items)
        return E().fork(z3.Not(self.term() == nil))

    def __iter__(self):
        if self.concrete:
            return iter(list(self._items))
        raise Unsupported("native iteration over a symbolic list")

    def _index(self, i):
        t = self.term()
        it = SInt.lift(i)
        n = f_len(t)
        si = z3.simplify(it)
        if z3.is_int_value(si):
            eff = si if si.as_long() >= 0 else n + si
        else:
            eff = it if nonneg(it) else z3.simplify(z3.If(it < 0, it + n, it))
        if not E().fork(z3.And(0 <= eff, eff < n)):
            raise prog(IndexError("list index out of range"))
        return t, eff

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.concrete and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                r = SymList()
                r._items = self._items[i]
                return r
            if i.step is not None:
                raise Unsupported("slice step")
            t = self.term()
            n = f_len(t)
            a, b = norm_slice(i.start, n, 0), norm_slice(i.stop, n, None)
            if E().fork(a < b):
                return SymList.of_term(T.f_take(T.f_drop(t, a), b - a) if not z3.is_true(z3.simplify(a == 0)) else T.f_take(t, b), self.kind())
            r = SymList()
            r._kind = self.kind()
            return r
        if self.concrete and isinstance(i, int):
            try:
                return self._items[i]
            except IndexError as x:
                raise prog(x)
        if SInt.lift(i) is None:
            raise prog(TypeError("list indices"))
        t, eff = self._index(i)
        return decode(f_at(t, eff), self.kind())

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if self.concrete and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                self._save()
                self._items[i] = list(iterate_concrete(v))
                return
            if i.step is not None:
                raise Unsupported("slice assignment with step")
            t = self.term()
            n = f_len(t)
            a, b = norm_slice(i.start, n, 0), norm_slice(i.stop, n, None)
            src = iterate(v)
            mid = src.lst if isinstance(src, SymIter) else SymList(tuple(src)).term()
            if mid is None:
                raise Unsupported("slice assignment source")
            b2 = z3.simplify(z3.If(b < a, a, b))
            self.set_term(f_cat(f_cat(T.f_take(t, a), mid), T.f_drop(t, b2)), self.kind())
            return
        if self.concrete and isinstance(i, int):
            try:
                self._items[i]
            except IndexError as x:
                raise prog(IndexError("list assignment index out of range"))
            self._save()
            self._items[i] = v
            return
        if SInt.lift(i) is None:
            raise prog(TypeError("list indices"))
        t, eff = self._index(i)
        self.set_term(T.f_set(t, eff, encode(v)), self.kind())

    def __delitem__(self, i):
        if isinstance(i, slice):
            if self.concrete and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                self._save()
                del self._items[i]
                return
            if i.step is not None:
                raise Unsupported("slice deletion with step")
            t = self.term()
            n = f_len(t)
            a, b = norm_slice(i.start, n, 0), norm_slice(i.stop, n, None)
            b2 = z3.simplify(z3.If(b < a, a, b))
            self.set_term(f_cat(T.f_take(t, a), T.f_drop(t, b2)), self.kind())
            return
        if self.concrete and isinstance(i, int):
            try:
                self._items[i]
            except IndexError:
                raise prog(IndexError("list assignment index out of range"))
            self._save()
            del self._items[i]
            return
        if SInt.lift(i) is None:
            raise prog(TypeError("list indices"))
        t, eff = self._index(i)
        self.set_term(T.f_del(t, eff), self.kind())

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def clear(self):
        if self._slot is not None:
            self.set_term(nil)
        else:
            self.set_items([])

    def copy(self):
        return self.clone()

    def clone(self):
        if self.concrete:
            r = SymList()
            r._items = list(self._items)
            r._kind = self._kind
            return r
        return SymList.of_term(self.term(), self.kind())

    def reverse(self):
        if self.concrete:
            self.set_items(list(reversed(self._items)))
        else:
            self.set_term(T.f_rev(self.term()))

    def contains(self, v):
        """Bool term of `v in self` (identity or equality)."""
        if self.concrete:
            if not self._items:
                return z3.BoolVal(False)
            return z3.Or([bterm(is_value(x, v)) if kind_of(x) in ("ref",) else z3.Or(z3.BoolVal(x is v), bterm(value_eq(x, v))) for x in self._items])
        k = self.kind()
        t = self.term()
        if k in ("str", "optstr", "int", "char", "bool") or k is None:
            if k is None:
                # elements of a kind not yet known: taken to be of the kind of v (checked when one is added)
                self._kind = kind_of(v)
                return self.contains(v)
            if k == "int" and SInt.lift(v) is None:
                return z3.BoolVal(False)
            if k in ("str", "char", "optstr") and not (isinstance(v, (str, SVal)) or v is None):
                return z3.BoolVal(False)
            return f_mem(encode(v), t)
        h = getattr(E(), "mem_eq", {}).get(k)
        if h is not None:
            return h(v, t)
        raise Unsupported("membership in a list of %s" % k)

    def __contains__(self, v):
        return E().fork(self.contains(v))

    def remove(self, v):
        if self.concrete:
            for n, x in enumerate(self._items):
                if x is v or value_eq(x, v):
                    self._save()
                    del self._items[n]
                    return
            raise prog(ValueError("list.remove(x): x not in list"))
        k = self.kind()
        t = self.term()
        if k in ("str", "optstr", "int"):
            if not E().fork(self.contains(v)):
                raise prog(ValueError("list.remove(x): x not in list"))
            c = encode(v)
            if E().valid(T.f_dist(t), timeout=1500, second=False)[0]:
                # the only one: all the others stay
                x = E().freshint("rx")
                self.set_term(E().comps.make(x, z3.If(z3.Not(x == c), T.f_snoc(nil, x), nil), t), k)
                return
            p = T.f_idx(c, t)
            self.set_term(T.f_del(t, p))
            return
        h = getattr(E(), "list_remove", {}).get(k)
        if h is not None:
            return h(self, v)
        raise Unsupported("remove from a list of %s" % k)

    def index(self, v, *a):
        if self.concrete and not a:
            for n, x in enumerate(self._items):
                if x is v or value_eq(x, v):
                    return n
            raise prog(ValueError("not in list"))
        h = getattr(E(), "list_index", {}).get(self.kind())
        if h is not None and not a:
            return h(self, v)
        raise Unsupported("index in symbolic list")

    def count(self, v):
        raise Unsupported("list.count")

    def sort(self, key=None, reverse=False):
        from .builtins_ import b_sorted
        r = b_sorted(self, key=key, reverse=reverse)
        if r.concrete:
            self.set_items(r._items)
        else:
            self.set_term(r.term(), r.kind())

    def __add__(self, o):
        if not isinstance(o, SymList):
            return NotImplemented
        r = self.clone()
        r.extend(o)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __eq__(self, o):
        if isinstance(o, SymList):
            if self.concrete and o.concrete:
                if len(self._items) != len(o._items):
                    return False
                return SBool(z3.And([z3.Or(z3.BoolVal(a is b), bterm(value_eq(a, b))) for a, b in zip(self._items, o._items)] or [z3.BoolVal(True)]))
            ks = {l.kind() for l in (self, o) if not (l.concrete and not l._items)}
            if ks <= {"str", "int", "optstr"}:
                return SBool(self.term() == o.term())
            raise Unsupported("equality of symbolic lists")
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None
    __repr__ = lambda self: "<list>"


T.f_first = z3.Function("firstidx", LST, I, I)


def is_value(a, b):
    from .builtins_ import is_
    return is_(a, b)


class SymDict:
    """A dict in association mode (keys listed in order, compared with ==), with an optional
    symbolic base: base(key code) -> (has: Bool, payload) for dicts from keys to lists."""
    _vc_kind = "dict"

    def __class_getitem__(cls, item):
        return cls

    def __new__(cls, *a, **kw):
        h = getattr(E(), "dict_hook", None) if cls is SymDict and a and not kw else None
        r = h(*a) if h is not None else NotImplemented
        return object.__new__(cls) if r is NotImplemented else r

    def __init__(self, it=(), **kw):
        self._born = stamp()
        self._keys = []
        self._vals = []
        self._factory = None
        self._base = None      # function: key code -> (has term, Lst term)
        self._elemkind = None
        self._keykind = None
        if isinstance(it, (SymDict, dict)) or not (isinstance(it, tuple) and not it):
            self.update(it)
        for k, v in kw.items():
            self[k] = v

    def _save(self):
        st = (list(self._keys), list(self._vals), self._base)

        def restore():
            self._keys, self._vals, self._base = list(st[0]), list(st[1]), st[2]
        E().record(self, restore)

    # ---- symbolic base (dict of lists)
    @property
    def symbolic(self):
        return self._base is not None

    def base_write(self, kcode, content):
        """content: function old content -> new content at key kcode (made present)."""
        self._save()
        old = self._base

        def new(k, old=old, kcode=kcode):
            h, c = old(k)
            if k.eq(kcode):
                return z3.BoolVal(True), content(c)
            same = k == kcode
            return z3.Or(h, same), z3.If(same, content(c), c)
        self._base = new

    def slot(self, key):
        kc = encode(key)

        def get():
            return self._base(kc)[1]

        def put(t):
            self.base_set(kc, t)
        l = SymList.of_slot(get, put, self._elemkind, ("dict", self, kc))
        return l

    def base_set(self, kcode, t):
        self._save()
        old = self._base

        def new(k):
            if k.eq(kcode):
                return z3.BoolVal(True), t
            h, c = old(k)
            same = z3.simplify(k == kcode)
            if z3.is_false(same):
                return h, c
            return z3.Or(h, same), z3.If(same, t, c)
        self._base = new

    def _tobase(self):
        """Turn an association-mode dict of lists into base mode."""
        if self._base is not None:
            return
        if self._keys:
            for v in self._vals:
                if not isinstance(v, SymList):
                    raise Unsupported("symbolic key in a dict of %s" % type(v).__name__)
        keys, vals = list(self._keys), list(self._vals)
        self._save()
        fixed = [(encode(k), v.term(), v.kind()) for k, v in zip(keys, vals)]
        self._keys, self._vals = [], []

        def base(k):
            h, c = z3.BoolVal(False), nil
            for kc, t, _ in fixed:
                h, c = z3.Or(h, k == kc), z3.If(k == kc, t, c)
            return h, c
        self._base = base

    def _find(self, k):
        if isinstance(k, Poison):
            k._p()
        for n, x in enumerate(self._keys):
            if x is k:
                return n
            if type(x) is type(k) and isinstance(x, (str, int)):
                if x == k:
                    return n
                continue
            r = value_eq(x, k)
            if r is NotImplemented:
                continue
            if bool(r):
                return n
        return -1

    def __contains__(self, k):
        if self.symbolic:
            return E().fork(self._base(encode(k))[0])
        return self._find(k) >= 0

    def __getitem__(self, k):
        if self.symbolic:
            kc = encode(k)
            h = self._base(kc)[0]
            if self._factory is not None:
                if not z3.is_true(z3.simplify(h)):
                    self.base_write(kc, lambda c: z3.simplify(z3.If(h, c, nil)) if False else c)
                return self.slot(k)
            if not E().fork(h):
                raise prog(KeyError("key"))
            return self.slot(k)
        if self._factory is not None and isinstance(k, (SVal, SInt)) and not self._keys:
            self._tobase()
            return self[k]
        n = self._find(k)
        if n >= 0:
            return self._vals[n]
        if self._factory is not None:
            v = self._factory()
            self[k] = v
            return v
        raise prog(KeyError("key"))

    def get(self, k, d=None):
        if self.symbolic:
            if E().fork(self._base(encode(k))[0]):
                return self.slot(k)
            return d
        n = self._find(k)
        return self._vals[n] if n >= 0 else d

    def __setitem__(self, k, v):
        if self.symbolic:
            if not isinstance(v, SymList):
                raise Unsupported("store in a symbolic dict")
            self.base_set(encode(k), v.term())
            if v._slot is None:
                kc = encode(k)
                v._save()
                v._items, v._t = None, None
                v._slot = (lambda: self._base(kc)[1], lambda t: self.base_set(kc, t), ("dict", self, kc))
            return
        n = self._find(k)
        self._save()
        if n >= 0:
            self._vals[n] = v
        else:
            self._keys.append(k)
            self._vals.append(v)

    def __delitem__(self, k):
        if self.symbolic:
            raise Unsupported("del in a symbolic dict")
        n = self._find(k)
        if n < 0:
            raise prog(KeyError("key"))
        self._save()
        del self._keys[n]
        del self._vals[n]

    def pop(self, k, *d):
        n = self._find(k)
        if n < 0:
            if d:
                return d[0]
            raise prog(KeyError("key"))
        v = self._vals[n]
        del self[k]
        return v

    def setdefault(self, k, d=None):
        if self.symbolic:
            kc = encode(k)
            if E().fork(self._base(kc)[0]):
                return self.slot(k)
            self[k] = d
            return self.slot(k)
        n = self._find(k)
        if n >= 0:
            return self._vals[n]
        self[k] = d
        return d

    def update(self, o=(), **kw):
        if isinstance(o, (SymDict, dict)):
            src = list(o.items()) if isinstance(o, dict) else list(zip(o._need_assoc(), list(o._vals)))
            for k, v in src:
                self[k] = v
        else:
            for kv in iterate_concrete(o):
                k, v = kv
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _need_assoc(self):
        if self.symbolic:
            raise Unsupported("enumeration of a symbolic dict")
        return list(self._keys)

    def keys(self):
        if self.symbolic:
            return SymKeys(self)
        return list(self._keys) if not any(isinstance(k, (SVal, SInt)) for k in self._keys) else tuple(self._keys)

    def values(self):
        self._need_assoc()
        return tuple(self._vals)

    def items(self):
        if self.symbolic:
            return SymItems(self)
        return tuple(zip(self._keys, self._vals))

    def clear(self):
        self._save()
        self._keys, self._vals, = [], []
        self._base = None

    def copy(self):
        r = SymDict()
        if self.symbolic:
            r._base, r._elemkind, r._keykind = self._base, self._elemkind, self._keykind
        r._keys, r._vals = list(self._keys), list(self._vals)
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def sym_len(self):
        if self.symbolic:
            raise Unsupported("len of symbolic dict")
        return len(self._keys)

    def __len__(self):
        return len(self._need_assoc())

    def __bool__(self):
        if self.symbolic:
            raise Unsupported("truth of symbolic dict")
        return bool(self._keys)

    def __iter__(self):
        return iter(self._need_assoc())

    def __eq__(self, o):
        raise Unsupported("dict equality")

    __hash__ = None
    __repr__ = lambda self: "<dict>"

    def move_to_end(self, *a):
        raise Unsupported("move_to_end")


class SymKeys:
    """Keys view of a symbolic dict (set of key codes given by its `has` function)."""

    def __init__(self, d, filt=None):
        self.d, self.filt = d, filt

    def has(self, k):
        h, c = self.d._base(k)
        if self.filt is not None:
            h = z3.And(h, self.filt(k, c))
        return h


class SymItems:
    def __init__(self, d):
        self.d = d


class SymSet:
    """A set: concrete list of members compared with ==, or a symbolic membership function."""
    _vc_kind = "set"

    def __class_getitem__(cls, item):
        return cls

    def __init__(self, it=()):
        self._born = stamp()
        self._items = []
        self._fn = None     # code -> Bool
        self._kind = None
        src = iterate(it)
        if isinstance(src, SymIter):
            if src.lst is None:
                raise Unsupported("set of a symbolic iterable")
            t = src.lst
            self._kind = src.kind
            self._fn = lambda c: E_memset(c, t, self._kind)
        else:
            for v in src:
                self._add(v)

    def _save(self):
        st = (list(self._items), self._fn, self._kind)

        def restore():
            self._items, self._fn, self._kind = list(st[0]), st[1], st[2]
        E().record(self, restore)

    def _add(self, v):
        if self._fn is None:
            if any(x is v or bool(value_eq(x, v)) for x in self._items):
                return
            self._items.append(v)
        else:
            c = encode(v)
            old = self._fn
            k = self._kind
            self._fn = lambda d: z3.Or(old(d), E_same(d, c, k))

    def add(self, v):
        self._save()
        self._add(v)

    def discard(self, v):
        if self._fn is not None:
            raise Unsupported("discard on symbolic set")
        self._save()
        self._items = [x for x in self._items if not (x is v or bool(value_eq(x, v)))]

    def contains(self, v):
        if self._fn is not None:
            return self._fn(encode(v))
        return z3.Or([z3.Or(z3.BoolVal(x is v), bterm(value_eq(x, v))) for x in self._items] or [z3.BoolVal(False)])

    def __contains__(self, v):
        return E().fork(self.contains(v))

    def update(self, *its):
        for it in its:
            for v in iterate_concrete(it):
                self.add(v)

    def _conc(self):
        if self._fn is not None:
            raise Unsupported("enumeration of a symbolic set")
        return list(self._items)

    def __iter__(self):
        return iter(self._conc())

    def __len__(self):
        return len(self._conc())

    def sym_len(self):
        return len(self._conc())

    def __bool__(self):
        if self._fn is not None:
            raise Unsupported("truth of symbolic set")
        return bool(self._items)

    def __or__(self, o):
        r = SymSet(tuple(self._conc()))
        for v in iterate_concrete(o):
            r.add(v)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    _vc_inplace = True

    def union(self, *o):
        r = self
        for x in o:
            r = r | x
        return r

    def __sub__(self, o):
        r = SymSet()
        for v in self._conc():
            if not (v in (o if isinstance(o, SymSet) else SymSet(tuple(iterate_concrete(o))))):
                r._items.append(v)
        return r

    __hash__ = None
    __repr__ = lambda self: "<set>"


def E_memset(c, t, kind):
    h = getattr(E(), "mem_code", {}).get(kind)
    return h(c, t) if h else f_mem(c, t)


def E_same(a, b, kind):
    h = getattr(E(), "same_code", {}).get(kind)
    return h(a, b) if h else a == b


class LiveList(list):
    """The elements of a list when its iteration began."""
    live = None


def iterate(it):
    """A python list of values (concrete length) or a SymIter."""
    if isinstance(it, SymIter):
        return it
    if isinstance(it, Poison):
        it._p()
    if isinstance(it, SymList):
        if it.concrete:
            r = LiveList(it._items)
            r.live = it
            return r
        return lst_iter(it.term(), it.kind(), source=it)
    if isinstance(it, SymDict):
        return it._need_assoc()
    if isinstance(it, SymSet):
        if it._fn is not None:
            raise Unsupported("iteration over a symbolic set")
        return it._conc()
    if isinstance(it, SVal):
        if it.kind in ("str", "optstr"):
            n = it.slen().t
            s = it.t
            return SymIter(n, lambda i: SVal(T.f_schar(s, i), "char"), T.f_chars(s), "char", source=it)
        h = getattr(E(), "iter_hook", None)
        if h is not None:
            return h(it)
        raise Unsupported("iteration over an opaque value")
    h = getattr(it, "_vc_iter", None)
    if h is not None:
        return h()
    f = getattr(type(it), "__iter__", None)
    if f is not None and getattr(type(it), "__module__", "").startswith("vrebulk"):
        return iterate(f(it))
    try:
        return list(it)
    except TypeError as x:
        raise prog(x)


def iterate_concrete(it):
    r = iterate(it)
    if isinstance(r, SymIter):
        raise Unsupported("symbolic iterable where a concrete one is needed")
    return r
