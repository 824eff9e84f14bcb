"""Dictionaries of unbounded size: distinct keys in insertion order (a list term) and a total map of values."""
import z3
from . import terms as T
from .engine import Engine, Unsupported
from .terms import I, NONE, nil, f_len, f_at, f_mem, f_snoc, f_take, f_dist, LST
from .values import SymIter, SymList, SInt, SBool, SVal, decode, encode, kind_of, lst_iter, prog, stamp

MISSING = object()


def E_():
    return Engine.cur


class GItems:
    def __init__(self, d, what):
        self.d, self.what = d, what

    def _vc_iter(self):
        d, t = self.d, self.d.kterm()
        if self.what == "items":
            elem = lambda c: (decode(c, d.kk), d.val(c))
        else:
            elem = lambda c: d.val(c)
        it = SymIter(f_len(t), lambda i: elem(f_at(t, i)), source=d)
        it.enum = lst_iter(t, d.kk)
        it.of_key = elem
        return it

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic dictionary")


class GDict:
    """dict with arbitrary content.  Values are codes of one kind, kept on the heap (field self.f)."""
    _vc_kind = "gdict"
    _vc_isa = (dict,)
    _vc_splat = True

    def _vc_has(self, k):
        return self.has(encode(k))

    def __init__(self, kterm, kk, vk, vals=None):
        e = E_()
        e.counter += 1
        self._born = stamp()
        self.f = "gd%d" % e.counter
        e.field_born[self.f] = self._born
        self.kk, self.vk = kk, vk
        self.names = SymList.of_term(kterm, kk)
        if vals is not None:
            e.field_sorts[self.f] = vals.sort()
            e.heap[self.f] = vals
        else:
            e.field(self.f)

    @classmethod
    def fresh(cls, kk, vk, name="d"):
        e = E_()
        t = e.fresh(name + "_keys", LST)
        e.assume(f_dist(t))
        return cls(t, kk, vk, e.fresh(name + "_vals", T.ARR))

    @classmethod
    def where(cls, kterm, kk, vk, val):
        """The dictionary with these keys and val(key) at each."""
        e = E_()
        x = z3.Int("gk!")
        v = val(x)
        a = e.fresh("gvals", z3.ArraySort(I, v.sort()))
        e.assume(T.ax([x], z3.Select(a, x) == v, z3.Select(a, x)))
        d = getattr(e, "dict_class", {}).get(vk, cls)(kterm, kk, vk, a)
        d.fn = (a, val)
        return d

    def kterm(self):
        return self.names.term()

    def arr(self):
        return E_().field(self.f)

    fn = None

    def at(self, c):
        if self.fn is not None and self.arr().eq(self.fn[0]):
            return self.fn[1](c)
        return E_().read(self.f, c)

    def val(self, c):
        return decode(self.at(c), self.vk)

    def has(self, c):
        return f_mem(c, self.kterm())

    def enc(self, v):
        k = kind_of(v)
        if self.vk is None:
            self.vk = k
        return encode(v)

    # ---- dict
    def __contains__(self, k):
        return E_().fork(self.has(encode(k)))

    def __getitem__(self, k):
        c = encode(k)
        if not E_().fork(self.has(c)):
            raise prog(KeyError("key"))
        return self.val(c)

    def get(self, k, d=None):
        c = encode(k)
        return self.val(c) if E_().fork(self.has(c)) else d

    def __setitem__(self, k, v):
        e = E_()
        c = encode(k)
        if not e.fork(self.has(c)):
            self.names.set_term(f_snoc(self.kterm(), c), self.kk)
        e.write(self.f, c, self.enc(v))

    def setdefault(self, k, d=None):
        c = encode(k)
        if not E_().fork(self.has(c)):
            self.names.set_term(f_snoc(self.kterm(), c), self.kk)
            E_().write(self.f, c, self.enc(d))
        return self.val(c)

    def _drop(self, c):
        e = E_()
        # several keys dropped in a row: one filter
        t = self.kterm()
        base, cs = e.dropped.get(t.get_id(), (t, ()))[:2]
        cs = cs + (c,)
        x = e.freshint("gx")
        r = e.comps.make(x, z3.If(z3.Or([x == k for k in cs]), nil, f_snoc(nil, x)), base)
        e.dropped[r.get_id()] = (base, cs, r)
        self.names.set_term(r, self.kk)

    def __delitem__(self, k):
        c = encode(k)
        if not E_().fork(self.has(c)):
            raise prog(KeyError("key"))
        self._drop(c)

    def pop(self, k, d=MISSING):
        c = encode(k)
        if not E_().fork(self.has(c)):
            if d is MISSING:
                raise prog(KeyError("key"))
            return d
        v = self.val(c)
        self._drop(c)
        return v

    def clear(self):
        self.names.set_term(nil, self.kk)

    def update(self, o=(), **kw):
        e = E_()
        if isinstance(o, GDict):
            a, b, t = self.arr(), o.arr(), o.kterm()
            x = z3.Int("gk!")
            n = e.fresh("gvals", a.sort())
            e.assume(T.ax([x], z3.Select(n, x) == z3.If(f_mem(x, t), z3.Select(b, x), z3.Select(a, x)), z3.Select(n, x)))
            self.names.set_term(T.f_uni(self.kterm(), t), self.kk)
            e.heap[self.f] = n
        elif isinstance(o, dict) or hasattr(o, "items") and not hasattr(o, "_vc_iter"):
            for k, v in o.items():
                self[k] = v
        elif not (isinstance(o, tuple) and not o):
            raise Unsupported("update from %s" % type(o).__name__)
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = type(self)(self.kterm(), self.kk, self.vk, self.arr())
        r.fn = self.fn
        return r

    def keys(self):
        return self

    def items(self):
        return GItems(self, "items")

    def values(self):
        return GItems(self, "values")

    def __bool__(self):
        return E_().fork(self.kterm() != nil)

    def sym_len(self):
        return SInt(f_len(self.kterm()))

    def _vc_iter(self):
        return lst_iter(self.kterm(), self.kk, distinct=True, source=self.names)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic dictionary")

    def __eq__(self, o):
        raise Unsupported("dict equality")

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def same(self, kterm, vals):
        """Goal: these keys in this order, and vals(k) at every one of them."""
        e = E_()
        k = e.freshint("gk")
        return z3.And(self.kterm() == kterm, z3.Implies(f_mem(k, kterm), z3.Select(self.arr(), k) == vals(k)))


def dict_hook(*a):
    """dict(x) of a symbolic dictionary is a copy of it."""
    if len(a) == 1 and isinstance(a[0], GDict):
        return a[0].copy()
    return NotImplemented
