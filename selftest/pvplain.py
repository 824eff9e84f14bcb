"""The hooks of the rewritten source with their plain Python meaning."""
import builtins as _b

never = False
SPLAT = object()


class _Sig:
    def __init__(self, n):
        self.n = n


NEXT, BREAK = _Sig("next"), _Sig("break")


class RET:
    def __init__(self, v):
        self.v = v


class Res:
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


for _n in ("list", "dict", "set", "len", "range", "enumerate", "reversed", "sorted", "min", "max", "filter", "map",
           "any", "all", "isinstance", "hasattr", "callable", "iter", "next", "zip", "hash", "sum", "tuple", "id",
           "getattr", "bool", "str", "int", "repr", "issubclass", "frozenset", "type"):
    globals()["b_" + _n] = getattr(_b, _n)


def mklist(x):
    return x


mkset = set


def mkout():
    return []


def genout(x):
    return iter(x)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is SPLAT:
            d.update(v)
        else:
            d[k] = v
    return d


def fstr(s, thunk):
    return thunk()


def join(sep, x):
    return sep.join(x)


def kwmap(d):
    return d


def starmap(x):
    return x


def unpack(x, n):
    return tuple(x)


def is_(a, b):
    return a is b


def in_(x, c):
    return x in c


def comp(kind, it, condf, eltf):
    if kind.startswith("flat:"):
        vals = [y for x in it if condf(x) for y in (lambda r: r.items() if isinstance(r, dict) else r)(eltf(x))]
        kind = kind[5:]
    else:
        vals = [eltf(x) for x in it if condf(x)]
    return {"list": list, "set": set, "dict": dict, "gen": iter}[kind](vals)


def _run(r):
    if isinstance(r, RET):
        return Res("return", r.v)
    if r is BREAK:
        return Res("break")
    return None


def for_(lid, it, body, names, tnames):
    for x in it:
        r = _run(body(x))
        if r is not None:
            return r
    return Res("end")


def while_(lid, cond, body, names):
    while cond():
        r = _run(body())
        if r is not None:
            return r
    return Res("end")
