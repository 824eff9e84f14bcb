"""C19: user functions are called with exactly the arguments they can take."""
from .base import *
from .coll import flt
from pyvc.engine import Engine
from pyvc.gdict import GDict
from pyvc.builtins_ import Splat, SPLATKW

f_kind = z3.Function("param_kind", I, I)
f_pname = z3.Function("param_name", I, I)
PO, PK, VP, KO, VK = range(5)


def E_():
    return Engine.cur


class Param:
    """A parameter of a signature (inspect.Parameter)."""
    _vc_kind = "param"
    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = range(5)

    def __init__(self, code):
        self.code = code

    def _vc_enc(self):
        return self.code

    kind = property(lambda self: SInt(f_kind(self.code)))
    name = property(lambda self: SVal(f_pname(self.code), "str"))


class Sig:
    """inspect.Signature: the parameters by name, in order."""

    def __init__(self):
        e = E_()
        self.P = e.fresh("params", LST)
        x, y = z3.Int("px!"), z3.Int("py!")
        e.assume(f_dist(self.P))
        e.assume(T.ax([x], z3.Implies(f_mem(x, self.P), z3.And(0 <= f_kind(x), f_kind(x) <= 4)), f_mem(x, self.P)))
        e.assume(T.ax([x, y], z3.Implies(z3.And(f_mem(x, self.P), f_mem(y, self.P), f_pname(x) == f_pname(y)), x == y), z3.MultiPattern(f_mem(x, self.P), f_mem(y, self.P))))

    @property
    def parameters(self):
        s = self

        class ByName:
            def values(self):
                return SymList.of_term(s.P, "param")

            def items(self):
                it = SymIter(f_len(s.P), lambda i: (SVal(f_pname(f_at(s.P, i)), "str"), Param(f_at(s.P, i))), source=self)
                it.enum = lst_iter(s.P, "param")
                it.of_key = lambda c: (SVal(f_pname(c), "str"), Param(c))
                return it
        return ByName()


def variadic(e, sig, k):
    return flt(e, sig.P, lambda x: f_kind(x) == k) != nil


def npos(e, sig):
    return f_len(flt(e, sig.P, lambda x: z3.Or(f_kind(x) == PO, f_kind(x) == PK)))


def named(e, sig, k):
    """k is the name of a parameter that can be given by keyword."""
    x = e.freshint("nm")
    names = e.comps.make(x, z3.If(z3.Or(f_kind(x) == PK, f_kind(x) == KO), f_snoc(nil, f_pname(x)), nil), sig.P)
    return f_mem(k, names)


def taken(e, sig, A):
    """The positional arguments the call takes."""
    n = npos(e, sig)
    return z3.If(z3.Or(variadic(e, sig, VP), f_len(A) <= n), A, f_take(A, n))


def setup(e, lo):
    e.decoders["param"] = Param
    lo.Parameter = Param
    e.assumptions.add("inspect.signature describes what a callable accepts, without the argument it is bound to; callables without signature raise")


def new_args(e):
    A = SymList.of_term(e.fresh("args", LST), "any")
    K = GDict.fresh("str", "any", "kwargs")
    return A, K


@task("C19", "loose.signature_args", functions=["loose.signature_args"])
def _sa(e, ctx):
    lo = ctx.loose

    def body():
        setup(e, lo)
        s = Sig()
        A, K = new_args(e)
        A0, K0, V0 = A.term(), K.kterm(), K.arr()
        a, k = lo.signature_args__va(s, A, K)
        e.prove("positional arguments: the first ones, as many as it takes (all if variadic), in order", as_term(a) == taken(e, s, A0), assume=False)
        n = e.freshint("kwname")
        all_ = variadic(e, s, VK)
        e.prove("keyword arguments: exactly those it names (all if it takes any)",
                z3.And(k.has(n) == z3.And(f_mem(n, K0), z3.Or(all_, named(e, s, n)))), assume=False)
        e.prove("keyword arguments: unchanged", z3.Implies(k.has(n), k.at(n) == z3.Select(V0, n)), assume=False)
        e.prove("keyword arguments: in the order given", z3.Or(k.kterm() == K0, k.kterm() == flt(e, K0, lambda x: named(e, s, x))), assume=False)
        e.prove("the arguments given are not modified", z3.And(A.term() == A0, K.kterm() == K0, K.arr() == V0))
        done(e)
    return body


def as_term(a):
    if isinstance(a, SymList):
        return a.term()
    if isinstance(a, tuple):
        t = nil
        for v in a:
            t = f_snoc(t, encode(v))
        return t
    raise Unsupported("positional arguments are a %s" % type(a).__name__)


# what the signature of a callable says is assumed: inspect describes callables
@task("C19", "loose.function_args", functions=["loose.function_args", "loose.constructor_args", "loose._constructor"])
def _fa(e, ctx):
    lo = ctx.loose

    def body():
        setup(e, lo)
        A, K = new_args(e)
        s, fun, got, asked = Sig(), object(), [], []
        e.stubs_used.add("loose.signature_args")

        def signature(c, **kw):
            asked.append((c, kw))
            return s

        def signature_args(sig, *a, **kw):
            got.append((sig, a, kw))
            return A, K
        lo.signature, lo.signature_args = signature, signature_args
        f = (lo.function_args__va, lo.constructor_args__va)[e.choose(2)]
        r = f(fun, A, K)
        e.prove("the signature asked for is that of the function itself", bool(asked) and all(c is fun and kw == {"follow_wrapped": False} for c, kw in asked))
        e.prove("all arguments are offered, in order", len(got) == 1 and got[0][0] is s and len(got[0][1]) == 1 and isinstance(got[0][1][0], Splat) and got[0][1][0].of is A and list(got[0][2]) == [SPLATKW] and got[0][2][SPLATKW] is K)
        e.prove("what the signature takes is the answer", r[0] is A and r[1] is K)
        done(e)
    return body


class UserExc(Exception):
    pass


@task("C19", "loose.call", functions=["loose.call"])
def _call(e, ctx):
    lo = ctx.loose

    def body():
        setup(e, lo)
        A, K = new_args(e)
        cls = e.choose(2)
        A1, K1 = new_args(e)
        raises = e.choose(2)
        res = object()
        calls, asked = [], []

        class Fun:
            def __call__(self, *a, **kw):
                calls.append((a, kw))
                if raises:
                    raise prog(UserExc())
                return res
        fun = Fun()
        lo.isclass = lambda c: bool(cls) if c is fun else None

        def sel(which):
            def f(c, *a, **kw):
                asked.append((which, c, a, kw))
                return A1, K1
            return f
        lo.function_args, lo.constructor_args = sel(0), sel(1)
        e.stubs_used |= {"loose.function_args", "loose.constructor_args"}
        try:
            r = lo.call__va(fun, A, K)
            out = True
        except UserExc:
            out = False
        e.prove("the arguments are selected once, by the signature of what is called", len(asked) == 1 and asked[0][1] is fun and asked[0][0] == cls)
        e.prove("everything given is offered", asked[0][2][0].of is A and asked[0][3][SPLATKW] is K and len(asked[0][2]) == 1 and len(asked[0][3]) == 1)
        e.prove("the function is called once, with exactly the arguments selected", len(calls) == 1 and len(calls[0][0]) == 1 and calls[0][0][0].of is A1 and list(calls[0][1]) == [SPLATKW] and calls[0][1][SPLATKW] is K1)
        e.prove("an exception of the function comes out", out == (not raises))
        e.prove("the result of the function is returned as is", bool(raises or r is res))
        done(e)
    return body
