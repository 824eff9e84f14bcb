#!/usr/bin/env python3-vt
"""Every axiom of the list theory, read from pyvc/terms.py, is evaluated on random Python lists.

The symbols get their intended meaning on Python tuples and integers (skolem functions: a search for the witness);
an axiom false for one assignment fails the test.  The comprehension, sorting and congruence axioms that
pyvc generates are tested the same way for a set of bodies of each shape."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3  # noqa: E402
from pyvc import terms as T  # noqa: E402

DEF = -7         # what `at` gives outside the list


def s_of(x):
    """Characters of string code x: bijective base 3."""
    x = abs(x)
    out = []
    while x:
        x, r = divmod(x - 1, 3)
        out.append(r + 1)
    return tuple(reversed(out))


def code(s):
    n = 0
    for c in s:
        n = n * 3 + c
    return n


def uni(A, B):
    A = list(A)
    for b in B:
        if b not in A:
            A.append(b)
    return tuple(A)


def first(it, default=0):
    for x in it:
        return x
    return default


def ssub(x, i, j):
    s = s_of(x)
    return x if i == 0 and j == len(s) else code(s[max(i, 0):max(j, 0)])


FN = {
    "len": len,
    "at": lambda L, i: L[i] if 0 <= i < len(L) else DEF,
    "mem": lambda x, L: x in L,
    "idx": lambda x, L: L.index(x) if x in L else -99,
    "nil": lambda: (),
    "snoc": lambda L, x: L + (x,),
    "cat": lambda A, B: A + B,
    "take": lambda L, i: L[:max(i, 0)],
    "drop": lambda L, i: L[max(i, 0):],
    "delat": lambda L, i: L[:i] + L[i + 1:] if 0 <= i < len(L) else L,
    "insat": lambda L, i, x: L[:max(i, 0)] + (x,) + L[max(i, 0):],
    "setat": lambda L, i, x: L[:i] + (x,) + L[i + 1:] if 0 <= i < len(L) else L,
    "rev": lambda L: L[::-1],
    "rng": lambda i, j: tuple(range(i, j)),
    "distinct_l": lambda L: len(set(L)) == len(L),
    "unisk": lambda A, B: first(x for x in A if x in B),
    "unisk2": lambda A, B: first(x for x in B if x not in A),
    "uni": uni,
    "maxend": lambda a, L: max([0] + [a(x) for x in L]),
    "maxwit": lambda a, L: max(L, key=a) if L else 0,
    "slen": lambda x: len(s_of(x)),
    "schar": lambda x, i: s_of(x)[i] if 0 <= i < len(s_of(x)) else 0,
    "ssub": ssub,
    "chars": lambda x: s_of(x),
    "truthy": lambda x: x not in (0, -1),
    "veq": lambda x, y: x % 3 == y % 3,
}


class Unknown(Exception):
    pass


CACHE = {}


def ev(e, env, fn):
    k = (id(fn), e.get_id())
    f = CACHE.get(k)
    if f is None:
        f = CACHE[k] = comp(e, fn)
        CACHE[("keep",) + k] = e
    return f(env)


def comp(e, fn):
    """A z3 term as a Python function of the environment."""
    if z3.is_var(e):
        i = z3.get_var_index(e)
        return lambda env: env[i]
    if z3.is_int_value(e):
        v = e.as_long()
        return lambda env: v
    if z3.is_true(e):
        return lambda env: True
    if z3.is_false(e):
        return lambda env: False
    k = e.decl().kind()
    c = [comp(x, fn) for x in e.children()]
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n in fn:
            g = fn[n]
            if len(c) == 1:
                return lambda env: g(c[0](env))
            if len(c) == 2:
                return lambda env: g(c[0](env), c[1](env))
            return lambda env: g(*[x(env) for x in c])
        if not c:
            def get(env):
                if n not in env:
                    raise Unknown(n)
                return env[n]
            return get
        raise Unknown(n)
    if k == z3.Z3_OP_AND:
        return lambda env: all(x(env) for x in c)
    if k == z3.Z3_OP_OR:
        return lambda env: any(x(env) for x in c)
    if k == z3.Z3_OP_NOT:
        return lambda env: not c[0](env)
    if k == z3.Z3_OP_IMPLIES:
        return lambda env: (not c[0](env)) or c[1](env)
    if k == z3.Z3_OP_ITE:
        return lambda env: c[1](env) if c[0](env) else c[2](env)
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
        return lambda env: c[0](env) == c[1](env)
    if k == z3.Z3_OP_DISTINCT:
        return lambda env: len({x(env) for x in c}) == len(c)
    if k == z3.Z3_OP_ADD:
        return lambda env: sum(x(env) for x in c)
    if k == z3.Z3_OP_SUB:
        return lambda env: c[0](env) - sum(x(env) for x in c[1:])
    if k == z3.Z3_OP_UMINUS:
        return lambda env: -c[0](env)
    if k == z3.Z3_OP_MUL:
        return lambda env: c[0](env) * c[1](env)
    if k == z3.Z3_OP_LE:
        return lambda env: c[0](env) <= c[1](env)
    if k == z3.Z3_OP_LT:
        return lambda env: c[0](env) < c[1](env)
    if k == z3.Z3_OP_GE:
        return lambda env: c[0](env) >= c[1](env)
    if k == z3.Z3_OP_GT:
        return lambda env: c[0](env) > c[1](env)
    if k == z3.Z3_OP_SELECT:
        return lambda env: c[0](env)(c[1](env))
    raise Unknown(str(e.decl()))


class Arr:
    """A random total function of the integers."""

    def __init__(self, rng, lists):
        self.d = {x: (tuple(rng.randint(0, 4) for _ in range(rng.randint(0, 2))) if lists else rng.randint(-1, 5)) for x in range(-8, 12)}

    def __call__(self, x):
        return self.d.get(x, () if isinstance(self.d[0], tuple) else 0)

    def __hash__(self):
        return id(self)


def rnd(sort, rng):
    if sort == T.I:
        return rng.randint(-1, 5) if rng.random() < .9 else rng.randint(0, 60)
    if sort == T.B:
        return rng.random() < .5
    if sort == T.LST:
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        if rng.random() < .5:
            L = list(range(0, 7))
            rng.shuffle(L)
            return tuple(L[:n])
        return tuple(rng.randint(-1, 5) for _ in range(n))
    return Arr(rng, sort.range() == T.LST)


def test(name, f, fn, rng, n=1500):
    """One formula: holds for n random assignments; counts those where its premise holds."""
    if not z3.is_quantifier(f):
        return (0, 1) if ev(f, {}, fn) else (1, 1)
    nv = f.num_vars()
    body = f.body()
    imp = z3.is_implies(body)
    premise = comp(body.arg(0), fn) if imp else None
    whole = comp(body.arg(1) if imp else body, fn)
    sorts = [f.var_sort(i) for i in range(nv)]
    ls = [i for i in range(nv) if sorts[i] == T.LST]
    hits = bad = 0
    for turn in range(60000):
        if turn >= n and hits >= 20:
            break
        vals = [rnd(s, rng) for s in sorts]
        if rng.random() < .3:
            # lists of equal length / equal lists are rare otherwise
            if len(ls) > 1:
                vals[ls[-1]] = vals[ls[0]]
        env = {nv - 1 - i: v for i, v in enumerate(vals)}
        if imp and not premise(env):
            continue
        hits += 1
        if not whole(env):
            bad += 1
            if bad == 1:
                print("  FALSE %s at %s" % (name, vals))
    return bad, hits


def comps(rng):
    """The axioms generated for comprehension and sorting symbols."""
    X = z3.Int("x")
    p, q = z3.Ints("p q")
    a = z3.Const("a", T.ARR)
    la = z3.Const("la", z3.ArraySort(T.I, T.LST))
    one = lambda t: T.f_snoc(T.nil, t)
    nil = T.nil
    bodies = {
        "filter": z3.If(z3.Select(a, X) < p, one(X), nil),
        "filter-but": z3.If(z3.Not(X == p), one(X), nil),
        "filter-and": z3.If(z3.And(z3.Select(a, X) == p, X != q), one(X), nil),
        "filter-one": z3.If(X == p, one(X), nil),
        "filter-member": z3.If(T.f_mem(X, z3.Select(la, p)), one(X), nil),
        "map": one(z3.Select(a, X)),
        "map-if": z3.If(X > p, one(z3.Select(a, X)), nil),
        "map-either": z3.If(X > p, one(z3.Select(a, X)), one(q)),
        "map-eq": z3.If(z3.And(X == p, z3.Select(a, X) > 0), one(z3.Select(a, X)), nil),
        "flat": z3.Select(la, X),
        "flat-or-self": z3.If(z3.Select(la, X) == nil, one(X), z3.Select(la, X)),
        "flat-if": z3.If(X >= p, z3.Select(la, X), nil),
        "two": T.f_snoc(one(X), z3.Select(a, X)),
    }
    C = T.Comps()
    L = z3.Const("L", T.LST)
    for b in bodies.values():
        C.make(X, b, L)
    lts = {"by": z3.Select(a, z3.Int("u")) < z3.Select(a, z3.Int("v")),
           "by desc": z3.Select(a, z3.Int("u")) > z3.Select(a, z3.Int("v")),
           "lex": z3.Or(z3.Select(a, z3.Int("u")) < z3.Select(a, z3.Int("v")), z3.And(z3.Select(a, z3.Int("u")) == z3.Select(a, z3.Int("v")), z3.Int("u") < z3.Int("v")))}
    for lt in lts.values():
        C.sort(z3.Int("u"), z3.Int("v"), lt, L)
    fn = dict(FN)

    def bind(ent):
        def D(*args):
            env = {str(v): w for v, w in zip(ent["ps"], args[:-1])}
            env["$x"] = args[-1]
            return ev(ent["body"], env, fn)

        def Cn(*args):
            return tuple(y for x in args[-1] for y in D(*args[:-1], x))
        n = ent["n"]

        def pos(*args):
            L, i = args[-2], args[-1]
            kept = [j for j, x in enumerate(L) if D(*args[:-2], x)]
            return kept[i] if 0 <= i < len(kept) else -1
        fn["C%d" % n], fn["D%d" % n] = Cn, D
        fn["Csrc%d" % n] = lambda *args: first(x for x in args[-2] if args[-1] in D(*args[:-2], x))
        fn["ie%d" % n] = lambda *args: first(x for x in args[-1] if D(*args[:-1], x) != ())
        fn["ii%d" % n] = lambda *args: first(x for x in args[-1] if D(*args[:-1], x) != (x,))
        fn["pos%d" % n] = pos
    forms = []
    k = 0
    while k < len(C.list):                    # symbols made while making axioms included
        ent = C.list[k]
        bind(ent)
        forms += [("C%d.%s" % (ent["n"], n), f) for n, f in ent["axioms"].items()]
        k += 1
    for u, v in itertools.combinations_with_replacement(C.list, 2):
        if u is v and not u["psorts"]:
            continue
        nu = len(u["psorts"])

        def cg(*args, u=u, v=v, nu=nu):
            pu, pv_, L = args[:nu], args[nu:-1], args[-1]
            return first(x for x in L if fn["D%d" % u["n"]](*pu, x) != fn["D%d" % v["n"]](*pv_, x))
        fn["cg_%d_%d" % (u["n"], v["n"])] = cg
        if u["n"] < 14 and v["n"] < 14 and (u is v or (u["n"] + v["n"]) % 4 == 0):
            forms.append(("congruence %d %d" % (u["n"], v["n"]), C.congruence(u, v)))
    for key, ent in C.sorts.items():
        n = ent["n"]
        lt_t = list(lts.values())[n]

        def lt(a_, x, y, lt_t=lt_t):
            return ev(lt_t, {"a": a_, "u": x, "v": y}, fn)

        def S(a_, L, lt=lt):
            out = []
            for x in L:
                i = len(out)
                while i and lt(a_, x, out[i - 1]):
                    i -= 1
                out.insert(i, x)
            return tuple(out)
        fn["S%d" % n] = S
        fn["Sw%d" % n] = lambda a_, L, lt=lt: first((i for i in range(len(L) - 1) if lt(a_, L[i + 1], L[i])), 0)
        forms += [("S%d.%d" % (n, i), f) for i, f in enumerate(ent["axioms"])]
    return forms, fn


def structure(rng, n=400):
    """Comps.make on list terms (nil, snoc, cat, nested) means the comprehension over that list."""
    X = z3.Int("x")
    p = z3.Int("p")
    a = z3.Const("a", T.ARR)
    one = lambda t: T.f_snoc(T.nil, t)
    A, B = z3.Consts("A B", T.LST)
    bad = 0
    for b in (z3.If(z3.Select(a, X) < p, one(X), T.nil), one(z3.Select(a, X)), z3.If(X == p, T.nil, T.f_snoc(one(X), p))):
        for lst in (T.nil, T.f_snoc(A, p), T.f_cat(A, T.f_snoc(B, p)), z3.If(p > 2, A, B), "nested"):
            C = T.Comps()
            if isinstance(lst, str):
                Y = z3.Int("yy")
                lst = C.make(Y, z3.If(z3.Select(a, Y) > 1, T.f_snoc(one(Y), z3.Select(a, Y)), T.nil), A)
            t = C.make(X, b, lst)
            fn = dict(FN)
            for ent in C.list:
                def D(*args, ent=ent):
                    env = {str(v): w for v, w in zip(ent["ps"], args[:-1])}
                    env["$x"] = args[-1]
                    return ev(ent["body"], env, fn)
                fn["D%d" % ent["n"]] = D
                fn["C%d" % ent["n"]] = lambda *args, D=D: tuple(y for x in args[-1] for y in D(*args[:-1], x))
            for _ in range(n):
                env = dict(A=rnd(T.LST, rng), B=rnd(T.LST, rng), p=rnd(T.I, rng), a=Arr(rng, False))
                want = tuple(y for x in ev(lst, env, fn) for y in ev(b, dict(env, x=x), fn))
                if ev(t, env, fn) != want:
                    bad += 1
    return bad


def main():
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    bad = 0
    total = hits = 0
    thin = []
    for group, forms, fn in [("list axioms", list(T.LIST_AXIOMS.items()), FN), ("place axioms", list(T.PLACE_AXIOMS.items()), FN)] + [("generated axioms",) + comps(rng)]:
        n = 0
        for name, f in forms:
            try:
                b, h = test(name, f, fn, rng)
            except Unknown as u:
                print("  %s: symbol %s has no meaning here" % (name, u))
                b, h = 1, 0
            n += 1
            total += 1
            hits += h
            bad += bool(b)
            if h == 0 and z3.is_quantifier(f):
                thin.append(name)
        print("%s: %d formulas tested" % (group, n))
    sb = structure(rng)
    print("comprehensions over structured lists: %s" % ("agree" if not sb else "%d wrong" % sb))
    if thin:
        print("premise seldom met: %s" % thin)
    print("%d formulas, %d instances with the premise met, %d false" % (total, hits, bad))
    return 1 if bad or sb or thin else 0


if __name__ == "__main__":
    sys.exit(main())
