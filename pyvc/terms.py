"""SMT layer: sorts, list theory axioms, comprehension symbols, solver calls.

Every program value is encoded as an Int code (references, positions, interned
strings, opaque values).  Kinds are tracked statically by the executor, so codes
of different kinds are never compared except through explicit conversions.
"""
import os
import subprocess
import time
import z3

I = z3.IntSort()
B = z3.BoolSort()
LST = z3.DeclareSort("Lst")
ARR = z3.ArraySort(I, I)

NONE = z3.IntVal(-1)

f_len = z3.Function("len", LST, I)
f_at = z3.Function("at", LST, I, I)
f_mem = z3.Function("mem", I, LST, B)
f_idx = z3.Function("idx", I, LST, I)
nil = z3.Const("nil", LST)
f_snoc = z3.Function("snoc", LST, I, LST)
f_cat = z3.Function("cat", LST, LST, LST)
f_take = z3.Function("take", LST, I, LST)
f_drop = z3.Function("drop", LST, I, LST)
f_del = z3.Function("delat", LST, I, LST)
f_ins = z3.Function("insat", LST, I, I, LST)
f_set = z3.Function("setat", LST, I, I, LST)
f_rev = z3.Function("rev", LST, LST)
f_rng = z3.Function("rng", I, I, LST)
f_dist = z3.Function("distinct_l", LST, B)
f_ext = z3.Function("extsk", LST, LST, I)
f_srcpos = z3.Function("srcpos", LST, LST, I, I)
# strings
f_slen = z3.Function("slen", I, I)
f_schar = z3.Function("schar", I, I, I)
f_ssub = z3.Function("ssub", I, I, I, I)
f_chars = z3.Function("chars", I, LST)
f_join = z3.Function("joined", LST, I)
f_uni = z3.Function("uni", LST, LST, LST)     # A followed by the elements of B not yet there, each once


f_usk2 = z3.Function("unisk2", LST, LST, I)
f_usk = z3.Function("unisk", LST, LST, I)


def f_dedup(L):
    return f_uni(nil, L)


f_truthy = z3.Function("truthy", I, B)
f_veq = z3.Function("veq", I, I, B)

_x, _y, _i, _j, _k = z3.Ints("x! y! i! j! k!")
_A, _B, _L = z3.Consts("A! B! L!", LST)
_arr = z3.Const("arr!", ARR)
FA = z3.ForAll
f_maxend = z3.Function("maxend", ARR, LST, I)
f_maxwit = z3.Function("maxwit", ARR, LST, I)


def ax(vars_, body, *pats):
    return FA(vars_, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])


LIST_AXIOMS = {
    "len_nil": f_len(nil) == 0,
    "len_nonneg": ax([_L], z3.And(f_len(_L) >= 0, (f_len(_L) == 0) == (_L == nil)), f_len(_L)),
    "len_snoc": ax([_L, _x], z3.And(f_len(f_snoc(_L, _x)) == f_len(_L) + 1, f_snoc(_L, _x) != nil), f_snoc(_L, _x)),
    "len_cat": ax([_A, _B], f_len(f_cat(_A, _B)) == f_len(_A) + f_len(_B), f_cat(_A, _B)),
    "at_snoc": ax([_L, _x, _i], f_at(f_snoc(_L, _x), _i) == z3.If(_i == f_len(_L), _x, f_at(_L, _i)), f_at(f_snoc(_L, _x), _i)),
    "at_cat": ax([_A, _B, _i], f_at(f_cat(_A, _B), _i) == z3.If(_i < f_len(_A), f_at(_A, _i), f_at(_B, _i - f_len(_A))), f_at(f_cat(_A, _B), _i)),
    "cat_nil_r": ax([_A], f_cat(_A, nil) == _A, f_cat(_A, nil)),
    "cat_nil_l": ax([_A], f_cat(nil, _A) == _A, f_cat(nil, _A)),
    "cat_snoc": ax([_A, _B, _x], f_cat(_A, f_snoc(_B, _x)) == f_snoc(f_cat(_A, _B), _x), f_cat(_A, f_snoc(_B, _x))),
    "mem_nil": ax([_x], z3.Not(f_mem(_x, nil)), f_mem(_x, nil)),
    "mem_snoc": ax([_L, _x, _y], f_mem(_y, f_snoc(_L, _x)) == z3.Or(_y == _x, f_mem(_y, _L)), f_mem(_y, f_snoc(_L, _x))),
    "mem_snoc1": ax([_L, _x], f_mem(_x, f_snoc(_L, _x)), f_snoc(_L, _x)),
    "mem_snoc2": ax([_L, _x, _y], z3.Implies(f_mem(_y, _L), f_mem(_y, f_snoc(_L, _x))), (f_mem(_y, _L), f_snoc(_L, _x))),
    "maxend": ax([_arr, _L], z3.And(f_maxend(_arr, _L) >= 0, z3.Or(f_maxend(_arr, _L) == 0, z3.And(f_mem(f_maxwit(_arr, _L), _L), z3.Select(_arr, f_maxwit(_arr, _L)) == f_maxend(_arr, _L)))), f_maxend(_arr, _L)),
    "maxend_ub": ax([_arr, _L, _x], z3.Implies(f_mem(_x, _L), z3.Select(_arr, _x) <= f_maxend(_arr, _L)), (f_mem(_x, _L), f_maxend(_arr, _L))),
    "mem_cat": ax([_A, _B, _y], f_mem(_y, f_cat(_A, _B)) == z3.Or(f_mem(_y, _A), f_mem(_y, _B)), f_mem(_y, f_cat(_A, _B))),
    "mem_idx": ax([_L, _x], z3.Implies(f_mem(_x, _L), z3.And(0 <= f_idx(_x, _L), f_idx(_x, _L) < f_len(_L), f_at(_L, f_idx(_x, _L)) == _x)), f_mem(_x, _L)),
    "at_mem": ax([_L, _i], z3.Implies(z3.And(0 <= _i, _i < f_len(_L)), f_mem(f_at(_L, _i), _L)), f_at(_L, _i)),
    "take_len": ax([_L, _i], z3.Implies(z3.And(0 <= _i, _i <= f_len(_L)), f_len(f_take(_L, _i)) == _i), f_take(_L, _i)),
    "take_0": ax([_L], f_take(_L, 0) == nil, f_take(_L, 0)),
    "take_all": ax([_L, _i], z3.Implies(_i == f_len(_L), f_take(_L, _i) == _L), f_take(_L, _i)),
    "take_at": ax([_L, _i, _j], z3.Implies(z3.And(0 <= _j, _j < _i, _i <= f_len(_L)), f_at(f_take(_L, _i), _j) == f_at(_L, _j)), f_at(f_take(_L, _i), _j)),
    "take_mem": ax([_L, _i, _x], z3.Implies(f_mem(_x, f_take(_L, _i)), z3.And(f_mem(_x, _L), )), f_mem(_x, f_take(_L, _i))),
    "drop_len": ax([_L, _i], z3.Implies(z3.And(0 <= _i, _i <= f_len(_L)), z3.And(f_len(f_drop(_L, _i)) == f_len(_L) - _i, f_cat(f_take(_L, _i), f_drop(_L, _i)) == _L)), f_drop(_L, _i)),
    "drop_at": ax([_L, _i, _j], z3.Implies(z3.And(0 <= _j, 0 <= _i, _j + _i < f_len(_L)), f_at(f_drop(_L, _i), _j) == f_at(_L, _i + _j)), f_at(f_drop(_L, _i), _j)),
    "drop_snoc": ax([_L, _i, _x], z3.And(z3.Implies(z3.And(0 <= _i, _i <= f_len(_L)), f_drop(f_snoc(_L, _x), _i) == f_snoc(f_drop(_L, _i), _x)), z3.Implies(_i == f_len(_L) + 1, f_drop(f_snoc(_L, _x), _i) == nil)), f_drop(f_snoc(_L, _x), _i)),
    "del_def": ax([_L, _i], z3.Implies(z3.And(0 <= _i, _i < f_len(_L)), z3.And(f_del(_L, _i) == f_cat(f_take(_L, _i), f_drop(_L, _i + 1)), f_len(f_del(_L, _i)) == f_len(_L) - 1)), f_del(_L, _i)),
    "del_mem": ax([_L, _i, _x], z3.Implies(z3.And(f_mem(_x, f_del(_L, _i)), 0 <= _i, _i < f_len(_L)), f_mem(_x, _L)), f_mem(_x, f_del(_L, _i))),
    "del_mem2": ax([_L, _i, _x], z3.Implies(z3.And(f_mem(_x, _L), 0 <= _i, _i < f_len(_L), _x != f_at(_L, _i)), f_mem(_x, f_del(_L, _i))), (f_mem(_x, _L), f_del(_L, _i))),
    "ins_def": ax([_L, _i, _x], z3.Implies(z3.And(0 <= _i, _i <= f_len(_L)), z3.And(f_ins(_L, _i, _x) == f_cat(f_snoc(f_take(_L, _i), _x), f_drop(_L, _i)), f_len(f_ins(_L, _i, _x)) == f_len(_L) + 1)), f_ins(_L, _i, _x)),
    "ins_mem": ax([_L, _i, _x, _y], z3.Implies(z3.And(0 <= _i, _i <= f_len(_L)), f_mem(_y, f_ins(_L, _i, _x)) == z3.Or(_y == _x, f_mem(_y, _L))), f_mem(_y, f_ins(_L, _i, _x))),
    "ins_mem2": ax([_L, _i, _x, _y], z3.Implies(z3.And(0 <= _i, _i <= f_len(_L), f_mem(_y, _L)), f_mem(_y, f_ins(_L, _i, _x))), (f_mem(_y, _L), f_ins(_L, _i, _x))),
    "ins_end": ax([_L, _i, _x], z3.Implies(_i == f_len(_L), f_ins(_L, _i, _x) == f_snoc(_L, _x)), f_ins(_L, _i, _x)),
    "set_def": ax([_L, _i, _x], z3.Implies(z3.And(0 <= _i, _i < f_len(_L)), z3.And(f_len(f_set(_L, _i, _x)) == f_len(_L), f_set(_L, _i, _x) == f_cat(f_snoc(f_take(_L, _i), _x), f_drop(_L, _i + 1)))), f_set(_L, _i, _x)),
    "set_at": ax([_L, _i, _x, _j], z3.Implies(z3.And(0 <= _i, _i < f_len(_L)), f_at(f_set(_L, _i, _x), _j) == z3.If(_j == _i, _x, f_at(_L, _j))), f_at(f_set(_L, _i, _x), _j)),
    "set_mem": ax([_L, _i, _x, _y], z3.Implies(z3.And(0 <= _i, _i < f_len(_L), f_mem(_y, f_set(_L, _i, _x))), z3.Or(_y == _x, f_mem(_y, _L))), f_mem(_y, f_set(_L, _i, _x))),
    "rev_len": ax([_L], f_len(f_rev(_L)) == f_len(_L), f_rev(_L)),
    "rev_at": ax([_L, _i], z3.Implies(z3.And(0 <= _i, _i < f_len(_L)), f_at(f_rev(_L), _i) == f_at(_L, f_len(_L) - 1 - _i)), f_at(f_rev(_L), _i)),
    "rev_mem": ax([_L, _x], f_mem(_x, f_rev(_L)) == f_mem(_x, _L), f_mem(_x, f_rev(_L))),
    "rng_len": ax([_i, _j], f_len(f_rng(_i, _j)) == z3.If(_j > _i, _j - _i, 0), f_rng(_i, _j)),
    "rng_at": ax([_i, _j, _k], z3.Implies(z3.And(0 <= _k, _k < _j - _i), f_at(f_rng(_i, _j), _k) == _i + _k), f_at(f_rng(_i, _j), _k)),
    "rng_mem": ax([_i, _j, _x], f_mem(_x, f_rng(_i, _j)) == z3.And(_i <= _x, _x < _j), f_mem(_x, f_rng(_i, _j))),
    "dist_nil": f_dist(nil),
    "dist_snoc": ax([_L, _x], f_dist(f_snoc(_L, _x)) == z3.And(f_dist(_L), z3.Not(f_mem(_x, _L))), f_dist(f_snoc(_L, _x))),
    "dist_at": ax([_L, _i, _j], z3.Implies(z3.And(f_dist(_L), 0 <= _i, _i < _j, _j < f_len(_L)), f_at(_L, _i) != f_at(_L, _j)), (f_dist(_L), f_at(_L, _i), f_at(_L, _j))),
    "slen": ax([_x], z3.And(f_slen(_x) >= 0, (f_slen(_x) == 0) == (_x == 0)), f_slen(_x)),
    "chars_len": ax([_x], f_len(f_chars(_x)) == f_slen(_x), f_chars(_x)),
    "chars_at": ax([_x, _i], z3.Implies(z3.And(0 <= _i, _i < f_slen(_x)), f_at(f_chars(_x), _i) == f_schar(_x, _i)), f_at(f_chars(_x), _i)),
    "ssub_len": ax([_x, _i, _j], z3.Implies(z3.And(0 <= _i, _j <= f_slen(_x)), f_slen(f_ssub(_x, _i, _j)) == z3.If(_j > _i, _j - _i, 0)), f_ssub(_x, _i, _j)),
    "ssub_full": ax([_x, _i, _j], z3.Implies(z3.And(_i == 0, _j == f_slen(_x)), f_ssub(_x, _i, _j) == _x), f_ssub(_x, _i, _j)),
    "ssub_char": ax([_x, _i, _j, _k], z3.Implies(z3.And(0 <= _i, _j <= f_slen(_x), 0 <= _k, _k < _j - _i), f_schar(f_ssub(_x, _i, _j), _k) == f_schar(_x, _i + _k)), f_schar(f_ssub(_x, _i, _j), _k)),
    "ssub_ssub": ax([_x, _i, _j, _k, _y], z3.Implies(z3.And(0 <= _i, _i <= _j, _j <= f_slen(_x), 0 <= _k, _y <= _j - _i, _k <= _y), f_ssub(f_ssub(_x, _i, _j), _k, _y) == f_ssub(_x, _i + _k, _i + _y)), f_ssub(f_ssub(_x, _i, _j), _k, _y)),
    "truthy0": z3.And(z3.Not(f_truthy(z3.IntVal(0))), z3.Not(f_truthy(NONE)), f_truthy(z3.IntVal(1))),
    "uni_nil": ax([_A], f_uni(_A, nil) == _A, f_uni(_A, nil)),
    "uni_len": ax([_A, _B], z3.And(f_len(f_uni(_A, _B)) >= f_len(_A), f_len(f_uni(_A, _B)) <= f_len(_A) + f_len(_B)), f_uni(_A, _B)),
    "uni_dist": ax([_A, _B], z3.Implies(f_dist(_A), f_dist(f_uni(_A, _B))), f_uni(_A, _B)),
    "uni_mem": ax([_A, _B, _x], f_mem(_x, f_uni(_A, _B)) == z3.Or(f_mem(_x, _A), f_mem(_x, _B)), f_mem(_x, f_uni(_A, _B))),
    "uni_mem2": ax([_A, _B, _x], z3.Implies(f_mem(_x, _B), f_mem(_x, f_uni(_A, _B))), (f_mem(_x, _B), f_uni(_A, _B))),
    "uni_mem3": ax([_A, _B, _x], z3.Implies(f_mem(_x, _A), f_mem(_x, f_uni(_A, _B))), (f_mem(_x, _A), f_uni(_A, _B))),
    "uni_at": ax([_A, _B, _i], z3.Implies(z3.And(0 <= _i, _i < f_len(_A)), f_at(f_uni(_A, _B), _i) == f_at(_A, _i)), f_at(f_uni(_A, _B), _i)),
    "uni_snoc": ax([_A, _B, _x], f_uni(_A, f_snoc(_B, _x)) == z3.If(f_mem(_x, f_uni(_A, _B)), f_uni(_A, _B), f_snoc(f_uni(_A, _B), _x)), f_uni(_A, f_snoc(_B, _x))),
    "uni_cat": ax([_A, _B, _L], f_uni(_A, f_cat(_B, _L)) == f_uni(f_uni(_A, _B), _L), f_uni(_A, f_cat(_B, _L))),
    "uni_disj": ax([_A, _B], z3.Or(f_uni(_A, _B) == f_cat(_A, _B), z3.Not(f_dist(_B)), z3.And(f_mem(f_usk(_A, _B), _A), f_mem(f_usk(_A, _B), _B))), f_uni(_A, _B)),
    "uni_absorb": ax([_A, _B], z3.Or(f_uni(_A, _B) == _A, z3.And(f_mem(f_usk2(_A, _B), _B), z3.Not(f_mem(f_usk2(_A, _B), _A)))), f_uni(_A, _B)),
    "uni_prefix": ax([_A, _B, _i], z3.Implies(z3.And(0 <= _i, _i <= f_len(_B)), f_uni(f_uni(_A, f_take(_B, _i)), _B) == f_uni(_A, _B)), f_uni(f_uni(_A, f_take(_B, _i)), _B)),
    "uni_self": ax([_B], z3.Implies(f_dist(_B), f_uni(nil, _B) == _B), f_uni(nil, _B)),
    "idx_first": ax([_L, _x, _j], z3.Implies(z3.And(f_mem(_x, _L), 0 <= _j, _j < f_idx(_x, _L)), f_at(_L, _j) != _x), (f_idx(_x, _L), f_at(_L, _j))),
    "veq_refl": ax([_x], f_veq(_x, _x), f_veq(_x, _x)),
    "veq_sym": ax([_x, _y], f_veq(_x, _y) == f_veq(_y, _x), f_veq(_x, _y)),
    "veq_trans": ax([_x, _y, _k], z3.Implies(z3.And(f_veq(_x, _y), f_veq(_y, _k)), f_veq(_x, _k)), (f_veq(_x, _y), f_veq(_y, _k))),
    "rng_dist": ax([_i, _j], f_dist(f_rng(_i, _j)), f_dist(f_rng(_i, _j))),
}


# places in lists without repeats; only for contracts that ask for them (e.axioms.update)
PLACE_AXIOMS = {
    "idx_take": ax([_L, _i, _x], z3.Implies(z3.And(f_dist(_L), f_mem(_x, _L), 0 <= _i, _i <= f_len(_L)), f_mem(_x, f_take(_L, _i)) == (f_idx(_x, _L) < _i)), f_mem(_x, f_take(_L, _i))),
    "dist_cat": ax([_A, _B], z3.Or(f_dist(f_cat(_A, _B)), z3.Not(f_dist(_A)), z3.Not(f_dist(_B)), z3.And(f_mem(f_usk(_A, _B), _A), f_mem(f_usk(_A, _B), _B))), f_cat(_A, _B)),
    "idx_at": ax([_L, _i], z3.Implies(z3.And(f_dist(_L), 0 <= _i, _i < f_len(_L)), f_idx(f_at(_L, _i), _L) == _i), (f_dist(_L), f_at(_L, _i))),
}
HEAVY = {"idx_first", "dist_at"}
HEAVY_COMP = {"pos", "order", "mem3"}


def free_consts(t, acc=None, seen=None):
    """0-ary uninterpreted constants of t in order of first occurrence (nil excluded)."""
    if acc is None:
        acc, seen = [], set()
    stack = [t]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(nil):
                    acc.append(e)
            else:
                stack.extend(reversed(e.children()))
    return acc


def decls_of(t, acc, seen):
    stack = [t]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
            for n in range(e.num_patterns()):
                stack.append(e.pattern(n))
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(e.decl().name())
            stack.extend(e.children())
    return acc


def mkite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def mkcat(a, b):
    if a.eq(nil):
        return b
    if b.eq(nil):
        return a
    if z3.is_app(b):
        n = b.decl().name()
        if n == "snoc":
            return f_snoc(mkcat(a, b.arg(0)), b.arg(1))
        if z3.is_app_of(b, z3.Z3_OP_ITE) and (b.arg(1).eq(nil) or b.arg(2).eq(nil)):
            return f_cat(a, b)
    return f_cat(a, b)


def tidy(t):
    """Simplify a list valued delta: drop cat with nil, merge nested conditionals."""
    t = z3.simplify(t)

    def go(e):
        if not z3.is_app(e) or e.num_args() == 0 or e.sort() != LST:
            return e
        n = e.decl().name()
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c, a, b = e.arg(0), go(e.arg(1)), go(e.arg(2))
            # If(c, If(d, v, nil), nil) -> If(c and d, v, nil)
            if b.eq(nil) and z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(2).eq(nil):
                return mkite(z3.simplify(z3.And(c, a.arg(0))), a.arg(1), nil)
            if b.eq(nil) and z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(1).eq(nil):
                return mkite(z3.simplify(z3.And(c, z3.Not(a.arg(0)))), a.arg(2), nil)
            # If(t != nil, t, nil) -> t
            for p, q, m in ((a, b, z3.simplify(z3.Not(c))), (b, a, z3.simplify(c))):
                if q.eq(nil) and z3.is_eq(m) and (m.arg(0).eq(nil) and m.arg(1).eq(p) or m.arg(1).eq(nil) and m.arg(0).eq(p)):
                    return p
            if a.eq(nil) and not b.eq(nil):
                return go(z3.If(z3.simplify(z3.Not(c)), b, nil))
            return mkite(c, a, b)
        if n == "cat":
            return mkcat(go(e.arg(0)), go(e.arg(1)))
        if n == "snoc":
            return f_snoc(go(e.arg(0)), e.arg(1))
        return e
    return canon(go(t))


def canon(t, memo=None):
    """Arguments of equalities, conjunctions and disjunctions in a fixed order, so that the same condition is the same term."""
    memo = {} if memo is None else memo
    r = memo.get(t.get_id())
    if r is not None:
        return r
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [canon(c, memo) for c in t.children()]
        if z3.is_and(t) or z3.is_or(t) or z3.is_eq(t):
            ch.sort(key=lambda c: (len(free_consts(c)) == 0, c.sexpr()))
        if any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = z3.And(ch) if z3.is_and(t) else z3.Or(ch) if z3.is_or(t) else t.decl()(*ch)
    memo[t.get_id()] = r
    memo[("keep", t.get_id())] = t
    return r


class Comps:
    """Comprehension symbols C_j(params, L) = concatenation of D_j(params, x) for x in L,
    and max/exists-like symbols are expressed by quantified facts instead."""

    def __init__(self):
        self.tab = {}
        self.byname = {}
        self.nfresh = 0
        self.list = []  # dict per symbol
        self.sorts = {}

    def make(self, x, delta, lst):
        """Term for the comprehension over `lst` of delta (an Lst term over const x)."""
        delta = tidy(delta)
        if delta.eq(nil):
            return nil
        if delta.eq(f_snoc(nil, x)):
            return lst
        # structural cases of the list
        if lst.eq(nil):
            return nil
        if z3.is_app(lst):
            nm = lst.decl().name()
            if nm == "snoc":
                a = self.make(x, delta, lst.arg(0))
                d = tidy(z3.substitute(delta, (x, lst.arg(1))))
                return mkcat(a, d)
            if nm == "cat":
                return mkcat(self.make(x, delta, lst.arg(0)), self.make(x, delta, lst.arg(1)))
            if z3.is_app_of(lst, z3.Z3_OP_ITE):
                return mkite(lst.arg(0), self.make(x, delta, lst.arg(1)), self.make(x, delta, lst.arg(2)))
            ent = self.byname.get(nm)
            if ent is not None:
                # comp(comp(L, D1), D2) = comp(L, x -> comp(D1(x), D2))
                self.nfresh += 1
                y = z3.Const("y!%d" % self.nfresh, I)
                d1 = z3.substitute(ent["body"], (z3.Const("$x", I), y), *[(q, a) for q, a in zip(ent["ps"], lst.children()[:-1])])
                return self.make(y, self.make(x, delta, d1), lst.children()[-1])
        cs = [c for c in free_consts(delta) if not c.eq(x)]
        ren = [(x, z3.Const("$x", I))] + [(c, z3.Const("$p%d_%s" % (n, c.sort()), c.sort())) for n, c in enumerate(cs)]
        key_t = z3.substitute(delta, *ren)
        key = key_t.sexpr()
        ent = self.tab.get(key)
        if ent is None:
            n = len(self.list)
            psorts = [c.sort() for c in cs]
            C = z3.Function("C%d" % n, *psorts, LST, LST)
            D = z3.Function("D%d" % n, *psorts, I, LST)
            S = z3.Function("Csrc%d" % n, *psorts, LST, I, I)
            ps = [z3.Const("$p%d_%s" % (m, c.sort()), c.sort()) for m, c in enumerate(cs)]
            ent = dict(n=n, C=C, D=D, S=S, ps=ps, body=key_t, psorts=psorts, key=key)
            self.tab[key] = ent
            self.byname["C%d" % n] = ent
            self.list.append(ent)
            ent["axioms"] = self._axioms(ent)
        return ent["C"](*cs, lst)

    def sort(self, a, b, lt, lst):
        """Symbol for `lst` sorted by the order lt(a, b)."""
        cs = [c for c in free_consts(lt) if not c.eq(a) and not c.eq(b)]
        A, Bc = z3.Const("$a", I), z3.Const("$b", I)
        ren = [(a, A), (b, Bc)] + [(c, z3.Const("$p%d_%s" % (n, c.sort()), c.sort())) for n, c in enumerate(cs)]
        key_t = z3.substitute(lt, *ren)
        key = key_t.sexpr()
        ent = self.sorts.get(key)
        if ent is None:
            n = len(self.sorts)
            S = z3.Function("S%d" % n, *[c.sort() for c in cs], LST, LST)
            ps = [z3.Const("$p%d_%s" % (m, c.sort()), c.sort()) for m, c in enumerate(cs)]
            t = S(*ps, _L)
            f = lambda p, q: z3.substitute(key_t, (A, p), (Bc, q))
            w = z3.Function("Sw%d" % n, *[c.sort() for c in cs], LST, I)(*ps, _L)
            axs = [ax(ps + [_L], z3.And(f_len(t) == f_len(_L), (t == nil) == (_L == nil), z3.Implies(f_dist(_L), f_dist(t))), t),
                   ax(ps + [_L, _x], f_mem(_x, t) == f_mem(_x, _L), f_mem(_x, t)),
                   ax(ps + [_L, _x], z3.Implies(f_mem(_x, _L), f_mem(_x, t)), (f_mem(_x, _L), t)),
                   ax(ps + [_L, _i, _j], z3.Implies(z3.And(0 <= _i, _i < _j, _j < f_len(_L)), z3.Not(f(f_at(t, _j), f_at(t, _i)))), (f_at(t, _i), f_at(t, _j))),
                   # already in order: unchanged
                   ax(ps + [_L], z3.Or(t == _L, z3.And(0 <= w, w + 1 < f_len(_L), f(f_at(_L, w + 1), f_at(_L, w)))), t),
                   # order of members by position
                   ax(ps + [_L, _x, _y], z3.Implies(z3.And(f_mem(_x, _L), f_mem(_y, _L), f(_x, _y)), f_idx(_x, t) < f_idx(_y, t)), (f_idx(_x, t), f_idx(_y, t)))]
            ent = dict(n=n, S=S, axioms=axs)
            self.sorts[key] = ent
        return ent["S"](*cs, lst)

    def _axioms(self, e):
        C, D, S, ps = e["C"], e["D"], e["S"], e["ps"]
        X = z3.Const("$x", I)
        out = {}
        out["def"] = ax(ps + [X], D(*ps, X) == e["body"], D(*ps, X))
        c = C(*ps, nil)
        out["nil"] = FA(ps, c == nil, patterns=[c]) if ps else (c == nil)
        t = C(*ps, f_snoc(_L, _x))
        out["snoc"] = ax(ps + [_L, _x], t == f_cat(C(*ps, _L), D(*ps, _x)), t)
        t = C(*ps, f_cat(_A, _B))
        out["cat"] = ax(ps + [_A, _B], t == f_cat(C(*ps, _A), C(*ps, _B)), t)
        t = C(*ps, _L)
        s = S(*ps, _L, _y)
        b = e["body"]
        filt = z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(1).eq(f_snoc(nil, X)) and b.arg(2).eq(nil)
        if filt:
            P = z3.substitute(b.arg(0), (X, _x))
            both = f_mem(_x, t) == z3.And(f_mem(_x, _L), P)
            out["fmem1"] = ax(ps + [_L, _x], both, f_mem(_x, t))
            out["fmem2"] = ax(ps + [_L, _x], both, (f_mem(_x, _L), t))
        else:
            out["mem1"] = ax(ps + [_L, _y], z3.Implies(f_mem(_y, t), z3.And(f_mem(s, _L), f_mem(_y, D(*ps, s)))), f_mem(_y, t))
            out["mem2"] = ax(ps + [_L, _x, _y], z3.Implies(z3.And(f_mem(_x, _L), f_mem(_y, D(*ps, _x))), f_mem(_y, t)), (f_mem(_x, _L), t, f_mem(_y, D(*ps, _x))))
            out["elem"] = ax(ps + [_L, _x], D(*ps, _x) == z3.substitute(b, (X, _x)), (f_mem(_x, _L), t))
        # singleton deltas: instantiate on members directly
        if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(2).eq(nil):
            c, d = b.arg(0), b.arg(1)
            conj = list(c.children()) if z3.is_and(c) else [c]
            for q in conj:
                if z3.is_eq(q) and (q.arg(0).eq(X) or q.arg(1).eq(X)):
                    p = q.arg(1) if q.arg(0).eq(X) else q.arg(0)
                    if p.eq(X) or any(v.eq(X) for v in free_consts(p)):
                        continue
                    dd = z3.substitute(d, (X, p))
                    rest = z3.And([z3.substitute(r, (X, p)) for r in conj if not r.eq(q)] or [z3.BoolVal(True)])
                    out["dist"] = ax(ps + [_L], z3.Implies(f_dist(_L), t == z3.If(z3.And(f_mem(p, _L), rest), dd, nil)), t)
                    break
        e_sk = z3.Function("ie%d" % e["n"], *e["psorts"], LST, I)(*ps, _L)
        out["empty"] = ax(ps + [_L], z3.Or(t == nil, z3.And(f_mem(e_sk, _L), D(*ps, e_sk) != nil)), t)
        if not z3.is_app_of(b, z3.Z3_OP_ITE) or b.arg(1).eq(f_snoc(nil, X)) and b.arg(2).eq(nil):
            i_sk = z3.Function("ii%d" % e["n"], *e["psorts"], LST, I)(*ps, _L)
            out["ident"] = ax(ps + [_L], z3.Or(t == _L, z3.And(f_mem(i_sk, _L), D(*ps, i_sk) != f_snoc(nil, i_sk))), t)
        if filt:
            # a filter: members, order and distinctness
            out["fdist"] = ax(ps + [_L], z3.Implies(f_dist(_L), f_dist(t)), t)
            P = z3.Function("pos%d" % e["n"], *e["psorts"], LST, I, I)
            pi, pj = P(*ps, _L, _i), P(*ps, _L, _j)
            out["pos"] = ax(ps + [_L, _i], z3.Implies(z3.And(0 <= _i, _i < f_len(t)), z3.And(0 <= pi, pi < f_len(_L), f_at(_L, pi) == f_at(t, _i))), f_at(t, _i))
            out["order"] = ax(ps + [_L, _i, _j], z3.Implies(z3.And(0 <= _i, _i < _j, _j < f_len(t)), pi < pj), (f_at(t, _i), f_at(t, _j)))
            out["flen"] = ax(ps + [_L], f_len(t) <= f_len(_L), t)
            c = b.arg(0)
            if z3.is_not(c) and z3.is_eq(c.arg(0)) and any(q.eq(X) for q in c.arg(0).children()):
                p = c.arg(0).arg(1) if c.arg(0).arg(0).eq(X) else c.arg(0).arg(0)
                if not any(v.eq(X) for v in free_consts(p)):
                    # everything but p, of a list without repetition
                    out["but"] = ax(ps + [_L], z3.Implies(f_dist(_L), t == z3.If(f_mem(p, _L), f_del(_L, f_idx(p, _L)), _L)), t)
        sh = None if filt else self._shape(b)
        if sh is not None:
            # one value for each element kept: the list of values follows the list of those elements
            comp = self.make(X, sh, _L)
            out["shape"] = ax(ps + [_L], f_len(t) == f_len(comp), f_len(t))
            out["values"] = ax(ps + [_L, _i], z3.Implies(z3.And(0 <= _i, _i < f_len(comp)), f_at(t, _i) == f_at(D(*ps, f_at(comp, _i)), 0)), f_at(t, _i))
        if not filt:
            out["mem3"] = ax(ps + [_L, _x], z3.Implies(z3.And(f_mem(_x, _L), D(*ps, _x) != nil), f_mem(f_at(D(*ps, _x), 0), t)), (f_mem(_x, _L), t))
        return out

    def _shape(self, b):
        """The filter keeping what b maps to one value; None when b is not of that form."""
        X = z3.Const("$x", I)
        if b.eq(nil):
            return b
        if z3.is_app(b) and b.decl().name() == "snoc" and b.arg(0).eq(nil):
            return f_snoc(nil, X)
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            p, q = self._shape(b.arg(1)), self._shape(b.arg(2))
            if p is None or q is None:
                return None
            return p if p.eq(q) else z3.If(b.arg(0), p, q)
        return None

    def congruence(self, a, b):
        pa = [z3.Const("pa%d" % i, s) for i, s in enumerate(a["psorts"])]
        pb = [z3.Const("pb%d" % i, s) for i, s in enumerate(b["psorts"])]
        sk = z3.Function("cg_%d_%d" % (a["n"], b["n"]), *a["psorts"], *b["psorts"], LST, I)(*pa, *pb, _L)
        ta, tb = a["C"](*pa, _L), b["C"](*pb, _L)
        body = z3.Or(ta == tb, z3.And(f_mem(sk, _L), a["D"](*pa, sk) != b["D"](*pb, sk)))
        return FA(pa + pb + [_L], body, patterns=[z3.MultiPattern(ta, tb)])

    def relevant(self, names, light=False):
        """Axioms of the comprehension symbols reachable from the given declaration names."""
        todo = [e for e in self.list if ("C%d" % e["n"]) in names or ("D%d" % e["n"]) in names]
        done = {}
        while todo:
            e = todo.pop()
            if e["n"] in done:
                continue
            done[e["n"]] = e
            sub = decls_of(e["body"], set(), set())
            if "shape" in e["axioms"]:
                decls_of(e["axioms"]["shape"], sub, set())
            todo += [f for f in self.list if f["n"] not in done and (("C%d" % f["n"]) in sub or ("D%d" % f["n"]) in sub)]
        es = [done[n] for n in sorted(done)]
        out = []
        for e in es:
            out += [f for n, f in e["axioms"].items() if not (light and n in HEAVY_COMP)]
        allnames = set(names)
        for e in es:
            decls_of(e["body"], allnames, set())
        for e in self.sorts.values():
            if "S%d" % e["n"] in allnames:
                out += e["axioms"]
        for i, a in enumerate(es if not light else []):
            for b in es[i:]:
                if a is b and not a["psorts"]:
                    continue
                out.append(self.congruence(a, b))
        return out


class Result:
    __slots__ = ("status", "why", "time", "by", "model")

    def __init__(self, status, why="", t=0.0, by="", model=None):
        self.status, self.why, self.time, self.by, self.model = status, why, t, by, model


def _solver(timeout_ms, seed=0, eager=None):
    s = z3.SolverFor("ALL") if False else z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    s.set("smt.qi.eager_threshold", EAGER if eager is None else eager)
    s.set("smt.random_seed", seed)
    return s


SEED = 0
EAGER = 2.0       # instantiate nearby terms first (z3's default, 10, wanders off)


def check(assertions, timeout_ms, want_model=False, seed=None, eager=None):
    t0 = time.time()
    s = _solver(timeout_ms, SEED if seed is None else seed, eager)
    for a in assertions:
        s.add(a)
    r = s.check()
    st = str(r)
    res = Result(st, s.reason_unknown() if st == "unknown" else "", time.time() - t0, "z3 " + z3.get_version_string())
    if want_model and st in ("sat", "unknown"):
        try:
            res.model = s.model()
        except z3.Z3Exception:
            pass
    return res


def cvc5_check(assertions, timeout_ms):
    """Second back end: the same query as SMT-LIB through cvc5."""
    t0 = time.time()
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout_ms), "-"], input=text, capture_output=True, text=True, timeout=timeout_ms / 1000.0 + 5)
        lines = p.stdout.strip().splitlines()
        st = lines[-1] if lines else "unknown"
        why = "" if st in ("sat", "unsat") else "cvc5: " + (p.stdout + p.stderr)[:200]
    except (OSError, subprocess.SubprocessError) as exc:
        st, why = "unknown", "cvc5: %s" % exc
    if st not in ("sat", "unsat"):
        st = "unknown"
    return Result(st, why, time.time() - t0, "cvc5")
