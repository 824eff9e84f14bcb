"""Loops over symbolic iterables: closed-form summary (append-only bodies) or invariant."""
import z3
from . import terms as T
from .engine import Frame, PathEnd, PoisonUse, Unsupported
from .terms import I, B, LST, NONE, nil, f_len, f_at, f_mem, f_snoc, f_cat, f_take
from .values import (E, SInt, SBool, SVal, SFn, SymList, SymDict, SymSet, SymIter, Poison, IterBase, bterm, decode, encode, kind_of, lst_iter)

UNBOUND = object()


class NotFold(Exception):
    pass


class ModSet(BaseException):
    """Further modified state was discovered."""


def peel(t, h, kk=None):
    """t == h ++ result, syntactically; None when t is not an extension of h.
    kk: key constant; in a branch taken when some term equals kk, that term is replaced by kk."""
    if t.eq(h):
        return nil
    if kk is not None and z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        then = t.arg(1)
        for q in (c.children() if z3.is_and(c) else [c]):
            if z3.is_eq(q) and (q.arg(0).eq(kk) or q.arg(1).eq(kk)):
                o = q.arg(1) if q.arg(0).eq(kk) else q.arg(0)
                if not z3.is_int_value(o) or True:
                    then = subst_in_h(then, o, kk)
        a, b = peel(then, h, kk), peel(t.arg(2), h, kk)
        if a is None or b is None:
            return None
        return a if a.eq(b) else z3.If(c, a, b)
    if z3.is_app(t):
        n = t.decl().name()
        if n == "snoc":
            r = peel(t.arg(0), h, kk)
            return None if r is None else f_snoc(r, t.arg(1))
        if n == "cat":
            r = peel(t.arg(0), h, kk)
            if r is None:
                return None
            return t.arg(1) if r.eq(nil) else f_cat(r, t.arg(1))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = peel(t.arg(1), h), peel(t.arg(2), h)
            if a is None or b is None:
                return None
            return a if a.eq(b) else z3.If(t.arg(0), a, b)
    return None


def subst_in_h(t, o, kk):
    """Replace o by kk in the list arguments of t (not in the elements)."""
    if not z3.is_app(t) or t.num_args() == 0:
        return t
    n = t.decl().name()
    if n == "snoc":
        return f_snoc(subst_in_h(t.arg(0), o, kk), t.arg(1))
    if n == "cat":
        return f_cat(subst_in_h(t.arg(0), o, kk), t.arg(1))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(z3.substitute(t.arg(0), (o, kk)), subst_in_h(t.arg(1), o, kk), subst_in_h(t.arg(2), o, kk))
    if t.num_args() == 1 and t.arg(0).eq(o):
        return t.decl()(kk)
    return t


def mentions(t, consts):
    ids = {c.get_id() for c in consts}
    names = {c.decl().name() for c in consts}
    stack, seen = [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.get_id() in ids:
            return True
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() and e.decl().name() in names:
                return True
            stack.extend(e.children())
    return False


def has_ite(t):
    stack = [t]
    while stack:
        e = stack.pop()
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return True
        if z3.is_app(e):
            stack.extend(e.children())
    return False


class Uni:
    """A delta to be joined with uni instead of cat."""

    def __init__(self, t):
        self.t = t


def flatconj(cs):
    out = []
    for c in cs:
        if z3.is_and(c):
            out += flatconj(c.children())
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            out += flatconj([z3.Not(q) for q in c.arg(0).children()])
        elif z3.is_not(c) and z3.is_not(c.arg(0)):
            out += flatconj([c.arg(0).arg(0)])
        else:
            out.append(c)
    return out


def neg(c):
    return c.arg(0) if z3.is_not(c) else z3.Not(c)


def exclusive(a, b):
    na = [z3.simplify(c) for c in flatconj(a)]
    ids = {c.get_id() for c in na} | {z3.simplify(c).get_id() for c in a}
    fb = flatconj(b)
    if any(z3.simplify(z3.Not(c)).get_id() in ids for c in list(b) + fb):
        return True
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(*a, *b)
    return s.check() == z3.unsat


def uni_form(t, h, conds):
    """t, reached under conds, as uni(h, U): returns U and the conditions that do not speak of h."""
    hs = [c for c in flatconj(conds) if mentions(c, [h])]
    rest = [c for c in flatconj(conds) if not mentions(c, [h])]

    def memlit(c):
        return z3.is_app(c) and c.num_args() == 2 and c.decl().name() == "mem" and c.arg(1).eq(h)
    if not hs:
        t = z3.simplify(t) if not t.eq(h) else t
        return uni_term(t, h), rest
    if len(hs) != 1:
        return None, rest
    c = hs[0]
    if z3.is_not(c) and memlit(c.arg(0)):
        y = c.arg(0).arg(0)
        if z3.is_app(t) and t.decl().name() == "snoc" and t.arg(0).eq(h) and t.arg(1).eq(y):
            return f_snoc(nil, y), rest
        return None, rest
    if memlit(c):
        return (f_snoc(nil, c.arg(0)), rest) if t.eq(h) else (None, rest)
    parts = None
    if z3.is_not(c) and z3.is_and(c.arg(0)):
        parts = [neg(q) for q in c.arg(0).children()]
    elif z3.is_or(c):
        parts = list(c.children())
    if parts is not None and t.eq(h):
        ms = [q for q in parts if mentions(q, [h])]
        if len(ms) == 1 and memlit(ms[0]):
            others = [q for q in parts if not q.eq(ms[0])]
            return z3.If(z3.Or(others), nil, f_snoc(nil, ms[0].arg(0))), rest
    return None, rest


def uni_term(t, h):
    if t.eq(h):
        return nil
    if z3.is_app(t):
        n = t.decl().name()
        if n == "uni" and not mentions(t.arg(1), [h]):
            r = uni_term(t.arg(0), h)
            return None if r is None else t.arg(1) if r.eq(nil) else f_cat(r, t.arg(1))
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not mentions(t.arg(0), [h]):
            a, b = uni_term(t.arg(1), h), uni_term(t.arg(2), h)
            return None if a is None or b is None else z3.If(t.arg(0), a, b)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            for lit, yes, no in ((c, t.arg(1), t.arg(2)), (neg(c), t.arg(2), t.arg(1))):
                if z3.is_app(lit) and lit.num_args() == 2 and lit.decl().name() == "mem" and lit.arg(1).eq(h) and yes.eq(h):
                    if z3.is_app(no) and no.decl().name() == "snoc" and no.arg(0).eq(h) and no.arg(1).eq(lit.arg(0)):
                        return f_snoc(nil, lit.arg(0))
    return None


def lists_over(t, y):
    """List-valued applications in t that take y as an argument."""
    out, seen = [], set()
    stack = [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(y) for c in e.children()) and not has_ite(e):
            out.append(e)
        stack.extend(e.children())
    return out


class Loop:
    def __init__(self, lid, body, names):
        self.lid, self.body, self.names = lid, body, tuple(n.lstrip("+") for n in names)
        self.aug = {n[1:] for n in names if n[:1] == "+"}
        fv = body.__code__.co_freevars
        cl = body.__closure__ or ()
        self.cells = {n: c for n, c in zip(fv, cl) if n in self.names}
        self.allcells = {n: c for n, c in zip(fv, cl)}

    # ---- cells
    def cell_get(self, n):
        try:
            return self.cells[n].cell_contents
        except ValueError:
            return UNBOUND

    def cell_set(self, n, v):
        c = self.cells[n]
        if v is UNBOUND:
            try:
                del c.cell_contents
            except ValueError:
                pass
        else:
            c.cell_contents = v

    def save_cells(self):
        st = {n: self.cell_get(n) for n in self.cells}

        def restore():
            for n, v in st.items():
                self.cell_set(n, v)
        E().undo.append((None, restore))

    def kept(self, n):
        """The loop changes this variable only in place: it names the same object throughout."""
        v = self.cell_get(n)
        return n in self.aug and (isinstance(v, SymList) or getattr(type(v), "_vc_inplace", False))

    def poison(self, names):
        for n in names:
            if self.kept(n):
                continue
            self.cell_set(n, Poison((self.lid, n)))

    def key(self, n):
        return (self.lid, n)

    # ---- modified objects since a mark
    def modified(self, mark, born0):
        out = []
        for o, _ in E().undo[mark:]:
            if o is None:
                continue
            if isinstance(o, tuple):     # (object, attribute)
                if getattr(o[0], "_born", 0) <= born0 and not any(isinstance(p, tuple) and p[0] is o[0] and p[1] == o[1] for p in out):
                    out.append(o)
            elif getattr(o, "_born", 0) <= born0 and not any(p is o for p in out):
                out.append(o)
        return out


def arr_eq(a, b):
    """a == b for two heaps; written at one place of the same heap, only that place matters."""
    while z3.is_store(a) and z3.is_store(a.arg(0)) and a.arg(0).arg(1).eq(a.arg(1)):
        a = z3.Store(a.arg(0).arg(0), a.arg(1), a.arg(2))
    if z3.is_store(a) and z3.is_store(b) and a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
        return a.arg(2) == b.arg(2)
    if z3.is_store(b) and a.eq(b.arg(0)):
        return z3.Select(a, b.arg(1)) == b.arg(2)
    return a == b


class State:
    """What invariants see."""

    def __init__(self, loop, i=None):
        self.loop, self.i = loop, i
        s = getattr(loop, "s", None)
        self.s = s
        if s is not None and getattr(s, "enum", None) is not None:
            s = s.enum
        self.lst = getattr(s, "lst", None) if s is not None else None
        self.n = s.n if s is not None else None
        self.rng = getattr(s, "rng", None) if s is not None else None
        self.entry = loop.entry_view

    def v(self, name):
        """Current value of a local variable."""
        c = self.loop.allcells.get(name)
        if c is None and self.loop.acc is not None:
            return self.loop.acc
        if c is None:
            raise Unsupported("loop %s: no local %s for its invariant" % (self.loop.lid, name))
        try:
            v = c.cell_contents
        except ValueError:
            raise Unsupported("loop %s: local %s is unbound" % (self.loop.lid, name))
        if isinstance(v, Poison):
            raise PoisonUse(object.__getattribute__(v, "key"))
        return v

    def int(self, name):
        t = SInt.lift(self.v(name))
        if t is None:
            raise Unsupported("loop %s: local %s is not an int" % (self.loop.lid, name))
        return t

    def term(self, name):
        v = self.v(name)
        if isinstance(v, SymList):
            return v.term()
        raise Unsupported("loop %s: local %s is not a list" % (self.loop.lid, name))

    @property
    def done(self):
        return f_take(self.lst, self.i)


class InvLoop(Loop):
    carried_extra = ()
    acc = None          # a comprehension taken as a loop: the list it builds
    hint = None
    picked = False

    def live_body(self, v):
        """The body; a list changed while it is iterated is outside what the loop rules describe."""
        from .builtins_ import NEXT
        src = getattr(self, "s", None)
        while isinstance(src, SymIter):
            src = src.source
        if not isinstance(src, SymList):
            return self.body(v)
        t0 = src.term()
        r = self.body(v)
        if r is NEXT and not src.term().eq(t0):
            raise Unsupported("loop %s: the list is modified while it is iterated" % self.lid)
        return r

    def setup(self):
        e = E()
        if not self.picked:
            self.pick()
            if self.hint is None:
                self.hint = e.hints.get(self.lid)
        e.loops[self.lid] = "invariant" if self.hint else "none"
        self.types = dict(self.hint.get("types", {})) if self.hint else {}
        self.view()

    def view(self):
        """What the loop finds when it is reached."""
        e = E()
        self.entry = {n: self.cell_get(n) for n in self.cells}
        self.entry_view = dict(values=dict(self.entry), heap=dict(e.heap), alloc=e.alloc)
        for n, c in self.allcells.items():
            try:
                v = c.cell_contents
            except ValueError:
                continue
            if isinstance(v, SymList):
                self.entry_view.setdefault("terms", {})[n] = v.term()
        if self.hint and "entry" in self.hint:
            self.entry_view["extra"] = self.hint["entry"](State(self, z3.IntVal(0)))

    def fits(self, hint, holds=False):
        """The invariant speaks about this loop (and, if asked, holds when it is reached)."""
        e = E()
        self.hint = hint
        mark, heap, pc = len(e.undo), dict(e.heap), list(e.pc)
        try:
            self.view()
            fs = self.invs(z3.IntVal(0))
            for _, f in fs if holds else ():
                if not e.valid(f, timeout=1500 if holds is True else None)[0]:
                    return False
                e.assume(f)
            return True
        except Unsupported:
            return False
        except (TypeError, AttributeError, KeyError, z3.Z3Exception):
            return False
        finally:
            e.rollback(mark)
            e.heap, e.pc = heap, pc

    def pick(self, strict=False):
        """The invariant for this loop: the one given for it, or when that one is about other variables (loops were
        added, removed or moved), one of the others.  Whatever is picked is proved like any other."""
        e = E()
        self.picked = True
        own = e.hints.get(self.lid)
        for k in e.hints:
            if k.startswith(self.lid + "|") and self.fits(e.hints[k], e.hints[k].get("when", "surely")):      # given for this loop written in another way
                return
        if own is not None and self.fits(own):
            self.hint = own
            return
        if own is not None or strict:
            fn = self.lid.rsplit("#", 1)[0] + "#"
            for lid in sorted(e.hints, key=lambda q: not q.startswith(fn)):
                if e.hints[lid] is not own and not e.hints[lid].get("fold") and self.fits(e.hints[lid], True):
                    self.hint = e.hints[lid]
                    return
        self.hint = None

    def invs(self, i):
        if not self.hint:
            return []
        S = State(self, i)
        out = [(lab, o.term() == t) for lab, o, t in self.hint["defs"](S)] if "defs" in self.hint else []
        if "heapdefs" in self.hint:
            out += [(lab, arr_eq(E().field(f, t.sort()), t)) for lab, f, t in self.hint["heapdefs"](S)]
        return out + (list(self.hint["inv"](S)) if "inv" in self.hint else [])

    def define(self, i):
        """Lists the invariant gives in closed form take that form."""
        if self.hint and "defs" in self.hint:
            for lab, o, t in self.hint["defs"](State(self, i)):
                o.set_term(t, o._kind or (o.kind() if o.concrete else None))
        if self.hint and "heapdefs" in self.hint:
            e = E()
            new = [(f, t) for lab, f, t in self.hint["heapdefs"](State(self, i))]
            for f, t in new:
                e.field(f, t.sort())
                e.heap[f] = t

    def havoc_value(self, label, v):
        e = E()
        k = self.types.get(label)
        if callable(k):
            return k(v)
        if k is None:
            if isinstance(v, SymList):
                k = "list"
            else:
                k = kind_of(v)
        if k == "list":
            ek = self.types.get(label + "[]") or (v.kind() if isinstance(v, SymList) else None)
            l = SymList.of_term(e.fresh("hl_" + str(label).replace(".", "_"), LST), ek)
            return l
        if k in ("none", "pyobj", "pair", "dict", "set"):
            if k == "pair":
                return (SInt(e.freshint("hp")), SInt(e.freshint("hp")))
            raise Unsupported("loop %s: no kind known for carried variable %s (%s)" % (self.lid, label, k))
        code = e.freshint("h_" + str(label).replace(".", "_"))
        return decode(code, k)

    def havoc(self, carried, objs, fields, alloc):
        e = E()
        for n in carried:
            if self.kept(n):
                continue
            v = self.entry.get(n, UNBOUND)
            if v is UNBOUND and n not in self.types:
                self.cell_set(n, Poison(self.key(n)))
                continue
            if n in self.types and self.types[n] == "keep":
                continue
            self.cell_set(n, self.havoc_value(n, v))
        self.poison([n for n in self.cells if n not in carried])
        for o in objs:
            if isinstance(o, tuple):
                obj, attr = o
                old = obj.__dict__.get(attr)
                object.__setattr__(obj, attr, self.havoc_value("." + attr, old)) if False else self._set_attr(obj, attr, self.havoc_value("." + attr, old))
            elif isinstance(o, SymList):
                k = o._kind
                if k is None:
                    k = o.kind() if o.concrete else None
                if k is None:
                    k = self.listkinds.get(self._objlabel(o)) or self.types.get("[]")
                o.set_term(e.fresh("hL", LST), k)
                o._kind = k
            elif isinstance(o, SymDict):
                self._havoc_dict(o)
            elif isinstance(o, SymSet):
                self._havoc_set(o)
            elif isinstance(o, IterBase):
                o._set(SInt(e.freshint("hpos")))
            else:
                raise Unsupported("loop %s modifies a %s" % (self.lid, type(o).__name__))
        for f in fields:
            s = e.heap[f].sort() if f in e.heap else e.field_sorts.get(f, T.ARR)
            e.heap[f] = e.fresh("H_" + f, s)
        if alloc:
            a = e.freshint("alloc")
            e.assume(a >= self.entry_view["alloc"])
            e.alloc = a

    def _set_attr(self, obj, attr, v):
        d = obj.__dict__
        old = d.get(attr)
        E().record((obj, attr), lambda: d.__setitem__(attr, old))
        d[attr] = v

    def _objlabel(self, o):
        for n, c in self.allcells.items():
            try:
                if c.cell_contents is o:
                    return n
            except ValueError:
                pass
        return "?"

    def _havoc_dict(self, d):
        e = E()
        d._tobase()
        e.counter += 1
        H = z3.Function("Hhas.%d" % e.counter, I, B)
        C = z3.Function("Hcont.%d" % e.counter, I, LST)
        k = z3.Int("k!")
        e.assume(T.ax([k], z3.Implies(C(k) != nil, H(k)), C(k)))
        d._save()
        d._base = lambda k: (H(k), C(k))
        d._hc = C

    def _havoc_set(self, s):
        e = E()
        s._save()
        e.counter += 1
        S = z3.Function("Hset.%d" % e.counter, I, B)
        if s._kind is None and s._items:
            s._kind = kind_of(s._items[0])
        s._items = []
        s._fn = lambda c: S(c)

    # discovery of what one iteration may change
    def discover(self, step):
        e = E()
        carried, objs, fields, alloc = set(n for n in self.cells if self.key(n) in e.live), [], set(), False
        carried |= {n for n in self.cells if n in (self.hint or {}).get("carried", ())}
        self.listkinds = {}
        for _ in range(12):
            new = dict(c=set(), o=[], f=set(), a=False)

            def run():
                e.frame  # noqa: B018
                self.save_cells()
                self.havoc(carried, objs, fields, alloc)
                mark, born0, h0, a0 = len(e.undo), e.born, dict(e.heap), e.alloc
                born0 = self.born_entry
                try:
                    step()
                except PoisonUse as p:
                    if p.key[0] == self.lid and p.key[1] in self.cells and p.key[1] not in carried:
                        new["c"].add(p.key[1])
                        raise PathEnd()
                    raise
                finally:
                    for o in self.modified(mark, born0):
                        if not any((o is p) or (isinstance(o, tuple) and isinstance(p, tuple) and o[0] is p[0] and o[1] == p[1]) for p in objs + new["o"]):
                            new["o"].append(o)
                        if isinstance(o, SymList):
                            k = o.kind()
                            if k is not None:
                                self.listkinds[self._objlabel(o)] = k
                    for f in e.heap:
                        if f not in h0 or not e.heap[f].eq(h0[f]):
                            if f not in fields and e.field_born.get(f, 0) <= born0 and not (f not in h0 and z3.is_const(e.heap[f])):
                                new["f"].add(f)
                    if not (e.alloc is a0) and not (e.alloc is not None and a0 is not None and e.alloc.eq(a0)):
                        if not alloc:
                            new["a"] = True
                return None
            e.quiet += 1
            try:
                e.explore(run)
            finally:
                e.quiet -= 1
            if not (new["c"] or new["o"] or new["f"] or new["a"]):
                return carried, objs, fields, alloc
            carried |= new["c"]
            objs += new["o"]
            fields |= new["f"]
            alloc = alloc or new["a"]
        raise Unsupported("loop %s: modified state does not stabilise" % self.lid)


class ForLoop(InvLoop):
    def __init__(self, lid, s, body, names, tnames):
        super().__init__(lid, body, names)
        self.s, self.tnames = s, tnames

    def run(self):
        e = E()
        self.born_entry = e.born
        e.loops.setdefault(self.lid, "summary (closed form)")
        s = getattr(self.s, "enum", None) or self.s
        if s.lst is not None and has_ite(s.lst) and e.hints.get(self.lid) is not None and not e.hints[self.lid].get("fold"):
            # an invariant will need the list under a name
            from .values import SymIter
            c = e.fresh("src", LST)
            e.assume(c == s.lst)
            r = lst_iter(c, s.kind, s.distinct, s.source)
            if getattr(s, "rng", None) is not None:
                r.rng = s.rng
            if s is not self.s:
                from .builtins_ import EnumObj
                r = EnumObj(r, self.s.enum_start)._vc_iter()
            self.s = r
        if e.hints.get(self.lid) is not None:
            self.pick()
        if self.hint is None or self.hint.get("fold") or e.hints.get(self.lid) is None:
            try:
                mark, rec = len(e.undo), e.records()
                return self.fold()
            except NotFold as x:
                e.rollback(mark)
                e.forget(rec)
                self.why = str(x)
            if e.hints and not self.picked:
                self.pick(strict=True)
            if self.hint is None:
                self.hint = e.hints.get(self.lid)
        self.picked = True
        self.setup()
        return self.invariant()

    # ------------------------------------------------------------ closed form
    def fold(self):
        e = E()
        s = self.s
        src = s
        if getattr(s, "groupby", None) is not None:
            return self.fold_groupby()
        enum = getattr(s, "enum", None)
        if enum is not None:
            src = enum
        if src.lst is None:
            raise NotFold("iterable without list form")
        if any(self.key(n) in e.live for n in self.cells):
            raise NotFold("variable used after the loop")
        x = e.freshint("x")
        kk = e.freshint("kk")
        n0 = e.counter
        pc0 = list(e.pc)
        e.assume(f_mem(x, src.lst))
        for f in self.elem_facts(x):
            e.assume(f)
        try:
            mods, exits = self._deltas(lambda: (Poison((self.lid, "#index")), decode(x, src.kind)) if enum is not None else decode(x, src.kind), x, kk, n0)
        finally:
            e.pc = pc0
        if exits is None:
            return self._apply(mods, x, kk, src.lst)
        return self.search(mods, exits, x, kk, src, enum)

    def elem_facts(self, x):
        return []

    def search(self, mods, exits, x, kk, src, enum):
        """Some elements leave the loop: either none of the list does, or the first that does is reached
        after the others were handled."""
        from .builtins_ import NEXT, RET, Res
        e = E()
        lst = src.lst
        hit = e.comps.make(x, z3.If(exits, f_snoc(nil, x), nil), lst)
        rng = getattr(src, "rng", None)
        y = z3.Int("sq!")
        no = z3.Not(z3.substitute(exits, (x, y)))

        def none_between(lo, hi):
            """No integer of lo..hi-1 leaves the loop."""
            pats = [p for p in lists_over(no, y) if not has_ite(p)]
            body = z3.Implies(z3.And(lo <= y, y < hi), no)
            e.assume(z3.ForAll([y], body, patterns=pats[:4]) if pats else z3.ForAll([y], body))
        if not e.fork(z3.Not(hit == nil)):
            if rng is not None:
                a, b, st = rng
                none_between(*((a, b) if st == 1 else (b + 1, a + 1)))
            return self._apply(mods, x, kk, lst)
        w = f_at(hit, 0)
        e.assume(z3.And(f_mem(w, hit), f_mem(w, lst), z3.substitute(exits, (x, w))))
        i = T.f_idx(w, lst)
        if rng is not None:
            a, b, st = rng
            pre = T.f_rng(z3.simplify(a), w) if st == 1 else T.f_rev(T.f_rng(z3.simplify(w + 1), z3.simplify(a + 1)))
            e.assume(z3.And(i == (w - a if st == 1 else a - w), f_take(lst, i) == pre))
        else:
            pre = f_take(lst, i)
            e.assume(f_take(lst, i + 1) == f_snoc(pre, w))
        if not has_ite(pre):
            e.assume(T.ax([y], z3.Implies(f_mem(y, pre), no), f_mem(y, pre)))
        if rng is not None:
            # the same fact about integers, for the terms the condition itself is about
            none_between(*((a, w) if st == 1 else (w + 1, a + 1)))
        self._apply(mods, x, kk, pre)
        v = decode(w, src.kind)
        r = self.live_body((SInt(z3.simplify(SInt.lift(self.s.enum_start) + i)), v) if enum is not None else v)
        if r is NEXT:
            raise PathEnd("excluded")
        if isinstance(r, RET):
            return Res("return", r.v)
        return Res("break")

    def _apply(self, mods, x, kk, lst, elem=None):
        e = E()
        for o, delta, kind in mods:
            mode = "cat"
            if isinstance(delta, Uni):
                mode, delta = "uni", delta.t
            if isinstance(o, SymList):
                t0 = o.term()
                k0 = o._kind or (o.kind() if o.concrete and o._items else None)
                k = k0 or kind
                if k0 is not None and kind is not None and k0 != kind:
                    if {k0, kind} <= {"str", "optstr", "none"}:
                        k = "optstr"
                    else:
                        raise NotFold("list of mixed kinds")
                ct = e.comps.make(x, delta, lst)
                if mode == "uni":
                    o.set_term(t0 if ct.eq(nil) else T.f_uni(t0, ct), k)
                else:
                    o.set_term(ct if t0.eq(nil) else t0 if ct.eq(nil) else f_cat(t0, ct), k)
            else:
                o._tobase()
                old = o._base
                ct = e.comps.make(x, delta, lst)
                e.counter += 1
                hf = z3.Function("has.%d" % e.counter, I, B)
                memo = {}

                def base(k, old=old, ct=ct, hf=hf, memo=memo):
                    r = memo.get(k.get_id())
                    if r is None:
                        h0, c0 = old(k)
                        c = z3.substitute(ct, (kk, k))
                        c = c if c0.eq(nil) else f_cat(c0, c)
                        r = (z3.Or(h0, hf(k), z3.Not(c == nil)), c, k)
                        memo[k.get_id()] = r
                    return r[0], r[1]
                if o._elemkind is None:
                    o._elemkind = kind
                o._save()
                o._base = base
        self.poison(self.names)
        from .builtins_ import Res
        return Res("end")

    def _deltas(self, mkelem, x, kk, n0, exits_ok=True):
        """Explore the body once on an arbitrary element.
        Returns ([(object, delta term, element kind)], condition on the element to leave the loop or None)."""
        from .builtins_ import NEXT
        e = E()
        mods = []      # [obj, H]
        for _ in range(12):
            new = []

            def run():
                self.save_cells()
                self.poison(self.names)
                for o, h in mods:
                    if isinstance(o, SymList):
                        k = o._kind or (o.kind() if o.concrete else None)
                        o.set_term(h, k)
                        o._kind = k
                    else:
                        o._tobase()
                        o._save()
                        ek = o._elemkind
                        o._base = lambda k, h=h: (h[0](k), h[1](k))
                        o._elemkind = ek
                mark, h0 = len(e.undo), dict(e.heap)
                a0 = e.alloc
                try:
                    r = self.live_body(mkelem())
                except PoisonUse as p:
                    if p.key[0] == self.lid:
                        raise NotFold("carried variable %s" % p.key[1])
                    raise
                except NotFold:
                    raise
                except Exception as x:
                    if not getattr(x, "_program", False) and e._internal(x):
                        raise
                    return None      # the exception leaves the loop
                if r is not NEXT:
                    return None
                for o in self.modified(mark, self.born_entry):
                    if isinstance(o, tuple) or not isinstance(o, (SymList, SymDict)):
                        raise NotFold("modifies %s" % (o[1] if isinstance(o, tuple) else type(o).__name__))
                    if isinstance(o, SymList) and o._slot is not None:
                        continue     # a view on a dictionary entry or field: its owner is recorded as well
                    if not any(o is p[0] for p in mods) and not any(o is p for p in new):
                        new.append(o)
                for f in e.heap:
                    if f in h0 and not e.heap[f].eq(h0[f]):
                        raise NotFold("writes field %s" % f)
                if e.alloc is not a0 and not (a0 is not None and e.alloc.eq(a0)):
                    raise NotFold("allocates")
                out = []
                for o, h in mods:
                    if isinstance(o, SymList):
                        out.append((o.term(), o._kind or (o.kind() if o.concrete else None)))
                    else:
                        out.append(o._base(kk) + (o._elemkind,))
                return out
            res = e.explore(run)
            for suf, kind, v in res:
                if kind == "exc":
                    raise NotFold("may raise %r" % (v,))
            if not new:
                break
            for o in new:
                e.counter += 1
                if isinstance(o, SymList):
                    mods.append((o, z3.Const("Hl.%d" % e.counter, LST)))
                else:
                    if not o.symbolic and o._factory is None and o._keys:
                        raise NotFold("dictionary")
                    mods.append((o, (z3.Function("Hh.%d" % e.counter, I, B), z3.Function("Hc.%d" % e.counter, I, LST))))
        else:
            raise NotFold("unstable")
        allh = [hh for _, hh in mods if not isinstance(hh, tuple)]
        fun = [f for _, hh in mods if isinstance(hh, tuple) for f in hh]
        funnames = {f.name() for f in fun}

        def hdep(t):
            return mentions(t, allh) or bool(funnames and funnames & T.decls_of(t, set(), set()))

        def nofresh(t):
            for c in T.free_consts(t):
                n = c.decl().name()
                if c.eq(x) or c.eq(kk):
                    continue
                if "." in n and n.rsplit(".", 1)[1].isdigit() and int(n.rsplit(".", 1)[1]) > n0:
                    raise NotFold("depends on a fresh value")
        paths = [(e.forks_of(suf), v) for suf, _, v in res]
        for i, (ci, vi) in enumerate(paths):
            for cj, vj in paths[:i]:
                if not exclusive(ci, cj):
                    raise NotFold("paths are not told apart by their conditions: %s | %s" % (ci, cj))
        nxt = [(c, v) for c, v in paths if v is not None]
        ext = [c for c, v in paths if v is None]
        if not nxt:
            mods = []
            if not ext:
                # the body has no feasible path for any element: there is none
                return [], None
        exits = None
        if ext:
            if not exits_ok:
                raise NotFold("leaves the loop early")
            exits = z3.simplify(z3.Or([z3.And(c) if c else z3.BoolVal(True) for c in ext]))
            if hdep(exits):
                raise NotFold("leaves depending on what was collected")
            nofresh(exits)
        out = []
        for m, (o, h) in enumerate(mods):
            base = h if isinstance(o, SymList) else h[1](kk)
            delta, ekind, plain = None, None, True
            for conds, v in reversed(nxt):
                t = v[m][0] if isinstance(o, SymList) else v[m][1]
                ek = v[m][1] if isinstance(o, SymList) else v[m][2]
                ekind = ekind or ek
                kc = None if isinstance(o, SymList) else kk
                d = peel(t, base, kc)
                if d is None:
                    d = peel(z3.simplify(t), base, kc)
                if d is None:
                    plain = False
                    break
                c = z3.And(conds) if len(conds) != 1 else conds[0]
                delta = d if delta is None or not conds and delta.eq(d) else (delta if delta.eq(d) else z3.If(c, d, delta))
            if plain and not hdep(delta):
                nofresh(delta)
                out.append((o, delta, ekind))
                continue
            if not isinstance(o, SymList):
                raise NotFold("not append-only")
            delta = None
            for conds, v in reversed(nxt):
                u, rest = uni_form(v[m][0], h, conds)
                if u is None:
                    raise NotFold("not append-only")
                c = z3.And(rest) if len(rest) != 1 else rest[0]
                delta = u if delta is None else (delta if delta.eq(u) else z3.If(c, u, delta))
            if hdep(delta):
                raise NotFold("depends on what was collected before")
            nofresh(delta)
            out.append((o, Uni(delta), ekind))
        return out, exits

    def fold_groupby(self):
        """for key, run in groupby(src, key): a body that only appends; summary by runs.
        For a run R of elements of equal key k0 the body appends D(k0, R); if that equals the
        concatenation over R of d(x) = D(key(x), [x]), the loop appends the concatenation of d
        over the whole source."""
        e = E()
        src, keyf = self.s.groupby
        if any(self.key(n) in e.live for n in self.cells):
            raise NotFold("variable used after the loop")
        R = e.fresh("run", LST)
        x0 = f_at(R, 0)
        kk = e.freshint("kk")
        x = e.freshint("x")
        n0 = e.counter
        pc0 = list(e.pc)
        kv = encode(keyf(decode(x, src.kind)))     # key of an arbitrary element (must not fork)
        kkind = kind_of(keyf(decode(x, src.kind)))
        k0 = e.freshint("key")
        n0 = e.counter
        xq = z3.Int("gq!")
        e.assume(R != nil)
        e.assume(T.ax([xq], z3.Implies(f_mem(xq, R), z3.And(z3.substitute(kv, (x, xq)) == k0, f_mem(xq, src.lst))), f_mem(xq, R)))
        e.assume(f_mem(x0, R))
        try:
            mods, _ = self._deltas(lambda: (decode(k0, kkind), GroupRun(lst_iter(R, src.kind))), R, kk, n0, exits_ok=False)
            one = []
            for o, delta, kind in mods:
                if isinstance(delta, Uni):
                    raise NotFold("not a concatenation over the runs")
                d1 = z3.substitute(delta, (k0, kv), (R, f_snoc(nil, x)))
                d1 = simp_len(z3.simplify(d1))
                # justify: delta(k0,R) == comp over R of d1
                ct = e.comps.make(x, d1, R)
                ok, why = e.valid(delta == ct)
                if not ok:
                    raise NotFold("not a concatenation over the runs")
                one.append((o, d1, kind))
        finally:
            e.pc = pc0
        return self._apply(one, x, kk, src.lst)

    # ------------------------------------------------------------ invariant
    def invariant(self):
        from .builtins_ import NEXT, BREAK, RET, Res
        e = E()
        s = self.s
        i = e.freshint("i")
        n = s.n
        src = getattr(s, "enum", None) or s
        if src.lst is not None and has_ite(src.lst):
            raise Unsupported("loop over a conditional list")
        lst = src.lst

        def facts(i):
            e.assume(z3.And(0 <= i, i < n))
            if lst is not None:
                e.assume(f_take(lst, i + 1) == f_snoc(f_take(lst, i), f_at(lst, i)))
                e.assume(f_mem(f_at(lst, i), lst))

        def step():
            facts(i)
            self.define(i)
            for _, f in self.invs(i):
                e.assume(f)
            return self.live_body(s.elem(i))
        if self.hint is None:
            raise Unsupported("loop %s needs an invariant (%s)" % (self.lid, getattr(self, "why", "")))
        carried, objs, fields, alloc = self.discover(step)
        for lab, f in self.invs(z3.IntVal(0)):
            e.prove("%s: invariant on entry: %s" % (self.lid, lab), f)

        def iteration():
            """An arbitrary iteration; whether it goes on to the next."""
            self.save_cells()
            self.havoc(carried, objs, fields, alloc)
            facts(i)
            self.define(i)
            for _, f in self.invs(i):
                e.assume(f)
            if self.live_body(s.elem(i)) is not NEXT:
                return False
            for lab, f in self.invs(z3.simplify(i + 1)):
                e.prove("%s: invariant kept: %s" % (self.lid, lab), f)
            return True
        goes_on = all(kind == "ok" and v for _, kind, v in e.explore(iteration))
        self.havoc(carried, objs, fields, alloc)
        if not goes_on and e.choose(2) == 0:
            # an arbitrary iteration
            facts(i)
            self.define(i)
            for _, f in self.invs(i):
                e.assume(f)
            r = self.live_body(s.elem(i))
            if r is BREAK:
                if self.hint.get("onbreak"):
                    e.assume(z3.And([f for _, f in self.hint["onbreak"](State(self, i))]))
                return Res("break")
            if isinstance(r, RET):
                return Res("return", r.v)
            for lab, f in self.invs(z3.simplify(i + 1)):
                e.prove("%s: invariant kept: %s" % (self.lid, lab), f)
            raise PathEnd()
        self.define(n)
        for _, f in self.invs(n):
            e.assume(f)
        e.assume(n >= 0)
        if lst is not None:
            e.assume(f_take(lst, n) == lst)
        if not e.feasible(z3.BoolVal(True)):
            raise PathEnd()
        if getattr(s, "onend", None) is not None:
            s.onend()       # what the iterable does when asked for more than it has
        return Res("end")


class GroupRun:
    def __init__(self, it):
        self.it = it

    def _vc_iter(self):
        return self.it


def simp_len(t):
    t = z3.substitute(t, (f_cat(nil, nil), nil))
    # cat(nil, snoc(nil, x)) and len/at of singletons
    def go(e):
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        ch = [go(c) for c in e.children()]
        n = e.decl().name()
        if n == "cat" and ch[0].eq(nil):
            return ch[1]
        if n == "cat" and ch[1].eq(nil):
            return ch[0]
        if n == "cat" and z3.is_app(ch[1]) and ch[1].decl().name() == "snoc":
            return f_snoc(go(f_cat(ch[0], ch[1].arg(0))), ch[1].arg(1))
        if n == "at" and z3.is_app(ch[0]) and ch[0].decl().name() == "snoc" and ch[0].arg(0).eq(nil) and z3.is_int_value(ch[1]) and ch[1].as_long() == 0:
            return ch[0].arg(1)
        if n == "len" and z3.is_app(ch[0]) and ch[0].decl().name() == "snoc" and ch[0].arg(0).eq(nil):
            return z3.IntVal(1)
        return e.decl()(*ch) if not z3.is_app_of(e, z3.Z3_OP_ITE) else z3.If(*ch)
    return z3.simplify(go(t))


class WhileLoop(InvLoop):
    def __init__(self, lid, cond, body, names):
        super().__init__(lid, body, names)
        self.cond = cond
        self.s = None
        self.cfv = dict(zip(cond.__code__.co_freevars, cond.__closure__ or ()))
        fv = cond.__code__.co_freevars
        for n, c in zip(fv, cond.__closure__ or ()):
            self.allcells.setdefault(n, c)

    def run(self):
        from .builtins_ import NEXT, BREAK, RET, Res
        e = E()
        self.born_entry = e.born
        # a loop whose condition and effects stay concrete is simply executed
        if self.lid not in e.hints:
            for _ in range(e.unroll + 1):
                c = self.cond()
                if not (isinstance(c, (SBool, SInt, SVal)) or (isinstance(c, SymList) and not c.concrete)):
                    if not c:
                        return Res("end")
                    r = self.body()
                    if r is BREAK:
                        return Res("break")
                    if isinstance(r, RET):
                        return Res("return", r.v)
                    continue
                break
            try:
                mark, rec = len(e.undo), e.records()
                return self.counter()
            except NotFold as x:
                e.rollback(mark)
                e.forget(rec)
                if e.hints:
                    self.pick(strict=True)
                if self.hint is None:
                    raise Unsupported("loop %s needs an invariant (%s)" % (self.lid, x))
        self.setup()
        i = e.freshint("turns")       # how many turns the loop has made

        def step():
            e.assume(i >= 0)
            for _, f in self.invs(i):
                e.assume(f)
            if not self.cond():
                raise PathEnd()
            return self.body()
        carried, objs, fields, alloc = self.discover(step)
        for lab, f in self.invs(z3.IntVal(0)):
            e.prove("%s: invariant on entry: %s" % (self.lid, lab), f)
        self.havoc(carried, objs, fields, alloc)
        e.assume(i >= 0)
        for _, f in self.invs(i):
            e.assume(f)
        var = self.hint.get("variant")
        v0 = var(State(self)) if var else None
        if not self.cond():
            return Res("end")
        r = self.body()
        if r is BREAK:
            return Res("break")
        if isinstance(r, RET):
            return Res("return", r.v)
        for lab, f in self.invs(z3.simplify(i + 1)):
            e.prove("%s: invariant kept: %s" % (self.lid, lab), f)
        if var:
            e.prove("%s: terminates (measure decreases)" % self.lid, z3.And(v0 >= 0, var(State(self)) < v0))
        raise PathEnd()

    def counter(self):
        """A loop that counts one variable up or down to a fixed bound is a loop over a range."""
        from .builtins_ import NEXT, RangeObj
        e = E()
        if any(self.key(n) in e.live for n in self.cells if not isinstance(self.cell_get(n), (int, SInt))):
            raise NotFold("variable used after the loop")
        cands = {n: self.cell_get(n) for n in self.cells if isinstance(self.cell_get(n), (int, SInt)) and not isinstance(self.cell_get(n), bool)}
        fr = {n: e.freshint("cnt_" + n) for n in cands}
        seen = []

        def run():
            self.save_cells()
            for n, f in fr.items():
                self.cell_set(n, SInt(f))
            self.poison([n for n in self.cells if n not in fr])
            m = len(e.pc)
            if not self.cond():
                raise PathEnd()
            c = e.pc[m:]
            try:
                r = self.body()
            except PoisonUse as p:
                if p.key[0] == self.lid:
                    raise NotFold("carried variable %s" % p.key[1])
                raise
            except Exception as x:
                if not getattr(x, "_program", False) and e._internal(x):
                    raise
                return None
            if r is not NEXT:
                return None
            out = {}
            for n, f in fr.items():
                v = SInt.lift(self.cell_get(n)) if isinstance(self.cell_get(n), (int, SInt)) else None
                out[n] = None if v is None else z3.simplify(v - f)
            seen.append(c)
            return out
        res = [v for _, _, v in e.explore(run) if v is not None]
        if not res:
            raise NotFold("never continues")
        moving = {}
        for n in fr:
            ds = {(-9 if o[n] is None or not z3.is_int_value(o[n]) else o[n].as_long()) for o in res}
            if ds == {0}:
                continue
            moving[n] = ds
        if len(moving) != 1 or next(iter(moving.values())) not in ({1}, {-1}):
            raise NotFold("no single counter")
        n = next(iter(moving))
        step = next(iter(moving[n]))
        v = fr[n]
        cs = {z3.simplify(z3.And(c)).sexpr(): z3.simplify(z3.And(c)) for c in seen}
        if len(cs) != 1:
            raise NotFold("condition")
        c = next(iter(cs.values()))
        k = bound_of(c, v, step)
        if k is None or any(mentions(k, [f]) for m, f in fr.items() if m in moving):
            raise NotFold("condition is not a bound on the counter")
        k = z3.substitute(k, *[(f, SInt.lift(cands[m])) for m, f in fr.items() if m != n]) if len(fr) > 1 else k
        v0 = SInt.lift(cands[n])
        ro = RangeObj(z3.simplify(v0), z3.simplify(k + 1 if step == 1 else k - 1), step)
        fl = ForLoop(self.lid, ro._vc_iter(), self.body, self.names, ())
        fl.aug = self.aug
        cond, body, cell = self.cond, self.body, self.cells[n]

        def body2(x):
            fl.cell_set(n, x)
            for m in fr:
                if m != n:
                    fl.cell_set(m, cands[m])
            if not e.valid(bterm(cond()), second=False)[0]:
                raise NotFold("the bound changes in the loop")
            return body()
        fl.body = body2
        fl.born_entry = self.born_entry
        r = fl.fold()
        e.loops[self.lid] = "summary (closed form)"
        if r.kind == "end":
            last = z3.simplify(z3.If(k >= v0, k + 1, v0) if step == 1 else z3.If(k <= v0, k - 1, v0))
            fl.cell_set(n, SInt(last))
            for m in fr:
                if m != n:
                    fl.cell_set(m, cands[m])
        return r


def bound_of(c, v, step):
    """c as v <= k (step 1) or v >= k (step -1): k, or None."""
    flip = False
    while z3.is_not(c):
        c, flip = c.arg(0), not flip
    ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">"}
    if not z3.is_app(c) or c.decl().kind() not in ops:
        return None
    op = ops[c.decl().kind()]
    a, b = c.arg(0), c.arg(1)
    d = z3.simplify(a - b)            # d op 0
    w = z3.simplify(z3.substitute(d, (v, z3.IntVal(0))))
    co = z3.simplify(z3.substitute(d, (v, z3.IntVal(1))) - w)
    if mentions(w, [v]) or not z3.is_int_value(co) or abs(co.as_long()) != 1:
        return None
    if not z3.is_true(z3.simplify(d == co * v + w)):
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(d != co * v + w)
        if s.check() != z3.unsat:
            return None
    if flip:
        op = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[op]
    if co.as_long() == -1:
        op = {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}[op]
        w = -w
    # v op -w
    k = z3.simplify(-w)
    if step == 1:
        return {"<=": k, "<": z3.simplify(k - 1)}.get(op)
    return {">=": k, ">": z3.simplify(k + 1)}.get(op)
