"""Symbolic execution core: path exploration, heap, loops cut by invariants or
summarised as comprehensions, obligations."""
import hashlib
import sys
import time
import z3
from . import terms as T
from .terms import I, LST, nil, f_len, f_at, f_mem, f_snoc, f_cat, f_take, f_rng


class PathEnd(BaseException):
    """This path needs no further exploration (verified or infeasible)."""


class Unsupported(BaseException):
    """The code left the subset the executor understands."""


class PoisonUse(BaseException):
    def __init__(self, key):
        super().__init__(key)
        self.key = key


class Frame:
    def __init__(self):
        self.dec = []   # list of [choice, n_alternatives_left list]
        self.pos = 0


class Engine:
    cur = None

    field_sorts = {}
    write_guard = None
    quiet = 0
    feas_ms = 600       # time to show that a branch is impossible

    def __init__(self, name, timeout=8000, budget=600, log=None):
        self.name = name
        self.timeout = timeout
        self.deadline = time.time() + budget
        self.pc = []
        self.facts = set()
        self.comps = T.Comps()
        self.axioms = dict(T.LIST_AXIOMS)
        self.field_born = {}        # heap fields that are the content of one object: when it was made
        self.extra_axioms = []      # contract specific background facts, (name, formula)
        self.frame = Frame()
        self.depth = 0
        self.counter = 0
        self.undo = []
        self.heap = {}
        self.obligations = {}       # label -> dict(status, n, ...)
        self.failures = []
        self.memo = {}
        self.declcache = {}
        self.keep = []
        self.live = set()
        self.hints = {}
        self.stats = dict(queries=0, solver_s=0.0, paths=0, cvc5=0)
        self.assumptions = set()
        self.stubs_used = set()
        self.loops = {}
        self.alloc = None
        self.frozen = {}
        self.reached = 0
        self.intern = {"": 0}
        self.internrev = {0: ""}
        self.log = log
        self.functions = set()
        self.opaque = {}
        self.objcodes = {}
        self.pure_depth = 0
        self.born = 0
        self.unroll = 40
        self.decoders = {}
        self.mem_eq = {}
        self.mem_code = {}
        self.same_code = {}
        self.list_remove = {}
        self.list_index = {}
        self.str_methods = {}
        self.dropped = {}
        self.congr = {}

    # ---------------------------------------------------------------- basics
    def fresh(self, base, sort=I):
        self.counter += 1
        return z3.Const("%s.%d" % (base, self.counter), sort)

    def freshint(self, base="v"):
        return self.fresh(base, I)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f) or any(p.eq(f) for p in self.pc):
            return
        self.facts.add(f.get_id())
        self.keep.append(f)
        self.pc.append(f)

    def background(self, forms, light=False):
        names = set()
        for f in forms:
            c = self.declcache.get(f.get_id())
            if c is None:
                c = (T.decls_of(f, set(), set()), f)
                self.declcache[f.get_id()] = c
            names |= c[0]
        ax = [f for n, f in self.axioms.items() if not (light and n in T.HEAVY)]
        return ax + [f for _, f in self.extra_axioms] + self.comps.relevant(names | set(self._extra_names()), light)

    def _extra_names(self):
        n = len(self.extra_axioms)
        if getattr(self, "_xn", (None, None))[0] != n:
            acc, seen = set(), set()
            for _, f in self.extra_axioms:
                T.decls_of(f, acc, seen)
            self._xn = (n, acc)
        return self._xn[1]

    def query(self, forms, timeout=None):
        """Is the conjunction of forms satisfiable (with the background)?"""
        key = (tuple(sorted({f.get_id() for f in forms})), len(self.extra_axioms))
        r = self.memo.get(key)
        if r is not None and not (r.status == "unknown" and timeout and timeout > r.model):
            return r
        if time.time() > self.deadline:
            raise Unsupported("time budget of the task exhausted")
        to = timeout or self.timeout
        bg = self.background(forms)
        # quantifier instantiation is sensitive to the random seed and to axioms about pairs of positions:
        # short tries (some without those axioms) before the long one
        res, spent = None, 0.0
        if to > 1500:
            lt = self.background(forms, light=True)
            tries = [(lt, T.SEED, 0.2, 2.0), (bg, T.SEED + 11, 0.15, 3.0), (lt, T.SEED + 23, 0.3, 5.0), (bg, T.SEED + 31, 0.3, 10.0), (bg, T.SEED + 37, 1.0, 2.0)]
        else:
            tries = [(bg, T.SEED, 1.0, 2.0)]
        skip = None
        for axs, seed, part, eager in tries:
            if axs is skip:
                continue
            r1 = T.check(axs + list(forms), to * part, seed=seed, eager=eager)
            spent += r1.time
            res = r1
            if res.status == "unsat" or axs is bg and (res.status != "unknown" or "incomplete" in res.why):
                break
            if "incomplete" in res.why or res.status == "sat":
                skip = axs
        res.time = spent
        self.stats["queries"] += 1
        self.stats["solver_s"] += res.time
        res.model = to
        if self.log and res.time > 1.0:
            self.log("  slow query %.1fs %s" % (res.time, res.status))
        self.keep.append(list(forms))
        self.memo[key] = res
        return res

    def feasible(self, cond):
        r = self.query(self.pc + [cond], timeout=min(self.timeout, self.feas_ms // 2 if self.quiet else self.feas_ms))
        return r.status != "unsat"

    def valid(self, goal, timeout=None, second=True):
        """True iff pc implies goal (proved)."""
        goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, "simplifier"
        ext = self._ext_lemmas(goal)
        forms = self.pc + ext + [z3.Not(goal)]
        r = self.query(forms, timeout)
        if r.status == "unsat":
            return True, r.by
        if second and getattr(self, "use_cvc5", False):
            bg = self.background(forms)
            r2 = T.cvc5_check(bg + forms, timeout or self.timeout)
            self.stats["cvc5"] += 1
            self.stats["solver_s"] += r2.time
            if r2.status == "unsat":
                return True, "cvc5"
        return False, "%s (%s)" % (r.status, r.why)

    def _ext_lemmas(self, goal):
        out, seen = [], set()
        stack = [goal]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                continue
            if z3.is_eq(e) and e.arg(0).sort() == LST:
                a, b = e.arg(0), e.arg(1)
                k = T.f_ext(a, b)
                out.append(z3.Or(a == b, f_len(a) != f_len(b), z3.And(0 <= k, k < f_len(a), f_at(a, k) != f_at(b, k))))
                self._comp_lemmas(a, b, out, 0)
            if z3.is_app(e):
                stack.extend(e.children())
        return out

    def _comps_in(self, t):
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.num_args() and x.decl().name() in self.comps.byname:
                out.append(x)
            stack.extend(x.children())
        return out

    def _comp_lemmas(self, a, b, out, depth):
        """Two comprehensions over one list are equal when they agree on each of its elements."""
        us, vs = self._comps_in(a), self._comps_in(b)
        n = 0
        pairs = [(u, v) for u in us for v in vs if not u.eq(v)]
        pairs.sort(key=lambda p: not p[0].children()[-1].eq(p[1].children()[-1]))
        for u, v in pairs:
                same = u.children()[-1].eq(v.children()[-1])
                if n >= 6 or not same and (u.decl().eq(v.decl()) or not z3.is_const(u.children()[-1]) or not z3.is_const(v.children()[-1])):
                    continue
                n += 1
                eu, ev = self.comps.byname[u.decl().name()], self.comps.byname[v.decl().name()]
                L = u.children()[-1]
                key = (u.get_id(), v.get_id())
                w = self.congr.get(key)
                if w is None:
                    w = self.congr[key] = (z3.Int("cw!%d" % len(self.congr)), u, v)
                w = w[0]
                inst = lambda e, t: z3.substitute(e["body"], (z3.Const("$x", I), w), *list(zip(e["ps"], t.children()[:-1])))
                p, q = inst(eu, u), inst(ev, v)
                out.append(z3.Or(u == v, z3.And(f_mem(w, L), p != q)) if same else z3.Or(u == v, L != v.children()[-1], z3.And(f_mem(w, L), p != q)))
                if depth < 3:
                    self._comp_lemmas(p, q, out, depth + 1)

    # ---------------------------------------------------------------- obligations
    def prove(self, label, goal, assume=True, timeout=None):
        goal = z3.BoolVal(goal) if isinstance(goal, bool) else goal
        if self.quiet:
            # only looking for what a loop modifies: proved when the iteration itself is examined
            if assume:
                self.assume(goal)
            return True
        ok, by = self.valid(goal, timeout)
        o = self.obligations.setdefault(label, dict(label=label, checked=0, failed=0, by={}, why=""))
        o["checked"] += 1
        if ok:
            o["by"][by] = o["by"].get(by, 0) + 1
        else:
            o["failed"] += 1
            o["why"] = by
            if len(self.failures) < 20:
                self.failures.append(dict(label=label, why=by, goal=str(z3.simplify(goal))[:2000], pc=[str(z3.simplify(f))[:400] for f in self.pc[-25:]]))
        if assume:
            self.assume(goal)
        return ok

    def records(self):
        return {k: dict(o, by=dict(o["by"])) for k, o in self.obligations.items()}, list(self.failures)

    def forget(self, records):
        """Drop the obligations met in an attempt that was given up: the code is examined in another way."""
        self.obligations, self.failures = records

    def hint(self, goal, timeout=None):
        """A lemma that helps: assumed only when it is proved here."""
        ok, _ = self.valid(goal, timeout)
        if ok:
            self.assume(goal)
        return ok

    def fail(self, label, why):
        o = self.obligations.setdefault(label, dict(label=label, checked=0, failed=0, by={}, why=""))
        o["checked"] += 1
        o["failed"] += 1
        o["why"] = why
        if len(self.failures) < 20:
            self.failures.append(dict(label=label, why=why, goal="", pc=[str(z3.simplify(f))[:400] for f in self.pc[-25:]]))

    # ---------------------------------------------------------------- forks
    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        fr = self.frame
        if fr.pos < len(fr.dec):
            v = fr.dec[fr.pos][0]
            fr.pos += 1
            self.pc.append(cond if v else z3.Not(cond))
            return v
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise PathEnd("infeasible")
        if t and f:
            fr.dec.append([True, [False]])
            v = True
        else:
            v = t
            fr.dec.append([v, []])
        fr.pos += 1
        self.pc.append(cond if v else z3.Not(cond))
        return v

    def forks_of(self, suffix):
        return [f for f in suffix if f.get_id() not in self.facts]

    def choose(self, n):
        """Nondeterministic choice among n alternatives (no condition)."""
        fr = self.frame
        if fr.pos < len(fr.dec):
            v = fr.dec[fr.pos][0]
        else:
            v = 0
            fr.dec.append([0, list(range(1, n))])
        fr.pos += 1
        return v

    def explore(self, thunk, maxpaths=4000):
        """Run thunk on every feasible path.  Restores all engine-visible state after each.
        Returns [(extra pc, outcome kind, value, final state)]."""
        outer = self.frame
        pc0 = list(self.pc)
        counter0 = self.counter
        heap0 = dict(self.heap)
        alloc0 = self.alloc
        mark = len(self.undo)
        results = []
        prefix = []
        n = 0
        maxc = counter0
        while True:
            n += 1
            if n > maxpaths:
                raise Unsupported("too many paths")
            self.frame = Frame()
            self.frame.dec = prefix
            self.pc = list(pc0)
            self.counter = counter0
            self.heap = dict(heap0)
            self.alloc = alloc0
            self.depth += 1
            self.born += 0
            try:
                try:
                    v = thunk()
                    results.append((self.pc[len(pc0):], "ok", v))
                except PathEnd:
                    pass
                except RecursionError:
                    raise Unsupported("recursion")
                except Exception as exc:
                    if isinstance(exc, (TypeError, AttributeError, NameError, NotImplementedError, z3.Z3Exception)) and self._internal(exc):
                        raise Unsupported("executor: %s: %s" % (type(exc).__name__, exc)) from exc
                    results.append((self.pc[len(pc0):], "exc", exc))
            finally:
                self.depth -= 1
                self.rollback(mark)
                fr = self.frame
                self.frame = outer
                self.pc = list(pc0)
                self.heap = dict(heap0)
                self.alloc = alloc0
            self.stats["paths"] += 1
            maxc = max(maxc, self.counter)
            dec = fr.dec[:fr.pos] if fr.pos < len(fr.dec) else fr.dec
            while dec and not dec[-1][1]:
                dec.pop()
            if not dec:
                break
            last = dec[-1]
            nxt = last[1].pop(0)
            prefix = dec[:-1] + [[nxt, last[1]]]
            # keep alternatives mutable for earlier decisions
        self.counter = maxc
        return results

    def _internal(self, exc):
        """Exception raised from within the verifier (or about one of its proxies), not by the program."""
        tb = exc.__traceback__
        last = None
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        if isinstance(exc, (NotImplementedError, z3.Z3Exception)):
            return True
        msg = str(exc)
        if any(p in msg for p in ("SInt", "SBool", "SVal", "SFn", "SymList", "SymDict", "SymSet", "SymIter", "Poison")):
            return True
        return bool(last) and "/pyvc/" in last and not getattr(exc, "_program", False)

    def rollback(self, mark):
        while len(self.undo) > mark:
            self.undo.pop()[1]()

    def record(self, obj, restore):
        """obj is about to be modified; restore undoes it."""
        self.undo.append((obj, restore))

    def comp_source(self, L):
        """L as a comprehension: (entry, parameters, source list) or None."""
        if not z3.is_app(L):
            return None
        ent = self.comps.byname.get(L.decl().name())
        if ent is None:
            return None
        ch = L.children()
        return ent, ch[:-1], ch[-1]

    # ---------------------------------------------------------------- heap fields
    def field(self, name, sort=T.ARR):
        if name not in self.heap:
            self.field_sorts[name] = sort
            self.heap[name] = z3.Const("F_" + name, sort)
            self.heap_init = getattr(self, "heap_init", {})
        return self.heap[name]

    def freeze(self, names):
        """From here on these fields only change on objects made later (an obligation at every write)."""
        self.frozen_below = self.alloc
        self.frozen = {n: self.field(n) for n in names}

    def unfreeze(self):
        self.frozen = {}

    def read(self, name, ref):
        h = self.field(name)
        f = self.frozen.get(name)
        if f is None and z3.is_store(h) and h.arg(1).eq(ref):
            return h.arg(2)
        if f is not None and not f.eq(h):
            return z3.If(ref < self.frozen_below, z3.Select(f, ref), z3.Select(h, ref))
        return z3.Select(h, ref)

    def write(self, name, ref, val):
        self.field(name)
        if self.write_guard is not None:
            self.write_guard(name, ref)
        if name in self.frozen:
            self.prove("only matches made by the call have their %s modified" % name, ref >= self.frozen_below)
        self.heap[name] = z3.Store(self.heap[name], ref, val)

    def code_of_str(self, s):
        if s not in self.intern:
            n = len(self.intern)
            self.intern[s] = n
            self.internrev[n] = s
            fs = [T.f_slen(z3.IntVal(n)) == len(s), T.f_truthy(z3.IntVal(n))]
            self.extra_axioms.append(("lit", z3.And(*fs)))
            if len(s) > 1 and len(s) < 12:
                for i, c in enumerate(s):
                    cc = self.code_of_str(c)
                    self.extra_axioms.append(("lit", T.f_schar(z3.IntVal(n), i) == cc))
            elif len(s) == 1:
                self.extra_axioms.append(("lit", T.f_schar(z3.IntVal(n), 0) == n))
        return z3.IntVal(self.intern[s])
