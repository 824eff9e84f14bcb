"""Task framework: one task verifies one function (or one lemma) against its contract."""
import time
import traceback
import z3
from pyvc import builtins_ as pv
from pyvc import terms as T
from pyvc.engine import Engine, PathEnd, PoisonUse, Unsupported
from pyvc.loader import Loader, Managed, manage, mkref
from pyvc.terms import I, B, LST, NONE, nil, f_len, f_at, f_mem, f_snoc, f_cat, f_take, f_drop, f_dist, ax
from pyvc.values import (SInt, SBool, SVal, SFn, SymList, SymDict, SymSet, SymIter, Poison, bterm, decode, encode, iterate, lst_iter, prog, kind_of, stamp)

TASKS = []


class Task:
    def __init__(self, pids, name, fn, **kw):
        self.pids = pids if isinstance(pids, (list, tuple)) else [pids]
        self.name, self.fn = name, fn
        self.hints = kw.pop("hints", {})
        self.stubs = kw.pop("stubs", ())
        self.functions = kw.pop("functions", ())
        self.budget = kw.pop("budget", 240)
        self.timeout = kw.pop("timeout", 8000)
        self.cvc5 = kw.pop("cvc5", False)
        self.tier = kw.pop("tier", "quick")
        self.note = kw.pop("note", "")
        assert not kw, kw


def task(pids, name, **kw):
    def deco(fn):
        TASKS.append(Task(pids, name, fn, **kw))
        return fn
    return deco


class Ctx:
    """Loaded modules of the tree under verification."""

    def __init__(self, repo=None):
        self.loader = Loader(repo)

    def __getattr__(self, name):
        return self.loader.load(name)


def run_task(t, repo=None, log=None):
    """Run one task; returns a result dict."""
    t0 = time.time()
    live = set()
    err = None
    status = "ok"
    e = None
    for _ in range(30):
        Engine.cur = None
        e = Engine(t.name, timeout=t.timeout, budget=t.budget - (time.time() - t0), log=log)
        e.use_cvc5 = t.cvc5
        e.live = set(live)
        e.hints = dict(t.hints)
        err = None
        try:
            ctx = Ctx(repo)
            prep = t.fn(e, ctx)        # loads modules, installs stubs, returns the body to explore
            Engine.cur = e
            e.ctx = ctx
            res = e.explore(prep)
            ends = 0
            for suf, kind, v in res:
                if kind == "exc":
                    tb = traceback.extract_tb(v.__traceback__)
                    where = next(("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in reversed(tb) if "/rebulk/" in f.filename), "")
                    if log:
                        log("".join(traceback.format_exception(v)[-8:]))
                    e.fail("%s: no unexpected exception" % t.name, "%s: %s at %s" % (type(v).__name__, v, where))
                else:
                    ends += 1
            status = "ok"
        except PoisonUse as p:
            Engine.cur = None
            if p.key in live:
                err = "variable %s of loop %s is not tracked" % (p.key[1], p.key[0])
                status = "undecided"
                break
            live.add(p.key)
            continue
        except Unsupported as u:
            tb = traceback.extract_tb(u.__traceback__)
            where = next(("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in reversed(tb) if "/rebulk/" in f.filename), "")
            err = "outside the executor: %s (%s)" % (u, where)
            status = "undecided"
            if log:
                log("".join(traceback.format_exception(u)[-6:]))
        except PathEnd:
            err, status = "path end outside exploration", "undecided"
        except RecursionError:
            err, status = "recursion", "undecided"
        except Exception as x:
            err = "%s: %s" % (type(x).__name__, x)
            status = "undecided"
            if log:
                log(traceback.format_exc())
        break
    Engine.cur = None
    obs = list(e.obligations.values())
    if status == "ok":
        if not obs:
            status, err = "undecided", "no obligation was generated"
        elif e.reached == 0:
            status, err = "undecided", "no path reached the end of the contract (vacuous)"
        elif any(o["failed"] for o in obs):
            status = "failed"
    return dict(task=t.name, pids=t.pids, status=status, error=err, obligations=obs, failures=e.failures, stats=e.stats, wall=time.time() - t0,
                assumptions=sorted(e.assumptions), stubs=sorted(e.stubs_used), loops=e.loops, functions=list(t.functions), comps=len(e.comps.list),
                canary=e.reached)


def done(e, label="contract reachable"):
    """End of a path of a contract: checks that the path is not vacuous."""
    if e.reached >= 4:
        return
    r = e.query(e.pc, timeout=1500)
    if r.status != "unsat":
        e.reached += 1


def same_attributes(r, before):
    """No attribute of r is bound, rebound or removed."""
    return set(r.__dict__) == set(before) and all(r.__dict__[k] is before[k] for k in before)
