"""Bounded monitor and counterexample search on the real code.

Every property has facets (name, gen, check).  gen(rng) makes a JSON-able case, check(case)
returns None or a description of the violation.  Cases are a function of the seed only."""
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
sys.pycache_prefix = tempfile.gettempdir() + "/no-such-pycache-%d" % os.getpid()
REPO = os.environ.get("REBULK_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

FACETS = {}


def facet(pid, name, weight=1):
    def deco(cls):
        FACETS.setdefault(pid, []).append((name, cls.gen, cls.check, weight))
        return cls
    return deco


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def guarded(check, case, limit=20):
    """check(case) with crashes and non-termination turned into violations."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return check(case)
    except Timeout:
        return "does not terminate (limit %d s)" % limit
    except RecursionError:
        return "RecursionError"
    except MemoryError:
        return "MemoryError"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/rebulk/" in f.filename]
        w = "%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return "unexpected %s: %s (at %s)" % (type(e).__name__, str(e)[:200], w)
    finally:
        signal.alarm(0)


def shrinks(v):
    """Simpler variants of a JSON value."""
    if isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i, x in enumerate(v):
            for y in shrinks(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            for y in shrinks(v[k]):
                d = dict(v)
                d[k] = y
                yield d
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if v > 0:
            yield v - 1
    elif isinstance(v, str):
        for i in range(len(v)):
            if len(v) > 1:
                yield v[:i] + v[i + 1:]


def shrink(check, case, msg, budget=8.0):
    """Smaller cases that still violate.  Cases are records (dicts) of sequences, so dropping
    list elements keeps them well formed; an error outside rebulk means a malformed case."""
    t0 = time.time()
    again = True
    while again and time.time() - t0 < budget:
        again = False
        for c in shrinks(case):
            if time.time() - t0 > budget:
                break
            m = guarded(check, c, 3)
            if m and "(at p_" not in m and "terminate" not in m and m.startswith("unexpected") == msg.startswith("unexpected"):
                case, msg, again = c, m, True
                break
    return case, msg


def search(pid, seed, budget, maxcases, only=None):
    t0 = time.time()
    out = dict(cases=0, distinct=set(), facets={}, violation=None)
    fs = [f for f in FACETS.get(pid, []) if only is None or f[0] == only]
    seq = [f for f in fs for _ in range(f[3])]
    rngs = {f[0]: random.Random("%s/%s/%s" % (pid, f[0], seed)) for f in fs}
    samples = {}
    while out["cases"] < maxcases and time.time() - t0 < budget:
        for name, gen, check, _ in seq:
            case = gen(rngs[name])
            out["cases"] += 1
            out["facets"][name] = out["facets"].get(name, 0) + 1
            key = hash(json.dumps(case, sort_keys=True))
            out["distinct"].add(key)
            if len(samples.setdefault(name, [])) < 2:
                samples[name].append(case)
            msg = guarded(check, case)
            if msg:
                small, smsg = shrink(check, case, msg) if "terminate" not in msg else (case, msg)
                out["violation"] = dict(facet=name, case=small, message=smsg)
                break
        if out["violation"] or not seq:
            break
    out["distinct"] = len(out["distinct"])
    out["samples"] = samples
    out["wall_s"] = round(time.time() - t0, 2)
    return out


# ------------------------------------------------------------------ helpers on real objects
def ids(ms):
    return [id(m) for m in ms]


def same(a, b):
    return isinstance(a, (list, tuple)) and len(a) == len(b) and all(x is y for x, y in zip(a, b))


def show(ms):
    try:
        return "[" + ", ".join("%s%s" % (m.name or "", m.span) for m in ms) + "]"
    except Exception:
        return repr(ms)[:200]


def snap(m):
    """Everything observable of a match, recursively."""
    return (m.start, m.end, m.raw_start, m.raw_end, m.name, tuple(m.tags), m.value if not callable(m.value) else id(m.value), m.raw, bool(m.marker),
            bool(m.private), id(m.formatter) if m.formatter else None, m.match_index, m.span if m.parent is None else (m.span, m.parent.span, m.parent.name),
            tuple(snap(c) for c in m.children))
