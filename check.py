#!/usr/bin/env python3-vt
"""check.py PID [quick|thorough]

Decides property PID on /repo's current tree: every contract obligation of the property is
generated from the current source and must be discharged.  Beside the proofs a bounded search
runs the real code against the property's oracle: it supplies failing inputs, and stands in
(labelled bounded) for the functions no contract reaches.
Exit 0: every obligation discharged, nothing found.  Exit 1: VIOLATION line."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("REBULK_REPO", "/repo")
PYBIN = "/opt/venv/bin/python"
PIDS = ["C%02d" % n for n in range(1, 21)]
REGEX_TOO = ("C07", "C09", "C08", "C14", "C20")


# ------------------------------------------------------------------ concrete search
def oracle_start(pid, seed, budget, regex=False):
    env = dict(os.environ, REBULK_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    env.pop("REBULK_REGEX_ENABLED", None)
    if regex:
        env["REBULK_REGEX_ENABLED"] = "1"
    p = subprocess.Popen([PYBIN, os.path.join(HERE, "oracle", "run.py"), pid, "--seed", str(seed), "--budget", str(budget)],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=HERE)
    p.regex = regex
    p.seed = seed
    p.t_end = time.time() + budget * 2 + 60
    return p


def oracle_end(p):
    try:
        out, err = p.communicate(timeout=max(1, p.t_end - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return dict(error="the concrete search did not come back in time", stderr=err[-2000:], timeout=True)
    try:
        r = json.loads(out)
    except ValueError:
        return dict(error="the concrete search ended abnormally", stderr=(err or out)[-2000:])
    r["regex"] = p.regex
    return r


# ------------------------------------------------------------------ proofs
def _work(arg):
    name, scale, seed, deadline = arg
    from contracts import base, run
    for t in run.load():
        if t.name == name:
            t.timeout = int(t.timeout * scale)
            t.budget = min(t.budget * scale, max(20, deadline - time.time()))
            from pyvc import terms
            terms.SEED = seed
            r = base.run_task(t, repo=REPO)
            return r
    raise KeyError(name)


def run_tasks(names, deadline, scale=1.0, seed=0, jobs=None):
    if not names:
        return []
    ctx = mp.get_context("spawn")
    with ctx.Pool(min(jobs or os.cpu_count() or 4, len(names)), maxtasksperchild=12) as pool:
        return pool.map(_work, [(n, scale, seed, deadline) for n in names], chunksize=1)


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 480 if tier == "quick" else 2400     # seconds for the proofs
    budget = 15 if tier == "quick" else 240
    searches = [oracle_start(pid, seed, budget)]
    if pid in REGEX_TOO:
        searches.append(oracle_start(pid, seed, budget, regex=True))
    if tier == "thorough":
        searches += [oracle_start(pid, seed * 1000 + k, budget) for k in range(1, 4)]

    from contracts import run as crun
    err = None
    tasks = [t for t in crun.load() if pid in t.pids and (tier == "thorough" or t.tier == "quick")]
    names = [t.name for t in tasks]
    results = {}
    pending = list(names)
    everything = {t.name: t for t in crun.load()}
    while pending:
        for r in run_tasks(pending, t0 + limit * 0.6, seed=seed if tier == "thorough" else 0):
            results[r["task"]] = r
        # the contracts relied on at call sites are part of the argument: their own proofs run as well
        used = {s for r in results.values() for s in r["stubs"]}
        pending = [n for n, t in everything.items() if n not in results and set(t.functions) & used]
        names += pending
    found = []
    reports = [oracle_end(p) for p in searches]
    for r in reports:
        if r.get("violation"):
            found.append(r)
    # an answer lost to the clock is asked for again, longer, before it counts (a failing input settles it as well)
    again = [n for n in names if results[n]["status"] != "ok"]
    if again and not found:
        for r in run_tasks(again, t0 + limit, scale=2.5, seed=seed + 1, jobs=4):
            r["retried"] = True
            if r["status"] == "ok" or results[r["task"]]["status"] != "ok":
                results[r["task"]] = r
    bad = [r for r in results.values() if r["status"] != "ok"]
    known = load_known(pid)
    if bad and not found:
        # look harder for an input that shows what the failed obligation says
        more = [oracle_start(pid, seed * 7919 + k, 60 if tier == "quick" else 240, regex=(pid in REGEX_TOO and k % 2 == 1)) for k in range(6)]
        for p in more:
            r = oracle_end(p)
            reports.append(r)
            if r.get("violation"):
                found.append(r)
    rc = verdict(pid, tier, seed, tasks, results, reports, found, bad, known, t0)
    sys.exit(rc)


def load_known(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def verdict(pid, tier, seed, tasks, results, reports, found, bad, known, t0):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    lines = []
    viol = 0
    obl = [(r["task"], o) for r in results.values() for o in r["obligations"]]
    discharged = sum(1 for r, o in obl if not o["failed"])
    if found:
        r = found[0]
        v = r["violation"]
        path = os.path.join(HERE, "evidence", "replay", "%s.json" % pid)
        json.dump(dict(property=pid, facet=v["facet"], case=v["case"], message=v["message"], regex=r.get("regex", False),
                       failed_obligations=failed_list(bad)), open(path, "w"), indent=1, default=str)
        viol += 1
        print("failing input (%s): %s" % (v["facet"], str(v["message"])[:600]))
        for f in failed_list(bad)[:8]:
            print("failed obligation: %s" % json.dumps(f)[:400])
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif bad:
        path = os.path.join(HERE, "evidence", "replay", "%s.json" % pid)
        json.dump(dict(property=pid, obligations=failed_list(bad), verifier=[dict(task=b["task"], status=b["status"], error=b["error"], failures=b["failures"][:5]) for b in bad]),
                  open(path, "w"), indent=1, default=str)
        viol += 1
        for f in failed_list(bad)[:8]:
            print("failed obligation: %s" % json.dumps(f)[:400])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    elif not obl:
        # nothing generated: the proof decided nothing
        print("no obligation was generated for %s" % pid)
        viol += 1
        path = os.path.join(HERE, "evidence", "replay", "%s.json" % pid)
        json.dump(dict(property=pid, obligations=["no obligation was generated"]), open(path, "w"))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    broken = [r for r in reports if "error" in r]
    if broken and not viol:
        # the real code crashed or hung the search process: report it with what it printed
        path = os.path.join(HERE, "evidence", "replay", "%s.json" % pid)
        json.dump(dict(property=pid, obligations=["bounded search: %s" % b["error"] for b in broken], stderr=[b.get("stderr") for b in broken]), open(path, "w"), indent=1)
        viol += 1
        print("bounded search: %s\n%s" % (broken[0]["error"], broken[0].get("stderr", "")[-800:]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    evidence(pid, tier, seed, tasks, results, reports, obl, discharged, viol, t0)
    n = len(results)
    print("%s: %d contracts, %d/%d obligations discharged, %d bounded cases, %.1f s" % (pid, n, discharged, len(obl), sum(r.get("cases", 0) for r in reports), time.time() - t0))
    for l in lines:
        print(l)
    return 1 if viol else 0


def failed_list(bad):
    out = []
    for b in bad:
        fo = [o for o in b["obligations"] if o["failed"]]
        for o in fo:
            out.append(dict(contract=b["task"], obligation=o["label"], why=o["why"]))
        if not fo:
            out.append(dict(contract=b["task"], obligation="whole contract", why=b["error"]))
    return out


def evidence(pid, tier, seed, tasks, results, reports, obl, discharged, viol, t0):
    from contracts import meta
    res = list(results.values())
    by = {}
    for _, o in obl:
        for b, c in o["by"].items():
            by[b] = by.get(b, 0) + c
    funcs = sorted({f for r in res for f in r["functions"]})
    assumptions = sorted({a for r in res for a in r["assumptions"]})
    stubs = sorted({s for r in res for s in r["stubs"]})
    proved = set(funcs)
    samples = []
    for r in reports:
        samples += [c for cs in (r.get("samples") or {}).values() for c in cs[:1]][:1]
    cov = dict(
        obligations=len(obl), discharged=discharged,
        checker_cmd="python3-vt check.py %s %s" % (pid, tier),
        trusted_base=meta.TRUSTED + ["assumed contract (dependency or not verified here): " + s for s in stubs if s not in proved],
        contracts=len(res),
        contracts_ok=sum(1 for r in res if r["status"] == "ok"),
        functions_under_contract=funcs,
        callee_contracts_used=[s for s in stubs if s in proved],
        obligation_checks=sum(o["checked"] for _, o in obl),
        discharged_by=by,
        solver_seconds=round(sum(r["stats"]["solver_s"] for r in res), 2),
        solver_queries=sum(r["stats"]["queries"] for r in res),
        paths=sum(r["stats"]["paths"] for r in res),
        loops={k: v for r in res for k, v in r["loops"].items()},
        vacuity_checks=sum(r["canary"] for r in res),
        undischarged=failed_list([r for r in res if r["status"] != "ok"]),
        obligation_labels=sorted({o["label"] for _, o in obl})[:400],
        bounded_standins=meta.BOUNDED.get(pid, []),
        bounded_search=dict(label="bounded, not proved", evaluations=sum(r.get("cases", 0) for r in reports), distinct=sum(r.get("distinct", 0) for r in reports),
                            facets=[r.get("facets") for r in reports], rule="random cases within the generators' size bounds, executed on the real code against the oracle", samples=samples[:3]),
    )
    json.dump(dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=assumptions + meta.ASSUME.get(pid, []), wall_s=round(time.time() - t0, 2), violations=viol),
              open(os.path.join(HERE, "evidence", "%s.json" % pid), "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
