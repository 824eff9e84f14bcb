"""python3-vt tools/par.py PID [substr]: run tasks in parallel, show failures."""
import sys
sys.path.insert(0, "/verif")
from concurrent.futures import ProcessPoolExecutor
from contracts import run, base


def one(n):
    run.load()
    t = [t for t in base.TASKS if t.name == n][0]
    return base.run_task(t)


if __name__ == "__main__":
    run.load()
    pid = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    names = [t.name for t in base.TASKS if (pid == "all" or pid in t.pids) and sub in t.name]
    assert len(set(names)) == len(names), "duplicate task names"
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(one, names):
            bad += r["status"] != "ok"
            print("%-60s %-9s %5.1fs obl=%d q=%d %s" % (r["task"], r["status"], r["wall"], len(r["obligations"]), r["stats"]["queries"], r["error"] or ""))
            for o in r["obligations"]:
                if o["failed"]:
                    print("      ", o["label"], "|", o["why"], "| %d of %d" % (o["failed"], o["checked"]))
    print("%d tasks, %d not ok" % (len(names), bad))
