"""python3-vt -m contracts.run [PID] [name substring]  - run tasks and print their outcome."""
import importlib
import sys
sys.path.insert(0, "/verif")
from contracts import base

MODULES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19"]


def load(mods=None):
    for m in mods or MODULES:
        importlib.import_module("contracts." + m)
    return base.TASKS


if __name__ == "__main__":
    pid = sys.argv[1] if len(sys.argv) > 1 else ""
    sub = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else ""
    for t in load():
        if (pid and pid != "all" and pid not in t.pids) or sub not in t.name:
            continue
        r = base.run_task(t, log=print if "-v" in sys.argv else None)
        print("%-50s %-9s %5.1fs obl=%d paths=%d q=%d %s" % (r["task"], r["status"], r["wall"], len(r["obligations"]), r["stats"]["paths"], r["stats"]["queries"], r["error"] or ""))
        for o in r["obligations"]:
            if o["failed"] or "-o" in sys.argv:
                print("     ", o["label"], o["checked"], "failed" if o["failed"] else "ok", o["why"], o["by"])
        if "-f" in sys.argv:
            for f in r["failures"][:3]:
                print(f["label"], "\n   GOAL", f["goal"], "\n   PC", "\n      ".join(f["pc"]))
