"""python oracle/run.py PID [--seed N] [--budget S] [--cases N] [--facet F]  -> JSON on stdout
python oracle/run.py --replay FILE                                        -> exit 1 when the violation shows"""
import argparse
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base  # noqa: E402


def load(regex):
    import p_matches, p_patterns, p_rules, p_config  # noqa: F401


ap = argparse.ArgumentParser()
ap.add_argument("pid", nargs="?")
ap.add_argument("--seed", default="1")
ap.add_argument("--budget", type=float, default=20)
ap.add_argument("--cases", type=int, default=10 ** 9)
ap.add_argument("--facet")
ap.add_argument("--replay")
a = ap.parse_args()
if a.replay:
    d = json.load(open(a.replay))
    if "case" not in d:
        print("replay file carries no failing input: it names the failed obligation")
        print(json.dumps(d.get("obligations", d), indent=1)[:4000])
        sys.exit(1)
    if d.get("regex"):
        os.environ["REBULK_REGEX_ENABLED"] = "1"
    load(None)
    for name, gen, check, _ in base.FACETS[d["property"]]:
        if name == d["facet"]:
            m = base.guarded(check, d["case"])
            print("case:", json.dumps(d["case"]))
            print("VIOLATED: " + m if m else "holds")
            sys.exit(1 if m else 0)
    sys.exit("unknown facet")
load(None)
r = base.search(a.pid, a.seed, a.budget, a.cases, a.facet)
print(json.dumps(r, default=str))
