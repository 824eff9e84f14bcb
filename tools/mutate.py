#!/usr/bin/env python3-vt
"""Mutation run over /repo/rebulk: which small changes that pass the test suite do the oracles see?

mutate.py gen OUT.json            every mutant that passes the test suite (all modes)
mutate.py search IN.json OUT.json [budget]   which of them the bounded searches find
Works on copies under /tmp/mutrun, removed at the end.  Used while developing the checks; no check reads it."""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

REPO = "/repo"
PY = "/opt/venv/bin/python"
FILES = ["builder", "chain", "formatters", "introspector", "loose", "match", "pattern", "processors", "rebulk", "rules", "toposort", "utils", "validators"]
W = int(os.environ.get("MUT_JOBS", "7"))


def seg(src, lines, n):
    return ast.get_source_segment(src, n)


class Gen:
    def __init__(self, f, src):
        self.f, self.src = f, src
        self.out = []
        self.off = [0]
        for l in src.encode().split(b"\n"):
            self.off.append(self.off[-1] + len(l) + 1)

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def rep(self, n, new, what):
        a, b = self.span(n)
        self.out.append(dict(file=self.f, line=n.lineno, a=a, b=b, new=new, old=self.src.encode()[a:b].decode(), what=what))

    def text(self, n):
        return ast.get_source_segment(self.src, n)

    def visit(self, n, fn=None):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name
            for d in n.body:
                self.visit(d, fn)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    self.visit(d, fn)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                self.visit(n.value, fn)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("cast", "isinstance", "TypeVar"):
            for x in n.args[1:] if n.func.id == "cast" else []:
                self.visit(x, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            o = type(n.ops[0])
            for new in {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[o]:
                self.rep(n, "%s %s %s" % (l, new, r), "cmp")
            if o is ast.IsNot and r == "None":
                self.rep(n, "bool(%s)" % l, "isnot->truth")
            if o is ast.Is and r == "None":
                self.rep(n, "not %s" % l, "isnone->falsy")
        if isinstance(n, ast.BoolOp):
            vs = [self.text(v) for v in n.values]
            op, ot = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
            self.rep(n, "(" + ot.join(vs) + ")", "boolop")
            for i in range(len(vs)):
                rest = vs[:i] + vs[i + 1:]
                self.rep(n, "(" + op.join(rest) + ")", "drop operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.rep(n, "bool(%s)" % self.text(n.operand), "not")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.rep(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                self.rep(n, "(%d)" % (n.value + 1), "int")
                self.rep(n, "(%d)" % (n.value - 1), "int")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            l, r = self.text(n.left), self.text(n.right)
            self.rep(n, "(%s %s %s)" % (l, "-" if isinstance(n.op, ast.Add) else "+", r), "arith")
            self.rep(n, "(%s)" % l, "arith")
            self.rep(n, "(%s)" % r, "arith")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                self.rep(n.test, "True", "cond")
            self.rep(n.test, "False", "cond")
            if isinstance(n.test, ast.Name):
                self.rep(n.test, "%s is not None" % n.test.id, "truth->isnot")
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                self.rep(i, "True", "comp if")
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call,)):
            self.rep(n, "pass", "del")
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            self.rep(n, "pass", "del")
        if isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
            self.rep(n, "pass", "del")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.rep(n.value, "None", "return none")
        if isinstance(n, ast.Call):
            t = self.text(n.func)
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set", "sorted", "reversed", "tuple", "frozenset") and len(n.args) == 1 and not n.keywords:
                self.rep(n, self.text(n.args[0]) if not isinstance(n.args[0], ast.GeneratorExp) else "[*%s]" % self.text(n.args[0]), "drop copy")
            if len(n.args) >= 1 and n.keywords:
                for k in n.keywords:
                    if k.arg and k.arg not in ("key",):
                        rest = [self.text(a) for a in n.args] + [("%s=%s" % (q.arg, self.text(q.value)) if q.arg else "**" + self.text(q.value)) for q in n.keywords if q is not k]
                        self.rep(n, "%s(%s)" % (t, ", ".join(rest)), "drop kw")
            if len(n.args) >= 2:
                self.rep(n, "%s(%s)" % (t, ", ".join([self.text(a) for a in n.args[:-1]] + [("%s=%s" % (q.arg, self.text(q.value)) if q.arg else "**" + self.text(q.value)) for q in n.keywords])), "drop arg")
                a = [self.text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                self.rep(n, "%s(%s)" % (t, ", ".join(a + [("%s=%s" % (q.arg, self.text(q.value)) if q.arg else "**" + self.text(q.value)) for q in n.keywords])), "swap arg")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "append":
                self.rep(n, "%s.insert(0, %s)" % (self.text(n.func.value), self.text(n.args[0])), "prepend")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("start", "end"):
                pass
        if isinstance(n, ast.Attribute) and n.attr in ("start", "end", "raw_start", "raw_end", "parent", "initiator"):
            new = {"start": ["raw_start", "end"], "end": ["raw_end", "start"], "raw_start": ["start"], "raw_end": ["end"], "parent": ["initiator"], "initiator": ["parent"]}[n.attr]
            if isinstance(n.ctx, ast.Load):
                for x in new:
                    self.rep(n, "%s.%s" % (self.text(n.value), x), "attr")
        for c in ast.iter_child_nodes(n):
            if c in getattr(n, "decorator_list", []):
                continue
            self.visit(c, fn)


def mutants():
    out = []
    for f in FILES:
        src = open("%s/rebulk/%s.py" % (REPO, f)).read()
        g = Gen(f, src)
        for n in ast.parse(src).body:
            g.visit(n)
        for m in g.out:
            b = src.encode()
            new = b[:m["a"]] + m["new"].encode() + b[m["b"]:]
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            if m["new"] == m["old"]:
                continue
            out.append(m)
    for i, m in enumerate(out):
        m["id"] = i
    return out


pool = queue.Queue()


def slots():
    shutil.rmtree("/tmp/mutrun", ignore_errors=True)
    os.makedirs("/tmp/mutrun")
    for i in range(W):
        d = "/tmp/mutrun/%d" % i
        shutil.copytree(REPO, d, symlinks=True)
        pool.put(d)


def apply(d, m):
    p = "%s/rebulk/%s.py" % (d, m["file"])
    b = open("%s/rebulk/%s.py" % (REPO, m["file"]), "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])


def restore(d, m):
    shutil.copyfile("%s/rebulk/%s.py" % (REPO, m["file"]), "%s/rebulk/%s.py" % (d, m["file"]))


def limited():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    os.nice(15)


def tests(d):
    for extra in ({}, {"REBULK_REGEX_ENABLED": "1"}, {"REBULK_CHECK_DECLARED_KEYS": "1"}):
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, **extra), capture_output=True, timeout=25, preexec_fn=limited)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            return False
    return True


def one_gen(m):
    d = pool.get()
    try:
        apply(d, m)
        return tests(d)
    finally:
        restore(d, m)
        pool.put(d)


def one_search(m, budget, pids):
    d = pool.get()
    hit = {}
    try:
        apply(d, m)
        for pid in pids:
            try:
                r = subprocess.run([PY, "oracle/run.py", pid, "--seed", "1", "--budget", str(budget)], cwd="/verif", env=dict(os.environ, REBULK_REPO=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=budget * 3 + 40, preexec_fn=limited)
                v = json.loads(r.stdout).get("violation")
                if v:
                    hit[pid] = "%s: %s" % (v["facet"], str(v["message"])[:160])
            except subprocess.TimeoutExpired:
                hit[pid] = "timeout"
            except ValueError:
                hit[pid] = "crash " + r.stderr[-160:]
            if hit:
                break
        return hit
    finally:
        restore(d, m)
        pool.put(d)


# which oracles exercise a file, the likeliest first
ORDER = {
    "match": "C01 C02 C03 C04 C05 C15 C18 C16 C11 C08 C09 C10 C13".split(),
    "chain": "C09 C16 C14 C20 C08".split(),
    "pattern": "C07 C08 C06 C14 C17 C20 C16".split(),
    "rebulk": "C17 C11 C16 C20 C12 C14 C15 C12 C18 C20 C11 C16 C10 C13".split(),
    "builder": "C14 C16 C18 C20 C12 C09 C08 C07".split(),
    "rules": "C12 C13 C11 C17".split(),
    "toposort": "C11 C12".split(),
    "processors": "C10 C11 C15".split(),
    "utils": "C06 C17 C04 C09 C18 C07 C08 C15 C19 C12 C16".split(),
    "loose": "C19 C14 C18 C20 C01 C12 C15 C16 C08 C17".split(),
    "formatters": "C20 C08 C14".split(),
    "validators": "C20 C08 C14 C09".split(),
    "introspector": "C17 C16 C18".split(),
}


def main():
    slots()
    if sys.argv[1] == "gen":
        ms = mutants()
        print(len(ms), "mutants", flush=True)
        with ThreadPoolExecutor(W) as ex:
            res = list(ex.map(one_gen, ms))
        out = [m for m, r in zip(ms, res) if r]
        json.dump(out, open(sys.argv[2], "w"), indent=0)
        print(len(out), "pass the tests")
    else:
        ms = json.load(open(sys.argv[2]))
        budget = float(sys.argv[4]) if len(sys.argv) > 4 else 4
        ids = set(map(int, sys.argv[5].split(","))) if len(sys.argv) > 5 else None
        ms = [m for m in ms if ids is None or m["id"] in ids]

        def go(m):
            h = one_search(m, budget, ORDER[m["file"]])
            print(m["id"], m["file"], m["line"], m["what"], repr(m["old"][:70]), "->", repr(m["new"][:70]), "|", h or "MISSED", flush=True)
            return h
        with ThreadPoolExecutor(W) as ex:
            res = list(ex.map(go, ms))
        for m, h in zip(ms, res):
            m["hit"] = h
        json.dump(ms, open(sys.argv[3], "w"), indent=0)
        print(sum(1 for h in res if h), "found of", len(ms))
    shutil.rmtree("/tmp/mutrun", ignore_errors=True)


if __name__ == "__main__":
    main()
