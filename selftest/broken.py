"""python3-vt selftest/broken.py [substring] [-j N] - contracts must fail on broken bodies.

Each line plants one edit in a scratch copy of /repo and runs the contract of the function edited; the contract must not be
discharged. An edit that no longer applies is reported, not counted.
"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REBULK_REPO", "/repo")
EDITS = """
C09 chain.py Chain._match @ chain_input_string = input_string\\[offset:\\]\\n @ pass\\n
C09 chain.py Chain._match @ if current_chain_matches and valid_chain: @ if current_chain_matches:
C09 chain.py Chain._match @ for chain_part in self.parts: @ for chain_part in self.parts[1:]:
C09 chain.py Chain._match @ for chain_part in self.parts: @ for chain_part in reversed(self.parts):
C09 chain.py Chain._match @ current_chain_matches: list\\[Match\\] = \\[\\] @ current_chain_matches = chain_matches
C09 chain.py _build_chain @ chain_match.parent = match\\b @ pass
C09 chain.py _build_chain @ if chain_match not in match.children @ if not match.children
C09 chain.py _build_chain @ for child in chain_match.children: @ for child in chain_match.children[1:]:
C09 chain.py _to_next @ offset = grouped_raw_matches\\[-1\\].raw_end @ offset = grouped_raw_matches[0].raw_start
C09 chain.py _to_next @ if not chain_part.is_hidden @ if chain_part.is_hidden
C09 chain.py _to_next @ chain_found = True @ chain_found = bool(chain_part_matches)
C09 chain.py _fix_matches @ chain_part_match.end \\+= offset @ chain_part_match.end += offset + 1
C12 rules.py execute_all @ return self.priority > other.priority @ return self.priority >= other.priority
C12 rules.py execute_all @ groupby\\(sorted\\(self\\), lambda @ groupby(self, lambda
C12 rules.py execute_all @ if when_response is not None: @ if when_response is not None and group_log_level:
C12 rules.py execute_all @ ret.append\\(\\(rule, when_response\\)\\) @ ret.insert(0, (rule, when_response))
C12 rules.py toposort_rules @ class_dict.get\\(dependency_class\\) @ class_dict.get(dependency)
C12 rules.py execute_rule @ if when_response: @ if when_response is not None:
C12 rules.py load_module @ self.load_class\\(obj\\) @ self.insert(0, obj())
C12 rules.py Rules.load @ self.append\\(cast\\("CustomRule", rule\\)\\) @ self.insert(0, rule)
C12 toposort.py toposort.toposort @ v.discard\\(k\\) @ pass
C12 toposort.py toposort.toposort @ \\(dep - ordered\\) @ dep
C12 toposort.py toposort.toposort @ if len\\(data\\) != 0 @ if len(data) > 1
C05 match.py crop[list] @ start <= current.start and @ start < current.start and
C05 match.py crop[list] @ end >= current.end @ end > current.end
C05 match.py crop[list] @ right.start = end\\b @ right.start = end + 1
C05 match.py crop[list] @ ret.append\\(right\\) @ ret.append(current)
C05 match.py crop[list] @ crop.span @ (crop.raw_start, crop.raw_end)
C05 match.py split @ copy.deepcopy\\(current_match\\) @ current_match
C14 loose.py loose @ list\\(value\\) \\+ kwargs\\[key\\] @ kwargs[key] + list(value)
C14 loose.py loose @ merged = dict\\(kwargs\\[key\\]\\) @ merged = kwargs[key]
C14 loose.py loose @ kwargs.clear\\(\\) @ pass
C14 builder.py overrides @ kwargs.update\\(backup\\) @ pass
C14 builder.py build_re @ set_defaults\\(self._string_defaults, kwargs\\) @ set_defaults(self._regex_defaults, kwargs)
C14 builder.py apply @ kwargs.setdefault\\("formatter", key.converter\\) @ kwargs["formatter"] = key.converter
C14 builder.py declare @ self._keys\\[key.name\\] = key @ self._keys.setdefault(key.name, key)
C14 builder.py chain @ deepcopy\\(source._string_defaults\\) @ source._string_defaults
C14 key.py key.Key @ if self.formatter is not None @ if self.formatter
C15 match.py to_dict @ if not enforce_list and value not in @ if value not in
C15 match.py match._BaseMatches.to @ kwargs\\[name\\] = values\\[0\\] @ kwargs[name] = values[-1]
C15 match.py all @ named\\[0\\].value if named @ named[-1].value if named
C15 match.py _contra @ issubclass\\(element, declared\\) or issubclass\\(declared, element\\) @ issubclass(element, declared)
C18 match.py Match.names @ if not self.children: @ if self.children is None:
C18 match.py tagged @ any\\(tag in self.tags @ all(tag in self.tags
C10 utils.py IdentitySet @ self.value is other.value @ self.value == other.value
C10 utils.py IdentitySet @ return id\\(self.value\\) @ return hash(self.value)
C10 processors.py ConflictSolver.when @ not match.private @ match.private
"""


def one(line):
    head, old, new = [x.strip(" ") for x in line.split(" @ ")]
    pid, f, sub = head.split(" ", 2)
    src = open(os.path.join(REPO, "rebulk", f)).read()
    new = new.replace("\\n", "\n")
    out = re.sub(old, new if "\\1" in new else lambda m: new, src)
    if out == src:
        return line, "does not apply"
    d = tempfile.mkdtemp(prefix="broken")
    try:
        shutil.copytree(os.path.join(REPO, "rebulk"), d + "/rebulk", ignore=shutil.ignore_patterns("__pycache__", "test"))
        open(os.path.join(d, "rebulk", f), "w").write(out)
        p = subprocess.run(["python3-vt", "-m", "contracts.run", pid, sub], cwd=os.path.dirname(HERE), env=dict(os.environ, REBULK_REPO=d), capture_output=True, text=True, timeout=1500)
        rows = [x for x in p.stdout.splitlines() if re.match(r"\S.* (ok|failed|undecided) +\d", x)]
        if not rows:
            return line, "no contract ran: " + p.stderr[-300:]
        bad = [x for x in rows if " ok " not in x]
        return line, "caught (%s)" % ", ".join(sorted({"failed" if " failed " in x else "undecided" for x in bad})) if bad else "MISSED"
    finally:
        shutil.rmtree(d)


def main():
    argv = sys.argv[1:]
    j = 6
    if "-j" in argv:
        k = argv.index("-j")
        j = int(argv[k + 1])
        del argv[k:k + 2]
    args = argv
    lines = [x for x in EDITS.strip().splitlines() if not args or args[0] in x]
    bad = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for line, r in ex.map(one, lines):
            print("%-28s %s" % (r, line), flush=True)
            bad += not r.startswith("caught")
    print("%d edits, %d not caught" % (len(lines), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
