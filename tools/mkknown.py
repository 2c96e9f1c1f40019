#!/usr/bin/env python3
"""Writes /verif/known-findings.json: the committed list of findings that are not repaired, and of the repairs."""
import json, os, subprocess
h = lambda s: s.encode("latin-1").hex()
F = [
 {"property": "C18", "what": "the value 'XxX up a XxX' of a variable is taken for a filter call after it has been substituted",
  "script": ["addstr 0 76 " + h("XxX up a XxX"), "render 0 " + h("xXx @v xXx")]},
 {"property": "C18", "what": "the value 'xXx SCREAM inc xXx' of a variable that is alone on its line is taken for an include after it has been substituted",
  "script": ["addstr 0 76 " + h("xXx SCREAM inc xXx"), "render 0 " + h("xXx @v xXx")]},
]
P = [l.split(" ", 2) for l in open(os.path.join(os.path.dirname(__file__), "fixed.txt")).read().split("\n") if l]
log = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).split("\n") if l}
fixed = []
done = set()
for prop, _, subj in P:
    assert "fix: " + subj in log, subj
    done.add("fix: " + subj)
    fixed.append("fixed: property=%s %s %s" % (prop, log["fix: " + subj], subj))
missing = [s for s in log if s.startswith("fix:") and s not in done]
assert not missing, missing
with open(os.path.join(os.path.dirname(__file__), "..", "known-findings.txt"), "w") as f:
    f.write("# Findings that are recorded and not repaired (each with the driver script that shows it), and repairs.\n")
    for k in F:
        f.write("known: property=%s script=%s :: %s\n" % (k["property"], "; ".join(k["script"]), k["what"]))
    f.write("\n" + "\n".join(fixed) + "\n")
