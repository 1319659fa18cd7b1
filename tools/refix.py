#!/usr/bin/env python3
"""Puts each repaired defect back into /repo's working tree, runs the checks of the
properties it broke, and undoes it.  KNOWN_FINDINGS.md lists the repairs."""
import os, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")


def git(*args, **kw):
    return subprocess.run(["git", "-C", REPO] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


if git("status", "--porcelain").stdout.strip():
    sys.exit("%s is not clean" % REPO)
with open(os.path.join(ROOT, "KNOWN_FINDINGS.md")) as f:
    fixed = re.findall(r"^fixed: property=(\S+) (\S+) (.*)$", f.read(), re.M)
bad = 0
for prop, commit, what in fixed:
    if len(sys.argv) > 1 and commit not in sys.argv[1:]:
        continue
    back = git("diff", commit, commit + "^").stdout
    r = git("apply", "-3", input=back)
    try:
        if r.returncode != 0:
            print(prop, commit, "cannot be put back:", r.stdout[-300:]); continue
        began = time.time()
        r = subprocess.run([sys.executable, "check.py", prop, "quick"], cwd=ROOT, stdout=subprocess.PIPE, text=True)
        ok = r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout
        print(prop, commit, "reported" if ok else "NOT REPORTED (exit %d)" % r.returncode, "%.0f s" % (time.time() - began), flush=True)
        bad |= not ok
    finally:
        git("reset", "-q", "--hard", "HEAD")
sys.exit(bad)
