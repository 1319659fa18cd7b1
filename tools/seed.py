#!/usr/bin/env python3
"""Tools for the planted bugs under seeded/:
  seed.py verify ID...          in a scratch copy: applies, builds, stable tests pass, demo fails with and passes without
  seed.py catch [-p P] ID...    applies it to /repo, runs the check of its property (or P, or all), undoes it
"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SCRATCH = "/tmp/seed-scratch"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def stable():
    with open("/opt/vp/BASELINE.json") as f:
        b = json.load(f)
    return b


def verify(ids):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
    fixes = set(subprocess.run(["git", "-C", "/repo", "rev-list", "--grep", "^fix:", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split())
    try:
        for i in ids:
            d = os.path.join(SEEDED, i)
            problems = []
            sh("git checkout -q -- .", SCRATCH)
            r = sh(["bash", os.path.join(d, "demo.sh")], SCRATCH)
            if r.returncode != 0:
                problems.append("demo fails on the unchanged tree:\n" + r.stdout[-1500:])
            r = sh(["git", "apply", os.path.join(d, "patch.diff")], SCRATCH)
            if r.returncode != 0:
                print("%-28s PATCH DOES NOT APPLY %s" % (i, r.stdout)); continue
            # at least one removed line is the original author's
            r = sh("git diff -U0 | grep -c '^-[^-]'", SCRATCH)
            orig = 0
            for f in sh("git diff --name-only", SCRATCH).stdout.split():
                blame = sh(["git", "blame", "-l", "HEAD", "--", f], SCRATCH).stdout.splitlines()
                for l in sh(["git", "diff", "-U0", "--", f], SCRATCH).stdout.splitlines():
                    if l.startswith("@@"):
                        a = l.split()[1][1:].split(",")
                        start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                        for k in range(start, start + n):
                            if blame[k - 1].split()[0].lstrip("^") not in {x[:len(blame[k-1].split()[0].lstrip("^"))] for x in fixes}:
                                orig += 1
            if not orig:
                problems.append("changes no original line")
            r = sh("cargo test --no-fail-fast --offline -- --test-threads 8", SCRATCH)
            fails = [l for l in r.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
            if "error" in r.stdout and "could not compile" in r.stdout:
                problems.append("does not build: " + r.stdout[-1500:])
            passed = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
            if fails or passed < 101:
                problems.append("tests: %d pass, %s" % (passed, fails))
            r = sh(["bash", os.path.join(d, "demo.sh")], SCRATCH)
            if r.returncode == 0:
                problems.append("demo passes with the change")
            elif "could not compile" in r.stdout:
                problems.append("demo does not compile: " + r.stdout[-800:])
            print("%-28s %s" % (i, "ok (%s)" % (r.stdout.strip() + "\n-\n-").splitlines()[1][:110] if not problems else "\n  ".join(["BAD"] + problems)), flush=True)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def catch(ids, props):
    if sh("git status --porcelain", "/repo").stdout.strip():
        sys.exit("/repo is not clean")
    for i in ids:
        d = os.path.join(SEEDED, i)
        with open(os.path.join(d, "meta.json")) as f:
            own = json.load(f)["property"]
        which = [own] if props is None else (["C%02d" % k for k in range(1, 26)] if props == "all" else props.split(","))
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], "/repo")
        if r.returncode != 0:
            print(i, "does not apply", r.stdout); continue
        try:
            res = []
            for p in which:
                t = time.time()
                r = sh(["python3", "check.py", p, "quick"], ROOT)
                ok = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
                res.append("%s:%s(%d,%.0fs)" % (p, "CAUGHT" if ok else "missed" if r.returncode == 0 else "ERROR", r.returncode, time.time() - t))
                if r.returncode not in (0, 1):
                    print(r.stdout[-1500:])
        finally:
            sh("git checkout -q -- .", "/repo")
        print("%-28s %s" % (i, " ".join(res)), flush=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    props = None
    if a and a[0] == "-p":
        props, a = a[1], a[2:]
    if not a or a == ["all"]:
        a = sorted(os.listdir(SEEDED))
    verify(a) if sys.argv[1] == "verify" else catch(a, props)
