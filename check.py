#!/usr/bin/env python3
"""Decides one property of actiondb:  check.py <property> [quick|thorough]

1. builds the conformance harness against /repo's working tree,
2. model-checks the specification modules the property rests on with TLC,
3. replays the behaviours TLC emitted on the real code,
4. records sessions of the real code and checks them as traces of the
   specification, again with TLC.

Exit 0: held on everything explored; 1: violated (with a VIOLATION line); 2: tool error.
"""
import fcntl, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "actiondb-conformance")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 8))

FRAGMENTS = ("a esc nl e % { close bs ( ) quote , sp min max 1 30 : n - %{INT %{SET(q %{GREEDY q) %{INT( big over "
             "open INT SET GREEDY").split()


def fragset(names):
    return "{" + ", ".join('"%s"' % n for n in names) + "}"


def index(universe, hist, text):
    odd = universe == "odd"
    return dict(module="MC_Index", label="MC_Index/" + universe,
                consts=dict(Defects="{}", Handles="{1}", PatternIds="<- MCPatternIds", Toks="<- MCToks",
                            MaxHist=hist, MaxText=text, Universe='"%s"' % universe),
                spec="Spec", inv=["Safe"] if odd else ["Correct", "ShapeOk"],
                prop=["Isolation"] if odd else ["Isolation", "Refines"])


def clones(steps):
    return dict(module="MC_Clone", consts=dict(Defects="{}", Handles="{1, 2, 3}", PatternIds="<- MCPatternIds",
                                               Toks="<- MCToks", MaxHist=10, MaxSteps=steps),
                spec="CSpec", inv=["Correct", "Functional"], prop=["Isolation", "Refines", "AbsIsolation"])


def lang(pieces, frags=FRAGMENTS, inv=("Good",)):
    return dict(module="MC_Lang", label="MC_Lang/%d of %d" % (pieces, len(frags)),
                consts=dict(MaxPieces=pieces, Fragments=fragset(frags)), inv=list(inv))


def load(items):
    return dict(module="MC_Load", consts=dict(Sources="<- MCSources", Modes='{"strict", "lenient"}', Mistakes="{}",
                                              MaxItems=items),
                spec="LoadSpec", inv=["StrictAllOrNothing", "LenientKeepsAll"], prop=["Terminates"])


def docs(odd):
    return dict(module="MC_Docs", consts=dict(MaxOdd=odd), inv=["Decomposes", "Reasoned"])


def files(pieces):
    return dict(module="MC_Files", consts=dict(MaxPieces=pieces), inv=["LastOnly", "NothingHidden"])


def parsers(text):
    return dict(module="MC_Parsers", consts=dict(MaxText=text), inv=["Meant", "Same"])


def lits(ins, length, text):
    return dict(module="MC_Lit", consts=dict(Defects="{}", MaxIns=ins, MaxLen=length, MaxText=text),
                inv=["Exact", "Rest", "Shape"], prop=["NothingLost"])


def vec(steps):
    return dict(module="MC_Vec", consts=dict(MaxSteps=steps), inv=["InOrder", "Complete", "Findable"])


def parts(steps):
    return dict(module="MC_Parts", consts=dict(MaxSteps=steps), inv=["OnceEach"], prop=["Apart"])


def prefixes(text):
    return dict(module="MC_Prefix", consts=dict(MaxText=text), inv=["Agree"])


SHORT = "a esc close , 1 : n %{INT %{SET(q %{GREEDY q) %{INT( min max )".split()
LANG_Q = [lang(3), lang(4, SHORT)]
LANG_T = [lang(4), lang(5, SHORT)]
HONEST = ("Good", "Honest")
INDEX_Q = [index("core", 3, 3)]
INDEX_T = [index("core", 3, 4), index("wide", 3, 3), index("close", 3, 3), index("wide", 2, 5)]
ODD_Q, ODD_T = [index("odd", 2, 3)], [index("odd", 3, 3)]

# property: (models quick, models thorough, sessions per trace quick)
PLAN = {
    "C01": (INDEX_Q + ODD_Q, INDEX_T + ODD_T, 1800),
    "C02": (INDEX_Q + ODD_Q, INDEX_T + ODD_T, 1800),
    "C03": (INDEX_Q + [index("close", 2, 3)], INDEX_T, 1800),
    "C04": (INDEX_Q + [index("close", 2, 3)], INDEX_T, 1800),
    "C05": (INDEX_Q + ODD_Q, INDEX_T + ODD_T, 1800),
    "C06": (INDEX_Q + ODD_Q, INDEX_T + ODD_T, 1800),
    "C07": ([parsers(4)], [parsers(6)], 2400),
    "C08": ([parsers(4)], [parsers(6)], 2400),
    "C09": (LANG_Q, LANG_T, 3000),
    "C10": (LANG_Q, LANG_T, 3000),
    "C11": ([load(3)], [load(4)], 3000),
    "C12": ([load(3)], [load(4)], 3000),
    "C13": ([load(3)], [load(4)], 3000),
    "C14": ([docs(2)], [docs(3)], 4000),
    "C15": ([files(3)], [files(4)], 3000),
    "C16": ([clones(4)], [clones(5)], 1800),
    "C17": ([clones(4), index("core", 2, 3)], [clones(5)] + INDEX_T, 1400),
    "C18": (INDEX_Q + [index("close", 2, 3)], INDEX_T, 1800),
    "C19": ([parsers(3), index("close", 2, 3)], [parsers(5), index("close", 3, 3)], 1800),
    "C20": ([lits(3, 2, 4), lits(3, 3, 3)], [lits(4, 2, 4), lits(3, 3, 4)], 1800),
    "C21": ([vec(6), prefixes(2)], [vec(7), prefixes(3)], 3000),
    "C22": ([load(3)], [load(4)], 3000),
    "C23": ([docs(2)], [docs(3)], 4000),
    "C24": ([parts(6)], [parts(7)], 3000),
    "C25": ([lang(3, inv=HONEST), lang(4, SHORT, HONEST)], [lang(4, inv=HONEST), lang(5, SHORT, HONEST)], 3000),
}
# an answer that never comes is a violation of these
MUST_ANSWER = {"C02", "C05", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C20", "C21", "C24"}


class ToolError(Exception):
    pass


# what of the harness a property cannot do without
NEEDS = {"C19": "hash", "C20": "index", "C21": "utils"}


def build(prop):
    os.makedirs(os.path.join(HARNESS, "target"), exist_ok=True)
    with open(os.path.join(HARNESS, "target", ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        cmd = ["cargo", "build", "--offline", "--locked"]
        for args in ([], ["--no-default-features", "--features", NEEDS.get(prop, "")]):
            r = subprocess.run(cmd + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return
    raise ToolError("the harness does not build:\n" + r.stdout[-3000:])


def tlc(module, cfg, work, workers, heap, env=None, serial=False, timeout=None):
    os.makedirs(work, exist_ok=True)
    cmd = ["java", "-Xss256m", "-Xmx%s" % heap, "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", os.path.join(work, "states"), "-workers", str(workers), "-config", cfg, module]
    out = os.path.join(work, "tlc.out")
    with open(out, "w") as f:
        rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})),
                            timeout=timeout).returncode
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    return rc, out


def model(m, n, work, workers, emit="TRUE"):
    """Model-checks one module and returns its figures and the file with what it emitted."""
    work = os.path.join(work, "model%d" % n)
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, m["module"] + ".cfg")
    with open(cfg, "w") as f:
        f.write("CONSTANTS\n")
        for k, v in dict(m["consts"], DoEmit=emit).items():
            f.write("  %s %s\n" % (k, v if str(v).startswith("<-") else "= %s" % v))
        f.write("SPECIFICATION %s\n" % m["spec"] if "spec" in m else "INIT Init\nNEXT Next\n")
        f.write("INVARIANTS %s\n" % " ".join(m["inv"] + ["Emit"]))
        if m.get("prop"):
            f.write("PROPERTIES %s\n" % " ".join(m["prop"]))
        f.write("CHECK_DEADLOCK FALSE\n")
    rc, out = tlc(m["module"] + ".tla", cfg, work, workers, "12g" if workers > 4 else "6g")
    emitted = os.path.join(work, "emitted.ndjson")
    count, done, plain = 0, None, []
    with open(out) as f, open(emitted, "w") as g:
        for line in f:
            if line.startswith('"{'):
                g.write(json.loads(line) + "\n")
                count += 1
            else:
                plain.append(line)
                hit = re.match(r"(\d+) states generated, (\d+) distinct states found, 0 states left", line)
                if hit:
                    done = (int(hit.group(1)), int(hit.group(2)))
    if rc != 0 or done is None:
        raise ToolError("TLC on %s (exit %d):\n%s" % (m["module"], rc, "".join(plain)[-6000:]))
    os.remove(out)
    return dict(label=m.get("label", m["module"]), consts=m["consts"], generated=done[0], distinct=done[1],
                emitted=count, file=emitted, checked=m["inv"] + m.get("prop", []))


def harness(args, scratch, timeout):
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=dict(os.environ, VERIF_SCRATCH=scratch, RUST_BACKTRACE="0"), timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 3, "HANG: %s" % (e.stdout or b"")[-500:], ""
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, m, n, work):
    """Runs what a model emitted on the real code."""
    rc, out, err = harness(["replay", prop, m["file"]], os.path.join(work, "scratch-r%d" % n), 700)
    bad = [json.loads(l[len("MISMATCH "):]) for l in out.splitlines() if l.startswith("MISMATCH ")]
    res = dict(model=m["label"], mismatches=bad, died=None, summary=None)
    last = [l for l in out.splitlines() if l.startswith('{"c')]
    if rc == 0 and last:
        res["summary"] = json.loads(last[-1])
    elif rc in (3,) or rc < 0:
        res["died"] = "exit %d: %s" % (rc, out[-600:])
    else:
        raise ToolError("harness replay %s %s: exit %d\n%s\n%s" % (prop, m["label"], rc, out[-1000:], err[-2000:]))
    return res


def shard(prop, seed, n, work):
    """Records a trace and checks it."""
    work = os.path.join(work, "trace-%d" % seed)
    os.makedirs(work, exist_ok=True)
    trace = os.path.join(work, "trace.ndjson")
    rc, out, err = harness(["record", prop, str(seed), str(n), trace], os.path.join(work, "scratch"), 700)
    res = dict(seed=seed, n=n, trace=trace, lines=0, walked=0, calls=0, rejected=None, died=None)
    if rc == 0:
        res["calls"] = json.loads(out.splitlines()[-1])["calls"]
    elif rc in (3,) or rc < 0:
        res["died"] = "exit %d: %s" % (rc, out[-600:])
        # the last line may be incomplete
        with open(trace, "rb") as f:
            data = f.read()
        with open(trace, "wb") as f:
            f.write(data[:data.rfind(b"\n") + 1])
    else:
        raise ToolError("harness record %s %d %d: exit %d\n%s\n%s" % (prop, seed, n, rc, out[-1000:], err[-2000:]))
    with open(trace) as f:
        res["lines"] = sum(1 for _ in f)
    if res["lines"] == 0:
        return res
    rc, out = tlc("Trace.tla", "Trace.cfg", work, 1, "3g", env=dict(TRACE=trace, PROP=prop), serial=True)
    with open(out) as f:
        text = f.read()
    walked = re.search(r'<<"WALKED", (\d+), (\d+)>>', text)
    rejected = re.search(r'<<"REJECTED", (\d+)>>', text)
    if rejected:
        res["rejected"] = int(rejected.group(1))
        res["walked"] = res["rejected"] - 1
    elif walked and walked.group(1) == walked.group(2) == str(res["lines"]) and rc == 0:
        res["walked"] = res["lines"]
    else:
        raise ToolError("TLC on the trace of %s, seed %d (exit %d):\n%s" % (prop, seed, rc, text[-3000:]))
    return res


def readable(v):
    if isinstance(v, list):
        if v and all(isinstance(x, int) and not isinstance(x, bool) for x in v) and all(9 <= x < 0x110000 for x in v):
            return "".join(map(chr, v))
        return [readable(x) for x in v]
    if isinstance(v, dict):
        return {k: readable(x) for k, x in v.items()}
    return v


def context(trace, line):
    """The session a rejected line belongs to."""
    with open(trace) as f:
        lines = f.read().splitlines()[:line]
    start = 0
    for i, l in enumerate(lines):
        if re.search(r'"e":"(reset|lnew|vnew|pnone)"', l):
            start = i
    if not re.search(r'"e":"(ask|add|clone|lins|llook|vop|p[a-z]+)"', lines[-1]):
        start = line - 1
    return [readable(json.loads(l)) for l in lines[start:]][-400:]


def findings(prop):
    """Known findings of this property that are still there."""
    shown = []
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.md")) as f:
        for line in f:
            hit = re.match(r"known: property=(\S+) probe=(\S+) (.*)", line.strip())
            if hit and hit.group(1) == prop:
                rc, out, _ = harness(["finding", hit.group(2)], os.path.join(ROOT, "work", "scratch-f"), 60)
                if rc == 0 and out.strip().endswith("present"):
                    shown.append(hit.group(3))
    return shown


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    began = time.time()
    work = os.path.join(ROOT, "work", "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    quick, thorough, sessions = PLAN[prop]
    build(prop)
    # the recorder needs little, so models and traces share the cores
    if tier == "quick":
        models, shards, n = quick, CORES, sessions
        with ThreadPoolExecutor(CORES) as pool:
            tr = [pool.submit(shard, prop, seed * 64 + k, n, work) for k in range(shards)]
            mo = [model(m, i, work, CORES) for i, m in enumerate(models)]
            re_ = [pool.submit(replay, prop, m, i, work) for i, m in enumerate(mo)]
            traces = [t.result() for t in tr]
            replays = [r.result() for r in re_]
    else:
        models, shards, n = thorough, 6 * CORES, 4 * sessions
        mo = [model(m, i, work, CORES) for i, m in enumerate(models)]
        with ThreadPoolExecutor(CORES) as pool:
            re_ = [pool.submit(replay, prop, m, i, work) for i, m in enumerate(mo)]
            tr = [pool.submit(shard, prop, seed * 4096 + k, n, work) for k in range(shards)]
            replays = [r.result() for r in re_]
            traces = [t.result() for t in tr]

    violations = []
    for r in replays:
        for m in r["mismatches"]:
            violations.append(dict(kind="replay of a specified behaviour", model=r["model"], **m))
        if r["died"] and prop in MUST_ANSWER:
            violations.append(dict(kind="no answer during replay", model=r["model"], what=r["died"]))
    for t in traces:
        if t["rejected"]:
            violations.append(dict(kind="recorded trace rejected by the specification", seed=t["seed"], sessions=t["n"],
                                   line=t["rejected"], again="harness record %s %d %d <trace>" % (prop, t["seed"], t["n"]),
                                   session=context(t["trace"], t["rejected"])))
        if t["died"] and prop in MUST_ANSWER:
            violations.append(dict(kind="no answer while recording", seed=t["seed"], what=t["died"]))

    samples = []
    for t in traces[:2]:
        with open(t["trace"]) as f:
            ls = f.read().splitlines()
        picks = [l for l in ls if len(l) < 2500 and not re.search(r'"e":"(reset|new|lnew|vnew|busy)"', l)]
        samples += [readable(json.loads(l)) for l in picks[len(picks) // 3:len(picks) // 3 + 2]]
    kinds = {}
    for t in traces:
        with open(t["trace"]) as f:
            for l in f:
                e = re.search(r'"e":"(\w+)"', l)
                if e:
                    kinds[e.group(1)] = kinds.get(e.group(1), 0) + 1
    cases = sum(r["summary"]["cases"] for r in replays if r["summary"])
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(m["distinct"] for m in mo), transitions=sum(m["generated"] for m in mo),
            traces_validated_against_impl=cases + sum(1 for t in traces if t["walked"] == t["lines"] and t["lines"]),
            specified_behaviours_replayed=cases,
            comparisons_in_replay=sum(r["summary"]["compared"] for r in replays if r["summary"]),
            recorded_trace_steps_checked=sum(t["walked"] for t in traces),
            recorded_sessions=sum(t["n"] for t in traces),
            recorded_events=kinds,
            calls_into_the_code=sum(t["calls"] for t in traces) + sum(r["summary"]["calls"] for r in replays if r["summary"]),
            models=[dict(model=m["label"], constants={k: str(v) for k, v in m["consts"].items()}, checked=m["checked"],
                         distinct_states=m["distinct"], emitted=m["emitted"]) for m in mo],
            samples=samples),
        assumptions=["bounds of the models as listed under models; recorded sessions are random with the given seed",
                     "TLC, the JSON module, and the harness's translation between texts and code points are trusted"],
        wall_s=round(time.time() - began, 1), violations=len(violations))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    for what in findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violations:
        out = os.path.join(ROOT, "work", "violation-%s.json" % prop)
        with open(out, "w") as f:
            json.dump(violations[:20], f, indent=1, ensure_ascii=False)
        print(json.dumps(violations[0], ensure_ascii=False)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, out))
        shutil.rmtree(work, ignore_errors=True)
        return 1
    shutil.rmtree(work, ignore_errors=True)
    print("%s held: %d states, %d behaviours replayed, %d trace steps, %.0f s" % (
        prop, evidence["coverage"]["states"], cases, evidence["coverage"]["recorded_trace_steps_checked"], evidence["wall_s"]))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
