"""Runs scenarios on the real code and validates the recorded traces with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)
import build as builder
import edits
import post

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROCS = 8
CPP_ONLY = {"D.untrain", "D.overuntrain", "D.bare", "D.mental", "D.sizes", "copy", "E.encode", "E.decode", "H.save", "H.load"}
RANDOM_NEW = {"D.new"}


class ToolError(Exception):
    pass


class TookTooLong(ToolError):
    pass


# ------------------------------------------------------------------------------------------
# Scenarios: {"id", "segs": [{"impl": "py"|"cpp"|"edit"|..., "ops": [...]}], "files": bool}

def finish_ops(ops):
    """Ask for the addressings the library chose, wherever it had a choice."""
    conf = {}
    snap = {}
    out = []
    for op in ops:
        t = op["op"]
        if t == "W.new":
            o = op.get("opt", {})
            conf[op["o"]] = op
        if t == "D.new" and not (op.get("opt", {}).get("mapping") or op.get("opt", {}).get("indexes")):
            op = dict(op, p=1)
        elif t in ("W.train", "W.trainset", "W.trainrep"):
            o = conf.get(op["o"], {}).get("opt", {})
            labels = op["ys"] if t == "W.train" else [op["y"]] if t == "W.trainrep" else [y for _, y in op.get("pairs", [[[], "?"]])]
            if not o.get("indexes") and any(y not in o.get("mapping", {}) for y in labels):
                op = dict(op, p=1)
        elif t in ("C.train", "C.trainsemi", "C.trainuns", "U.train"):
            op = dict(op, p=1)
        elif t == "save":
            snap[op["s"]] = conf.get(op["o"], {})
        elif t == "load":
            conf[op["o"]] = snap.get(op["s"]) or conf.get(op.get("as"), {})
        elif t == "copy":
            conf[op["o"]] = conf.get(op["p"], {})
        out.append(op)
    return out


def variants(sc, impls):
    """The executions of a scenario: "*" runs it once per implementation; segments with
    implementation letters A, B run it for every ordered pair."""
    names = {s["impl"] for s in sc["segs"]}
    if names & {"A", "B"}:
        for a in impls:
            for b in impls:
                if a != b:
                    yield "%s/%s-%s" % (sc["id"], a, b), {"A": a, "B": b}
    elif "*" in names:
        for a in impls:
            yield "%s/%s" % (sc["id"], a), {"*": a}
    elif names & {"cpp", "inner"}:
        for a in impls:
            if a != "py":
                yield "%s/%s" % (sc["id"], a), {"cpp": a, "inner": a}
    else:
        yield sc["id"], {}


def run_impl(built, impl, jobs, work):
    """Run the jobs on one implementation, in parallel batches."""
    if not jobs:
        return {}
    n = min(PROCS, len(jobs))
    batches = [jobs[i::n] for i in range(n)]

    def one(i):
        jf = os.path.join(work, "jobs-%s-%d" % (impl, i))
        of = os.path.join(work, "log-%s-%d" % (impl, i))
        with open(jf, "w") as f:
            for j in batches[i]:
                f.write(json.dumps(j) + "\n")
        if impl == "py":
            cmd = [sys.executable, "-B", os.path.join(HERE, "driver.py"), built["py"], jf, of]
        else:
            cmd = [built[impl], jf, of]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1",
                   PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8")
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        err = p.stderr.decode("utf-8", "replace")
        if p.returncode:
            raise ToolError("driver %s failed (%d): %s" % (impl, p.returncode, err[-2000:]))
        out = {}
        with open(of, encoding="utf-8") as f:
            for line in f:
                j = json.loads(line)
                if j["end"] == "harness":
                    raise ToolError("driver %s: %s: %s" % (impl, j["id"], err[-2000:]))
                out[j["id"]] = j
        if len(out) != len(batches[i]):
            raise ToolError("driver %s lost scenarios" % impl)
        return out

    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, range(n)):
            res.update(r)
    return res


def record(built, scenarios, impls, work):
    """Execute everything; returns [(trace id, scenario, assignment, events)]."""
    runs = []
    for sc in scenarios:
        if not built.get("inner") and any(s["impl"] == "inner" for s in sc["segs"]):
            continue
        for vid, asg in variants(sc, impls):
            d = os.path.join(work, "run%d" % len(runs))
            os.makedirs(os.path.join(d, "scratch"))
            os.makedirs(os.path.join(d, "snaps"))
            runs.append({"id": vid, "sc": sc, "asg": asg, "dir": d, "tr": post.Tracer(), "alive": True})
    depth = max([len(s["segs"]) for s in scenarios], default=0)
    for k in range(depth):
        per = {}
        for i, r in enumerate(runs):
            if r["alive"] and k < len(r["sc"]["segs"]):
                seg = r["sc"]["segs"][k]
                impl = r["asg"].get(seg["impl"], seg["impl"])
                if impl == "edit":              # done by the harness: no library involved
                    log = edits.run(seg["ops"], os.path.join(r["dir"], "scratch"), os.path.join(r["dir"], "snaps"))
                    r["alive"] = r["tr"].segment(seg["ops"], log, False)
                    continue
                ops = finish_ops(seg["ops"])
                if impl == "py":
                    ops = [o for o in ops if o["op"] not in CPP_ONLY]
                per.setdefault(impl, []).append((i, {"id": str(i), "dir": os.path.join(r["dir"], "scratch"),
                                                     "snaps": os.path.join(r["dir"], "snaps"), "ops": ops,
                                                     "files": r["sc"].get("files", False)}))
        for impl, todo in per.items():
            logs = run_impl(built, impl, [j for _, j in todo], work)
            for i, j in todo:
                if logs[str(i)]["end"] == "skipped":      # too many scenarios died before this one
                    runs[i]["alive"] = False
                    runs[i]["skipped"] = True
                    continue
                runs[i]["alive"] = runs[i]["tr"].segment(j["ops"], logs[str(i)], impl == "py")
    out = []
    for r in runs:
        shutil.rmtree(r["dir"])
        if not r.get("skipped"):
            out.append((r["id"], r["sc"], r["asg"], r["tr"].ev))
    return out


# ------------------------------------------------------------------------------------------
# TLC

def tlc(spec, cfg, work, env=None, heap="6g", workers=PROCS, extra=(), timeout=800):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, spec]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(spec), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TookTooLong("TLC timed out on " + os.path.basename(spec))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return p.returncode, p.stdout, gen, dist


UNEVALUABLE = re.compile(r"Attempted to|overflow|Overflow|is not in the domain|was not in the domain|no matching CASE|TLC was unable|"
                         r"TLC expected|does not have|The first argument|The second argument|applied (?:the )?function|"
                         r"Evaluating assumption|Too many arguments|not enumerable|does not satisfy")
OUT_OF_RESOURCES = re.compile(r"OutOfMemory|StackOverflow|No space left|Java heap")


UNDECIDED = []      # traces given up, as TLC needs too long for them
PATIENCE = 240      # seconds for a batch of traces


def validate(traces, work, batch=2000, stop=8):
    """traces: [(id, events)].  Returns (indexes of the rejected ones, generated, distinct)."""
    late = time.time() + 2 * PATIENCE
    gen = dist = 0
    bad = []
    path = os.path.join(work, "traces.ndjson")
    todo = [(k, min(k + batch, len(traces)), PATIENCE) for k in range(0, len(traces), batch)]
    while todo:
        lo, hi, patience = todo.pop()
        part = traces[lo:hi]
        with open(path, "w") as f:
            for i, ev in part:
                f.write(json.dumps({"id": i, "ev": ev}) + "\n")
        try:
            rc, out, g, d = tlc(os.path.join(SPEC, "Trace.tla"), os.path.join(SPEC, "Trace.cfg"), work, env={"TRACES": path},
                                timeout=patience)
        except TookTooLong:
            if hi - lo == 1 or time.time() > late:
                UNDECIDED.extend(i for i, _ in part)
            else:
                step = -(-(hi - lo) // 8)
                todo += [(k, min(k + step, hi), max(20, patience // 4)) for k in range(lo, hi, step)]
            continue
        if rc != 0 or "No error has been found" not in out:
            if OUT_OF_RESOURCES.search(out):
                raise ToolError("TLC failed on the traces:\n" + out[-6000:])
            if hi - lo == 1:
                # an invariant is violated, or an event has a value no action is defined for
                if "is violated" in out or UNEVALUABLE.search(out):
                    bad.append(lo)
                    gen, dist = gen + g, dist + d
                    continue
                raise ToolError("TLC failed on a trace:\n" + out[-6000:])
            mid = (lo + hi) // 2
            todo += [(lo, mid, patience), (mid, hi, patience)]
            if len(bad) >= stop:
                break          # enough of them
            continue
        gen, dist = gen + g, dist + d
        seen = {int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out)}
        bad += [lo + i for i in range(len(part)) if i + 1 not in seen]
    return sorted(bad), gen, dist


def diagnose(events, work):
    """The first event that is not a step of the specification (1-based), and TLC's output."""
    path = os.path.join(work, "one.ndjson")
    with open(path, "w") as f:
        f.write(json.dumps({"id": "one", "ev": events}) + "\n")
    try:
        rc, out, _, _ = tlc(os.path.join(SPEC, "Trace.tla"), os.path.join(SPEC, "Diagnose.cfg"), work,
                            env={"TRACES": path}, workers=1, timeout=60)
    except TookTooLong:
        return 0, "rejected; TLC took too long to tell where"
    at = [int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)]
    if rc != 0 and "is violated" not in out and not UNEVALUABLE.search(out):
        raise ToolError("TLC failed on a trace:\n" + out[-6000:])
    return (max(at) if at else 0), out
