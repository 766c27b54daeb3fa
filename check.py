#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: (1) TLC explores the bounded models of the specification that state it
(spec/mc), (2) scenarios - random ones, and behaviours TLC generates from the specification -
are executed on the real code, built from /repo's working tree, and TLC validates every
recorded execution against the specification (spec/Trace.tla).  An execution the specification
does not allow is a violation: exit 1 and a VIOLATION line.  Exit 2: the check itself failed."""
import copy, json, os, random, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import behaviours, engine, gen, plan


def read_known(prop):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' (open) and 'fixed: ...'"""
    out = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop:
                out[w[2].partition("=")[2]] = w[3].strip() if len(w) > 3 else ""
    return out


def key_of(sc, at, ev):
    """identifies a rejection: the action and its outcome, in this scenario"""
    return "%s@%s" % (sc.get("key", sc["id"]), ev.get("e"))


def corrupt(ev, rnd):
    """one recorded result changed: the specification must not accept that any more"""
    ev = copy.deepcopy(ev)
    spots = []
    for i, e in enumerate(ev):
        if e["e"] in ("D.classify", "D.mental", "B.all", "S.get", "B.get", "H.get", "S.size", "B.size", "E.encode",
                      "C.mental") and e["ok"] and e["v"] != []:
            spots.append((i, "v"))
        elif e["e"] in ("W.classify", "C.classify", "W.classifyset") and e["out"]:
            spots.append((i, "out"))
        elif e["e"] in ("D.state", "W.state", "C.state") and e["ok"]:
            spots.append((i, "s"))
        elif e["e"] in ("D.train", "W.train", "C.train", "D.new", "load", "S.add", "B.set"):
            spots.append((i, "ok"))
    if not spots:
        return None
    i, what = rnd.choice(spots)

    def bump(v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return v + 1
        k = rnd.randrange(len(v)) if v else None
        if k is None:
            return [7]
        v[k] = bump(v[k])
        return v

    e = ev[i]
    if what == "ok":
        e["ok"] = not e["ok"]
    elif what == "out":
        o = rnd.choice(e["out"])
        o["lab"] = o["lab"] + [120]
    elif what == "s":
        s = e["s"]
        if e["e"] == "D.state":
            s["cnt"] += 1
        elif e["e"] == "W.state":
            s["cls"].append([[255, 255], {}]) if not s["cls"] else s["cls"][0][1].update(cnt=s["cls"][0][1]["cnt"] + 1)
        else:
            s["cfg"]["lim"] += 1
    else:
        e["v"] = bump(e["v"])
    return ev


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = plan.plan(prop, tier)
    work = tempfile.mkdtemp(prefix="wisard-%s-" % prop)
    cov = {"models": [], "actions": {}, "samples": []}
    known = read_known(prop)
    hit = {}
    violations = []
    ev_states = ev_trans = 0
    ntraces = nscen = 0
    try:
        built = engine.builder.build()
        impls = [k for k in ("py", "gen", "com") if built.get(k)]
        # 1. the models
        for m in P["models"]:
            t = time.time()
            rc, out, g, d = engine.tlc(os.path.join(engine.SPEC, "mc", m["module"] + ".tla"),
                                       os.path.join(engine.SPEC, "mc", m["cfg"] + ".cfg"), work,
                                       extra=tuple(m.get("extra", ())) + (("-seed", str(seed)) if "-simulate" in m.get("extra", ()) else ()),
                                       timeout=P["model_timeout"])
            if rc != 0 or ("No error has been found" not in out and "-simulate" not in m.get("extra", ())):
                raise engine.ToolError("the model %s does not hold:\n%s" % (m["cfg"], out[-5000:]))
            cov["models"].append({"model": m["cfg"], "generated": g, "distinct": d, "wall_s": round(time.time() - t, 1)})
            ev_states += d
            ev_trans += g
        # 2. conformance
        rnd = random.Random("corrupt-%d-%s" % (seed, prop))
        good = []
        for rd, (kind, arg) in enumerate(P["rounds"]):
            if time.time() - t0 > P["budget"] and rd > 1:
                cov["stopped_early"] = "after %d of %d rounds: time budget" % (rd, len(P["rounds"]))
                break
            if kind == "random":
                scs = list(gen.GENERATORS[prop](gen.G(seed * 1000 + rd, prop), arg))
            elif kind == "large":
                scs = list(gen.large(gen.G(seed * 1000 + rd, prop + "-large"), prop, arg))
            elif kind == "threads":
                scs = list(gen.threads(gen.G(seed * 1000 + rd, prop + "-threads"), arg))
            elif kind == "inner":
                scs = list(gen.inner(gen.G(seed * 1000 + rd, prop + "-inner"), prop, arg))
            else:
                scs, info = behaviours.KINDS[kind](prop, arg, seed, work)
                cov.setdefault("generated", []).append(info)
                ev_states += info["distinct"]
            for i, sc in enumerate(scs):
                sc["id"] = "%s-r%d-%d" % (prop, rd, i)
            traces = engine.record(built, scs, impls, work)
            bad, g, d = engine.validate([(t[0], t[3]) for t in traces], work)
            ev_states += d
            ev_trans += g
            ntraces += len(traces) - len(bad)
            if engine.UNDECIDED:
                cov["undecided"] = list(engine.UNDECIDED)
            nscen += len(scs)
            rejected = set(bad)
            for i, t in enumerate(traces):
                for e in t[3]:
                    k = e["e"] + ("" if e["ok"] else "!")
                    cov["actions"][k] = cov["actions"].get(k, 0) + 1
                if i not in rejected and len(good) < 400:
                    good.append(t)
            for i in bad:
                name, sc, asg, events = traces[i]
                at, out = engine.diagnose(events, work)
                e = events[at - 1] if 0 < at <= len(events) else {}
                k = key_of(sc, at, e)
                if k in known:
                    hit[k] = 1
                    continue
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, name.replace("/", "_")))
                with open(path, "w") as f:
                    json.dump({"property": prop, "trace": name, "assignment": asg, "rejected_event": at, "event": e,
                               "scenario": sc, "events": events, "tlc": out[-1500:]}, f, indent=1)
                violations.append((path, name, at, e))
                if len(violations) >= 3:
                    break
            if violations:
                break
        # 3. the binding: executions with one changed result are not accepted
        if not violations and good:
            cs = [c for c in (corrupt(t[3], rnd) for t in rnd.sample(good, min(len(good), P["corrupt"]))) if c]
            if cs:
                b, _, _ = validate_each(cs, work)
                cov["corrupted_traces"] = {"tried": len(cs), "rejected": len(b)}
        for t in good[:2]:
            cov["samples"].append({"trace": t[0], "events": t[3][:12]})
        if not cov["samples"]:
            cov["samples"].append({"violation": str(violations[:1])[:2000]})
        cov.update(states=ev_states, transitions=ev_trans, traces_validated_against_impl=ntraces - len(engine.UNDECIDED), scenarios=nscen,
                   implementations=impls, exhaustive=False)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                       "assumptions": plan.ASSUMPTIONS + P.get("assumptions", []),
                       "wall_s": round(time.time() - t0, 2), "violations": len(violations)}, f, indent=1)
            f.write("\n")
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
        for path, name, at, e in violations:
            print("rejected: %s, event %d: %s" % (name, at, json.dumps(e)[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if violations:
            return 1
        print("%s %s: held; %d scenarios, %d executions validated, %d states, %.1f s%s" %
              (prop, tier, nscen, ntraces - len(engine.UNDECIDED), ev_states, time.time() - t0,
               "; %d given up" % len(engine.UNDECIDED) if engine.UNDECIDED else ""))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def validate_each(cs, work):
    return engine.validate([("c%d" % i, c) for i, c in enumerate(cs)], work, stop=10 ** 6)


if __name__ == "__main__":
    try:
        rc = main()
    except engine.ToolError as x:
        print("CHECK FAILED: %s" % x)
        rc = 2
    except engine.builder.BuildError as x:
        print("BUILD FAILED: %s" % x)
        rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
