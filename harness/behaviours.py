"""Behaviours that TLC generates from the specification, as scenarios for the real code.

histories   spec/mc/Histories.tla: every sequence of calls of a small alphabet, up to a length;
            the questions of the property take the place of "ask"
"""
import json, os, random, re
import engine, gen

HISTORIES_CFG = """SPECIFICATION HSpec
CONSTANTS
  Family = "%s"
  Length = %d
INVARIANTS Sound CountsAgree
PROPERTIES SnapshotsKept OneObject AddressingKeptH OnlyItsObject QueriesChangeNothing
CONSTRAINT Shown
CHECK_DEADLOCK FALSE
"""
SPACE = {"D": [[i, j] for i in range(3) for j in range(3)],
         "W": [[i, j, k] for i in range(2) for j in range(2) for k in range(2)],
         "C": [[1, 0, 1, 1], [1, 0, 0, 1], [0, 1, 0, 0], [1, 1, 1, 1], [0, 1, 1, 0], [1, 1, 0, 1], [0, 0, 0, 0], [0, 0, 1, 1]]}
FIELDS = ["returnConfidence", "returnActivationDegree", "returnClassesDegrees"]


def histories(family, length, work):
    """(calls, histories, distinct states)"""
    cfg = os.path.join(work, "Histories-%s-%d.cfg" % (family, length))
    with open(cfg, "w") as f:
        f.write(HISTORIES_CFG % (family, length))
    rc, out, g, d = engine.tlc(os.path.join(engine.SPEC, "mc", "Histories.tla"), cfg, work, timeout=1500, heap="10g")
    if rc != 0 or "No error has been found" not in out:
        raise engine.ToolError("Histories %s %d:\n%s" % (family, length, out[-4000:]))
    m = re.search(r'^"CALLS (.*)"$', out, re.M)
    calls = json.loads(json.loads('"' + m.group(1) + '"'))
    hs = sorted({tuple(int(v) for v in x.replace(" ", "").split(",")) for x in re.findall(r'<<\s*"HISTORY",\s*<<([\d,\s]*)>>\s*>>', out)})
    return calls, hs, d


def questions(prop, kind, o, g, n):
    """what the property asks about object o; n: a running number for names"""
    q = SPACE.get(kind)
    cl = {"op": kind + ".classify", "o": o, "xs": q}
    if kind == "D":
        cl["how"] = "one"
    st = {"op": kind + ".state", "o": o}
    if kind == "D":
        if prop == "C03":
            return [cl, {"op": "H.from", "o": "hh", "p": o, "k": "D"}, {"op": "H.data", "o": "hh"}]
        if prop == "C08":
            return [{"op": "D.mental", "o": o}]
        if prop in ("C07", "C06"):
            return [cl, {"op": "D.mental", "o": o}, {"op": "D.sizes", "o": o}, st]
        return [cl] if prop == "C01" else [cl, st]
    if kind == "W":
        if prop == "C08":
            return [{"op": "W.mental", "o": o}]
        if prop in ("C04", "C05"):
            return [cl]
        if prop == "C06":
            ops = [cl, {"op": "W.mental", "o": o}, {"op": "getsizeof", "o": o}, {"op": "save", "o": o, "s": "q%d" % n, "mode": "json"},
                   {"op": "save", "o": o, "s": "qc%d" % n, "mode": "config"}, st]
            g.r.shuffle(ops)
            return ops
        return [cl, {"op": "W.mental", "o": o}, st] if prop in ("C07", "C22") else [cl, st]
    if kind == "C":
        un = {"op": "C.classifyuns", "o": o, "xs": q}
        if prop == "C08":
            return [{"op": "C.mentals", "o": o}, {"op": "C.mental", "o": o, "y": g.one("a", "b", "nobody")}]
        if prop == "C14":
            return [cl]
        if prop == "C13":
            return [un, st]
        if prop in ("C11", "C12"):
            return [st]
        if prop == "C06":
            ops = [cl, un, {"op": "C.mentals", "o": o}, {"op": "C.mental", "o": o, "y": "nobody"}, {"op": "getsizeof", "o": o},
                   {"op": "save", "o": o, "s": "q%d" % n, "mode": "json"}, {"op": "save", "o": o, "s": "qc%d" % n, "mode": "config"}, st]
            g.r.shuffle(ops)
            return ops
        return [cl, un, st]
    if kind == "B":
        return [{"op": "B.all", "o": o}, {"op": "B.size", "o": o}, {"op": "B.get", "o": o, "i": g.int(-1, 9)},
                {"op": "B.fromdata", "o": "bb", "p": o}, {"op": "B.all", "o": "bb"}]
    if kind == "S":
        return gen.show_set(o, 5)
    if kind == "H":
        return [{"op": "H.data", "o": o}, {"op": "H.get", "o": o, "r": g.int(0, 4), "a": g.int(0, 5)}, {"op": "H.dataram", "o": o, "r": g.int(0, 3)},
                {"op": "H.ram", "o": o, "r": g.int(0, 4)}, {"op": "H.fromdata", "o": "hb", "p": o}, {"op": "H.compare", "o": o, "p": "hb"}]
    raise KeyError(kind)


def scenario(prop, family, calls, h, g, sid):
    kind = family[0]
    segs = [[]]
    names = 0
    live = set()
    for c in h:
        op = dict(calls[c - 1])
        names += 1
        t = op["op"]
        if t == "ask":
            segs[-1] += questions(prop, kind, op["o"], g, names)
            continue
        if t == "reload":
            save = {"op": "save", "o": op["o"], "s": "r%d" % names, "mode": "json", "how": names % 3}
            load = {"op": "load", "o": op["o"], "s": "r%d" % names, "k": op["k"]}
            if prop == "C23":
                segs[-1].append(save)
                segs.append([load])
            else:
                segs[-1] += [save, load]
            continue
        if t == "save" and prop == "C10" and op["mode"] == "json":
            op.update(mode="file", prefix="p")
        if t == "S.add" and not op["x"]:
            op["x"] = []
        if t.endswith(".new") and prop == "C05":
            op["opt"] = dict(op["opt"])
            for f in FIELDS:
                if g.maybe(0.7):
                    op["opt"][f] = True
        segs[-1].append(op)
        if t == "S.save" and prop == "C23":
            segs.append([{"op": "S.load", "o": op["o"], "s": op["s"], "named": True}])
        if t in ("copy", "load") or t.endswith(".new") or t == "H.from":
            live.add(op["o"])
        if t == "del":
            live.discard(op["o"])
    for o in sorted(live):
        if o in ("m", "k"):
            segs[-1] += questions(prop, kind, o, g, names + 1)
    cpp = any(x["op"] in engine.CPP_ONLY for s in segs for x in s)
    if prop == "C23":
        if cpp:
            return None
        return {"id": sid, "segs": [{"impl": "AB"[i % 2], "ops": s} for i, s in enumerate(segs)] + ([] if len(segs) > 1 else [{"impl": "B", "ops": []}]),
                "files": False}
    impl = "py" if prop == "C05" else "cpp" if cpp else "*"
    return {"id": sid, "segs": [{"impl": impl, "ops": s} for s in segs], "files": prop in ("C06", "C10")}


def scenarios(prop, arg, seed, work):
    family, length, limit = arg
    calls, hs, d = histories(family, length, work)
    total = len(hs)
    g = gen.G(seed, "histories-%s-%s" % (prop, family))
    if prop == "C23":
        cut = {i + 1 for i, c in enumerate(calls) if c["op"] in ("reload", "S.save")}
        hs = [h for h in hs if cut & set(h)]
    if len(hs) > limit:
        hs = [hs[i] for i in sorted(g.r.sample(range(len(hs)), limit))]
    scs = [s for s in (scenario(prop, family, calls, h, g, "h%d" % i) for i, h in enumerate(hs)) if s]
    return scs, {"family": family, "length": length, "histories": total, "executed": len(scs), "distinct": d}


# ------------------------------------------------------------------------------------------
VOTES_CFG = """SPECIFICATION Spec
CONSTANTS
  NLabels = %d
  NRams = %d
  MaxVote = %d
  Confs = {1, 2, 3}
INVARIANT Decided
CONSTRAINT Shown
CHECK_DEADLOCK FALSE
"""


def tables(nl, nr, mv, work):
    cfg = os.path.join(work, "Votes.cfg")
    with open(cfg, "w") as f:
        f.write(VOTES_CFG % (nl, nr, mv))
    rc, out, g, d = engine.tlc(os.path.join(engine.SPEC, "mc", "Votes.tla"), cfg, work, timeout=1500, heap="10g")
    if rc != 0 or "No error has been found" not in out:
        raise engine.ToolError("Votes:\n%s" % out[-4000:])
    ts = set()
    for m in re.finditer(r'<<\s*"TABLE",\s*<<([<>\d,\s]*)>>\s*>>', out):
        v = [int(x) for x in re.findall(r"\d+", m.group(1))]
        ts.add(tuple(tuple(v[i * nr:(i + 1) * nr]) for i in range(nl)))
    ts = sorted(ts)
    if len(ts) != (mv + 1) ** (nl * nr):
        raise engine.ToolError("%d tables" % len(ts))
    return ts, d


def votes(prop, arg, seed, work):
    """Wisards that hold the tables: RAM r reads position r; the table number k of a model is
    what the model answers for the input (k, ..., k)."""
    nl, nr, mv, limit = arg
    ts, d = tables(nl, nr, mv, work)
    total = len(ts)
    g = gen.G(seed, "votes-%s-%s" % (prop, arg))
    g.r.shuffle(ts)
    ts = ts[:limit]
    scs = []
    for conf in range(1, min(3, nr) + 1):
        for lo in range(0, len(ts), 48):
            part = ts[lo:lo + 48]
            base = len(part) + 1
            labels = sorted(g.labels(nl), key=lambda s: s.encode())
            opt = {"base": base, "mapping": {y: [[r] for r in range(nr)] for y in labels}, "confidence": conf}
            if conf == 1 and g.maybe(0.3) or g.maybe(0.05):
                opt["bleachingActivated"] = False
            if g.maybe(0.2):
                opt["ignoreZero"] = True
            # confidence must not exceed the number of RAMs of the default addressing
            n = max(nr, 2 * conf, 2)
            if prop == "C05":
                for f in FIELDS:
                    if g.maybe(0.8):
                        opt[f] = True
            ops = [{"op": "W.new", "o": "m", "a": 2, "opt": opt}]
            xs, ys = [], []
            for i, y in enumerate(labels):
                for k, t in enumerate(part):
                    for v in range(max(t[i])):
                        xs.append([k + 1 if r < nr and t[i][r] > v else 0 for r in range(n)])
                        ys.append(y)
                # a class exists even if no RAM votes for it
                xs.append([0] * n)
                ys.append(y)
            order = list(range(len(xs)))
            g.r.shuffle(order)
            ops.append({"op": "W.train", "o": "m", "xs": [xs[i] for i in order], "ys": [ys[i] for i in order]})
            ops.append({"op": "W.classify", "o": "m", "xs": [[k + 1] * n for k in range(len(part))]})
            scs.append({"id": "v%d-%d" % (conf, lo), "segs": [{"impl": "py" if prop == "C05" else "*", "ops": ops}], "files": False})
    return scs, {"votes": [nl, nr, mv], "tables": total, "executed": len(ts), "distinct": d}


KINDS = {"histories": scenarios, "votes": votes}
