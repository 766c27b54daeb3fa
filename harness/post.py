"""Turns a scenario and the raw log of its execution into the trace that TLC validates (see
spec/Trace.tla).  Independent of the library: snapshots are decoded here.  Nothing here knows
what the right answers are; a result that does not even have the documented shape becomes the
event "malformed", an execution that died becomes the event "crash" - no action of the
specification consumes either."""
import base64, json, math, struct, zlib
from fractions import Fraction

SC = 3000
INT_MAX = 2 ** 31 - 1


class Malformed(Exception):
    pass


# a recorded value that is not what the call returns
UNEXPECTED = (Malformed, TypeError, ValueError, KeyError, IndexError, AttributeError, OverflowError)


def need(c, why):
    if not c:
        raise Malformed(why)


def I(v):
    need(isinstance(v, int) and not isinstance(v, bool), "not an integer: %r" % (v,))
    need(-INT_MAX <= v <= INT_MAX, "integer out of range: %r" % (v,))
    return v


def ints(v):
    need(isinstance(v, list), "not a list: %.80r" % (v,))
    return [I(x) for x in v]


def bits(v):
    need(isinstance(v, bool), "not a boolean: %r" % (v,))
    return v


def data_files(v):
    """the names of data files in the JSON of a snapshot"""
    if isinstance(v, str):
        return [v] if v.endswith(".wdpkg") else []
    return [n for x in (v.values() if isinstance(v, dict) else v if isinstance(v, list) else []) for n in data_files(x)]


def text(v):
    need(isinstance(v, str), "not a text: %.80r" % (v,))
    return list(v.encode("utf-8", "surrogatepass"))


def bytelist(v):
    """a text that the C++ driver records as a list of bytes, the Python driver as a string"""
    if isinstance(v, str):
        return text(v)
    v = ints(v)
    need(all(0 <= x < 256 for x in v), "not bytes")
    return v


def micro(v):
    need(isinstance(v, (int, float)) and not isinstance(v, bool), "not a number: %r" % (v,))
    need(math.isfinite(v) and -1 <= v <= 2, "number out of range: %r" % (v,))
    return round(v * 10 ** 6)


def parse(t):
    try:
        return json.loads(t)
    except (ValueError, TypeError):
        raise Malformed("not JSON: %.80r" % (t,))


def has(d, *keys):
    need(isinstance(d, dict), "not an object: %.80r" % (d,))
    for k in keys:
        need(k in d, "no %r in %.120r" % (k, d))
    return d


def mapping(m):
    need(isinstance(m, list), "mapping %.80r" % (m,))
    return [ints(r) for r in m]


def cells(part):
    """[(address, value)] of one RAM"""
    need(isinstance(part, str), "RAM data %.80r" % (part,))
    try:
        raw = base64.b64decode(part, validate=True)
    except Exception:
        raise Malformed("not Base64: %.80r" % (part,))
    need(len(raw) % 12 == 0, "RAM data of %d bytes" % len(raw))
    out = []
    for i in range(0, len(raw), 12):
        a, v = struct.unpack("<Qi", raw[i:i + 12])
        out.append((a, I(v)))
    return out


def digits(a, base, k):
    d = []
    for _ in range(k):
        d.append(a % base)
        a //= base
    if a:
        d += limbs(a)                     # more digits than the RAM has positions
    return d


def limbs(a):
    return [(a >> s) & 0xFFFF for s in (0, 16, 32, 48)]


def dstate(j, base=None, iz=None, data=None):
    has(j, "entrySize", "mapping", "count", "data")
    m = mapping(j["mapping"])
    if base is None:
        has(j, "base", "ignoreZero")
        base, iz = j["base"], j["ignoreZero"]
    need(I(base) >= 2, "base")
    need(isinstance(j["data"], str), "data")
    parts = j["data"].split(".") if m or j["data"] else []
    need(len(parts) == len(m), "%d RAMs in the data, %d in the mapping" % (len(parts), len(m)))
    return {"n": I(j["entrySize"]), "base": base, "iz": bits(iz), "cnt": I(j["count"]), "map": m,
            "cells": [[[digits(a, base, len(m[r])), v] for a, v in cells(p) if v != 0]
                      for r, p in enumerate(parts)]}


def handle(t):
    """RAM data as a RAMDataHandle has it"""
    need(isinstance(t, str), "data %.80r" % (t,))
    return [[[limbs(a), v] for a, v in cells(p)] for p in t.split(".")]


def fields_of(j):
    f = []
    for name, key in (("act", "returnActivationDegree"), ("conf", "returnConfidence"),
                      ("deg", "returnClassesDegrees")):
        if bits(j.get(key, False)):
            f.append(name)
    return f


def common_cfg(j):
    has(j, "addressSize", "bleachingActivated", "ignoreZero", "completeAddressing", "base", "confidence")
    return {"a": I(j["addressSize"]), "bleach": bits(j["bleachingActivated"]), "iz": bits(j["ignoreZero"]),
            "complete": bits(j["completeAddressing"]), "base": I(j["base"]), "conf": I(j["confidence"]),
            "fields": fields_of(j)}


def obj(v):
    """an empty object may be null or missing"""
    need(v is None or isinstance(v, dict), "not an object: %.80r" % (v,))
    return v or {}


def wstate(t):
    j = parse(t)
    cfg = common_cfg(j)
    has(j, "mapping", "indexes")
    cfg["map"] = [[text(k), mapping(m)] for k, m in obj(j["mapping"]).items()]
    cfg["idx"] = ints(j["indexes"] or [])
    return {"cfg": cfg, "cls": [[text(k), dstate(d, cfg["base"], cfg["iz"])]
                                for k, d in obj(j.get("classes")).items()]}


def cluster(j, cfg):
    has(j, "entrySize", "discriminators")
    need(isinstance(j["discriminators"], list), "discriminators")
    return {"n": I(j["entrySize"]), "ds": [dstate(d, cfg["base"], cfg["iz"]) for d in j["discriminators"]]}


def cstate(t):
    j = parse(t)
    cfg = common_cfg(j)
    has(j, "minScore", "threshold", "discriminatorsLimit")
    cfg.update(ms=micro(j["minScore"]), msden=1, th=I(j["threshold"]), lim=I(j["discriminatorsLimit"]))
    u = j.get("unsupervisedCluster")
    return {"cfg": cfg, "cl": [[text(k), cluster(c, cfg)] for k, c in obj(j.get("clusters")).items()],
            "uns": [] if u is None else [cluster(u, cfg)]}


# ------------------------------------------------------------------------------------------
# Snapshots that somebody else wrote: the fields and types they need to have

class BadShape(Exception):
    pass


def _get(j, key, kind, default=None):
    v = j.get(key)
    if v is None:
        if default is None:
            raise BadShape(key)
        return default
    good = {"int": isinstance(v, int) and not isinstance(v, bool) and abs(v) <= INT_MAX,
            "num": isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1000,
            "bool": isinstance(v, bool), "str": isinstance(v, str), "list": isinstance(v, list),
            "dict": isinstance(v, dict)}[kind]
    if not good:
        raise BadShape(key)
    return v


def _map(m):
    if not isinstance(m, list):
        raise BadShape("mapping")
    for r in m:
        if not isinstance(r, list) or any(not isinstance(v, int) or isinstance(v, bool) for v in r):
            raise BadShape("mapping")
    return m


def _disc(j, files, base=None, iz=None):
    if not isinstance(j, dict):
        raise BadShape("discriminator")
    if base is None:
        base, iz = _get(j, "base", "int"), _get(j, "ignoreZero", "bool")
    data = _get(j, "data", "str", "")
    inf = data.endswith(".wdpkg")
    there = not inf or data in files
    return {"n": _get(j, "entrySize", "int"), "base": base, "iz": iz, "cnt": _get(j, "count", "int", 0),
            "map": _map(_get(j, "mapping", "list")), "inf": inf, "there": there,
            "data": (files[data] if inf else text(data)) if there else []}


def _cfg(j):
    f = [n for n, k in (("act", "returnActivationDegree"), ("conf", "returnConfidence"), ("deg", "returnClassesDegrees"))
         if _get(j, k, "bool", False)]
    for k in ("verbose", "searchBestConfidence"):
        _get(j, k, "bool", False)
    return {"a": _get(j, "addressSize", "int"), "bleach": _get(j, "bleachingActivated", "bool", True),
            "iz": _get(j, "ignoreZero", "bool", False), "complete": _get(j, "completeAddressing", "bool", True),
            "base": _get(j, "base", "int", 2), "conf": _get(j, "confidence", "int", 1), "fields": f}


def _cluster(j, files, c):
    if not isinstance(j, dict):
        raise BadShape("cluster")
    return {"n": _get(j, "entrySize", "int"), "ds": [_disc(d, files, c["base"], c["iz"]) for d in _get(j, "discriminators", "list")]}


def _no_constant(c):
    raise ValueError(c)


def snapshot_text(k, t, files):
    """(does the text have the shape of a snapshot of this kind, what it says)"""
    try:
        try:
            j = json.loads(t, parse_constant=_no_constant)
        except ValueError:
            raise BadShape("JSON")
        if not isinstance(j, dict):
            raise BadShape("object")
        if k == "D":
            return True, _disc(j, files)
        c = _cfg(j)
        if k == "W":
            ms = _get(j, "mapping", "dict", {})
            c["map"] = [[text(y), _map(m)] for y, m in ms.items()]
            c["idx"] = _map([_get(j, "indexes", "list", [])])[0]
            return True, {"cfg": c, "cls": [[text(y), _disc(d, files, c["base"], c["iz"])]
                                            for y, d in _get(j, "classes", "dict", {}).items()]}
        v = _get(j, "minScore", "num")
        q = Fraction(v).limit_denominator(100)
        if abs(q - Fraction(v)) > Fraction(1, 10 ** 6):
            raise RuntimeError("minScore %r" % v)
        c.update(ms=q.numerator, msden=q.denominator, th=_get(j, "threshold", "int"), lim=_get(j, "discriminatorsLimit", "int"))
        u = j.get("unsupervisedCluster")
        return True, {"cfg": c, "cl": [[text(y), _cluster(d, files, c)] for y, d in _get(j, "clusters", "dict", {}).items()],
                      "uns": [] if u is None else [_cluster(u, files, c)]}
    except BadShape:
        return False, {}


def d_opt(o):
    return {"iz": o.get("ignoreZero", False), "complete": o.get("completeAddressing", True),
            "base": o.get("base", 2), "idx": o.get("indexes", []), "map": o.get("mapping", [])}


def m_cfg(op):
    o = op.get("opt", {})
    return {"a": op["a"], "bleach": o.get("bleachingActivated", True), "iz": o.get("ignoreZero", False),
            "complete": o.get("completeAddressing", True), "base": o.get("base", 2),
            "conf": o.get("confidence", 1), "fields": fields_of(o)}


def w_cfg(op):
    o = op.get("opt", {})
    c = m_cfg(op)
    c["map"] = [[text(k), m] for k, m in o.get("mapping", {}).items()]
    c["idx"] = o.get("indexes", [])
    return c


def groups(idx, a):
    return [idx[i * a:(i + 1) * a] for i in range(len(idx) // a)] if a >= 1 else []


def outcomes(r, py):
    need(isinstance(r, list), "classification %.80r" % (r,))
    out = []
    for x in r:
        if isinstance(x, str):
            out.append({"lab": text(x)})
            continue
        has(x, "class")
        e = {"lab": text(x["class"])}
        for k, v in x.items():
            if k == "activationDegree":
                e["act"] = micro(v)
            elif k == "confidence":
                e["conf"] = micro(v)
            elif k == "classesDegrees":
                need(isinstance(v, list), "classesDegrees")
                e["deg"] = []
                for d in v:
                    has(d, "class", "degree")
                    need(len(d) == 2, "degree %r" % (d,))
                    e["deg"].append([text(d["class"]), micro(d["degree"])])
            else:
                need(k == "class", "field %r" % (k,))
        out.append(e)
    return out


def digest(t):
    need(isinstance(t, str), "not a text: %.80r" % (t,))
    return zlib.crc32(t.encode("utf-8", "surrogatepass")) >> 1


def look(op, rec):
    """what the object says about itself as a whole: [[about, digest]]"""
    t, r, out = op["op"], rec.get("r"), []
    if rec["ok"]:
        if t in ("D.state", "W.state", "C.state", "U.state"):
            out.append(["json", digest(r)])
        elif t == "R.state":
            out.append(["json", digest(json.dumps(r))])
        elif t == "save" and op["mode"] != "file":
            out.append([op["mode"], digest(r)])
        elif t in ("B.data", "H.data"):
            out.append(["data", digest(r)])
        elif t == "getsizeof":
            need(isinstance(r, int), "size")
            out.append(["size", r & INT_MAX])
        elif t == "K.transform":
            out.append(["of %d" % digest(json.dumps([op["seq"], op.get("unit")])), digest(json.dumps(r))])
    if isinstance(rec.get("picked"), str):
        out.append(["json", digest(rec["picked"])])
    return out


def told(c):
    """how many examples the discriminators of a cluster say they learned; None: they do not say"""
    n = [d.get("count") for d in c["discriminators"] if isinstance(d, dict)]
    return n if all(type(v) is int and 0 <= v < 2 ** 31 for v in n) else None


class Tracer:
    """One scenario, as executed by one implementation per segment."""

    def __init__(self):
        self.ev = []
        self.kinds = {}        # live objects
        self.wcfg = {}         # models whose addressings are all configured: id -> op of W.new
        self.saved = {}        # snapshot -> id of the W.new that configured it

    def segment(self, ops, log, py):
        """ops: the operations of the segment, log: the driver's record"""
        for o in list(self.kinds):
            self.ev.append({"e": "del", "o": o, "ok": True, "fch": 0, "look": []})
        self.kinds.clear()
        for k in range(len(ops)):
            if k >= len(log["ev"]):
                self.ev.append({"e": "crash", "how": log["end"], "op": ops[k]["op"], "ok": False, "fch": 0, "look": []})
                return False
            rec = log["ev"][k]
            op = ops[k]
            try:
                e = self.event(op, rec, py)
            except UNEXPECTED as x:
                e = {"e": "malformed", "op": op["op"], "why": str(x)}
            try:
                e["look"] = look(op, rec)
            except UNEXPECTED as x:
                e = {"e": "malformed", "op": op["op"], "why": str(x), "look": []}
            e.setdefault("e", op["op"])
            e["ok"] = rec["ok"]
            e["fch"] = rec.get("fch", 0)
            self.ev.append(e)
            if e["e"] == "malformed":
                return False
        if log["end"] != "ok":
            self.ev.append({"e": "crash", "how": log["end"], "op": "end", "ok": False, "fch": 0, "look": []})
            return False
        return True

    def wpicked(self, op, rec, pairs):
        """label -> addressing after a training call; pairs: the examples as (x, label)"""
        if op.get("p"):
            need(isinstance(rec.get("picked"), str), "no snapshot after training")
            j = parse(rec["picked"])
            return [[text(k), mapping(has(d, "mapping")["mapping"])] for k, d in obj(j.get("classes")).items()]
        new = self.wcfg.get(op["o"], {"a": 0})
        o = new.get("opt", {})
        out = {}
        for x, y in pairs:
            if y in o.get("mapping", {}):
                out[y] = o["mapping"][y]
            elif o.get("indexes"):
                out[y] = groups(o["indexes"], new["a"])
        return [[text(k), m] for k, m in out.items()]

    def inner(self, op, rec):
        """the classes below the public ones (C++)"""
        t, ok, r, o = op["op"], rec["ok"], rec.get("r"), op.get("o")
        if t == "R.new":
            return {"o": o, "n": op["n"], "a": op["a"], "iz": op["iz"], "base": op["base"], "picked": ints(r) if ok else []}
        if t == "R.idx":
            return {"o": o, "n": op["n"], "idx": op["idx"], "iz": op["iz"], "base": op["base"], "picked": ints(r) if ok else []}
        if t in ("R.again", "U.again"):
            return {"o": o, "p": op["p"]}
        if t in ("R.train", "R.untrain"):
            return {"o": o, "x": op["x"]}
        if t == "R.vote":
            return {"o": o, "xs": op["xs"], "v": ints(r) if ok else []}
        if t == "R.mental":
            return {"o": o, "v": mapping(r) if ok else []}
        if t == "R.size":
            return {"o": o, "v": I(r) if ok else 0}
        if t == "R.state":
            s = {}
            if ok:
                has(r, "ignoreZero", "base", "mapping", "data")
                m = ints(r["mapping"])
                s = {"base": I(r["base"]), "iz": bits(r["ignoreZero"]), "map": m,
                     "cells": [[digits(a, r["base"], len(m)), v] for a, v in cells(r["data"]) if v != 0]}
            return {"o": o, "s": s}
        if t == "U.new":
            return {"o": o, "n": op["n"], "cfg": {k: op[k] for k in ("a", "ms", "msden", "th", "lim", "iz", "complete", "base")}}
        if t == "U.train":
            need(isinstance(rec.get("picked"), str), "no text after training")
            ds = has(parse(rec["picked"]), "discriminators")["discriminators"]
            return {"o": o, "x": op["x"], "picked": [mapping(has(d, "mapping")["mapping"]) for d in ds or []]}
        if t == "U.classify":
            return {"o": o, "xs": op["xs"], "v": [mapping(v) for v in r] if ok else []}
        if t == "U.mentals":
            return {"o": o, "v": mapping(r) if ok else []}
        if t == "U.sizes":
            return {"o": o, "v": ints(r) if ok else []}
        if t == "U.score":
            return {"o": o, "votes": op["votes"], "v": micro(r) if ok else 0}
        if t == "U.state":
            s = {}
            if ok:
                j = has(parse(r), "entrySize", "discriminators")
                s = cluster(dict(j, discriminators=j["discriminators"] or []), {"base": op["base"], "iz": op["iz"]})
            return {"o": o, "s": s}
        if t == "V.scores":
            v = []
            if ok:
                need(isinstance(r, list), "scores")
                for p in r:
                    need(isinstance(p, list) and len(p) == 2, "scores")
                    v.append([text(p[0]), I(p[1])])
            return {"votes": [[text(y), vs] for y, vs in op["votes"]], "bleach": op["bleach"], "conf": op["conf"], "v": v}
        if t == "V.winner":
            return {"scores": [[text(y), s] for y, s in op["scores"]], "v": bytelist(r) if ok else []}
        if t == "V.lead":
            return {"scores": [[text(y), s] for y, s in op["scores"]], "v": micro(r) if ok else 0}
        raise RuntimeError("no event for " + t)

    def event(self, op, rec, py):
        t, ok = op["op"], rec["ok"]
        r = rec.get("r")
        o = op.get("o")
        if ok and t in ("R.new", "R.idx", "R.again", "U.new", "U.again", "D.bare", "D.new", "W.new", "C.new", "B.new", "B.bits", "B.fromdata", "S.new", "S.load",
                        "H.from", "H.empty", "H.fromdata", "H.fromram", "H.fromfile", "H.load", "H.read", "H.fromtext", "B.fromtext", "Y.new", "Y.from", "K.new",
                        "load", "copy"):
            self.kinds[o] = 1
        fam, _, m = t.partition(".")
        if fam in "RUV" and m:
            return self.inner(op, rec)
        if t == "D.bare":
            return {"o": o, "n": op["n"]}
        if t == "D.new":
            opt = d_opt(op.get("opt", {}))
            picked = []
            if ok:
                if op.get("p"):
                    need(isinstance(rec.get("picked"), str), "no snapshot after construction")
                    picked = mapping(has(parse(rec["picked"]), "mapping")["mapping"])
                else:
                    picked = opt["map"] or groups(opt["idx"], op["a"])
            return {"o": o, "a": op["a"], "n": op["n"], "opt": opt, "picked": picked}
        if t == "D.train":
            return {"o": o, "xs": op["xs"]}
        if t == "D.trainrep":
            return {"o": o, "x": op["x"], "times": op["times"]}
        if t in ("D.untrain", "D.overuntrain"):
            return {"o": o, "x": op["x"]}
        if t == "D.classify":
            return {"o": o, "xs": op["xs"], "v": [ints(v) for v in r] if ok and need(isinstance(r, list), "votes") is None else []}
        if t in ("D.mental", "D.sizes"):
            return {"o": o, "v": ints(r) if ok else []}
        if t == "D.state":
            return {"o": o, "s": dstate(parse(r)) if ok else {}}
        if t == "W.new":
            if ok:
                self.wcfg[o] = op
            return {"o": o, "cfg": w_cfg(op)}
        if t == "W.train":
            return {"o": o, "xs": op["xs"], "ys": [text(y) for y in op["ys"]],
                    "picked": self.wpicked(op, rec, list(zip(op["xs"], op["ys"])))}
        if t == "W.trainrep":
            return {"o": o, "x": op["x"], "y": text(op["y"]), "times": op["times"],
                    "picked": self.wpicked(op, rec, [(op["x"], op["y"])])}
        if t == "W.trainset":
            return {"o": o, "d": op["d"], "picked": self.wpicked(op, rec, op.get("pairs", []))}
        if t in ("W.untrain", "W.overuntrain"):
            return {"o": o, "xs": op["xs"], "ys": [text(y) for y in op["ys"]]}
        if t in ("W.classify", "C.classify"):
            return {"o": o, "xs": op["xs"], "py": py, "out": outcomes(r, py) if ok else []}
        if t == "W.classifyset":
            return {"o": o, "d": op["d"], "py": py, "out": outcomes(r, py) if ok else []}
        if t in ("W.mental", "C.mentals"):
            v = []
            if ok:
                need(isinstance(r, list), "mental images")
                for p in r:
                    need(isinstance(p, list) and len(p) == 2, "mental images")
                    v.append([text(p[0]), ints(p[1]) if fam == "W" else mapping(p[1])])
            return {"o": o, "v": v}
        if t == "W.state":
            return {"o": o, "s": wstate(r) if ok else {}}
        if t == "C.new":
            c = m_cfg(op)
            c.update(ms=op["ms"], msden=op["msden"], th=op["th"], lim=op["lim"])
            return {"o": o, "cfg": c}
        if t in ("C.train", "C.trainsemi"):
            need(isinstance(rec.get("picked"), str), "no snapshot after training")
            j = parse(rec["picked"])
            picked = [[text(k), [mapping(has(d, "mapping")["mapping"]) for d in has(c, "discriminators")["discriminators"]]]
                      for k, c in obj(j.get("clusters")).items()]
            said = [[text(k), told(c)] for k, c in obj(j.get("clusters")).items()]
            e = {"o": o, "xs": op["xs"], "picked": picked,
                 "said": [] if any(c is None for _, c in said) else [said]}
            if t == "C.train":
                e["ys"] = [text(y) for y in op["ys"]]
            else:
                e["given"] = [[i, text(y)] for i, y in op["given"]]
            return e
        if t == "C.trainuns":
            need(isinstance(rec.get("picked"), str), "no snapshot after training")
            u = parse(rec["picked"]).get("unsupervisedCluster")
            said = [] if u is None else told(u)
            return {"o": o, "xs": op["xs"], "said": [] if said is None else [said],
                    "pickeduns": [] if u is None else
                    [mapping(has(d, "mapping")["mapping"]) for d in has(u, "discriminators")["discriminators"]]}
        if t == "C.classifyuns":
            need(not ok or isinstance(r, list), "classification")
            return {"o": o, "xs": op["xs"], "v": [text(v) for v in r] if ok else []}
        if t == "C.mental":
            return {"o": o, "y": text(op["y"]), "v": mapping(r) if ok else []}
        if t == "C.state":
            return {"o": o, "s": cstate(r) if ok else {}}
        if t == "save":
            if ok and o in self.wcfg:
                self.saved[op["s"]] = self.wcfg[o]
            names = [text(n) for n in data_files(json.loads(r))] if ok and op["mode"] == "file" else []
            return {"o": o, "s": op["s"], "mode": op["mode"], "writable": op.get("writable", True),
                    "prefix": text(op.get("prefix", "")), "names": names}
        if t == "load":
            if ok and op["s"] in self.saved:
                self.wcfg[o] = self.saved[op["s"]]
            return {"o": o, "s": op["s"]}
        if t == "edit":
            shape, snap = snapshot_text(op["k"], r["text"], r["files"])
            return {"s": op["d"], "k": op["k"], "shape": shape, "t": snap}
        if t in ("S.write", "H.write"):
            return {"s": op["s"], "t": ints(r)}
        if t in ("B.fromtext", "H.fromtext"):
            return {"o": o, "t": text(op["t"])}
        if t == "H.read":
            return {"o": o, "s": op["s"]}
        if t == "rmfile":
            return {"s": op["s"]}
        if t == "copy":
            if ok and op["p"] in self.wcfg:
                self.wcfg[o] = self.wcfg[op["p"]]
            return {"o": o, "p": op["p"]}
        if t == "del":
            self.kinds.pop(o, None)
            return {"o": o}
        if t == "getsizeof":
            need(not ok or isinstance(r, int), "size")
            return {"o": o}
        if t == "B.bits":
            return {"o": o, "x": op["x"]}
        if t == "B.new":
            return {"o": o, "n": op["n"]}
        if t == "B.fromdata":
            return {"o": o, "p": op["p"]}
        if t == "B.set":
            return {"o": o, "i": op["i"], "v": op["v"]}
        if t == "B.get":
            return {"o": o, "i": op["i"], "v": I(r) if ok else 0}
        if t == "B.all":
            return {"o": o, "v": ints(r) if ok else []}
        if t in ("B.size", "S.size"):
            return {"o": o, "v": I(r) if ok else 0}
        if t == "B.data":
            need(not ok or isinstance(r, str), "data")
            return {"o": o}
        if t == "S.add":
            return {"o": o, "x": op["x"], "y": text(op["y"])}
        if t == "S.addbin":
            return {"o": o, "b": op["b"], "y": text(op["y"])}
        if t == "S.get":
            return {"o": o, "i": op["i"], "v": ints(r) if ok else []}
        if t == "S.label":
            return {"o": o, "i": op["i"], "v": bytelist(r) if ok else []}
        if t == "S.save":
            return {"o": o, "s": op["s"], "writable": op["writable"]}
        if t == "S.load":
            return {"o": o, "s": op["s"], "named": op["named"]}
        if t == "H.from":
            return {"o": o, "p": op["p"], "y": text(op.get("y", "")), "seen": handle(r) if ok else []}
        if t == "H.set":
            return {"o": o, "r": op["r"], "a": limbs(op["a"]), "v": op["v"]}
        if t == "H.get":
            return {"o": o, "r": op["r"], "a": limbs(op["a"]), "v": I(r) if ok else 0}
        if t == "H.ram":
            v = []
            if ok:
                need(isinstance(r, list), "RAM")
                for p in r:
                    need(isinstance(p, list) and len(p) == 2 and str(p[0]).isdigit(), "RAM")
                    v.append([limbs(int(p[0])), I(p[1])])
            return {"o": o, "r": op["r"], "v": v}
        if t == "H.dataram":
            return {"o": o, "r": op["r"], "v": [[limbs(a), v] for a, v in cells(r)] if ok else []}
        if t == "H.data":
            return {"o": o, "v": handle(r) if ok else []}
        if t == "H.compare":
            return {"o": o, "p": op["p"], "v": bits(r) if ok else False}
        if t == "H.empty":
            return {"o": o}
        if t == "H.fromdata":
            return {"o": o, "p": op["p"]}
        if t == "H.fromram":
            return {"o": o, "p": op["p"], "r": op["r"]}
        if t == "H.fromfile":
            return {"o": o, "s": op["s"], "seen": handle(r) if ok else []}
        if t in ("H.save", "H.load"):
            return {"o": o, "s": op["s"], "writable": op.get("writable", True)}
        if t == "Y.from":
            return {"o": o, "p": op["p"], "y": text(op.get("y", ""))}
        if t == "Y.new":
            return {"o": o, "img": op["img"]}
        if t == "Y.make":
            return {"o": o, "v": ints(r) if ok else []}
        if t == "Y.makemany":
            v = ints(r) if ok else []
            need(all(0 <= c <= op["n"] for c in v), "draws of other values than 0 and 1")
            return {"o": o, "n": op["n"], "v": v}
        if t == "K.new":
            opt = op.get("opt", {})
            act, den = opt.get("activationDegree", [7, 100])
            ks = []
            if ok and r is not None: # None: the hook does not build in this tree, the kernels are hidden
                need(isinstance(r, list) and r, "kernels")
                for k in r:
                    need(isinstance(k, list) and all(isinstance(v, (int, float)) and math.isfinite(v) and abs(v) <= 2
                                                     for v in k), "kernel")
                    ks.append([round(v * SC) for v in k])
            return {"o": o, "kernels": ks,
                    "cfg": {"dim": op["dim"], "n": op["n"], "bits": opt.get("bitsByKernel", 3), "act": act,
                            "actden": den, "dir": opt.get("useDirection", False)}}
        if t == "K.transform":
            return {"o": o, "seq": op["seq"], "v": ints(r) if ok else []}
        if t in ("E.encode", "E.decode"):
            return {"t": op["t"], "v": bytelist(r) if ok else []}
        if t in ("S.new",):
            return {"o": o}
        raise RuntimeError("no event for " + t)
