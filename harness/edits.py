"""Changes snapshots and writes files, as somebody without the library would.

run(ops, scratch, snaps) executes the operations of an "edit" segment:
  {"op": "edit", "s": snapshot, "d": new snapshot, "k": kind, "edits": [...], "text": {...}, "indent": n}
      an edit: {"at": path, ...}, a path element is a key, a position, or ["*", i] - the i-th
      element of whatever is there (modulo their number); an edit of something that is not
      there is left out.  What it does:
        "set": value   "del": 1   "cut": p   "ins": [p, text]   "over": [p, text]   "lost": 1
      (p: a position, per mille of the length; contents in a data file are changed in a copy
      of the file with a new name; lost: the name of a file that does not exist)
      text: "cut"/"ins"/"over" on the JSON text, or "set": text
  {"op": "S.write"|"H.write", "s": name, "t": text}     a data set file, a file of RAM contents
"""
import json, os


class NoSnapshot(Exception):
    """the library did not write what the scenario is about to change"""


def step(v, e):
    if isinstance(e, list):
        keys = sorted(v) if isinstance(v, dict) else list(range(len(v))) if isinstance(v, list) else []
        return keys[e[1] % len(keys)] if keys else None
    if isinstance(v, dict):
        return e if e in v else None
    return e if isinstance(v, list) and isinstance(e, int) and e < len(v) else None


def changed(t, e):
    """a text (or bytes) with the change e"""
    at = lambda p: len(t) * p // 1000
    conv = (lambda s: s.encode()) if isinstance(t, bytes) else (lambda s: s)
    if "set" in e:
        return conv(e["set"])
    if "cut" in e:
        return t[:at(e["cut"])]
    if "ins" in e:
        k = at(e["ins"][0])
        return t[:k] + conv(e["ins"][1]) + t[k:]
    k, s = at(e["over"][0]), conv(e["over"][1])
    return t[:k] + s + t[k + len(s):]


def edit(op, scratch, snaps):
    try:
        with open(os.path.join(snaps, op["s"] + ".txt"), encoding="utf-8", newline="") as f:
            doc = json.load(f)
    except (OSError, ValueError):
        raise NoSnapshot()
    for n, e in enumerate(op.get("edits", [])):
        where, key = None, None
        v = doc
        for p in e["at"]:
            k = step(v, p)
            if k is None:
                if p == e["at"][-1] and isinstance(v, dict) and isinstance(p, str):
                    where, key = v, p
                else:
                    where = None
                break
            where, key, v = v, k, v[k]
        if where is None:
            continue
        if "del" in e:
            if isinstance(where, list) and len(where) == 1:
                continue                         # a discriminator without RAMs: not specified
            if isinstance(where, list) or key in where:
                del where[key]
        elif "lost" in e:
            where[key] = "lost.wdpkg"
        elif "set" in e:
            where[key] = e["set"]
        elif isinstance(v, str) and (isinstance(where, list) or key in where):
            if v.endswith(".wdpkg"):
                if not os.path.isfile(os.path.join(scratch, v)):
                    continue
                with open(os.path.join(scratch, v), "rb") as f:
                    c = f.read()
                name = "%s-%d.wdpkg" % (op["d"], n)
                with open(os.path.join(scratch, name), "wb") as f:
                    f.write(changed(c, e))
                where[key] = name
            else:
                where[key] = changed(v, e)
    text = json.dumps(doc, ensure_ascii=False, indent=op.get("indent"))
    if op.get("text"):
        text = changed(text, op["text"])
    with open(os.path.join(snaps, op["d"] + ".txt"), "w", encoding="utf-8", newline="") as f:
        f.write(text)
    files = {}
    for name in os.listdir(scratch):
        if name.endswith(".wdpkg"):
            with open(os.path.join(scratch, name), "rb") as f:
                files[name] = list(f.read())
    return {"text": text, "files": files}


def run(ops, scratch, snaps):
    ev = []
    for i, op in enumerate(ops):
        if op["op"] == "edit":
            try:
                r = edit(op, scratch, snaps)
            except NoSnapshot:
                return {"ev": ev, "end": "no snapshot to edit"}
        else:
            t = op["t"].encode()
            with open(os.path.join(scratch, op["s"] + (".wpkds" if op["op"] == "S.write" else ".wdpkg")), "wb") as f:
                f.write(t)
            r = list(t)
        ev.append({"i": i, "ok": True, "r": r})
    return {"ev": ev, "end": "ok"}
