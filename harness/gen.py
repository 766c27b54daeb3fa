"""Scenario generators: per property, programs that use the library.  They choose inputs only;
what has to come out is decided by the specification (spec/Trace.tla).  Every random choice
comes from the seed."""
import random

LABELS = ["a", "b", "B", "aa", "c", "é", "日本", "10", "9", "x::1", "x", "x::10", "::", "a::b", " ", "~",
          "a\tb", "label with spaces", "\"q\"", "\\", "{}", ".", "Zebra", "zebra", "ß", "0", "::a", "a::", ":", "a\0b", "\0"]
FILE_LABELS = [l for l in LABELS if "/" not in l and "\0" not in l]


class G:
    def __init__(self, seed, name):
        self.r = random.Random("%s-%s" % (seed, name))
        self.k = 0

    # ---------------------------------------------------------------- basic choices
    def one(self, *xs):
        return self.r.choice(xs)

    def of(self, xs):
        return self.r.choice(xs)

    def maybe(self, p=0.5):
        return self.r.random() < p

    def int(self, a, b):
        return self.r.randint(a, b)

    def labels(self, k, pool=LABELS):
        return self.r.sample(pool, k)

    def base(self):
        return self.one(2, 2, 2, 2, 2, 3, 4, 5, 8, 10, 16, 17, 100, 256, self.one(127, 128, 129, 255, 257, 300, 1000))

    def value(self, base):
        return self.one(0, 0, 1, 1, base - 1, self.int(0, base - 1))

    def row(self, n, base):
        return [self.value(base) for _ in range(n)]

    def mutate(self, x, base, k=1):
        x = list(x)
        for _ in range(k):
            x[self.int(0, len(x) - 1)] = self.value(base)
        return x

    def pool(self, n, base, k):
        """k patterns, several of them similar to each other, the zero pattern now and then"""
        p = [self.row(n, base)]
        while len(p) < k:
            w = self.r.random()
            p.append([0] * n if w < 0.1 else self.row(n, base) if w < 0.4 else
                     self.mutate(self.of(p), base, self.int(1, max(1, n // 3))))
        return p

    def perm(self, n):
        p = list(range(n))
        self.r.shuffle(p)
        return p

    # ---------------------------------------------------------------- addressings
    def mapping(self, n, rams=None, amax=None):
        rams = rams or self.int(1, 5)
        amax = amax or min(n, 5)
        w = self.r.random()
        if w < 0.35:                                        # a partition into uneven parts
            p = self.perm(n)
            m = []
            while p and len(m) < rams:
                k = self.int(1, amax)
                m.append(p[:k])
                p = p[k:]
            return m
        if w < 0.7:                                         # overlapping
            return [self.r.sample(range(n), self.int(1, min(n, amax))) for _ in range(rams)]
        return [[self.int(0, n - 1) for _ in range(self.int(1, amax))] for _ in range(rams)]

    def disc_opt(self, n, base=None, kinds="mix"):
        """(address size, options) of an accepted discriminator over n positions"""
        base = base or self.base()
        o = {"base": base} if base != 2 or self.maybe(0.2) else {}
        if self.maybe(0.35):
            o["ignoreZero"] = self.maybe(0.8)
        if self.maybe(0.4):
            o["completeAddressing"] = self.maybe(0.4)
        a = self.int(2, max(2, min(n, 6 if base < 100 else 4)))
        k = self.of(kinds.split(",")) if kinds != "mix" else self.one("map", "idx", "rnd")
        if k == "map":
            o["mapping"] = self.mapping(n)
            if self.maybe(0.1):
                o["indexes"] = self.perm(n)                 # mapping goes first
        elif k == "idx":
            o["indexes"] = self.perm(n)
        return a, o, base

    # ---------------------------------------------------------------- models
    def wisard(self, o, n=None, labels=None, base=None, kinds="mix", fields=None, pool=LABELS, conf=True, complete=True):
        """(ops, description) of a Wisard"""
        n = n or self.int(2, 9)
        base = base or self.base()
        labels = labels or self.labels(self.int(1, 4), pool)
        a = self.int(2, max(2, min(n, 5)))
        opt = {}
        if base != 2:
            opt["base"] = base
        if self.maybe(0.3):
            opt["ignoreZero"] = self.maybe(0.8)
        if complete and self.maybe(0.3):
            opt["completeAddressing"] = self.maybe(0.3)
        if self.maybe(0.3):
            opt["bleachingActivated"] = self.maybe(0.3)
        if self.maybe(0.15):
            opt["verbose"] = True
        if self.maybe(0.1):
            opt["searchBestConfidence"] = self.maybe()
        k = self.of(kinds.split(",")) if kinds != "mix" else self.one("map", "idx", "rnd", "rnd", "some")
        if k == "map":
            if self.maybe():
                m = self.mapping(n)
                opt["mapping"] = {y: m for y in labels}
            else:
                opt["mapping"] = {y: self.mapping(n) for y in labels}
        elif k == "some":
            opt["mapping"] = {y: self.mapping(n) for y in labels if self.maybe()}
        elif k == "idx":
            opt["indexes"] = self.perm(n)
        rams = n // a + (1 if opt.get("completeAddressing", True) and n % a else 0)
        if conf and self.maybe(0.3):
            opt["confidence"] = self.int(1, rams)
        for f in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees"):
            if self.maybe(0.2) if fields is None else f in fields:
                opt[f] = True
        return ({"op": "W.new", "o": o, "a": a, "opt": opt},
                {"o": o, "n": n, "base": base, "labels": labels, "a": a, "opt": opt})

    def clus(self, o, n=None, labels=None, base=None, fields=None, pool=LABELS, lim=None):
        n = n or self.int(2, 8)
        base = base or self.one(2, 2, 2, 2, 3, 3, 4, 10, self.one(127, 128, 255, 256, 257, 300, 1000))
        labels = labels or self.labels(self.int(1, 3), pool)
        a = self.int(2, max(2, min(n, 4)))
        opt = {}
        if base != 2:
            opt["base"] = base
        if self.maybe(0.2):
            opt["ignoreZero"] = True
        if self.maybe(0.3):
            opt["completeAddressing"] = self.maybe(0.3)
        if self.maybe(0.25):
            opt["bleachingActivated"] = False
        if self.maybe(0.1):
            opt["verbose"] = True
        rams = n // a + (1 if opt.get("completeAddressing", True) and n % a else 0)
        if self.maybe(0.2):
            opt["confidence"] = self.int(1, rams)
        for f in ("returnConfidence", "returnActivationDegree", "returnClassesDegrees"):
            if self.maybe(0.15) if fields is None else f in fields:
                opt[f] = True
        ms, msden = self.one((0, 1), (1, 8), (1, 4), (1, 2), (3, 4), (1, 1), (1, 10), (3, 10), (7, 8), (2, 3))
        th = self.one(1, 2, 4, 8, 16, 64, 3, 10, 100, self.one(255, 256, 300, 65536, 70000))
        lim = lim or self.one(1, 2, 3, 4, 5)
        if self.maybe(0.08):
            lim = self.one(127, 255, 256, 300, 65536, 70000, 2 ** 31 - 1)
        if lim == 1 and self.maybe(0.05):
            th = 2000000
        return ({"op": "C.new", "o": o, "a": a, "ms": ms, "msden": msden, "th": th, "lim": lim, "opt": opt},
                {"o": o, "n": n, "base": base, "labels": labels, "a": a, "opt": opt})

    def scenario(self, ops, impl="*", files=False, sid=None):
        self.k += 1
        return {"id": sid or "s%d" % self.k, "segs": [{"impl": impl, "ops": ops}], "files": files}


def chunks(g, xs):
    """the list xs cut into random batches"""
    out = []
    i = 0
    while i < len(xs):
        k = g.int(1, max(1, len(xs) - i))
        out.append(xs[i:i + k])
        i += k
    return out


def probe(g, p, n, base, k=6):
    """inputs to ask for: learned ones, neighbours, the zero input, all of a small space"""
    if base ** n <= 32 and g.maybe(0.6):
        q = []
        for v in range(base ** n):
            x = []
            for _ in range(n):
                x.append(v % base)
                v //= base
            q.append(x)
        return q
    q = list(p[:3]) + [g.mutate(g.of(p), base) for _ in range(k - 3)] + ([[0] * n] if g.maybe(0.4) else [])
    g.r.shuffle(q)
    return q


def walk(g, kind, ask, steps=None, base=None, fields=None, load=True, mutators=None):
    """A history in which every kind of call that changes a model is mixed, few patterns and labels
    are used again and again, and ask(o, d) follows every call (stale answers show up)."""
    small = dict(n=g.int(2, 6), labels=g.labels(g.int(1, 3), FILE_LABELS), base=base, fields=fields)
    new, d = g.wisard("m", **small) if kind == "W" else g.clus("m", **small)
    d["p"] = p = g.pool(d["n"], d["base"], g.int(1, 3))
    ops = [new]
    have = []
    k = 0
    for _ in range(steps or g.int(3, 9)):
        w = g.r.random()
        if kind == "W":
            w = g.of(mutators) if mutators else "untrain" if w < 0.4 and have else "load" if w < 0.5 and load else \
                "rep" if w < 0.55 else "set" if w < 0.65 and d["base"] == 2 else "train"
        else:
            w = g.of(mutators) if mutators else "uns" if w < 0.25 else "semi" if w < 0.4 else "load" if w < 0.5 and load else "train"
        if w == "untrain" and not have:
            w = "train"
        n = g.one(1, 1, 2, 3)
        xs, ys = [g.of(p) for _ in range(n)], [g.of(d["labels"]) for _ in range(n)]
        if w == "untrain":
            out = [have.pop(g.int(0, len(have) - 1)) for _ in range(min(n, len(have)))]
            ops.append({"op": "W.untrain", "o": "m", "xs": [x for x, _ in out], "ys": [y for _, y in out], "how": g.one("one", "many")})
        elif w == "load":
            k += 1
            ops += [{"op": "save", "o": "m", "s": "wk%d" % k, "mode": "json", "how": g.int(0, 2)},
                    {"op": "load", "o": "m", "s": "wk%d" % k, "k": kind}]
        elif w == "rep":
            t = g.int(2, 300)
            ops.append({"op": "W.trainrep", "o": "m", "x": xs[0], "y": ys[0], "times": t})
            have += [(xs[0], ys[0])] * 3
        elif w == "set":
            k += 1
            ops += [{"op": "S.new", "o": "ws%d" % k}] + [{"op": "S.add", "o": "ws%d" % k, "x": x, "y": y} for x, y in zip(xs, ys)]
            ops.append({"op": "W.trainset", "o": "m", "d": "ws%d" % k, "pairs": [[x, y] for x, y in zip(xs, ys)]})
            have += list(zip(xs, ys))
        elif w == "uns":
            ops.append({"op": "C.trainuns", "o": "m", "xs": xs})
        elif w == "semi":
            ops.append({"op": "C.trainsemi", "o": "m", "xs": xs, "given": [[j, ys[j]] for j in range(g.int(1, n))]})
        else:
            ops.append({"op": kind + ".train", "o": "m", "xs": xs, "ys": ys})
            have += list(zip(xs, ys))
        if g.maybe(0.8):
            ops += ask("m", d)
    return ops + ask("m", d)


# ------------------------------------------------------------------------------------------
def c01(g, count):
    for _ in range(count):
        w = g.r.random()
        if w < 0.6:
            n = g.int(2, 10)
            a, opt, base = g.disc_opt(n)
            p = g.pool(n, base, g.int(1, 5))
            ops = [{"op": "D.new", "o": "d", "a": a, "n": n, "opt": opt}]
            for _ in range(g.int(1, 5)):
                xs = [g.of(p) for _ in range(g.int(1, 6))]
                if g.maybe(0.12):
                    ops.append({"op": "D.trainrep", "o": "d", "x": g.of(p), "times": g.one(2, 100, 254, 255, 256, 300, 32767, 32769, 65535, 65537)})
                how = g.one("one", "list", "bin") if base == 2 else g.one("one", "list")
                if g.maybe(0.25):
                    ops.append({"op": "D.classify", "o": "d", "xs": probe(g, p, n, base, 4), "how": "one"})
                ops.append({"op": "D.train", "o": "d", "xs": xs, "how": how})
            q = probe(g, p, n, base)
            ops.append({"op": "D.classify", "o": "d", "xs": q, "how": "one"})
            if base == 2:
                ops.append({"op": "D.classify", "o": "d", "xs": q[:8], "how": "bin"})
            # the same examples in another order and batching, through other types, in another base
            if g.maybe(0.4) and "indexes" in opt or "mapping" in opt:
                xs = [x for o in ops if o["op"] == "D.train" for x in o["xs"]]
                g.r.shuffle(xs)
                o2 = dict(opt, base=base + g.int(0, 5))
                ops.append({"op": "D.new", "o": "e", "a": a, "n": n, "opt": o2})
                for c in chunks(g, xs):
                    ops.append({"op": "D.train", "o": "e", "xs": c, "how": g.one("one", "list")})
                ops.append({"op": "D.classify", "o": "e", "xs": q, "how": "one"})
            yield g.scenario(ops)
        else:
            new, d = g.wisard("w", kinds="map,idx,rnd", fields=())
            n, base, labels = d["n"], d["base"], d["labels"]
            p = g.pool(n, base, g.int(2, 5))
            ops = [new]
            ds = 0
            for _ in range(g.int(1, 4)):
                xs = [g.of(p) for _ in range(g.int(1, 6))]
                ys = [g.of(labels) for _ in xs]
                if base == 2 and g.maybe(0.35) and "" not in ys:
                    ds += 1
                    ops.append({"op": "S.new", "o": "s%d" % ds})
                    for x, y in zip(xs, ys):
                        ops.append({"op": "S.add", "o": "s%d" % ds, "x": x, "y": y})
                    ops.append({"op": "W.trainset", "o": "w", "d": "s%d" % ds, "pairs": [[x, y] for x, y in zip(xs, ys)]})
                else:
                    ops.append({"op": "W.train", "o": "w", "xs": xs, "ys": ys})
            ops.append({"op": "W.state", "o": "w"})
            ops.append({"op": "W.classify", "o": "w", "xs": probe(g, p, n, base)})
            # every class through its own RAM contents
            for y in sorted({y for o in ops if o["op"] == "W.train" for y in o["ys"]}):
                if g.maybe(0.3):
                    ops.append({"op": "H.from", "o": "h", "p": "w", "y": y, "k": "W"})
                    ops.append({"op": "H.data", "o": "h"})
            yield g.scenario(ops)


def c02(g, count):
    for i in range(count):
        w = g.r.random()
        if w < 0.45:
            n = g.one(g.int(2, 12), g.int(2, 12), g.int(13, 70))
            a = g.int(2, n) if n < 13 else g.int(2, min(n, 20))
            kind = g.one("rnd", "rnd", "rnd", "idx", "map")
            opt = {}
            if g.maybe(0.5):
                opt["completeAddressing"] = g.maybe(0.4)
            if kind == "idx":
                opt["indexes"] = g.perm(n)
            if kind == "map":
                opt["mapping"] = g.mapping(n)
            if g.maybe(0.3):
                opt["ignoreZero"] = True
            b = 2
            if a <= 8 and g.maybe(0.3):
                b = g.int(2, 9)
                opt["base"] = b
            ops = []
            for k in range(g.int(1, 3)):
                o = "d%d" % k
                ops += [{"op": "D.new", "o": o, "a": a, "n": n, "opt": opt}, {"op": "D.state", "o": o}]
                p = g.pool(n, b, 3)
                ops += [{"op": "D.train", "o": o, "xs": p, "how": "list"},
                        {"op": "D.classify", "o": o, "xs": probe(g, p, n, b, 5), "how": "one"},
                        {"op": "D.state", "o": o}]
            yield g.scenario(ops)
        elif w < 0.85:
            new, d = g.wisard("w", n=g.int(2, 14), fields=())
            n, base, labels = d["n"], d["base"], d["labels"]
            p = g.pool(n, base, 4)
            ops = [new]
            for _ in range(g.int(2, 4)):
                k = g.int(1, 4)
                ops.append({"op": "W.train", "o": "w", "xs": [g.of(p) for _ in range(k)], "ys": [g.of(labels) for _ in range(k)]})
                ops.append({"op": "W.state", "o": "w"})
                if g.maybe(0.3):
                    ops.append({"op": "save", "o": "w", "s": "s", "mode": "json"})
                    ops.append({"op": "load", "o": "w", "s": "s", "k": "W"})
            ops.append({"op": "W.classify", "o": "w", "xs": p})
            yield g.scenario(ops)
        else:
            new, d = g.clus("c", n=g.int(2, 11), fields=())
            p = g.pool(d["n"], d["base"], 5)
            ops = [new]
            for _ in range(g.int(1, 3)):
                k = g.int(1, 4)
                ops.append({"op": "C.train", "o": "c", "xs": [g.of(p) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]})
                if g.maybe(0.4):
                    ops.append({"op": "C.trainuns", "o": "c", "xs": [g.of(p) for _ in range(k)]})
            ops.append({"op": "C.state", "o": "c"})
            yield g.scenario(ops)


WIDE = [2, 3, 4, 5, 6, 7, 10, 15, 16, 17, 255, 256, 257, 1000, 32767, 65535, 65536, 65537, 1 << 20, 1 << 30, (1 << 30) + 12345]


def widest(base):
    a = 0
    while base ** (a + 1) <= 2 ** 64:
        a += 1
    return a


def c03(g, count):
    for i in range(count):
        w = g.r.random()
        base = g.of(WIDE) if w < 0.8 else g.int(2, 1 << 30)
        top = widest(base)
        if w < 0.35:
            # the limit of the address space
            a = g.one(top, top + 1, top, top + 1, max(1, top - 1), top + 2)
            if g.maybe(0.4) and a >= 2:
                n = g.int(a, a + 6)
                ops = [{"op": "D.new", "o": "d", "a": a, "n": n, "opt": {"base": base, **({"indexes": g.perm(n)} if g.maybe() else {})}}]
            else:
                n = g.int(2, max(2, a + 2))
                m = g.mapping(n, amax=min(n, 3)) if base < 5000 else []
                m.insert(g.int(0, len(m)), [g.int(0, n - 1) for _ in range(a)])
                ops = [{"op": "D.new", "o": "d", "a": 2, "n": n, "opt": {"base": base, "mapping": m}}]
            if a <= top:
                x = [g.one(0, base - 1, g.int(0, base - 1)) for _ in range(n)]
                ops += [{"op": "D.train", "o": "d", "xs": [x], "how": "one"},
                        {"op": "D.classify", "o": "d", "xs": [x, [base - 1] * n, [0] * n], "how": "one"}]
            yield g.scenario(ops)
            continue
        # one pattern, and all that differ in one position
        a = g.one(top, top, max(1, top - 1), g.int(1, top))
        n = a + g.int(0, 3)
        n = max(n, 2)
        pos = g.perm(n)[:a]
        m = [pos]
        if g.maybe(0.3) and a > 1:
            m.append(g.perm(n)[:g.int(1, a)])
        opt = {"base": base, "mapping": m}
        if a == n and a >= 2 and g.maybe(0.3):
            opt = {"base": base, "indexes": pos}
        if g.maybe(0.2):
            opt["ignoreZero"] = True
        ops = [{"op": "D.new", "o": "d", "a": max(a, 2), "n": n, "opt": opt}]
        if a < 2 and "mapping" not in opt:
            continue
        xs = []
        for _ in range(g.int(1, 3)):
            xs.append([g.one(0, 0, base - 1, g.int(0, base - 1)) for _ in range(n)])
        ops.append({"op": "D.train", "o": "d", "xs": xs, "how": "one"})
        q = [xs[0]]
        for j in g.r.sample(range(n), min(n, 24)):
            y = list(xs[0])
            y[j] = g.one(0, base - 1, g.int(0, base - 1), (y[j] + 1) % base)
            q.append(y)
        for _ in range(3):
            y = list(xs[0])
            for j in g.r.sample(range(n), min(n, 2)):
                y[j] = g.int(0, base - 1)
            q.append(y)
        q += [[0] * n, [base - 1] * n]
        ops.append({"op": "D.classify", "o": "d", "xs": q, "how": "one"})
        # values that are no digits
        for _ in range(g.int(0, 2)):
            y = list(xs[0])
            y[g.int(0, n - 1)] = g.one(base, base + 1, -1, min(2 * base, 2 ** 31 - 1), -base, 2 ** 31 - 1, -2 ** 31 + 1, 1 - base)
            if g.maybe():
                ops.append({"op": "D.train", "o": "d", "xs": [y], "how": "one"})
            else:
                ops.append({"op": "D.classify", "o": "d", "xs": [y], "how": "one"})
        ops.append({"op": "D.classify", "o": "d", "xs": q[:6], "how": "one"})
        if base <= 32767:
            # the stored addresses, as numbers
            ops.append({"op": "H.from", "o": "h", "p": "d", "k": "D"})
            ops.append({"op": "H.data", "o": "h"})
        yield g.scenario(ops)


def trained(g, d, rounds=3, per=6, pool=5):
    """training of a Wisard: (ops, patterns)"""
    p = g.pool(d["n"], d["base"], pool)
    ops = []
    for _ in range(rounds):
        k = g.int(1, per)
        ops.append({"op": "W.train", "o": d["o"], "xs": [g.of(p) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]})
    return ops, p


def c04(g, count):
    for i in range(count):
        if g.maybe(0.15):
            q = lambda o, d: [{"op": "W.classify", "o": o, "xs": d["p"] + [g.mutate(g.of(d["p"]), d["base"])]}]
            yield g.scenario(walk(g, "W", q, base=g.one(2, 2, 3), fields=()))
            continue
        w = g.r.random()
        if w < 0.75:
            labels = g.labels(g.int(1, 6))
            if g.maybe(0.05):
                labels.append("")
            new, d = g.wisard("w", n=g.int(2, 12), labels=labels, base=g.one(2, 2, 2, 3, 4), fields=())
            p = g.pool(d["n"], d["base"], g.int(1, 4))
            ops = [new]
            if g.maybe(0.1):
                ops.append({"op": "W.classify", "o": "w", "xs": p})
            # histories in which several classes learn the same patterns about equally often
            for y in labels:
                xs = []
                for x in p:
                    xs += [x] * g.one(0, 1, 1, 2, 3, g.int(0, 8))
                if xs:
                    ops.append({"op": "W.train", "o": "w", "xs": xs, "ys": [y] * len(xs)})
            g.r.shuffle(ops)
            ops.sort(key=lambda o: o["op"] != "W.new")
            ops.append({"op": "W.classify", "o": "w", "xs": p + [g.mutate(g.of(p), d["base"]) for _ in range(5)] + [[0] * d["n"]]})
            yield g.scenario(ops)
        elif w < 0.9:
            # a long way to the level at which the classes differ
            labels = g.labels(g.int(2, 3))
            n = g.int(2, 6)
            m = g.mapping(n)
            opt = {"mapping": {y: m for y in labels}}
            if g.maybe(0.4):
                opt["confidence"] = 1
            ops = [{"op": "W.new", "o": "w", "a": 2, "opt": opt}]
            x, z = g.row(n, 2), g.row(n, 2)
            t = g.one(50, 127, 254, 300, 1000, 1500)
            for y in labels:
                ops.append({"op": "W.trainrep", "o": "w", "x": x, "y": y, "times": t + g.int(-2, 2)})
                if g.maybe():
                    ops.append({"op": "W.trainrep", "o": "w", "x": z, "y": y, "times": g.int(1, 5)})
            ops.append({"op": "W.classify", "o": "w", "xs": [x, z, [0] * n]})
            yield g.scenario(ops)
        else:
            # classes with different numbers of RAMs, confidence above some of them
            labels = g.labels(g.int(2, 4))
            n = g.int(4, 8)
            opt = {"mapping": {y: g.mapping(n, rams=g.int(1, 6)) for y in labels}, "confidence": g.int(1, n // 2)}
            ops = [{"op": "W.new", "o": "w", "a": 2, "opt": opt}]
            d = {"o": "w", "n": n, "base": 2, "labels": labels}
            t, p = trained(g, d)
            ops += t
            ops.append({"op": "W.classify", "o": "w", "xs": p + [g.mutate(g.of(p), 2) for _ in range(4)]})
            yield g.scenario(ops)


FIELDS = ["returnConfidence", "returnActivationDegree", "returnClassesDegrees"]


def c05(g, count):
    for i in range(count):
        if g.maybe(0.12):
            kind = g.one("W", "C")
            q = lambda o, d: [{"op": kind + ".classify", "o": o, "xs": d["p"] + [g.mutate(g.of(d["p"]), d["base"])]}]
            yield g.scenario(walk(g, kind, q, base=g.one(2, 2, 3), fields=[f for f in FIELDS if g.maybe(0.6)] or [g.of(FIELDS)]), impl="py")
            continue
        fields = [f for f in FIELDS if g.maybe(0.6)] or [g.of(FIELDS)]
        if g.maybe(0.65):
            new, d = g.wisard("w", n=g.int(2, 10), base=g.one(2, 2, 3), fields=fields, labels=g.labels(g.int(1, 5)))
            # the same model without fields, and verbose
            t, p = trained(g, d)
            ops = [new] + t
            q = p + [g.mutate(g.of(p), d["base"], 2) for _ in range(3)] + [[0] * d["n"]]
            if g.maybe(0.15):
                ops = [new]
            ops.append({"op": "W.classify", "o": "w", "xs": q})
            if d["base"] == 2 and g.maybe(0.3):
                ops.append({"op": "S.new", "o": "s"})
                for x in q:
                    ops.append({"op": "S.add", "o": "s", "x": x, "y": ""})
                ops.append({"op": "W.classifyset", "o": "w", "d": "s"})
            if "mapping" in d["opt"] or "indexes" in d["opt"]:
                o2 = {k: v for k, v in d["opt"].items() if k not in FIELDS}
                o2["verbose"] = not o2.get("verbose", False)
                for f in FIELDS:
                    if g.maybe(0.3):
                        o2[f] = True
                if all(y in o2.get("mapping", {}) for y in d["labels"]) or "indexes" in o2:
                    ops.append({"op": "W.new", "o": "v", "a": d["a"], "opt": o2})
                    ops += [dict(o, o="v") for o in t]
                    ops.append({"op": "W.classify", "o": "v", "xs": q})
        else:
            new, d = g.clus("c", base=g.one(2, 2, 3), fields=fields)
            p = g.pool(d["n"], d["base"], 5)
            ops = [new]
            for _ in range(g.int(0, 3)):
                k = g.int(1, 6)
                ops.append({"op": "C.train", "o": "c", "xs": [g.of(p) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]})
            ops.append({"op": "C.classify", "o": "c", "xs": p + [[0] * d["n"]]})
        yield g.scenario(ops, impl="py" if g.maybe(0.9) else "*")


def w_queries(g, d, p, k, files=False):
    ops = []
    for _ in range(k):
        w = g.int(0, 8 if not files else 9)
        q = [g.of(p) for _ in range(g.int(0, 4))]
        o = d["o"]
        if w <= 2:
            ops.append({"op": "W.classify", "o": o, "xs": q})
        elif w == 3:
            ops.append({"op": "W.mental", "o": o})
        elif w == 4:
            ops.append({"op": "save", "o": o, "s": "q%d" % g.int(0, 99), "mode": "json", "how": g.int(0, 2)})
        elif w == 5:
            ops.append({"op": "save", "o": o, "s": "q%d" % g.int(0, 99), "mode": "config"})
        elif w == 6:
            ops.append({"op": "getsizeof", "o": o})
        elif w == 7:
            ops.append({"op": "W.state", "o": o})
        elif w == 8 and d["base"] == 2:
            ops += [{"op": "S.new", "o": "qs"}] + [{"op": "S.add", "o": "qs", "x": x, "y": ""} for x in q] + \
                   [{"op": "W.classifyset", "o": o, "d": "qs"}]
        elif w == 9:
            ops.append({"op": "save", "o": o, "s": "f%d" % g.int(0, 99), "mode": "file", "prefix": g.one("", "q", "pre_")})
    return ops


def c_queries(g, d, p, k, files=False):
    ops = []
    o = d["o"]
    for _ in range(k):
        w = g.int(0, 8 if not files else 9)
        q = [g.of(p) for _ in range(g.int(0, 4))]
        if w <= 1:
            ops.append({"op": "C.classify", "o": o, "xs": q})
        elif w == 2:
            ops.append({"op": "C.classifyuns", "o": o, "xs": q})
        elif w == 3:
            ops.append({"op": "C.mental", "o": o, "y": g.one(g.of(d["labels"]), "unknown", "")})
        elif w == 4:
            ops.append({"op": "C.mentals", "o": o})
        elif w == 5:
            ops.append({"op": "save", "o": o, "s": "q%d" % g.int(0, 99), "mode": "json", "how": g.int(0, 2)})
        elif w == 6:
            ops.append({"op": "save", "o": o, "s": "q%d" % g.int(0, 99), "mode": "config"})
        elif w == 7:
            ops.append({"op": "getsizeof", "o": o})
        elif w == 8:
            ops.append({"op": "C.state", "o": o})
        elif w == 9:
            ops.append({"op": "save", "o": o, "s": "f%d" % g.int(0, 99), "mode": "file", "prefix": g.one("", "q", "pre_")})
    return ops


def batches(g, op, o, p):
    """the same inputs in one batch, repeated, alone and in another order"""
    q = [g.of(p) for _ in range(g.int(2, 5))]
    ops = [{"op": op, "o": o, "xs": q}]
    ops += [{"op": op, "o": o, "xs": [x]} for x in q[:3]]
    q2 = q + q[:2]
    g.r.shuffle(q2)
    ops.append({"op": op, "o": o, "xs": q2})
    if g.maybe(0.4):
        ops.append({"op": op, "o": o, "xs": []})
    return ops


def c06(g, count):
    for i in range(count):
        if g.maybe(0.12):
            kind = g.one("W", "C")
            q = lambda o, d: (w_queries if kind == "W" else c_queries)(g, dict(d, o=o), d["p"], g.int(1, 3), files=True) + \
                [{"op": kind + ".classify", "o": o, "xs": d["p"]}]
            yield g.scenario(walk(g, kind, q), files=True)
            continue
        w = g.r.random()
        if w < 0.4:
            new, d = g.wisard("w")
            t, p = trained(g, d, g.int(0, 2))
            p = p + [g.mutate(g.of(p), d["base"]) for _ in range(3)]
            ops = [new] + t
            ops += [{"op": "W.classify", "o": "w", "xs": p}]
            ops += w_queries(g, d, p, g.int(3, 8), files=True) + batches(g, "W.classify", "w", p)
            ops += [{"op": "W.classify", "o": "w", "xs": p}, {"op": "W.state", "o": "w"}]
            t2, _ = trained(g, d, 1)
            ops += t2 + [{"op": "W.classify", "o": "w", "xs": p}, {"op": "W.state", "o": "w"}]
            yield g.scenario(ops, files=True)
        elif w < 0.75:
            new, d = g.clus("c")
            p = g.pool(d["n"], d["base"], 6)
            ops = [new]
            tr = lambda: {"op": "C.train", "o": "c", "xs": [g.of(p) for _ in range(3)], "ys": [g.of(d["labels"]) for _ in range(3)]}
            for _ in range(g.int(0, 2)):
                ops.append(tr())
            if g.maybe(0.6):
                ops.append({"op": "C.trainuns", "o": "c", "xs": [g.of(p) for _ in range(4)]})
            ops += [{"op": "C.classify", "o": "c", "xs": p}, {"op": "C.classifyuns", "o": "c", "xs": p}]
            ops += c_queries(g, d, p, g.int(3, 8), files=True)
            ops += batches(g, g.one("C.classify", "C.classifyuns"), "c", p)
            ops += [{"op": "C.classify", "o": "c", "xs": p}, {"op": "C.classifyuns", "o": "c", "xs": p}, {"op": "C.state", "o": "c"}]
            ops += [tr(), {"op": "C.classify", "o": "c", "xs": p}, {"op": "C.state", "o": "c"}]
            yield g.scenario(ops, files=True)
        elif w < 0.85:
            n = g.int(2, 8)
            a, opt, base = g.disc_opt(n)
            p = g.pool(n, base, 5)
            ops = [{"op": "D.new", "o": "d", "a": a, "n": n, "opt": opt}, {"op": "D.train", "o": "d", "xs": p[:3], "how": "list"}]
            for _ in range(g.int(3, 8)):
                ops.append(g.one({"op": "D.classify", "o": "d", "xs": [g.of(p)], "how": "one"},
                                 {"op": "D.mental", "o": "d"}, {"op": "D.sizes", "o": "d"}, {"op": "getsizeof", "o": "d"},
                                 {"op": "save", "o": "d", "s": "q%d" % g.int(0, 9), "mode": "json"},
                                 {"op": "save", "o": "d", "s": "q1%d" % g.int(0, 9), "mode": "config"},
                                 {"op": "save", "o": "d", "s": "f%d" % g.int(0, 9), "mode": "file", "prefix": "p"}))
            ops += [{"op": "D.classify", "o": "d", "xs": p, "how": "one"}, {"op": "D.state", "o": "d"},
                    {"op": "D.train", "o": "d", "xs": [g.of(p)], "how": "one"}, {"op": "D.state", "o": "d"}]
            yield g.scenario(ops, files=True)
        else:
            ops = data_objects(g)
            for _ in range(g.int(5, 12)):
                ops.append(data_query(g))
            ops += [{"op": "B.all", "o": "b"}, {"op": "H.data", "o": "h"}, {"op": "S.size", "o": "s"}]
            ops += [{"op": "S.get", "o": "s", "i": k} for k in range(3)]
            ops += [{"op": "H.compare", "o": "h", "p": "h2"}, {"op": "B.set", "o": "b", "i": 0, "v": 1}, {"op": "B.all", "o": "b"},
                    {"op": "S.save", "o": "s", "s": "ds", "writable": True}, {"op": "S.load", "o": "s2", "s": "ds", "named": True}]
            ops += [{"op": "S.get", "o": "s2", "i": k} for k in range(3)]
            yield g.scenario(ops)


def data_objects(g):
    n = g.int(1, 20)
    ops = [{"op": "B.bits", "o": "b", "x": g.row(n, 2)}, {"op": "S.new", "o": "s"}]
    for k in range(3):
        ops.append({"op": "S.add", "o": "s", "x": g.row(g.int(1, 12), 2), "y": g.one("", g.of(LABELS))})
    m = g.int(2, 6)
    ops += [{"op": "D.new", "o": "hd", "a": 2, "n": m, "opt": {"mapping": g.mapping(m)}},
            {"op": "D.train", "o": "hd", "xs": g.pool(m, 2, 3), "how": "list"},
            {"op": "H.from", "o": "h", "p": "hd", "k": "D"}, {"op": "H.from", "o": "h2", "p": "hd", "k": "D"}]
    return ops


def data_query(g):
    return g.of([{"op": "B.get", "o": "b", "i": g.int(-2, 25), "how": g.one("get", "item")}, {"op": "B.size", "o": "b"},
                 {"op": "B.data", "o": "b"}, {"op": "S.get", "o": "s", "i": g.int(-2, 5)}, {"op": "S.label", "o": "s", "i": g.int(0, 5)},
                 {"op": "S.size", "o": "s"}, {"op": "S.save", "o": "s", "s": "x%d" % g.int(0, 2), "writable": True},
                 {"op": "H.get", "o": "h", "r": g.int(-1, 7), "a": g.int(0, 20)}, {"op": "H.ram", "o": "h", "r": g.int(-1, 7)},
                 {"op": "H.data", "o": "h"}, {"op": "H.dataram", "o": "h", "r": g.int(-1, 7)},
                 {"op": "H.compare", "o": "h", "p": g.one("h", "h2")}, {"op": "H.compare", "o": "h2", "p": "h"}])


def c07(g, count):
    for i in range(count):
        if g.maybe(0.2):
            q = lambda o, d: [{"op": "W.classify", "o": o, "xs": d["p"]}] + ([{"op": "W.mental", "o": o}] if g.maybe(0.4) else []) + \
                ([{"op": "W.state", "o": o}] if g.maybe(0.3) else [])
            yield g.scenario(walk(g, "W", q))
            continue
        if g.maybe(0.3):
            n = g.int(2, 8)
            a, opt, base = g.disc_opt(n)
            p = g.pool(n, base, 4)
            ops = [{"op": "D.new", "o": "d", "a": a, "n": n, "opt": opt}]
            have = []
            for _ in range(g.int(3, 10)):
                if have and g.maybe(0.45):
                    x = have.pop(g.int(0, len(have) - 1))
                    ops.append({"op": "D.untrain", "o": "d", "x": x})
                else:
                    xs = [g.of(p) for _ in range(g.int(1, 3))]
                    have += xs
                    ops.append({"op": "D.train", "o": "d", "xs": xs, "how": "list"})
                ops.append({"op": "D.classify", "o": "d", "xs": p, "how": "one"})
            ops += [{"op": "D.mental", "o": "d"}, {"op": "D.sizes", "o": "d"}, {"op": "D.state", "o": "d"}]
            yield g.scenario(ops, impl="cpp")
            continue
        new, d = g.wisard("w", labels=g.labels(g.int(1, 4)), fields=None)
        p = g.pool(d["n"], d["base"], 5)
        ops = [new]
        have = []
        q = p + [g.mutate(g.of(p), d["base"]) for _ in range(3)]
        for _ in range(g.int(2, 7)):
            w = g.r.random()
            if have and w < 0.45:
                k = g.int(1, min(len(have), 4))
                out = [have.pop(g.int(0, len(have) - 1)) for _ in range(k)]
                if g.maybe(0.25):
                    out.append((g.of(p), "never seen"))
                    g.r.shuffle(out)
                ops.append({"op": "W.untrain", "o": "w", "xs": [x for x, _ in out], "ys": [y for _, y in out], "how": g.one("one", "many")})
            elif w < 0.52:
                ops.append({"op": "W.untrain", "o": "w", "xs": [g.of(p)], "ys": ["never seen"], "how": g.one("one", "many")})
            elif w < 0.6 and have:
                ops += [{"op": "save", "o": "w", "s": "s", "mode": "json"}, {"op": "load", "o": "w", "s": "s", "k": "W"}]
            else:
                k = g.int(1, 4)
                new_ = [(g.of(p), g.of(d["labels"])) for _ in range(k)]
                have += new_
                ops.append({"op": "W.train", "o": "w", "xs": [x for x, _ in new_], "ys": [y for _, y in new_]})
            ops.append({"op": "W.classify", "o": "w", "xs": q})
            if g.maybe(0.3):
                ops.append({"op": "W.mental", "o": "w"})
        ops += [{"op": "W.mental", "o": "w"}, {"op": "W.state", "o": "w"}, {"op": "W.classify", "o": "w", "xs": q}]
        yield g.scenario(ops)


def c08(g, count):
    for i in range(count):
        if g.maybe(0.3):
            if g.maybe(0.7):
                yield g.scenario(walk(g, "W", lambda o, d: [{"op": "W.mental", "o": o}] * g.int(1, 2)))
            else:
                yield g.scenario(walk(g, "C", lambda o, d: [{"op": "C.mentals", "o": o}, {"op": "C.mental", "o": o, "y": g.of(d["labels"])}]))
            continue
        w = g.r.random()
        if w < 0.3:
            # wide addresses and large bases
            base = g.of([2, 2, 3, 4, 10, 16, 256, 1000, 65536])
            top = widest(base)
            a = g.one(top, g.int(1, top), min(top, 33))
            n = max(2, a + g.int(0, 3))
            m = [g.perm(n)[:a]]
            for _ in range(g.int(0, 2)):
                m.append([g.int(0, n - 1) for _ in range(g.int(1, a))])
            opt = {"base": base, "mapping": {"y": m, "z": m[::-1]}}
            if g.maybe(0.3):
                opt["ignoreZero"] = True
            ops = [{"op": "W.new", "o": "w", "a": 2, "opt": opt}]
            p = [[g.one(0, 0, 1, base - 1, g.int(0, base - 1)) for _ in range(n)] for _ in range(4)]
            ops += [{"op": "W.train", "o": "w", "xs": p + p[:2], "ys": ["y", "z", "y", "y", "y", "z"]}, {"op": "W.mental", "o": "w"}]
            ops += [{"op": "W.untrain", "o": "w", "xs": [p[0]], "ys": ["y"]}, {"op": "W.mental", "o": "w"}]
            yield g.scenario(ops)
        elif w < 0.6:
            new, d = g.wisard("w", n=g.int(2, 12))
            t, p = trained(g, d)
            ops = [new]
            for o in t:
                ops += [o, {"op": "W.mental", "o": "w"}]
            k = g.int(1, 3)
            xs, ys = t[0]["xs"][:k], t[0]["ys"][:k]
            ops += [{"op": "W.untrain", "o": "w", "xs": xs, "ys": ys}, {"op": "W.mental", "o": "w"}]
            if g.maybe(0.4):
                ops += [{"op": "save", "o": "w", "s": "s", "mode": "json"}, {"op": "load", "o": "v", "s": "s", "k": "W"}, {"op": "W.mental", "o": "v"}]
            if g.maybe(0.1):
                ops = [new, {"op": "W.mental", "o": "w"}]
            yield g.scenario(ops)
        elif w < 0.85:
            new, d = g.clus("c", n=g.int(2, 10))
            p = g.pool(d["n"], d["base"], 6)
            ops = [new]
            for _ in range(g.int(1, 4)):
                k = g.int(1, 5)
                ops.append({"op": "C.train", "o": "c", "xs": [g.of(p) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]})
                ops.append({"op": "C.mentals", "o": "c"})
                ops.append({"op": "C.mental", "o": "c", "y": g.of(d["labels"] + ["nobody"])})
            yield g.scenario(ops)
        else:
            n = g.int(2, 10)
            a, opt, base = g.disc_opt(n)
            p = g.pool(n, base, 4)
            ops = [{"op": "D.new", "o": "d", "a": a, "n": n, "opt": opt}, {"op": "D.mental", "o": "d"}]
            for _ in range(3):
                x = g.of(p)
                ops += [{"op": "D.train", "o": "d", "xs": [x, g.of(p)], "how": "list"}, {"op": "D.mental", "o": "d"}]
                if g.maybe():
                    ops += [{"op": "D.untrain", "o": "d", "x": x}, {"op": "D.mental", "o": "d"}]
            yield g.scenario(ops, impl="cpp")


def grow_w(g, d, p, o):
    k = g.int(1, 4)
    return {"op": "W.train", "o": o, "xs": [g.of(p) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]}


def overdrawn(g):
    """examples untrained that were not learned: whatever the contents are then, they are saved"""
    kind = g.one("W", "W", "D")
    m = g.one({"mode": "json", "how": g.int(0, 2)}, {"mode": "json", "how": g.int(0, 2)}, {"mode": "file", "prefix": "p"})
    if kind == "W":
        new, d = g.wisard("m", labels=g.labels(g.int(1, 3), FILE_LABELS))
        n, base = d["n"], d["base"]
    else:
        n = g.int(2, 8)
        a, opt, base = g.disc_opt(n)
        new = {"op": "D.new", "o": "m", "a": a, "n": n, "opt": opt}
    p = g.pool(n, base, g.int(1, 3))

    def act(o, what):
        k = g.int(1, 2)
        xs = [g.of(p) for _ in range(k)]
        if kind == "D":
            return [{"op": "D.train", "o": o, "xs": xs, "how": "list"}] if what == "train" else [{"op": "D.overuntrain", "o": o, "x": x} for x in xs]
        ys = [g.of(d["labels"]) for _ in xs]
        return [{"op": "W.train" if what == "train" else "W.overuntrain", "o": o, "xs": xs, "ys": ys, "how": g.one("one", "many")}]

    def ask(o):
        ops = [{"op": kind + ".state", "o": o}]
        ops += [{"op": "W.classify", "o": o, "xs": p}, {"op": "W.mental", "o": o}] if kind == "W" else [{"op": "D.classify", "o": o, "xs": p, "how": "one"}]
        return ops

    ops = [new] + act("m", "train")
    for _ in range(g.int(1, 4)):
        ops += act("m", g.one("train", "over", "over")) + ask("m")
    ops += [dict({"op": "save", "o": "m", "s": "s"}, **m), {"op": "load", "o": "x", "s": "s", "k": kind, **({"as": "m"} if kind == "W" else {})}] + ask("x")
    t = act("m", "train")
    ops += t + [dict(q, o="x") for q in t] if kind == "D" else [{"op": "W.train", "o": o, "xs": t[0]["xs"], "ys": t[0]["ys"]} for o in ("m", "x")]
    ops += ask("m") + ask("x")
    return g.scenario(ops, files=m["mode"] == "file")


def c09(g, count):
    for i in range(count):
        if g.maybe(0.15):
            def q(o, d):
                ops = [{"op": "save", "o": o, "s": "q", "mode": "json", "how": g.int(0, 2)}, {"op": "load", "o": "e", "s": "q", "k": "W", "as": o}]
                for x in ("e", o):
                    ops += [{"op": "W.classify", "o": x, "xs": d["p"]}, {"op": "W.state", "o": x}]
                ops.append({"op": "W.train", "o": "e", "xs": d["p"][:1], "ys": d["labels"][:1]})
                if g.maybe(0.4):
                    ops += [{"op": "W.mental", "o": x} for x in ("e", o)]
                return ops
            yield g.scenario(walk(g, "W", q, load=g.maybe()))
            continue
        if g.maybe(0.08):
            yield overdrawn(g)
            continue
        if g.maybe(0.3):
            n = g.int(2, 8)
            a, opt, base = g.disc_opt(n)
            p = g.pool(n, base, 5)
            ops = [{"op": "D.new", "o": "d", "a": a, "n": n, "opt": opt}]
            cur = ["d"]
            have = {"d": []}
            snap = {}
            for k in range(g.int(2, 7)):
                o = g.of(cur)
                w = g.r.random()
                if w < 0.35:
                    xs = [g.of(p) for _ in range(g.int(1, 3))]
                    ops.append({"op": "D.train", "o": o, "xs": xs, "how": "list"})
                else:
                    s, e = "s%d" % k, "d%d" % k
                    ops += [{"op": "save", "o": o, "s": s, "mode": "config" if w > 0.85 else "json", "how": g.int(0, 2)},
                            {"op": "load", "o": e, "s": s, "k": "D"}, {"op": "D.state", "o": e}, {"op": "D.classify", "o": e, "xs": p, "how": "one"}]
                    cur.append(e)
            for o in cur:
                ops += [{"op": "D.classify", "o": o, "xs": p, "how": "one"}, {"op": "D.state", "o": o}]
            yield g.scenario(ops)
            continue
        new, d = g.wisard("w", labels=g.labels(g.int(1, 5)))
        p = g.pool(d["n"], d["base"], 5)
        ops = [new]
        cur = ["w"]
        conf = {"w": new}
        have = {"w": []}
        for k in range(g.int(2, 7)):
            o = g.of(cur)
            w = g.r.random()
            if w < 0.4:
                t = grow_w(g, d, p, o)
                have[o] = have[o] + list(zip(t["xs"], t["ys"]))
                ops.append(t)
            elif w < 0.5 and have[o]:
                x, y = have[o][-1]
                have[o] = have[o][:-1]
                ops.append({"op": "W.untrain", "o": o, "xs": [x], "ys": [y]})
            else:
                s, e = "s%d" % k, "w%d" % k
                mode = "config" if w > 0.88 else "json"
                ops += [{"op": "save", "o": o, "s": s, "mode": mode, "how": g.int(0, 2)}, {"op": "load", "o": e, "s": s, "k": "W", "as": o},
                        {"op": "W.state", "o": e}, {"op": "W.classify", "o": e, "xs": p}]
                have[e] = [] if mode == "config" else have[o]
                cur.append(e)
        for o in cur:
            ops += [grow_w(g, d, p, o), {"op": "W.classify", "o": o, "xs": p}, {"op": "W.mental", "o": o}, {"op": "W.state", "o": o}]
        yield g.scenario(ops)


def file_save(g, o, s, prefix=None):
    op = {"op": "save", "o": o, "s": s, "mode": "file"}
    if prefix is not None:
        op["prefix"] = prefix
    return op


def c10(g, count):
    for i in range(count):
        w = g.r.random()
        kind = g.one("D", "W", "W", "C")
        two = g.maybe(0.4)
        objs = ["m", "k"] if two else ["m"]
        ops = []
        ds = {}
        for o in objs:
            if kind == "D":
                n = g.int(2, 7)
                a, opt, base = g.disc_opt(n)
                ops.append({"op": "D.new", "o": o, "a": a, "n": n, "opt": opt})
                ds[o] = {"n": n, "base": base}
            elif kind == "W":
                new, ds[o] = g.wisard(o, pool=FILE_LABELS)
                ops.append(new)
            else:
                new, ds[o] = g.clus(o, pool=FILE_LABELS)
                ops.append(new)
            ds[o]["p"] = g.pool(ds[o]["n"], ds[o]["base"], 4)

        def train(o):
            d = ds[o]
            if kind == "D":
                return {"op": "D.train", "o": o, "xs": [g.of(d["p"]) for _ in range(2)], "how": "list"}
            if kind == "C" and g.maybe(0.3):
                return {"op": "C.trainuns", "o": o, "xs": [g.of(d["p"]) for _ in range(3)]}
            k = g.int(1, 3)
            return {"op": kind + ".train", "o": o, "xs": [g.of(d["p"]) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]}

        def look(o, d):
            if kind == "D":
                return [{"op": "D.classify", "o": o, "xs": d["p"], "how": "one"}, {"op": "D.state", "o": o}]
            if kind == "W":
                return [{"op": "W.classify", "o": o, "xs": d["p"]}, {"op": "W.state", "o": o}]
            return [{"op": "C.classify", "o": o, "xs": d["p"]}, {"op": "C.classifyuns", "o": o, "xs": d["p"]}, {"op": "C.state", "o": o}]

        if w < 0.7:
            prefix = g.one(None, "", "p", "same_", "with space", "ü")
            snaps = []
            for k in range(g.int(3, 7)):
                o = g.of(objs)
                if g.maybe(0.45):
                    ops.append(train(o))
                else:
                    s = "s%d" % len(snaps)
                    ops.append(file_save(g, o, s, prefix if g.maybe(0.8) else g.one("p", "q", "")))
                    snaps.append((s, o))
                if snaps and g.maybe(0.25):
                    s, o = g.of(snaps)
                    ops.append({"op": "load", "o": "x", "s": s, "k": kind, "as": o})
                    ops += look("x", ds[o])
                    if g.maybe(0.4):
                        ops.append(dict(train(o), o="x"))
                        ops.append(file_save(g, "x", "x%d" % k, prefix))
                        ops += [{"op": "load", "o": "y", "s": "x%d" % k, "k": kind}] + look("y", ds[o])
            g.r.shuffle(snaps)
            for s, o in snaps[:4]:
                ops.append({"op": "load", "o": "x", "s": s, "k": kind, "as": o})
                ops += look("x", ds[o])
            for o in objs:
                ops += look(o, ds[o])
        else:
            # things that go wrong
            o = "m"
            for _ in range(g.int(1, 3)):
                ops.append(train(o))
            if kind == "C":
                ops.append({"op": "C.train", "o": o, "xs": [ds[o]["p"][0]], "ys": [ds[o]["labels"][0]]})
            v = g.int(0, 3)
            if v == 0:
                ops.append(dict(file_save(g, o, "bad", "nodir/x"), writable=False))
            elif v == 1:
                ops.append(dict(file_save(g, o, "bad", "p"), writable=False, fsize=g.one(0, 1, 8, 15)))
            elif v == 2:
                ops += [file_save(g, o, "ok", "p"), dict(file_save(g, o, "bad", "p"), writable=False, fsize={"rel": -g.int(1, 3)}),
                        dict(file_save(g, o, "fit", "p"), fsize={"rel": 0}),
                        {"op": "load", "o": "x", "s": "ok", "k": kind}] + look("x", ds[o]) + \
                       [{"op": "load", "o": "x", "s": "fit", "k": kind}] + look("x", ds[o])
            else:
                ops += [file_save(g, o, "gone", "p"), file_save(g, o, "stays", "p")]
                if g.maybe():
                    ops += [{"op": "load", "o": "w", "s": "gone", "k": kind}] + look("w", ds[o])
                ops += [{"op": "rmfile", "s": "gone"},
                        {"op": "load", "o": "x", "s": "gone", "k": kind}, {"op": "load", "o": "y", "s": "stays", "k": kind}] + look("y", ds[o])
            ops += look(o, ds[o]) + [train(o), file_save(g, o, "last", "p"), {"op": "load", "o": "z", "s": "last", "k": kind}] + look("z", ds[o])
        yield g.scenario(ops, files=True)


def c_train(g, d, p, o="c", k=None):
    k = k or g.int(1, 6)
    return {"op": "C.train", "o": o, "xs": [g.of(p) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]}


def c11(g, count):
    for i in range(count):
        new, d = g.clus("c", n=g.one(g.int(2, 8), g.int(6, 12)), fields=(), lim=g.one(1, 2, 3, 4, 5, 12))
        if g.maybe(0.6):
            # thresholds at which several discriminators qualify
            new["ms"], new["msden"] = g.one((0, 1), (1, 8), (1, 4), (1, 2), (1, 10))
            new["th"] = g.one(1, 4, 16, 64, 100, 1000)
        p = g.pool(d["n"], d["base"], g.int(2, 8))
        ops = [new]
        for _ in range(g.int(2, 6)):
            ops.append(c_train(g, d, p))
            if g.maybe(0.6):
                ops.append({"op": "C.state", "o": "c"})
            if g.maybe(0.15):
                ops += [{"op": "save", "o": "c", "s": "s", "mode": "json"}, {"op": "load", "o": "c", "s": "s", "k": "C"}]
        if g.maybe(0.05):
            ops += [{"op": "C.train", "o": "c", "xs": [p[0]] * g.int(250, 280), "ys": [d["labels"][0]] * 280}]
            ops[-1]["ys"] = ops[-1]["ys"][:len(ops[-1]["xs"])]
            if g.maybe():
                ops += [{"op": "save", "o": "c", "s": "s9", "mode": "json"}, {"op": "load", "o": "c", "s": "s9", "k": "C"}]
            ops += [c_train(g, d, p), {"op": "C.classify", "o": "c", "xs": p}]
        ops.append({"op": "C.state", "o": "c"})
        yield g.scenario(ops)


def c12(g, count):
    for i in range(count):
        new, d = g.clus("c", fields=(), lim=g.one(1, 2, 3, 5))
        p = g.pool(d["n"], d["base"], g.int(2, 6))
        ops = [new]
        if g.maybe(0.4):
            ops.append(c_train(g, d, p))
        for _ in range(g.int(1, 3)):
            n = g.one(g.int(1, 7), g.int(1, 7), 0)
            xs = [g.of(p) for _ in range(n)]
            w = g.r.random()
            idx = list(range(n))
            if w < 0.65:
                idx = g.r.sample(idx, g.int(0, n))
            elif w < 0.9:
                idx = g.r.sample(list(range(-3, n + 4)), g.int(0, n))
            else:
                idx = g.r.sample(list(range(-3, n + 4)), min(n + 7, n + g.int(1, 2)))
            given = [[k, g.of(d["labels"])] for k in idx]
            ops.append({"op": "C.trainsemi", "o": "c", "xs": xs, "given": given})
            ops.append({"op": "C.state", "o": "c"})
        ops.append({"op": "C.classify", "o": "c", "xs": p})
        yield g.scenario(ops)


def c13(g, count):
    for i in range(count):
        if g.maybe(0.12):
            q = lambda o, d: [{"op": "C.classifyuns", "o": o, "xs": d["p"]}] + ([{"op": "C.state", "o": o}] if g.maybe(0.4) else [])
            yield g.scenario(walk(g, "C", q, fields=()))
            continue
        new, d = g.clus("c", fields=(), pool=FILE_LABELS, lim=g.one(1, 2, 3, 5, 12))
        p = g.pool(d["n"], d["base"], g.int(2, 8))
        ops = [new]
        for _ in range(g.int(2, 6)):
            w = g.r.random()
            if w < 0.55:
                ops.append({"op": "C.trainuns", "o": "c", "xs": [g.of(p) for _ in range(g.one(0, 1, g.int(1, 6), g.int(1, 6)))]})
            elif w < 0.8:
                ops.append(c_train(g, d, p))
            else:
                mode = g.one("json", "json", "file")
                ops += [dict({"op": "save", "o": "c", "s": "s%d" % len(ops), "mode": mode}, **({"prefix": "u"} if mode == "file" else {})),
                        {"op": "load", "o": "c", "s": "s%d" % len(ops), "k": "C"}]
                ops[-1]["s"] = ops[-2]["s"]
            ops.append({"op": "C.classifyuns", "o": "c", "xs": p[:4] + [[0] * d["n"]]})
        if g.maybe(0.2):
            ops.append({"op": "C.classify", "o": "c", "xs": p})
        ops += [{"op": "C.state", "o": "c"}, {"op": "C.classifyuns", "o": "c", "xs": p + [g.mutate(g.of(p), d["base"]) for _ in range(3)]}]
        yield g.scenario(ops)


def c14(g, count):
    for i in range(count):
        if g.maybe(0.15):
            q = lambda o, d: [{"op": "C.classify", "o": o, "xs": d["p"] + [g.mutate(g.of(d["p"]), d["base"])]}]
            yield g.scenario(walk(g, "C", q, fields=()))
            continue
        lim = g.one(1, 2, 3, 5, 12, 12)
        new, d = g.clus("c", labels=g.labels(g.int(1, 5)), fields=(), lim=lim, n=g.int(4, 10) if lim == 12 else None)
        p = g.pool(d["n"], d["base"], g.int(2, 6) if lim < 12 else 14)
        ops = [new]
        if lim == 12:
            new["ms"], new["msden"], new["th"] = 1, 1, 1      # every new pattern gets its own discriminator
            for _ in range(2):
                ops.append({"op": "C.train", "o": "c", "xs": p, "ys": [g.of(d["labels"][:2]) for _ in p]})
        else:
            for _ in range(g.int(0, 4)):
                ops.append(c_train(g, d, p))
        q = p[:6] + [g.mutate(g.of(p), d["base"]) for _ in range(3)] + [[0] * d["n"]]
        ops.append({"op": "C.classify", "o": "c", "xs": q})
        if g.maybe(0.3):
            ops += [{"op": "C.trainuns", "o": "c", "xs": p[:3]}, {"op": "C.classify", "o": "c", "xs": q}]
        yield g.scenario(ops)


def c15(g, count):
    for i in range(count):
        if g.maybe(0.15):
            def q(o, d):
                ops = [{"op": "save", "o": o, "s": "q", "mode": "json", "how": g.int(0, 2)}, {"op": "load", "o": "e", "s": "q", "k": "C", "as": o}]
                for x in ("e", o):
                    ops += [{"op": "C.classify", "o": x, "xs": d["p"]}, {"op": "C.state", "o": x}]
                ops.append({"op": "C.train", "o": "e", "xs": d["p"][:1], "ys": d["labels"][:1]})
                if g.maybe(0.4):
                    ops += [{"op": "C.mentals", "o": x} for x in ("e", o)]
                return ops
            yield g.scenario(walk(g, "C", q, load=g.maybe()))
            continue
        new, d = g.clus("c", labels=g.labels(g.int(1, 4), FILE_LABELS), lim=g.one(1, 2, 3, 5, 12))
        p = g.pool(d["n"], d["base"], 6)
        ops = [new]
        cur = ["c"]
        if g.maybe(0.06):
            k = g.int(250, 280)
            if g.maybe():
                ops.append({"op": "C.train", "o": "c", "xs": [p[0]] * k, "ys": [d["labels"][0]] * k})
            else:
                ops.append({"op": "C.trainuns", "o": "c", "xs": [p[0]] * k})
        for k in range(g.int(3, 8)):
            o = g.of(cur)
            w = g.r.random()
            if w < 0.3:
                ops.append(c_train(g, d, p, o))
            elif w < 0.45:
                ops.append({"op": "C.trainuns", "o": o, "xs": [g.of(p) for _ in range(g.int(1, 4))]})
            else:
                s, e = "s%d" % k, "c%d" % k
                mode = "config" if w > 0.9 else "json" if w < 0.7 else "file"
                op = {"op": "save", "o": o, "s": s, "mode": mode, "how": g.int(0, 2)}
                if mode == "file":
                    op["prefix"] = g.one("", "p")
                ops += [op, {"op": "load", "o": e, "s": s, "k": "C"}, {"op": "C.state", "o": e},
                        {"op": "C.classify", "o": e, "xs": p}, {"op": "C.classifyuns", "o": e, "xs": p}]
                cur.append(e)
        for o in cur[-3:]:
            ops += [c_train(g, d, p, o, 2), {"op": "C.trainuns", "o": o, "xs": [g.of(p)]},
                    {"op": "C.classify", "o": o, "xs": p}, {"op": "C.classifyuns", "o": o, "xs": p}, {"op": "C.mentals", "o": o}, {"op": "C.state", "o": o}]
        yield g.scenario(ops)


def bin_size(g):
    return g.one(0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, g.int(0, 40), g.int(0, 300))


def c16(g, count):
    for i in range(count):
        n = bin_size(g) if g.maybe(0.97) else g.one(1000, 65536 // 8, 70000 // 8)
        w = g.r.random()
        if w < 0.4:
            ops = [{"op": "B.new", "o": "b", "n": n}]
            if n == 0 and g.maybe():
                ops[0]["default"] = 1
        else:
            x = [g.int(0, 1) for _ in range(n)]
            if w > 0.9 and n:
                x[g.int(0, n - 1)] = g.one(2, -1, 255, 256, 3)
            ops = [{"op": "B.bits", "o": "b", "x": x}]
            if w > 0.9 and n:
                ops += [{"op": "B.new", "o": "b", "n": n}]
        ops += [{"op": "B.size", "o": "b"}, {"op": "B.all", "o": "b"}]
        for _ in range(g.int(1, 10)):
            k = g.one(0, n - 1, n // 2, g.int(0, max(0, n - 1)), 7, 8) if g.maybe(0.85) else g.one(-1, n, n + 1, n + 7, n + 8, 2 ** 31 - 1, -8)
            ops.append({"op": "B.set", "o": "b", "i": k, "v": g.int(0, 1) if g.maybe(0.88) else g.one(2, -1, 3, 255, 256)})
            if g.maybe(0.3):
                ops.append({"op": "B.get", "o": "b", "i": k, "how": g.one("get", "item")})
            if g.maybe(0.25):
                ops.append({"op": "B.all", "o": "b"})
            if g.maybe(0.2):
                ops += [{"op": "B.fromdata", "o": "c", "p": "b"}, {"op": "B.all", "o": "c"}]
        ops += [{"op": "B.fromdata", "o": "c", "p": "b"}, {"op": "B.size", "o": "c"}, {"op": "B.all", "o": "c"},
                {"op": "B.all", "o": "b"}, {"op": "B.size", "o": "b"}]
        if n:
            ops += [{"op": "B.set", "o": "c", "i": g.int(0, n - 1), "v": g.int(0, 1)}, {"op": "B.all", "o": "c"}, {"op": "B.all", "o": "b"}]
        yield g.scenario(ops)


def show_set(o, k):
    ops = [{"op": "S.size", "o": o}]
    for i in range(k):
        ops += [{"op": "S.get", "o": o, "i": i}, {"op": "S.label", "o": o, "i": i}]
    return ops


def c17(g, count):
    for i in range(count):
        if g.maybe(0.7):
            ops = [{"op": "S.new", "o": "s"}]
            k = g.one(0, 0, 1, 2, g.int(2, 6), g.int(2, 6), 11)
            for j in range(k):
                x = [g.int(0, 1) for _ in range(bin_size(g) if g.maybe(0.3) else g.int(0, 12))]
                y = g.one("", g.of(LABELS), g.of(LABELS), "q" * g.int(1, 40), "a#b", "a.b", "#", ".", "=")
                if g.maybe(0.4):
                    ops += [{"op": "B.bits", "o": "b", "x": x}, {"op": "S.addbin", "o": "s", "b": "b", "y": y, "how": g.one("", "label")}]
                    if g.maybe(0.2) and x:
                        ops.append({"op": "B.set", "o": "b", "i": 0, "v": 1 - x[0]})
                else:
                    ops.append({"op": "S.add", "o": "s", "x": x, "y": y, "how": g.one("", "label")})
            ops += show_set("s", k)
            ops += [{"op": "S.get", "o": "s", "i": g.one(-1, k, k + 3)}, {"op": "S.label", "o": "s", "i": g.one(k, k + 1)}]
            for rep in range(g.int(1, 2)):
                f = g.one("f", "f", "file two", "ü")
                ops += [{"op": "S.save", "o": "s", "s": f, "writable": True}, {"op": "S.load", "o": "t", "s": f, "named": True}]
                ops += show_set("t", k)
                w = g.r.random()
                if w < 0.3:
                    ops.append({"op": "S.add", "o": "t", "x": [1, 0, 1], "y": g.of(LABELS)})
                    k += 1
                    ops += [{"op": "S.save", "o": "t", "s": f, "writable": True}, {"op": "S.load", "o": "s", "s": f, "named": True}] + show_set("s", k)
                elif w < 0.4:
                    ops += [{"op": "S.new", "o": "s"}]
                    k = 0
                    ops += [{"op": "S.save", "o": "s", "s": f, "writable": True}, {"op": "S.load", "o": "t", "s": f, "named": True}] + show_set("t", 1)
                elif w < 0.5:
                    ops += [{"op": "S.save", "o": "s", "s": "other", "writable": False}]
                elif w < 0.6:
                    ops += [{"op": "S.load", "o": "u", "s": "missing", "named": True}]
                elif w < 0.7:
                    ops += [{"op": "S.load", "o": "u", "s": f, "named": False, "ext": g.one(".txt", "", ".wpkd", ".wdpkg")}]
            ops += show_set("s", min(k, 3))
            yield g.scenario(ops, files=True)
        else:
            new, d = g.wisard("w", base=2, kinds="map,idx,rnd")
            p = g.pool(d["n"], 2, 5)
            xs = [g.of(p) for _ in range(g.int(1, 6))]
            ys = [g.of(d["labels"]) for _ in xs]
            ops = [new, {"op": "S.new", "o": "s"}]
            ops += [{"op": "S.add", "o": "s", "x": x, "y": y} for x, y in zip(xs, ys)]
            if g.maybe(0.4):
                ops += [{"op": "S.save", "o": "s", "s": "f", "writable": True}, {"op": "S.load", "o": "s", "s": "f", "named": True}]
            ops += [{"op": "W.trainset", "o": "w", "d": "s", "pairs": [[x, y] for x, y in zip(xs, ys)]}, {"op": "W.state", "o": "w"}]
            ops += [{"op": "S.new", "o": "q"}] + [{"op": "S.add", "o": "q", "x": x, "y": g.one("", "lab")} for x in p]
            ops += [{"op": "W.classifyset", "o": "w", "d": "q"}, {"op": "W.classify", "o": "w", "xs": p}]
            yield g.scenario(ops)


def c18(g, count):
    for i in range(count):
        ops = []
        hs = []
        cpp = g.maybe(0.3)        # with files of its own, which only C++ can write
        w = g.r.random()
        if w < 0.7:
            n = g.int(2, 8)
            base = g.one(2, 2, 3, 5, 256, 1000)
            a, opt, base = g.disc_opt(n, base=base)
            p = g.pool(n, base, 4)
            ops += [{"op": "D.new", "o": "d", "a": a, "n": n, "opt": opt}]
            if g.maybe(0.85):
                ops.append({"op": "D.train", "o": "d", "xs": [g.of(p) for _ in range(4)], "how": "list"})
            if g.maybe(0.3):
                ops += [{"op": "save", "o": "d", "s": "f", "mode": "file", "prefix": "h"}, {"op": "H.fromfile", "o": "h0", "s": "f"}]
                if g.maybe(0.2):
                    ops += [{"op": "rmfile", "s": "f"}, {"op": "H.fromfile", "o": "h9", "s": "f"}]
            else:
                ops += [{"op": "H.from", "o": "h0", "p": "d", "k": "D"}]
            if g.maybe(0.3):
                ops += [{"op": "D.train", "o": "d", "xs": [g.of(p)], "how": "list"}]
        elif w < 0.85:
            new, d = g.wisard("w", kinds="map")
            t, p = trained(g, d, 1)
            ops += [new] + t + [{"op": "H.from", "o": "h0", "p": "w", "y": g.of(t[0]["ys"]), "k": "W"}]
        else:
            ops += [{"op": "H.empty", "o": "h0"}]
        hs = ["h0"]
        ops.append({"op": "H.data", "o": "h0"})
        near = [0, 1] + [g.one(2, 3, g.int(0, 30), 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 40, 2 ** 63, 2 ** 64 - 1, g.int(0, 2 ** 64 - 1)) for _ in range(4)]
        addr = lambda: g.of(near)
        for _ in range(g.int(3, 12)):
            h = g.of(hs)
            v = g.r.random()
            if v < 0.3:
                ops.append({"op": "H.set", "o": h, "r": g.int(0, 5) if g.maybe(0.9) else g.one(-1, 9), "a": addr(), "v": g.one(0, 1, 5, 300, 70000, -1, 2 ** 31 - 1)})
            elif v < 0.5:
                ops.append({"op": "H.get", "o": h, "r": g.int(-1, 6), "a": addr()})
            elif v < 0.6:
                ops.append({"op": "H.ram", "o": h, "r": g.int(-1, 6)})
            elif v < 0.68:
                ops.append({"op": "H.dataram", "o": h, "r": g.int(-1, 6)})
            elif v < 0.75:
                ops.append({"op": "H.data", "o": h})
            elif v < 0.85:
                e = "h%d" % len(hs)
                ops.append(g.one({"op": "H.fromdata", "o": e, "p": h}, {"op": "H.fromram", "o": e, "p": h, "r": g.int(0, 3)}))
                hs.append(e)
            elif v < 0.92 or not cpp:
                ops.append({"op": "H.compare", "o": h, "p": g.of(hs)})
            else:
                e, f = "h%d" % len(hs), "hf%d" % len(hs)
                ops += [{"op": "H.save", "o": h, "s": f, "writable": True}, {"op": "H.load", "o": e, "s": f},
                        {"op": "H.compare", "o": h, "p": e}, {"op": "H.data", "o": e}]
                if g.maybe(0.2):
                    ops += [{"op": "H.save", "o": h, "s": f + "x", "writable": False}, {"op": "H.load", "o": e, "s": f}]
                if g.maybe(0.3):
                    ops += [{"op": "H.set", "o": h, "r": g.int(0, 3), "a": addr(), "v": g.int(0, 9)},
                            {"op": "H.save", "o": h, "s": f, "writable": True}, {"op": "H.load", "o": e, "s": f}, {"op": "H.compare", "o": h, "p": e}]
                hs.append(e)
        e = "h%d" % len(hs)
        ops += [{"op": "H.fromdata", "o": e, "p": "h0"}, {"op": "H.compare", "o": "h0", "p": e}, {"op": "H.compare", "o": e, "p": "h0"},
                {"op": "H.set", "o": e, "r": g.int(0, 2), "a": addr(), "v": g.int(0, 2)}, {"op": "H.compare", "o": e, "p": "h0"},
                {"op": "H.compare", "o": "h0", "p": e}, {"op": "H.data", "o": "h0"}, {"op": "H.data", "o": e}]
        yield g.scenario(ops, impl="cpp" if cpp else "*", files=True)


def c19(g, count):
    for i in range(count):
        n = g.one(0, 1, g.int(1, 8), g.int(1, 8), 20)
        mx = g.one(1, 2, 3, 5, 10, 50)
        w = g.r.random()
        img = [0] * n if w < 0.1 else [g.one(0, mx, g.int(0, mx)) for _ in range(n)]
        ops = [{"op": "Y.new", "o": "y", "img": img}]
        for _ in range(g.int(1, 3)):
            ops.append({"op": "Y.make", "o": "y"})
        if g.maybe(0.8):
            ops.append({"op": "Y.makemany", "o": "y", "n": g.one(200, 400, 600), "len": n})
        if g.maybe(0.3):
            img2 = [g.int(0, mx) for _ in range(g.int(1, 6))]
            ops += [{"op": "Y.new", "o": "z", "img": img2}, {"op": "Y.makemany", "o": "z", "n": 300, "len": len(img2)},
                    {"op": "Y.makemany", "o": "y", "n": 300, "len": n}]
        if g.maybe(0.4):
            # what a model has learned, as the intensities
            if g.maybe():
                new, d = g.wisard("w", n=g.int(2, 8), conf=False)
                p = g.pool(d["n"], d["base"], 4)
                xs = [g.of(p) for _ in range(g.int(1, 12))]
                ys = [g.of(d["labels"]) for _ in xs]
                ops += [new, {"op": "W.train", "o": "w", "xs": xs, "ys": ys}]
                k = "W"
            else:
                new, d = g.clus("w", n=g.int(2, 8), lim=g.int(1, 3))
                new["opt"].pop("confidence", None)
                p = g.pool(d["n"], d["base"], 4)
                xs = [g.of(p) for _ in range(g.int(1, 12))]
                ys = [g.of(d["labels"]) for _ in xs]
                ops += [new, {"op": "C.train", "o": "w", "xs": xs, "ys": ys}]
                k = "C"
            ops += [{"op": "Y.from", "o": "x", "p": "w", "k": k, "y": ys[0]}, {"op": "Y.make", "o": "x"},
                    {"op": "Y.makemany", "o": "x", "n": 200, "len": d["n"]}]
            if g.maybe():
                ops += [{"op": "del", "o": "w"}, {"op": "Y.makemany", "o": "x", "n": 200, "len": d["n"]}]
        yield g.scenario(ops)


def c20(g, count):
    for i in range(count):
        dim = g.int(1, 4)
        n = g.one(1, 2, g.int(3, 12), g.int(8, 30))
        opt = {}
        if g.maybe(0.6):
            opt["bitsByKernel"] = g.int(1, 5)
        if g.maybe(0.85):
            opt["activationDegree"] = g.one([0, 1], [1, 1], [1, 4], [3, 8], [1, 8], [1, 16], [3, 10], [1, 10])
            # the library rounds degree * n in single precision: stay away from exact halves
            a, b = opt["activationDegree"]
            if (2 * a * n) % b == 0 and ((2 * a * n) // b) % 2 == 1 and b not in (1, 4, 8, 16):
                opt["activationDegree"] = [1, 4]
        elif n == 50:
            n = 49
        direc = g.maybe(0.35)
        if direc:
            opt["useDirection"] = True
            dim = min(dim, 3)
        ops = [{"op": "K.new", "o": "k", "dim": dim, "n": n, "opt": opt}]
        hi = g.one(3, 10, 30)
        seq = [[g.int(-hi, hi) for _ in range(dim)] for _ in range(g.one(0, 1, 1, 2, g.int(2, 8), g.int(2, 16)))]
        if g.maybe(0.3) and seq:
            j = g.int(0, dim - 1)
            for p in seq:
                p[j] = seq[0][j]                              # a constant coordinate
        ops.append({"op": "K.transform", "o": "k", "seq": seq})
        for _ in range(g.int(1, 4)):
            s2 = [list(p) for p in seq]
            if g.maybe() and not direc:
                g.r.shuffle(s2)
            op = {"op": "K.transform", "o": "k", "seq": s2}
            if g.maybe():
                op["unit"] = [[g.one(1, 0.5, 2, 3.25, 1000, 0.001), g.one(0, 1, -7.5, 100)] for _ in range(dim)]
            ops.append(op)
        if g.maybe(0.3):
            ops.append({"op": "K.transform", "o": "k", "seq": [[g.int(-5, 5) for _ in range(dim)] for _ in range(3)]})
            ops.append({"op": "K.transform", "o": "k", "seq": seq})
        yield g.scenario(ops)


def canvases(g, count=0):
    """several canvases and synthesizers, used in turn"""
    ops, seqs = [], {}
    for k in range(g.int(2, 3)):
        dim = g.int(1, 3)
        opt = {"activationDegree": g.one([1, 1], [1, 4], [3, 8], [1, 8])}
        if g.maybe(0.6):
            opt["useDirection"] = True
        ops.append({"op": "K.new", "o": "k%d" % k, "dim": dim, "n": g.one(1, 4, g.int(5, 16)), "opt": opt})
        seqs["k%d" % k] = [[[g.int(-9, 9) for _ in range(dim)] for _ in range(m)] for m in (1, g.int(2, 4), g.one(0, 1, 2, 6))]
    ops += [{"op": "Y.new", "o": "y0", "img": [g.int(0, 4) for _ in range(g.int(1, 5))]}, {"op": "Y.new", "o": "y1", "img": [g.int(0, 9) for _ in range(g.int(1, 9))]}]
    for k in range(g.int(5, 9)):
        o = g.of(sorted(seqs))
        ops.append({"op": "K.transform", "o": o, "seq": g.of(seqs[o])} if g.maybe(0.8) else {"op": "Y.make", "o": g.one("y0", "y1")})
    o = g.of(sorted(seqs))
    ops.append({"op": "del", "o": o})
    ops += [{"op": "K.transform", "o": q, "seq": v[0]} for q, v in seqs.items() if q != o]
    return ops


def c21(g, count):
    for i in range(count):
        w = g.r.random()
        if w < 0.3:
            # configurations of discriminators
            ops = []
            for k in range(g.int(2, 6)):
                n = g.int(2, 9)
                a = g.int(2, n)
                opt = {}
                v = g.int(0, 9)
                if v == 0:
                    opt["base"] = g.one(1, 0, -1, -2, -100)
                elif v == 1:
                    a = g.one(1, 0, -1, n + 1, n + 5)
                elif v == 2:
                    n = g.one(1, 0, -1)
                    a = g.one(2, 1)
                elif v == 3:
                    opt["base"] = g.one(1 << 20, 1 << 25, 70000)
                    n = g.int(4, 8)
                    a = 4
                elif v == 4:
                    x = g.perm(n)
                    opt["indexes"] = g.one(x[:-1], x + [0], [0] + x[1:] if x[0] else [1] + x[1:], [n] + x[1:], [-1] + x[1:], [2 ** 31 - 1] + x[1:])
                elif v == 5:
                    m = g.mapping(n)
                    m[g.int(0, len(m) - 1)].append(g.one(n, -1, n + 1, 2 ** 31 - 1, -2 ** 31 + 1))
                    opt["mapping"] = m
                elif v == 6:
                    n = g.int(65, 80)
                    a = g.one(65, 64, n)
                else:
                    a, opt, _ = g.disc_opt(n)
                o = "d%d" % k
                ops.append({"op": "D.new", "o": o, "a": a, "n": n, "opt": opt})
                if v > 6:
                    b = opt.get("base", 2)
                    x = g.row(n, b)
                    y = g.mutate(x, b)
                    y[g.int(0, n - 1)] = g.one(b, -1, b + 5, 2 ** 31 - 1, -2 ** 31 + 1)
                    bad = g.one(x[:-1], x + [0], [], y, x * 2)
                    ops += [{"op": "D.train", "o": o, "xs": [x], "how": "one"}, {"op": "D.state", "o": o}]
                    if g.maybe():
                        ops.append({"op": "D.train", "o": o, "xs": [x, bad, x], "how": "list"})
                    else:
                        ops.append({"op": "D.classify", "o": o, "xs": [bad], "how": "one"})
                    ops += [{"op": "D.state", "o": o}, {"op": "D.train", "o": o, "xs": [x], "how": "one"}, {"op": "D.classify", "o": o, "xs": [x], "how": "one"}]
            yield g.scenario(ops)
        elif w < 0.6:
            new, d = g.wisard("w")
            n, base = d["n"], d["base"]
            v = g.int(0, 7)
            opt = new["opt"]
            if v == 0:
                opt["base"] = g.one(1, 0, -3)
            elif v == 1:
                new["a"] = g.one(1, 0, n + 1, -2)
            elif v == 2:
                opt["confidence"] = g.one(100, 7, 4)
            elif v == 3:
                x = g.perm(n)
                opt["indexes"] = g.one(x[:-1], x + [0], [n] + x[1:], [-1] + x[1:])
            elif v == 4:
                opt["mapping"] = {y: [[0], [g.one(n, -1)]] if g.maybe() else g.mapping(n) for y in d["labels"]}
            ops = [new]
            p = g.pool(n, base, 4)
            for _ in range(g.int(2, 6)):
                k = g.int(1, 4)
                xs = [g.of(p) for _ in range(k)]
                ys = [g.of(d["labels"]) for _ in range(k)]
                u = g.int(0, 7)
                j = g.int(0, k - 1)
                bad = list(xs[j])
                if u == 0:
                    bad = g.one(bad[:-1], bad + [1], [], bad * 2)
                elif u == 1:
                    bad[g.int(0, n - 1)] = g.one(base, -1, base + 1, 2 ** 31 - 1, -2 ** 31 + 1)
                elif u == 2:
                    ys = g.one(ys[:-1], ys + ["zz"], [])
                if u in (0, 1):
                    xs[j] = bad
                    if g.maybe(0.3):
                        ys[j] = "new label"
                t = g.r.random()
                if t < 0.7:
                    ops.append({"op": "W.train", "o": "w", "xs": xs, "ys": ys})
                elif u in (0, 1):
                    ops.append({"op": "W.classify", "o": "w", "xs": xs})
                elif u == 2:
                    ops.append({"op": "W.untrain", "o": "w", "xs": xs, "ys": ys, "how": "many"} if len(ys) != len(xs) else {"op": "W.state", "o": "w"})
                ops.append({"op": "W.state", "o": "w"})
            if base == 2 and g.maybe(0.4):
                ops.append({"op": "S.new", "o": "s"})
                for _ in range(3):
                    ops.append({"op": "S.add", "o": "s", "x": g.one(g.of(p), g.of(p), g.of(p)[:-1]), "y": g.one(g.of(d["labels"]), g.of(d["labels"]), "")})
                ops += [{"op": "W.trainset", "o": "w", "d": "s", "pairs": [[x["x"], x["y"]] for x in ops if x["op"] == "S.add"]},
                        {"op": "W.state", "o": "w"}, {"op": "W.classifyset", "o": "w", "d": "s"}]
            ops += [{"op": "W.classify", "o": "w", "xs": p}, {"op": "W.mental", "o": "w"}]
            yield g.scenario(ops)
        elif w < 0.8:
            new, d = g.clus("c")
            n, base = d["n"], d["base"]
            ops = []
            v = g.int(0, 6)
            if v == 0:
                bad = dict(new, **g.one({"ms": -1, "msden": 10}, {"ms": 11, "msden": 10}, {"th": 0}, {"th": -5}, {"lim": 0}, {"lim": -1}))
                ops.append(bad)
            elif v == 1:
                new["opt"]["base"] = g.one(1, 0, -1)
            elif v == 2:
                new["a"] = g.one(1, 0, n + 1)
            elif v == 3:
                new["opt"]["confidence"] = g.one(50, 9)
            ops.append(new)
            p = g.pool(n, base, 4)
            for _ in range(g.int(2, 5)):
                k = g.int(1, 4)
                xs = [g.of(p) for _ in range(k)]
                ys = [g.of(d["labels"]) for _ in range(k)]
                u = g.int(0, 6)
                j = g.int(0, k - 1)
                bad = list(xs[j])
                if u == 0:
                    xs[j] = g.one(bad[:-1], bad + [1], [], bad * 2)
                elif u == 1:
                    bad[g.int(0, n - 1)] = g.one(base, -1, base + 1, 2 ** 31 - 1, -2 ** 31 + 1)
                    xs[j] = bad
                elif u == 2:
                    ys = g.one(ys[:-1], ys + ["zz"], [])
                t = g.r.random()
                if t < 0.4:
                    ops.append({"op": "C.train", "o": "c", "xs": xs, "ys": ys})
                elif t < 0.6:
                    given = [[q, y] for q, y in enumerate(ys)]
                    ops.append({"op": "C.trainsemi", "o": "c", "xs": xs, "given": given[:g.int(0, len(given))]})
                elif t < 0.8:
                    ops.append({"op": "C.trainuns", "o": "c", "xs": xs})
                elif t < 0.9:
                    ops.append({"op": "C.classify", "o": "c", "xs": xs})
                else:
                    ops.append({"op": "C.classifyuns", "o": "c", "xs": xs})
                ops.append({"op": "C.state", "o": "c"})
            ops += [{"op": "C.classify", "o": "c", "xs": p}, {"op": "C.mental", "o": "c", "y": "who"}, {"op": "C.mentals", "o": "c"}]
            yield g.scenario(ops)
        elif w < 0.9:
            ops = data_objects(g)
            for _ in range(g.int(5, 12)):
                ops.append(g.of([{"op": "B.set", "o": "b", "i": g.int(-3, 30), "v": g.int(-1, 2)}, {"op": "B.get", "o": "b", "i": g.int(-3, 30)},
                                 {"op": "S.get", "o": "s", "i": g.int(-3, 6)}, {"op": "S.label", "o": "s", "i": g.int(0, 6)},
                                 {"op": "S.add", "o": "s", "x": g.one([0, 2], [1, -1], [300], [1, 0]), "y": g.one("", "k")},
                                 {"op": "B.bits", "o": "b", "x": g.one([0, 2], [1, 1], [-1, 0])},
                                 {"op": "S.load", "o": "t", "s": "nothing", "named": True},
                                 {"op": "S.load", "o": "t", "s": "x", "named": False, "ext": g.one("", ".txt", ".json", "s")},
                                 {"op": "H.set", "o": "h", "r": g.int(-2, 4), "a": 1, "v": 3}, {"op": "H.get", "o": "h", "r": g.int(-2, 9), "a": 5}]))
            ops += [{"op": "B.all", "o": "b"}, {"op": "H.data", "o": "h"}, {"op": "S.size", "o": "s"}] + show_set("s", 4)
            yield g.scenario(ops)
        else:
            ops = []
            for _ in range(g.int(2, 5)):
                dim, n, opt = g.int(1, 3), g.int(1, 8), {}
                v = g.int(0, 6)
                if v == 0:
                    dim = g.one(0, -1)
                elif v == 1:
                    n = g.one(0, -1)
                elif v == 2:
                    opt["bitsByKernel"] = g.one(0, -1)
                elif v == 3:
                    opt["activationDegree"] = g.one([-1, 10], [11, 10], [2, 1], [-1, 1])
                if g.maybe(0.3):
                    opt["useDirection"] = True
                ops.append({"op": "K.new", "o": "k%d" % len(ops), "dim": dim, "n": n, "opt": opt})
            dim = 2
            ops.append({"op": "K.new", "o": "k", "dim": dim, "n": 6, "opt": {"useDirection": True} if g.maybe(0.4) else {}})
            good = [[g.int(0, 9), g.int(0, 9)] for _ in range(3)]
            ops += [{"op": "K.transform", "o": "k", "seq": good},
                    {"op": "K.transform", "o": "k", "seq": good + g.one([[1]], [[1, 2, 3]], [[]])},
                    {"op": "K.transform", "o": "k", "seq": g.one([[1]], [[1, 2, 3]], [[]]) + good},
                    {"op": "K.transform", "o": "k", "seq": good}]
            yield g.scenario(ops)


def c22(g, count):
    for i in range(count):
        kind = g.one("D", "W", "W", "C", "C", "S", "B", "H", "K")
        ops = []
        impl = "*"
        if kind in "DWC":
            if kind == "D":
                n = g.int(2, 7)
                a, opt, base = g.disc_opt(n)
                new = {"op": "D.new", "o": "o0", "a": a, "n": n, "opt": opt}
                d = {"n": n, "base": base}
            elif kind == "W":
                new, d = g.wisard("o0")
            else:
                new, d = g.clus("o0")
            p = g.pool(d["n"], d["base"], 5)
            ops.append(new)
            objs = ["o0"]
            if g.maybe(0.5):
                ops.append(dict(new, o="o1"))
                objs.append("o1")

            def train(o):
                if kind == "D":
                    return {"op": "D.train", "o": o, "xs": [g.of(p) for _ in range(2)], "how": "list"}
                if kind == "C" and g.maybe(0.3):
                    return {"op": "C.trainuns", "o": o, "xs": [g.of(p) for _ in range(2)]}
                return {"op": kind + ".train", "o": o, "xs": [g.of(p) for _ in range(2)], "ys": [g.of(d["labels"]) for _ in range(2)]}

            def look(o):
                if kind == "D":
                    return [{"op": "D.state", "o": o}, {"op": "D.classify", "o": o, "xs": p, "how": "one"}]
                if kind == "W":
                    return [{"op": "W.state", "o": o}, {"op": "W.classify", "o": o, "xs": p}]
                return [{"op": "C.state", "o": o}, {"op": "C.classify", "o": o, "xs": p}, {"op": "C.classifyuns", "o": o, "xs": p}]

            ops.append(train("o0"))
            snaps = []
            for k in range(g.int(4, 10)):
                w = g.r.random()
                o = g.of(objs)
                e = "n%d" % k
                if w < 0.4:
                    ops.append(train(o))
                    other = g.of(objs)
                    ops += look(other)[:1]
                elif w < 0.55:
                    ops.append({"op": "save", "o": o, "s": "s%d" % k, "mode": "json"})
                    snaps.append("s%d" % k)
                elif w < 0.7 and snaps:
                    ops.append({"op": "load", "o": e, "s": g.of(snaps), "k": kind})
                    objs.append(e)
                elif w < 0.9:
                    impl = "cpp"
                    ops.append({"op": "copy", "o": e, "p": o, "how": g.one("copy", "assign")})
                    objs.append(e)
                elif len(objs) > 1:
                    ops.append({"op": "del", "o": o})
                    objs.remove(o)
                    ops += look(objs[0])[:1]
            for o in objs:
                ops += look(o)
        else:
            impl = g.one("*", "cpp")
            if kind == "K":
                yield g.scenario(canvases(g))
                continue
            ops = data_objects(g)
            e = {"S": "s", "B": "b", "H": "h"}[kind]
            for k in range(g.int(3, 8)):
                ops.append(g.of([{"op": "B.set", "o": "b", "i": 0, "v": g.int(0, 1)}, {"op": "S.add", "o": "s", "x": [1, 0], "y": "q"},
                                 {"op": "H.set", "o": "h", "r": 0, "a": g.int(0, 3), "v": g.int(0, 9)},
                                 {"op": "S.addbin", "o": "s", "b": "b", "y": "from b"}, {"op": "B.fromdata", "o": "b2", "p": "b"},
                                 {"op": "H.fromdata", "o": "h2", "p": "h"},
                                 {"op": "D.train", "o": "hd", "xs": [[1] * next(o["n"] for o in ops if o["op"] == "D.new")], "how": "list"}]))
                if impl == "cpp" and g.maybe(0.3):
                    ops.append({"op": "copy", "o": e + "c", "p": e, "how": g.one("copy", "assign")})
                    ops.append(g.of([{"op": "B.set", "o": "bc", "i": 0, "v": 1}, {"op": "B.all", "o": "bc"}] if kind == "B" else
                                    [{"op": "S.add", "o": "sc", "x": [1], "y": "c"}, {"op": "S.size", "o": "sc"}] if kind == "S" else
                                    [{"op": "H.set", "o": "hc", "r": 0, "a": 1, "v": 4}, {"op": "H.data", "o": "hc"}]))
            ops += [{"op": "B.all", "o": "b"}, {"op": "H.data", "o": "h"}, {"op": "H.data", "o": "h2"}, {"op": "D.state", "o": "hd"}] + show_set("s", 4)
        yield g.scenario(ops, impl=impl)


def c23(g, count):
    """objects that travel between the implementations"""
    for i in range(count):
        kind = g.one("D", "W", "W", "C", "C", "S")
        if kind == "S":
            x = [[g.int(0, 1) for _ in range(g.int(0, 20))] for _ in range(g.int(0, 5))]
            ops = [{"op": "S.new", "o": "s"}] + [{"op": "S.add", "o": "s", "x": v, "y": g.one("", g.of(LABELS))} for v in x]
            ops.append({"op": "S.save", "o": "s", "s": "f", "writable": True})
            ops2 = [{"op": "S.load", "o": "t", "s": "f", "named": True}] + show_set("t", len(x)) + \
                   [{"op": "S.add", "o": "t", "x": [1, 1, 0], "y": "more"}, {"op": "S.save", "o": "t", "s": "f2", "writable": True}]
            ops3 = [{"op": "S.load", "o": "u", "s": "f2", "named": True}] + show_set("u", len(x) + 1)
        else:
            if kind == "D":
                n = g.int(2, 7)
                a, opt, base = g.disc_opt(n)
                new = {"op": "D.new", "o": "o", "a": a, "n": n, "opt": opt}
                d = {"n": n, "base": base}
            elif kind == "W":
                new, d = g.wisard("o", pool=FILE_LABELS)
            else:
                new, d = g.clus("o", pool=FILE_LABELS)
            p = g.pool(d["n"], d["base"], 5)

            def train(o):
                if kind == "D":
                    return [{"op": "D.train", "o": o, "xs": [g.of(p) for _ in range(2)], "how": "list"}]
                k = g.int(1, 4)
                t = [{"op": kind + ".train", "o": o, "xs": [g.of(p) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]}]
                if kind == "C" and g.maybe():
                    t.append({"op": "C.trainuns", "o": o, "xs": [g.of(p) for _ in range(k)]})
                return t

            def look(o):
                if kind == "D":
                    return [{"op": "D.state", "o": o}, {"op": "D.classify", "o": o, "xs": p, "how": "one"}]
                if kind == "W":
                    return [{"op": "W.classify", "o": o, "xs": p}, {"op": "W.mental", "o": o}, {"op": "W.state", "o": o}]
                return [{"op": "C.classify", "o": o, "xs": p}, {"op": "C.classifyuns", "o": o, "xs": p}, {"op": "C.mentals", "o": o}, {"op": "C.state", "o": o}]

            def save(o, s):
                mode = g.one("json", "json", "file", "config")
                return dict({"op": "save", "o": o, "s": s, "mode": mode}, **({"prefix": "p"} if mode == "file" else {}))

            bad = {"op": "D.train" if kind == "D" else kind + ".train", "o": "o", "xs": [p[0] + [0]], "ys": ["bad"], "how": "one"}
            ops = [new] + (train("o") if g.maybe(0.9) else []) + ([bad] if g.maybe(0.3) else []) + look("o") + [save("o", "s1")]
            ops2 = [{"op": "load", "o": "o", "s": "s1", "k": kind}] + look("o") + train("o") + ([bad] if g.maybe(0.3) else []) + look("o") + [save("o", "s2")]
            ops3 = [{"op": "load", "o": "o", "s": "s2", "k": kind}] + look("o") + train("o") + [{"op": "load", "o": "q", "s": "s1", "k": kind}] + look("q") + look("o")
        g.k += 1
        yield {"id": "s%d" % g.k, "segs": [{"impl": "A", "ops": ops}, {"impl": "B", "ops": ops2}, {"impl": "A", "ops": ops3}], "files": False}


def rand_bytes(g, n):
    return [g.one(g.int(0, 255), g.int(0, 255), 0, 255, 128, 127, 10, 46) for _ in range(n)]


def b64(t):
    import base64
    return list(base64.b64encode(bytes(t)))


def c24(g, count):
    for i in range(count):
        ops = []
        if i < 52:
            ts = [rand_bytes(g, i)]
        elif i < 57:
            ts = [[b] for b in range((i - 52) * 52, min(256, (i - 51) * 52))]
        elif i < 60:
            ts = [[b, 255 - b] if i == 57 else [255 - b, b, b] for b in range(0, 256, 3)]
        else:
            ts = [rand_bytes(g, g.one(g.int(0, 12), g.int(0, 200), g.int(0, 2000))) for _ in range(4)]
        for t in ts:
            ops += [{"op": "E.encode", "t": t}, {"op": "E.decode", "t": b64(t)}]
        yield g.scenario(ops, impl="cpp")


# ------------------------------------------------------------------------------------------
# Texts and files that somebody else wrote, well formed or not.

def text_of(data):
    return bytes(b64(data)).decode()


def bin_text(x):
    pad = (8 - len(x) % 8) % 8
    v = list(x) + [0] * pad
    return text_of([pad] + [sum(b << (7 - j) for j, b in enumerate(v[i:i + 8])) for i in range(0, len(v), 8)])


def ram_text(cells):
    import struct
    return text_of(b"".join(struct.pack("<Qi", a, v) for a, v in cells))


ODD = ["=", "==", "====", "A", "AA", "AAA=", "A=AA", "#", "##", ".", "..", "-", "_", "\n", " ", "é", "ÿ", "Aé=", "\t", "AB==CD==", "AAAA",
       "/w==", "AQ==", "CA==", "BwA=", "AAA", "+/+/", "[", "\x7f"]


def spoil(g, t):
    """a change as harness/edits.py does it"""
    return g.one({"cut": g.int(0, 999)}, {"cut": g.one(999, 990, 950)}, {"ins": [g.one(0, 1000, g.int(0, 1000)), g.of(ODD)]},
                 {"over": [g.one(0, 999, 980, g.int(0, 999)), g.of(ODD)]}, {"set": g.one("", g.of(ODD), g.of(ODD) + g.of(ODD))})


def spoiled(g, t, p=0.6):
    import edits
    return edits.changed(t, spoil(g, t)) if g.maybe(p) else t


def any_bin_text(g):
    w = g.r.random()
    x = [g.int(0, 1) for _ in range(g.one(0, 1, 7, 8, 9, g.int(0, 40)))]
    if w < 0.7:
        return spoiled(g, bin_text(x))
    # any bytes: an impossible number of unused bits, bits that are not there
    return text_of([g.one(0, 1, 7, 8, 9, 127, 128, 255)] + rand_bytes(g, g.one(0, 0, 1, 1, 2, 5)))


def any_ram_text(g, cells=None, p=0.4):
    if cells is None:
        near = g.one(0, 0, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 8)
        cells = [(near + g.int(0, 7), g.one(0, 1, 2, 255, 256, 65536, g.int(0, 2 ** 31 - 1))) for _ in range(g.one(0, 1, 2, 3, 5))]
    w = g.r.random()
    if w < p / 2:
        import base64
        raw = base64.b64decode(ram_text(cells))
        raw = g.one(raw[:-1], raw[:-4], raw[:-8], raw + b"\0", raw + b"\0" * 11, raw[4:]) if raw else b"\0"
        return text_of(raw)
    return spoiled(g, ram_text(cells), p / 2)


def any_set_text(g):
    t = []
    for _ in range(g.one(0, 1, 2, 3, 4)):
        y = text_of(g.of(LABELS).encode() if g.maybe(0.8) else b"")
        e = y + "#" + bin_text([g.int(0, 1) for _ in range(g.int(0, 12))])
        if g.maybe(0.12):
            e = g.one(y, y + "#", "#", e + "#", "#" + e, spoiled(g, y, 1) + "#" + any_bin_text(g), y + bin_text([1]))
        t.append(e)
    t = ".".join(t)
    if g.maybe(0.15):
        t = g.one("." + t, t + ".", t.replace(".", "..", 1))
    t = spoiled(g, t, 0.25)
    for e in t.split("."):                       # labels are UTF-8
        try:
            import base64
            base64.b64decode(e.split("#")[0].encode(), validate=True).decode()
        except UnicodeDecodeError:
            return any_set_text(g)
        except ValueError:
            pass
    return t


def disc_edits(g, d, at, own):
    """changes to the text of a discriminator below the path at; own: base and ignoreZero belong to it"""
    n = d["n"]
    w = g.int(0, 17)
    A = lambda *p: at + list(p)
    if w < 5:
        return [dict(spoil(g, None), at=A("data"))]
    if w == 5:
        return [{"at": A("data"), "set": ".".join(any_ram_text(g, [(g.int(0, 3), g.int(1, 9))], 0.1) for _ in range(g.one(1, 2, 3)))}]
    if w == 6:
        return [{"at": A("data"), **g.one({"lost": 1}, {"del": 1}, {"set": ""}, {"set": None}, {"set": 7}, {"set": []})}]
    if w == 7:
        return [{"at": A("mapping", ["*", g.int(0, 9)], ["*", g.int(0, 9)]), "set": g.one(n, -1, n - 1, 0, 2 ** 31 - 1, -2 ** 31 + 1, n + 1)}]
    if w == 8:
        return [{"at": A("mapping", ["*", g.int(0, 9)]), **g.one({"del": 1}, {"set": "x"}, {"set": 3}, {"set": ["1"]}, {"set": [0] * 70})}]
    if w == 9:
        return [{"at": A("mapping"), "set": g.one([[0], [1]], [[n]], "x", {}, {"0": [0]}, 5, [[0, 1]])}]
    if w == 10:
        return [{"at": A("entrySize"), **g.one({"del": 1}, {"set": None}, {"set": "3"}, {"set": []}, {"set": 1}, {"set": n - 1}, {"set": 0},
                                                {"set": -n})}]
    if w == 11:
        return [{"at": A("count"), **g.one({"del": 1}, {"set": None}, {"set": "3"}, {"set": {}}, {"set": 7}, {"set": 70000})}]
    if w == 12 and own:
        return [{"at": A("base"), **g.one({"del": 1}, {"set": None}, {"set": 0}, {"set": 1}, {"set": -1}, {"set": -2}, {"set": "2"}, {"set": [2]},
                                           {"set": g.one(2, 3, 4, 17, 200)})}]
    if w == 13 and own:
        return [{"at": A("ignoreZero"), **g.one({"del": 1}, {"set": None}, {"set": "true"}, {"set": 1}, {"set": True}, {"set": False})}]
    if w == 14:
        return [{"at": list(at), "set": g.one("x", 5, [])}] if at else [{"at": A("version"), "del": 1}]
    if w == 15:
        # contents and addressing no longer agree, each alone is fine
        return [{"at": A("mapping", ["*", g.int(0, 9)]), "del": 1}] if g.maybe() else \
               [{"at": A("data"), "ins": [g.one(0, 1000), "."]}]
    if w == 16:
        return [{"at": A("data"), "ins": [1000, g.one("AAAAAAAAAAAFAAAA", "AAAAAAAAAAAFAAA=", ".AAAAAAAAAAAFAAAA")]}]
    return [{"at": A("unknown"), "set": 5}]


def model_edits(g, kind, d):
    if kind == "D":
        return disc_edits(g, d, [], True)
    some = ["*", g.int(0, 9)]
    if g.maybe(0.55):
        if kind == "W":
            return disc_edits(g, d, ["classes", some], False)
        return disc_edits(g, d, (["clusters", some] if g.maybe(0.7) else ["unsupervisedCluster"]) + ["discriminators", ["*", g.int(0, 9)]], False)
    if kind == "C" and g.maybe(0.5):
        k = g.one("minScore", "threshold", "discriminatorsLimit")
        v = {"minScore": [-0.25, 1.25, 2, -1, 0, 1, 0.5, "0.5", None, []], "threshold": [0, -1, -10, 1, 9, "9", None, {}],
             "discriminatorsLimit": [0, -1, -5, 9, 1000, "2", None, []]}[k]
        return [{"at": [k], **g.one({"del": 1}, {"set": g.of(v)}, {"set": g.of(v)}, {"set": g.of(v)})}]
    k = g.one("addressSize", "bleachingActivated", "verbose", "ignoreZero", "completeAddressing", "base", "confidence", "returnConfidence",
              "returnActivationDegree", "returnClassesDegrees", "searchBestConfidence", "version", "labels", "top")
    if k == "labels":
        q = "classes" if kind == "W" else "clusters"
        return [{"at": [q], **g.one({"del": 1}, {"set": None}, {"set": 3}, {"set": "x"}, {"set": {}})}]
    if k == "top" and kind == "W":
        return [g.one({"at": ["indexes"], "set": g.perm(d["n"])}, {"at": ["indexes"], "set": "x"}, {"at": ["indexes"], "set": {"a": 1}}, {"at": ["indexes"], "set": ["0"]},
                      {"at": ["mapping"], "set": {d["labels"][0]: [[0]]}}, {"at": ["mapping"], "set": {"new": [[d["n"] - 1, 0]]}}, {"at": ["mapping"], "set": 3},
                      {"at": ["mapping"], "set": {"new": 4}}, {"at": ["mapping"], "set": {"new": [4]}}, {"at": ["mapping"], "set": None})]
    if k == "addressSize":
        return [{"at": [k], **g.one({"del": 1}, {"set": None}, {"set": "2"}, {"set": []}, {"set": 2}, {"set": d["n"]})}]
    if k == "base":
        return [{"at": [k], **g.one({"del": 1} if d["base"] == 2 else {"set": 1}, {"set": 1}, {"set": 0}, {"set": -3}, {"set": "2"}, {"set": g.one(2, 3, 4, 17, 200)})}]
    if k == "confidence":
        return [{"at": [k], **g.one({"del": 1}, {"set": None}, {"set": "1"}, {"set": 1}, {"set": 2})}]
    return [{"at": [k], **g.one({"del": 1}, {"set": None}, {"set": "true"}, {"set": 1}, {"set": []}, {"set": True}, {"set": False})}]


def model_for_edits(g, small=True):
    """(ops, description): a trained model of some kind"""
    kind = g.one("D", "D", "W", "W", "C")
    labels = g.labels(g.int(1, 3), FILE_LABELS)
    if kind == "D":
        n = g.int(2, 7)
        a, opt, base = g.disc_opt(n, base=g.one(2, 2, 3, 5, 16))
        d = {"n": n, "base": base, "labels": labels}
        ops = [{"op": "D.new", "o": "m", "a": a, "n": n, "opt": opt}]
    elif kind == "W":
        new, d = g.wisard("m", n=g.int(2, 7), base=g.one(2, 2, 3, 5, 16), labels=labels)
        ops = [new]
    else:
        new, d = g.clus("m", n=g.int(2, 7), base=g.one(2, 2, 3, 5, 16), labels=labels, lim=g.one(1, 2, 3))
        ops = [new]
    d["p"] = g.pool(d["n"], d["base"], 4)
    k = g.one(0, 1, 3, 5)
    if kind == "D":
        ops += [{"op": "D.train", "o": "m", "xs": [g.of(d["p"]) for _ in range(k)], "how": "one"}]
    elif k:
        ops += [{"op": kind + ".train", "o": "m", "xs": [g.of(d["p"]) for _ in range(k)], "ys": [g.of(d["labels"]) for _ in range(k)]}]
        if kind == "C" and g.maybe(0.4):
            ops += [{"op": "C.trainuns", "o": "m", "xs": [g.of(d["p"]) for _ in range(2)]}]
    return kind, ops, d


def use_loaded(g, kind, o, d):
    p = d["p"]
    if kind == "D":
        ask = [{"op": "D.classify", "o": o, "xs": p, "how": "one"}, {"op": "D.state", "o": o}, {"op": "D.mental", "o": o}]
        more = [{"op": "D.train", "o": o, "xs": [g.of(p)], "how": "one"}]
    elif kind == "W":
        ask = [{"op": "W.classify", "o": o, "xs": p}, {"op": "W.state", "o": o}, {"op": "W.mental", "o": o}]
        more = [{"op": "W.train", "o": o, "xs": [g.of(p)], "ys": [g.of(d["labels"] + ["new"])]}]
    else:
        ask = [{"op": "C.classify", "o": o, "xs": p}, {"op": "C.state", "o": o}, {"op": "C.mentals", "o": o}, {"op": "C.classifyuns", "o": o, "xs": p}]
        more = [{"op": "C.train", "o": o, "xs": [g.of(p)], "ys": [g.of(d["labels"])]}]
    return ask + (more + ask[:2] if g.maybe(0.5) else [])


def c25(g, count):
    for i in range(count):
        w = g.r.random()
        files = g.maybe(0.5)
        segs = []
        if w < 0.16:
            ops = []
            for _ in range(6):
                ops += [{"op": "B.fromtext", "o": "b", "t": any_bin_text(g)}, {"op": "B.size", "o": "b"}, {"op": "B.all", "o": "b"}]
                if g.maybe(0.3):
                    ops += [{"op": "B.set", "o": "b", "i": g.int(0, 9), "v": 1}, {"op": "B.fromdata", "o": "c", "p": "b"}, {"op": "B.all", "o": "c"}]
            ops = [{"op": "B.bits", "o": "b", "x": [1, 0, 1]}, {"op": "B.bits", "o": "c", "x": []}] + ops
            segs = [{"impl": "*", "ops": ops}]
        elif w < 0.32:
            ops = [{"op": "H.empty", "o": "h"}, {"op": "H.empty", "o": "k"}]
            for _ in range(4):
                t = spoiled(g, ".".join(any_ram_text(g, p=0.15) for _ in range(g.one(1, 1, 2, 3))), 0.2)
                ops += [{"op": "H.fromtext", "o": "h", "t": t}, {"op": "H.data", "o": "h"}, {"op": "H.ram", "o": "h", "r": g.int(0, 2)},
                        {"op": "H.get", "o": "h", "r": 0, "a": g.int(0, 7)}, {"op": "H.compare", "o": "h", "p": "k"}]
                if g.maybe(0.4):
                    ops += [{"op": "H.fromdata", "o": "k", "p": "h"}, {"op": "H.set", "o": "h", "r": 1, "a": 3, "v": 4}]
            segs = [{"impl": "*", "ops": ops}]
        elif w < 0.38:
            ops = []
            for _ in range(6):
                ops.append({"op": "E.decode", "t": list(g.one(any_bin_text(g), any_ram_text(g), spoiled(g, text_of(rand_bytes(g, g.int(0, 12))), 0.8)).encode())})
            segs = [{"impl": "cpp", "ops": ops}]
        elif w < 0.55:
            fs = ["f%d" % k for k in range(3)]
            segs = [{"impl": "edit", "ops": [{"op": "S.write", "s": f, "t": any_set_text(g)} for f in fs] +
                     [{"op": "H.write", "s": "h" + f, "t": spoiled(g, ".".join(any_ram_text(g, p=0.15) for _ in range(g.one(1, 2, 3))), 0.2)} for f in fs[:2]]}]
            ops = [{"op": "S.new", "o": "s"}, {"op": "H.empty", "o": "h"}]
            for f in fs:
                ops += [{"op": "S.load", "o": "s", "s": f, "named": True}, {"op": "S.size", "o": "s"}]
                ops += [{"op": q, "o": "s", "i": k} for k in range(4) for q in ("S.get", "S.label")]
            for f in fs[:2]:
                ops += [{"op": "H.read", "o": "h", "s": "h" + f}, {"op": "H.data", "o": "h"}]
            ops += [{"op": "S.add", "o": "s", "x": [1, 0], "y": "q"}, {"op": "S.save", "o": "s", "s": "g", "writable": True},
                    {"op": "S.load", "o": "t", "s": "g", "named": True}, {"op": "S.size", "o": "t"}]
            segs.append({"impl": "*", "ops": ops})
        else:
            kind, ops, d = model_for_edits(g)
            save = {"op": "save", "o": "m", "s": "s0", "mode": "json"} if g.maybe(0.65) else file_save(g, "m", "s0", g.one("", "p"))
            changes = []
            back = []
            for k in range(5):
                v = g.r.random()
                e = {"op": "edit", "s": "s0", "d": "e%d" % k, "k": kind, "edits": model_edits(g, kind, d) if v < 0.85 else []}
                if v < 0.85 and g.maybe(0.1):
                    e["edits"] += model_edits(g, kind, d)
                if v >= 0.85:
                    e["text"] = g.one({"cut": g.int(0, 999)}, {"cut": 999}, {"set": g.one("", "null", "[]", "{}", "3", "\"x\"", "[1]", "{", "nul", "\xff")},
                                      {"over": [0, "["]}, {"ins": [1000, g.one("}", "{}", ",", " ", "\n", "x")]}, {"ins": [0, g.one(" ", "\n\t", "}", "x")]})
                if g.maybe(0.2):
                    e["indent"] = g.one(0, 1, 4)
                changes.append(e)
                back += [{"op": "load", "o": "x", "s": "e%d" % k, "k": kind, "as": "m"}]
                back += use_loaded(g, kind, "x", d)
                if g.maybe(0.3):
                    back += [{"op": "save", "o": "x", "s": "n%d" % k, "mode": "json"}, {"op": "load", "o": "y", "s": "n%d" % k, "k": kind}] + use_loaded(g, kind, "y", d)[:2]
            first = [{"op": "load", "o": "x", "s": "s0", "k": kind}, {"op": "load", "o": "y", "s": "s0", "k": kind}]
            segs = [{"impl": "*", "ops": ops + [save]}, {"impl": "edit", "ops": changes}, {"impl": "*", "ops": first + back + [{"op": kind + ".state", "o": "x"}]}]
        sc = g.scenario([], files=files)
        sc["segs"] = segs
        yield sc


# ------------------------------------------------------------------------------------------
# Large ones: entries, RAMs, cells, classes, clusters, batches, labels and files whose sizes and
# counts do not fit a byte (or two), where narrow types, fixed buffers and caches give way.

SIZES = [129, 255, 256, 257, 300, 511, 513, 600, 1025]


def large_disc(g, o="d", shape=None):
    shape = shape or g.one("wide", "wide", "deep", "deep", "slow")
    opt = {}
    if shape == "wide":                                  # many positions, many RAMs
        n, a = g.of(SIZES), g.one(2, 3, 5, 8, 16)
        base = g.one(2, 2, 3, 10)
    elif shape == "slow":                                # few RAMs with long addresses
        n, a, base = g.of(SIZES), g.one(33, 40, 60, 63), 2
    else:                                                # RAMs with many cells
        n, a, base = g.int(16, 30), g.int(10, 12), g.one(2, 2, 3, 10)
    if base != 2:
        opt["base"] = base
    if g.maybe(0.3):
        opt["completeAddressing"] = False
    if g.maybe(0.2):
        opt["ignoreZero"] = True
    k = g.int(0, 3)
    if k == 1:
        opt["indexes"] = g.perm(n)
    elif k == 2 and shape == "wide":
        opt["mapping"] = [g.r.sample(range(n), g.int(1, 6)) for _ in range(g.of(SIZES) % 400)]
    xs = [g.row(n, base) for _ in range(g.int(260, 330) if shape == "deep" else g.int(2, 5))]
    if shape == "deep":
        xs = [[g.int(0, base - 1) for _ in range(n)] for _ in xs]
    return {"op": "D.new", "o": o, "a": a, "n": n, "opt": opt}, {"n": n, "base": base, "a": a, "opt": opt, "xs": xs, "shape": shape,
                                                              "probe": [g.of(xs) for _ in range(4)] + [g.mutate(g.of(xs), base) for _ in range(4)] + [[0] * n]}


def large_labels(g, k, files=False):
    y = g.labels(min(k, 5), FILE_LABELS) + ["n%d" % i for i in range(k)]
    if not files:
        y[-1] = "long" * g.one(20, 64, 300)
    return y[-k:] if k > 5 else y[:k - 1] + y[-1:]


def large_model(g, kind, o="m", shape=None, fields=(), files=False):
    """a trained Wisard or ClusWisard: (ops, description)"""
    shape = shape or g.one("wide", "deep", "many", "many")
    w, d = large_disc(g, o, "wide" if shape == "many" else shape)
    if shape == "many":                                  # many classes, or many discriminators per class
        n, a, base = g.int(8, 20), g.int(2, 4), g.one(2, 2, 3)
    else:
        n, a, base = d["n"], d["a"], d["base"]
    opt = {f: True for f in fields}
    if base != 2:
        opt["base"] = base
    for k in ("completeAddressing", "ignoreZero"):
        if k in w["opt"]:
            opt[k] = w["opt"][k]
    labels = large_labels(g, g.one(40, 130, 260) if shape == "many" and (kind == "W" or g.maybe(0.4)) else g.int(2, 3), files)
    xs = d["xs"] if shape != "many" else [[g.int(0, base - 1) for _ in range(n)] for _ in range(12)]
    if kind == "W":
        if "indexes" in w["opt"] and shape != "many":
            opt["indexes"] = w["opt"]["indexes"]
        if "mapping" in w["opt"] and shape != "many":
            opt["mapping"] = {y: w["opt"]["mapping"] for y in labels if g.maybe(0.8)}
        new = {"op": "W.new", "o": o, "a": a, "opt": opt}
    else:
        lim = g.one(1, 2, 3) if len(labels) > 10 or shape != "many" else g.one(20, 40)
        new = {"op": "C.new", "o": o, "a": a, "ms": 1, "msden": g.one(1, 2), "th": g.one(2, 10, 100000), "lim": lim, "opt": opt}
        if shape == "many" and len(labels) <= 10:
            xs = [[g.int(0, base - 1) for _ in range(n)] for _ in range(g.int(40, 60))]
    if len(labels) > 10:
        pairs = [(g.of(xs), y) for y in labels] + [(g.of(xs), g.of(labels)) for _ in range(10)]
    else:
        pairs = [(x, g.of(labels)) for x in xs]
        pairs += [(xs[i % len(xs)], y) for i, y in enumerate(labels)]
    g.r.shuffle(pairs)
    ops = [new, {"op": kind + ".train", "o": o, "xs": [x for x, _ in pairs], "ys": [y for _, y in pairs]}]
    d = {"o": o, "n": n, "a": a, "base": base, "labels": labels, "pairs": pairs, "xs": xs, "opt": opt, "shape": shape,
         "probe": [g.of(xs) for _ in range(3)] + [g.mutate(g.of(xs), base) for _ in range(3)]}
    return ops, d


def large_ask(g, kind, o, d, state=True):
    if kind == "D":
        ops = [{"op": "D.classify", "o": o, "xs": d["probe"], "how": g.one("one", "bin") if d["base"] == 2 else "one"}]
    else:
        ops = [{"op": kind + ".classify", "o": o, "xs": d["probe"]}]
    return ops + ([{"op": kind + ".state", "o": o}] if state else [])


def large_more(g, kind, o, d):
    x = g.mutate(g.of(d["xs"]), d["base"], 3)
    d["probe"][0] = x
    if kind == "D":
        return [{"op": "D.train", "o": o, "xs": [x], "how": "one"}]
    return [{"op": kind + ".train", "o": o, "xs": [x, x], "ys": [g.of(d["labels"]), g.of(d["labels"])]}]


def large_start(g, kind, o="m", files=False, shape=None, fields=()):
    if kind == "D":
        new, d = large_disc(g, o, shape)
        return [new, {"op": "D.train", "o": o, "xs": d["xs"], "how": "list"}], d
    return large_model(g, kind, o, shape, fields, files)


def large_vast(g, kind, prop):
    """positions beyond two bytes"""
    n = g.one(65537, 65600, 66001)
    opt = {}
    a = g.one(32, 60)
    far = [0, 1, 65535, 65536, n - 1, n - 2] + [g.int(0, n - 1) for _ in range(6)]
    far = list(dict.fromkeys(far))
    k = g.int(0, 2) if prop == "C02" else g.one(1, 1, 1, 2) if prop == "C01" else 1
    if k == 1:
        g.r.shuffle(far)
        opt["mapping"] = [far[j:j+3] for j in range(0, len(far), 3)] + [g.r.sample(range(n), 4) for _ in range(3)]
        far = [p for r in opt["mapping"] for p in r]
    elif k == 2:
        opt["indexes"] = g.perm(n)
    x = [0] * n
    y = [g.int(0, 1) for _ in range(n)]
    z = list(y)
    z[g.of(far)] ^= 1
    v = list(x)
    v[g.one(65536, n - 1)] = 1
    if k != 1:
        x = y
    d = {"n": n, "base": 2, "a": a, "opt": opt, "xs": [x, y], "labels": ["a", "b"], "probe": [x, z, v]}
    if kind == "D":
        return [{"op": "D.new", "o": "m", "a": a, "n": n, "opt": opt}, {"op": "D.train", "o": "m", "xs": [x, y][k != 1:], "how": "list"}], d
    w = dict(opt, mapping={"a": opt["mapping"]}) if k == 1 else opt
    return [{"op": "W.new", "o": "m", "a": a, "opt": w}, {"op": "W.train", "o": "m", "xs": [x, y][k != 1:], "ys": ["a", g.one("a", "b")][k != 1:]}], d


def large(g, prop, count):
    fields = ("returnConfidence", "returnActivationDegree", "returnClassesDegrees")
    for i in range(count):
        files = False
        segs = None
        impl = "*"
        if prop in ("C01", "C02", "C03"):
            kind = g.one("D", "D", "W") if prop != "C02" else g.one("D", "W", "C")
            if i % 8 == 7:
                kind = g.one("D", "W")
            ops, d = large_vast(g, kind, prop) if i % 8 == 7 else large_start(g, kind, shape=("wide", "deep", "slow")[i % 3] if prop == "C01" else g.one("wide", "slow") if prop == "C02" else "slow")
            if i % 8 == 7 and "mapping" not in d["opt"]:
                d["probe"] = d["probe"][1:2]
                ops += large_ask(g, kind, "m", d, prop != "C01")
            else:
                ops += large_ask(g, kind, "m", d) + large_more(g, kind, "m", d) + large_ask(g, kind, "m", d, prop != "C01")
        elif prop in ("C04", "C05"):
            ops, d = large_model(g, "W", shape=("many", "wide", "deep")[i % 3], fields=() if prop == "C04" else [f for f in fields if g.maybe(0.7)])
            ops += large_ask(g, "W", "m", d, False) + large_more(g, "W", "m", d) + large_ask(g, "W", "m", d, False)
        elif prop == "C06":
            kind = ("W", "C", "D")[i % 3]
            ops, d = large_start(g, kind, shape=g.one("deep", "deep", "wide", "many" if kind != "D" else "slow") if i > 3 else "deep")
            big = [g.of(d["probe"]) for _ in range(g.one(257, 300, 513, 1025))] if d["n"] < 40 and len(d.get("labels", [])) < 10 else d["probe"]
            ops += large_ask(g, kind, "m", d) + large_ask(g, kind, "m", dict(d, probe=big)) + large_ask(g, kind, "m", d)
        elif prop == "C07":
            ops, d = large_model(g, "W")
            out = list(d["pairs"])
            g.r.shuffle(out)
            k = g.one(len(out) // 2, len(out))
            ops += large_ask(g, "W", "m", d) + [{"op": "W.untrain", "o": "m", "xs": [x for x, _ in out[:k]], "ys": [y for _, y in out[:k]], "how": g.one("one", "many")}]
            ops += large_ask(g, "W", "m", d) + large_more(g, "W", "m", d) + large_ask(g, "W", "m", d)
        elif prop == "C08":
            kind = g.one("W", "C", "D")
            ops, d = large_start(g, kind, shape=g.one("deep", "deep", "slow" if kind == "D" else "deep", "many" if kind != "D" else "deep"))
            q = {"D": [{"op": "D.mental", "o": "m"}], "W": [{"op": "W.mental", "o": "m"}],
                 "C": [{"op": "C.mentals", "o": "m"}, {"op": "C.mental", "o": "m", "y": d.get("labels", [0])[0]}]}[kind]
            ops += q + large_more(g, kind, "m", d) + q
            if kind != "C" and d["n"] < 100:
                t = g.one(32768, 40000, 65537)
                ops.append({"op": "D.trainrep", "o": "m", "x": d["xs"][0], "times": t} if kind == "D" else
                           {"op": "W.trainrep", "o": "m", "x": d["xs"][0], "y": d["labels"][0], "times": t})
                ops += q
        elif prop in ("C09", "C10", "C15"):
            kind = {"C09": g.one("D", "W"), "C10": g.one("D", "W", "C"), "C15": "C"}[prop]
            files = prop == "C10"
            ops, d = large_start(g, kind, files=files, shape=g.one("wide", "deep", "deep", "slow" if kind == "D" else "many"))
            m = {"mode": "file", "prefix": g.one("", "p")} if files else {"mode": "json"}
            if kind == "C":
                ops.append({"op": "C.trainuns", "o": "m", "xs": d["xs"][:5]})
            ops += [dict({"op": "save", "o": "m", "s": "s1"}, **m)] + large_more(g, kind, "m", d)
            ops += [dict({"op": "save", "o": "m", "s": "s2"}, **m), {"op": "load", "o": "x", "s": "s1", "k": kind}] + large_ask(g, kind, "x", d)
            ops += [{"op": "load", "o": "y", "s": "s2", "k": kind}] + large_ask(g, kind, "y", d) + large_more(g, kind, "y", d) + large_ask(g, kind, "y", d) + large_ask(g, kind, "m", d)
        elif prop in ("C11", "C12", "C13", "C14"):
            ops, d = large_model(g, "C", shape=("many", "deep", "wide", "many")[i % 4])
            if prop == "C12":
                k = min(len(d["pairs"]), 30)
                ops.append({"op": "C.trainsemi", "o": "m", "xs": [x for x, _ in d["pairs"][:k]],
                            "given": [[j, d["pairs"][j][1]] for j in range(k) if g.maybe(0.7) or j == 0]})
            if prop == "C13":
                ops += [{"op": "C.trainuns", "o": "m", "xs": d["xs"][:20]}, {"op": "C.classifyuns", "o": "m", "xs": d["probe"]},
                        {"op": "C.trainuns", "o": "m", "xs": d["xs"][:40]}, {"op": "C.classifyuns", "o": "m", "xs": d["probe"]}]
            ops += large_ask(g, "C", "m", d) + large_more(g, "C", "m", d) + large_ask(g, "C", "m", d)
        elif prop == "C16":
            n = g.one(2047, 4096, 8191, 8193, 32768, 65535, 65537, 70001)
            x = [g.int(0, 1) for _ in range(n)]
            k = [0, n - 1, n // 2, g.int(0, n - 1), 32767 % n, 8192 % n]
            ops = [{"op": "B.bits", "o": "b", "x": x}, {"op": "B.size", "o": "b"}]
            for j in k:
                ops += [{"op": "B.set", "o": "b", "i": j, "v": 1 - x[j]}, {"op": "B.get", "o": "b", "i": j, "how": "get"}]
            ops += [{"op": "B.fromdata", "o": "c", "p": "b"}, {"op": "B.size", "o": "c"}, {"op": "B.all", "o": "c"},
                    {"op": "B.get", "o": "c", "i": n, "how": "item"}]
        elif prop == "C17":
            files = True
            k = g.one(3, 130, 257, 300)
            ops = [{"op": "S.new", "o": "s"}]
            for j in range(k):
                n = g.int(0, 9) if k > 3 else g.one(300, 2049, 65537)
                y = g.of(LABELS) if k > 3 else g.one("q" * 255, "q" * 256, "né" * 3000, "#" * 300)
                ops.append({"op": "S.add", "o": "s", "x": [g.int(0, 1) for _ in range(n)], "y": y if g.maybe(0.8) else ""})
            show = [{"op": "S.size", "o": "%"}] + [{"op": w, "o": "%", "i": j} for j in g.r.sample(range(k), min(k, 8)) + [k - 1, k] for w in ("S.get", "S.label")]
            ops += [dict(q, o="s") for q in show] + [{"op": "S.save", "o": "s", "s": "f", "writable": True}, {"op": "S.load", "o": "t", "s": "f", "named": True}]
            ops += [dict(q, o="t") for q in show]
        elif prop == "C18":
            new, d = large_disc(g, "d", g.one("wide", "deep", "deep"))
            ops = [new, {"op": "D.train", "o": "d", "xs": d["xs"], "how": "list"}, {"op": "H.from", "o": "h", "p": "d", "k": "D"}]
            rams = d["n"] // d["a"]
            for j in range(6):
                ops += [{"op": "H.set", "o": "h", "r": g.one(0, rams - 1, g.int(0, rams - 1), 256, 300), "a": g.one(0, 5, 1000), "v": g.int(1, 70000)},
                        {"op": "H.get", "o": "h", "r": g.one(0, rams - 1, rams, 300), "a": g.one(0, 5, 1000)}]
            ops += [{"op": "H.data", "o": "h"}, {"op": "H.ram", "o": "h", "r": g.one(0, rams - 1, 256)},
                    {"op": "H.fromdata", "o": "k", "p": "h"}, {"op": "H.compare", "o": "h", "p": "k"}, {"op": "H.set", "o": "k", "r": rams - 1, "a": 1, "v": 9},
                    {"op": "H.compare", "o": "h", "p": "k"}, {"op": "H.data", "o": "h"}]
        elif prop == "C19":
            n = g.of(SIZES)
            mx = g.one(255, 256, 300, 1000, 5000, 70000, 70000)
            ops = [{"op": "Y.new", "o": "y", "img": [g.one(0, mx, g.int(0, mx)) for _ in range(n if mx < 1001 else 40 if mx < 50000 else 5)]}, {"op": "Y.make", "o": "y"}, {"op": "Y.make", "o": "y"}]
            q = mx // 10
            img = [q * g.int(0, 10) for _ in range(20 if mx < 50000 else 5)] + [10 * q]
            ops += [{"op": "Y.new", "o": "z", "img": img}, {"op": "Y.makemany", "o": "z", "n": 500, "len": len(img)}]
        elif prop == "C20":
            dim = g.one(1, 2, 5)
            n = g.one(129, 256, 300)
            opt = {"bitsByKernel": g.one(1, 3), "activationDegree": g.one([1, 16], [1, 4], [1, 2], [1, 1])}
            seq = [[g.int(-3, 3) for _ in range(dim)] for _ in range(g.one(1, 5, 20))]
            ops = [{"op": "K.new", "o": "k", "dim": dim, "n": n, "opt": opt}, {"op": "K.transform", "o": "k", "seq": seq},
                   {"op": "K.transform", "o": "k", "seq": seq[::-1]}]
        elif prop == "C21":
            kind = g.one("W", "C", "D")
            ops, d = large_start(g, kind, shape="wide" if i % 2 else None)
            x = g.of(d["xs"])
            # only a value that is read is checked; at the end of a long list nothing before it is learned
            bads = [g.one(x + [0], x[:-1], [-1 if g.maybe() else d["base"]] * d["n"])]
            if i % 2:                                    # one position, often read by one RAM only (or by none)
                bads = []
                for _ in range(4):
                    k = g.one(d["n"] - 1, d["n"] - 2, g.int(0, d["n"] - 1), g.int(d["n"] // 2, d["n"] - 1), g.int(d["n"] // 2, d["n"] - 1))
                    bads.append(x[:k] + [g.one(-1, d["base"], d["base"] + 254)] + x[k+1:])
            ops += large_ask(g, kind, "m", d)
            for bad in bads:
                ops += [{"op": "D.train", "o": "m", "xs": [bad], "how": "one"}] if kind == "D" else \
                       [{"op": kind + ".train", "o": "m", "xs": [bad], "ys": [d["labels"][0]]}]
                ops += [{"op": kind + ".classify", "o": "m", "xs": [bad], **({"how": "one"} if kind == "D" else {})}]
            ops += large_ask(g, kind, "m", d)
        elif prop == "C22":
            kind = g.one("W", "C", "D")
            ops, d = large_start(g, kind)
            ops2, e = large_start(g, kind, "k", shape="deep")
            ops += ops2 + large_ask(g, kind, "m", d) + [{"op": "save", "o": "k", "s": "s", "mode": "json"}, {"op": "load", "o": "x", "s": "s", "k": kind}]
            ops += large_more(g, kind, "x", e) + [{"op": "del", "o": "k"}] + large_ask(g, kind, "x", e) + large_ask(g, kind, "m", d)
        elif prop == "C23":
            kind = g.one("W", "C", "D")
            ops, d = large_start(g, kind)
            m = g.one({"mode": "json"}, {"mode": "file", "prefix": "p"}) if not any("long" in y for y in d.get("labels", [])) else {"mode": "json"}
            segs = [{"impl": "A", "ops": ops + large_ask(g, kind, "m", d) + [dict({"op": "save", "o": "m", "s": "s1"}, **m)]},
                    {"impl": "B", "ops": [{"op": "load", "o": "m", "s": "s1", "k": kind}] + large_ask(g, kind, "m", d) + large_more(g, kind, "m", d) + large_ask(g, kind, "m", d)}]
        elif prop == "C25":
            w = i % 4
            if w == 0:
                n = g.one(2047, 4096, 65537, 70001)
                t = bin_text([g.int(0, 1) for _ in range(n)])
                import edits
                e = g.one({"cut": 999}, {"over": [g.int(1, 999), "="]}, {"ins": [g.int(0, 1000), "A"]}, {"over": [g.int(0, 999), "\x7f"]})
                ops = [{"op": "B.fromtext", "o": "b", "t": t}, {"op": "B.size", "o": "b"}, {"op": "B.fromtext", "o": "b", "t": edits.changed(t, e)},
                       {"op": "B.size", "o": "b"}, {"op": "B.all", "o": "b"}]
            elif w == 1:
                k = g.one(130, 257, 300)
                es = [text_of(b"y%d" % (j % 7)) + "#" + bin_text([g.int(0, 1) for _ in range(g.int(0, 9))]) for j in range(k)]
                bad = list(es)
                bad[g.one(0, k - 1, k // 2)] = g.one("", "#", "eA==", "eA==#", "eA#AA==")
                ops = [{"op": "S.load", "o": "s", "s": f, "named": True} for f in ("f", "e")]
                ops += [{"op": "S.size", "o": "s"}] + [{"op": q, "o": "s", "i": j} for j in (0, k - 2, k - 1, k) for q in ("S.get", "S.label")]
                segs = [{"impl": "edit", "ops": [{"op": "S.write", "s": "f", "t": ".".join(es)}, {"op": "S.write", "s": "e", "t": ".".join(bad)}]},
                        {"impl": "*", "ops": ops}]
            else:
                kind = g.one("D", "W", "C") if w == 2 else g.one("D", "D", "W")
                ops, d = large_start(g, kind, shape=g.one("wide", "deep", "slow") if kind == "D" else g.one("wide", "deep"), files=True)
                at = {"D": [], "W": ["classes", ["*", 0]], "C": ["clusters", ["*", 0], "discriminators", ["*", 0]]}[kind] + ["data"]
                es = [{"cut": 999}, {"cut": g.int(1, 998)}, {"ins": [g.int(0, 1000), "."]}, {"over": [g.int(0, 999), "="]}, {"ins": [g.int(0, 1000), "AAAA"]}]
                segs = [{"impl": "*", "ops": ops + [{"op": "save", "o": "m", "s": "s0", "mode": g.one("json", "file")}]},
                        {"impl": "edit", "ops": [{"op": "edit", "s": "s0", "d": "e%d" % j, "k": kind, "edits": [dict(e, at=at)]} for j, e in enumerate(es)]},
                        {"impl": "*", "ops": [{"op": "load", "o": "x", "s": "s0", "k": kind}] + large_ask(g, kind, "x", d) +
                         [{"op": "load", "o": "x", "s": "e%d" % j, "k": kind} for j in range(len(es))] + large_ask(g, kind, "x", d)}]
        else:
            impl = "cpp"
            t = rand_bytes(g, g.one(3001, 4096, 32768, 65535, 65536, 65537, 70001))
            ops = [{"op": "E.encode", "t": t}, {"op": "E.decode", "t": b64(t)}]
        sc = g.scenario(ops if segs is None else [], impl=impl, files=files)
        if segs is not None:
            sc["segs"] = segs
        yield sc


# ------------------------------------------------------------------------------------------
# The classes below the public ones (C++ only): a single RAM, a single cluster, the decision.

def inner_ram(g):
    n = g.int(1, 10)
    base = g.base() if g.maybe(0.8) else g.of(WIDE)
    top = widest(base)
    k = g.one(1, 2, 2, 3, 4, g.int(1, 8), top, top - 1, top + 1)
    wide = k > 8
    iz = g.maybe(0.25)
    if g.maybe(0.4):
        new = {"op": "R.new", "o": "r", "n": n, "a": k, "iz": iz, "base": base}
    else:
        new = {"op": "R.idx", "o": "r", "n": n, "idx": [g.int(0, n - 1) for _ in range(k)] if g.maybe(0.5) or k > n else g.r.sample(range(n), k),
               "iz": iz, "base": base}
    ops = [new]
    if k <= top:
        p = g.pool(n, base, g.int(1, 5)) + [[base - 1] * n]
        learned = []
        for _ in range(g.int(2, 7)):
            w = g.r.random()
            if w < 0.5:
                x = g.of(p)
                learned.append(x)
                ops.append({"op": "R.train", "o": "r", "x": x, "how": g.one("", "bin") if base == 2 else ""})
            elif w < 0.65 and learned:
                ops.append({"op": "R.untrain", "o": "r", "x": learned.pop(g.int(0, len(learned) - 1))})
            elif w < 0.75:
                bad = [g.one(-1, base, base + 1, 2 ** 31 - 1, -2 ** 31)] * n
                ops.append(g.one({"op": "R.train", "o": "r", "x": bad}, {"op": "R.untrain", "o": "r", "x": bad}, {"op": "R.vote", "o": "r", "xs": [g.of(p), bad]}))
            else:
                ops.append({"op": "R.mental", "o": "r"})
            if g.maybe(0.5):
                ops.append({"op": "R.vote", "o": "r", "xs": p[:4] + [g.mutate(g.of(p), base)], "how": g.one("", "bin") if base == 2 else ""})
        ask = [{"op": "R.vote", "o": "%", "xs": p + [g.mutate(g.of(p), base) for _ in range(3)]}, {"op": "R.mental", "o": "%"}, {"op": "R.size", "o": "%"},
               {"op": "R.state", "o": "%"}]
        ops += [dict(q, o="r") for q in ask]
        ops.append(g.one({"op": "R.again", "o": "q", "p": "r"}, {"op": "copy", "o": "q", "p": "r"}, {"op": "copy", "o": "q", "p": "r", "how": "assign"}))
        ops += [{"op": "R.train", "o": g.one("q", "r"), "x": g.of(p)}] + [dict(q, o=o) for o in ("q", "r") for q in ask]
    return ops


def inner_cluster(g):
    n = g.int(2, 7)
    base = g.one(2, 2, 2, 3, 10, 300)
    a = g.int(2, min(n, 4)) if g.maybe(0.93) else n + 1
    msden = g.one(1, 2, 4, 10, 100)
    new = {"op": "U.new", "o": "u", "n": n, "a": a, "ms": g.int(0, msden), "msden": msden, "th": g.one(1, 2, 3, 10, 100), "lim": g.one(1, 2, 3, 5, 12),
           "complete": g.maybe(0.7), "iz": g.maybe(0.2), "base": base}
    p = g.pool(n, base, g.int(2, 8))
    ops = [new]
    ask = lambda o: [{"op": "U.classify", "o": o, "xs": p[:5] + [g.mutate(g.of(p), base)]}, {"op": "U.mentals", "o": o}, {"op": "U.sizes", "o": o},
                     {"op": "U.state", "o": o, "base": base, "iz": new["iz"]}]
    for _ in range(g.int(3, 14)):
        w = g.r.random()
        if w < 0.75:
            x = g.of(p) if g.maybe(0.8) else g.mutate(g.of(p), base)
            ops.append({"op": "U.train", "o": "u", "x": x, "how": g.one("", "bin") if base == 2 else ""})
        elif w < 0.82:
            ops.append({"op": "U.train", "o": "u", "x": g.one(p[0] + [0], p[0][:-1], [base] * n, [-1] * n)})
        else:
            ops.append(g.of(ask("u")))
    ops += ask("u")
    for _ in range(g.int(0, 3)):
        ops.append({"op": "U.score", "o": "u", "votes": [g.one(0, 0, 1, 2, g.int(0, 9), 40000) for _ in range(g.int(0, 6))]})
    ops.append(g.one({"op": "U.again", "o": "v", "p": "u"}, {"op": "copy", "o": "v", "p": "u"}, {"op": "copy", "o": "v", "p": "u", "how": "assign"}))
    ops += [{"op": "U.train", "o": g.one("u", "v"), "x": g.of(p)} for _ in range(g.int(1, 4))] + ask("u") + ask("v")
    return ops


def inner_decision(g):
    ops = []
    for _ in range(g.int(3, 8)):
        labels = g.labels(g.one(1, 2, 2, 3, 3, 4, 5, 6))
        r = g.int(1, 6)
        top = g.one(1, 2, 3, 5, 20)
        same = g.maybe(0.7)
        votes = [[y, [g.one(0, 1, top, g.int(0, top)) for _ in range(r if same else g.int(0, 6))]] for y in labels]
        if g.maybe(0.3) and len(votes) > 1:              # ties, up to the last level
            votes[1][1] = g.r.sample(votes[0][1], len(votes[0][1]))
        ops += [{"op": "V.scores", "votes": votes, "bleach": bl, "conf": c, "how": g.int(0, 2)} for bl in (True, False) for c in (1, g.int(1, 4))]
        s = [[y, g.one(0, 1, top, g.int(0, 2 * top))] for y in labels]
        ops += [{"op": "V.winner", "scores": s}, {"op": "V.lead", "scores": s}]
    return ops


INNER = {"C01": (inner_ram,), "C03": (inner_ram,), "C04": (inner_decision,), "C05": (inner_decision,), "C07": (inner_ram,), "C08": (inner_ram,),
         "C11": (inner_cluster,), "C15": (inner_cluster,), "C21": (inner_ram, inner_cluster), "C22": (inner_ram, inner_cluster)}


def inner(g, prop, count):
    for i in range(count):
        fs = INNER[prop]
        if prop == "C01" and i % 8 == 0:
            n = g.int(0, 5)
            ops = [{"op": "D.bare", "o": "d", "n": n}, {"op": "D.sizes", "o": "d"}, {"op": "D.mental", "o": "d"}, {"op": "D.classify", "o": "d", "xs": [[0] * n, [1] * n]},
                   {"op": "D.train", "o": "d", "xs": [[0] * n], "how": "one"}, {"op": "D.sizes", "o": "d"}, {"op": "copy", "o": "e", "p": "d"}, {"op": "D.sizes", "o": "e"}]
            yield g.scenario(ops, impl="inner")
            continue
        yield g.scenario(fs[i % len(fs)](g), impl="inner")


# ------------------------------------------------------------------------------------------
# Several threads, each with objects of its own (C++).  What they are to answer is what they
# answer one after the other, as no call on one object changes what another one answers.

ASKS = {"D.classify", "D.mental", "D.state", "W.classify", "W.classifyset", "W.mental", "W.state", "C.classify", "C.classifyuns", "C.mental",
        "C.mentals", "C.state", "B.bits", "B.all", "B.data", "H.data", "H.dataram", "H.ram", "H.get", "H.compare", "S.get", "S.label",
        "E.encode", "E.decode", "K.transform", "getsizeof"}


def threads(g, count):
    sources = ("C01", "C03", "C04", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C22", "C24")
    for i in range(count):
        lanes = []
        same = g.of(sources) if g.maybe(0.4) else None
        twin = g.maybe(0.2)
        for k in range(g.int(2, 4)):
            if twin and lanes:
                sc = first
            else:
                for sc in GENERATORS[same or g.of(sources)](g, 1):
                    pass
            seg = sc["segs"][0]
            if len(sc["segs"]) > 1 or seg["impl"] not in ("*", "cpp") or sc.get("files"):
                continue
            if any(op.get("mode") == "file" or "fsize" in op or op["op"] in ("rmfile", "H.write", "S.write", "H.read", "edit") for op in seg["ops"]):
                continue
            if len(seg["ops"]) > 40:
                continue
            first = sc
            ops = []
            for op in seg["ops"]:
                op = {f: "%s_%d" % (v, k) if f in ("o", "p", "d", "s", "as", "b") and isinstance(v, str) else v for f, v in op.items()}
                op["lane"] = k
                if op["op"] in ASKS:
                    op["rep"] = 60
                ops.append(op)
            lanes.append(ops)
        if len(lanes) < 2:
            continue
        ops = []
        for k in range(max(len(x) for x in lanes)):
            ops += [x[k] for x in lanes if k < len(x)]
        yield g.scenario(ops, impl="cpp")


GENERATORS = {k.upper(): f for k, f in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
