#!/usr/bin/env python3
"""Executes scenarios on the Python extension and records what happened.

driver.py EXTDIR JOBS OUT   (JOBS: one JSON object {"id","dir","snaps","ops"} per line)

Every scenario runs in a forked child whose working directory is its own scratch directory, so
a crash ends one scenario and is recorded as such.  Only the public API is used; nothing here
knows what the right answers are.
"""
import sys, os, json, resource, signal, hashlib

EXT, JOBS, OUT = sys.argv[1:4]
sys.path.insert(0, EXT)
import wisardpkg as wp

CPU_LIMIT = 20
WALL_LIMIT = 120
AS_LIMIT = 2 << 30
PATIENCE = 3          # scenarios that may die before the rest is skipped
FSIZE = 64 << 20


class HarnessError(Exception):
    pass


def snapfile(job, s):
    return os.path.join(job["snaps"], s + ".txt")


def listing():
    out = {}
    for n in os.listdir("."):
        if os.path.isfile(n):
            with open(n, "rb") as f:
                out[n] = hashlib.sha1(f.read()).hexdigest()
    return out


def data_files(v):
    if isinstance(v, dict):
        for x in v.values():
            yield from data_files(x)
    elif isinstance(v, list):
        for x in v:
            yield from data_files(x)
    elif isinstance(v, str) and v.endswith(".wdpkg"):
        yield v


def save_text(o, op):
    mode = op["mode"]
    if mode == "config":
        return o.jsonConfig()
    if mode == "file":
        return o.json(True, op["prefix"]) if "prefix" in op else o.json(True)
    how = op.get("how", 0)
    return o.json() if how == 0 else o.json(False) if how == 1 else o.json(False, op.get("prefix", "x"))


def kw(op):
    k = dict(op.get("opt", {}))
    if "activationDegree" in k:
        n, d = k["activationDegree"]
        k["activationDegree"] = n / d
    return k


class Run:
    def __init__(self, job):
        self.job = job
        self.objs = {}
        self.largest = 0

    def bin(self, x):
        return wp.BinInput([int(v) for v in x])

    # every handler returns the raw result
    def do(self, op):
        O = self.objs
        t = op["op"]
        fam, _, m = t.partition(".")
        if fam == "D":
            return self.disc(m, op)
        if fam == "W":
            return self.wisard(m, op)
        if fam == "C":
            return self.clus(m, op)
        if fam == "B":
            return self.bininput(m, op)
        if fam == "S":
            return self.dataset(m, op)
        if fam == "H":
            return self.handle(m, op)
        if fam == "Y":
            return self.synth(m, op)
        if fam == "K":
            return self.canvas(m, op)
        if t == "save":
            lim = op.get("fsize")
            if isinstance(lim, dict):
                lim = self.largest + lim["rel"]
            if lim is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, FSIZE))
            try:
                text = save_text(O[op["o"]], op)
            finally:
                if lim is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))
            with open(snapfile(self.job, op["s"]), "w", encoding="utf-8", newline="") as f:
                f.write(text)
            if op["mode"] == "file":
                sizes = [os.path.getsize(n) for n in data_files(json.loads(text)) if os.path.isfile(n)]
                self.largest = max(sizes) if sizes else 0
            return text
        if t == "load":
            cls = {"D": wp.Discriminator, "W": wp.Wisard, "C": wp.ClusWisard}[op["k"]]
            with open(snapfile(self.job, op["s"]), encoding="utf-8", newline="") as f:
                text = f.read()
            O[op["o"]] = cls(text)
            return None
        if t == "rmfile":
            with open(snapfile(self.job, op["s"]), encoding="utf-8") as f:
                for n in data_files(json.load(f)):
                    if os.path.dirname(os.path.realpath(n)) == os.path.realpath("."):
                        if os.path.exists(n):
                            os.unlink(n)
            return None
        if t == "del":
            del O[op["o"]]
            return None
        if t == "getsizeof":
            return int(O[op["o"]].getsizeof())
        raise HarnessError("unknown op " + t)

    def disc(self, m, op):
        O = self.objs
        if m == "new":
            O[op["o"]] = wp.Discriminator(op["a"], op["n"], **kw(op))
            return None
        o = O[op["o"]]
        how = op.get("how", "one")
        if m == "train":
            if how == "list":
                o.train(op["xs"])
            else:
                for x in op["xs"]:
                    o.train(self.bin(x) if how == "bin" else x)
            return None
        if m == "trainrep":
            x = op["x"]
            for _ in range(op["times"]):
                o.train(x)
            return None
        if m == "classify":
            return [o.classify(self.bin(x) if how == "bin" else x) for x in op["xs"]]
        if m == "state":
            return o.json()
        raise HarnessError("unknown op D." + m)

    def wisard(self, m, op):
        O = self.objs
        if m == "new":
            O[op["o"]] = wp.Wisard(op["a"], **kw(op))
            return None
        o = O[op["o"]]
        if m == "train":
            o.train(op["xs"], op["ys"])
            return None
        if m == "trainrep":
            o.train([op["x"]] * op["times"], [op["y"]] * op["times"])
            return None
        if m == "trainset":
            o.train(O[op["d"]])
            return None
        if m in ("untrain", "overuntrain"):
            if op.get("how") == "one":
                for x, y in zip(op["xs"], op["ys"]):
                    o.leaveOneOut(x, y)
            else:
                o.leaveMoreOut(op["xs"], op["ys"])
            return None
        if m == "classify":
            return list(o.classify(op["xs"]))
        if m == "classifyset":
            return list(o.classify(O[op["d"]]))
        if m == "mental":
            return [[k, v] for k, v in o.getMentalImages().items()]
        if m == "state":
            return o.json()
        raise HarnessError("unknown op W." + m)

    def clus(self, m, op):
        O = self.objs
        if m == "new":
            O[op["o"]] = wp.ClusWisard(op["a"], op["ms"] / op["msden"], op["th"], op["lim"], **kw(op))
            return None
        o = O[op["o"]]
        if m == "train":
            o.train(op["xs"], op["ys"])
            return None
        if m == "trainsemi":
            o.train(op["xs"], {int(k): v for k, v in op["given"]})
            return None
        if m == "trainuns":
            o.trainUnsupervised(op["xs"])
            return None
        if m == "classify":
            return list(o.classify(op["xs"]))
        if m == "classifyuns":
            return list(o.classifyUnsupervised(op["xs"]))
        if m == "mental":
            return o.getMentalImage(op["y"])
        if m == "mentals":
            return [[k, v] for k, v in o.getMentalImages().items()]
        if m == "state":
            return o.json()
        raise HarnessError("unknown op C." + m)

    def bininput(self, m, op):
        O = self.objs
        if m == "new":
            O[op["o"]] = wp.BinInput(op["n"])
            return None
        if m == "bits":
            O[op["o"]] = wp.BinInput(op["x"])
            return None
        if m == "fromdata":
            O[op["o"]] = wp.BinInput(O[op["p"]].data())
            return None
        if m == "fromtext":
            O[op["o"]] = wp.BinInput(op["t"])
            return None
        o = O[op["o"]]
        if m == "set":
            o.set(op["i"], op["v"])
            return None
        if m == "get":
            return o[op["i"]] if op.get("how") == "item" else o.get(op["i"])
        if m == "all":
            return [o.get(i) for i in range(o.size())]
        if m == "size":
            return o.size()
        if m == "data":
            return o.data()
        raise HarnessError("unknown op B." + m)

    def dataset(self, m, op):
        O = self.objs
        if m == "new":
            O[op["o"]] = wp.DataSet()
            return None
        if m == "load":
            O[op["o"]] = wp.DataSet(op["s"] + (".wpkds" if op["named"] else op.get("ext", ".txt")))
            return None
        o = O[op["o"]]
        if m in ("add", "addbin"):
            x = O[op["b"]] if m == "addbin" else op["x"]
            if op["y"] == "" and op.get("how") != "label":
                o.add(x)
            else:
                o.add(x, op["y"])
            return None
        if m == "get":
            b = o.get(op["i"])
            return [b.get(i) for i in range(b.size())]
        if m == "label":
            return o.getLabel(op["i"])
        if m == "size":
            return o.size()
        if m == "save":
            lim = op.get("fsize")
            if lim is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, FSIZE))
            try:
                o.save(op["s"] if op["writable"] or lim is not None else "nodir/" + op["s"])
            finally:
                if lim is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))
            return None
        raise HarnessError("unknown op S." + m)

    def handle(self, m, op):
        O = self.objs
        if m == "from":
            c = json.loads(O[op["p"]].json())
            text = c["data"] if op["k"] == "D" else c["classes"][op["y"]]["data"]
            O[op["o"]] = wp.RAMDataHandle(text)
            return text
        if m == "empty":
            O[op["o"]] = wp.RAMDataHandle("")
            return None
        if m == "fromdata":
            O[op["o"]] = wp.RAMDataHandle(O[op["p"]].data())
            return None
        if m == "fromram":
            O[op["o"]] = wp.RAMDataHandle(O[op["p"]].data(op["r"]))
            return None
        if m == "fromtext":
            O[op["o"]] = wp.RAMDataHandle(op["t"])
            return None
        if m == "read":
            O[op["o"]] = wp.RAMDataHandle(op["s"] + ".wdpkg")
            return None
        if m == "fromfile":
            with open(snapfile(self.job, op["s"]), encoding="utf-8") as f:
                name = json.load(f)["data"]
            O[op["o"]] = wp.RAMDataHandle(name)
            with open(name, encoding="latin-1") as f:
                return f.read()
        o = O[op["o"]]
        if m == "set":
            o.set(op["r"], op["a"], op["v"])
            return None
        if m == "get":
            return o.get(op["r"], op["a"])
        if m == "ram":
            return [[str(k), v] for k, v in o.get(op["r"]).items()]
        if m == "data":
            return o.data()
        if m == "dataram":
            return o.data(op["r"])
        if m == "compare":
            return bool(o.compare(O[op["p"]]))
        raise HarnessError("unknown op H." + m)

    def synth(self, m, op):
        O = self.objs
        if m == "new":
            O[op["o"]] = wp.Synthesizer(op["img"])
            return None
        if m == "from":
            images = O[op["p"]].getMentalImages()[op["y"]]
            O[op["o"]] = wp.Synthesizer(images[0] if op["k"] == "C" else images)
            return None
        o = O[op["o"]]
        if m == "make":
            return o.make()
        if m == "makemany":
            cs = [0] * op["len"]
            for _ in range(op["n"]):
                v = o.make()
                if len(v) != len(cs):
                    return v
                for i, b in enumerate(v):
                    cs[i] += b
            return cs
        raise HarnessError("unknown op Y." + m)

    def canvas(self, m, op):
        O = self.objs
        if m == "new":
            O[op["o"]] = wp.KernelCanvas(op["dim"], op["n"], **kw(op))
            look = getattr(O[op["o"]], "verifKernels", None) # None: the hook does not build
            return [list(k) for k in look()] if look else None
        if m == "transform":
            u = op.get("unit")
            seq = [[float(v) * u[j][0] + u[j][1] if u else float(v) for j, v in enumerate(p)] for p in op["seq"]]
            return O[op["o"]].transform(seq)
        raise HarnessError("unknown op K." + m)


def run(job, out):
    os.chdir(job["dir"])
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    signal.alarm(WALL_LIMIT)
    resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    r = Run(job)
    watch = job.get("files", False)
    for i, op in enumerate(job["ops"]):
        before = listing() if watch else None
        e = {"i": i}
        try:
            e["r"] = r.do(op)
            e["ok"] = True
        except HarnessError:
            raise
        except Exception as x:
            e["ok"] = False
            e["msg"] = str(x)[:200]
        if watch and op["op"] != "rmfile":
            if op["op"] == "S.save":
                before.pop(op["s"] + ".wpkds", None)
            after = listing()
            e["fch"] = sum(1 for n, h in before.items() if after.get(n) != h)
        if op.get("p") and op["o"] in r.objs:
            try:
                e["picked"] = r.objs[op["o"]].json()
            except Exception as x:
                e["picked"] = None
        os.write(out, (json.dumps(e) + "\n").encode())


def main():
    with open(OUT, "w") as log, open(JOBS) as jobs:
        died = 0
        for line in jobs:
            job = json.loads(line)
            if died >= PATIENCE:
                log.write(json.dumps({"id": job["id"], "end": "skipped", "ev": []}) + "\n")
                continue
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    run(job, wr)
                    os._exit(0)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    os._exit(99)
            os.close(wr)
            buf = b""
            while True:
                d = os.read(rd, 1 << 16)
                if not d:
                    break
                buf += d
            os.close(rd)
            _, st = os.waitpid(pid, 0)
            evs = [json.loads(x) for x in buf.decode().split("\n") if x]
            end = "ok" if st == 0 else ("harness" if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99
                                        else "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st)
                                        else "exit %d" % os.WEXITSTATUS(st))
            died += end != "ok"
            log.write(json.dumps({"id": job["id"], "end": end, "ev": evs}) + "\n")


main()
