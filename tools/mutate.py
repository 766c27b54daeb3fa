#!/usr/bin/env python3
"""mutate.py -n COUNT [-s SEED] [-f REGEX] [-j N] -o OUT.json

Mechanical mutants of /repo/src (operators, constants, conditions, deleted statements), to find
what the scenarios do not see: each is built in a scratch copy and runs some scenarios of every
property; the recordings are validated as in check.py.  Survivors are written to OUT."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import engine, gen

ap = argparse.ArgumentParser()
ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", type=int, default=1)
ap.add_argument("-f", default="."); ap.add_argument("-j", type=int, default=3)
ap.add_argument("-k", type=int, default=40); ap.add_argument("-o", default="/tmp/mutants.json")
ap.add_argument("-r", help="run again the survivors of this file")
o = ap.parse_args()
engine.PROCS = max(1, 8 // o.j)
B = engine.builder

RULES = [(r"(?<![<>=!\-])<=", "<"), (r"(?<![<\w>])<(?![<=\w])", "<="), (r"(?<= )<(?= )", "<="), (r">=", ">"), (r"(?<= )>(?= )", ">="),
         (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\]\)]) ?\+ ?(?=[\w\(])", "-"),
         (r"(?<=[\w\]\)]) ?- ?(?=[\w\(])", "+"), (r"(?<=[\w\]\)]) ?\* ?(?=[\w\(])", "/"), (r"(?<=[\w\]\)]) ?/ ?(?=[\w\(])", "*"),
         (r"(?<=[\w\]\)]) ?% ?(?=[\w\(])", "/"), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"(?<![\w.])0(?![\w.])", "1"),
         (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])(\d\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif ?\((?!else)", "if(!("), (r"(?<=[(&| ])!(?=[\w(])", ""),
         (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\bunsigned long long\b|\baddr_t\b|\bsize_t\b", "int"), (r"\bdouble\b", "float"), (r"\bint\b", "unsigned char"),
         (r"\bmax\b", "min"), (r"\bmin\b", "max")]


def mutants():
    out = []
    for f in B.tree_files("/repo/src"):
        rel = os.path.relpath(f, "/repo/src")
        if "libs" in rel or not f.endswith((".cc", ".h")) or not re.search(o.f, rel):
            continue
        text = open(f).read()
        pos = 0
        incomment = False
        for ln, line in enumerate(text.split("\n")):
            s = line.strip()
            if "/*" in s:
                incomment = True
            skip = incomment or not s or s.startswith(("//", "#", "*"))
            if "*/" in s:
                incomment = False
            if not skip:
                code = line.split("//")[0]
                for pat, new in RULES:
                    for m in re.finditer(pat, code):
                        if code[:m.start()].count('"') % 2:
                            continue
                        rep = new(m) if callable(new) else new
                        nl = code[:m.start()] + rep + code[m.end():]
                        if rep == "if(!(":
                            # close the negation at the matching parenthesis
                            d, k = 1, m.end()
                            while k < len(code) and d:
                                d += {"(": 1, ")": -1}.get(code[k], 0)
                                k += 1
                            if d:
                                continue
                            nl = code[:m.start()] + "if(!(" + code[m.end():k] + ")" + code[k:]
                        out.append((rel, ln, line, nl))
                if re.match(r"^[\w:.\->\[\]()*, +&=\"{}]*;$", s) and not re.match(r"^(return|break|continue|const|int|double|auto|bool|std::\w+(<|\b \w)|using|typedef)\b", s) \
                        and not re.match(r"^[\w:<>, ]+[&* ] ?\w+( ?=.*)?;$", s):
                    out.append((rel, ln, line, line.replace(s, ";")))
                if s.startswith("throw "):
                    out.append((rel, ln, line, line.replace(s, ";" if s.endswith(";") else s)))
    return sorted(set(out))


def scenarios():
    scs = []
    for p in sorted(gen.GENERATORS):
        if p == "C23":
            continue
        for sc in gen.GENERATORS[p](gen.G(o.s + 77, p), o.k):
            sc["id"] = p + "-" + sc["id"]
            scs.append(sc)
    return scs


SCS = scenarios()


def run(mu):
    rel, ln, old, new = mu
    top = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/src", top + "/src")
        f = os.path.join(top, "src", rel)
        t = open(f).read().split("\n")
        assert t[ln] == old
        t[ln] = new
        open(f, "w").write("\n".join(t))
        os.mkdir(top + "/include")
        if subprocess.run([sys.executable, "-B", "/repo/generate_include.py"], cwd=top, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return mu, "nobuild", []
        isbind = "wrappers" in rel or "bind" in rel or "bleaching" in rel
        built = {}
        if isbind:
            built["py"] = top + "/ext"
            os.mkdir(top + "/ext")
            import sysconfig
            cmd = [B.CXX, *B.CXXFLAGS, "-fPIC", "-shared", *B.python_includes(), top + "/src/wisard_bind.cc", "-o",
                   top + "/ext/wisardpkg" + sysconfig.get_config_var("EXT_SUFFIX")]
        else:
            built["gen"] = top + "/driver"
            cmd = [B.CXX, *B.CXXFLAGS, "-fsanitize=address", "-DWISARDPKG_HEADER=\"%s\"" % (top + "/include/wisardpkg.hpp"),
                   os.path.join(engine.HERE, "driver.cpp"), "-o", top + "/driver"]
        if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return mu, "nobuild", []
        impls = list(built)
        work = top + "/work"
        os.mkdir(work)
        todo = SCS if not isbind else [s for s in SCS if s["segs"][0]["impl"] != "cpp"]
        todo = [s for s in todo if isbind or s["segs"][0]["impl"] != "py"]
        for part in (todo[::8], todo):
            tr = engine.record(built, part, impls, work)
            bad, _, _ = engine.validate([(t[0], t[3]) for t in tr], work, stop=3)
            if bad:
                break
        return mu, "killed" if bad else "survived", sorted({tr[i][0][:3] for i in bad})
    except Exception as x:
        return mu, "error", [str(x)[-300:]]
    finally:
        shutil.rmtree(top, ignore_errors=True)


if o.r:
    ms = [tuple(x["m"]) for x in json.load(open(o.r)) if x["r"] != "killed"]
else:
    ms = mutants()
    random.Random(o.s).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    ms = ms[:o.n]
out = []
count = {}
with ThreadPoolExecutor(o.j) as ex:
    for mu, r, by in ex.map(run, ms):
        count[r] = count.get(r, 0) + 1
        if r not in ("nobuild", "killed"):
            out.append({"m": mu, "r": r, "by": by})
            print(r, "%s:%d" % (mu[0], mu[1] + 1), "|", mu[2].strip(), "=>", mu[3].strip(), by, flush=True)
        if sum(count.values()) % 20 == 0:
            json.dump(out, open(o.o, "w"), indent=0)
            print(count, flush=True)
json.dump(out, open(o.o, "w"), indent=0)
print(count)
