"""Builds what the checks run from /repo's current working tree (into /verif/build, which git
ignores): the Python extension and the C++ driver against the generated and the committed header.
Builds are cached by the content of their inputs."""
import hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
OUT = os.path.join(ROOT, "build")
CXX = "g++"
GUARD = "WISARDPKG_VERIF"


class BuildError(Exception):
    pass


def tree_files(top):
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith((".so", ".o", ".pyc")):
                yield os.path.join(d, f)


def digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(extra.encode())
    return h.hexdigest()[:20]


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def python_includes():
    inc = [sysconfig.get_paths()["include"]]
    try:
        import pybind11
        inc.append(pybind11.get_include())
    except ImportError:
        pass
    return sum((["-I", i] for i in inc), [])


def generated_header():
    """The text generate_include.py makes from src/, and the committed one."""
    tmp = tempfile.mkdtemp(prefix="wisard-gen-")
    try:
        os.mkdir(os.path.join(tmp, "include"))
        os.symlink(os.path.join(REPO, "src"), os.path.join(tmp, "src"))
        sh([sys.executable, "-B", os.path.join(REPO, "generate_include.py")], cwd=tmp)
        with open(os.path.join(tmp, "include", "wisardpkg.hpp"), "rb") as f:
            gen = f.read()
    finally:
        shutil.rmtree(tmp)
    with open(os.path.join(REPO, "include", "wisardpkg.hpp"), "rb") as f:
        return gen, f.read()


CXXFLAGS = ["-std=c++11", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"]


def start(name, key, makes):
    """Start a build unless its result is there: returns (path, process or None, finish).
    makes: the commands to try, one after the other."""
    final = os.path.join(OUT, "%s-%s" % (name, key))
    if os.path.exists(os.path.join(final, "done")):
        os.utime(final)
        return final, None, None
    tmp = tempfile.mkdtemp(prefix=name + ".", dir=OUT)
    cmd = makes[0](tmp)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def finish():
        out, _ = p.communicate()
        rc, k = p.returncode, 1
        while rc and k < len(makes):
            q = subprocess.run(makes[k](tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rc, k = q.returncode, k + 1
        if rc:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("%s\n%s" % (" ".join(cmd), out[-3000:]))
        with open(os.path.join(tmp, "done"), "w") as f:
            f.write(str(k))
        try:
            os.rename(tmp, final)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return final, p, finish


def build():
    """{"py": dir of the extension, "gen": C++ driver, "com": C++ driver or None if the
    committed header is the generated one}"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gen, com = generated_header()
        src = list(tree_files(os.path.join(REPO, "src")))
        drv = os.path.join(HERE, "driver.cpp")
        me = open(os.path.abspath(__file__), "rb").read()
        flags = " ".join(CXXFLAGS) + hashlib.sha256(me).hexdigest()
        suffix = sysconfig.get_config_var("EXT_SUFFIX")

        # a tree may arrange its inside in a way the hook, or the driver of the inner classes, does
        # not compile with: what is left is used then
        def ext():
            return [one_ext(["-D" + GUARD]), one_ext([])]

        def one_ext(more):
            def make(tmp):
                return [CXX, *CXXFLAGS, "-fPIC", "-shared", *more, *python_includes(),
                        os.path.join(REPO, "src", "wisard_bind.cc"), "-o", os.path.join(tmp, "wisardpkg" + suffix)]
            return make

        def cpp(text):
            return [one_cpp(text, hook + inner) for inner in ([], ["-DNO_INNER"]) for hook in (["-D" + GUARD], [])]

        def one_cpp(text, more):
            def make(tmp):
                with open(os.path.join(tmp, "wisardpkg.hpp"), "wb") as f:
                    f.write(text)
                return [CXX, *CXXFLAGS, "-fsanitize=address", "-fno-omit-frame-pointer", *more,
                        "-DWISARDPKG_HEADER=\"%s\"" % os.path.join(tmp, "wisardpkg.hpp"), drv,
                        "-o", os.path.join(tmp, "driver")]
            return make

        todo = {"py": start("py", digest(src, flags), ext()),
                "gen": start("cpp", digest([drv], flags + hashlib.sha256(gen).hexdigest()), cpp(gen))}
        if com != gen:
            todo["com"] = start("cpp", digest([drv], flags + hashlib.sha256(com).hexdigest()), cpp(com))
        errors = []
        for path, p, finish in todo.values():
            if finish:
                try:
                    finish()
                except BuildError as e:
                    errors.append(e)
        if errors:
            raise errors[0]
        # keep the cache small
        old = sorted((d for d in os.listdir(OUT) if os.path.isdir(os.path.join(OUT, d))),
                     key=lambda d: os.path.getmtime(os.path.join(OUT, d)))
        keep = {os.path.basename(t[0]) for t in todo.values()}
        for d in [d for d in old if d not in keep][:-6]:
            shutil.rmtree(os.path.join(OUT, d), ignore_errors=True)
        # "inner": the classes below the public ones could be reached everywhere
        inner = all(open(os.path.join(todo[t][0], "done")).read() in ("1", "2") for t in todo if t != "py")
        return {"inner": inner,
                "py": todo["py"][0],
                "gen": os.path.join(todo["gen"][0], "driver"),
                "com": os.path.join(todo["com"][0], "driver") if "com" in todo else None}


if __name__ == "__main__":
    print(build())
