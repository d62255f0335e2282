"""Builds what a check needs from /repo's current working tree, into a scratch directory.

Nothing here reads /repo/build: every artefact (compiler + extensions, Java runtime, C++ runtime,
zserio_cpp binding) is compiled from the sources that are in /repo right now.
An optional content-hash cache (env ZVF_CACHE=<dir>) only serves interactive development.
"""
import atexit, glob, hashlib, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("ZVF_REPO", "/repo")
J3 = REPO + "/3rdparty/java"
EXT = REPO + "/compiler/extensions"
CPP_RT = EXT + "/cpp/runtime/src"
PY_RT = EXT + "/python/runtime/src"
JAVA_RT = EXT + "/java/runtime/src"
JAVA_HOME = "/usr/lib/jvm/java-17-openjdk-amd64"
JAVA = JAVA_HOME + "/bin/java" if os.path.exists(JAVA_HOME) else "java"
JAVAC = JAVA_HOME + "/bin/javac" if os.path.exists(JAVA_HOME) else "javac"
PYTHON = "/opt/venv/bin/python"

_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="zvf-", dir="/var/tmp")
        pid = os.getpid()
        path = _scratch

        def cleanup():
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(cleanup)
    return _scratch


def run(cmd, what, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what, p.returncode, p.stdout.decode("utf8", "replace")[-4000:]))
    return p.stdout.decode("utf8", "replace")


def find(root, suffix):
    out = []
    for d, _, files in os.walk(root):
        out += [os.path.join(d, f) for f in files if f.endswith(suffix)]
    return sorted(out)


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if not f.endswith(".pyc"))
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


_locks = {}


def _cached(name, inputs, build, extra=""):
    """build(outdir) creates the artefact directory; at most once, also when several threads ask for it."""
    with _locks.setdefault((name, extra), threading.Lock()):
        cache = os.environ.get("ZVF_CACHE")
        if cache:
            out = os.path.join(cache, name + "-" + _hash(inputs, extra + REPO))
        else:
            out = os.path.join(scratch(), name + ("-" + hashlib.sha256(extra.encode()).hexdigest()[:8] if extra else ""))
        if not os.path.isdir(out):
            tmp = out + ".tmp%d" % os.getpid()
            os.makedirs(tmp)
            build(tmp)
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return out


JARS = ["antlr-4.7.2-complete.jar", "freemarker-2.3.28.jar", "commons-cli-1.4.jar", "autolink-0.10.0.jar",
        "commonmark-0.15.2.jar", "commonmark-ext-autolink-0.15.2.jar", "commonmark-ext-gfm-tables-0.15.2.jar",
        "commonmark-ext-heading-anchor-0.15.2.jar"]


def third_party_cp():
    return ":".join(sorted(glob.glob(J3 + "/*.jar")))


def compiler():
    """Class path of the zserio compiler with all its extensions."""
    inputs = [REPO + "/compiler/core/antlr", REPO + "/compiler/core/src"] + [
        "%s/%s/%s" % (EXT, e, d) for e in ("cpp", "java", "python", "doc", "xml")
        for d in ("src", "freemarker", "metainf") if os.path.isdir("%s/%s/%s" % (EXT, e, d))]

    def build(out):
        gen, cls = out + "/gen", out + "/classes"
        antlr = gen + "/zserio/antlr"
        os.makedirs(antlr)
        os.makedirs(cls)
        base = [JAVA, "-cp", J3 + "/antlr-4.7.2-complete.jar", "org.antlr.v4.Tool", "-o", antlr, "-lib", antlr,
                "-package", "zserio.antlr", "-no-listener", "-visitor"]
        g4 = REPO + "/compiler/core/antlr/"
        run(base + [g4 + "ZserioLexer.g4"], "antlr")
        run(base + [g4 + "ZserioParser.g4", g4 + "DocComment.g4"], "antlr")
        srcs = find(gen, ".java") + find(REPO + "/compiler/core/src", ".java")
        services = []
        for e in ("cpp", "java", "python", "doc", "xml"):
            srcs += find("%s/%s/src" % (EXT, e), ".java")
            ftl = "%s/%s/freemarker" % (EXT, e)
            if os.path.isdir(ftl):
                os.makedirs(cls + "/freemarker/" + e)
                for f in find(ftl, ".ftl"):
                    shutil.copy(f, cls + "/freemarker/" + e)
            with open("%s/%s/metainf/services/zserio.tools.Extension" % (EXT, e)) as f:
                services += [l.strip() for l in f if l.strip()]
        shutil.copytree(EXT + "/doc/runtime", cls + "/zserio/extension/doc/runtime")
        os.makedirs(cls + "/META-INF/services")
        with open(cls + "/META-INF/services/zserio.tools.Extension", "w") as f:
            f.write("\n".join(services) + "\n")
        lst = out + "/srcs.txt"
        with open(lst, "w") as f:
            f.write("\n".join(srcs))
        run([JAVAC, "-nowarn", "-proc:none", "-g", "-encoding", "utf8", "-d", cls, "-cp", third_party_cp(), "@" + lst],
            "javac compiler")
    return _cached("compiler", inputs, build) + "/classes:" + third_party_cp()


def generate(cp, src_dir, main, *args, check=True):
    cmd = [JAVA, "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-cp", cp, "zserio.tools.ZserioTool", "-src", src_dir] + list(args) + [main]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    out = p.stdout.decode("utf8", "replace")
    if check and p.returncode != 0:
        raise GenError("zserio compiler rejected a valid schema (%d):\n%s" % (p.returncode, out[-3000:]))
    return p.returncode, out


class GenError(Exception):
    """The compiler under test refused / produced uncompilable output for a schema that is valid."""


def java_runtime():
    def build(out):
        lst = out + "/srcs.txt"
        srcs = [f for f in find(JAVA_RT, ".java") if not f.endswith("package-info.java")]
        with open(lst, "w") as f:
            f.write("\n".join(srcs))
        os.makedirs(out + "/classes")
        run([JAVAC, "-nowarn", "-proc:none", "-encoding", "utf8", "-d", out + "/classes", "@" + lst], "javac runtime")
    return _cached("java_runtime", [JAVA_RT], build) + "/classes"


def javac(out, srcs, cp, what="generated Java"):
    os.makedirs(out, exist_ok=True)
    lst = out + "/srcs.txt"
    with open(lst, "w") as f:
        f.write("\n".join(srcs))
    try:
        run([JAVAC, "-nowarn", "-proc:none", "-encoding", "utf8", "-d", out, "-cp", cp, "@" + lst], what)
    except BuildError as e:
        raise GenError(str(e))
    return out


CLANG = "clang++"


def compile_jobs(jobs, cxx="g++", n=8):
    """[(source, flags, object)]; failures are failures of generated code."""
    def one(j):
        run([cxx] + j[1] + ["-c", j[0], "-o", j[2]], cxx + " " + j[0], timeout=840)
    try:
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, jobs))
    except BuildError as e:
        raise GenError(str(e))


def cxx_objects(srcs, out, flags, jobs=8, gen=False, cxx="g++"):
    os.makedirs(out, exist_ok=True)

    def one(i_src):
        i, src = i_src
        obj = "%s/%d_%s.o" % (out, i, os.path.basename(src).replace(".cpp", ""))
        run([cxx] + flags + ["-c", src, "-o", obj], cxx + " " + src, timeout=840)
        return obj
    try:
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(one, enumerate(srcs)))
    except BuildError as e:
        if gen:
            raise GenError(str(e))
        raise


def cpp_runtime_objs(flags, cxx="g++"):
    def build(out):
        cxx_objects([s for s in find(CPP_RT + "/zserio", ".cpp") if "Sqlite" not in s and "Validation" not in s],
                    out, flags + ["-I" + CPP_RT], cxx=cxx)
    return sorted(glob.glob(_cached("cpp_rt", [CPP_RT], build, cxx + " ".join(flags)) + "/*.o"))


def py_binding():
    """Directory containing zserio_cpp*.so built from the current tree."""
    def build(out):
        inc = run([PYTHON, "-c", "import pybind11,sysconfig;print(pybind11.get_include());"
                   "print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                  "pybind11 lookup").split()
        flags = ["-std=c++17", "-O1", "-fPIC", "-fvisibility=hidden", "-I" + inc[0], "-I" + inc[1], "-I" + CPP_RT,
                 "-I" + PY_RT + "/zserio_cpp", "-DPYBIND11_DETAILED_ERROR_MESSAGES"]
        srcs = find(CPP_RT, ".cpp") + find(PY_RT + "/zserio_cpp", ".cpp")
        srcs = [s for s in srcs if "Sqlite" not in s and "Validation" not in s]
        objs = cxx_objects(srcs, out + "/obj", flags)
        run(["g++", "-shared", "-o", out + "/zserio_cpp" + inc[2]] + objs, "link zserio_cpp")
    return _cached("zserio_cpp", [CPP_RT, PY_RT + "/zserio_cpp"], build)


def parallel(*fns):
    """Run independent build steps concurrently; returns their results."""
    with ThreadPoolExecutor(len(fns)) as ex:
        futs = [ex.submit(f) for f in fns]
        return [f.result() for f in futs]
