"""C++ holders, views, and memory of generated objects with polymorphic allocators."""
import base64, os, subprocess
from . import xlang, zbuild, py_gen
from .ref import *
from .pool import Res

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cpp_hold")
HOLD = ["inplace-small", "inplace-thrower", "inplace-plain", "inplace-tree", "heap-small-0", "heap-small-7", "heap-big-1", "heap-thrower-2", "heap-plain-3", "heap-plain-0", "heap-plain-4", "heap-tree-5", "any-0", "any-1", "any-2", "any-7", "any-4"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def build():
    """-> {name: program}"""
    def one(name, src, flags):
        out = os.path.join(zbuild.scratch(), name)
        zbuild.run([zbuild.CLANG, "-std=c++17", "-w", "-g"] + flags + ["-I" + zbuild.CPP_RT, "-o", out, os.path.join(HERE, src), os.path.join(zbuild.CPP_RT, "zserio", "CppRuntimeException.cpp")], "C++ holders")
        return out
    r = zbuild.parallel(lambda: one("hold_asan", "hold.cpp", ["-O1"] + SAN), lambda: one("hold_fast", "hold.cpp", ["-O1", "-DNO_ASAN"]), lambda: one("views", "views.cpp", ["-O1"] + SAN))
    return dict(zip(("asan", "fast", "views"), r))


def explore(task):
    prog, depth, part, label = task
    res = Res()
    p = subprocess.run([prog, str(depth), part], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=850)
    seen = False
    for line in p.stdout.decode("utf8", "replace").splitlines():
        o = line.split("\t")
        if o[0] == "COUNT":
            seen = True
            res.states += int(o[1])
            res.transitions += int(o[2])
            res.traces += int(o[3])
            res.sample({"machine": part or "views", "depth": depth, "sequences": int(o[1])})
        elif o[0] == "BAD":
            res.bad("%s:%s" % (label, o[1]), "%s: %s" % (o[1], o[2]))
    if p.returncode != 0 or not seen:
        res.bad("%s:%s:died" % (label, part), "%s %s died (%d): %s" % (label, part, p.returncode, p.stderr.decode("utf8", "replace")[:1500]))
    return res.out()


def pmr_lines(p, tier):
    L = []
    for t, values, args in p.cases:
        if getattr(t, "params", None) or args or not isinstance(t, Compound):
            continue
        seen = set()
        for v in values:
            v1, b = encode(t, v, args)
            if b.n > 4096 or (b.acc, b.n) in seen:
                continue
            seen.add((b.acc, b.n))
            L.append(("%s.%s" % (p.name, t.name), b.n, b.bytes().hex(), v))
    return L


def explore_pmr(task):
    fam, tier, lo, hi, prog = task
    p = py_gen.family(fam, tier)
    L = pmr_lines(p, tier)[lo:hi]
    res = Res()
    outs = xlang.run_prog(prog, ["%d\t%s\tM\t0\t%d\t%s\t-" % (i, c, n, h) for i, (c, n, h, v) in enumerate(L)], "pmr%s%d" % (fam, lo))
    for (c, n, h, v), out in zip(L, outs):
        o = out.split("\t")
        if o[1] == "NONE":
            continue
        res.states += 1
        if o[1] == "OK":
            res.traces += 1
            res.transitions += 8 + int(o[4])
            res.states += int(o[4])
            res.sample({"object": c, "bits": n, "allocations": int(o[2])})
        else:
            res.transitions += 1
            what = base64.b64decode(o[-1]).decode("utf8", "replace")
            res.bad("pmr:%s:%s" % (c, o[2] + what if o[1] == "BAD" else what), "%s %s (%s): %s: %s" % (c, py_gen.cut(v, 0), h, o[2], what))
    return res.out()

