import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, xjparse, zbuild
from mc.py_jparse import spaces, split


def body(chk):
    th = chk.thorough
    here = os.path.dirname(os.path.abspath(zbuild.__file__))
    out = zbuild.scratch()

    def java():
        rt = zbuild.java_runtime()
        return zbuild.javac(out + "/drv", zbuild.find(here + "/java/zserio", ".java"), rt) + ":" + rt

    def cpp():
        flags = ["-std=c++11", "-O1", "-w"]
        objs = zbuild.cpp_runtime_objs(flags)
        o = zbuild.cxx_objects([here + "/cpp/texts.cpp"], out + "/texts", flags + ["-I" + zbuild.CPP_RT])
        zbuild.run(["g++", "-o", out + "/texts/prog"] + o + objs, "link")
        return out + "/texts/prog"
    progs = dict(zip(("java", "cpp"), zbuild.parallel(java, cpp)))
    sp = spaces(th)
    chk.bounds = {l: "all words over %d symbols to length %d" % (len(a), d) for l, a, d, _, _ in sp}
    pats = xjparse.doubles(th)
    for lang in ("java", "cpp"):
        tasks = []
        for label, alpha, depth, wraps, chunks in sp:
            parts = [(label, alpha, n, first, wraps) for n, first in split(alpha, depth)]
            k = 8 if len(alpha) ** depth > 20000 else 2
            tasks += [(lang, progs[lang], [c or 0 for c in chunks], "%s%d" % (label, i), parts[i::k]) for i in range(k)]
        pool.run(chk, "mc.xjparse", "explore", tasks, part="texts " + lang)
        pool.run(chk, "mc.xjparse", "floats", [(lang, progs[lang], pats[i::8]) for i in range(8)], part="numbers " + lang)


common.main("C29", body)
