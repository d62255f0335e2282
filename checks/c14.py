import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild


def body(chk):
    here = os.path.dirname(os.path.abspath(zbuild.__file__))
    out = zbuild.scratch()

    def java():
        rt = zbuild.java_runtime()
        return zbuild.javac(out + "/drv", [here + "/java/Floats.java"], rt) + ":" + rt

    def cpp():
        flags = ["-std=c++11", "-O2", "-w"]
        o = zbuild.cxx_objects([here + "/cpp/floats.cpp", zbuild.CPP_RT + "/zserio/FloatUtil.cpp"], out + "/fl", flags + ["-I" + zbuild.CPP_RT])
        zbuild.run(["g++", "-pthread", "-o", out + "/fl/prog"] + o, "link")
        return out + "/fl/prog"
    j, c, binding = zbuild.parallel(java, cpp, zbuild.py_binding)
    chk.bounds = {"Java and C++": "all float16 patterns, all float32 values", "Python": "all float16 patterns, 7 numbers between every two of them, all exponents of float32 and float64"}
    pool.run(chk, "mc.floats", "native", [("java", j)], part="java")
    pool.run(chk, "mc.floats", "native", [("cpp", c)], part="cpp")
    for impl in ("python", "cpp"):
        pool.run(chk, "mc.floats", "python", [(impl, p, p + 0x800) for p in range(0, 0x8000, 0x800)], impl, binding if impl == "cpp" else None, part="python-" + impl)


common.main("C14", body)
