import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, files, pool, zbuild


def body(chk):
    depth, parts = (4, 16) if chk.thorough else (3, 8)
    cp, rt, objs, binding = zbuild.parallel(zbuild.compiler, zbuild.java_runtime, lambda: zbuild.cpp_runtime_objs(["-std=c++11", "-O0", "-w"]), zbuild.py_binding)
    d = zbuild.scratch()
    here = os.path.dirname(os.path.abspath(files.__file__))
    os.makedirs(d + "/z")
    with open(d + "/z/ff.zs", "w") as f:
        f.write(files.SCHEMA)
    zbuild.generate(cp, d + "/z", "ff.zs", "-python", d + "/py", "-java", d + "/java", "-cpp", d + "/cpp", "-withTypeInfoCode", "-withReflectionCode")

    def java():
        return zbuild.javac(d + "/cls", zbuild.find(d + "/java", ".java") + zbuild.find(here + "/java_files", ".java"), rt)

    def cpp():
        o = zbuild.cxx_objects(zbuild.find(d + "/cpp", ".cpp") + [here + "/cpp_files/files.cpp"], d + "/o", ["-std=c++11", "-O0", "-w", "-I" + d + "/cpp", "-I" + zbuild.CPP_RT], 2, gen=True)
        zbuild.run(["g++", "-o", d + "/files"] + o + objs, "link")
    zbuild.parallel(java, cpp)
    chk.bounds = {"depth of histories": depth, "writers": len(files.writers())}
    pool.run(chk, "mc.files", "work", [("java", "%s:%s" % (d + "/cls", rt), depth, i, parts) for i in range(parts)], part="java")
    pool.run(chk, "mc.files", "work", [("cpp", d + "/files", depth, i, parts) for i in range(parts)], part="cpp")
    for impl in ("python", "cpp"):
        pool.run(chk, "mc.files", "work", [("python-" + impl if impl == "cpp" else "python", d + "/py", depth, i, parts) for i in range(parts)], impl=impl, binding=binding, part="python, implementation " + impl)


common.main("C15", body)
