import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, consts, pool, zbuild


def body(chk):
    th = chk.thorough
    cp, rt, objs = zbuild.parallel(zbuild.compiler, zbuild.java_runtime, lambda: zbuild.cpp_runtime_objs(["-std=c++11", "-O0", "-w"]))
    d, ps = zbuild.scratch(), consts.parts(th)
    consts.write(d + "/z", ps)
    zbuild.generate(cp, d + "/z", "all.zs", "-python", d + "/py", "-java", d + "/java", "-cpp", d + "/cpp")
    count = {}
    for p in ps:
        count[p.kind] = count.get(p.kind, 0) + sum(1 for _ in p.names())
    chk.bounds = {"values by place": count}
    order = sorted(range(len(ps)), key=lambda i: ps[i].kind == "function")
    pool.run(chk, "mc.consts", "py_main", [(d + "/py", i, i + 1, th) for i in order], part="python")
    pool.run(chk, "mc.consts", "build_and_judge", [("cpp", None, d + "/cpp", i, th, objs) for i in order], part="cpp")
    pool.run(chk, "mc.consts", "build_and_judge", [("java", rt, d + "/java", i, th, None) for i in order], part="java")


common.main("C20", body)
