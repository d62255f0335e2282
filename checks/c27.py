import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, exprs, pool, xexprs, xlang, zbuild


def body(chk):
    th = chk.thorough
    cp, rt, objs = zbuild.parallel(zbuild.compiler, zbuild.java_runtime, lambda: zbuild.cpp_runtime_objs(["-std=c++11", "-O0", "-w"]))
    d = zbuild.scratch()
    pj, pc = xexprs.parts(th, "java"), xexprs.parts(th, "cpp")
    known = xexprs.java_known()
    xexprs.write_schemas(d + "/zj", pj), xexprs.write_schemas(d + "/zc", pc), xexprs.write_schemas(d + "/zk", known)

    def one_java(pk):
        zbuild.generate(cp, d + "/zj", pk + ".zs", "-java", d + "/gj")
        return zbuild.javac(d + "/cj/" + pk, zbuild.find(d + "/gj/" + pk, ".java"), rt)

    def one_cpp(pk, ex):
        zbuild.generate(cp, d + "/zc", pk + ".zs", "-cpp", d + "/gc")
        return xexprs.cpp_build(d + "/gc", pk, ex, objs)

    def one_known(pk, ex):
        zbuild.generate(cp, d + "/zk", pk + ".zs", "-java", d + "/gk")
        try:
            zbuild.javac(d + "/ck/" + pk, zbuild.find(d + "/gk/" + pk, ".java"), rt)
        except zbuild.GenError as e:
            return str(e)
    here = os.path.join(os.path.dirname(os.path.abspath(xexprs.__file__)), "java")
    jobs = [lambda: zbuild.javac(d + "/cj/driver", zbuild.find(here, ".java"), rt)] + [lambda p=p: one_cpp(p[0], p[2]) for p in pc] + \
        [lambda p=p: one_java(p[0]) for p in pj] + [lambda p=p: one_known(p[0], p[2]) for p in known]
    res = zbuild.parallel(*jobs)
    progs, cls, kn = res[1:1 + len(pc)], res[1 + len(pc):1 + len(pc) + len(pj)], res[1 + len(pc) + len(pj):]
    for (pk, _, ex), err in zip(known, kn):
        chk.count(1, 1, 0, "uint64 with native operands in Java")
        if err:
            chk.violation("java-big-compile:" + ex[0][0], "generated Java code of %s does not compile: %s" % (ex[0][0], err[-600:]))
    chk.bounds = {"expressions": {p[1]: sum(len(q[2]) for q in pj if q[1] == p[1]) for p in pj}, "operand rows": len(exprs.grid(True))}
    tasks = [("java", "%s:%s/cj/driver:%s" % (c, d, rt), p[0], p[1], i, th) for i, (p, c) in enumerate(zip(pj, cls))]
    pool.run(chk, "mc.xexprs", "java", tasks, part="java")
    pool.run(chk, "mc.xexprs", "cpp", [("cpp", c, p[0], p[1], i, th) for i, (p, c) in enumerate(zip(pc, progs))], part="cpp")


common.main("C27", body)
