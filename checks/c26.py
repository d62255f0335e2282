import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, xlang



def body(chk):
    th = chk.thorough
    cp, rt = zbuild.parallel(zbuild.compiler, zbuild.java_runtime)
    fam = "fam_range"
    p = py_gen.family(fam, chk.tier)
    jp, pp = zbuild.parallel(lambda: xlang.java_build(cp, [p], rt, ("-withRangeCheckCode",)),
                             lambda: xlang.cpp_build(cp, [p], {p.name}, opts=("-withRangeCheckCode",)))
    for lang, prog in (("java", jp), ("cpp", pp)):
        tasks = [(lang, kind, fam, chk.tier, lo, hi, arg, prog) for kind, arg in (("wire", ([0, 1, 5] if not th else list(range(8)), 1)), ("mutants", 1), ("damage", (64, 3) if not th else (600, 12))) for lo, hi in gencheck.chunks(len(p.cases), 6)]
        pool.run(chk, "mc.xlang", "explore", tasks, part=lang + " with range check code")
    chk.bounds = {"types": len(p.cases)}


common.main("C26", body)
