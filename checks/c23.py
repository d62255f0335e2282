import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, xlang

FAMS = gencheck.FAMS + ["fam_pdeep", "fam_expr_java"]


def body(chk):
    cp, rt = zbuild.parallel(zbuild.compiler, zbuild.java_runtime)
    tier = chk.tier
    pk = [py_gen.family(f, tier) for f in FAMS]
    prog = xlang.java_build(cp, pk, rt)
    th = chk.thorough
    plan = {"wire": (([0, 1, 2, 3, 4, 5, 6, 7] if th else [0, 3], 1), 6), "damage": ((600, 12) if th else (56, 2), 6),
            "allbits": (range(13) if th else (0, 8), 3), "mutants": (1 if th else 29, 4)}
    chk.bounds = {k: str(v[0]) for k, v in plan.items()}
    tasks = [("java", kind, f, tier, lo, hi, arg, prog) for kind, (arg, n) in plan.items() for f, p in zip(FAMS, pk) if th or kind == "wire" or f != "fam_expr_java" for lo, hi in gencheck.chunks(len(p.cases), n)]
    pool.run(chk, "mc.xlang", "explore", tasks, part="java")


common.main("C23", body)
