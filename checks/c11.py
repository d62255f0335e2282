import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, xlang


def body(chk):
    cp = zbuild.compiler()
    tier, th = chk.tier, chk.thorough
    p = py_gen.family("fam_tree", tier)
    progs = {"python": gencheck.gen_python(chk, cp, [p]), "java": xlang.java_build(cp, [p], zbuild.java_runtime()), "cpp": xlang.cpp_build(cp, [p], [p.name], driver="trees")["ftre"]}
    plan = {"Sm": (5 if th else 4, 8), "Tr": (3 if th else 2, 8), "Rec": (7 if th else 5, 4), "Nst": (9 if th else 7, 8)}
    chk.bounds = {"operations accepted before every operation is tried": {k: v[0] for k, v in plan.items()}}
    for lang, prog in progs.items():
        tasks = [(lang, tier, prog, t, d, i, of) for t, (d, of) in plan.items() for i in range(of)]
        pool.run(chk, "mc.trees", "creations", tasks, part=lang)


common.main("C11", body)
