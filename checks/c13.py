import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, xlang


def body(chk):
    cp = zbuild.compiler()
    tier = chk.tier
    fams = ["fam_tree", "fam_info", "fam_offsets", "fam_compose", "fam_lang"]
    pkgs = [py_gen.family(f, tier) for f in fams]
    chk.bounds = {"families": [p.name for p in pkgs], "objects": sum(len(v) for p in pkgs for t, v, _ in p.cases if not t.params), "answers": "every field, element, parameter, function and selector of every object"}
    py, java, cpp = zbuild.parallel(lambda: gencheck.gen_python(chk, cp, pkgs), lambda: xlang.java_build(cp, pkgs, zbuild.java_runtime()), lambda: xlang.cpp_build(cp, pkgs, [p.name for p in pkgs], driver="infos"))
    for lang, prog in (("python", py), ("java", java), ("cpp", cpp)):
        tasks = [(lang, f, tier, lo, hi, prog) for f, p in zip(fams, pkgs) for lo, hi in gencheck.chunks(len(p.cases), 1 if lang != "python" else 4)]
        pool.run(chk, "mc.tinfo", "explore", tasks, part=lang)


common.main("C13", body)
