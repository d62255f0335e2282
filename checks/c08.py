import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, xlang

FAMS = gencheck.FAMS + ["fam_tree"]
JSON = {"fcom", "foff", "fpak", "ftre"}


def body(chk):
    cp, rt = zbuild.parallel(zbuild.compiler, zbuild.java_runtime)
    tier, th = chk.tier, chk.thorough
    cap = 64 if not th else 400
    chk.bounds = {"values of one type compared pairwise": cap}
    pk = {f: py_gen.family(f, tier) for f in FAMS}
    gen = gencheck.gen_python(chk, cp, list(pk.values()))
    pool.run(chk, "mc.eq", "python", [(f, tier, gen, lo, hi, cap) for f, p in pk.items() for lo, hi in gencheck.chunks(len(p.cases), 6)], part="python")
    prog = xlang.java_build(cp, list(pk.values()), rt)
    pool.run(chk, "mc.eq", "other", [("java", f, tier, lo, hi, cap, prog, True) for f, p in pk.items() for lo, hi in gencheck.chunks(len(p.cases), 4)], part="java")
    prog = xlang.cpp_build(cp, list(pk.values()), JSON, ["-O0", "-DZVF_EQ"])
    pool.run(chk, "mc.eq", "other", [("cpp", f, tier, lo, hi, cap, prog, p.name in JSON) for f, p in pk.items() for lo, hi in gencheck.chunks(len(p.cases), 4)], part="cpp")


common.main("C08", body)
