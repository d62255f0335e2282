import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, hold, py_gen, xlang


def body(chk):
    cp = zbuild.compiler()
    tier = chk.tier
    fams = ["fam_tree", "fam_compose"] if tier == "quick" else ["fam_tree", "fam_compose", "fam_offsets", "fam_feat"]
    pkgs = [py_gen.family(f, tier) for f in fams]
    n = {f: len(hold.pmr_lines(p, tier)) for f, p in zip(fams, pkgs)}
    depth = {"asan": 2, "fast": 3 if tier == "quick" else 4, "views": 4 if tier == "quick" else 6}
    chk.bounds = {"sequence depth": depth, "objects": n}
    progs, pmr = zbuild.parallel(hold.build, lambda: xlang.cpp_build(cp, pkgs, [], flags=("-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), opts=("-setCppAllocator", "polymorphic"), tag="_pmr", driver="pmr"))
    pool.run(chk, "mc.hold", "explore", [(progs["views"], depth["views"], "", "views")] + [(progs["fast"], depth["fast"], m, "holders") for m in reversed(hold.HOLD)] + [(progs["asan"], depth["asan"], m, "holders") for m in hold.HOLD], impl="cpp", part="holders")
    pool.run(chk, "mc.hold", "explore_pmr", [(f, tier, lo, hi, pmr[p.name]) for f, p in zip(fams, pkgs) for lo, hi in gencheck.chunks(n[f], 4)], impl="cpp", part="objects")


common.main("C22", body)
