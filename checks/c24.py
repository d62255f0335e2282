import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, xlang

FAMS = gencheck.FAMS + ["fam_pdeep", "fam_expr_cpp0", "fam_expr_cpp1", "fam_expr_cpp2", "fam_expr_cpp3"]
JSON = {"fcom", "foff", "fpak", "fpdp"}
SAN = ["fam_compose", "fam_offsets", "fam_packed", "fam_pdeep"]


def body(chk):
    cp = zbuild.compiler()
    tier, th = chk.tier, chk.thorough
    pk = {f: py_gen.family(f, tier) for f in FAMS}
    prog = xlang.cpp_build(cp, list(pk.values()), JSON if not th else JSON | {"ffea0", "ffea1", "ffea2"})
    plan = {"wire": (([0, 1, 2, 3, 4, 5, 6, 7] if th else [0, 3], 1), 4), "damage": ((600, 12) if th else (56, 2), 4), "allbits": (range(13) if th else (0, 8), 2), "mutants": (1 if th else 11, 4)}
    chk.bounds = {k: str(v[0]) for k, v in plan.items()}
    tasks = [("cpp", kind, f, tier, lo, hi, arg, prog) for kind, (arg, n) in plan.items() for f, p in pk.items() if kind != "mutants" or p.name in JSON for lo, hi in gencheck.chunks(len(p.cases), n)]
    pool.run(chk, "mc.xlang", "explore", tasks, part="cpp")
    san = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    prog = xlang.cpp_build(cp, [pk[f] for f in SAN], {"fcom"} if not th else JSON, san, tag="san")
    tasks = [("cpp", kind, f, tier, lo, hi, plan[kind][0], prog) for kind in ("wire", "damage", "allbits", "mutants") for f in SAN if kind != "mutants" or th or f == "fam_compose" for lo, hi in gencheck.chunks(len(pk[f].cases), 3)]
    pool.run(chk, "mc.xlang", "explore", tasks, part="cpp with address and undefined behaviour sanitizers")


common.main("C24", body)
