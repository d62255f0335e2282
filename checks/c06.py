import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen

FAMS = ["fam_packed", "fam_pdeep"]


def body(chk):
    cp, binding = zbuild.parallel(zbuild.compiler, zbuild.py_binding)
    tier = chk.tier
    pk = [py_gen.family(f, tier) for f in FAMS]
    gen = gencheck.gen_python(chk, cp, pk)
    starts = [0, 3] if not chk.thorough else list(range(8))
    chk.bounds = {"sequences": "all to length 4 over boundary alphabets of 33 element types", "decision": "delta widths 0..63 x lengths 2..40"}
    for impl in ("python", "cpp"):
        tasks = []
        for f, p in zip(FAMS, pk):
            for lo, hi in gencheck.chunks(len(p.cases), len(p.cases)):
                tasks.append((f, tier, gen, lo, hi, starts))
        pool.run(chk, "mc.py_gen", "wire", tasks, impl, binding if impl == "cpp" else None, part="wire-" + impl)


common.main("C06", body)
