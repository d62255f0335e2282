import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen

FAMS = gencheck.FAMS


def body(chk):
    cp, binding = zbuild.parallel(zbuild.compiler, zbuild.py_binding)
    tier = chk.tier
    pk = [py_gen.family(f, tier) for f in FAMS]
    gen = gencheck.gen_python(chk, cp, pk)
    starts = list(range(8)) if not chk.thorough else list(range(16)) + [31, 32, 33]
    for impl in ("python", "cpp"):
        tasks = []
        for f, p in zip(FAMS, pk):
            for lo, hi in gencheck.chunks(len(p.cases), 48 if f == "fam_scalars" else len(p.cases)):
                tasks.append((f, tier, gen, lo, hi, starts))
        pool.run(chk, "mc.py_gen", "wire", tasks, impl, binding if impl == "cpp" else None, part="wire-" + impl)


common.main("C02", body)
