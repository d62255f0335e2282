import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen

FAMS = gencheck.FAMS


def body(chk):
    cp, binding = zbuild.parallel(zbuild.compiler, zbuild.py_binding)
    tier, th = chk.tier, chk.thorough
    pk = [py_gen.family(f, tier) for f in FAMS]
    gen = gencheck.gen_python(chk, cp, pk)
    starts = [0, 1, 5, 8, 13, 31, 32, 63, 64] if not th else list(range(72)) + [127, 128, 129]
    hs = [0, 3, 8, 16, 21] if not th else [0, 1, 3, 7, 8, 9, 16, 21, 32]
    chk.bounds = {"start positions": starts, "histories": "depth %d over initialize at %s and replacement by other values" % (2 if not th else 3, hs)}
    for impl in ("python", "cpp") if th else ("python",):
        b = binding if impl == "cpp" else None
        tasks, tasks2 = [], []
        for f, p in zip(FAMS, pk):
            for lo, hi in gencheck.chunks(len(p.cases), 48 if f == "fam_scalars" else len(p.cases)):
                tasks.append((f, tier, gen, lo, hi, starts, 1 if th or not f.startswith("fam_feat") else 3))
                if f != "fam_scalars":
                    tasks2.append((f, tier, gen, lo, hi, hs, 4, 3 if th and f == "fam_offsets" else 2))
        pool.run(chk, "mc.py_sizes", "predict", tasks, impl, b, part="sizes-" + impl)
        pool.run(chk, "mc.py_sizes", "histories", tasks2, impl, b, part="histories-" + impl)


common.main("C05", body)
