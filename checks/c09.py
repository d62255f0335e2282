import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen

FAMS = gencheck.FAMS


def body(chk):
    cp, binding = zbuild.parallel(zbuild.compiler, zbuild.py_binding)
    tier = chk.tier
    pk = [py_gen.family(f, tier) for f in FAMS]
    gen = gencheck.gen_python(chk, cp, pk)
    chk.bounds = {"values": "all of the schema families", "chunk sizes of the text stream": [1, 2, 3, 7], "partial documents": "each member missing, each alone, none, reversed order"}
    for impl in ("python", "cpp") if chk.thorough else ("python",):
        b = binding if impl == "cpp" else None
        tasks = []
        for f, p in zip(FAMS, pk):
            for lo, hi in gencheck.chunks(len(p.cases), 48 if f == "fam_scalars" else len(p.cases)):
                tasks.append((f, tier, gen, lo, hi, chk.thorough))
        pool.run(chk, "mc.py_json", "exhaust", [("fam_scalars", tier, gen, k, 16) for k in range(16)], impl, b, part="value-spaces-" + impl)
        pool.run(chk, "mc.py_json", "alternatives", [("fam_scalars", tier, gen)], impl, b, part="spellings-" + impl)
        pool.run(chk, "mc.py_json", "roundtrip", tasks, impl, b, part="roundtrip-" + impl)


common.main("C09", body)
