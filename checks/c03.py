import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen

FAMS = gencheck.FAMS


def body(chk):
    cp, binding = zbuild.parallel(zbuild.compiler, zbuild.py_binding)
    tier = chk.tier
    pk = [py_gen.family(f, tier) for f in FAMS]
    gen = gencheck.gen_python(chk, cp, pk)
    chk.bounds = {"mutations": "every single position of every legal value", "stream prefixes": "0..8 bits"}
    for impl in ("python", "cpp"):
        b = binding if impl == "cpp" else None
        pool.run(chk, "mc.py_stream", "rejects", [(impl, n) for n in range(9)], impl, b, part="stream-" + impl)
        pool.run(chk, "mc.py_gen", "wrong_args", [(f, tier, gen) for f in FAMS], impl, b, part="arguments-" + impl)
        tasks = []
        for f, p in zip(FAMS, pk):
            for lo, hi in gencheck.chunks(len(p.cases), 48 if f == "fam_scalars" else len(p.cases)):
                for pre in range(8) if chk.thorough else (0, 3) if impl == "python" and not f.startswith(("fam_feat", "fam_args")) else (3,):
                    tasks.append((f, tier, gen, lo, hi, pre))
        pool.run(chk, "mc.py_gen", "rejects", tasks, impl, b, part="values-" + impl)


common.main("C03", body)
