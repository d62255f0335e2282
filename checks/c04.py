import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen

FAMS = gencheck.FAMS


def body(chk):
    cp, binding = zbuild.parallel(zbuild.compiler, zbuild.py_binding)
    tier = chk.tier
    pk = [py_gen.family(f, tier) for f in FAMS]
    gen = gencheck.gen_python(chk, cp, pk)
    nbits = 12 if chk.thorough else 9
    cap, nvals = (600, 12) if chk.thorough else (160, 4)
    chk.bounds = {"every bit string up to": "%d bits" % nbits, "corruption": "every truncation / every single flip in the first and last bits of %d" % cap}
    for impl in ("python", "cpp"):
        b = binding if impl == "cpp" else None
        pool.run(chk, "mc.py_stream", "eof", [(impl, n) for n in range(9)], impl, b, part="stream-" + impl)
        tasks, tasks2 = [], []
        for f, p in zip(FAMS, pk):
            for lo, hi in gencheck.chunks(len(p.cases), 48 if f == "fam_scalars" else len(p.cases)):
                tasks.append((f, tier, gen, lo, hi, cap, nvals))
                for n in range(nbits + 1) if impl == "python" or chk.thorough else (0, 7, 8):
                    tasks2.append((f, tier, gen, lo, hi, n))
        pool.run(chk, "mc.py_gen", "corrupt", tasks, impl, b, part="corrupt-" + impl)
        pool.run(chk, "mc.py_gen", "allbits", tasks2, impl, b, part="allbits-" + impl)


common.main("C04", body)
