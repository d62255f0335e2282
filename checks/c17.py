import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, evo


def body(chk):
    cp = zbuild.compiler()
    tier = chk.tier
    n = {p: len(evo.histories(p, tier)) for p in evo.PARTS}
    _, a, b = evo.package()
    chk.bounds = {"histories": n, "version chains": len(a) + len(b)}
    progs = evo.build(cp, zbuild.java_runtime())
    chk.bounds["languages"] = sorted(progs)
    for lang in sorted(progs):
        tasks = [(lang, p, tier, lo, hi, progs[lang]) for p in evo.PARTS for lo, hi in gencheck.chunks(n[p], {"histories": 8, "truncated": 4}.get(p, 2))]
        pool.run(chk, "mc.evo", "explore", tasks, part=lang)


common.main("C17", body)
