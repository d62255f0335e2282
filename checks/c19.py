import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, svc


def body(chk):
    cp = zbuild.compiler()
    tier = chk.tier
    n = {p: len(svc.histories(p, tier)) for p in svc.PARTS}
    chk.bounds = {"histories": n}
    progs = svc.build(cp, zbuild.java_runtime())
    chk.bounds["languages"] = sorted(progs)
    for lang in sorted(progs):
        tasks = [(lang, p, tier, lo, hi, progs[lang]) for p in svc.PARTS for lo, hi in gencheck.chunks(n[p], {"subscriptions": 4, "calls": 3}.get(p, 1))]
        pool.run(chk, "mc.svc", "explore", tasks, part=lang)


common.main("C19", body)
