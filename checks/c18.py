import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, regen


def body(chk):
    cp = zbuild.compiler()
    driver = regen.build(cp)
    hists = regen.plan(chk.tier)
    keys = sorted({k for h in hists for k in h.expected()} | {(tuple(sorted(regen.START.items())), regen.ONCE, m) for m in regen.MAINS})
    chk.bounds = {"histories": len(hists), "runs from scratch": len(keys)}
    refs, again = {}, []
    orders = [keys, keys[::-1]]
    pool.run(chk, "mc.regen", "scratch_runs", [(driver, cp, i, ks[i::8], rep) for rep, ks in enumerate(orders) for i in range(8)], part="runs from scratch", collect=again)
    for res in again:
        for k, (ok, text, files) in res.get("refs", []):
            if k not in refs:
                refs[k] = (ok, text, files)
                if not ok:
                    chk.violation("regen:refused:%s" % (k,), "A run from scratch fails: %s\n%s" % (k, text[-1500:]))
            elif refs[k][2] != files:
                chk.violation("regen:not-deterministic:%s" % (k,), "Two runs from scratch give different files: %s" % sorted(f for f in files if files[f] != refs[k][2].get(f))[:10])
    chk.count(len(keys), len(keys), len(keys), "runs from scratch")
    if len(refs) == len(keys):
        pool.run(chk, "mc.regen", "explore", [(driver, cp, i, hists[i::16], {k: refs[k] for h in hists[i::16] for k in h.expected()}) for i in range(16)], part="histories")


common.main("C18", body)
