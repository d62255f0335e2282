import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, front


def body(chk):
    cpath = front.build(zbuild.compiler())
    n = {f: sum(1 for _ in g(chk.tier)) for f, g in front.FAMILIES.items()}
    chk.bounds = {"schemas per family": n}
    pool.run(chk, "mc.front", "explore", [(cpath, f, chk.tier, i, k) for f in sorted(n, key=lambda f: -n[f]) for k in [max(1, n[f] // 2500)] for i in range(k)], part="schemas")


common.main("C16", body)
