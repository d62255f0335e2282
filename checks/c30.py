import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, sql, sqlval


def body(chk):
    cp = zbuild.compiler()
    tier = chk.tier
    n = {p: len(sqlval.cases(p, tier)) for p in sqlval.PARTS}
    chk.bounds = {"damaged databases": n}
    progs = sql.build(cp, zbuild.java_runtime(), ("java", "cpp"))
    chk.bounds["languages"] = sorted(progs)
    for lang in sorted(progs):
        tasks = [(lang, p, tier, lo, hi, progs[lang]) for p in sqlval.PARTS for lo, hi in gencheck.chunks(n[p], {"values": 6, "pairs": 6, "schema": 4}.get(p, 1))]
        pool.run(chk, "mc.sqlval", "explore", tasks, part=lang)


common.main("C30", body)
