import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, sql


def body(chk):
    cp = zbuild.compiler()
    tier = chk.tier
    n = {p: len(f(tier)) for p, f in sql.PARTS.items()}
    chk.bounds = {"histories": n, "operation alphabet": len(sql.alphabet()), "depth": 4 if tier == "thorough" else 3, "distributions over files": 81}
    progs = sql.build(cp, zbuild.java_runtime())
    chk.bounds["languages"] = sorted(progs)
    for lang in sorted(progs):
        tasks = [(lang, p, tier, lo, hi, progs[lang]) for p in sql.PARTS for lo, hi in gencheck.chunks(n[p], {"operations": 8, "columns": 4, "files": 2}.get(p, 1))]
        pool.run(chk, "mc.sql", "explore", tasks, part=lang)


common.main("C21", body)
