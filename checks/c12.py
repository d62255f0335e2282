import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, xlang

ALL = ["fam_tree", "fam_scalars", "fam_compose", "fam_offsets", "fam_feat0"]
FAMS = {"python": ALL, "java": ALL, "cpp": ["fam_tree", "fam_compose"]}


def body(chk):
    cp = zbuild.compiler()
    tier, th = chk.tier, chk.thorough
    pk = {f: py_gen.family(f, tier) for f in ALL}
    cfam = [pk[f] for f in FAMS["cpp"]]
    progs = {"python": gencheck.gen_python(chk, cp, list(pk.values())), "java": xlang.java_build(cp, list(pk.values()), zbuild.java_runtime()),
             "cpp": xlang.cpp_build(cp, cfam, [p.name for p in cfam], driver="trees")}
    chk.bounds = {"filters": "all depths, lengths 0..4, every path and its prefixes as patterns, pairs of filters, every sequence of answers with at most two refusals"}
    for lang, prog in progs.items():
        tasks = [(lang, f, tier, prog[pk[f].name] if lang == "cpp" else prog, lo, hi, (90 if th else 60) if f == "fam_tree" else (40 if th else 8), th)
                 for f in FAMS[lang] for lo, hi in gencheck.chunks(len(pk[f].cases), 6)]
        pool.run(chk, "mc.trees", "walks", tasks, part=lang)


common.main("C12", body)
