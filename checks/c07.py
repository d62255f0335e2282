import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild, gencheck, py_gen, exprs, py_exprs


def body(chk):
    cp = zbuild.compiler()
    th, tier = chk.thorough, chk.tier
    src, out = os.path.join(zbuild.scratch(), "zsx"), os.path.join(zbuild.scratch(), "gen_pyx")
    os.makedirs(src)
    tasks, jobs = [], []
    for name, ex in exprs.space(th).items():
        for i, (lo, hi) in enumerate(gencheck.chunks(len(ex), max(1, len(ex) // 800))):
            pkg = "ex_%s%d" % (name, i)
            with open(os.path.join(src, pkg + ".zs"), "w") as f:
                f.write(exprs.schema(pkg, ex[lo:hi], {"i": "uint64", "b": "bool"} if name == "big" else None))
            jobs.append(pkg)
            tasks.append((pkg, out, name, th, lo, hi))
    cons = py_exprs.const_space(th)
    with open(os.path.join(src, "ex_const.zs"), "w") as f:
        f.write(py_exprs.const_schema(cons))
    jobs.append("ex_const")
    fe = py_gen.family("fam_expr", tier)
    gen = [None]

    def fam():
        gen[0] = gencheck.gen_python(chk, cp, [fe])
    pool8 = zbuild.parallel(fam, *[lambda p=p: zbuild.generate(cp, src, p + ".zs", "-python", out) for p in jobs])
    chk.bounds = {"trees": "all well typed trees with 1-2 operators over %d operators; with 3 operators over %d (thorough: %d) representatives; every operator with each operand kind" % (len(exprs.OPS), len(exprs.REPR), len(exprs.OPS)),
                  "values": "grid of %d assignments" % len(exprs.grid())}
    pool.run(chk, "mc.py_exprs", "run", tasks, part="functions")
    pool.run(chk, "mc.py_exprs", "consts", [(out, th)], part="constants")
    pool.run(chk, "mc.py_gen", "wire", [("fam_expr", tier, gen[0], lo, hi, [0, 3]) for lo, hi in gencheck.chunks(len(fe.cases), 48)], part="contexts")


common.main("C07", body)
