"""Shared steps of the checks on generated Python code."""
import os
from . import families, py_gen, pool, zbuild

FAMS = ["fam_scalars", "fam_compose", "fam_offsets", "fam_packed", "fam_feat0", "fam_feat1", "fam_feat2", "fam_args", "fam_lang", "fam_info"]
if os.environ.get("ZVF_FAMS"):       # development aid
    FAMS = os.environ["ZVF_FAMS"].split()


def gen_python(chk, cp, pkgs, *opts):
    """Generates Python code of the packages into scratch; returns {name: dir}."""
    src = os.path.join(zbuild.scratch(), "zs")
    out = os.path.join(zbuild.scratch(), "gen_py")
    os.makedirs(src, exist_ok=True)
    names = []
    for p in pkgs:
        p.write(src)
        names.append(p.name)
    def one(n):
        return zbuild.generate(cp, src, n + ".zs", "-python", out, "-allowImplicitArrays", "-withTypeInfoCode", *opts)
    zbuild.parallel(*[lambda n=n: one(n) for n in names])
    return out


def chunks(n, k):
    step = max(1, (n + k - 1) // k)
    return [(i, min(n, i + step)) for i in range(0, n, step)]
