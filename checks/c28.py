import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild
from mc.stream_model import SEQ_ALPHABET, sweeps

PATS = [0, (1 << 64) - 1]


def body(chk):
    rt = zbuild.java_runtime()
    here = os.path.join(os.path.dirname(os.path.abspath(zbuild.__file__)), "java")
    cp = zbuild.javac(os.path.join(zbuild.scratch(), "drv"), zbuild.find(here, ".java"), rt) + ":" + rt
    depth = 4 if chk.thorough else 3
    n, alpha, m = (17 if chk.thorough else 9), len(SEQ_ALPHABET), "mc.java_stream"
    chk.bounds = {"op widths": "1..64", "prefix bits": "0..%d" % (n - 1), "sequence depth": depth, "sequence alphabet": alpha}
    pool.run(chk, m, "singles", [(cp, i, PATS) for i in range(n)], part="singles")
    pool.run(chk, m, "sequences", [(cp, f, depth, alpha) for f in range(alpha)], part="sequences")
    pool.run(chk, m, "reader_grid", [(cp, p, p + 26) for p in range(0, 206, 26)], part="reader-grid")
    pool.run(chk, m, "eof", [(cp, i) for i in range(n)], part="end of stream")
    pool.run(chk, m, "rejects", [(cp, i) for i in range(9)], part="refused calls")
    wins = sweeps(chk.thorough)
    pool.run(chk, m, "varsweep", [(cp, wins[i::8]) for i in range(8)], part="varint-sweep")


common.main("C28", body)
