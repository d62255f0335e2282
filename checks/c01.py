import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool, zbuild
from mc.stream_model import sweeps

PATS = [0, (1 << 64) - 1]


def body(chk):
    binding = zbuild.py_binding()
    depth = 4 if chk.thorough else 3
    from mc.stream_model import SEQ_ALPHABET
    alpha = len(SEQ_ALPHABET)
    chk.bounds = {"op widths": "1..64", "prefix bits": "0..%d" % (16 if chk.thorough else 8), "sequence depth": depth,
                  "sequence alphabet": alpha, "implementations": ["python", "zserio_cpp"]}
    for impl in ("python", "cpp"):
        b = binding if impl == "cpp" else None
        pool.run(chk, "mc.py_stream", "singles", [(impl, n, PATS) for n in range(17 if chk.thorough else 9)], impl, b, part="singles-" + impl)
        pool.run(chk, "mc.py_stream", "sequences", [(impl, f, depth, alpha) for f in range(alpha)], impl, b, part="sequences-" + impl)
        pool.run(chk, "mc.py_stream", "reader_grid", [(impl, p, p + 14) for p in range(0, 206, 14)], impl, b, part="reader-grid-" + impl)
        pool.run(chk, "mc.py_stream", "varsweep", [(impl,) + s for s in sweeps(chk.thorough)], impl, b, part="varint-sweep-" + impl)


common.main("C01", body)
