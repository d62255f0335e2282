import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import common, pool
from mc.py_jparse import spaces, split


def body(chk):
    sp = spaces(chk.thorough)
    tasks = [(label, alpha, n, first, wraps, chunks) for label, alpha, depth, wraps, chunks in sp for n, first in split(alpha, depth)]
    chk.bounds = {l: "all words over %d symbols to length %d" % (len(a), d) for l, a, d, _, _ in sp}
    pool.run(chk, "mc.py_jparse", "explore", tasks, "python", part="texts")


common.main("C10", body)
