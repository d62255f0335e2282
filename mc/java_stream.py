"""Replays stream model traces against the Java ByteArrayBitStreamWriter / ByteArrayBitStreamReader / BitSizeOfCalculator."""
import itertools, struct
from . import xlang
from .ref import Bits, Ext, VAR, var_bounds, var_enc
from .stream_model import *
from .pool import Res

NATIVE = {("u", 8): "u8", ("u", 16): "u16", ("u", 32): "u32", ("s", 8): "s8", ("s", 16): "s16", ("s", 32): "s32", ("s", 64): "s64"}


def val(k, v):
    """Text of the value in Java driver lines (also what the driver prints for a value read)."""
    if k == "f16":
        return str(struct.unpack(">I", struct.pack(">f", f16_decode(v)))[0])
    if k in ("str", "by"):
        return (v.encode("utf8") if k == "str" else v).hex()
    if k == "ext":
        return "%d/%s" % (v.n, v.data().hex())
    if k == "al":
        return ""
    return str(v)


def apis(op):
    """All Java calls that write this operation."""
    k, n, v = op
    if k in ("u", "s"):
        out = [(k.upper(), n, v)]
        if (k, n) != ("u", 64):
            out.append(op)
        if (k, n) in NATIVE:
            out.append((NATIVE[k, n], n, v))
        return out
    return [op]


def api(op):
    return apis(op)[-1]


def tok(op, k0=None):
    return "%s:%d:%s" % (op[0], op[1], val(k0 or op[0], op[2]))


def expect(pre, ops, calls):
    """The answer line the model predicts for a replay case."""
    m = pre.copy()
    a, r = "", ""
    for op, c in zip(ops, calls):
        p = m.n
        encode_op(m, op)
        a += "%d %d " % (m.n, m.n - p if op[0] in VAR or op[0] in ("str", "by", "ext") else -1)
        r += "%s %d " % (val(op[0], op[2]), m.n)
    m.put(1, 1)
    return "%s\t%s\ttrue\t%s1" % (a, m.bytes().hex(), r)


def replay(res, cp, cases, name):
    """cases: (prefix Bits, ops, calls)"""
    lines = ["R\t%d\t%d\t%s" % (p.n, p.acc, " ".join(tok(c, o[0]) for o, c in zip(ops, calls))) for p, ops, calls in cases]
    outs = xlang.run_java(cp, lines, "Streams", name)
    for (p, ops, calls), o in zip(cases, outs):
        res.states += 1
        res.transitions += 4 * len(ops)
        res.traces += 1
        e = expect(p, ops, calls)
        if o != e:
            res.bad("java:replay:%r" % ([(c[0],) + tuple(o[1:]) for o, c in zip(ops, calls)],), "prefix %d bits %x, calls %s: Java %s, model %s" % (p.n, p.acc, str([str(c)[:60] for c in calls]), o[:600], e[:600]))
    res.sample(lines[len(lines) // 2][:300])


def singles(task):
    cp, pre_n, pats = task
    res = Res()
    cases = [(Bits(pat & ((1 << pre_n) - 1), pre_n), [op], [c]) for op in single_ops() for c in apis(op) for pat in pats]
    replay(res, cp, cases, "s%d" % pre_n)
    return res.out()


def sequences(task):
    cp, first, depth, alphabet = task
    res = Res()
    cases = []
    for d in range(1, depth + 1):
        for rest in itertools.product(range(alphabet), repeat=d - 1):
            ops = [SEQ_ALPHABET[i] for i in (first,) + rest]
            cases.append((Bits(), ops, [apis(o)[(i + sum(rest)) % len(apis(o))] for i, o in enumerate(ops)]))
    replay(res, cp, cases, "q%d" % first)
    return res.out()


def reader_grid(task):
    cp, lo, hi = task
    res = Res()
    data = bytes((i * 73 + 41) & 255 for i in range(26))
    total = len(data) * 8 - 3
    acc = int.from_bytes(data, "big")
    lines = ["G\t%s\t%d\t%d" % (data.hex(), total, p) for p in range(lo, min(hi, total + 1))]
    for pos, o in zip(range(lo, total + 1), xlang.run_java(cp, lines, "Streams", "g%d" % lo)):
        got = o.split(" ")
        for n in range(1, 65):
            v = (acc >> (len(data) * 8 - pos - n)) & ((1 << n) - 1) if pos + n <= total else None
            for m in range(4):
                res.states += 1
                res.transitions += 2
                if v is None:
                    e = "X"
                else:
                    e = "%d@%d" % (v - (1 << n) if m & 1 and v >> (n - 1) else v, pos + n)
                if m == 0 and n == 64:
                    e = "-"
                g = got[(n - 1) * 4 + m] if len(got) > (n - 1) * 4 + m else o
                if g != e:
                    res.bad("java:grid:%d:%d:%d" % (pos, n, m), "reading %d bits (%s) at %d of %d: Java %s, model %s" % (n, ("readBits", "readSignedBits", "readBigInteger", "readSignedBigInteger")[m], pos, total, g[:200], e))
        res.traces += 1
    res.sample(lines[0])
    return res.out()


def eof(task):
    """Every call at every alignment, stream cut at every bit: a cut read must fail."""
    cp, pre_n = task
    res = Res()
    kinds = {}
    for op in single_ops():
        if op[0] != "al":
            w = Bits()
            encode_op(w, op)
            for c in apis(op):
                kinds.setdefault((c[0], w.n), (op, c))
    lines, meta = [], []
    for op, c in kinds.values():
        m = Bits(0, pre_n)
        encode_op(m, op)
        cuts = [x for x in range(pre_n, m.n, 1 if m.n < 400 else 37)]
        lines.append("E\t%s\t%d\t%s\t%s" % (tok((c[0], c[1], op[2]), op[0]) if op[0] not in ("str", "by", "ext") else "%s:0:" % op[0], pre_n, (m.bytes() + b"\xff\xff").hex(), " ".join(map(str, cuts))))
        meta.append((c, len(cuts)))
    for (c, n), o in zip(meta, xlang.run_java(cp, lines, "Streams", "e%d" % pre_n)):
        res.states += n
        res.transitions += n
        res.traces += n
        if o:
            res.bad("java:eof:%s:%d" % (str(c)[:60], pre_n), "call %s at bit %d: reads of the cut stream succeeded: %s" % (str(c)[:100], pre_n, o[:300]))
    res.sample(lines[7][:200])
    return res.out()


def rejects(task):
    cp, pre_n = task
    res = Res()
    pat = 0b1011011101101 & ((1 << pre_n) - 1)
    cases = []
    for op in bad_ops():
        k, n, v = op
        cs = [c for c in (apis(op) if 1 <= n <= 64 or k in VAR else [op, (k.upper(), n, v)])]
        # writeBigInteger does not know about signedness: it takes every value of n bits, signed or unsigned
        cases += [c for c in cs if not (c[0] in "US" and 1 <= n <= 64 and -(1 << (n - 1)) <= v < (1 << n))]
    cases += [("u", 64, 0), ("u", 64, 1)]
    lines = ["B\t%d\t%d\t%s" % (pre_n, pat, tok(c)) for c in cases]
    m = Bits(pat, pre_n)
    m.put(0x15, 5)
    e = "%d %s" % (pre_n, m.bytes().hex())
    for c, o in zip(cases, xlang.run_java(cp, lines, "Streams", "b%d" % pre_n)):
        if o == "unrepresentable":
            continue
        res.states += 1
        res.transitions += 2
        res.traces += 1
        if o != e:
            res.bad("java:reject:%r" % (c,), "refused call %r at bit %d: Java %s, expected to be refused leaving %s" % (c, pre_n, o, e))
    if pre_n == 0:
        lines = []
        for k in VAR:
            lo, hi = var_bounds(k)
            lines += ["Z\t%s\t%d" % (k, x) for x in (hi + 1, hi + 2, 2 * hi, lo - 1, lo - 2, 2 * lo - 1)]
        for l, o in zip(lines, xlang.run_java(cp, lines, "Streams", "z")):
            res.states += 1
            if o not in ("refused", "unrepresentable"):
                res.bad("java:size:%s" % l, "size of a value out of range: %s gave %s" % (l, o))
    return res.out()


def varsweep(task):
    cp, wins = task
    res = Res()
    outs = xlang.run_java(cp, ["V\t%s\t%d\t%d" % w for w in wins], "Streams", "v%d" % abs(hash(str(wins))))
    for (k, lo, hi), o in zip(wins, outs):
        m = bytearray()
        for v in range(lo, hi):
            b = Bits()
            var_enc(b, k, v)
            m += b.bytes()
        res.states += hi - lo
        res.transitions += 3 * (hi - lo)
        res.traces += 1
        if o != m.hex():
            res.bad("java:sweep:%s:%d" % (k, lo), "%s in [%d, %d): %s" % (k, lo, hi, o[:200]))
    return res.out()
