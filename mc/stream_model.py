"""Model of the bit stream: abstract write operations, their reference encoding, boundary value alphabets.

op = (kind, width, value); kinds: u (unsigned bits), s (signed bits), var kinds, f16/f32/f64 (value: raw pattern),
str, by (bytes), ext (Ext), b (bool), al (alignto width).
"""
import struct
from .ref import Bits, Ext, VAR, var_bounds, var_enc, var_layout, f16_decode


def encode_op(w, op):
    k, n, v = op
    if k == "u":
        w.put(v, n)
    elif k == "s":
        w.put(v & ((1 << n) - 1), n)
    elif k in VAR:
        var_enc(w, k, v)
    elif k in ("f16", "f32", "f64"):
        w.put(v, int(k[1:]))
    elif k == "b":
        w.put(v, 1)
    elif k == "al":
        w.align(n)
    elif k == "ext":
        var_enc(w, "varsize", v.n)
        w.put(v.v, v.n)
    else:
        b = v.encode("utf8") if k == "str" else v
        var_enc(w, "varsize", len(b))
        w.put(int.from_bytes(b, "big"), 8 * len(b))


def fval(k, pat):
    if k == "f16":
        return f16_decode(pat)
    if k == "f32":
        return struct.unpack(">f", pat.to_bytes(4, "big"))[0]
    return struct.unpack(">d", pat.to_bytes(8, "big"))[0]


def uvals(n):
    m = (1 << n) - 1
    s = {0, 1, m, m - 1, m >> 1, (m >> 1) + 1, 0xAAAAAAAAAAAAAAAA & m, 0x5555555555555555 & m}
    for i in range(n):
        s.add(1 << i)
        s.add(m ^ (1 << i))
    return sorted(x for x in s if 0 <= x <= m)


def svals(n):
    h = 1 << (n - 1)
    return sorted({x - (1 << n) if x & h else x for x in uvals(n)})


def var_edges(kind):
    lo, hi = var_bounds(kind)
    s = {0, 1, hi, hi - 1, lo, lo + 1}
    maxb, signed = VAR[kind]
    for nb in range(1, maxb + 1):
        c = 1 << sum(var_layout(kind, nb))
        for d in (-2, -1, 0, 1):
            s.add(c + d)
            s.add(-(c + d))
    for i in range(64):
        for d in (-1, 0, 1):
            s.add((1 << i) + d)
            s.add(-((1 << i) + d))
    return sorted(x for x in s if lo <= x <= hi)


F_PATTERNS = {
    "f16": [0, 0x8000, 1, 0x8001, 0x3FF, 0x400, 0x3C00, 0xBC00, 0x7BFF, 0xFBFF, 0x7C00, 0xFC00, 0x3555, 0x6AAA],
    "f32": [0, 0x80000000, 1, 0x007FFFFF, 0x00800000, 0x3F800000, 0xBF800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800000,
            0xFF800000, 0x3EAAAAAB, 0x40490FDB],
    "f64": [0, 1 << 63, 1, (1 << 52) - 1, 1 << 52, 0x3FF0000000000000, 0xBFF0000000000000, 0x7FEFFFFFFFFFFFFF,
            0xFFEFFFFFFFFFFFFF, 0x7FF0000000000000, 0xFFF0000000000000, 0x3FD5555555555555, 0x400921FB54442D18],
}
STRINGS = ["", "a", "\x00", "ab", "\u00e9", "\u20ac", "\U0001f600", "x" * 127, "y" * 128, "\u00e9" * 64, "z" * 129, "q" * 300] + [chr(97 + n % 26) * n for n in (2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 126, 130, 255, 256, 257, 16383, 16384)]
BYTES = [b"", b"\x00", b"\xff", b"\x80\x01", bytes(range(127)), bytes(range(128)), bytes(range(200)) + b"\xff" * 56] + [bytes((i * 37 + n) & 255 for i in range(n)) for n in (3, 4, 7, 8, 9, 15, 16, 17, 63, 64, 65, 126, 129, 130, 255, 257, 16383, 16384)]


def exts():
    out = [Ext(0, 0)]
    for n in list(range(1, 18)) + [23, 24, 25, 63, 64, 65, 127, 128, 129]:
        m = (1 << n) - 1
        out += [Ext(m, n), Ext(0, n), Ext(0xA5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5 & m, n), Ext(1, n), Ext(1 << (n - 1), n)]
    for nb in (14, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 130, 200, 255, 256, 257, 2047, 2048):
        for rest in range(8):
            n = nb * 8 + rest
            out.append(Ext(int.from_bytes(bytes((i * 41 + n) & 255 for i in range(nb + 1)), "big") >> (8 - rest), n))
    return sorted(set(out), key=lambda e: (e.n, e.v))


def single_ops():
    ops = []
    for n in range(1, 65):
        ops += [("u", n, v) for v in uvals(n)] + [("s", n, v) for v in svals(n)]
    for k in VAR:
        ops += [(k, 0, v) for v in var_edges(k)]
    for k, ps in F_PATTERNS.items():
        ops += [(k, 0, p) for p in ps]
    ops += [("str", 0, s) for s in STRINGS] + [("by", 0, b) for b in BYTES] + [("ext", 0, e) for e in exts()]
    ops += [("b", 0, 0), ("b", 0, 1)]
    ops += [("al", a, 0) for a in (1, 2, 3, 5, 7, 8, 9, 13, 16, 24, 32, 33, 64)]
    return ops


SEQ_ALPHABET = [
    ("u", 1, 1), ("u", 3, 5), ("u", 7, 0x41), ("u", 8, 0xA5), ("u", 13, 0x1FFF), ("u", 17, 0x10001), ("u", 32, 0xDEADBEEF),
    ("u", 57, (1 << 57) - 2), ("u", 64, (1 << 64) - 1), ("s", 2, -2), ("s", 5, -1), ("s", 12, -2048), ("s", 33, -(1 << 32)),
    ("s", 64, -(1 << 63)), ("b", 0, 1), ("varint16", 0, -64), ("varuint32", 0, 1 << 21), ("varint", 0, -(1 << 63)),
    ("varuint", 0, (1 << 64) - 1), ("varsize", 0, 128), ("f16", 0, 0xBC00), ("f64", 0, 0x400921FB54442D18), ("str", 0, "\u00e9b"),
    ("by", 0, b"\xff\x00\x81"), ("ext", 0, Ext(0x2AB, 10)), ("ext", 0, Ext(0xABCD, 16)), ("al", 8, 0), ("al", 32, 0),
]


def bad_ops():
    """Operations a writer must refuse."""
    out = []
    for n in range(1, 65):
        hi = (1 << n) - 1
        out += [("u", n, hi + 1), ("u", n, -1), ("u", n, 2 * hi + 1), ("u", n, (1 << 64)), ("u", n, -hi - 1), ("u", n, (hi << 1) & ~1 | (1 << n))]
        h = 1 << (n - 1)
        out += [("s", n, h), ("s", n, -h - 1), ("s", n, hi), ("s", n, -2 * h), ("s", n, 1 << 64), ("s", n, 1 << (n + 1)), ("s", n, -(1 << (n + 3)))]
    out = [o for o in out if not (o[0] == "s" and -(1 << (o[1] - 1)) <= o[2] < (1 << (o[1] - 1)))]
    out = [o for o in out if not (o[0] == "u" and 0 <= o[2] < (1 << o[1]))]
    for n in (0, -1, 65, 66, 128, 255, 256, 257):
        out += [("u", n, 0), ("u", n, 1), ("s", n, 0)]
    for k in VAR:
        lo, hi = var_bounds(k)
        out += [(k, 0, x) for x in (hi + 1, hi + 2, 2 * hi, 1 << 64, 1 << 70, lo - 1, lo - 2, 2 * lo - 1, -(1 << 64), -(1 << 70))]
        if k == "varsize":
            out += [(k, 0, 1 << 31), (k, 0, (1 << 32) - 1), (k, 0, (1 << 36) - 1), (k, 0, 1 << 36)]
    return sorted(set(out), key=str)


def sweeps(thorough):
    out = []
    for k in VAR:
        lo, hi = var_bounds(k)
        wins = []
        if k in ("varint16", "varuint16"):
            wins = [(a, min(a + 4096, hi + 1)) for a in range(lo, hi + 1, 4096)]
        else:
            half = 3000 if thorough else 300
            for nb in range(1, VAR[k][0] + 1):
                c = 1 << sum(var_layout(k, nb))
                for s in (c, -c):
                    a, b = max(lo, s - half), min(hi + 1, s + half)
                    if a < b:
                        wins.append((a, b))
            wins += [(max(lo, -half), half), (hi - half, hi + 1), (lo, lo + half)]
        out += [(k, a, b) for a, b in wins]
    return out
