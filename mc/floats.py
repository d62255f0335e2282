"""Floating point conversions: the 16-bit format in all runtimes, 32 and 64 bit formats in Python, against IEEE 754 arithmetic."""
import bisect, struct
from . import xlang
from .ref import f16_decode
from .pool import Res

TABLE = [f16_decode(i) for i in range(0x7c01)]


def f32(bits):
    return struct.unpack(">f", bits.to_bytes(4, "big"))[0]


def b32(v):
    return int.from_bytes(struct.pack(">f", v), "big")


def native(task):
    """The driver goes through all 2^16 patterns and all 2^32 floats."""
    lang, prog = task
    res = Res()
    lines = ["%08x" % b32(v) for v in TABLE]
    outs = xlang.run_java(prog, lines, "Floats", "fl", 8) if lang == "java" else xlang.run_prog(prog, lines, "fl")
    for o in outs[:50]:
        res.bad("%s:%s" % (lang, o.split(":")[0].split(" (")[0].replace(" ", "-")), "%s: %s" % (lang, o))
    res.states += (1 << 16) + (1 << 32)
    res.transitions += (1 << 17) + (1 << 32)
    res.traces += 1 << 32
    res.sample("%s: all 2^32 float values to float16" % lang)
    return res.out()


def judge(v, r):
    """None or what is wrong with pattern r for the number v."""
    neg, m = str(v).startswith("-"), r & 0x7fff
    if (r >> 15 != 0) != neg:
        return "sign lost"
    v = abs(v)
    i = bisect.bisect_right(TABLE, v) - 1
    if v == TABLE[i]:
        return None if m == i else "not exact"
    if m not in (i, i + 1):
        return "not one of the neighbours %04x, %04x" % (i, i + 1)
    if v >= 65536:
        return None if m == 0x7c00 else "not infinity"
    if i >= 0x400:
        up = 65536.0 if i + 1 == 0x7c00 else TABLE[i + 1]
        d = (v - TABLE[i]) - (up - v)
        if d and abs(d) > 1e-7 * v and m != (i + 1 if d > 0 else i):
            return "not the nearest"
    return None


def python(task):
    import zserio as z
    impl, lo, hi = task
    res = Res()

    def conv(kind, v):
        w = z.BitStreamWriter()
        getattr(w, "write_float%d" % kind)(v)
        return int.from_bytes(bytes(w.byte_array), "big")

    def back(kind, b):
        return getattr(z.BitStreamReader(b.to_bytes(kind // 8, "big")), "read_float%d" % kind)()
    for i in range(lo, hi):
        for s in (0, 0x8000):
            p = i | s
            res.states += 1
            res.transitions += 2
            v = back(16, p)
            if i > 0x7c00:
                if v == v or conv(16, v) & 0x7fff <= 0x7c00:
                    res.bad("%s:nan:%04x" % (impl, p), "NaN pattern %04x is read as %r and written as %04x" % (p, v, conv(16, v)))
                continue
            x = -TABLE[i] if s else TABLE[i]
            if struct.pack(">d", v) != struct.pack(">d", x) or conv(16, v) != p:
                res.bad("%s:f16:%04x" % (impl, p), "pattern %04x is read as %r (model %r) and written as %04x" % (p, v, x, conv(16, v)))
            if i == 0x7c00:
                continue
            a, b = b32(TABLE[i]), b32(TABLE[i + 1] if i + 1 < 0x7c00 else 65536.0)
            mid = (a + b) // 2
            for c in sorted({a + 1, a + (b - a) // 4, mid - 1, mid, mid + 1, b - (b - a) // 4, b - 1}):
                if not a < c < b:
                    continue
                v = -f32(c) if s else f32(c)
                r = conv(16, v)
                e = judge(v, r)
                res.states += 1
                res.transitions += 1
                if e:
                    res.bad("%s:round:%08x" % (impl, c), "number %r is written as float16 %04x: %s" % (v, r, e))
        res.traces += 1
    if lo == 0:
        exts = [65520.0, 65536.0, 65537.0, 1e5, 131071.0, 131072.0, 1e6, 1e30, 3e38, f32(0x7f7fffff), 1e-10, 1e-30, 1e-45, f32(1), f32(0x007fffff)]
        for v in exts + [-x for x in exts]:
            e = judge(v, conv(16, v))
            res.states += 1
            if e:
                res.bad("%s:extreme:%r" % (impl, v), "number %r is written as float16 %04x: %s" % (v, conv(16, v), e))
        for b in [0x7f800001, 0x7f800100, 0x7f801fff, 0x7f802000, 0x7fc00000, 0x7fffffff, 0xff800001, 0xffc00001]:
            r = conv(16, f32(b))
            if r & 0x7fff <= 0x7c00:
                res.bad("%s:nan:%08x" % (impl, b), "NaN %08x is written as float16 %04x" % (b, r))
        # numbers between two float32 values; all exponents of float32 and float64
        for e in range(0, 255):
            for m in (0, 1, 0x2aaaaa, 0x3fffff, 0x400000, 0x7ffffe, 0x7fffff):
                b = e << 23 | m
                v, n = f32(b), f32(b + 1)
                for s in (1, -1):
                    res.states += 1
                    if conv(32, s * v) != b | (s < 0) << 31 or struct.pack(">d", back(32, b | (s < 0) << 31)) != struct.pack(">d", s * v):
                        res.bad("%s:f32:%08x" % (impl, b), "float32 %08x is not kept" % b)
                    if n == float("inf"):
                        continue
                    for q, want in ((v + (n - v) * 0.25, b), (v + (n - v) * 0.75, b + 1)):
                        if v < q < n and conv(32, s * q) != want | (s < 0) << 31:
                            res.bad("%s:f32round:%08x" % (impl, b), "number %r is written as float32 %08x, nearest is %08x" % (s * q, conv(32, s * q), want))
        for e in range(0, 2047):
            for m in (0, 1, 0xaaaaaaaaaaaaa, (1 << 52) - 1):
                b = e << 52 | m
                for p in (b, b | 1 << 63):
                    res.states += 1
                    v = back(64, p)
                    if struct.pack(">d", v) != p.to_bytes(8, "big") or conv(64, v) != p:
                        res.bad("%s:f64:%016x" % (impl, p), "float64 %016x is not kept" % p)
    res.sample("%s: patterns %04x..%04x and their midpoints" % (impl, lo, hi))
    return res.out()
