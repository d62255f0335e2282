"""Replays stream model traces against the Python BitStreamWriter / BitStreamReader (pure Python or C++ binding)."""
import itertools
from .ref import Bits, Ext, VAR
from .stream_model import *
from .pool import Res


def do_write(z, w, op):
    k, n, v = op
    if k == "u":
        w.write_bits(v, n)
    elif k == "s":
        w.write_signed_bits(v, n)
    elif k in VAR:
        getattr(w, "write_" + k)(v)
    elif k in ("f16", "f32", "f64"):
        getattr(w, "write_float" + k[1:])(fval(k, v))
    elif k == "b":
        w.write_bool(bool(v))
    elif k == "al":
        w.alignto(n)
    elif k == "ext":
        # garbage in the padding bits of the last byte must not reach the stream
        data = bytearray(v.data())
        if v.n % 8:
            data[-1] |= (1 << (8 - v.n % 8)) - 1
        w.write_bitbuffer(z.BitBuffer(bytes(data), v.n))
    elif k == "str":
        w.write_string(v)
    else:
        w.write_bytes(bytearray(v))


def do_read(z, r, op):
    """Returns None if the value read equals op's value, else a description."""
    k, n, v = op
    if k == "u":
        got = r.read_bits(n)
    elif k == "s":
        got = r.read_signed_bits(n)
    elif k in VAR:
        got = getattr(r, "read_" + k)()
    elif k in ("f16", "f32", "f64"):
        got = getattr(r, "read_float" + k[1:])()
        exp = fval(k, v)
        return None if got == exp and str(got) == str(exp) else "%r != %r" % (got, exp)
    elif k == "b":
        got = r.read_bool()
        return None if got is bool(v) else repr(got)
    elif k == "al":
        r.alignto(n)
        return None
    elif k == "ext":
        b = r.read_bitbuffer()
        got = (b.bitsize, bytes(b.buffer))
        v = (v.n, v.data())
    elif k == "str":
        got = r.read_string()
    else:
        got = bytes(r.read_bytes())
    return None if got == v and type(got) == type(v) else "%r != %r" % (got, v)


def replay(z, res, pre, ops, tag):
    """pre: Bits prefix; ops: operations. Writes, compares bits, reads back, re-reads every op in reverse order."""
    m = pre.copy()
    w = z.BitStreamWriter()
    p = pre.n
    while p > 0:
        k = min(p, 64)
        w.write_bits((pre.acc >> (p - k)) & ((1 << k) - 1), k)
        p -= k
    pos = [m.n]
    for op in ops:
        encode_op(m, op)
        do_write(z, w, op)
        pos.append(m.n)
        if w.bitposition != m.n:
            res.bad("%s:pos:%r" % (tag, ops), "bitposition after %r from %d: %d, model %d" % (op, pos[-2], w.bitposition, m.n))
            return None
    m.put(1, 1)
    w.write_bits(1, 1)
    got = bytes(w.byte_array)
    if got != m.bytes():
        res.bad("%s:bytes:%r" % (tag, ops), "prefix %d bits %x, ops %r: bytes %s, model %s" % (pre.n, pre.acc, ops, got.hex(), m.bytes().hex()))
        return None
    r = z.BitStreamReader(got, m.n)
    r.bitposition = pos[0]
    for i, op in enumerate(ops):
        e = do_read(z, r, op)
        if e or r.bitposition != pos[i + 1]:
            res.bad("%s:read:%r" % (tag, ops), "prefix %d bits, ops %r: op %d read back %s, position %d (model %d)" % (pre.n, ops, i, e, r.bitposition, pos[i + 1]))
            return None
    if r.read_bits(1) != 1:
        res.bad("%s:sentinel:%r" % (tag, ops), "sentinel lost")
    if len(ops) > 1:
        for i in reversed(range(len(ops))):
            r.bitposition = pos[i]
            e = do_read(z, r, ops[i])
            if e or r.bitposition != pos[i + 1]:
                res.bad("%s:reread:%r" % (tag, ops), "re-reading op %d of %r from position %d: %s" % (i, ops, pos[i], e))
                return None
    return got, pos


def singles(task):
    import zserio as z
    tag, pre_n, patterns = task
    res = Res()
    for op in single_ops():
        for pat in patterns:
            replay(z, res, Bits(pat & ((1 << pre_n) - 1), pre_n), [op], tag)
            res.states += 1
            res.transitions += 2
            res.traces += 1
    res.sample("prefix %d bits: %r" % (pre_n, single_ops()[777]))
    return res.out()


def sequences(task):
    import zserio as z
    tag, first, depth, alphabet = task
    res = Res()
    for d in range(1, depth + 1):
        for rest in itertools.product(range(alphabet), repeat=d - 1):
            ops = [SEQ_ALPHABET[i] for i in (first,) + rest]
            replay(z, res, Bits(), ops, tag)
            res.states += 1
            res.transitions += 3 * len(ops)
            res.traces += 1
    res.sample(repr(ops))
    return res.out()


def reader_grid(task):
    """Every (position, width) of a fixed stream; every seek target; every end-of-stream distance."""
    import zserio as z
    tag, pos_lo, pos_hi = task
    res = Res()
    data = bytes((i * 73 + 41) & 255 for i in range(26))
    total = len(data) * 8 - 3
    acc = int.from_bytes(data, "big")
    for pos in range(pos_lo, min(pos_hi, total + 1)):
        for n in range(1, 65):
            r = z.BitStreamReader(data, total)
            r.bitposition = pos
            res.states += 1
            res.transitions += 2
            res.traces += 1
            for signed in (False, True):
                r.bitposition = pos
                try:
                    got = r.read_signed_bits(n) if signed else r.read_bits(n)
                except Exception as e:
                    got = e
                if pos + n > total:
                    if not isinstance(got, Exception):
                        res.bad("%s:grid-eof:%d:%d" % (tag, pos, n), "read of %d bits at %d of %d returned %r" % (n, pos, total, got))
                    continue
                v = (acc >> (len(data) * 8 - pos - n)) & ((1 << n) - 1)
                if signed and v >> (n - 1):
                    v -= 1 << n
                if got != v or r.bitposition != pos + n:
                    res.bad("%s:grid:%d:%d:%s" % (tag, pos, n, signed), "read(%d bits) at %d: %r, model %d; position %d" % (n, pos, got, v, r.bitposition))
        for a in (1, 2, 3, 5, 8, 12, 16, 31, 32, 64):
            r = z.BitStreamReader(data, total)
            r.bitposition = pos
            want = (pos + a - 1) // a * a
            try:
                r.alignto(a)
                ok = r.bitposition == want and want <= total
            except Exception:
                ok = want > total
            res.transitions += 1
            if not ok:
                res.bad("%s:align:%d:%d" % (tag, pos, a), "alignto(%d) from %d of %d" % (a, pos, total))
    for bad in (-1, total + 1, total + 3, total + 64):
        r = z.BitStreamReader(data, total)
        try:
            r.bitposition = bad
            res.bad("%s:seek:%d" % (tag, bad), "seek to %d of %d accepted" % (bad, total))
        except Exception:
            pass
    return res.out()


def eof(task):
    """Each op kind at each alignment, stream cut at every bit before its end: the read must fail."""
    import zserio as z
    tag, pre_n = task
    res = Res()
    kinds = {}
    for op in single_ops():
        if op[0] == "al":
            continue
        w = Bits()
        encode_op(w, op)
        kinds.setdefault((op[0], w.n), op)
    for op in kinds.values():
        m = Bits(0, pre_n)
        encode_op(m, op)
        data = m.bytes() + b"\xff\xff"
        step = 1 if m.n < 400 else 37
        for cut in range(pre_n, m.n, step):
            r = z.BitStreamReader(data, cut)
            r.bitposition = pre_n
            res.states += 1
            res.transitions += 1
            res.traces += 1
            try:
                do_read(z, r, op)
            except UnicodeDecodeError:
                continue
            except Exception:
                if r.bitposition > cut:
                    res.bad("%s:eofpos:%r:%d" % (tag, op, cut), "position beyond the end after failed read")
                continue
            res.bad("%s:eof:%r:%d" % (tag, op, cut), "read of %r at %d succeeded in a stream of %d bits" % (op, pre_n, cut))
    return res.out()


def rejects(task):
    """Out-of-domain values: refused, and the stream stays exactly as it was."""
    import zserio as z
    tag, pre_n = task
    res = Res()
    pat = 0b1011011101101 & ((1 << pre_n) - 1)
    bad = bad_ops()
    for op in bad:
        w = z.BitStreamWriter()
        m = Bits(pat, pre_n)
        if pre_n:
            w.write_bits(pat, pre_n)
        res.states += 1
        res.transitions += 3
        res.traces += 1
        try:
            do_write(z, w, op)
            res.bad("%s:accepted:%r" % (tag, op), "writer accepted %r; stream now %s" % (op, bytes(w.byte_array).hex()))
            continue
        except Exception:
            pass
        if w.bitposition != pre_n or bytes(w.byte_array) != m.bytes():
            res.bad("%s:partial:%r" % (tag, op), "refused write of %r changed the stream (%d bits before, %d after, %s)" % (op, pre_n, w.bitposition, bytes(w.byte_array).hex()))
            continue
        m.put(0x15, 5)
        w.write_bits(0x15, 5)
        if bytes(w.byte_array) != m.bytes():
            res.bad("%s:after:%r" % (tag, op), "write after refused %r is damaged: %s" % (op, bytes(w.byte_array).hex()))
    res.sample("prefix %d bits, refused: %r" % (pre_n, bad[-1]))
    return res.out()


def varsweep(task):
    """Complete value ranges of the small variable integers and windows around every capacity boundary, plus the size functions."""
    import zserio as z
    tag, kind, lo, hi = task
    from zserio import bitsizeof as bs
    from .ref import var_enc
    res = Res()
    f = getattr(bs, "bitsizeof_" + kind)
    wr, rd = "write_" + kind, "read_" + kind
    w = z.BitStreamWriter()
    m = bytearray()
    vals = list(range(lo, hi))
    for v in vals:
        b = Bits()
        var_enc(b, kind, v)
        m += b.bytes()
        if f(v) != b.n:
            res.bad("%s:size:%s:%d" % (tag, kind, v), "bitsizeof_%s(%d) = %d, model %d" % (kind, v, f(v), b.n))
        getattr(w, wr)(v)
    res.states += len(vals)
    res.transitions += 2 * len(vals)
    res.traces += len(vals)
    if bytes(w.byte_array) != bytes(m):
        res.bad("%s:sweep:%s:%d" % (tag, kind, lo), "%s bytes differ in [%d,%d)" % (kind, lo, hi))
        return res.out()
    r = z.BitStreamReader(bytes(m))
    for v in vals:
        got = getattr(r, rd)()
        if got != v:
            res.bad("%s:sweepread:%s:%d" % (tag, kind, v), "%s read %r != %d" % (kind, got, v))
            break
    return res.out()
