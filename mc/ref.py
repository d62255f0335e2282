"""Reference model of zserio: schema AST, value domains, wire encoder / decoder, JSON mapping.

Written from doc/ZserioEncodingGuide.md, doc/ZserioLanguageOverview.md and doc/ZserioJsonGuide.md, with no use of
any code from the repository. It is the oracle every explorer compares the implementation with.

Values:  int/bool/float/str, Ext(data, bits), bytes, enum -> item name, bitmask -> int, array -> list,
         struct -> dict (absent optional field: None), choice/union -> (case field name or None, value).
"""
import struct as _struct
from fractions import Fraction


class Reject(Exception):
    """The model says: the implementation must refuse this (documented error)."""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class Unspecified(Exception):
    """Behaviour the documentation leaves open: nothing is compared."""


class Bits:
    """Bit string builder."""
    __slots__ = ("acc", "n")

    def __init__(self, acc=0, n=0):
        self.acc, self.n = acc, n

    def put(self, v, k):
        if not 0 <= v < (1 << k):
            raise Reject("range")
        self.acc = (self.acc << k) | v
        self.n += k

    def align(self, a):
        if self.n % a:
            self.put(0, a - self.n % a)

    def bytes(self):
        nb = (self.n + 7) // 8
        return (self.acc << (nb * 8 - self.n)).to_bytes(nb, "big")

    def copy(self):
        return Bits(self.acc, self.n)


class In:
    """Bit string consumer."""
    __slots__ = ("acc", "n", "pos")

    def __init__(self, data, n=None):
        self.acc = int.from_bytes(data, "big")
        total = len(data) * 8
        if n is None:
            n = total
        self.acc >>= total - n
        self.n, self.pos = n, 0

    def get(self, k):
        if self.pos + k > self.n:
            raise Reject("eof")
        v = (self.acc >> (self.n - self.pos - k)) & ((1 << k) - 1)
        self.pos += k
        return v

    def align(self, a):
        if self.pos % a:
            self.get(a - self.pos % a)


# ---------------------------------------------------------------------------------------------- variable integers
# name -> (max bytes, signed, lower bound, upper bound)
VAR = {
    "varint16": (2, True), "varint32": (4, True), "varint64": (8, True), "varint": (9, True),
    "varuint16": (2, False), "varuint32": (4, False), "varuint64": (8, False), "varuint": (9, False),
    "varsize": (5, False),
}


def var_layout(kind, nbytes):
    """Number of value bits in each byte of an nbytes long encoding."""
    maxb, signed = VAR[kind]
    out = []
    for i in range(nbytes):
        k = 8
        if signed and i == 0:
            k -= 1
        if i < maxb - 1:
            k -= 1
        out.append(k)
    return out


def var_bounds(kind):
    if kind == "varsize":
        return 0, (1 << 31) - 1
    maxb, signed = VAR[kind]
    cap = sum(var_layout(kind, maxb))
    if kind == "varint":
        return -(1 << 63), (1 << 63) - 1
    return (-((1 << cap) - 1) if signed else 0), (1 << cap) - 1


def var_size(kind, v):
    """Bytes of the shortest encoding."""
    lo, hi = var_bounds(kind)
    if not lo <= v <= hi:
        raise Reject("range")
    if kind == "varint" and v == lo:
        return 1
    for nb in range(1, VAR[kind][0] + 1):
        if abs(v) < (1 << sum(var_layout(kind, nb))):
            return nb
    raise AssertionError


def var_enc(w, kind, v):
    nb = var_size(kind, v)
    maxb, signed = VAR[kind]
    if kind == "varint" and v == -(1 << 63):
        w.put(0x80, 8)
        return
    lay = var_layout(kind, nb)
    a = abs(v)
    rest = sum(lay)
    for i, k in enumerate(lay):
        if signed and i == 0:
            w.put(1 if v < 0 else 0, 1)
        if i < maxb - 1:
            w.put(1 if i < nb - 1 else 0, 1)
        rest -= k
        w.put((a >> rest) & ((1 << k) - 1), k)


def var_dec(r, kind):
    maxb, signed = VAR[kind]
    neg = False
    a = 0
    for i in range(maxb):
        k = 8
        if signed and i == 0:
            neg = r.get(1) == 1
            k -= 1
        more = False
        if i < maxb - 1:
            more = r.get(1) == 1
            k -= 1
        a = (a << k) | r.get(k)
        if not more:
            break
    if kind == "varsize" and a > (1 << 31) - 1:
        raise Reject("varsize")
    if kind == "varint" and neg and a == 0:
        if i:
            raise Unspecified("non canonical INT64_MIN")
        return -(1 << 63)
    return -a if neg else a


# ---------------------------------------------------------------------------------------------------------- floats
def f16_decode(u):
    s, e, m = u >> 15, (u >> 10) & 31, u & 1023
    if e == 31:
        return float("nan") if m else (float("-inf") if s else float("inf"))
    v = (m / 1024.0) * 2.0 ** -14 if e == 0 else (1 + m / 1024.0) * 2.0 ** (e - 15)
    return -v if s else v


def f16_exact(v):
    """The half-precision pattern of v if v is exactly representable, else None (NaN: None)."""
    try:
        b = _struct.pack(">e", v)
    except (OverflowError, ValueError):
        return None
    if _struct.unpack(">e", b)[0] != v:
        return None
    return int.from_bytes(b, "big")


# ----------------------------------------------------------------------------------------------------------- types
class Ext:
    """BitBuffer value: bits as an int of given length."""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v, self.n = v, n

    JUNK = False        # whether to set the unused bits and to append an unused byte

    def data(self):
        nb = (self.n + 7) // 8
        b = (self.v << (nb * 8 - self.n)).to_bytes(nb, "big")
        if Ext.JUNK:
            b = b[:-1] + bytes([b[-1] | ((1 << (nb * 8 - self.n)) - 1)]) + b"\xa5" if nb else b"\xa5"
        return b

    def __eq__(self, o):
        return isinstance(o, Ext) and (self.v, self.n) == (o.v, o.n)

    def __hash__(self):
        return hash((self.v, self.n))

    def __repr__(self):
        return "Ext(%#x,%d)" % (self.v, self.n)


class E:
    """Expression: zserio text and its meaning."""

    def __init__(self, text, fn=None):
        self.text = text
        if fn is None:
            k = int(text)
            fn = lambda e, k=k: k
        self.fn = fn

    def __call__(self, env):
        return self.fn(env)


class T:
    packable = False
    name = None      # zserio type text
    const_size = None

    def enc(self, w, v, args):
        raise NotImplementedError

    def dec(self, r, args):
        raise NotImplementedError

    def json(self, v):
        return v

    def new_ctx(self):
        return None

    # context handling of packed arrays
    def ctx_init(self, ctx, v, args):
        pass

    def enc_packed(self, ctx, w, v, args):
        self.enc(w, v, args)

    def dec_packed(self, ctx, r, args):
        return self.dec(r, args)


# Describes one known finding (known_findings.txt, C03): the Python runtime does not check the range of elements
# 2.. of packed arrays of fixed-size integers. Only set while classifying a mismatch.
UNCHECKED_PACKED_ARRAYS = False

# Java maps unsigned 64-bit fields to BigInteger, whose writer method serves signed and unsigned fields; without the optional
# range check code negative values are outside of what is specified. Set while exploring Java.
NATIVE_BIG = False
WIDTH_MOD = False       # widths of dynamic bit fields are taken modulo 256 (a known finding of generated C++ code)


class Delta:
    """Packing context of one packable leaf (Encoding Guide: Packed Arrays)."""
    __slots__ = ("vals", "sizes", "started", "packed", "maxbits", "prev")

    def __init__(self):
        self.vals, self.sizes = [], []
        self.started = False
        self.packed = False
        self.maxbits = 0
        self.prev = None

    def finish(self):
        self.started = True
        vals = self.vals
        if len(vals) < 2:
            return
        mb = 0
        for a, b in zip(vals, vals[1:]):
            mb = max(mb, abs(b - a).bit_length())
        if mb > 62:
            return
        d = mb + 1 if mb else 0
        if 7 + self.sizes[0] + d * (len(vals) - 1) < 1 + sum(self.sizes):
            self.packed, self.maxbits = True, mb


class Leaf(T):
    """Packable leaf with an integer value on the wire."""
    packable = True

    def num(self, v):
        return v

    def unnum(self, n):
        return n

    def new_ctx(self):
        return Delta()

    def wire_size(self, v, args):
        w = Bits()
        self.enc(w, v, args)
        return w.n

    def ctx_init(self, ctx, v, args):
        ctx.vals.append(self.num(v))
        ctx.sizes.append(self.wire_size(v, args))

    def enc_packed(self, ctx, w, v, args):
        if not ctx.started:
            ctx.finish()
            if ctx.packed:
                w.put(1, 1)
                w.put(ctx.maxbits, 6)
            else:
                w.put(0, 1)
            self.enc(w, v, args)
        elif not ctx.packed:
            self.enc(w, v, args)
        elif ctx.maxbits:
            if NATIVE_BIG and isinstance(self, Var) and not self.bounds()[0] <= v <= self.bounds()[1]:
                raise Unspecified("value outside of the native type")
            d = self.num(v) - ctx.prev
            w.put(d & ((1 << (ctx.maxbits + 1)) - 1), ctx.maxbits + 1)
        ctx.prev = self.num(v)

    def dec_packed(self, ctx, r, args):
        if not ctx.started:
            ctx.started = True
            ctx.packed = r.get(1) == 1
            if ctx.packed:
                ctx.maxbits = r.get(6)
            v = self.dec(r, args)
            ctx.prev = self.num(v)
            return v
        if not ctx.packed:
            v = self.dec(r, args)
            ctx.prev = self.num(v)
            return v
        if ctx.maxbits:
            k = ctx.maxbits + 1
            d = r.get(k)
            if d >> (k - 1):
                d -= 1 << k
            ctx.prev += d
        n = ctx.prev
        lo, hi = self.bounds(args)
        if not lo <= n <= hi:
            raise Unspecified("packed element out of range")
        return self.unnum(n)


class Int(Leaf):
    """uintN / intN (standard) and bit:N / int:N."""

    def __init__(self, bits, signed=False, std=None):
        self.bits, self.signed = bits, signed
        std = (bits in (8, 16, 32, 64)) if std is None else std
        self.std = std
        self.name = ("int%d" if signed else "uint%d") % bits if std else ("int:%d" if signed else "bit:%d") % bits
        self.const_size = bits

    def bounds(self, args=()):
        return (-(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1) if self.signed else (0, (1 << self.bits) - 1)

    def enc(self, w, v, args=()):
        lo, hi = self.bounds()
        if not lo <= v <= hi:
            if NATIVE_BIG and v < 0 and not self.signed and self.bits == 64:
                raise Unspecified("negative BigInteger")
            raise Reject("range")
        w.put(v & ((1 << self.bits) - 1), self.bits)

    def wire_size(self, v, args):
        if UNCHECKED_PACKED_ARRAYS:
            return self.bits
        return Leaf.wire_size(self, v, args)

    def dec(self, r, args=()):
        v = r.get(self.bits)
        return v - (1 << self.bits) if self.signed and v >> (self.bits - 1) else v


class Dyn(Leaf):
    """bit<expr> / int<expr>; args = (number of bits,)."""

    def __init__(self, expr, signed=False):
        self.signed = signed
        self.expr = expr
        self.name = "%s<%s>" % ("int" if signed else "bit", expr.text)

    def width(self, env):
        return self.expr(env) & 0xFF if WIDTH_MOD else self.expr(env)

    @staticmethod
    def check(n):
        if not 1 <= n <= 64:
            raise Reject("dynamic bit field length")

    def bounds(self, args):
        if not 1 <= args[0] <= 64:
            raise Unspecified("length of a bit field that is only stored as a delta")
        return Int(args[0], self.signed).bounds()

    def wire_size(self, v, args):
        if NATIVE_BIG and v < 0 and not self.signed:
            raise Unspecified("negative BigInteger")
        if args[0] < 1:
            raise Unspecified("length of a bit field that is only stored as a delta")
        return Int(args[0], self.signed).wire_size(v, ())

    def enc(self, w, v, args):
        self.check(args[0])
        if NATIVE_BIG and v < 0 and not self.signed:
            raise Unspecified("negative BigInteger")
        Int(args[0], self.signed).enc(w, v)

    def dec(self, r, args):
        self.check(args[0])
        return Int(args[0], self.signed).dec(r)


class Var(Leaf):
    def __init__(self, kind):
        self.name = self.kind = kind

    def bounds(self, args=()):
        return var_bounds(self.kind)

    def enc(self, w, v, args=()):
        var_enc(w, self.kind, v)

    def dec(self, r, args=()):
        return var_dec(r, self.kind)


class Bool(T):
    name = "bool"
    const_size = 1

    def enc(self, w, v, args=()):
        w.put(1 if v else 0, 1)

    def dec(self, r, args=()):
        return r.get(1) == 1


class Float(T):
    def __init__(self, bits):
        self.bits = bits
        self.name = "float%d" % bits
        self.const_size = bits

    def enc(self, w, v, args=()):
        if v != v:
            raise Unspecified("nan payload")
        if self.bits == 16:
            u = f16_exact(v)
            if u is None:
                raise Unspecified("float16 rounding")
        else:
            u = int.from_bytes(_struct.pack(">f" if self.bits == 32 else ">d", v), "big")
        w.put(u, self.bits)

    def dec(self, r, args=()):
        u = r.get(self.bits)
        if self.bits == 16:
            return f16_decode(u)
        return _struct.unpack(">f" if self.bits == 32 else ">d", u.to_bytes(self.bits // 8, "big"))[0]


class Str(T):
    name = "string"

    def enc(self, w, v, args=()):
        b = v.encode("utf8")
        var_enc(w, "varsize", len(b))
        for c in b:
            w.put(c, 8)

    def dec(self, r, args=()):
        n = var_dec(r, "varsize")
        if r.pos + 8 * n > r.n:
            raise Reject("eof")
        b = bytes(r.get(8) for _ in range(n))
        try:
            return b.decode("utf8")
        except UnicodeDecodeError:
            raise Unspecified("utf8")


class Bytes(T):
    name = "bytes"

    def enc(self, w, v, args=()):
        var_enc(w, "varsize", len(v))
        for c in v:
            w.put(c, 8)

    def dec(self, r, args=()):
        n = var_dec(r, "varsize")
        if r.pos + 8 * n > r.n:
            raise Reject("eof")
        return bytes(r.get(8) for _ in range(n))

    def json(self, v):
        return {"buffer": list(v)}


class Extern(T):
    name = "extern"

    def enc(self, w, v, args=()):
        var_enc(w, "varsize", v.n)
        w.put(v.v, v.n)

    def dec(self, r, args=()):
        n = var_dec(r, "varsize")
        return Ext(r.get(n), n)

    def json(self, v):
        return {"buffer": list(v.data()), "bitSize": v.n}


class Enum(Leaf):
    """items: [(name, text of value or None, value, 'removed'|'deprecated'|None)]"""

    def __init__(self, name, base, items):
        self.name, self.base = name, base
        self.items = items
        self.by_name = {i[0]: i[2] for i in items}
        self.by_val = {i[2]: i[0] for i in items}
        self.removed = {i[0] for i in items if i[3] == "removed"}

    def decl(self):
        return "enum %s %s\n{\n%s\n};\n" % (self.base.name, self.name, ",\n".join(
            "    %s%s%s" % ("@%s " % i[3] if i[3] else "", i[0], " = " + i[1] if i[1] is not None else "")
            for i in self.items))

    def num(self, v):
        return self.by_name[v]

    def unnum(self, n):
        if n not in self.by_val:
            raise Reject("enum value")
        return self.by_val[n]

    def bounds(self, args=()):
        return self.base.bounds()

    def enc(self, w, v, args=()):
        if v in self.removed:
            raise Reject("removed enum item")
        self.base.enc(w, self.by_name[v], ())

    def wire_size(self, v, args):
        w = Bits()
        self.base.enc(w, self.by_name[v], ())
        return w.n

    def enc_packed(self, ctx, w, v, args):
        if v in self.removed:
            raise Reject("removed enum item")
        Leaf.enc_packed(self, ctx, w, v, args)

    def dec(self, r, args=()):
        return self.unnum(self.base.dec(r, ()))

    def json(self, v):
        return v


class Bitmask(Leaf):
    def __init__(self, name, base, items):
        self.name, self.base, self.items = name, base, items     # items: [(name, text or None, value)]

    def decl(self):
        return "bitmask %s %s\n{\n%s\n};\n" % (self.base.name, self.name, ",\n".join(
            "    %s%s" % (i[0], " = " + i[1] if i[1] is not None else "") for i in self.items))

    def bounds(self, args=()):
        return self.base.bounds()

    def enc(self, w, v, args=()):
        self.base.enc(w, v, ())

    def dec(self, r, args=()):
        return self.base.dec(r, ())


class Field:
    def __init__(self, name, t, arr=None, packed=False, opt=None, init=None, constraint=None, offset=None,
                 align=None, extend=False, args=(), implicit_prefix=False, text=None):
        self.name, self.t, self.arr, self.packed = name, t, arr, packed
        self.opt, self.init, self.constraint = opt, init, constraint
        self.offset, self.align, self.extend, self.args = offset, align, extend, list(args)
        self.isoff = False       # fields used as offsets are never packed
        self.text = text

    def decl(self):
        o = ""
        if self.align:
            o += "align(%d):\n" % self.align
        if self.offset:
            o += "%s:\n" % self.offset
        s = "    "
        if self.extend:
            s += "extend "
        if self.opt == "auto":
            s += "optional "
        if self.packed:
            s += "packed "
        if self.arr and self.arr[0] == "implicit":
            s += "implicit "
        s += self.t.name
        if self.args:
            s += "(%s)" % ", ".join(a.text for a in self.args)
        s += " " + self.name
        if self.arr:
            s += "[%s]" % (self.arr[1].text if self.arr[0] == "fixed" else "")
        if self.init is not None:
            s += " = " + self.init.text
        if isinstance(self.opt, E):
            s += " if " + self.opt.text
        if self.constraint is not None:
            s += " : " + self.constraint.text
        return o + s + ";\n"

    # ---- helpers
    def targs(self, env):
        if isinstance(self.t, Dyn):
            return (self.t.width(env),)
        return tuple(a(env) for a in self.args)

    def is_packed(self, in_packed):
        """Array written with packing: keyword used, or inside of an element of a packed array."""
        return self.arr is not None and (self.packed or in_packed) and fpackable(self) and \
            self.arr[0] != "implicit"

    def used(self, env, v):
        if self.opt is None:
            return True
        if self.opt == "auto":
            return v is not None
        return bool(self.opt(env))


def packable(t, seen=()):
    if isinstance(t, Leaf):
        return True
    if isinstance(t, Union):
        return True
    if isinstance(t, (Struct, Choice)):
        if t in seen:
            return False
        return any(not f.isoff and packable(f.t, seen + (t,)) for f in t.all_fields())
    return False


def fpackable(f):
    return not f.isoff and packable(f.t)


class Env(dict):
    """Names visible to expressions: parameters and fields; compound values are Env/list themselves."""


class Compound(T):
    def __init__(self, name, params=(), funcs=()):
        self.name = name
        self.params = list(params)   # [(type text or T, name)]
        self.funcs = list(funcs)     # [(return type text, name, E)]

    def params_decl(self):
        if not self.params:
            return ""
        return "(%s)" % ", ".join("%s %s" % (p[0] if isinstance(p[0], str) else p[0].name, p[1]) for p in self.params)

    def funcs_decl(self):
        return "".join("\n    function %s %s()\n    {\n        return %s;\n    }\n" % (f[0], f[1], f[2].text)
                       for f in self.funcs)

    def env(self, args, v=None):
        e = Env(zip((p[1] for p in self.params), args))
        return e

    def new_ctx(self):
        return {}

    def fctx(self, ctx, f):
        if f.name not in ctx:
            ctx[f.name] = f.t.new_ctx()
        return ctx[f.name]

    # field level -------------------------------------------------------------------------------------------------
    def check_constraint(self, f, env):
        if f.constraint is not None and not f.constraint(env):
            raise Reject("constraint " + f.name)

    def enc_field(self, f, w, v, env, ctx, off):
        """v present. off: None or (record dict) to collect/check offsets."""
        self.check_constraint(f, env)
        if f.arr is None:
            a = f.targs(env)
            if ctx is not None and fpackable(f):
                f.t.enc_packed(self.fctx(ctx, f), w, v, a) if not isinstance(f.t, Compound) else \
                    f.t.enc_c(w, v, a, self.fctx(ctx, f), off)
            elif isinstance(f.t, Compound):
                f.t.enc_c(w, v, a, None, off)
            else:
                f.t.enc(w, v, a)
            return
        kind = f.arr[0]
        if kind == "auto":
            var_enc(w, "varsize", len(v))
        elif kind == "fixed":
            if f.arr[1](env) != len(v):
                raise Reject("array length " + f.name)
        packed = f.is_packed(ctx is not None)
        elctx = f.t.new_ctx() if packed else None
        if packed:
            for i, el in enumerate(v):
                env["@index"] = i
                f.t.ctx_init(elctx, el, f.targs(env))
        for i, el in enumerate(v):
            env["@index"] = i
            a = f.targs(env)
            if f.offset and f.offset.endswith("[@index]"):
                w.align(8)
                self.do_offset(f.offset[:-8], i, w, env, off)
            if isinstance(f.t, Compound):
                f.t.enc_c(w, el, a, elctx if packed else None, off)
            elif packed:
                f.t.enc_packed(elctx, w, el, a)
            else:
                f.t.enc(w, el, a)

    def do_offset(self, path, idx, w, env, off):
        pos = w.n // 8
        obj = env
        parts = path.split(".")
        for p in parts[:-1]:
            obj = obj[p]
        if off is None:          # check
            cur = obj[parts[-1]] if idx is None else obj[parts[-1]][idx]
            if cur != pos:
                raise Reject("offset")
        elif idx is None:
            obj[parts[-1]] = pos
        else:
            obj[parts[-1]][idx] = pos

    def dec_field(self, f, r, env, ctx):
        if f.arr is None:
            a = f.targs(env)
            if isinstance(f.t, Compound):
                return f.t.dec_c(r, a, self.fctx(ctx, f) if ctx is not None and fpackable(f) else None)
            if ctx is not None and fpackable(f):
                return f.t.dec_packed(self.fctx(ctx, f), r, a)
            return f.t.dec(r, a)
        kind = f.arr[0]
        if kind == "auto":
            n = var_dec(r, "varsize")
        elif kind == "fixed":
            n = f.arr[1](env)
            if n < 0:
                raise Unspecified("negative array length")
        else:
            n = (r.n - r.pos) // f.t.const_size
        if n > 4096:
            # can only be satisfied by zero sized elements; every real element needs at least one bit
            if not f.is_packed(ctx is not None) and f.t.const_size and r.pos + n * f.t.const_size > r.n:
                raise Reject("eof")
            raise Unspecified("huge array")
        packed = f.is_packed(ctx is not None)
        elctx = f.t.new_ctx() if packed else None
        out = []
        for i in range(n):
            env["@index"] = i
            a = f.targs(env)
            if f.offset and f.offset.endswith("[@index]"):
                r.align(8)
                self.check_offset_dec(f.offset[:-8], i, r, env)
            if isinstance(f.t, Compound):
                out.append(f.t.dec_c(r, a, elctx if packed else None))
            elif packed:
                out.append(f.t.dec_packed(elctx, r, a))
            else:
                out.append(f.t.dec(r, a))
        return out

    def check_offset_dec(self, path, idx, r, env):
        obj = env
        for p in path.split("."):
            obj = obj[p]
        if (obj if idx is None else obj[idx]) * 8 != r.pos:
            raise Reject("offset")

    # T interface
    def enc(self, w, v, args=()):
        self.enc_c(w, v, args, None, None)

    def dec(self, r, args=()):
        return self.dec_c(r, args, None)

    def ctx_init_field(self, f, ctx, v, env):
        if f.arr is None and fpackable(f):
            f.t.ctx_init(self.fctx(ctx, f), v, f.targs(env))

    def fjson(self, f, v, env):
        if v is None:
            return None
        if f.arr is None:
            return f.t.json(v)
        return [f.t.json(x) for x in v]


class Struct(Compound):
    def __init__(self, name, fields, params=(), funcs=()):
        Compound.__init__(self, name, params, funcs)
        self.fields = list(fields)
        for f in self.fields:
            if f.offset:
                scope = {g.name: g for g in self.fields}
                scope.update({p[1]: Field(p[1], p[0]) for p in self.params})
                for part in f.offset.replace("[@index]", "").split("."):
                    g = scope[part]
                    scope = {h.name: h for h in g.t.all_fields()} if isinstance(g.t, Compound) else {}
                g.isoff = True

    def all_fields(self):
        return self.fields

    def decl(self):
        return "struct %s%s\n{\n%s%s};\n" % (self.name, self.params_decl(), "".join(f.decl() for f in self.fields),
                                             self.funcs_decl())

    def env(self, args, v=None):
        e = Compound.env(self, args)
        if v is not None:
            for f in self.fields:
                x = v.get(f.name)
                e[f.name] = self.child_env(f, x, e)
        return e

    @staticmethod
    def child_env(f, x, e):
        # expressions only descend into plain (non parameterised use) compounds: values are dicts already
        return x

    def present_ext(self, v):
        """Number of leading extended fields present; v['#ext'] (default: all)."""
        n = sum(1 for f in self.fields if f.extend)
        return v.get("#ext", n)

    def enc_c(self, w, v, args, ctx, off):
        env = self.env(args, v)
        if off is not None:
            for f in self.fields:      # offsets are written into v in place
                if v.get(f.name) is not None:
                    env[f.name] = v[f.name]
        ext_left = self.present_ext(v)
        for f in self.fields:
            if f.extend:
                if ext_left == 0:
                    break
                ext_left -= 1
                w.align(8)
            x = v.get(f.name)
            if not f.used(env, x):
                if f.opt == "auto":
                    w.put(0, 1)
                continue
            if f.opt == "auto":
                w.put(1, 1)
            if x is None:
                if isinstance(f.t, Bool):       # Python truth value: not a number out of range
                    raise Unspecified("None as bool")
                raise Reject("missing value " + f.name)
            if f.align:
                w.align(f.align)
            if f.offset and not f.offset.endswith("[@index]"):
                w.align(8)
                if off is not None:
                    self.do_offset_v(f.offset, w, v, env)
                else:
                    self.do_offset(f.offset, None, w, env, None)
            self.enc_field(f, w, x, env, ctx, off)

    def do_offset_v(self, path, w, v, env):
        parts = path.split(".")
        obj = env if parts[0] in (p[1] for p in self.params) else v
        for p in parts[:-1]:
            obj = obj[p]
        obj[parts[-1]] = w.n // 8
        if len(parts) == 1:
            env[parts[-1]] = w.n // 8

    def dec_c(self, r, args, ctx):
        env = Compound.env(self, args)
        v = {}
        next_ = 0
        next_total = sum(1 for f in self.fields if f.extend)
        absent = False
        for f in self.fields:
            if f.extend:
                if absent or (r.pos + 7) // 8 * 8 >= r.n:
                    absent = True
                    v[f.name] = "#absent"
                    continue
                next_ += 1
                r.align(8)
            if f.opt == "auto":
                used = r.get(1) == 1
            elif f.opt is not None:
                used = bool(f.opt(env))
            else:
                used = True
            if not used:
                v[f.name] = env[f.name] = None
                continue
            if f.align:
                r.align(f.align)
            if f.offset and not f.offset.endswith("[@index]"):
                r.align(8)
                self.check_offset_dec(f.offset, None, r, env)
            v[f.name] = env[f.name] = self.dec_field(f, r, env, ctx)
            self.check_constraint(f, env)
        if next_total:
            v["#ext"] = next_
        return v

    def ctx_init(self, ctx, v, args):
        env = self.env(args, v)
        ext_left = self.present_ext(v)
        for f in self.fields:
            if f.extend:
                if ext_left == 0:
                    break
                ext_left -= 1
            x = v.get(f.name)
            if f.used(env, x) and x is not None:
                self.ctx_init_field(f, ctx, x, env)

    def enc_packed(self, ctx, w, v, args):
        self.enc_c(w, v, args, ctx, None)

    def dec_packed(self, ctx, r, args):
        return self.dec_c(r, args, ctx)

    def json(self, v):
        return {f.name: (None if v.get(f.name) is None else self.fjson(f, v[f.name], None)) for f in self.fields}


class Choice(Compound):
    """cases: [([label texts], [label values], Field or None)], default: Field | None (empty) | 'none' (no default)."""

    def __init__(self, name, params, selector, cases, default="none", funcs=()):
        Compound.__init__(self, name, params, funcs)
        self.selector, self.cases, self.default = selector, cases, default

    def all_fields(self):
        fs = [c[2] for c in self.cases if c[2] is not None]
        if isinstance(self.default, Field):
            fs.append(self.default)
        return fs

    def decl(self):
        s = "choice %s%s on %s\n{\n" % (self.name, self.params_decl(), self.selector.text)
        for texts, _, f in self.cases:
            for t in texts:
                s += "case %s:\n" % t
            s += f.decl() if f is not None else "    ;\n"
        if self.default != "none":
            s += "default:\n" + (self.default.decl() if self.default is not None else "    ;\n")
        return s + self.funcs_decl() + "};\n"

    def select(self, env):
        x = self.selector(env)
        for _, vals, f in self.cases:
            if x in vals:
                return f
        if self.default == "none":
            raise Reject("no match in choice")
        return self.default

    def enc_c(self, w, v, args, ctx, off):
        env = Compound.env(self, args)
        f = self.select(env)
        if f is None:
            return
        if v[0] != f.name or v[1] is None:
            raise Unspecified("choice holds another case")
        env[f.name] = v[1]
        self.enc_field(f, w, v[1], env, ctx, off)

    def dec_c(self, r, args, ctx):
        env = Compound.env(self, args)
        f = self.select(env)
        if f is None:
            return (None, None)
        x = self.dec_field(f, r, env, ctx)
        env[f.name] = x
        self.check_constraint(f, env)
        return (f.name, x)

    def ctx_init(self, ctx, v, args):
        env = Compound.env(self, args)
        f = self.select(env)
        if f is not None:
            env[f.name] = v[1]
            self.ctx_init_field(f, ctx, v[1], env)

    def enc_packed(self, ctx, w, v, args):
        self.enc_c(w, v, args, ctx, None)

    def dec_packed(self, ctx, r, args):
        return self.dec_c(r, args, ctx)

    def json(self, v):
        if v[0] is None:
            return {}
        f = [f for f in self.all_fields() if f.name == v[0]][0]
        return {f.name: self.fjson(f, v[1], None)}


class _Tag(Var):
    pass


class Union(Compound):
    def __init__(self, name, fields, params=(), funcs=()):
        Compound.__init__(self, name, params, funcs)
        self.fields = list(fields)
        self.tag = Var("varsize")

    def all_fields(self):
        return self.fields

    def decl(self):
        return "union %s%s\n{\n%s%s};\n" % (self.name, self.params_decl(), "".join(f.decl() for f in self.fields),
                                            self.funcs_decl())

    def idx(self, v):
        for i, f in enumerate(self.fields):
            if f.name == v[0]:
                return i, f
        raise Reject("no match in union")

    def tctx(self, ctx):
        if "#tag" not in ctx:
            ctx["#tag"] = Delta()
        return ctx["#tag"]

    def enc_c(self, w, v, args, ctx, off):
        env = Compound.env(self, args)
        i, f = self.idx(v)
        if ctx is None:
            var_enc(w, "varsize", i)
        else:
            self.tag.enc_packed(self.tctx(ctx), w, i, ())
        env[f.name] = v[1]
        self.enc_field(f, w, v[1], env, ctx, off)

    def dec_c(self, r, args, ctx):
        env = Compound.env(self, args)
        i = var_dec(r, "varsize") if ctx is None else self.tag.dec_packed(self.tctx(ctx), r, ())
        if i >= len(self.fields):
            raise Reject("no match in union")
        f = self.fields[i]
        x = self.dec_field(f, r, env, ctx)
        env[f.name] = x
        self.check_constraint(f, env)
        return (f.name, x)

    def ctx_init(self, ctx, v, args):
        i, f = self.idx(v)
        self.tag.ctx_init(self.tctx(ctx), i, ())
        env = Compound.env(self, args)
        env[f.name] = v[1]
        self.ctx_init_field(f, ctx, v[1], env)

    def enc_packed(self, ctx, w, v, args):
        self.enc_c(w, v, args, ctx, None)

    def dec_packed(self, ctx, r, args):
        return self.dec_c(r, args, ctx)

    json = Choice.json


class Sub(T):
    """Use of a type under another name (subtype, template instantiation): same wire format."""

    def __init__(self, name, t):
        self.__dict__.update(name=name, t=t)

    def __getattr__(self, a):
        return getattr(self.__dict__["t"], a)


# -------------------------------------------------------------------------------------------------------- top level
def deepcopy(v):
    if isinstance(v, dict):
        return {k: deepcopy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [deepcopy(x) for x in v]
    if isinstance(v, tuple):
        return tuple(deepcopy(x) for x in v)
    return v


def has_offsets(t, seen=()):
    if not isinstance(t, Compound) or t in seen:
        return False
    return any(f.offset or has_offsets(f.t, seen + (t,)) for f in t.all_fields())


def initialise(t, v, args=(), start=0):
    """Copy of v with all offset fields set to the position their field gets when written from bit `start`."""
    v = deepcopy(v)
    if has_offsets(t):
        for _ in range(3):       # bit layout never depends on the stored offsets; packed arrays of offsets may need it
            w = Bits(0, start)
            t.enc_c(w, v, args, None, {})
    return v


def encode(t, v, args=(), start=0):
    """(value with offsets initialised, Bits without the `start` prefix)."""
    v = initialise(t, v, args, start)
    w = Bits(0, start)
    t.enc_c(w, v, args, None, None)
    return v, Bits(w.acc, w.n - start)


def decode(t, data, nbits=None, args=()):
    r = In(data, nbits)
    v = t.dec_c(r, args, None)
    return v, r.pos


def same(a, b):
    """Model value equality where NaN equals NaN and -0.0 differs from nothing."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b or (isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b)
