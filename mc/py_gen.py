"""Replays model traces (values of schema families) against generated Python code."""
import importlib, sys, os
from .ref import *
from .bridge import Bridge, to_bits
from .pool import Res
from . import families

_pk = {}


def family(name, tier):
    key = (name, tier)
    if key not in _pk:
        f = getattr(families, name)
        _pk[key] = f(tier) if name in ("fam_scalars", "fam_pdeep", "fam_range") or name.startswith("fam_expr") else f()
    return _pk[key]


def ctx(name, tier, gen):
    import zserio
    p = family(name, tier)
    if gen not in sys.path:
        sys.path.insert(0, gen)
    return zserio, p, Bridge(importlib.import_module(p.name + ".api"), zserio)


def cut(v, x):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def write_at(z, obj, s):
    w = z.BitStreamWriter()
    if s:
        w.write_bits((1 << s) - 1, s)
    obj.write(w)
    return bytes(w.byte_array), w.bitposition


def wire(task):
    """Serialise == reference bits; parse(reference bits) == value; at several start positions."""
    name, tier, gen, lo, hi, starts = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases[lo:hi]:
        oargs = [br.leaf(pp[0], a) if isinstance(pp[0], T) else a for a, pp in zip(args, t.params)] if t.params else []
        offs = has_offsets(t)
        for v in values:
            key = "%s:%s:%s" % (p.name, t.name, cut(v, 80)[:80])
            v0, b0 = encode(t, v, args)
            obj = br.build(t, v, args)
            bb = z.serialize(obj)
            res.states += 1
            if bb.bitsize != b0.n or bytes(bb.buffer) != b0.bytes():
                res.bad("wire:" + key, "serialize(%s %s): %d bits %s, model %d bits %s" % (t.name, cut(v, 0), bb.bitsize, bytes(bb.buffer).hex(), b0.n, b0.bytes().hex()))
                continue
            o2 = z.deserialize(br.cls(t), bb, *oargs)
            got = br.extract(t, o2)
            exp = norm(t, v0)
            if not same(got, exp):
                res.bad("parse:" + key, "deserialize(%s): %s, model %s" % (b0.bytes().hex(), cut(got, 0), cut(exp, 0)))
                continue
            if z.serialize_to_bytes(obj) != b0.bytes():
                res.bad("tobytes:" + key, "serialize_to_bytes differs from serialize")
            res.transitions += 3
            for s in starts:
                v1, b1 = (v0, b0) if not s else encode(t, v, args, s)
                # size and position prediction
                size = obj.bitsizeof(s)
                end = obj.initialize_offsets(s)
                if size != b1.n or end != s + b1.n:
                    res.bad("size:%s@%d" % (key, s), "%s %s at bit %d: bitsizeof %d, initialize_offsets end %d, model %d" % (t.name, cut(v, 0), s, size, end, b1.n))
                    continue
                if offs:
                    ov = br.extract(t, obj)
                    if not same(ov, norm(t, v1)):
                        res.bad("offs:%s@%d" % (key, s), "initialize_offsets(%d): %s, model %s" % (s, cut(ov, 0), cut(v1, 0)))
                        continue
                data, pos = write_at(z, obj, s)
                if pos != s + b1.n or to_bits(data, pos, s) != b1.acc or (s and to_bits(data, s, 0) != (1 << s) - 1):
                    res.bad("write:%s@%d" % (key, s), "%s %s written at bit %d: %s (%d bits), model %x (%d bits)" % (t.name, cut(v, 0), s, data.hex(), pos, b1.acc, b1.n))
                    continue
                r = z.BitStreamReader(data, pos)
                r.bitposition = s
                o3 = br.cls(t).from_reader(r, *oargs)
                got = br.extract(t, o3)
                if r.bitposition != pos or not same(got, norm(t, v1)):
                    res.bad("read:%s@%d" % (key, s), "%s read at bit %d: consumed %d of %d, value %s, model %s" % (t.name, s, r.bitposition - s, b1.n, cut(got, 0), cut(v1, 0)))
                    continue
                # the parsed object predicts and produces the same bits again
                if o3.bitsizeof(s) != b1.n or write_at(z, o3, s) != (data, pos):
                    res.bad("rewrite:%s@%d" % (key, s), "%s parsed at bit %d does not reproduce its bits" % (t.name, s))
                res.transitions += 5
                res.traces += 1
        if values:
            res.sample("%s.%s %s -> %s" % (p.name, t.name, cut(values[-1], 0), b0.bytes().hex()[:80]))
    return res.out()


def norm(t, v):
    """Model value as the decoder reports it (all fields present as keys)."""
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, Struct):
        out = {}
        ext = 0
        for f in t.fields:
            x = v.get(f.name)
            out[f.name] = None if x is None else norm_f(f, x)
            ext += f.extend
        if ext:
            out["#ext"] = v.get("#ext", ext)
        return out
    if isinstance(t, (Choice, Union)):
        for f in t.all_fields():
            if f.name == v[0]:
                return (v[0], norm_f(f, v[1]))
        return (None, None)
    if isinstance(t, Float) and t.bits == 32:
        import struct
        return struct.unpack(">f", struct.pack(">f", v))[0]
    return v


def norm_f(f, x):
    if f.arr is not None:
        return [norm(f.t, y) for y in x]
    return norm(f.t, x)


# ------------------------------------------------------------------------------------------------ rejection of values
def mutants(t, v, path="", top=True):
    """(path, mutated copy) for every single-position mutation of model value v of compound t."""
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, Struct):
        for f in t.fields:
            x = v.get(f.name)
            if f.extend:
                continue
            for q, y in field_mutants(f, x, path + "." + f.name):
                d = dict(v)
                d[f.name] = y
                yield q, d
    else:
        if v[0] is not None:
            f = [f for f in t.all_fields() if f.name == v[0]][0]
            for q, y in field_mutants(f, v[1], path + "." + f.name):
                if y is not None:
                    yield q, (v[0], y)
        if isinstance(t, Union):
            yield path + ":none", (None, None)
            for f in t.fields:
                if f.name != v[0] and isinstance(f.t, (Int, Var)) and f.arr is None:
                    yield path + ":" + f.name, (f.name, f.t.bounds()[1])
                    yield path + ":%s:over" % f.name, (f.name, f.t.bounds()[1] + 1)


def leaf_mutants(t, x, path):
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, (Int, Var, Bitmask)):
        lo, hi = t.base.bounds() if isinstance(t, Bitmask) else t.bounds()
        for n in (lo - 1, hi + 1, lo, hi, (x + 1 if x + 1 <= hi else lo), hi * 2 + 3, -x - 1, 1 << 80, -(1 << 80)):
            if n != x:
                yield "%s=%d" % (path, n), n
    elif isinstance(t, Dyn):
        for n in (x + 1, 1 << 64, -1, 1 << 30, 0):
            if n != x:
                yield "%s=%d" % (path, n), n
    elif isinstance(t, Enum):
        for n in t.by_name:
            if n != x:
                yield "%s=%s" % (path, n), n
    elif isinstance(t, Bool):
        yield path + "=not", not x
    elif isinstance(t, Str):
        yield path + "=str", x + "\u20ac"


def field_mutants(f, x, path):
    if x is None:
        if f.opt is not None and isinstance(f.t, (Int, Var)) and f.arr is None:
            lo, hi = f.t.bounds()
            yield path + "+", hi
            yield path + "+over", hi + 1
        return
    if f.opt is not None or f.arr is None:      # None given for an array means the default, an empty one
        yield path + "-", None
    if f.arr is not None:
        if x:
            yield path + "[:-1]", x[:-1]
            yield path + "[dup]", x + [x[0]]
        for i in {0, len(x) - 1, len(x) // 2} if x else ():
            gen = mutants(f.t, x[i], "%s[%d]" % (path, i)) if isinstance(f.t, (Compound, Sub)) and isinstance(getattr(f.t, "t", f.t) if isinstance(f.t, Sub) else f.t, Compound) \
                else leaf_mutants(f.t, x[i], "%s[%d]" % (path, i))
            for q, y in gen:
                yield q, x[:i] + [y] + x[i + 1:]
        return
    base = f.t.t if isinstance(f.t, Sub) else f.t
    yield from (mutants(base, x, path) if isinstance(base, Compound) else leaf_mutants(base, x, path))


def unchecked(t, v, args, pre):
    """Bits with the range check of packed elements left out (known finding)."""
    from . import ref
    ref.UNCHECKED_PACKED_ARRAYS = True
    try:
        w = Bits(0, pre)
        t.enc_c(w, deepcopy(v), args, None, None)
        return w.bytes(), w.n
    except (Reject, Unspecified):
        return None
    finally:
        ref.UNCHECKED_PACKED_ARRAYS = False


def thin(name, tier, values):
    """The values that are mutated in the quick tier: the product families repeat the same positions in many values."""
    if tier == "quick" and name.startswith("fam_feat"):
        return values[::11]
    if tier == "quick" and name == "fam_args":
        return values[1:2] if len(values) < 5 else values[::5]
    return values


def rejects(task):
    """Every single-position mutation of every legal value: written exactly as the model says, or refused."""
    name, tier, gen, lo, hi, pre = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases[lo:hi]:
        n = 0
        for v in thin(name, tier, values):
            v0 = initialise(t, v, args, pre)
            for path, mv in mutants(t, v0):
                mv = deepcopy(mv)
                try:
                    w = Bits(0, pre)
                    t.enc_c(w, mv, args, None, None)
                    exp = w
                except Reject as e:
                    exp = None
                except (Unspecified, TypeError, KeyError, AttributeError, IndexError):
                    continue      # the expression cannot be evaluated on this value at all
                n += 1
                res.states += 1
                res.transitions += 2
                res.traces += 1
                try:
                    obj = br.build(t, mv, args)
                    w = z.BitStreamWriter()
                    if pre:
                        w.write_bits(0, pre)
                    obj.write(w)
                    got = (bytes(w.byte_array), w.bitposition)
                except Exception as e:
                    got = None
                    err = repr(e)
                if exp is None:
                    if got is not None and got == unchecked(t, mv, args, pre):
                        res.bad("packed-array-element-range", "%s %s (mutation %s) was written as %s" % (t.name, cut(mv, 0), path, got[0].hex()))
                    elif got is not None:
                        res.bad("accepted:%s:%s:%s" % (p.name, t.name, path), "%s %s (mutation %s) was written as %s (%d bits), model refuses it"
                                % (t.name, cut(mv, 0), path, got[0].hex(), got[1]))
                elif got is None:
                    res.bad("refused:%s:%s:%s" % (p.name, t.name, path), "%s %s (mutation %s) refused: %s" % (t.name, cut(mv, 0), path, err))
                elif got != (exp.bytes(), exp.n):
                    res.bad("bits:%s:%s:%s" % (p.name, t.name, path), "%s %s (mutation %s) written as %s, model %s" % (t.name, cut(mv, 0), path, got[0].hex(), exp.bytes().hex()))
        if n:
            res.sample("%s.%s: %d mutants of %d values, last %s" % (p.name, t.name, n, len(values), path))
    return res.out()


def all_compounds(t, seen):
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, Compound) and t not in seen:
        seen.append(t)
        for f in t.all_fields():
            all_compounds(f.t, seen)
    return seen


def wrong_args(task):
    """A parameterized field holding an object that was created with another argument is refused."""
    name, tier, gen = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases:
        for c in all_compounds(t, []):
            for f in c.all_fields():
                if f.arr is not None or not f.args:
                    continue
                for i, (pt, pn) in enumerate(f.t.params):
                    if isinstance(pt, Compound):
                        continue
                    if isinstance(pt, Enum):
                        def other(v):
                            items = list(pt.by_name)
                            return getattr(br.cls(pt), items[(items.index(v.name) + 1) % len(items)])
                    elif isinstance(pt, Bitmask):
                        def other(v):
                            return br.cls(pt).from_value(v.value ^ 1)
                    elif pt == "bool":
                        def other(v):
                            return not v
                    else:
                        def other(v):
                            return v + 1
                    for v in values:
                        br.arg_mut, br.arg_hit = (f, i, other), False
                        try:
                            v0 = initialise(t, v, args)
                            obj = br.build(t, v0, args)
                            if not br.arg_hit:
                                continue
                            res.states += 1
                            res.transitions += 1
                            res.traces += 1
                            w = z.BitStreamWriter()
                            obj.write(w)
                        except Exception:
                            continue
                        finally:
                            br.arg_mut = None
                        res.bad("wrongarg:%s:%s.%s.%s" % (p.name, c.name, f.name, pn), "%s %s with another argument %s for field %s of %s was written as %s"
                                % (t.name, cut(v, 0), pn, f.name, c.name, bytes(w.byte_array).hex()))
    if res.states:
        res.sample("%s: %d objects with a wrong argument" % (p.name, res.states))
    return res.out()


# ------------------------------------------------------------------------------------------------ decoding of any bits
def positions(n, cap):
    if n <= cap:
        return range(n)
    return list(range(cap * 3 // 4)) + list(range(n - cap // 4, n))


def dec_model(t, data, n, args):
    """('ok', value, consumed) | ('err',) | None when the outcome is not specified (or not affordable)."""
    try:
        v, pos = decode(t, data, n, args)
        return ("ok", v, pos)
    except Reject:
        return ("err",)
    except (Unspecified, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError):
        return None


def dec_impl(z, br, t, data, n, oargs):
    r = z.BitStreamReader(data, n)
    try:
        o = br.cls(t).from_reader(r, *oargs)
    except RecursionError:
        return None
    except Exception as e:
        if r.bitposition > n:
            return ("beyond", repr(e), r.bitposition)
        return ("err", repr(e))
    return ("ok", br.extract(t, o), r.bitposition)


def dec_compare(res, z, br, p, t, data, n, args, oargs, what):
    m = dec_model(t, data, n, args)
    res.states += 1
    if m is None:
        return
    i = dec_impl(z, br, t, data, n, oargs)
    res.transitions += 2
    res.traces += 1
    if i is None:
        return
    if m[0] != i[0] or (m[0] == "ok" and (m[2] != i[2] or not same(m[1], i[1]))):
        res.bad("dec:%s:%s:%s/%d" % (p.name, t.name, data.hex()[:60], n), "%s from %s (%d bits; %s): %s, model %s" % (t.name, data.hex(), n, what, cut(i, 0), cut(m, 0)))


def corrupt(task):
    """Every truncation, every single bit flip and an extension of valid encodings."""
    name, tier, gen, lo, hi, cap, nvals = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases[lo:hi]:
        oargs = [br.leaf(pp[0], a) if isinstance(pp[0], T) else a for a, pp in zip(args, t.params)] if t.params else []
        step = max(1, len(values) // nvals)
        encs = {}
        for v in values[::step] + values[-1:]:
            _, b = encode(t, v, args)
            encs[(b.acc, b.n)] = b
        for b in encs.values():
            data = b.bytes()
            for n in positions(b.n, cap):
                keep = data[:(n + 7) // 8]
                dec_compare(res, z, br, p, t, keep, n, args, oargs, "truncated")
            for i in positions(b.n, cap):
                d = bytearray(data)
                d[i // 8] ^= 0x80 >> (i % 8)
                dec_compare(res, z, br, p, t, bytes(d), b.n, args, oargs, "bit %d flipped" % i)
                dec_compare(res, z, br, p, t, bytes(d) + b"\xff\x00\xa5", len(d) * 8 + 24, args, oargs, "bit %d flipped, extended" % i)
            dec_compare(res, z, br, p, t, data + b"\xc3", len(data) * 8 + 8, args, oargs, "extended")
        if encs:
            res.sample("%s.%s %s: all truncations, flips" % (p.name, t.name, data.hex()[:60]))
    return res.out()


def allbits(task):
    """Every bit string of n bits, decoded."""
    name, tier, gen, lo, hi, n = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases[lo:hi]:
        oargs = [br.leaf(pp[0], a) if isinstance(pp[0], T) else a for a, pp in zip(args, t.params)] if t.params else []
        pad = -n % 8
        for x in range(1 << n):
            data = (x << pad).to_bytes((n + pad) // 8, "big")
            dec_compare(res, z, br, p, t, data, n, args, oargs, "exhaustive")
    return res.out()
