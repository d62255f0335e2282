"""JSON text of generated objects against a model of doc/ZserioJsonGuide.md, and reading it back."""
import io, itertools, json as pyjson, math
from .ref import *
from .py_gen import ctx, cut, norm
from .pool import Res

ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}


def jstr(s):
    return '"' + "".join(ESC.get(c) or ("\\u%04x" % ord(c) if ord(c) < 32 else c) for c in s) + '"'


def jfloat(x):
    return "NaN" if x != x else "Infinity" if x == math.inf else "-Infinity" if x == -math.inf else repr(x)


class Num(str):
    """Literal text."""


def leaf_tree(t, v, numeric):
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, Bool):
        return Num("true" if v else "false")
    if isinstance(t, Float):
        return Num(jfloat(v if t.bits != 32 else norm(t, v)))
    if isinstance(t, Str):
        return Num(jstr(v))
    if isinstance(t, Bytes):
        return {"buffer": [Num(b) for b in v]}
    if isinstance(t, Extern):
        return {"buffer": [Num(b) for b in v.data()], "bitSize": Num(v.n)}
    if isinstance(t, Enum):
        return Num(t.by_name[v]) if numeric else Num(jstr(v))
    if isinstance(t, Bitmask):
        if numeric:
            return Num(v)
        names, rest = [], 0
        for name, _, x in t.items:
            if (x and v & x == x) or (x == 0 and v == 0):
                names.append(name)
                rest |= x
        s = " | ".join(names)
        if not names:
            s = "%d /* no match */" % v
        elif rest != v:
            s = "%d /* partial match: %s */" % (v, s)
        return Num(jstr(s))
    return Num(v)


def tree(t, v, numeric=False):
    """Ordered dict / list / Num of the JSON mapping."""
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, Struct):
        return {f.name: ftree(f, v.get(f.name), numeric) for f in t.fields}
    if isinstance(t, Compound):
        if v[0] is None:
            return {}
        f = [f for f in t.all_fields() if f.name == v[0]][0]
        return {f.name: ftree(f, v[1], numeric)}
    return leaf_tree(t, v, numeric)


def ftree(f, x, numeric):
    if x is None:
        return Num("null")
    if f.arr is not None:
        return [tree(f.t, y, numeric) for y in x]
    return tree(f.t, x, numeric)


def text(j, indent=None, level=1, isep=None, ksep=": "):
    isep_ = isep or (", " if indent is None else ",")
    if isinstance(j, Num):
        return str(j)
    nl = "" if indent is None else "\n" + indent * level
    end = "" if indent is None else "\n" + indent * (level - 1)
    if isinstance(j, dict):
        return "{" + isep_.join(nl + jstr(k) + ksep + text(x, indent, level + 1, isep, ksep) for k, x in j.items()) + end + "}"
    return "[" + isep_.join(nl + text(x, indent, level + 1, isep, ksep) for x in j) + end + "]"


class Drip(io.TextIOBase):
    """Text stream that hands out at most k characters per read: every chunking boundary of the text."""

    def __init__(self, s, k):
        self.s, self.k, self.p = s, k, 0

    def read(self, n=-1):
        n = self.k if n is None or n < 0 else min(n, self.k)
        r = self.s[self.p:self.p + n]
        self.p += len(r)
        return r


def roundtrip(task):
    import zserio.json as zj
    name, tier, gen, lo, hi, full = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases[lo:hi]:
        oargs = [br.leaf(pp[0], a) if isinstance(pp[0], T) else a for a, pp in zip(args, t.params)] if t.params else []
        cls = br.cls(t)
        for n, v in enumerate(values):
            key = "%s:%s:%s" % (p.name, t.name, cut(v, 80)[:80])
            v = initialise(t, v, args)
            obj = br.build(t, v, args)
            j, jn = tree(t, v), tree(t, v, True)
            variants = [(j, 4, "    ", {}), (j, None, None, {})]
            if full or n % 7 == 0:
                variants += [(jn, None, None, {"enumerable_format": zj.JsonEnumerableFormat.NUMBER}), (j, "\t", "\t", {}), (j, 0, "", {}),
                             (jn, 1, " ", {"enumerable_format": zj.JsonEnumerableFormat.NUMBER, "item_separator": " , ", "key_separator": " :  "})]
            for jj, ind, sind, opts in variants:
                exp = text(jj, sind, isep=opts.get("item_separator"), ksep=opts.get("key_separator", ": "))
                if opts or ind == 0:
                    w = zj.JsonWriter(indent=ind, **opts)
                    z.Walker(w).walk(obj)
                    got = w.get_io().getvalue()
                else:
                    got = z.to_json_string(obj, indent=ind)
                res.states += 1
                res.transitions += 2
                res.traces += 1
                if got != exp:
                    res.bad("text:%s:%r" % (key, ind), "%s %s: JSON %r, model %r" % (t.name, cut(v, 0), got, exp))
                    break
                o2 = z.from_json_string(cls, exp, *oargs)
                if not same(br.extract(t, o2), norm(t, v)):
                    res.bad("back:%s:%r" % (key, ind), "%s from JSON %r: %s, model %s" % (t.name, exp, cut(br.extract(t, o2), 0), cut(norm(t, v), 0)))
                    break
                if len(exp) < 1500 and (full or n % 5 == 0):
                    for k in (1, 2, 3, 7):
                        o3 = z.from_json_stream(cls, Drip(exp, k), *oargs)
                        res.transitions += 1
                        if not same(br.extract(t, o3), norm(t, v)):
                            res.bad("drip:%s:%d" % (key, k), "%s from JSON %r read %d characters at a time: %s" % (t.name, exp, k, cut(br.extract(t, o3), 0)))
                            break
                if z.serialize(o2) != z.serialize(obj):
                    res.bad("bits:%s" % key, "object read from JSON serialises differently")
            # any JSON parser understands it
            if not same(pyjson.loads(text(j)), pyjson.loads(z.to_json_string(obj))):
                res.bad("json:%s" % key, "not the same JSON document")
            # missing members keep their defaults; member order is free where nothing depends on it
            if isinstance(t, Struct) and not t.params and n < 8 and all(not f.args for f in t.fields):
                partial(res, z, br, p, t, v, j, key, cls)
        if values:
            res.sample("%s.%s: %s" % (p.name, t.name, exp[:200]))
    return res.out()


def partial(res, z, br, p, t, v, j, key, cls):
    names = list(j)
    env = t.env((), v)
    subsets = [names[:i] + names[i + 1:] for i in range(len(names))] + [[n] for n in names] + [[], names[::-1]]
    for sub in subsets:
        kw = {f.name + "_": (None if v.get(f.name) is None else br.field(f, v[f.name], env, {})) for f in t.fields if f.name in sub}
        exp = cls()
        for f in t.fields:
            if f.name in sub:
                setattr(exp, f.name, kw[f.name + "_"])
        o = z.from_json_string(cls, text({k: j[k] for k in sub}))
        res.states += 1
        res.transitions += 1
        res.traces += 1
        a, b = shape(br, t, o), shape(br, t, exp)
        if not same(a, b):
            res.bad("partial:%s:%s" % (key, ",".join(sub)), "%s from members %s only: %s, expected %s" % (t.name, sub, cut(a, 0), cut(b, 0)))


def shape(br, t, o):
    out = {}
    for f in t.fields:
        x = getattr(o, f.name)
        try:
            out[f.name] = None if x is None else br.unfield(f, x)
        except Exception:
            out[f.name] = repr(type(x))
    return out


def alternatives(task):
    """Other documented spellings on input: numbers for enums and bitmasks, comment strings, any order and white space."""
    name, tier, gen = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases:
        if not (isinstance(t, Struct) and t.name.startswith("Sp")):
            continue
        f = t.fields[1]
        et = f.t

        def check(txt, exp):
            res.states += 1
            res.transitions += 1
            res.traces += 1
            s = '{"pre": 5, "v": %s, "post": 1}' % txt
            try:
                o = z.from_json_string(br.cls(t), s)
                got = br.extract(t, o)["v"]
            except Exception:
                got = "error"
            if not same(got, exp):
                res.bad("alt:%s:%s:%s" % (p.name, t.name, txt), "%s of type %s from JSON %s: %r, expected %r" % (f.name, et.name, txt, got, exp))
        if isinstance(et, Enum):
            for nme, val in et.by_name.items():
                check(str(val), nme)
                check(jstr(nme), nme)
                for bad in (nme + " ", nme + "x", nme.lower(), nme[:-1], " " + nme, "%d /* no match */" % val, ""):
                    if bad not in et.by_name:
                        check(jstr(bad), "error")
        elif isinstance(et, Bitmask):
            hi = et.bounds()[1]
            for val in (0, 1, hi, hi // 2):
                check(str(val), val)
                check(jstr(str(val)), val)
                check(jstr("%d /* no match */" % val), val)
                check(jstr("%d /* partial match: X */" % val), val)
            items = [i for i in et.items]
            for r in range(1, len(items) + 1):
                for c in itertools.permutations(items, r):
                    v = 0
                    for i in c:
                        v |= i[2]
                    for sep in (" | ", "|", "  |  "):
                        check(jstr(sep.join(i[0] for i in c)), v)
            for bad in ("", items[0][0] + " |", "| " + items[0][0], items[0][0] + " " + items[-1][0], items[0][0] + ",", items[0][0].lower(), items[0][0] + "| nope"):
                check(jstr(bad), "error")
        elif isinstance(et, Str):
            for s, e in (('"a\\u0041\\u00e9"', "aA\u00e9"), ('"\\n\\t\\r\\b\\f\\"\\\\"', '\n\t\r\b\f"\\'), ('"\\u0000"', "\0"), ('"  "', "  "), ('"{[,:]}"', "{[,:]}")):
                check(s, e)
            for bad in ("1", "1.5", "true", "[]"):
                check(bad, "error")
        elif isinstance(et, Bool):
            for bad in ("1", '"true"', "0.0", "{}", "[]"):
                check(bad, "error")
        elif isinstance(et, Float):
            for s, e in (("1e2", 100.0), ("-1.5E-1", -0.15), ("0.5", 0.5), ("1E+1", 10.0), ("NaN", math.nan), ("-Infinity", -math.inf), ("Infinity", math.inf)):
                check(s, e)
            for bad in ('"x"', "true", "[1.0]", "{}"):
                check(bad, "error")
        elif isinstance(et, (Int, Var)):
            lo, hi = et.bounds()
            for x in {lo, hi, 0, 1, -1 if lo < 0 else 2 if hi > 1 else 0}:
                check(str(x), x)
                check("\n\t %d\r\n " % x, x)
            for bad in ('"1"', "1.0", "1e0", "[1]", "{}", "NaN"):
                check(bad, "error")
        elif isinstance(et, Bytes):
            check('{"buffer": []}', b"")
            check('{ "buffer":[1,\n255 ] }', b"\x01\xff")
            for bad in ('{"buffer": [256]}', '{"buffer": [-1]}', '{"buffer": 1}', "{}", '{"bitSize": 8}', '"x"', "[1]", "1", '{"buffer": ["1"]}', '{"buffer": {}}', '{"buffer": [[1]]}', '{"buffer": [1.0]}'):
                check(bad, "error")
        elif isinstance(et, Extern):
            check('{"bitSize": 11, "buffer": [203, 255]}', Ext(203 << 3 | 7, 11))
            check('{"buffer": [203, 224], "bitSize": 11}', Ext(203 << 3 | 7, 11))
            check('{"buffer": [], "bitSize": 0}', Ext(0, 0))
            for bad in ('{"buffer": [1], "bitSize": 9}', '{"buffer": [1]}', '{"bitSize": 0}', "{}", '{"buffer": [256], "bitSize": 8}', '{"buffer": [1], "bitSize": "8"}', '{"buffer": [1], "bitSize": 8, "x": 1}', "[1]", "1"):
                check(bad, "error")
    return res.out()


def exhaust(task):
    """Complete value spaces of single members: every bitmask / enum value, every float16, every character of the lower planes."""
    import zserio.json as zj
    name, tier, gen, k, n = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases:
        if not (isinstance(t, Struct) and t.name.startswith("Sp")):
            continue
        et = t.fields[1].t
        if isinstance(et, Bitmask) and et.bounds()[1] < 1 << 16:
            vals = range(et.bounds()[1] + 1)
        elif isinstance(et, Enum):
            vals = list(et.by_name)
        elif isinstance(et, Str):
            cps = list(range(0x800)) + list(range(0x2000, 0x2070)) + [0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]
            vals = [s for c in cps for s in (chr(c), "a" + chr(c) + "b")] + ["\\" * i + '"' * j + e for i in range(4) for j in range(3) for e in ("", "u0041", "n", "/")]
        elif isinstance(et, Float) and et.bits == 16:
            vals = [f16_decode(u) for u in range(65536) if not (u >> 10 & 31 == 31 and u & 1023)]
        elif isinstance(et, (Int, Var)):
            lo, hi = et.bounds()
            vals = [x for b in range(65) for x in (-(1 << b) - 1, -(1 << b), (1 << b) - 1, 1 << b, 10 ** (b % 19), -10 ** (b % 19)) if lo <= x <= hi]
        else:
            continue
        cls = br.cls(t)
        for i, x in enumerate(vals):
            if i % n != k:
                continue
            v = {"pre": 5, "v": x, "post": 1}
            o = br.build(t, v)
            for fmt in ((False, True) if isinstance(et, (Enum, Bitmask)) else (False,)):
                exp = text(tree(t, v, fmt))
                w = zj.JsonWriter(enumerable_format=zj.JsonEnumerableFormat.NUMBER if fmt else zj.JsonEnumerableFormat.STRING)
                z.Walker(w).walk(o)
                got = w.get_io().getvalue()
                res.states += 1
                res.transitions += 2
                res.traces += 1
                if got != exp:
                    res.bad("all:%s:%s:%s" % (t.name, et.name, cut(x, 60)[:60]), "%s value %r: JSON %r, model %r" % (et.name, x, got, exp))
                    break
                back = br.extract(t, z.from_json_string(cls, exp))["v"]
                if not same(back, x):
                    res.bad("allback:%s:%s:%s" % (t.name, et.name, cut(x, 60)[:60]), "%s value %r from JSON %r: %r" % (et.name, x, exp, back))
                    break
    res.sample("share %d of %d of complete value spaces" % (k, n))
    return res.out()
