"""Equality, hash codes and (C++) ordering of generated objects: all pairs of values of a type, each value built in several ways.

Model: two objects are equal exactly when their parameters and their used contents are (for a field that is not used, whatever is
kept in it does not count); C++ ordering rules as in compiler/extensions/cpp/README.md."""
import struct
from .ref import *
from .pool import Res
from . import py_gen, py_json, xlang
from .py_gen import norm, cut

CAP = 110       # values of one type that are compared pairwise


def key(t, v, exact):
    """Canonical form: exact distinguishes the zeros of floating point numbers."""
    if isinstance(v, float):
        return ("f", struct.pack(">d", v) if exact else struct.pack(">d", v + 0.0))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, Ext):
        return ("x", v.v, v.n)
    if isinstance(v, dict):
        return ("d",) + tuple((k, key(t, v[k], exact)) for k in sorted(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__[0],) + tuple(key(t, x, exact) for x in v)
    return v


def pick(values, cap):
    """The first and last ones and an even selection."""
    if len(values) <= cap:
        return list(values)
    step = len(values) / cap
    return [values[int(i * step)] for i in range(cap - 1)] + [values[-1]]


def stale(t, v, others):
    """Values of the fields that v does not use, to be left in them: {field: value}."""
    if not isinstance(t, Struct):
        return {}
    out = {}
    for f in t.fields:
        if isinstance(f.opt, E) and v.get(f.name) is None:
            for w in others:
                if w.get(f.name) is not None:
                    out[f.name] = w[f.name]
                    break
    return out


def has_ext(v):
    return isinstance(v, Ext) or (isinstance(v, dict) and any(map(has_ext, v.values()))) or (isinstance(v, (list, tuple)) and any(map(has_ext, v)))


class Junk:
    """Bit buffers are built with junk in the bits and bytes they do not use."""
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        Ext.JUNK = self.on

    def __exit__(self, *a):
        Ext.JUNK = False


class Item:
    __slots__ = ("v", "b", "how", "st", "args", "ek", "nk", "ext")


def items(t, values, args, cap, json):
    """What is to be compared: (value, its bits, how it is built)."""
    vals = [v for v in pick(values, cap) if not xlang.has_nan(t, v)]
    for v in vals:
        v0, b0 = encode(t, v, args)
        n = norm(t, v0)
        st = stale(t, v0, vals) if json else {}
        for how in ["read"] + (["json"] if json else []) + (["stale"] if st else []) + (["junk"] if json and has_ext(v0) else []):
            i = Item()
            i.v, i.b, i.how, i.st, i.args = v0, b0, how, st, args
            i.ek, i.nk = (key(t, args, True), key(t, n, True)), (key(t, args, False), key(t, n, False))
            i.ext = n.get("#ext") if isinstance(n, dict) else None
            yield i


# ---------------------------------------------------------------------------------------------------- C++ ordering
def less(t, a, b):
    """-1 / 0 / 1 by the documented ordering rules, None where they leave it open."""
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, Struct):
        for f in t.fields:
            x, y = a.get(f.name), b.get(f.name)
            ab = (x in (None, "#absent")), (y in (None, "#absent"))
            if any(ab):
                if all(ab):
                    continue
                return -1 if ab[0] else 1
            c = fless(f, x, y)
            if c != 0:
                return c
        return 0
    if isinstance(t, (Choice, Union)):
        fs = [f.name for f in t.all_fields()]
        if a[0] != b[0]:
            if isinstance(t, Choice):
                return None
            ia, ib = fs.index(a[0]), fs.index(b[0])
            return -1 if ia < ib else 1
        f = [f for f in t.all_fields() if f.name == a[0]]
        return fless(f[0], a[1], b[1]) if f else 0
    if isinstance(t, Enum):
        x, y = t.by_name[a], t.by_name[b]
    elif isinstance(t, Str):
        x, y = a.encode("utf8"), b.encode("utf8")
    elif isinstance(t, Extern):
        x, y = a.data(), b.data()
        if x == y and a.n != b.n:
            return None
    else:
        x, y = a, b
    return -1 if x < y else 1 if y < x else 0


def fless(f, x, y):
    if f.arr is None:
        return less(f.t, x, y)
    for p, q in zip(x, y):
        c = less(f.t, p, q)
        if c != 0:
            return c
    return (len(x) > len(y)) - (len(x) < len(y))


# ---------------------------------------------------------------------------------------------------- judgement
def judge(res, lang, p, t, its, hashes, eq, lt, flags=""):
    name = "%s.%s" % (p.name, t.name)
    n = len(its)

    def desc(i):
        return "%s%s (%s)" % (cut(its[i].v, 0), " with arguments %s" % (its[i].args,) if its[i].args else "", its[i].how if its[i].how != "stale" else "leftovers %s" % cut(its[i].st, 0))
    if "0" in flags:
        res.bad("%s:flags:%s" % (lang, name), "%s: hash code changes by bitSizeOf / initializeOffsets, or equal to null or to an object of another type: %s" % (name, flags))
    for i in range(n):
        a = its[i]
        for j in range(n):
            b = its[j]
            e = eq[i][j] == "1"
            res.transitions += 1
            if a.ek == b.ek:
                if not e:
                    res.bad("%s:eq:%s:%s:%s" % (lang, name, a.how, b.how), "%s: %s and %s are not equal" % (name, desc(i), desc(j)))
                elif hashes[i] != hashes[j]:
                    res.bad("%s:hash:%s:%s:%s" % (lang, name, a.how, b.how), "%s: %s and %s have hash codes %s, %s" % (name, desc(i), desc(j), hashes[i], hashes[j]))
            elif a.nk == b.nk:
                if e and hashes[i] != hashes[j]:
                    res.bad("%s:hash:signed-zero" % lang, "%s: %s and %s are equal and have hash codes %s, %s" % (name, desc(i), desc(j), hashes[i], hashes[j]))
            elif e and not (lang == "java" and a.ext != b.ext):
                res.bad("%s:neq:%s" % (lang, name), "%s: %s and %s are equal" % (name, desc(i), desc(j)))
            if lt is not None and a.args == b.args:
                c = less(t, norm(t, a.v), norm(t, b.v))
                if c is not None and (lt[i][j] == "1") != (c < 0):
                    res.bad("%s:less:%s" % (lang, name), "%s: %s < %s is %s" % (name, desc(i), desc(j), lt[i][j]))
    res.states += n
    res.traces += n


def python(task):
    name, tier, gen, lo, hi, cap = task
    z, p, br = py_gen.ctx(name, tier, gen)
    res = Res()
    groups = {}
    for t, values, args in p.cases[lo:hi]:
        if values:
            groups.setdefault(t.name, []).append((t, values, args))
    for cases in groups.values():
        its, objs, flags = [], [], ""
        t = cases[0][0]
        for t, values, args in cases:
            oargs = [br.leaf(pp[0], a) if isinstance(pp[0], T) else a for a, pp in zip(args, t.params)] if t.params else []
            for i in items(t, values, args, cap, True):
                data = i.b.bytes()
                if i.how == "read":
                    o = br.cls(t).from_reader(z.BitStreamReader(data, i.b.n), *oargs)
                elif i.how != "stale":        # json is here: by the constructor
                    with Junk(i.how == "junk"):
                        o = br.build(t, i.v, args)
                else:
                    o = br.build(t, i.v, args)
                    env = t.env(args, i.v)
                    for f in t.fields:
                        if f.name in i.st:
                            setattr(o, f.name, leftover(br, f, i.st[f.name], env))
                h = hash_of(o)
                o.bitsizeof(0)
                flags += "01"[h == hash_of(o) and o != None and not o == None and o != "x" and o == o]      # noqa: E711
                its.append(i)
                objs.append(o)
        if not its:
            continue
        hashes = [hash_of(o) for o in objs]
        eq = [["01"[a == b] for b in objs] for a in objs]
        judge(res, "python", p, t, its, hashes, eq, None, flags)
        res.sample("python %s.%s: %d objects, all pairs" % (p.name, t.name, len(its)))
    return res.out()


def leftover(br, f, x, env):
    if f.arr is not None:
        return [br.build(f.t, y) if not isinstance(strip(f.t), Compound) else br.build(f.t, y, ()) for y in x] if not f.args else []
    if f.args:
        return br.build(f.t, x, tuple(a(env) for a in f.args)) if not isinstance(strip(f.t), Compound) else None
    return br.build(f.t, x)


def strip(t):
    return t.t if isinstance(t, Sub) else t


def hash_of(o):
    return o.__hash__()


def other(task):
    """Java / C++."""
    lang, name, tier, lo, hi, cap, prog, json = task
    p = py_gen.family(name, tier)
    res = Res()
    lines, exp = [], []
    for t, values, args in p.cases[lo:hi]:
        if not values or args:
            continue
        its = list(items(t, values, args, cap, json))
        if not its:
            continue
        txt = []
        for i in its:
            if i.how == "read":
                txt.append("R %d %s" % (i.b.n, i.b.bytes().hex() or "-"))
            else:
                v = i.v if i.how != "stale" else dict(i.v, **i.st)
                with Junk(i.how == "junk"):
                    txt.append("J 0 " + xlang.b64(xlang.json_model(t, v)))
        lines.append("%d\t%s.%s\tE\t0\t0\t\t%s" % (len(lines), p.name, t.name, xlang.b64("\n".join(txt) + "\n")))
        exp.append((t, its))
    if not lines:
        return res.out()
    outs = (xlang.run_java if lang == "java" else xlang.run_cpp)(prog, lines, name="eq%s%d" % (name, lo))
    for (t, its), out in zip(exp, outs):
        o = out.split("\t")
        if o[1] != "OK":
            import base64
            res.bad("%s:fail:%s.%s" % (lang, p.name, t.name), "%s.%s: failed at %s: %s %s" % (p.name, t.name, o[2], o[3], base64.b64decode(o[4]).decode("utf8", "replace") if len(o) > 4 else ""))
            continue
        hashes = o[2].split(",")
        n = len(its)
        eq = [o[3][i * n:(i + 1) * n] for i in range(n)]
        lt = [o[4][i * n:(i + 1) * n] for i in range(n)] if lang == "cpp" else None
        judge(res, lang, p, t, its, hashes, eq, lt, o[5])
        res.sample("%s %s.%s: %d objects, all pairs" % (lang, p.name, t.name, n))
    return res.out()
