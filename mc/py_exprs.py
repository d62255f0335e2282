"""Evaluates expressions in generated Python code and compares every value with the model."""
import importlib, sys
from . import exprs, pool


def word(t):
    for a, b in (("<<", "shl"), (">>", "shr"), ("&&", "and"), ("||", "or"), ("!=", "ne"), ("==", "eq"), ("<=", "le"), (">=", "ge"), ("<", "lt"), (">", "gt"), ("*", "mul"), ("/", "div"), ("%", "mod"),
                 ("+", "plus"), ("-", "minus"), ("&", "band"), ("|", "bor"), ("^", "xor"), ("~", "inv"), ("!", "not"), ("?", "if"), (":", "else"), ("(", "."), (")", "."), (" ", "-")):
        t = t.replace(a, b)
    return t


def build(mod, e):
    M = mod
    kw = {}
    for n, t in exprs.FIELDS:
        if t == "En":
            kw[n] = M.En(e[n])
        elif t == "Mk":
            kw[n] = M.Mk.from_value(e[n])
        elif n == "inn":
            kw["inn_"] = M.Inner(e["par"], e["inn"]["iv"], e["inn"]["ia"], e["inn"]["ib"])
        elif n == "by":
            kw["by_"] = bytearray(e["by"])
        else:
            kw[n + "_"] = e[n]
    return M.T(e["par"], **{k if k.endswith("_") else k + "_": v for k, v in kw.items()})


def run(task):
    pkg, gen, which, thorough, lo, hi = task
    if gen not in sys.path:
        sys.path.insert(0, gen)
    res = pool.Res()
    mod = importlib.import_module(pkg + ".api")
    ex = exprs.space(thorough)[which][lo:hi]
    for e in exprs.grid(thorough or which != "three"):
        o = build(mod, e)
        res.states += 1
        for i, (text, n) in enumerate(ex):
            try:
                want = exprs.value(n, e, "py")
            except exprs.Skip:
                continue
            res.transitions += 1
            if n.big() and not 0 <= want < 1 << 64:
                continue
            try:
                got = getattr(o, "f%d" % i)()
                got = got.value if n.t in "em" else got
            except Exception as ex_:
                got = "%s: %s" % (type(ex_).__name__, ex_)
            res.traces += 1
            if got != want or type(got) is not type(want):
                res.bad("python-expr:" + word(text), "expression %s gives %r in generated Python, %r expected; operands %r" % (text, got, want, e))
    res.sample("e.g. %s" % (ex[len(ex) // 2][0],))
    return res.out()


# ---- expressions evaluated by the compiler: constants, enumeration and bitmask values --------------------------------
CL = [exprs.lit("12", 12), exprs.lit("5", 5), exprs.I("-7", lambda e: -7, "int", None, 13), exprs.lit("3", 3), exprs.lit("0", 0)]


def cfill(sk, pos, rot):
    if isinstance(sk, str):
        i = pos[0]
        pos[0] += 1
        return CL[(i + rot) % len(CL)]
    return exprs.N(sk[1], sk[0], tuple(cfill(k, pos, rot) for k in sk[2]))


def const_space(thorough):
    """Integer trees over literals that are defined and whose value fits int32."""
    ops = [o for o in exprs.OPS if set(o[1]) == {"i"} and o[2] == "i"]
    seen, out = set(), []
    for n in (1, 2, 3) if thorough else (1, 2):
        for sk in exprs.trees(n, ops):
            for rot in range(len(CL)) if n < 3 else (0,):
                t = cfill(sk, [0], rot)
                s = t.show()
                try:
                    v = exprs.value(t, {}, "java")
                except exprs.Skip:
                    continue
                if s not in seen and -(1 << 31) <= v < 1 << 31:
                    seen.add(s)
                    out.append((s, v))
    return out


GROUP = 40


def const_schema(cons):
    s = "package ex_const;\n"
    for i, (text, v) in enumerate(cons):
        s += "const int32 CO%d = %s;\n" % (i, text)
    for g in range(0, len(cons), GROUP):
        # enum items are relative to a distinct base, so that values do not collide
        s += "enum int64 EN%d\n{\n%s\n};\n" % (g, ",\n".join("    V%d = %d + (%s)" % (i, (i + 1) << 33, cons[i][0]) for i in range(g, min(len(cons), g + GROUP))))
        pos = [i for i in range(g, min(len(cons), g + GROUP)) if 0 <= cons[i][1]]
        if pos:
            s += "bitmask uint64 BM%d\n{\n%s\n};\n" % (g, ",\n".join("    V%d = %d + (%s)" % (i, (i + 1) << 33, cons[i][0]) for i in pos))
    small = [i for i, (t, v) in enumerate(cons) if 1 <= v <= 64]
    s += "struct FA\n{\n%s};\n" % "".join("    bit:1 a%d[%s];\n" % (i, cons[i][0]) for i in small)
    s += "struct FB\n{\n%s};\n" % "".join("    bit<%s> a%d;\n" % (cons[i][0], i) for i in small)
    s += "struct FI\n{\n%s};\n" % "".join("    int32 a%d = %s;\n" % (i, t) for i, (t, v) in enumerate(cons))
    return s


def consts(task):
    gen, thorough = task
    if gen not in sys.path:
        sys.path.insert(0, gen)
    res = pool.Res()
    mod = importlib.import_module("ex_const.api")
    cons = const_space(thorough)

    def check(what, i, got):
        res.states += 1
        res.traces += 1
        res.transitions += 1
        if got != cons[i][1]:
            res.bad("const:%s:%s" % (what, word(cons[i][0])), "%s %s evaluates to %r, %d expected" % (what, cons[i][0], got, cons[i][1]))
    fi = mod.FI()
    for i, (text, v) in enumerate(cons):
        check("constant", i, getattr(mod, "CO%d" % i))
        g = i // GROUP * GROUP
        check("enum value", i, getattr(getattr(mod, "EN%d" % g), "V%d" % i).value - ((i + 1) << 33))
        if v >= 0:
            check("bitmask value", i, getattr(getattr(mod, "BM%d" % g).Values, "V%d" % i).value - ((i + 1) << 33))
        check("default", i, getattr(fi, "a%d" % i))
    small = [i for i, (t, v) in enumerate(cons) if 1 <= v <= 64]
    import zserio
    for i in small:
        # width and length, observed by writing (one more or one value larger is rejected)
        for cls, val, big in ((mod.FA, lambda k: [1] * k, lambda k: [1] * (k + 1)), (mod.FB, lambda k: (1 << k) - 1, lambda k: 1 << k)):
            o = cls()
            for j in small:
                setattr(o, "a%d" % j, val(cons[j][1]))
            w = zserio.BitStreamWriter()
            try:
                o.write(w)
                ok = w.bitposition == sum(cons[j][1] for j in small)
                setattr(o, "a%d" % i, big(cons[i][1]))
                try:
                    o.write(zserio.BitStreamWriter())
                    ok = False
                except zserio.PythonRuntimeException:
                    pass
            except Exception as e:
                ok = repr(e)
            check(cls.__name__, i, cons[i][1] if ok is True else ok)
    return res.out()
