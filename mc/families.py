"""Systematic schema families: every element type in every container, and compositions of them."""
import itertools
from .ref import *
from .bridge import Pkg
from .stream_model import fval, F_PATTERNS

U3, U1 = Int(3), Int(1)


def ints(tier):
    out = [Int(8), Int(16), Int(32), Int(64), Int(8, True), Int(16, True), Int(32, True), Int(64, True)]
    ws = [1, 2, 3, 7, 9, 15, 17, 31, 33, 63] if tier == "quick" else [w for w in range(1, 64) if w not in (8, 16, 32)]
    for w in ws:
        out += [Int(w), Int(w, True)]
    out += [Int(8, std=False), Int(16, std=False), Int(32, std=False), Int(64, False, False), Int(64, True, False)]
    return out


def vars_():
    return [Var(k) for k in VAR]


E8 = Enum("Ea", Int(8), [("NONE", None, 0, None), ("RED", "2", 2, None), ("BLUE", None, 3, None), ("BIG", "255", 255, None)])
EB = Enum("Eb", Int(5), [("LOW", "31", 31, None), ("MID", "16", 16, None), ("ZERO", "0", 0, None), ("ONE", None, 1, None)])
ES = Enum("Ec", Int(16, True), [("NEG", "-32768", -32768, None), ("NEXT", None, -32767, None), ("POS", "32767", 32767, None)])
EV = Enum("Ed", Var("varuint32"), [("AA", None, 0, None), ("BB", "127", 127, None), ("CC", None, 128, None), ("DD", "536870911", 536870911, None)])
E64 = Enum("Ee", Int(64), [("AA", None, 0, None), ("ZZ", "18446744073709551615", (1 << 64) - 1, None)])
EI = Enum("Ef", Var("varint16"), [("MM", "-16383", -16383, None), ("NN", "-1", -1, None), ("OO", None, 0, None), ("PP", "64", 64, None)])
B8 = Bitmask("Ma", Int(8), [("READ", None, 1), ("WRITE", None, 2), ("EXEC", "0x80", 128)])
BB = Bitmask("Mb", Int(10), [("NONE", "0", 0), ("AA", "1", 1), ("BB", "512", 512)])
BV = Bitmask("Mc", Var("varuint"), [("LO", "1", 1), ("HI", "0x8000000000000000", 1 << 63)])
B64 = Bitmask("Md", Int(64), [("LO", None, 1), ("HI", "0x8000000000000000", 1 << 63)])
BZ = Bitmask("Me", Int(6), [("AA", None, 1), ("BB", None, 2), ("AB", "3", 3), ("NONE", "0", 0), ("TOP", "32", 32)])
NAMED = [E8, EB, ES, EV, E64, EI, B8, BB, BV, B64, BZ]


def leaf_types(tier="quick"):
    return ints(tier) + vars_() + [Bool(), Str(), Bytes(), Extern(), Float(16), Float(32), Float(64)] + NAMED


def edge_values(t, small=False):
    if isinstance(t, Enum):
        return list(t.by_name)
    if isinstance(t, Bitmask):
        lo, hi = t.base.bounds()
        return [0, 1, 2, 3, hi, hi - 1] if not small else [0, hi, 1]
    if isinstance(t, (Int, Var)):
        lo, hi = t.bounds()
        vs = [lo, hi, 0, 1, hi // 2, hi // 2 + 1, hi - 1, lo + 1, -1, 127, 128, 0x155, -64, 64, -65, 8191, 8192, 16383, 16384]
        vs = [v for i, v in enumerate(vs) if lo <= v <= hi and v not in vs[:i]]
        return vs[:4] if small else vs
    if isinstance(t, Bool):
        return [False, True]
    if isinstance(t, Float):
        return [fval("f%d" % t.bits, p) for p in F_PATTERNS["f%d" % t.bits]][:4 if small else None]
    if isinstance(t, Str):
        return ["", "a", "\u00e9\u20ac", "x" * 127, "y" * 128][:3 if small else None]
    if isinstance(t, Bytes):
        return [b"", b"\x00", b"\xff\x80\x01", bytes(range(128))][:3 if small else None]
    if isinstance(t, Extern):
        return [Ext(0, 0), Ext(1, 1), Ext(0x5A5, 11), Ext(0xABCD, 16), Ext((1 << 129) - 1, 129)][:4 if small else None]
    raise TypeError(t)


def seqs(vals, maxlen):
    for n in range(maxlen + 1):
        yield from (list(p) for p in itertools.product(vals, repeat=n))


def fam_scalars(tier="quick", types=None, name="fsca"):
    """Each leaf type in each container, preceded by 3 bits so that nothing is byte aligned."""
    p = Pkg(name)
    for t in NAMED:
        p.add(t)
    for i, t in enumerate(types or leaf_types(tier)):
        vs, sv = edge_values(t), edge_values(t, True)
        pre = Field("pre", U3)
        post = Field("post", U1)

        def rec(**kw):
            d = {"pre": 5, "post": 1}
            d.update(kw)
            return d
        p.case(Struct("Sp%d" % i, [pre, Field("v", t), post]), [rec(v=v) for v in vs])
        p.case(Struct("So%d" % i, [pre, Field("v", t, opt="auto"), post]), [rec(v=v) for v in [None] + vs])
        p.case(Struct("Sc%d" % i, [pre, Field("v", t, opt=E("pre > 3", lambda e: e["pre"] > 3)), post]),
               [rec(v=v) for v in vs[:3]] + [rec(pre=3, v=None), rec(pre=4, v=vs[-1])])
        p.case(Struct("Sa%d" % i, [pre, Field("v", t, arr=("auto",)), post]), [rec(v=v) for v in seqs(sv, 2)] + [rec(v=list(vs))])
        p.case(Struct("Sf%d" % i, [Field("pre", U3), Field("v", t, arr=("fixed", E("pre", lambda e: e["pre"]))), post]),
               [rec(pre=len(v), v=v) for v in seqs(sv[:2], 3)])
        p.case(Struct("Sk%d" % i, [pre, Field("v", t, arr=("auto",), opt="auto"), post]), [rec(v=v) for v in [None, [], [vs[0]], list(vs)]])
        if isinstance(t, Leaf):
            p.case(Struct("Sq%d" % i, [pre, Field("v", t, arr=("auto",), packed=True), post]),
                   [rec(v=v) for v in seqs(sv, 3)] + [rec(v=list(vs)), rec(v=list(reversed(vs))), rec(v=[vs[0]] * 20), rec(v=[sv[0], sv[-1]] * 9)])
        if t.const_size and t.const_size % 8 == 0:
            p.case(Struct("Si%d" % i, [pre, Field("v", t, arr=("implicit",))]), [{"pre": 2, "v": v} for v in seqs(sv[:3], 2)])
        u = p.case(Union("Un%d" % i, [Field("a", U3), Field("v", t), Field("w", t, arr=("auto",))]),
                   [("a", 7)] + [("v", v) for v in vs] + [("w", []), ("w", list(vs))])
        c = Choice("Ch%d" % i, [("uint8", "sel")], E("sel", lambda e: e["sel"]),
                   [(["0"], [0], None), (["1", "2"], [1, 2], Field("v", t)), (["255"], [255], Field("w", t, arr=("auto",)))],
                   default=Field("d", U3))
        p.add(c)
        p.case(Struct("Sx%d" % i, [pre, Field("sel", Int(8)), Field("c", c, args=[E("sel", lambda e: e["sel"])]), Field("u", u), post]),
               [rec(sel=s, c=cv, u=uv) for s, cv in ((0, (None, None)), (1, ("v", vs[0])), (2, ("v", vs[-1])), (255, ("w", list(sv))), (7, ("d", 3)))
                for uv in (("a", 1), ("v", vs[-1]), ("w", [vs[0]]))])
    return p


def fam_compose():
    """Compositions: nesting, parameters, arrays of compounds, functions, dynamic bit fields, recursion."""
    p = Pkg("fcom")
    p.add(E8), p.add(B8)
    pt = p.case(Struct("Point", [Field("x", Int(5)), Field("y", Var("varint16"))]),
                [{"x": a, "y": b} for a in (0, 31) for b in (-16383, 0, 63, 64, 16383)])
    pp = [{"x": 0, "y": -1}, {"x": 31, "y": 16383}, {"x": 7, "y": 64}]
    p.case(Struct("Line", [Field("n", Int(2)), Field("p", pt, arr=("fixed", E("n", lambda e: e["n"]))), Field("q", pt, opt="auto")]),
           [{"n": len(s), "p": s, "q": q} for s in seqs(pp, 3) for q in (None, pp[1])])
    p.case(Struct("Poly", [Field("k", Int(3)), Field("p", pt, arr=("auto",)), Field("t", Str())]),
           [{"k": 3, "p": s, "t": "\u00e9"} for s in seqs(pp, 3)])
    # dynamic bit fields
    dyn = [Field("w", Int(7))] + [Field("u", Dyn(E("w", lambda e: e["w"]))), Field("s", Dyn(E("w", lambda e: e["w"]), True)),
                                  Field("a", Dyn(E("w", lambda e: e["w"])), arr=("auto",)),
                                  Field("pk", Dyn(E("w", lambda e: e["w"]), True), arr=("auto",), packed=True)]
    vals = []
    for w in range(1, 65):
        hi = (1 << w) - 1
        h = 1 << (w - 1)
        for u, s in ((0, -h), (hi, h - 1), (hi >> 1, -1)):
            vals.append({"w": w, "u": u, "s": s, "a": [hi, 0, u], "pk": [s, -1, h - 1, -h]})
    p.case(Struct("DynBits", dyn), vals)
    # expressions in dynamic width
    p.case(Struct("DynExpr", [Field("a", Int(4)), Field("b", Int(4)), Field("v", Dyn(E("a * b + 1 > 64 ? 64 : a * b + 1", lambda e: min(64, e["a"] * e["b"] + 1))))]),
           [{"a": a, "b": b, "v": (1 << min(64, a * b + 1)) - 1} for a in range(16) for b in range(16)])
    # parameterised types, @index, function calls
    item = p.add(Struct("Item", [Field("v", Dyn(E("bits", lambda e: e["bits"]))), Field("e", Int(8), opt=E("bits > idx", lambda e: e["bits"] > e["idx"]))],
                        params=[("uint8", "bits"), ("uint32", "idx")],
                        funcs=[("uint32", "sum", E("v + idx", None) if False else E("bits + idx", lambda e: e["bits"] + e["idx"]))]))

    def items(n, w):
        return [{"v": (1 << w) - 1 - (i % 2), "e": (200 + i if w > i else None)} for i in range(n)]
    p.case(Struct("Holder", [Field("bits", Int(8)), Field("arr", item, arr=("auto",), args=[E("bits", lambda e: e["bits"]), E("@index", lambda e: e["@index"])]),
                             Field("one", item, args=[E("bits", lambda e: e["bits"]), E("lengthof(arr)", lambda e: len(e["arr"]))])]),
           [{"bits": w, "arr": items(n, w), "one": {"v": 0, "e": 9 if w > n else None}} for w in (1, 2, 3, 8, 17) for n in range(5)])
    # compound passed as parameter
    hdr = p.add(Struct("Header", [Field("len", Int(3)), Field("flag", Bool())]))
    body_ = p.add(Struct("Body", [Field("d", Int(7), arr=("fixed", E("h.len", lambda e: e["h"]["len"]))),
                                  Field("o", Str(), opt=E("h.flag", lambda e: e["h"]["flag"]))], params=[(hdr, "h")]))
    p.case(Struct("Msg", [Field("h", hdr), Field("b", body_, args=[E("h", lambda e: e["h"])])]),
           [{"h": {"len": n, "flag": fl}, "b": {"d": [127 - i for i in range(n)], "o": "q" if fl else None}} for n in range(8) for fl in (False, True)])
    # choice on enum / bool / bitmask, union in choice, nested choices
    ce = p.add(Choice("OnEnum", [(E8, "sel")], E("sel", lambda e: e["sel"]),
                      [(["NONE"], ["NONE"], None), (["RED"], ["RED"], Field("r", Int(6))), (["BLUE", "BIG"], ["BLUE", "BIG"], Field("b", pt))]))
    cb = p.add(Choice("OnBool", [("bool", "sel")], E("sel", lambda e: e["sel"]),
                      [(["true"], [True], Field("t", Int(3))), (["false"], [False], Field("f", Str()))]))
    cm = p.add(Choice("OnMask", [(B8, "sel")], E("sel", lambda e: e["sel"]),
                      [(["READ"], [1], Field("r", Int(3))), (["WRITE"], [2], Field("w", Var("varuint")))], default=None))
    un = p.add(Union("Alt", [Field("p", pt), Field("s", Str()), Field("e", E8), Field("n", Int(8), constraint=E("n > 10", lambda e: e["n"] > 10)),
                             Field("arr", pt, arr=("auto",))]))
    vals = []
    for e, cv in (("NONE", (None, None)), ("RED", ("r", 63)), ("BLUE", ("b", pp[1])), ("BIG", ("b", pp[0]))):
        for b, bv in ((True, ("t", 5)), (False, ("f", "zz"))):
            for m, mv in ((1, ("r", 7)), (2, ("w", 1 << 60)), (3, (None, None)), (0, (None, None))):
                for u in (("p", pp[2]), ("s", ""), ("e", "BIG"), ("n", 11), ("n", 255), ("arr", pp)):
                    vals.append({"e": e, "b": b, "m": m, "ce": cv, "cb": bv, "cm": mv, "u": u})
    p.case(Struct("Choices", [Field("e", E8), Field("b", Bool()), Field("m", B8),
                              Field("ce", ce, args=[E("e", lambda e: e["e"])]), Field("cb", cb, args=[E("b", lambda e: e["b"])]),
                              Field("cm", cm, args=[E("m", lambda e: e["m"])]), Field("u", un)]), vals)
    # recursion
    node = Struct("Node", [Field("v", Int(4)), Field("kids", Int(2))])
    node.fields.append(Field("next", node, opt="auto"))
    node.fields.append(Field("arr", node, arr=("fixed", E("kids", lambda e: e["kids"]))))

    def nodes(d):
        base = [{"v": 9, "kids": 0, "next": None, "arr": []}]
        if d == 0:
            return base
        sub = nodes(d - 1)
        out = list(base)
        for s in sub:
            out.append({"v": 1, "kids": 0, "next": s, "arr": []})
            out.append({"v": 2, "kids": 1, "next": None, "arr": [s]})
            out.append({"v": 3, "kids": 2, "next": s, "arr": [s, base[0]]})
        return out
    p.case(node, nodes(3))
    # optional of everything with presence combinations
    fs = [Field("a", Int(3), opt="auto"), Field("b", pt, opt="auto"), Field("c", Str(), opt="auto"), Field("d", E8, opt="auto"),
          Field("f", Float(16), opt="auto"), Field("g", Extern(), opt="auto"), Field("h", pt, arr=("auto",), opt="auto"), Field("i", Var("varsize"), arr=("auto",), packed=True, opt="auto")]
    full = {"a": 7, "b": pp[0], "c": "c", "d": "RED", "f": 1.5, "g": Ext(5, 3), "h": pp[:2], "i": [1, 2, 300]}
    p.case(Struct("Opts", fs), [{k: (full[k] if m >> i & 1 else None) for i, k in enumerate(full)} for m in range(256)])
    # defaults, constraints
    p.case(Struct("Constr", [Field("a", Int(4), constraint=E("a != 5", lambda e: e["a"] != 5)), Field("b", Int(4), constraint=E("a + b < 20", lambda e: e["a"] + e["b"] < 20)),
                             Field("c", Int(4), opt=E("a < b", lambda e: e["a"] < e["b"]), constraint=E("c >= a && c <= b", lambda e: e["a"] <= e["c"] <= e["b"]))]),
           [{"a": a, "b": b, "c": c} for a in range(16) for b in range(16) for c in ([None] if a >= b else range(a, b + 1)) if a != 5 and a + b < 20])
    # extended members
    p.case(Struct("Ext1", [Field("a", Int(3)), Field("b", Int(5), extend=True), Field("c", Str(), extend=True), Field("d", pt, extend=True, opt="auto"), Field("e", Int(9), arr=("auto",), packed=True, extend=True)]),
           [{"a": 5, "b": 17, "c": c, "d": d, "e": e} for c in ("", "ab") for d in (None, pp[1]) for e in ([], [511], [1, 2, 3, 4])])
    # empty structure
    em = p.case(Struct("Empty", []), [{}])
    p.case(Struct("Empties", [Field("a", em), Field("b", em, arr=("auto",)), Field("o", em, opt="auto")]),
           [{"a": {}, "b": [{}] * n, "o": o} for n in range(4) for o in (None, {})])
    return p


def fam_offsets():
    """Offsets (plain, nested, indexed, packed, optional) and alignment."""
    p = Pkg("foff")
    inner = p.add(Struct("Offs", [Field("a", Int(16)), Field("b", Int(32))]))
    pt = p.add(Struct("Pt", [Field("x", Int(5)), Field("y", Var("varint16"))]))
    for w in (8, 16, 32, 64):
        p.case(Struct("Off%d" % w, [Field("o", Int(w)), Field("pre", Int(3)), Field("v", Int(6), offset="o"), Field("post", Int(1))]),
               [{"o": 0, "pre": 5, "v": v, "post": 1} for v in (0, 33, 63)])
    for w in (1, 4, 7, 8, 12, 24, 33):
        if w > 7:
            p.case(Struct("Offb%d" % w, [Field("o", Int(w, std=False)), Field("v", Str(), offset="o"), Field("post", Int(1))]),
                   [{"o": 0, "v": v, "post": 1} for v in ("", "abc")])
    p.case(Struct("OffN", [Field("o", inner), Field("k", Int(2)), Field("v", pt, offset="o.a"), Field("s", Str(), offset="o.b"), Field("t", Int(1))]),
           [{"o": {"a": 0, "b": 0}, "k": 1, "v": {"x": 3, "y": y}, "s": s, "t": 1} for y in (0, 64, -16383) for s in ("", "xyz")])
    p.case(Struct("OffOpt", [Field("o", Int(32)), Field("h", Bool()), Field("v", Int(5), opt=E("h", lambda e: e["h"]), offset="o"), Field("w", Int(8))]),
           [{"o": 0, "h": h, "v": 21 if h else None, "w": 200} for h in (False, True)])
    p.case(Struct("OffOptAuto", [Field("o", Int(32)), Field("v", pt, opt="auto", offset="o"), Field("w", Int(8))]),
           [{"o": 0, "v": v, "w": 200} for v in (None, {"x": 1, "y": 70})])
    for i, (t, vs) in enumerate([(Int(5), [1, 31, 0, 17]), (Str(), ["", "a", "bc"]), (pt, [{"x": 1, "y": 2}, {"x": 31, "y": -70}]), (Int(8), [0, 255, 7]), (Int(16), [0, 65535, 7]),
                                 (Var("varuint32"), [0, 128, 536870911]), (Bool(), [True, False]), (Extern(), [Ext(5, 3), Ext(0, 0), Ext(0x1FF, 9)])]):
        p.case(Struct("OffIdx%d" % i, [Field("n", Int(3)), Field("o", Int(32), arr=("fixed", E("n", lambda e: e["n"]))), Field("k", Int(1)), Field("v", t, arr=("auto",), offset="o[@index]"), Field("t", Int(3))]),
               [{"n": len(s), "o": [0] * len(s), "k": 1, "v": s, "t": 5} for s in seqs(vs, 3)])
        if isinstance(t, (Leaf, Struct)):
            p.case(Struct("OffPk%d" % i, [Field("n", Int(3)), Field("o", Int(16), arr=("auto",)), Field("k", Int(1)), Field("v", t, arr=("fixed", E("n", lambda e: e["n"])), packed=True, offset="o[@index]"), Field("t", Int(3))]),
                   [{"n": len(s), "o": [0] * len(s), "k": 1, "v": s, "t": 5} for s in seqs(vs, 3)])
    # offsets inside elements of arrays and nested structures at unaligned positions
    el = p.add(Struct("OffEl", [Field("o", Int(32)), Field("n", Int(3)), Field("d", Int(4), arr=("fixed", E("n", lambda e: e["n"])), offset="o")]))
    els = [{"o": 0, "n": 0, "d": []}, {"o": 0, "n": 1, "d": [9]}, {"o": 0, "n": 3, "d": [1, 15, 2]}]
    p.case(Struct("OffArr", [Field("k", Int(5)), Field("a", el, arr=("auto",)), Field("z", el, opt="auto"), Field("t", Int(2))]),
           [{"k": 17, "a": s, "z": z, "t": 2} for s in seqs(els, 2) for z in (None, els[2])])
    un = p.add(Union("OffUn", [Field("e", el), Field("i", Int(3)), Field("a", el, arr=("auto",))]))
    ch = p.add(Choice("OffCh", [("bool", "s")], E("s", lambda e: e["s"]), [(["true"], [True], Field("e", el)), (["false"], [False], Field("a", el, arr=("auto",)))]))
    p.case(Struct("OffDeep", [Field("k", Int(5)), Field("s", Bool()), Field("u", un), Field("c", ch, args=[E("s", lambda e: e["s"])]), Field("t", Int(2))]),
           [{"k": 17, "s": s, "u": u, "c": (("e", els[2]) if s else ("a", [els[1], els[2]])), "t": 2} for s in (False, True) for u in (("e", els[1]), ("i", 5), ("a", els))])
    # offset stored through a parameter
    par = p.add(Struct("OffPar", [Field("v", Int(9), offset="h.a"), Field("s", Str(), offset="h.b")], params=[(inner, "h")]))
    p.case(Struct("OffViaPar", [Field("h", inner), Field("k", Int(3)), Field("p", par, args=[E("h", lambda e: e["h"])])]),
           [{"h": {"a": 0, "b": 0}, "k": 2, "p": {"v": 300, "s": s}} for s in ("", "q")])
    # alignment
    for a in (1, 2, 3, 5, 8, 13, 16, 32, 33, 64):
        p.case(Struct("Al%d" % a, [Field("n", Int(5)), Field("pre", Int(1), arr=("fixed", E("n", lambda e: e["n"]))), Field("v", Int(3), align=a), Field("w", Str(), align=a), Field("o", Int(7), align=a, opt="auto"), Field("z", Int(2))]),
               [{"n": n, "pre": [1] * n, "v": 5, "w": "r", "o": o, "z": 2} for n in range(0, 20) for o in (None, 99)])
    p.case(Struct("AlArr", [Field("k", Int(3)), Field("v", Int(4), arr=("auto",), align=32), Field("p", Int(11), arr=("auto",), packed=True, align=16), Field("z", Int(2))]),
           [{"k": 5, "v": v, "p": q, "z": 1} for v in seqs([1, 15], 2) for q in seqs([0, 1000, 1001], 2)])
    alin = p.add(Struct("AlIn", [Field("a", Int(3)), Field("b", Int(5), align=16)]))
    p.case(Struct("AlDeep", [Field("k", Int(3)), Field("i", alin), Field("l", alin, arr=("auto",)), Field("z", Int(1))]),
           [{"k": 1, "i": {"a": 7, "b": 31}, "l": [{"a": i, "b": 30 - i} for i in range(n)], "z": 1} for n in range(4)])
    p.case(Struct("AlOff", [Field("o", Int(32)), Field("k", Int(3)), Field("v", Int(5), align=32, offset="o"), Field("w", Int(5), align=5), Field("z", Int(1))]),
           [{"o": 0, "k": 1, "v": 17, "w": 3, "z": 1}])
    return p


def fam_packed():
    """Packed arrays of compounds: nesting, optional members, unions, choices, inner arrays, parameters."""
    p = Pkg("fpak")
    p.add(E8), p.add(B8)
    i1 = p.add(Struct("Inn", [Field("x", Int(8)), Field("s", Str())]))
    nop = p.add(Struct("NoPack", [Field("s", Str()), Field("f", Float(32))]))
    el = p.add(Struct("El", [Field("a", Int(8)), Field("arr", Int(16), arr=("auto",)), Field("one", i1), Field("np", nop), Field("o", Int(8), opt="auto"),
                             Field("e", E8), Field("m", B8), Field("v", Var("varint32")), Field("ins", i1, arr=("fixed", E("2"))), Field("fl", Bool())]))

    def mk(a, o, e, v, arr):
        return {"a": a, "arr": arr, "one": {"x": a, "s": "k" * (a % 3)}, "np": {"s": "", "f": 0.5}, "o": o, "e": e, "m": a & 0x83, "v": v, "ins": [{"x": 1, "s": ""}, {"x": a, "s": "t"}], "fl": a > 5}
    els = [mk(0, None, "NONE", 0, []), mk(1, 3, "RED", -5, [7]), mk(255, 4, "BIG", 268435455, [1, 2, 3, 60000]), mk(2, None, "NONE", 1, [5, 5, 5, 5, 5, 5, 5, 5])]
    p.case(Struct("HoldEl", [Field("k", Int(3)), Field("l", el, arr=("auto",), packed=True), Field("z", Int(1))]),
           [{"k": 3, "l": s, "z": 1} for s in seqs(els, 3)] + [{"k": 3, "l": [els[0]] * 5 + [els[1]] * 5, "z": 0}])
    # packed keyword inside of an element, array of packed in non packed array
    pe = p.add(Struct("PEl", [Field("a", Int(8)), Field("q", Int(16), arr=("auto",), packed=True)]))
    pes = [{"a": 1, "q": []}, {"a": 2, "q": [1, 2, 3, 4, 5, 6]}, {"a": 3, "q": [65535, 0]}]
    p.case(Struct("HoldP", [Field("l", pe, arr=("auto",), packed=True), Field("m", pe, arr=("auto",))]), [{"l": s, "m": s} for s in seqs(pes, 3)])
    un = p.add(Union("Un", [Field("a", Int(8)), Field("i", i1), Field("n", nop), Field("s", Str()), Field("l", Var("varuint16"), arr=("auto",)), Field("c", Int(8, True))]))
    uvs = [("a", 7), ("a", 250), ("i", {"x": 4, "s": "q"}), ("n", {"s": "w", "f": 1.0}), ("s", "z"), ("l", [1, 2, 3, 200, 201]), ("c", -128)]
    p.case(Struct("HoldU", [Field("l", un, arr=("auto",), packed=True), Field("z", Int(1))]), [{"l": s, "z": 1} for s in seqs(uvs, 3)])
    ch = p.add(Choice("Ch", [("uint8", "k")], E("k", lambda e: e["k"]), [(["0"], [0], Field("a", Int(12))), (["1"], [1], Field("i", i1, arr=("auto",))), (["2"], [2], Field("j", i1)), (["3"], [3], None)], default=Field("s", Str())))
    cv = {0: [("a", 1), ("a", 4095), ("a", 2)], 1: [("i", []), ("i", [{"x": 1, "s": ""}, {"x": 2, "s": "a"}])], 2: [("j", {"x": 9, "s": ""}), ("j", {"x": 10, "s": "b"})], 3: [(None, None)], 4: [("s", "d")]}
    p.case(Struct("HoldC", [Field("k", Int(8)), Field("l", ch, arr=("auto",), packed=True, args=[E("k", lambda e: e["k"])])]),
           [{"k": k, "l": s} for k in cv for s in seqs(cv[k], 3)])
    # dynamic width elements, parameters with @index
    dy = p.add(Struct("Dy", [Field("v", Dyn(E("w + i", lambda e: e["w"] + e["i"]))), Field("t", Int(8), opt=E("i > 0", lambda e: e["i"] > 0))], params=[("uint8", "w"), ("uint32", "i")]))
    p.case(Struct("HoldD", [Field("w", Int(8)), Field("l", dy, arr=("auto",), packed=True, args=[E("w", lambda e: e["w"]), E("@index", lambda e: e["@index"])])]),
           [{"w": w, "l": [{"v": (x >> 1) % (1 << (w + i)), "t": (x * 7 % 256 if i else None)} for i, x in enumerate(s)]} for w in (1, 5, 20) for s in seqs([0, 3, 2000001], 3)])
    # extended + packed, nested packed contexts
    n2 = p.add(Struct("N2", [Field("e", i1), Field("d", Int(64)), Field("g", Int(64, True)), Field("h", Var("varint"))]))
    n3 = p.add(Struct("N3", [Field("n", n2), Field("o", n2, opt="auto")]))
    nv = [{"e": {"x": 1, "s": ""}, "d": 0, "g": -(1 << 63), "h": -(1 << 63)}, {"e": {"x": 2, "s": ""}, "d": (1 << 64) - 1, "g": (1 << 63) - 1, "h": (1 << 63) - 1},
          {"e": {"x": 3, "s": ""}, "d": 1 << 62, "g": 0, "h": 5}, {"e": {"x": 3, "s": ""}, "d": (1 << 62) - 1, "g": -1, "h": 6}]
    p.case(Struct("HoldN", [Field("l", n3, arr=("auto",), packed=True)]), [{"l": [{"n": a, "o": b} for a, b in s]} for s in seqs([(nv[0], None), (nv[1], nv[2]), (nv[2], nv[3])], 3)])
    return p


def fam_feat(part=None):
    """Products of field features: type x array kind x optionality x alignment x offset x constraint, as a plain structure, array
    element, packed array element, nested packed element, and as union and choice branches."""
    p = Pkg("ffea" if part is None else "ffea%d" % part)
    p.templates = True
    p.add(E8), p.add(BZ)
    pa = p.add(Struct("Pa", [Field("x", Int(5)), Field("s", Str()), Field("y", Var("varint16"), opt="auto")]))
    no = p.add(Struct("No", [Field("s", Str()), Field("f", Float(16)), Field("b", Bool())]))
    uu = p.add(Union("Uu", [Field("a", Int(11)), Field("s", Str()), Field("p", pa)]))
    pr = p.add(Struct("Pr", [Field("v", Dyn(E("k + 3", lambda e: e["k"] + 3))), Field("o", Str(), opt=E("k > 4", lambda e: e["k"] > 4))], params=[("uint8", "k")]))
    N = E("n", lambda e: e["n"])
    IDX = E("@index", lambda e: e["@index"])
    kinds = [("i8", Int(8), [0, 255, 7]), ("i5", Int(5, True), [-16, 15, 0]), ("i64", Int(64), [0, (1 << 64) - 1, 1 << 62]), ("dy", Dyn(E("6", lambda e: 6)), [0, 63, 5]),
             ("vu", Var("varuint32"), [0, 128, (1 << 29) - 1]), ("vs", Var("varint"), [-(1 << 63), 0, 1 << 40]), ("bo", Bool(), [True, False]),
             ("f16", Float(16), [1.5, -0.0]), ("f64", Float(64), [0.1, -1e300]), ("st", Str(), ["", "a\u20ac", "xyz"]), ("by", Bytes(), [b"", b"\x80\xff"]),
             ("ex", Extern(), [Ext(5, 3), Ext(0, 0), Ext(0x1A5, 9)]), ("en", E8, ["NONE", "BIG", "RED"]), ("bm", BZ, [0, 3, 33]),
             ("pa", pa, [{"x": 31, "s": "", "y": None}, {"x": 0, "s": "qq", "y": -70}, {"x": 8, "s": "w", "y": 3}]),
             ("no", no, [{"s": "r", "f": 0.5, "b": True}, {"s": "", "f": -2.0, "b": False}]),
             ("un", uu, [("a", 2047), ("s", "t"), ("p", {"x": 1, "s": "", "y": 5}), ("a", 1)]),
             ("pr", pr, None)]
    if part is not None:
        kinds = kinds[part::3]
    for nm, t, vs in kinds:
        wrap_s = []
        for ak, arr, packed in (("p", None, False), ("f", ("fixed", E("len", lambda e: e["len"])), False), ("a", ("auto",), False),
                                ("g", ("fixed", E("len", lambda e: e["len"])), True), ("q", ("auto",), True)):
            if packed and not packable(t):
                continue
            isarr = arr is not None
            args = []
            if nm == "pr":
                args = [IDX] if isarr else [E("n", lambda e: e["n"])]

            def val(i, n, seed, isarr=isarr, nm=nm, vs=vs, t=t, ak=ak):
                def one(k):
                    if nm == "pr":
                        q = k if isarr else n
                        return {"v": ((1 << (q + 3)) - 1) >> (seed % 2), "o": "o" * (seed % 3) if q > 4 else None}
                    return vs[(i + k + seed) % len(vs)]
                return [one(k) for k in range(i)] if isarr else one(0)
            c_len = lambda name: E("lengthof(%s) != 4 && n < 255" % name, lambda e, name=name: len(e[name]) != 4 and e["n"] < 255)
            c_n = E("n < 255", lambda e: e["n"] < 255)
            cons = lambda name: c_len(name) if isarr else c_n
            mk = lambda name, **kw: Field(name, t, arr=arr, packed=packed, args=args, **kw)
            cond = E("n > 1", lambda e: e["n"] > 1)
            off = (lambda b: b + "s[@index]") if isarr else (lambda b: b + "1")
            ofield = lambda b: Field(b + "s", Int(32), arr=("auto",)) if isarr else Field(b + "1", Int(32))
            s = p.add(Struct("S%s%s" % (nm, ak), [
                Field("len", Int(2)), Field("n", Int(8)), ofield("o"), ofield("q"), ofield("r"),
                mk("f0"), mk("f1", opt="auto"), mk("f2", opt=cond, constraint=cons("f2")),
                mk("f3", align=8, constraint=cons("f3")), mk("f4", align=16, opt="auto", constraint=cons("f4")),
                mk("f5", offset=off("o")), mk("f6", offset=off("q"), align=32, opt=cond),
                mk("f7", offset=off("r"), opt="auto", align=3, constraint=cons("f7")), mk("f8", constraint=cons("f8")), Field("z", Int(1))]))

            def sval(ln, n, opts, seed):
                d = {"len": ln, "n": n, "z": seed & 1}
                zero = lambda: [0] * ln if isarr else 0
                sfx = "s" if isarr else "1"
                d.update({"o" + sfx: zero(), "q" + sfx: zero(), "r" + sfx: zero()})
                for i in range(9):
                    o = True
                    if i in (1, 4, 7):
                        o = opts >> {1: 0, 4: 1, 7: 2}[i] & 1
                    elif i in (2, 6):
                        o = n > 1
                    d["f%d" % i] = val(ln if isarr else i, n, seed + i) if o else None
                return d
            svs = [sval(0, 0, 0, 0), sval(1, 2, 7, 1), sval(2, 5, 5, 2), sval(3, 1, 2, 3)]
            h = Struct("H%s%s" % (nm, ak), [Field("k", Int(3)), Field("s", s, opt="auto"), Field("l", s, arr=("auto",)), Field("m", s, arr=("auto",), packed=True), Field("z", Int(1))])
            vals = [{"k": 5, "s": sval(ln, n, o, sd), "l": [], "m": [], "z": 1} for ln in (range(4) if isarr else (0,)) for n in (0, 2, 6) for o in (0, 7) for sd in (0, 1, 2)]
            vals += [{"k": 2, "s": sval(2, 3, o, o), "l": [], "m": [], "z": 0} for o in range(8)]
            vals += [{"k": 1, "s": None, "l": list(x), "m": list(y), "z": 1} for x, y in [((a,), (b, c)) for a in svs[:2] for b in svs for c in svs] + [((svs[1], svs[2]), (svs[3], svs[2], svs[1])), ((), (svs[1],) * 3), ((), (svs[2], svs[2], svs[0]))]]
            if has_offsets(s):
                vals = [deepcopy(v) for v in vals]
            p.case(h, vals)
        # union and choice branches
        a1 = [N] if nm == "pr" else []
        ai = a1          # @index is not allowed here
        pk = packable(t)
        c_n = E("n < 255", lambda e: e["n"] < 255)
        br = lambda cn: [Field("a", t, args=a1), Field("b", t, args=a1, constraint=c_n), Field("c", t, arr=("auto",), args=ai),
                         Field("d", t, arr=("auto",), packed=pk, args=ai, constraint=E("lengthof(d) < 4", lambda e: len(e["d"]) < 4)),
                         Field("e", t, arr=("fixed", E("n", lambda e: e["n"])), args=ai), Field("f", t, arr=("fixed", E("n", lambda e: e["n"])), packed=pk, args=ai)]
        u = p.add(Union("U" + nm, br("U"), params=[("uint8", "n")]))
        fs = br("C")
        c = p.add(Choice("C" + nm, [("uint8", "n")], N, [(["0"], [0], fs[0]), (["1", "5"], [1, 5], fs[1]), (["2"], [2], fs[2]), (["3"], [3], fs[3]), (["4"], [4], fs[4]), (["6"], [6], None)], default=fs[5]))

        def one(n, i, isarr):
            if nm == "pr":
                return {"v": ((1 << (n + 3)) - 1) >> (i % 2), "o": "p" * (i % 3) if n > 4 else None}
            return vs[i % len(vs)]

        def uval(n, b, ln, sd):
            if b in "ab":
                return (b, one(n, sd, False))
            if b in "ef":
                ln = n
            return (b, [one(n, i + sd, True) for i in range(ln)])
        g = Struct("G" + nm, [Field("n", Int(8)), Field("k", Int(3)), Field("u", u, args=[N]), Field("c", c, args=[N]), Field("ua", u, arr=("auto",), args=[N]), Field("up", u, arr=("auto",), packed=True, args=[N])]
                   + [Field("ca", c, arr=("auto",), args=[N])] + [Field("cp", c, arr=("auto",), packed=packable(c), args=[N])] + [Field("z", Int(1))])
        vals = []
        cb = {0: "a", 1: "b", 5: "b", 2: "c", 3: "d", 4: "e", 6: None, 7: "f"}
        for n, b in cb.items():
            cv = lambda ln, sd: (None, None) if b is None else uval(n, b, ln, sd)
            for ub in "abcdef":
                for ln in ((0, 2) if ub in "cd" else (0,)):
                    vals.append({"n": n, "k": 5, "u": uval(n, ub, ln, 1), "c": cv(ln + 1, 2), "ua": [], "up": [], "ca": [], "cp": [], "z": 1})
            allu = [uval(n, ub, 2, i) for i, ub in enumerate("abcdef")]
            vals.append({"n": n, "k": 1, "u": uval(n, "a", 0, 0), "c": cv(1, 0), "ua": allu, "up": allu, "ca": [cv(i, i) for i in range(3)], "cp": [cv(i, i) for i in range(3)], "z": 0})
            vals.append({"n": n, "k": 1, "u": uval(n, "c", 3, 0), "c": cv(3, 1), "ua": allu[:1], "up": [allu[1], allu[1], allu[1]], "ca": [], "cp": [cv(1, 0)] * 3, "z": 0})
        p.case(g, vals)
    return p


def fam_feat0():
    return fam_feat(0)


def fam_feat1():
    return fam_feat(1)


def fam_feat2():
    return fam_feat(2)


def fam_pdeep(tier="quick"):
    """Packed arrays of integral elements: all short sequences over boundary alphabets, and the packing decision for every delta width and length."""
    p = Pkg("fpdp")
    for t in NAMED:
        p.add(t)
    th = tier != "quick"
    W = E("w", lambda e: e["w"])
    types = [Int(1), Int(5), Int(8), Int(8, True), Int(16), Int(32), Int(32, True), Int(33), Int(33, True), Int(61), Int(62), Int(62, True), Int(63), Int(63, True), Int(64), Int(64, True),
             Var("varint16"), Var("varuint16"), Var("varint32"), Var("varuint32"), Var("varint64"), Var("varuint64"), Var("varint"), Var("varuint"), Var("varsize"),
             E8, ES, EV, E64, EI, B8, BV, B64]
    for i, t in enumerate(types):
        k = Field("k", Int(3))
        if isinstance(t, Enum):
            alpha = list(t.by_name)[:4]
            seq = [list(s) for s in seqs(alpha, 4)]
        else:
            lo, hi = t.bounds()
            alpha = []
            for a in (0, 1, hi, lo, hi >> 1, -1, 1 << 61, 3):
                if lo <= a <= hi and a not in alpha and len(alpha) < (6 if th else 5):
                    alpha.append(a)
            seq = [list(s) for s in seqs(alpha, 4)]
            for w in range(0, 64):
                ds = [d for d in ((1 << w) - 1, -(1 << w), -(1 << w) + 1, 1 << w) if lo <= d <= hi]
                for d in ds:
                    for n in list(range(2, 12)) + [16, 17, 40] if th or w < 10 or w > 57 or w % 8 == 7 else (2, 3, 4, 8, 9):
                        seq.append([0, d] * (n // 2) + [0] * (n % 2))
                        if n > 3 and n % 2:
                            seq.append([d] * (n - 1) + [0])
        p.case(Struct("Q%d" % i, [k, Field("v", t, arr=("auto",), packed=True), Field("z", Int(1))]), [{"k": 5, "v": s, "z": 1} for s in seq])
    vals = []
    for w in (1, 2, 7, 8, 31, 33, 62, 63, 64):
        hi = (1 << w) - 1
        for s in seqs([0, hi, hi >> 1], 4):
            vals.append({"w": w, "n": len(s), "u": s, "s": [x - (1 << (w - 1)) for x in s]})
    p.case(Struct("Qd", [Field("w", Int(7)), Field("n", Int(3)), Field("u", Dyn(W), arr=("fixed", E("n", lambda e: e["n"])), packed=True), Field("s", Dyn(W, True), arr=("auto",), packed=True)]), vals)
    # independent contexts of the members of a compound element
    in2 = p.add(Struct("In2", [Field("c", Int(8)), Field("d", Var("varint"))]))
    el = p.add(Struct("El2", [Field("a", Int(16)), Field("b", Int(64, True), opt="auto"), Field("i", in2), Field("q", Int(8), arr=("auto",)), Field("e", E8)]))
    es = [{"a": a, "b": b, "i": {"c": a & 255, "d": d}, "q": q, "e": e} for a, b, d, q, e in
          ((0, None, 0, [], "NONE"), (65535, 0, -1, [1], "RED"), (1, (1 << 63) - 1, 1 << 62, [1, 2, 3], "BIG"), (2, -(1 << 63), -(1 << 63), [255, 0, 255, 0], "NONE"), (3, 5, 7, [9] * 12, "BLUE"))]
    p.case(Struct("Qe", [Field("k", Int(3)), Field("v", el, arr=("auto",), packed=True), Field("z", Int(1))]), [{"k": 5, "v": list(s), "z": 1} for s in seqs(es, 4 if th else 3)])
    un = p.add(Union("Un2", [Field("a", Int(8)), Field("b", Int(8)), Field("c", Var("varuint"), arr=("auto",)), Field("d", in2)]))
    us = [("a", 1), ("a", 255), ("b", 7), ("c", [1, 1, 1, 1, 1, 1, 1, 1, 1]), ("d", {"c": 1, "d": 2})]
    p.case(Struct("Qu", [Field("k", Int(3)), Field("v", un, arr=("auto",), packed=True), Field("z", Int(1))]), [{"k": 5, "v": list(s), "z": 1} for s in seqs(us, 4)] + [{"k": 5, "v": [us[0]] * n + [us[2]] * m, "z": 0} for n in range(12) for m in range(3)])
    # break-even point of compounds
    p.case(Struct("Qb", [Field("v", in2, arr=("auto",), packed=True)]), [{"v": [{"c": (i * x) & 255, "d": i * y} for i in range(n)]} for n in range(14) for x in (0, 1, 20, 127) for y in (0, 1, -63, 1 << 30)])
    return p


XE = Enum("En", Int(8), [("AA", "1", 1, None), ("BB", "4", 4, None), ("CC", "200", 200, None)])
XM = Bitmask("Mk", Int(8), [("RD", "1", 1), ("WR", "2", 2), ("EX", "64", 64)])
XT = {"a": Int(8, True), "b": Int(8), "c": Int(16, True), "d": Int(32, True), "p": Bool(), "q": Bool(), "r": Bool(), "e": XE, "g": XE, "m": XM, "k": XM}


def fam_expr_java(tier="quick"):
    return fam_expr(tier, "java", "fexpj")


def fam_expr_cpp0(tier="quick"):
    return fam_expr(tier, "cpp", "fexpc", 16 if tier == "quick" else 4, 0)


def fam_expr_cpp1(tier="quick"):
    return fam_expr(tier, "cpp", "fexpd", 16 if tier == "quick" else 4, 1)


def fam_expr_cpp2(tier="quick"):
    return fam_expr(tier, "cpp", "fexpe", 16 if tier == "quick" else 4, 2)


def fam_expr_cpp3(tier="quick"):
    return fam_expr(tier, "cpp", "fexpf", 16 if tier == "quick" else 4, 3)


def fam_expr(tier="quick", lang="py", pkg="fexp", mod=1, rem=0):
    """Expressions (all operator trees with one or two operators) where the wire format depends on them: array lengths, bit field
    lengths, optional conditions, constraints, choice selectors, type arguments and functions called from other types."""
    from . import exprs
    p = Pkg(pkg)
    p.add(XE), p.add(XM)
    trees = [exprs.fill(t, {}) for t in exprs.trees(1, exprs.OPS)] + [exprs.fill(t, {}, 2) for t in exprs.trees(2, exprs.OPS)]
    if tier != "quick":
        trees += [exprs.fill(t, {}) for t in exprs.trees(2, exprs.OPS)]
    grid = exprs.grid()
    num = dict(exprs.ENUM)

    def fn(n):
        def f(env):
            try:
                return exprs.value(n, {k: (num[env[k]] if k in "eg" else env[k]) for k in XT if k in env}, lang)
            except exprs.Skip as e:
                raise Unspecified(str(e))
        return f

    def names(n):
        return [n.text] if n.op is None else [x for k in n.kids for x in names(k)]
    inv = {v: k for k, v in exprs.ENUM}
    seen, i = set(), 0
    for n in trees:
        text = n.show()
        if text in seen or n.t not in "ib":
            continue
        seen.add(text)
        vs = sorted(set(names(n)))
        ok = []
        for e in grid:
            try:
                x = exprs.value(n, e, lang)
            except exprs.Skip:
                continue
            base = {v: (inv[e[v]] if v in "eg" else e[v]) for v in vs}
            if (base, x) not in ok:
                ok.append((base, x))
        head = [Field(v, XT[v]) for v in vs]
        ex = E(text, fn(n))
        i += 1
        if i % mod != rem:
            continue
        if n.t == "b":
            vals = [dict(base, o=(9 if x else None)) for base, x in ok]
            p.case(Struct("B%d" % i, head + [Field("o", Int(4), opt=ex), Field("z", Int(1), constraint=E("z == 1 && (%s) == (%s)" % (text, text), lambda e: e["z"] == 1))]),
                   [dict(v, z=1) for v in vals[:8]])
            vals = [dict(base, z=1) for base, x in ok if x]
            p.case(Struct("C%d" % i, head + [Field("z", Int(1), constraint=ex)]), vals[:6])
            ch = Choice("H%d" % i, [(XT[v], v) for v in vs], ex, [(["true"], [True], Field("t", Int(5))), (["false"], [False], Field("f", Str()))])
            p.add(ch)
            p.case(Struct("D%d" % i, head + [Field("x", ch, args=[E(v, lambda e, v=v: e[v]) for v in vs])]),
                   [dict(base, x=(("t", 21) if x else ("f", "no"))) for base, x in ok[:6]])
        else:
            length = [dict(base, l=[3] * x, z=1) for base, x in ok if 0 <= x <= 12][:6]
            if length:
                p.case(Struct("L%d" % i, head + [Field("l", Int(3), arr=("fixed", ex)), Field("z", Int(1))]), length)
            width = [dict(base, v=(1 << x) - 1, w=[-1 << (x - 1), 0], z=1) for base, x in ok if 1 <= x <= 64][:6]
            if width:
                p.case(Struct("W%d" % i, head + [Field("v", Dyn(ex)), Field("w", Dyn(ex, True), arr=("auto",)), Field("z", Int(1))]), width)
            # passed on as an argument of a parameterized type, used by its choice
            vals = [(base, x) for base, x in ok if -1 << 31 <= x < 1 << 31][:6]
            if vals and tier != "quick" or i % 4 == 0 and vals:
                k = vals[0][1]
                par = "par" if k >= 0 else "-par"
                ch = Choice("S%d" % i, [(Int(32, True), "par")], E(par, lambda e, s=1 if k >= 0 else -1: s * e["par"]), [([str(abs(k))], [abs(k)], Field("t", Int(5)))], default=Field("f", Str()))
                p.add(ch)
                p.case(Struct("A%d" % i, head + [Field("x", ch, args=[ex])]), [dict(base, x=(("t", 21) if abs(x) == abs(k) and (x >= 0) == (k >= 0) else ("f", "no"))) for base, x in vals])
    return p


def fam_range(tier="quick"):
    """Integer fields of every width and kind in every position with a setter: range checks at both bounds."""
    p = Pkg("frng")
    widths = range(1, 65) if tier != "quick" else (1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 62, 63, 64)
    leafs = [Int(w) for w in widths] + [Int(w, True) for w in widths] + [Var(k) for k in ("varint16", "varint32", "varint64", "varint", "varuint16", "varuint32", "varuint64", "varuint", "varsize")]
    n = 0
    for i in range(0, len(leafs), 5):
        part = leafs[i:i + 5]
        lo, hi = [t.bounds(())[0] for t in part], [t.bounds(())[1] for t in part]
        names = ["f%d" % k for k in range(len(part))]
        combos = [lo, hi, [0] * len(part), [1 if h >= 1 else 0 for h in hi], [l if k % 2 else h for k, (l, h) in enumerate(zip(lo, hi))]]
        p.case(Struct("Rp%d" % n, [Field(m, t) for m, t in zip(names, part)]), [dict(zip(names, c)) for c in combos])
        p.case(Struct("Ro%d" % n, [Field(m, t, opt="auto") for m, t in zip(names, part)]), [dict(zip(names, c)) for c in combos + [[None] * len(part)]])
        p.case(Struct("Ra%d" % n, [Field(m, t, arr=("auto",), packed=bool(k % 2)) for k, (m, t) in enumerate(zip(names, part))]), [{m: [l, h, 0] for m, l, h in zip(names, lo, hi)}])
        u = p.case(Union("Ru%d" % n, [Field(m, t) for m, t in zip(names, part)]), [(m, x) for m, l, h in zip(names, lo, hi) for x in (l, h)])
        c = Choice("Rh%d" % n, [("uint8", "sel")], E("sel", lambda e: e["sel"]), [([str(k)], [k], Field(m, t)) for k, (m, t) in enumerate(zip(names, part))])
        p.add(c)
        p.case(Struct("Rc%d" % n, [Field("sel", Int(8)), Field("c", c, args=[E("sel", lambda e: e["sel"])]), Field("u", u)]),
               [{"sel": k, "c": (m, x), "u": (names[0], lo[0])} for k, (m, l, h) in enumerate(zip(names, lo, hi)) for x in (l, h)])
        n += 1
    w = E("w", lambda e: e["w"])
    for s in (False, True):
        vals = []
        for k in (range(1, 65) if tier != "quick" else (1, 2, 7, 8, 9, 16, 31, 32, 33, 63, 64)):
            l, h = Int(k, s).bounds(())
            vals += [{"w": k, "v": l, "o": None, "a": [h, l]}, {"w": k, "v": h, "o": l, "a": []}, {"w": k, "v": 0, "o": h, "a": [l]}]
        p.case(Struct("Rd%d" % s, [Field("w", Int(8)), Field("v", Dyn(w, s)), Field("o", Dyn(w, s), opt="auto"), Field("a", Dyn(w, s), arr=("auto",))]), vals)
    return p


def fam_args():
    """Products of field attributes (default value, constraint, optionality, alignment, offset, extension), and of type arguments
    (constant, field, function, nested field, index expressions in each position) with the ways a parameterized field is declared."""
    p = Pkg("farg")
    p.templates = True
    N = lambda e: e["n"]
    for x in (False, True):
        fs, opts = [Field("n", Int(8))], {}
        i = 0
        for init in (False, True):
            for cons in (False, True):
                for opt in (None, "auto", E("n > 1", lambda e: e["n"] > 1)):
                    for al in (None, 8):
                        for off in (False, True):
                            nm = "f%d" % i
                            fs.append(Field(nm, Int(6) if i % 2 else Var("varuint16"), init=E("7") if init else None, opt=opt, align=al, offset="o%d" % i if off else None, extend=x,
                                            constraint=E("%s > 4" % nm, lambda e, nm=nm: e[nm] > 4) if cons else None))
                            opts[nm] = opt
                            i += 1
        offs = [Field("o%d" % k, Int(32)) for k in range(i) if k % 2]
        vals = []
        for n in (0, 2):
            for sd in range(6):
                d = {"n": n}
                d.update({o.name: 0 for o in offs})
                for k, (nm, o) in enumerate(opts.items()):
                    used = o is None or (n > 1 if isinstance(o, E) else (sd + k // 7) % 3 > 0)
                    d[nm] = (7, 63, 5, 8, 33, 6)[(sd + k) % 6] if used else None
                vals.append(d)
        for d in vals:
            d["z"] = 5
        p.case(Struct("At%d" % x, fs[:1] + offs + fs[1:] + [Field("z", Int(3), extend=x)]), vals)
    pa = p.add(Struct("Pab", [Field("v", Dyn(E("b", lambda e: e["b"]))), Field("o", Int(4), opt=E("a > 2", lambda e: e["a"] > 2))], params=[("uint8", "a"), ("uint8", "b")]))
    pc = p.add(Choice("Cab", [("uint8", "a"), ("uint8", "b")], E("a", lambda e: e["a"]), [(["1", "2"], [1, 2], Field("w", Dyn(E("b", lambda e: e["b"]), True)))], default=Field("q", Int(3), arr=("fixed", E("b", lambda e: e["b"])))))
    hd = p.add(Struct("Hx", [Field("x", Int(4)), Field("y", Int(4))]))
    kinds = [("2", lambda e: 2), ("n", N), ("m", lambda e: e["m"]), ("f()", lambda e: e["n"] + 1), ("h.x", lambda e: e["h"]["x"]), ("@index + 1", lambda e: e["@index"] + 1), ("7", lambda e: 7)]

    def child(c, a, b, sd):
        if c:
            return ("w", -1 << (b - 1) if sd % 2 else 0) if a in (1, 2) else ("q", [(sd + k) % 8 for k in range(b)])
        return {"v": ((1 << b) - 1) >> (sd % 2), "o": (sd + 3) % 16 if a > 2 else None}
    hold = []
    for ia, (ta, fa) in enumerate(kinds):
        fs = [Field("n", Int(8)), Field("m", Int(5)), Field("h", hd)]
        how = []
        for ib, (tb, fb) in enumerate(kinds):
            args = [E(ta, fa), E(tb, fb)]
            idx = "@" in ta + tb
            for k, (c, arr, packed, opt) in enumerate([(0, None, False, None), (0, ("auto",), False, None), (0, ("auto",), True, None), (1, None, False, "auto"), (1, ("fixed", E("n", N)), True, None), (1, ("auto",), False, None)]):
                if idx and arr is None:
                    continue
                nm = "p%d%d" % (ib, k)
                fs.append(Field(nm, pc if c else pa, arr=arr, packed=packed, opt=opt, args=args))
                how.append((nm, c, arr, opt, fa, fb))
        vals = []
        for n, m, x, ln, sd in ((1, 3, 1, 0, 0), (2, 1, 5, 1, 1), (3, 9, 2, 3, 2), (4, 2, 3, 2, 5)):
            d = {"n": n, "m": m, "h": {"x": x, "y": 15 - x}}
            env = dict(d)
            for nm, c, arr, opt, fa, fb in how:
                if arr is None:
                    d[nm] = None if opt and sd % 2 else child(c, fa(env), fb(env), sd)
                else:
                    d[nm] = []
                    for k in range(ln if arr[0] == "auto" else n):
                        env["@index"] = k
                        d[nm].append(child(c, fa(env), fb(env), sd + k))
            vals.append(d)
        t = p.case(Struct("Ar%d" % ia, fs, funcs=[("uint8", "f", E("n + 1", lambda e: e["n"] + 1))]), vals)
        hold.append((t, vals))
    # the same inside of another compound that has members of the same names
    for i, (t, vals) in enumerate(hold[1:4]):
        p.case(Struct("Ao%d" % i, [Field("n", Int(8)), Field("m", Int(8)), Field("r", t), Field("rs", t, arr=("auto",)), Field("rp", t, arr=("auto",), packed=True)]),
               [{"n": 99, "m": 77, "r": vals[k], "rs": vals[k + 1:k + 2], "rp": vals[:k][-2:]} for k in range(4)])
    return p


def fam_tree():
    """Object trees for the walker, the tree creator and type information."""
    p = Pkg("ftre")
    p.add(E8), p.add(B8)
    lf = p.add(Struct("Lf", [Field("a", Int(8)), Field("s", Str(), opt="auto")]))
    emp = p.add(Struct("Emp", []))
    un = p.add(Union("Un", [Field("x", Int(8)), Field("l", lf), Field("ls", lf, arr=("auto",)), Field("ts", Str(), arr=("auto",))]))
    ch = p.add(Choice("Ch", [("uint8", "sel")], E("sel", lambda e: e["sel"]),
                      [(["0"], [0], None), (["1"], [1], Field("l", lf)), (["2", "3"], [2, 3], Field("v", Int(16, True), arr=("auto",)))], default=Field("b", Bool())))
    par = p.add(Struct("Par", [Field("q", Int(7)), Field("r", Int(4, True), opt=E("k > i", lambda e: e["k"] > e["i"]))], params=[("uint8", "k"), ("uint32", "i")]))
    dp = p.add(Struct("Dp", [Field("l", lf), Field("n", Int(5, True), arr=("auto",)), Field("us", un, arr=("auto",))]))
    SEL = E("sel", lambda e: e["sel"])
    IDX = E("@index", lambda e: e["@index"])
    L0, L1, L2 = {"a": 0, "s": None}, {"a": 255, "s": "t\u00e9"}, {"a": 7, "s": ""}
    cs = {0: (None, None), 1: ("l", L1), 2: ("v", [-32768, 5]), 3: ("v", []), 9: ("b", True)}

    def pars(n, k):
        return [{"q": 100 + i, "r": -8 + i if k > i else None} for i in range(n)]
    us = [[], [("x", 3)], [("l", L1), ("ls", [L0, L1]), ("ts", ["", "q"])], [("ls", [])]]
    p.case(Struct("Sm", [Field("l", lf), Field("ns", Int(8), arr=("auto",)), Field("o", lf, opt="auto"), Field("sel", Int(8)), Field("c", ch, args=[SEL]),
                         Field("us", un, arr=("auto",)), Field("ps", par, arr=("auto",), args=[SEL, IDX])]),
           [{"l": l, "ns": ns, "o": o, "sel": s, "c": cs[s], "us": u, "ps": pars(k, s)}
            for l, ns, o, s, u, k in [(L0, [], None, 0, us[0], 0), (L1, [1], L0, 1, us[1], 1), (L2, [1, 2, 255], None, 2, us[2], 3), (L1, [], L2, 3, us[3], 2), (L0, [9, 9], L1, 9, us[2], 4)]])
    lss = [[], [L1], [L0, L2, L1]]
    ds = [{"l": L0, "n": [], "us": []}, {"l": L1, "n": [-16, 15, 0], "us": us[2]}]
    p.case(Struct("Tr", [Field("a", Int(16, True)), Field("e", E8), Field("m", B8), Field("o", lf, opt="auto"), Field("ls", lf, arr=("auto",)),
                         Field("nums", Var("varint"), arr=("auto",), opt="auto"), Field("by", Bytes()), Field("ex", Extern()), Field("t", Bool()),
                         Field("ff", Float(64)), Field("fh", Float(16)), Field("u", un), Field("ds", dp, arr=("auto",)), Field("od", dp, opt="auto"),
                         Field("es", emp, arr=("auto",)), Field("me", E8, arr=("auto",)), Field("pk", lf, arr=("auto",), packed=True)]),
           [{"a": a, "e": e, "m": m, "o": o, "ls": ls, "nums": nums, "by": b"\x00\xff", "ex": Ext(5, 3), "t": t, "ff": 0.1, "fh": -1.5, "u": u, "ds": dd, "od": od,
             "es": [{}] * n, "me": me, "pk": ls}
            for a, e, m, o, t, u, me in [(-32768, "RED", 0, None, False, ("x", 255), []), (32767, "BIG", 131, L1, True, ("ls", [L1, L0]), ["RED", "NONE"]), (0, "NONE", 128, L0, True, ("ts", ["a", "b", "c"]), ["BLUE"])]
            for ls, nums, n in zip(lss, (None, [], [-1 << 63, 0, 1]), range(3)) for dd in ([], ds, ds[1:]) for od in (None, ds[1])])
    N = E("n", lambda e: e["n"])
    md = p.add(Struct("Md", [Field("n", Int(8)), Field("ps", par, arr=("auto",), args=[N, IDX]), Field("one", par, args=[N, E("3")])]))

    def m(n, k):
        return {"n": n, "ps": pars(k, n), "one": {"q": n, "r": 7 if n > 3 else None}}
    p.case(Struct("Nst", [Field("n", Int(8)), Field("m", md), Field("ms", md, arr=("auto",))]),
           [{"n": 5, "m": m(1, 2), "ms": []}, {"n": 0, "m": m(9, 3), "ms": [m(4, 1), m(0, 2)]}, {"n": 7, "m": m(0, 0), "ms": [m(2, 3)]}])
    rec = Struct("Rec", [])
    rec.fields = [Field("v", Int(8)), Field("r", rec, opt="auto"), Field("rs", rec, arr=("auto",))]

    def r(v, r=None, *rs):
        return {"v": v, "r": r, "rs": list(rs)}
    p.case(rec, [r(1), r(2, r(3)), r(4, r(5, r(6)), r(7), r(8, r(9))), r(1, None, r(2, None, r(3, None, r(4)))), r(0, r(1, None, r(2), r(3)), r(4, r(5)))])
    return p


from .lang import fam_lang, fam_info      # noqa: E402
