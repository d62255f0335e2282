"""Family of schemas with templates, subtypes, constants and several packages."""
from .ref import *
from .bridge import Pkg

GEO = '''package flib.geo;

import flng.*;

const uint8 W = 5;
const uint8 W2 = W + 2;
const Col START = Col.GREEN;
const Fl MASK = Fl.A | Fl.B;

enum bit:3 Col { RED, GREEN = 4, BLUE };
bitmask uint8 Fl { A, B };
subtype varuint32 Num;
subtype Num Num2;
struct Pt { Num x; Col c = START; };
struct Dup { bit:2 v; };

struct Plain<T> { T v; function T get() { return v; } };
struct Opt<T> { bool b; optional T a; T c if b; };
struct Arr<T> { T a[]; packed T p[]; T f[2]; };
choice Ch<T>(uint8 s) on s { case 1: T a; case 2: case 3: T b[]; default: ; };
union Un<T> { T a; T b[]; uint8 z; };
struct Rec<T> { T v; Rec<T> kids[]; };
struct Two<A, B> { A a; B b; Plain<A> pa; Un<B> ub[]; };
struct Hold<P>(uint8 n) { P(n) x; P(n) xs[]; };
choice Sel<E>(E e) on e { case Col.RED: uint8 r; case Col.GREEN: string g; case Col.BLUE: ; };
struct Par<T>(T k) { bit:4 v if k == Col.RED; optional T o; };
struct UsesMain { Local l; flng.Pt p; };
'''
OTHER = '''package flib.other;

const int16 W = 9;
struct Pt { string s; };
struct Oth { Pt p; bit<W> v; };
'''
DUPL = '''package flib.dupl;

struct Dup { string v; };
struct Pt { int8 never; };
const uint8 W2 = 3;
'''
HEAD = '''import flib.geo.*;
import flib.other.*;
import flib.dupl.Dup;
import flib.dupl.W2;

'''


def fam_lang():
    """Template bodies x template arguments, instantiations under other names and from several packages, names that exist in several packages,
    subtypes of everything, constants used in types."""
    from .families import edge_values
    p = Pkg("flng")
    p.head = HEAD
    p.extra = {"flib/geo.zs": GEO, "flib/other.zs": OTHER, "flib/dupl.zs": DUPL}

    def ext(t, pkg="flib.geo", tmpl=None):
        t.pkg, t.tmpl = pkg, tmpl
        return t
    col = ext(Enum("Col", Int(3), [("RED", None, 0, None), ("GREEN", "4", 4, None), ("BLUE", None, 5, None)]))
    fl = ext(Bitmask("Fl", Int(8), [("A", None, 1), ("B", None, 2)]))

    def sub(name, t):
        t.name = t.sub = name
        return ext(t)
    num, num2 = sub("Num", Var("varuint32")), sub("Num2", Var("varuint32"))
    gpt = ext(Struct("Pt", [Field("x", num), Field("c", col, init=E("START", lambda e: "GREEN"))]))
    gdup = ext(Struct("Dup", [Field("v", Int(2))]))
    opt_ = ext(Struct("Pt", [Field("s", Str())]), "flib.other")
    oth = ext(Struct("Oth", [Field("p", opt_), Field("v", Dyn(E("W", lambda e: 9)))]), "flib.other")
    ddup = ext(Struct("Dup", [Field("v", Str())]), "flib.dupl")
    local = p.case(Struct("Local", [Field("q", Int(4, True))]), [{"q": -8}])
    mpt = p.case(Struct("Pt", [Field("b", Int(1))]), [{"b": 1}])
    um = ext(Struct("UsesMain", [Field("l", local), Field("p", mpt)]))
    N = E("n", lambda e: e["n"])
    qp = p.add(Struct("Qp", [Field("v", Dyn(N))], params=[("uint8", "n")]))
    qc = p.add(Choice("Qc", [("uint8", "n")], N, [(["3"], [3], Field("s", Str()))], default=Field("i", Dyn(N, True))))

    # (name in instantiation names, text, type, values)
    args = [("uint8", "uint8", Int(8), [0, 255]), ("bit_3", "bit:3", Int(3), [0, 7, 2]), ("int_5", "int:5", Int(5, True), [-16, 15]), ("int64", "int64", Int(64, True), [-1 << 63, (1 << 63) - 1, -1]),
            ("varuint32", "Num", num, [0, 128, 536870911]), ("varuint32", "Num2", num2, [5, 127]), ("varint", "varint", Var("varint"), [-1 << 63, 0, 64]), ("float16", "float16", Float(16), [1.5, -2.0]),
            ("float64", "float64", Float(64), [1.0, -0.5]), ("bool", "bool", Bool(), [True, False]), ("string", "string", Str(), ["", "\u00e9x"]), ("bytes", "bytes", Bytes(), [b"", b"\x01\xff"]),
            ("extern", "extern", Extern(), [Ext(5, 3), Ext(0, 0)]), ("Col", "Col", col, ["RED", "BLUE", "GREEN"]), ("Fl", "Fl", fl, [0, 3, 1]),
            ("Pt", "flib.geo.Pt", gpt, [{"x": 0, "c": "RED"}, {"x": 200, "c": "BLUE"}]), ("Pt", "flib.other.Pt", opt_, [{"s": ""}, {"s": "ab"}]), ("Pt", "flng.Pt", mpt, [{"b": 0}, {"b": 1}]),
            ("Oth", "Oth", oth, [{"p": {"s": "q"}, "v": 511}, {"p": {"s": ""}, "v": 0}])]
    made = {}

    def tm(kind, a):
        """Model of the instantiation of a template."""
        key = (kind,) + tuple(x[1] for x in a)
        if key in made:
            return made[key]
        n = "_".join([kind] + [x[0] for x in a])
        t = [x[2] for x in a]
        mark = lambda s: ext(s, "flib.geo", (kind, t))
        if kind == "Plain":
            s = Struct(n, [Field("v", t[0])], funcs=[(a[0][1], "get", E("v", lambda e: e["v"]))])
            s.funcs[0][2].t = t[0]
        elif kind == "Opt":
            s = Struct(n, [Field("b", Bool()), Field("a", t[0], opt="auto"), Field("c", t[0], opt=E("b", lambda e: e["b"]))])
        elif kind == "Arr":
            s = Struct(n, [Field("a", t[0], arr=("auto",)), Field("p", t[0], arr=("auto",), packed=True), Field("f", t[0], arr=("fixed", E("2")))])
        elif kind == "Ch":
            s = Choice(n, [("uint8", "s")], E("s", lambda e: e["s"]), [(["1"], [1], Field("a", t[0])), (["2", "3"], [2, 3], Field("b", t[0], arr=("auto",)))], default=None)
        elif kind == "Un":
            s = Union(n, [Field("a", t[0]), Field("b", t[0], arr=("auto",)), Field("z", Int(8))])
        elif kind == "Rec":
            s = Struct(n, [Field("v", t[0])])
            f = Field("kids", s, arr=("auto",))
            s.fields.append(f)
        elif kind == "Two":
            s = Struct(n, [Field("a", t[0]), Field("b", t[1]), Field("pa", tm("Plain", a[:1])), Field("ub", tm("Un", a[1:]), arr=("auto",))])
        elif kind == "Hold":
            s = Struct(n, [Field("x", t[0], args=[N]), Field("xs", t[0], arr=("auto",), args=[N])], params=[("uint8", "n")])
        elif kind == "Sel":
            s = Choice(n, [(col, "e")], E("e", lambda e: e["e"]), [(["Col.RED"], ["RED"], Field("r", Int(8))), (["Col.GREEN"], ["GREEN"], Field("g", Str())), (["Col.BLUE"], ["BLUE"], None)])
        elif kind == "Par":
            s = Struct(n, [Field("v", Int(4), opt=E("k == Col.RED", lambda e: e["k"] == "RED")), Field("o", col, opt="auto")], params=[(col, "k")])
        made[key] = mark(s)
        return s

    def field(name, kind, a, **k):
        f = Field(name, tm(kind, a), **k)
        f.zs = "%s<%s>" % (kind, ", ".join(x[1] for x in a))
        return f

    def root(name, fields, values):
        t = Struct(name, fields)
        lines = ""
        for f in fields:
            keep = f.t.name
            f.t.name = getattr(f, "zs", None) or (f.t.pkg + "." + keep if getattr(f.t, "pkg", None) else keep)
            lines += f.decl()
            f.t.name = keep
        t.decl = lambda: "struct %s\n{\n%s};\n" % (name, lines)
        p.case(t, values)
        return t
    for i, a in enumerate(args):
        x = [a]
        vs = a[3]
        v0, v1 = vs[0], vs[1]
        fs = [Field("n", Int(8)), field("pl", "Plain", x), field("op", "Opt", x), field("ar", "Arr", x), field("ch", "Ch", x, args=[N]), field("un", "Un", x, arr=("auto",)), field("rc", "Rec", x),
              field("pk", "Plain", x, arr=("auto",), packed=True)]
        vals = []
        for n, u, w in ((1, v0, v1), (2, v1, v0), (3, vs[-1], v0), (0, v0, v0)):
            ch = ("a", u) if n == 1 else ("b", [u, w][:n - 1]) if n in (2, 3) else (None, None)
            vals.append({"n": n, "pl": {"v": u}, "op": {"b": n > 1, "a": w if n % 2 else None, "c": u if n > 1 else None}, "ar": {"a": [w, u, w][:n], "p": [u, u, w][:n + 1], "f": [u, w]}, "ch": ch,
                         "un": [("a", u), ("b", [w, w]), ("z", n)][:n], "rc": {"v": u, "kids": [{"v": w, "kids": [{"v": u, "kids": []}]}, {"v": u, "kids": []}][:n]}, "pk": [{"v": u}, {"v": w}, {"v": u}][:n]})
        root("Ra%d" % i, fs, vals)
    # pairs of arguments, and instantiations as arguments
    small = [args[k] for k in (0, 4, 10, 13, 16)]
    small.append(("Plain_int_5", "Plain<int:5>", tm("Plain", [args[2]]), [{"v": -16}, {"v": 3}]))
    small.append(("Un_Plain_bool", "Un<Plain<bool>>", tm("Un", [("Plain_bool", "Plain<bool>", tm("Plain", [args[9]]))]), [("a", {"v": True}), ("b", [{"v": False}]), ("z", 8)]))
    fs, vals = [], []
    for i, a in enumerate(small):
        for j, b in enumerate(small):
            fs.append(field("t%d_%d" % (i, j), "Two", [a, b]))
    for sd in range(4):
        d = {}
        for i, a in enumerate(small):
            for j, b in enumerate(small):
                u, w = a[3][(sd + j) % len(a[3])], b[3][(sd + i) % len(b[3])]
                d["t%d_%d" % (i, j)] = {"a": u, "b": w, "pa": {"v": u}, "ub": [("b", [w, w]), ("a", w)][:sd]}
        vals.append(d)
    root("Rb", fs, vals)
    # subtypes, instantiate, parameterized template arguments, equal names in several packages
    p.raw("instantiate Plain<uint16> Pu16;\nsubtype Plain<uint32> Sp;\nsubtype Qp Qps;\nsubtype Qps Qpss;\nsubtype Ch<uint32> Chs;\nsubtype Col Cols;\nsubtype flib.other.Pt Opt_;\n")
    pu16 = Struct("Pu16", [Field("v", Int(16))], funcs=[("uint16", "get", E("v", lambda e: e["v"]))])
    pu16.tmpl = ("Plain", [Int(16)])
    p.types["Pu16"] = pu16

    def plain(name, t, text, **k):
        f = Field(name, t, **k)
        f.zs = text
        return f
    u32 = ("uint32", "uint32", Int(32), [])
    fs = [Field("n", Int(4)), field("h", "Hold", [("Qp", "Qp", qp)], args=[N]), field("hc", "Hold", [("Qc", "Qc", qc)], args=[N]), plain("s", tm("Sel", [args[13]]), "Sel<Col>", args=[E("cc", lambda e: e["cc"])]),
          plain("pr", tm("Par", [args[13]]), "Par<Cols>", args=[E("Col.RED", lambda e: "RED")], arr=("auto",)), plain("pu", pu16, "Pu16"), plain("pv", pu16, "Plain<uint16>", arr=("auto",), packed=True), plain("sp", tm("Plain", [u32]), "Sp"),
          plain("sq", tm("Plain", [u32]), "Plain<uint32>", opt="auto"), plain("q", qp, "Qps", args=[E("4")]), plain("qq", qp, "Qpss", args=[N], arr=("auto",)), plain("cs", tm("Ch", [u32]), "Chs", args=[N]),
          plain("p0", mpt, "Pt"), Field("p1", gpt), Field("p2", opt_), plain("p3", opt_, "Opt_", arr=("auto",)), Field("o", oth), plain("d1", ddup, "Dup"), Field("d2", gdup), plain("m", num2, "Num2", arr=("auto",), packed=True),
          plain("w1", Int(5, std=False), "bit<flib.geo.W>"), plain("w2", Int(9), "bit<flib.other.W>"), plain("w3", Int(3, True), "int<W2>", arr=("fixed", E("flib.geo.W2", lambda e: 7))), Field("um", um)]
    for f in fs:        # dynamic bit fields of constant length
        if f.name in ("w1", "w2", "w3"):
            f.t = Dyn(E(f.zs[f.zs.index("<") + 1:-1], lambda e, k=f.t.bits: k), f.t.signed)
    fs.insert(1, plain("cc", col, "Cols", init=E("START", lambda e: "GREEN")))
    fs.append(plain("mk", fl, "Fl", init=E("flib.geo.MASK", lambda e: 3)))
    vals = []
    for n, c in ((1, "RED"), (2, "GREEN"), (3, "BLUE"), (4, "GREEN")):
        q = {"v": (1 << n) - 1}
        c3 = ("s", "x") if n == 3 else ("i", -1)
        vals.append({"n": n, "cc": c, "h": {"x": q, "xs": [{"v": 0}, q]}, "hc": {"x": c3, "xs": [c3] * n}, "s": {"RED": ("r", 7), "GREEN": ("g", "gg"), "BLUE": (None, None)}[c],
                     "pr": [{"v": n, "o": c}, {"v": 15, "o": None}], "pu": {"v": 65535 - n}, "pv": [{"v": 65535}, {"v": 0}], "sp": {"v": n}, "sq": {"v": 9} if n % 2 else None, "q": {"v": 15 - n},
                     "qq": [q, {"v": 0}], "cs": ("a", 4294967295) if n == 1 else ("b", [1, 0]) if n < 4 else (None, None), "p0": {"b": n % 2}, "p1": {"x": n, "c": c}, "p2": {"s": "p"}, "p3": [{"s": "r"}],
                     "o": {"p": {"s": "o"}, "v": 511 - n}, "d1": {"v": "dup"}, "d2": {"v": 3}, "m": [128, 536870911, 0], "w1": 31, "w2": 511, "w3": [-4, 3, 0, -1, 1, 2, -2], "um": {"l": {"q": -8}, "p": {"b": 1}}, "mk": n % 4})
    root("Rc", fs, vals)
    return p


def fam_info():
    """Everything type information can tell: attributes of enumeration items, dynamic underlying types, initial values of every type, functions of every result type in every kind of compound, parameters of every type,
    implicit arrays, extended fields of every kind, recursion."""
    p = Pkg("finf")
    p.head = "const uint8 EW = 7;\nconst uint8 MW = 11;\nconst uint64 BW = 18446744073709551615;\nconst uint64 SW = 5;\n\n"
    ed = Enum("Ed", Int(7), [("A", None, 0, None), ("OLD", "3", 3, "deprecated"), ("GONE", None, 4, "removed"), ("Z", "127", 127, None)])
    ed.dynbase = 7
    ed.decl = lambda: Enum.decl(ed).replace("bit:7", "bit<EW>")
    md = Bitmask("Md", Int(11), [("P", None, 1), ("Q", None, 2), ("R", "1024", 1024)])
    md.dynbase = 11
    md.decl = lambda: Bitmask.decl(md).replace("bit:11", "bit<MW>")
    es = Enum("Es", Int(8, True), [("NEG", "-128", -128, None), ("MIN", None, -127, None), ("TOP", "127", 127, None)])
    ev = Enum("Ev", Var("varuint"), [("LOW", None, 0, None), ("HIGH", str((1 << 64) - 1), (1 << 64) - 1, None)])
    mv = Bitmask("Mv", Var("varuint64"), [("LO", None, 1), ("HI", str(1 << 55), 1 << 55)])
    mu = Bitmask("Mu", Int(64), [("LO", None, 1), ("HI", str(1 << 63), 1 << 63)])
    for t in (ed, md, es, ev, mv, mu):
        p.add(t)
    c = lambda text, v: E(text, lambda e, v=v: v)
    n_ = lambda n: E(n, lambda e: e[n])
    inits = [("b", Bool(), "true", True), ("u8", Int(8), "255", 255), ("i8", Int(8, True), "-128", -128), ("u16", Int(16), "2 * 300", 600), ("u32", Int(32), "4294967295", 4294967295), ("i64", Int(64, True), "-9223372036854775808", -1 << 63),
             ("u64", Int(64), "18446744073709551615", (1 << 64) - 1), ("b3", Int(3), "EW", 7), ("vs", Var("varsize"), "1 << 4", 16), ("vu", Var("varuint"), "18446744073709551615", (1 << 64) - 1), ("vi", Var("varint16"), "-16383", -16383),
             ("f16", Float(16), "0.5f", 0.5), ("f32", Float(32), "-1.25f", -1.25), ("f64", Float(64), "1.0e100", 1e100), ("s", Str(), '"a\u00e9\\n"', "a\u00e9\n"), ("e", ed, "Ed.Z", "Z"), ("es", es, "Es.NEG", "NEG"), ("ev", ev, "Ev.HIGH", "HIGH"),
             ("m", md, "Md.P | Md.R", 1025), ("mu", mu, "Mu.HI", 1 << 63), ("mv", mv, "Mv.HI", 1 << 55)]
    vals = {n: v for n, _, _, v in inits}
    p.case(Struct("Inits", [Field(n, t, init=c(x, v)) for n, t, x, v in inits]), [dict(vals), dict(vals, b=False, e="A", s="", m=0, i8=0)])
    # functions of every result type, in structures, choices and unions
    pt = p.add(Struct("Pt", [Field("x", Int(8)), Field("y", Int(8, True))], funcs=[("bool", "pos", E("x > 1 && y > 0", lambda e: e["x"] > 1 and e["y"] > 0)), ("int64", "diff", E("y - x", lambda e: e["y"] - e["x"]))]))
    leaf = [("bo", Bool()), ("u5", Int(5)), ("i32", Int(32, True)), ("u64", Int(64)), ("va", Var("varint")), ("f3", Float(32)), ("f6", Float(64)), ("st", Str()), ("by", Bytes()), ("ex", Extern()), ("ee", ed), ("mm", md), ("pp", pt)]

    def funcs(fs):
        out = []
        for n, t in fs:
            e = n_(n)
            e.t = t
            out.append((t.name, "get" + n.capitalize(), e))
        return out
    v1 = {"bo": True, "u5": 31, "i32": -5, "u64": (1 << 64) - 1, "va": -1 << 63, "f3": 1.5, "f6": -0.1, "st": "x\u00e9", "by": b"\x00\xff", "ex": Ext(5, 3), "ee": "OLD", "mm": 1024, "pp": {"x": 2, "y": 1}}
    v2 = {"bo": False, "u5": 0, "i32": 5, "u64": 0, "va": 0, "f3": -2.0, "f6": 3.0, "st": "", "by": b"", "ex": Ext(0, 0), "ee": "A", "mm": 0, "pp": {"x": 255, "y": -128}}
    nest = funcs(leaf) + [("uint8", "px", E("pp.x", lambda e: e["pp"]["x"])), ("bool", "pf", E("pp.pos()", lambda e: e["pp"]["x"] > 1 and e["pp"]["y"] > 0)),
                          ("uint32", "sum", E("u5 + pp.x * 2", lambda e: e["u5"] + e["pp"]["x"] * 2)), ("bool", "iso", E("ee == Ed.OLD || mm == Md.R", lambda e: e["ee"] == "OLD" or e["mm"] == 1024))]
    p.case(Struct("Fs", [Field(n, t) for n, t in leaf], funcs=nest), [v1, v2])
    p.case(Union("Fu", [Field(n, t) for n, t in leaf], funcs=funcs(leaf)), [(n, v[n]) for n, _ in leaf for v in (v1, v2)])
    # parameters of every type
    par = [(pt if n == "pp" else t, n) for n, t in leaf if not isinstance(t, (Bytes, Extern))]
    pl = [(t if isinstance(t, (Enum, Bitmask, Compound)) else t.name, n) for t, n in par]
    pf = []
    for t, n in par:
        e = n_(n)
        e.t = t
        pf.append((t.name, "p" + n.capitalize(), e))
    pin = p.add(Struct("Pin", [Field("a", Int(4)), Field("o", Int(8), opt=E("bo && ee == Ed.OLD", lambda e: e["bo"] and e["ee"] == "OLD")), Field("l", Int(2), arr=("fixed", E("pp.x % 4", lambda e: e["pp"]["x"] % 4))),
                               Field("k", Int(8), constraint=E("k <= u5 + 10", lambda e: e["k"] <= e["u5"] + 10))], params=pl, funcs=pf))
    nocopy = [f for f in leaf if not isinstance(f[1], (Bytes, Extern))]
    lit = {"bo": c("true", True), "u5": c("EW", 7), "i32": c("-7", -7), "u64": c("1", 1), "va": c("0", 0), "f3": c("0.5f", 0.5), "f6": c("2.5", 2.5), "st": n_("st"), "ee": c("Ed.OLD", "OLD"), "mm": c("Md.Q", 2), "pp": n_("pp")}
    mk = lambda v, a: dict({"a": 3, "o": 9 if a["bo"] and a["ee"] == "OLD" else None, "l": [1, 2, 3][:a["pp"]["x"] % 4], "k": a["u5"] + 10})
    la = {"bo": True, "u5": 7, "ee": "OLD"}
    p.case(Struct("Pout", [Field(n, t) for n, t in nocopy] + [Field("q", pin, args=[n_(n) for _, n in par]), Field("w", pin, args=[lit[n] for _, n in par], arr=("auto",))]),
           [dict({n: v[n] for n, _ in nocopy}, q=mk(v, v), w=[mk(v, dict(la, pp=v["pp"]))] * k) for v, k in ((v1, 2), (v2, 0))])
    # selectors of every type, labels with constants
    for n, t, cases, d in (("Cb", Bool(), [(["true"], [True]), (["false"], [False])], "none"), ("Cu", Int(8), [(["EW", "0x10"], [7, 16]), (["1 + 2"], [3])], None), ("Ci", Int(8, True), [(["-128"], [-128]), (["-1", "127"], [-1, 127])], "f"),
                           ("Ce", ed, [(["A", "OLD"], ["A", "OLD"]), (["Ed.Z"], ["Z"])], "none"), ("Cm", md, [(["P", "Q | R"], [1, 1026]), (["R"], [1024])], None), ("Cl", Int(64), [([str((1 << 64) - 1), "SW", "BW - 1"], [(1 << 64) - 1, 5, (1 << 64) - 2]), (["0", "0x10", "1 + 2", "EW", "4294967296"], [0, 16, 3, 7, 1 << 32])], None)):
        if n == "Cm":
            cases[0] = (["P"], [1])
        ch = Choice(n, [(t if isinstance(t, (Enum, Bitmask)) else t.name, "s")], n_("s"), [(tx, vs, Field("c%d" % i, (Int(5), Str())[i])) for i, (tx, vs) in enumerate(cases)], default=Field("d", Int(16), arr=("auto",)) if d == "f" else d,
                    funcs=[("bool", "sel", E({"Cb": "s", "Ce": "s == Ed.A", "Cm": "s == Md.P"}.get(n, "s == 3"), lambda e, n=n: e["s"] == {"Cb": True, "Ce": "A", "Cm": 1}.get(n, 3)))])
        p.add(ch)
        sv = {"Cb": [True, False], "Cu": [7, 16, 3, 4], "Ci": [-128, -1, 127, 5], "Ce": ["A", "OLD", "Z"], "Cm": [1, 1024, 3], "Cl": [(1 << 64) - 1, 0, 7, 5, (1 << 64) - 2, 16, 3, 1 << 32, 6]}[n]

        def pick(s, cases=cases, d=d):
            for i, (_, vs) in enumerate(cases):
                if s in vs:
                    return ("c%d" % i, (21, "str")[i])
            return ("d", [1, 65535]) if d == "f" else (None, None)
        p.case(Struct("H" + n, [Field("s", t), Field("x", ch, args=[n_("s")]), Field("xs", ch, args=[n_("s")], arr=("auto",))]), [{"s": s, "x": pick(s), "xs": [pick(s)] * k} for k, s in enumerate(sv)])
    # arrays: implicit ones, elements of every type, packed; extended fields of every kind
    p.case(Struct("Imp", [Field("h", Int(8)), Field("t", Int(16), arr=("implicit",))]), [{"h": 1, "t": [1, 2, 65535]}, {"h": 0, "t": []}])
    arrs = [Field("n", Int(3))]
    for i, (nm, t) in enumerate(leaf):
        arrs += [Field("a%d" % i, t, arr=("auto",), packed=i % 2 == 0 and packable(t)), Field("f%d" % i, t, arr=("fixed", E("n % 3 + 1", lambda e: e["n"] % 3 + 1)), opt=("auto", None, E("n > 1", lambda e: e["n"] > 1))[i % 3])]
    av = []
    for k in range(4):
        d = {"n": k}
        for i, (nm, t) in enumerate(leaf):
            x = [v1[nm], v2[nm], v1[nm]]
            d["a%d" % i] = x[:k]
            d["f%d" % i] = x[:k % 3 + 1] if i % 3 == 1 or i % 3 == 2 and k > 1 or i % 3 == 0 and k % 2 else None
        av.append(d)
    p.case(Struct("Arrs", arrs), av)
    exts = [Field("z", Int(8)), Field("x1", Int(4), extend=True, init=c("9", 9)), Field("x2", Str(), extend=True, opt="auto"), Field("x3", Int(7), extend=True, arr=("auto",), packed=True), Field("x4", pt, extend=True, opt=E("z > 1", lambda e: e["z"] > 1)),
            Field("x5", Dyn(E("z % 8 + 1", lambda e: e["z"] % 8 + 1)), extend=True, constraint=E("x5 != 1", lambda e: e["x5"] != 1)), Field("x6", Int(16), extend=True, align=32)]
    full = {"z": 2, "x1": 9, "x2": "t", "x3": [1, 2, 100], "x4": {"x": 1, "y": 2}, "x5": 7, "x6": 500}
    p.case(Struct("Exts", exts), [full, dict(full, z=1, x4=None, x2=None, x5=0)])
    rec = Union("Ru", [Field("v", Int(8))], funcs=[("uint8", "get", E("v", lambda e: e["v"]))])
    rec.fields.append(Field("kids", rec, arr=("auto",)))
    p.case(rec, [("v", 7), ("kids", [("v", 1), ("kids", []), ("kids", [("v", 255)])])])
    return p
