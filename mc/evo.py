"""Evolution of schemas: data of every version of a type read by every other version, and histories of objects that have some of
their extended fields.

A line for a driver (Python: PyDrv below, mc/java_evo/Evo.java, mc/cpp_evo/evo.h):
  id TAB class TAB fields TAB operation...     operations: R<bits>:<hex> read   N default object   s<k>,<bits>:<hex> set field k
  to what an object read from these bits has   x<k> reset optional field k   c copy
Each operation is answered with  ok or bits consumed; flags (present, set, used) of the fields; size; written bits   or  x..."""
import importlib, itertools, os, sys
from copy import deepcopy
from . import zbuild, xlang, py_gen
from .families import E8, BZ
from .bridge import Pkg
from .pool import Res
from .ref import *

HERE = os.path.dirname(os.path.abspath(__file__))
_pkg = {}


def kinds():
    """name -> function(field name, suffix) -> (Field, values in an environment)"""
    pt = Struct("Pt", [Field("x", Int(5)), Field("s", Str())])
    em = Struct("Em", [])
    pr = Struct("Pr", [Field("v", Dyn(E("k + 1", lambda e: e["k"] + 1))), Field("t", Str(), opt=E("k > 1", lambda e: e["k"] > 1))], params=[("uint8", "k")])
    ch = Choice("Ch", [("bool", "s")], E("s", lambda e: e["s"]), [(["true"], [True], Field("a", Int(12))), (["false"], [False], Field("b", Str()))])
    un = Union("Un", [Field("a", Int(11)), Field("s", Str()), Field("p", pt)])
    N = E("n", lambda e: e["n"])
    F = E("f", lambda e: e["f"])
    P = [{"x": 31, "s": ""}, {"x": 1, "s": "q"}]

    def prv(k, i):
        return {"v": i, "t": "t" * i if k > 1 else None}
    K = {
        "i8": lambda n: (Field(n, Int(8), extend=True), lambda e: [255, 0]),
        "s5": lambda n: (Field(n, Int(5, True), extend=True), lambda e: [-16, 7]),
        "vu": lambda n: (Field(n, Var("varuint"), extend=True), lambda e: [300, 0]),
        "bo": lambda n: (Field(n, Bool(), extend=True), lambda e: [True, False]),
        "st": lambda n: (Field(n, Str(), extend=True), lambda e: ["ab", ""]),
        "by": lambda n: (Field(n, Bytes(), extend=True), lambda e: [b"\x80", b""]),
        "fl": lambda n: (Field(n, Float(16), extend=True), lambda e: [1.5, 0.0]),
        "bb": lambda n: (Field(n, Extern(), extend=True), lambda e: [Ext(5, 3), Ext(0, 0)]),
        "en": lambda n: (Field(n, E8, extend=True), lambda e: ["BIG", "NONE"]),
        "bm": lambda n: (Field(n, BZ, extend=True), lambda e: [33, 0]),
        "pt": lambda n: (Field(n, pt, extend=True), lambda e: P),
        "em": lambda n: (Field(n, em, extend=True), lambda e: [{}]),
        "pr": lambda n: (Field(n, pr, args=[N], extend=True), lambda e: [prv(e["n"], 1), prv(e["n"], 0)]),
        "ch": lambda n: (Field(n, ch, args=[F], extend=True), lambda e: [("a", 4095), ("a", 0)] if e["f"] else [("b", "b"), ("b", "")]),
        "un": lambda n: (Field(n, un, extend=True), lambda e: [("a", 2047), ("p", P[1])]),
        "ar": lambda n: (Field(n, Int(9), arr=("auto",), extend=True), lambda e: [[511, 1], []]),
        "pk": lambda n: (Field(n, Int(9), arr=("auto",), packed=True, extend=True), lambda e: [[511, 510, 1], []]),
        "fx": lambda n: (Field(n, Str(), arr=("fixed", N), extend=True), lambda e: [["z"] * e["n"], [""] * e["n"]]),
        "sa": lambda n: (Field(n, pt, arr=("auto",), packed=True, extend=True), lambda e: [P, P[1:]]),
        "oa": lambda n: (Field(n, Int(9), opt="auto", extend=True), lambda e: [257, None]),
        "oc": lambda n: (Field(n, Int(9), opt=F, extend=True), lambda e: [257, 0] if e["f"] else [None]),
        "os": lambda n: (Field(n, pt, opt="auto", extend=True), lambda e: [P[1], None]),
        "oz": lambda n: (Field(n, Int(8), arr=("auto",), opt="auto", extend=True), lambda e: [[1, 2], None]),
        "al": lambda n: (Field(n, Int(3), align=32, extend=True), lambda e: [5, 0]),
        "of": lambda n: (Field(n, Int(8), offset="off", extend=True), lambda e: [129, 0]),
        "co": lambda n: (Field(n, Int(8), constraint=E("%s != 3" % n, lambda e: e[n] != 3), extend=True), lambda e: [4, 2]),
        "in": lambda n: (Field(n, Int(8), init=E("42", lambda e: 42), extend=True), lambda e: [42, 7]),
        "is": lambda n: (Field(n, Str(), init=E('"ini"', lambda e: "ini"), extend=True), lambda e: ["ini", "x"]),
        "dy": lambda n: (Field(n, Dyn(E("n + 1", lambda e: e["n"] + 1)), extend=True), lambda e: [1, 0]),
    }
    # fields that depend on earlier extended fields (the first one is an i8 named by its position)
    A = E("xa", lambda e: e["xa"])
    D = {
        "dp": lambda n: (Field(n, pr, args=[E("xa % 4", lambda e: e["xa"] % 4)], extend=True), lambda e: [prv(e["xa"] % 4, 1), prv(e["xa"] % 4, 0)]),
        "do": lambda n: (Field(n, Int(8), opt=E("xa > 100", lambda e: e["xa"] > 100), extend=True), lambda e: [8] if e["xa"] > 100 else [None]),
        "dc": lambda n: (Field(n, Int(8), constraint=E("%s >= xa" % n, lambda e: e[n] >= e["xa"]), extend=True), lambda e: [e["xa"], 255]),
        "da": lambda n: (Field(n, Int(3), arr=("fixed", E("xa % 3", lambda e: e["xa"] % 3)), extend=True), lambda e: [[5] * (e["xa"] % 3)]),
        "dd": lambda n: (Field(n, Dyn(E("xa % 8 + 1", lambda e: e["xa"] % 8 + 1)), extend=True), lambda e: [1, 0]),
    }
    return K, D, [E8, BZ, pt, em, pr, ch, un]


class Chain:
    """Versions of one type; data: [(version written, value of that version)]."""

    def __init__(self, types, data):
        self.types, self.data = types, data


def ext_chain(p, name, mk):
    """Versions of a structure with 1 and with all of the given extended fields."""
    names = ["xa", "xb", "xc"]
    made = [m(n) for m, n in zip(mk, names)]

    def base():
        return [Field("n", Int(8)), Field("f", Bool()), Field("off", Int(32))]
    types = []
    for k in (1, len(made)):
        fs = base() + [m(n)[0] for m, n in zip(mk[:k], names)]
        if not any(f.offset for f in fs):
            fs[2] = Field("off", Int(32))
        types.append(p.case(Struct("%sV%d" % (name, k), fs), [{}]))
    data = []
    for n, f in ((2, True), (0, False), (2, False)):
        for pick in range(2):
            v = {"n": n, "f": f, "off": 0}
            e = dict(v)
            for m, nm in zip(made, names):
                c = m[1](e)
                v[nm] = e[nm] = c[pick % len(c)]
            data.append(v)
    full = types[-1]
    enc = []
    for v in data:
        for k in range(len(made) + 1):
            enc.append((full, dict(v, **{"#ext": k})))
    return Chain(types, enc)


def removal_chains(p):
    """Versions of types that use an enumeration, of unions and of choices."""
    Ea = p.add(Enum("Ev1", Int(8), [("A", "1", 1, None), ("B", "2", 2, None), ("C", "3", 3, None)]))
    Eb = p.add(Enum("Ev2", Int(8), [("A", "1", 1, None), ("B", "2", 2, "removed"), ("C", "3", 3, "deprecated"), ("D", "4", 4, None)]))
    Ec = p.add(Enum("Ev3", Int(8), [("A", "1", 1, "removed"), ("B", "2", 2, "removed"), ("C", "3", 3, None), ("D", "4", 4, "removed"), ("E", None, 5, None)]))
    out = []
    seqs_ = [list(s) for n in range(4) for s in itertools.product((0, 1, 2), repeat=n)]
    shapes = {
        "Pl": (lambda en: [Field("z", Int(3)), Field("e", en)], lambda en, c: [{"z": 5, "e": x} for x in c]),
        "Op": (lambda en: [Field("z", Int(3)), Field("e", en, opt="auto"), Field("y", en)], lambda en, c: [{"z": 5, "e": x, "y": y} for x in [None] + c for y in c]),
        "Ar": (lambda en: [Field("e", en, arr=("auto",)), Field("z", Int(3))], lambda en, c: [{"e": [c[i] for i in s], "z": 5} for s in seqs_]),
        "Pk": (lambda en: [Field("e", en, arr=("auto",), packed=True), Field("z", Int(3))], lambda en, c: [{"e": [c[i] for i in s], "z": 5} for s in seqs_]),
        "Ex": (lambda en: [Field("z", Int(3)), Field("e", en, extend=True), Field("g", en, arr=("auto",), packed=True, extend=True)], lambda en, c: [{"z": 5, "e": x, "g": [y, x], "#ext": k} for x in c for y in c for k in range(3)]),
    }
    ens = [(1, Ea, ["A", "B", "C"]), (2, Eb, ["A", "C", "D"]), (3, Ec, ["C", "E", "C"])]
    for n, (mk, vals) in shapes.items():
        types = [p.case(Struct("En%sV%d" % (n, i), mk(en)), [{}]) for i, en, _ in ens]
        out.append(Chain(types, [(t, v) for t, (_, en, c) in zip(types, ens) for v in vals(en, c)]))
    # enumerations as selectors and arguments
    types, data = [], []
    for i, en, c in ens:
        cases = [([x], [x], Field("c" + x.lower(), Int(8) if x != "B" else Str())) for x, _, _, _ in en.items if x != "D"]
        ch = p.add(Choice("EcV%d" % i, [(en, "s")], E("s", lambda e: e["s"]), cases, default=None))
        t = p.case(Struct("EsV%d" % i, [Field("s", en), Field("c", ch, args=[E("s", lambda e: e["s"])]), Field("z", Int(3))]), [{}])
        types.append(t)
        for x in c:
            data.append((t, {"s": x, "c": (None, None) if x == "D" else ("c" + x.lower(), 7 if x != "B" else "b"), "z": 5}))
    out.append(Chain(types, data))
    # new cases of a choice without default, new fields of a union
    types, data = [], []
    for i in (1, 2, 3):
        cases = [([str(k)], [k], Field("c%d" % k, [Int(8), Str(), Int(5, True)][k])) for k in range(i)]
        ch = p.add(Choice("CcV%d" % i, [("uint8", "s")], E("s", lambda e: e["s"]), cases))
        t = p.case(Struct("CsV%d" % i, [Field("s", Int(8)), Field("c", ch, args=[E("s", lambda e: e["s"])]), Field("z", Int(3))]), [{}])
        types.append(t)
        data += [(t, {"s": k, "c": ("c%d" % k, [200, "b", -16][k]), "z": 5}) for k in range(i)]
    out.append(Chain(types, data))
    types, data = [], []
    for i in (1, 2, 3):
        un = p.add(Union("UuV%d" % i, [Field("u%d" % k, [Int(8), Str(), Int(5, True)][k]) for k in range(i)]))
        for arr, pk in ((None, False), (("auto",), False), (("auto",), True)):
            t = p.case(Struct("Us%s%sV%d" % ("a" if arr else "p", "k" if pk else "", i), [Field("u", un, arr=arr, packed=pk), Field("z", Int(3))]), [{}])
            types.append(t)
            vs = [("u%d" % k, [200, "b", -16][k]) for k in range(i)]
            data += [(t, {"u": v, "z": 5}) for v in ([[x, y, x] for x in vs for y in vs] + [[]] if arr else vs)]
    for k in range(3):
        tt = types[k::3]
        out.append(Chain(tt, [(t, v) for t, v in data if any(t is x for x in tt)]))
    return out


def package():
    """(package, chains of extended structures, other chains)"""
    if "p" not in _pkg:
        p = Pkg("fevo")
        p.templates = True
        K, D, types = kinds()
        for t in types:
            p.add(t)
        ks = list(K)
        chains = []
        for i in range(len(ks)):
            names = [ks[i], ks[(i + 1) % len(ks)], ks[(i + 11) % len(ks)]]
            if names.count("of") + names.count("al") > 1:
                names[2] = "st"
            chains.append(ext_chain(p, "X" + "".join(x.capitalize() for x in names), [K[x] for x in names]))
        for n, m in D.items():
            chains.append(ext_chain(p, "D" + n.capitalize(), [K["i8"], m, K["st"]]))
            chains.append(ext_chain(p, "D" + n.capitalize() + "b", [K["i8"], K["oa"], m]))
        # an offset kept in an earlier extended field
        chains.append(ext_chain(p, "Dof", [lambda n: (Field(n, Int(32), extend=True), lambda e: [0]), lambda n: (Field(n, Str(), offset="xa", extend=True), lambda e: ["s", ""]), K["sa"]]))
        _pkg["p"] = p, chains, removal_chains(p)
    return _pkg["p"]


# ------------------------------------------------------------------------------------------------ model of one object
class State:
    def __init__(self, t, lang):
        self.t, self.lang = t, lang
        self.v = None
        self.args = {}           # what compound fields were created with (not kept in C++)

    def created(self, f, v):
        if f.args and v.get(f.name) not in (None, "#absent", "#unset"):
            e = self.t.env((), v)
            self.args[f.name] = [a(e) for a in f.args]

    def mismatch(self):
        e = self.t.env((), self.v)
        return self.lang != "cpp" and any(self.args.get(f.name) != [a(e) for a in f.args] for f in self.t.fields if f.args and self.present(f) and self.v[f.name] is not None)

    def total(self):
        return sum(1 for f in self.t.fields if f.extend)

    def fresh(self):
        self.v = {f.name: f.init({}) if f.init is not None else None if f.opt is not None else "#unset" for f in self.t.fields}
        if self.total():
            self.v["#ext"] = self.total()

    def present(self, f):
        ext = [x for x in self.t.fields if x.extend]
        if f not in ext:
            return True
        return ext.index(f) < self.v["#ext"]

    def touch(self, f):
        if f.extend and not self.present(f):
            for x in self.t.fields:
                if x.extend and not self.present(x):
                    self.v[x.name] = x.init({}) if x.init is not None else None if x.opt is not None else "#unset"
            self.v["#ext"] = self.total()

    def flags(self):
        known = "#unset" not in self.v.values()
        out = ""
        for f in self.t.fields:
            x = self.v[f.name]
            out += "-" if not f.extend else "01"[self.present(f)]
            out += "-" if f.opt is None else "01"[x is not None and x != "#absent"]
            ok = known and not (f.extend and not self.present(f))
            out += "-" if f.opt is None else "?" if not ok else "01"[bool(f.used(self.t.env((), self.v), x))]
        return out

    def written(self):
        """(size or None, bits or 'x' or None): None means unspecified."""
        if "#unset" in self.v.values():
            return None, None
        if self.mismatch():
            return None, "x"
        try:
            _, b = encode(self.t, deepcopy(self.v))
        except Reject:
            return None, "x"
        except (Unspecified, TypeError, KeyError, AttributeError, IndexError):
            return None, None
        return str(b.n), "%d:%s" % (b.n, b.bytes().hex())


def field_names(t):
    return [f.name for f in t.fields]


def check_seen(st, got):
    """None or what is wrong with the flags, size and written bits."""
    fl, size, bits = got
    want = st.flags()
    if len(fl) != len(want) or any(w != "?" and w != g for w, g in zip(want, fl)):
        return "flags (present, set, used of %s): %s, expected %s" % (",".join(field_names(st.t)), fl, want)
    ws, wb = st.written()
    if wb is not None and bits != wb:
        return "written: %s, expected %s" % ("refused" if bits == "x" else bits, "to be refused" if wb == "x" else wb)
    if ws is not None and size != ws:
        return "size %s, expected %s" % (size, ws)
    return None


# ------------------------------------------------------------------------------------------------ histories
def bits_text(b, n=None):
    n = b.n if n is None else n
    return "%d:%s" % (n, b.bytes()[:(n + 7) // 8].hex())


def histories(part, tier):
    """[(type, operations)]; an operation: ('R', bytes, bits) | ('N',) | ('s', k, value, bits text, donor) | ('x', k) | ('c',)"""
    p, exts, others = package()
    out = []
    if part == "versions":
        for c in exts + others:
            seen = set()
            for t in c.types:
                for w, v in c.data:
                    b = encode(w, v)[1]
                    if (t.name, b.acc, b.n) in seen:
                        continue
                    seen.add((t.name, b.acc, b.n))
                    out.append((t, [("R", b.bytes(), b.n), ("c",)]))
    if part == "truncated":
        for c in exts + others:
            for t in c.types[-1:] if tier == "quick" else c.types:
                data = c.data if tier != "quick" else c.data[::max(1, len(c.data) // 3)] + c.data[-1:]
                seen = set()
                for w, v in data:
                    b = encode(w, v)[1]
                    if (b.acc, b.n) in seen:
                        continue
                    seen.add((b.acc, b.n))
                    d = b.bytes()
                    out += [(t, [("R", d[:(n + 7) // 8], n)]) for n in range(b.n)]
                    out += [(t, [("R", d + x, 8 * len(d + x))]) for x in (b"\x00", b"\xff\x01", b"\xc3" * 8)]
    if part == "histories":
        for c in exts:
            t = c.types[-1]
            full = [v for w, v in c.data if w is t and v["#ext"] == sum(1 for f in t.fields if f.extend)]
            donors = [encode(t, v)[0] for v in (full[0], full[3])]
            starts = [("N",)]
            for v in donors:
                for k in range(v["#ext"] + 1):
                    b = encode(t, dict(v, **{"#ext": k}))[1]
                    starts.append(("R", b.bytes(), b.n))
            ops = [("c",)]
            for k, f in enumerate(t.fields):
                if f.opt is not None:
                    ops.append(("x", k))
                for v in (donors if f.extend else donors[:1]):
                    if decode(t, encode(t, v)[1].bytes(), encode(t, v)[1].n)[0][f.name] == "#absent":
                        continue                                 # empty at the end of the data: cannot be told from absent
                    ops.append(("s", k, v[f.name], bits_text(encode(t, v)[1]), v))
            for s in starts:
                for h in itertools.product(ops, repeat=2 if tier == "quick" else 3):
                    if h[0][0] == "c" and len(h) > 1 and h[1][0] == "c":
                        continue
                    out.append((t, [s] + list(h)))
    return out


PARTS = ("versions", "truncated", "histories")


def op_text(o):
    return "R%d:%s" % (o[2], o[1].hex()) if o[0] == "R" else "s%d,%s" % (o[1], o[3]) if o[0] == "s" else "x%d" % o[1] if o[0] == "x" else o[0]


def judge(t, ops, answers, lang):
    """None or (index of the operation, what is wrong)."""
    st = State(t, lang)
    for i, (o, a) in enumerate(zip(ops, answers)):
        g = a.split(";")
        if o[0] == "R":
            m = py_gen.dec_model(t, o[1], o[2], ())
            if m is None:
                return None
            if m[0] == "err":
                return None if a[:1] == "x" else (i, "read, although the data have to be refused: %s" % a)
            if a[:1] == "x":
                return i, "refused: %s" % a[1:]
            if g[0] != str(m[2]):
                return i, "%s bits consumed, expected %d" % (g[0], m[2])
            st.v = deepcopy(m[1])
            for f in t.fields:
                st.created(f, st.v)
        else:
            if o[0] == "N":
                st.fresh()
            if o[0] == "c" and "#unset" in st.v.values():
                return None
            if a[:1] == "x":
                return i, "refused: %s" % a[1:]
            if o[0] == "s":
                f = t.fields[o[1]]
                st.touch(f)
                st.v[f.name] = deepcopy(o[2])
                st.created(f, o[4])
            if o[0] == "x":
                f = t.fields[o[1]]
                st.touch(f)
                st.v[f.name] = None
        bad = check_seen(st, g[1:])
        if bad:
            return i, bad
    return None


# ------------------------------------------------------------------------------------------------ drivers
class PyDrv:
    def __init__(self, gen):
        import zserio
        self.z = zserio
        sys.path.insert(0, gen)
        self.api = importlib.import_module("fevo.api")

    def read(self, c, data, n):
        r = self.z.BitStreamReader(data, n)
        o = c.from_reader(r)
        return o, r.bitposition

    def seen(self, o, names):
        s = ""
        for n in names:
            for q in ("present", "set", "used"):
                m = getattr(o, "is_%s_%s" % (n, q), None)
                try:
                    s += "-" if m is None else "01"[bool(m())]
                except Exception:
                    s += "x"
        try:
            size = str(o.bitsizeof())
        except Exception:
            size = "x"
        try:
            o.initialize_offsets()
            w = self.z.BitStreamWriter()
            o.write(w)
            bits = "%d:%s" % (w.bitposition, w.byte_array.hex())
        except Exception:
            bits = "x"
        return ";".join([s, size, bits])

    def run(self, t, ops):
        c = getattr(self.api, t.name)
        names = field_names(t)
        out, o = [], None
        for p in ops:
            head = "ok"
            try:
                if p[0] == "R":
                    o = None
                    o, pos = self.read(c, p[1], p[2])
                    head = str(pos)
                elif p[0] == "N":
                    o = c()
                elif p[0] == "s":
                    n, h = p[3].split(":")
                    d, _ = self.read(c, bytes.fromhex(h), int(n))
                    setattr(o, names[p[1]], getattr(d, names[p[1]]))
                elif p[0] == "x":
                    getattr(o, "reset_" + names[p[1]])()
                elif p[0] == "c":
                    o = deepcopy(o)
            except Exception as e:
                head = "x%r" % e
            out.append(head if head[0] == "x" else head + ";" + self.seen(o, names))
            if head[0] == "x" and o is None:
                break
        return out


def cap(s):
    return s[0].upper() + s[1:]


def cpp_source(types):
    o = ['#include "evo.h"'] + ['#include "fevo/%s.h"' % t.name for t in types] + ["namespace zvf\n{"]
    for t in types:
        fl, se, rs = [], [], []
        for k, f in enumerate(t.fields):
            n = cap(f.name)
            fl += ["s += o.is%sPresent() ? '1' : '0';" % n if f.extend else "s += '-';"]
            fl += ["s += o.is%sSet() ? '1' : '0'; s += o.is%sUsed() ? '1' : '0';" % (n, n) if f.opt is not None else 's += "--";']
            st = "o.set%s(d.get%s());" % (n, n)
            if f.opt is not None:
                st = "if (d.is%sSet()) { %s } else o.reset%s();" % (n, st, n)
                rs.append("case %d: o.reset%s(); return;" % (k, n))
            se.append("case %d: %s return;" % (k, st))
        o.append("template <> struct Acc< ::fevo::%s>\n{\n    typedef ::fevo::%s T;\n    static std::string flags(const T& o)\n    {\n        std::string s;\n        %s\n        return s;\n    }\n    static void set(T& o, int k, const T& d)\n    {\n        switch (k)\n        {\n        %s\n        }\n        throw std::runtime_error(\"set\");\n    }\n    static void reset(T& o, int k)\n    {\n        (void)o;\n        switch (k)\n        {\n        %s\n        default: throw std::runtime_error(\"reset\");\n        }\n    }\n};" % (t.name, t.name, "\n        ".join(fl), "\n        ".join(se), "\n        ".join(rs)))
    return "\n".join(o)


def build(cp, rt, langs=("python", "java", "cpp")):
    d = zbuild.scratch()
    src = d + "/evozs"
    os.makedirs(src, exist_ok=True)
    p = package()[0]
    p.write(src)
    out = {}

    def py():
        zbuild.generate(cp, src, "fevo.zs", "-python", d + "/evopy")
        out["python"] = d + "/evopy"

    def java():
        zbuild.generate(cp, src, "fevo.zs", "-java", d + "/evoj")
        zbuild.javac(d + "/evocls", zbuild.find(d + "/evoj", ".java") + zbuild.find(HERE + "/java_evo", ".java"), rt)
        out["java"] = ":".join([d + "/evocls", rt])

    def cpp():
        gen = d + "/evocpp"
        zbuild.generate(cp, src, "fevo.zs", "-cpp", gen)
        types = [t for t, _, _ in p.cases]
        parts = [types[i::6] for i in range(6)]
        for i, ts in enumerate(parts):
            with open("%s/h%d.cpp" % (gen, i), "w") as f:
                f.write(cpp_source(ts) + "\nFn handler%d(const std::string& n)\n{\n%s\n    return nullptr;\n}\n}\n" % (i, "\n".join('    if (n == "fevo.%s") return &history< ::fevo::%s>;' % (t.name, t.name) for t in ts)))
        with open(gen + "/main.cpp", "w") as f:
            f.write('#include "evo.h"\nnamespace zvf\n{\n' + "".join("Fn handler%d(const std::string& n);\n" % i for i in range(6)) + "Fn handler(const std::string& n)\n{\n    Fn f;\n" + "".join("    f = handler%d(n);\n    if (f) return f;\n" % i for i in range(6)) + '    throw std::runtime_error(n);\n}\n}\nint main(int, char** argv)\n{\n    return zvf::runAll(argv[1], argv[2]);\n}\n')
        flags = ["-std=c++11", "-w", "-O0"]
        objs = zbuild.cpp_runtime_objs(flags, zbuild.CLANG)
        srcs = zbuild.find(gen, ".cpp")
        mine = ["%s/%d.o" % (gen, i) for i in range(len(srcs))]
        zbuild.compile_jobs([(s, flags + ["-I" + gen, "-I" + HERE + "/cpp_evo", "-I" + zbuild.CPP_RT], o) for s, o in sorted(zip(srcs, mine), key=lambda x: -os.path.getsize(x[0]))], zbuild.CLANG)
        zbuild.run([zbuild.CLANG, "-o", gen + "/prog"] + mine + objs, "C++ linker")
        out["cpp"] = gen + "/prog"
    zbuild.parallel(*[f for l, f in (("python", py), ("java", java), ("cpp", cpp)) if l in langs])
    return out


def explore(task):
    lang, part, tier, lo, hi, prog = task
    res = Res()
    hs = histories(part, tier)[lo:hi]
    if lang == "python":
        drv = PyDrv(prog)
        outs = [drv.run(t, ops) for t, ops in hs]
    else:
        lines = ["%d\tfevo.%s\t%s\t%s" % (i, t.name, ",".join(field_names(t)), "\t".join(op_text(o) for o in ops)) for i, (t, ops) in enumerate(hs)]
        tag = "evo%s%s%d" % (lang, part, lo)
        outs = [x.split("\t")[1:] for x in (xlang.run_java(prog, lines, main="Evo", name=tag) if lang == "java" else xlang.run_prog(prog, lines, name=tag))]
    for i, (t, ops) in enumerate(hs):
        res.states += len(ops)
        res.transitions += len(ops)
        bad = judge(t, ops, outs[i], lang)
        if bad:
            what = ops[bad[0]][0] + (t.fields[ops[bad[0]][1]].name if ops[bad[0]][0] in "sx" else "")
            res.bad("%s:%s:%s:%s:%s" % (lang, part, t.name, what, bad[1][:24]), "%s %s: operation %d: %s\nhistory: %s\nanswers: %s" % (lang, t.name, bad[0] + 1, bad[1], "  ".join(op_text(o) for o in ops), outs[i]))
        else:
            res.traces += 1
        if i == 5:
            res.sample({"class": t.name, "history": [op_text(o)[:80] for o in ops], "answers": [a[:100] for a in outs[i]]})
    return res.out()
