"""Which schemas the compiler's front end accepts.

Every family enumerates all schemas of one rule of the language: the dimensions of the rule are finite lists and the verdict of a
schema is computed from the rule as documented in doc/ZserioLanguageOverview.md (None where the documentation leaves it open; then
only "accepted, or refused with a located message" is judged). The schemas are given to the tool built from /repo, in one process,
without any generator option. `line` is where the refusal has to point."""
import base64, itertools, os, re, subprocess
from . import zbuild
from .pool import Res

HEAD = "package f;\n"


class Case:
    def __init__(self, key, text, ok, line=None, files=None, opts="-allowImplicitArrays", main="f.zs", maxline=None):
        self.key, self.ok, self.opts, self.main = key, ok, opts, main
        self.files = dict(files or {})
        self.files.setdefault("f.zs", text if isinstance(text, bytes) else text.encode("utf8"))
        self.line = line


def c(key, text, ok, mark=None, **kw):
    """mark: text whose (last) line the refusal has to point to."""
    text = HEAD + text
    line = text[:text.rindex(mark)].count("\n") + 1 if mark else None
    return Case(key, text, ok, line, **kw)


# ------------------------------------------------------------------------------------------------ value ranges
def int_types(tier):
    out = [("int%d" % n, -(1 << n - 1), (1 << n - 1) - 1) for n in (8, 16, 32, 64)]
    out += [("uint%d" % n, 0, (1 << n) - 1) for n in (8, 16, 32, 64)]
    ns = range(1, 65) if tier == "thorough" else (1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 62, 63, 64)
    out += [("int:%d" % n, -(1 << n - 1), (1 << n - 1) - 1) for n in ns]
    out += [("bit:%d" % n, 0, (1 << n) - 1) for n in ns]
    out += [("varint16", -16383, 16383), ("varint32", -(2 ** 28 - 1), 2 ** 28 - 1), ("varint64", -(2 ** 56 - 1), 2 ** 56 - 1), ("varint", -2 ** 63, 2 ** 63 - 1)]
    out += [("varuint16", 0, 2 ** 15 - 1), ("varuint32", 0, 2 ** 29 - 1), ("varuint64", 0, 2 ** 57 - 1), ("varuint", 0, 2 ** 64 - 1), ("varsize", 0, 2 ** 31 - 1)]
    return out


def lits(v):
    s, a = "-" if v < 0 else "", abs(v)
    return [s + str(a), s + hex(a), s + bin(a)[2:] + "b"] + [s + "0%o" % a]


def ranges(tier):
    for t, lo, hi in int_types(tier):
        for v in sorted({lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, 2 ** 64, -2 ** 63 - 1}):
            ok = lo <= v <= hi
            forms = lits(v) if tier == "thorough" else [lits(v)[hash_(t, v) % 4]]
            for s in forms:
                k = "%s=%s" % (t, s)
                yield c("const:" + k, "const %s\nCC = %s;\n" % (t, s), ok, "CC =")
                yield c("default:" + k, "struct TT\n{\n    %s aa = %s;\n};\n" % (t, s), ok, "aa =")
                yield c("subtype-default:" + k, "subtype %s ST;\nstruct TT\n{\n    ST aa = %s;\n};\n" % (t, s), ok, "aa =")
                yield c("enum:" + k, "enum %s EE\n{\n    AA = %s\n};\n" % (t, s), ok, "AA =")
                yield c("bitmask:" + k, "bitmask %s BB\n{\n    AA = %s\n};\n" % (t, s), ok and lo == 0, "AA =" if lo == 0 else None)
    for b in ("bool", "string", "float16", "float32", "float64", "bytes", "extern", "SS"):
        yield c("enum-base:" + b, "struct SS {};\nenum %s EE\n{\n    AA\n};\n" % b, False)
        yield c("bitmask-base:" + b, "struct SS {};\nbitmask %s EE\n{\n    AA\n};\n" % b, False)
    for n in range(0, 70):
        for b in ("bit", "int"):
            yield c("width:%s:%d" % (b, n), "struct TT\n{\n    %s:%d aa;\n};\n" % (b, n), 1 <= n <= 64, "aa;")
            yield c("width:%s<%d>" % (b, n), "struct TT\n{\n    %s<%d> aa;\n};\n" % (b, n), 1 <= n <= 64, "aa;")


def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


def sequences(tier):
    """All lists of up to three (thorough: four) enumeration items / bitmask values, implicit or explicit."""
    for t, hi, vals in (("bit:2", 3, (None, 0, 1, 2, 3)), ("uint8", 255, (None, 0, 1, 254, 255)), ("bit:64", 2 ** 64 - 1, (None, 0, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1)), ("int8", 127, (None, -1, 0, 126, 127)), ("varuint16", 32767, (None, 0, 1, 32766, 32767)), ("int:1", 0, (None, -1, 0, 1))):
        for n in range(1, 4 if tier == "quick" else 5):
            for seq in itertools.product(vals, repeat=n):
                body = ",\n".join("    I%d%s" % (i, "" if v is None else " = %d" % v) for i, v in enumerate(seq))
                got, prev, bad = [], -1, None
                for i, v in enumerate(seq):
                    v = prev + 1 if v is None else v
                    if bad is None and (v in got or v > hi):
                        bad = i
                    got.append(v)
                    prev = v
                dup_first = None
                yield c("enum-items:%s:%s" % (t, seq), "enum %s EE\n{\n%s\n};\n" % (t, body), bad is None)
                if t[:3] == "int":
                    continue
                got, prev, bad, zero = [], 0, None, False
                for i, v in enumerate(seq):
                    if v is None:
                        zero = zero or i > 0 and prev == 0          # what follows an explicit zero is left open
                        v = 1 if i == 0 else 1 << prev.bit_length()
                    if bad is None and (v in got or v > hi):
                        bad = i
                    got.append(v)
                    prev = v
                yield c("bitmask-values:%s:%s" % (t, seq), "bitmask %s EE\n{\n%s\n};\n" % (t, body), None if zero else bad is None)


# ------------------------------------------------------------------------------------------------ types of expressions
# kind -> expressions of the kind; '!' marks constants
KINDS = {
    "I": ["3", "ii", "CI"], "F": ["1.5", "ff"], "B": ["true", "bb"], "S": ["\"x\"", "ss", "CS"], "E": ["E1.AA", "ee"], "E'": ["E2.AA"],
    "M": ["M1.AA", "mm"], "M'": ["M2.AA"], "C": ["st"], "C'": ["su"], "A": ["ar"], "Y": ["by"], "X": ["ex"], "U": ["nope"],
}
CONST = ("3", "CI", "1.5", "true", "\"x\"", "CS", "E1.AA", "E2.AA", "M1.AA", "M2.AA")
PRE = """const uint8 CI = 3;
const string CS = "c";
enum uint8 E1 { AA, AB };
enum uint8 E2 { AA, AC };
bitmask uint8 M1 { AA, AB };
bitmask uint8 M2 { AA, AC };
struct S1 { uint8 s1; };
struct S2 { uint8 s2; };
"""
FIELDS = "    uint8 ii;\n    float32 ff;\n    bool bb;\n    string ss;\n    E1 ee;\n    M1 mm;\n    S1 st;\n    S2 su;\n    uint8 ar[];\n    bytes by;\n    extern ex;\n"
TYPES = {"bool": "B", "uint8": "I", "varint": "I", "float32": "F", "string": "S", "E1": "E", "E2": "E'", "M1": "M", "S1": "C", "bytes": "Y", "extern": "X"}


def assignable(target, kind):
    """Is a value of kind assignable to a variable of the type kind?"""
    if kind is None or target is None:
        return None
    return target == kind or target == "F" and kind == "I"


def k_unary(op, k):
    """Kind of `op x`; False refused, None open."""
    if k is False or k == "U":
        return False
    if op == "!":
        return "B" if k == "B" else False
    if op in "+-":
        return k if k in ("I", "F") else False
    if op == "~":
        return k if k in ("I", "M", "M'") else False
    if op == "lengthof":
        return "I" if k in ("A", "S", "Y") else False
    if op == "valueof":
        return "I" if k in ("E", "E'", "M", "M'") else False
    if op == "numbits":
        return "I" if k == "I" else False


def k_binary(op, a, b, ca=False, cb=False):
    if "U" in (a, b) or a is False or b is False:
        return False
    if op in ("+", "-", "*", "/", "%"):
        if op == "+" and a == b == "S":
            return "S" if ca and cb else False
        if a in ("I", "F") and b in ("I", "F"):
            if op == "%" and "F" in (a, b):
                return None
            return "F" if "F" in (a, b) else "I"
        return False
    if op in ("<<", ">>"):
        return "I" if a == b == "I" else False
    if op in ("&", "|", "^"):
        if a == b and a in ("I", "M", "M'"):
            return a
        return None if a[0] == b[0] == "M" else False
    if op in ("&&", "||"):
        return "B" if a == b == "B" else False
    if op in ("<", "<=", ">", ">="):
        if a == b == "I":
            return "B"
        return None if a[0] == b[0] or a in ("I", "F") and b in ("I", "F") else False
    if op in ("==", "!="):
        if a == b:
            return "B" if a in ("I", "B", "E", "E'", "M", "M'") else None
        return None if a[0] == b[0] or a in ("I", "F") and b in ("I", "F") else False
    if op == "isset":
        return "B" if a == b and a[0] == "M" else False


def k_ternary(q, a, b):
    if "U" in (q, a, b) or q != "B":
        return False
    if a == b:
        return a if a not in ("A",) else None
    return None if a in ("I", "F") and b in ("I", "F") else False


BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||", "<", "<=", ">", ">=", "==", "!=", "isset"]
UN = ["!", "+", "-", "~", "lengthof", "valueof", "numbits"]


def un(op, x):
    return "%s(%s)" % (op, x) if op.isalpha() else op + x


def bi(op, x, y):
    return "isset(%s, %s)" % (x, y) if op == "isset" else "%s %s %s" % (x, op, y)


def fn(rt, e):
    return PRE + "struct TT\n{\n" + FIELDS + "    function %s gg()\n    {\n        return %s; // here\n    }\n};\n" % (rt, e)


def verdict(rk, k):
    return False if k is False or k == "U" else None if k is None else assignable(rk, k)


def operators(tier):
    rts = [("bool", "B"), ("uint8", "I"), ("float32", "F"), ("string", "S"), ("E1", "E"), ("M1", "M"), ("S1", "C")]
    flat = [(k, x) for k, xs in KINDS.items() for x in xs]
    for k, x in flat:
        for rt, rk in rts + [("E2", "E'"), ("M2", "M'"), ("S2", "C'"), ("bytes", "Y"), ("extern", "X"), ("varint", "I"), ("float64", "F"), ("bit:3", "I")]:
            yield c("return:%s:%s" % (rt, x), fn(rt, x), verdict(rk, k), "// here")
        for op in UN:
            for rt, rk in rts:
                yield c("unary:%s:%s" % (rt, un(op, x)), fn(rt, un(op, x)), verdict(rk, k_unary(op, k)), "// here")
    reps = [(k, x) for k, xs in KINDS.items() for x in (xs if tier == "thorough" or k == "S" else xs[-1:])]
    for op in BIN:
        for (ka, a), (kb, b) in itertools.product(reps, repeat=2):
            r = k_binary(op, ka, kb, a in CONST, b in CONST)
            for rt, rk in rts:
                if tier == "quick" and rk != (r or "B") and hash_(op, a, b, rk) % 5:
                    continue
                yield c("binary:%s:%s" % (rt, bi(op, a, b)), fn(rt, bi(op, a, b)), verdict(rk, r), "// here")
    for (kq, q) in reps:
        for (ka, a), (kb, b) in itertools.product(reps, repeat=2):
            if kq != "B" and (ka, kb) not in (("I", "I"), ("S", "S")):
                continue
            for rt, rk in rts:
                e = "%s ? %s : %s" % (q, a, b)
                yield c("ternary:%s:%s" % (rt, e), fn(rt, e), verdict(rk, k_ternary(kq, ka, kb)), "// here")
    # one operator under another: the kind of the inner expression is what the outer one sees
    small = [("I", "ii"), ("F", "ff"), ("B", "bb"), ("M", "mm"), ("E", "ee")]
    for o in UN:
        for op in BIN:
            for (ka, a), (kb, b) in itertools.product(small, repeat=2):
                r = k_binary(op, ka, kb)
                w = None if r is None else k_unary(o, r)
                rt = {"B": "bool", "I": "uint8", "F": "float32", "M": "M1"}.get(w, "bool")
                e = un(o, "(%s)" % bi(op, a, b))
                yield c("nested:%s:%s" % (rt, e), fn(rt, e), verdict(w or "B", w), "// here")


# ------------------------------------------------------------------------------------------------ clauses
def clauses(tier):
    """Every clause that takes an expression, with an expression of every kind."""
    flat = [(k, x) for k, xs in KINDS.items() for x in xs] + [("I", "later"), ("B", "laterB"), ("I", "self"), ("I", "0"), ("I", "-1"), ("I", "64"), ("I", "65"), ("I", "255"), ("I", "256"), ("I", "2147483647"), ("I", "2147483648"), ("I", "9223372036854775808"), ("I", "ii + 1"), ("I", "CI + 1"), ("B", "ii == 1"), ("I", "st.s1"), ("I", "ar[0]"), ("I", "gg()"), ("B", "gb()"), ("U", "st.nope"), ("U", "E1.nope"), ("U", "M1.nope"), ("U", "ii.nope"), ("U", "gn()"), ("U", "ii()"), ("U", "ii[0]"), ("U", "ar[bb]"), ("U", "E1"), ("U", "S1"), ("U", "nope.AA"), ("I", "valueof(E1.AB)")]
    late = ("later", "laterB", "self")
    nonconst = [x for _, x in flat if x not in CONST and not re.fullmatch(r"-?\d+|CI \+ 1|valueof\(E1.AB\)", x)]

    def struct(field, tail=""):
        return PRE + "struct TT\n{\n" + FIELDS + field + "    uint8 later;\n    bool laterB;\n    function uint8 gg()\n    {\n        return ii;\n    }\n    function bool gb()\n    {\n        return bb;\n    }\n};\n" + tail

    def num(x):
        m = {"CI": 3, "CI + 1": 4, "valueof(E1.AB)": 1}
        return m[x] if x in m else int(x) if re.fullmatch(r"-?\d+", x) else None
    for k, x in flat:
        v, fail = num(x), k == "U"
        call = x in ("gg()", "gb()")
        # alignment: a positive integer
        ok = False if fail or k != "I" or x in nonconst else None if v is None or not x.isdigit() else 0 < v < 2 ** 31
        yield c("align:" + x, struct("align(%s):\n    uint8 self;\n" % x), False if v is not None and v <= 0 else ok, "align(" if not fail else None)
        # array length: any integer that is known before
        ok = False if fail or k != "I" or x in late else None if call or v is not None and not 0 <= v < 2 ** 31 else True
        yield c("array-length:" + x, struct("    uint8\n    self[%s];\n" % x), ok, "self[")
        # optional clause: a boolean known before
        ok = False if fail or k != "B" or x in late else None if call else True
        yield c("if:" + x, struct("    uint8\n    self if %s;\n" % x), ok, "self if")
        # constraint: a boolean that may use the field itself
        ok = False if fail or k != "B" or x in ("later", "laterB") else None if call else True
        yield c("constraint:" + x, struct("    uint8\n    self : %s;\n" % x), ok, "self :")
        # dynamic bit field: an integer known before, in 1 .. 64
        for b in ("bit", "int"):
            ok = False if fail or k != "I" or x in late else None if call else (1 <= v <= 64 if v is not None else True)
            yield c("%s<>:%s" % (b, x), struct("    %s<%s> self;\n" % (b, x)), ok, "> self")
        # default values: constants of the type
        for t, tk in TYPES.items():
            ok = False if fail or k == "A" or x in nonconst else assignable(tk, k)
            if tk in ("C", "Y", "X"):
                ok = False
            if ok and tk == "I" and v is not None:
                ok = (0 <= v <= 255) if t == "uint8" else -2 ** 63 <= v < 2 ** 63
            if call:
                ok = None if ok else ok
            yield c("default:%s=%s" % (t, x), struct("    %s\n    self = %s;\n" % (t, x)), ok, "self =")
        # constants of the package
        for t, tk in TYPES.items():
            ok = False if fail or x in nonconst else assignable(tk, k)
            if tk in ("C", "Y", "X"):
                ok = False
            if ok and tk == "I" and v is not None:
                ok = (0 <= v <= 255) if t == "uint8" else -2 ** 63 <= v < 2 ** 63
            yield c("const:%s=%s" % (t, x), PRE + "const %s\nKK = %s;\n" % (t, x), ok)
        # enumeration item, bitmask value
        ok = False if fail or k != "I" or x in nonconst else 0 <= v <= 255
        yield c("enum-value:" + x, PRE + "enum uint8 EE\n{\n    QQ = %s\n};\n" % x, ok, "QQ =")
        yield c("bitmask-value:" + x, PRE + "bitmask uint8 EE\n{\n    QQ = %s\n};\n" % x, ok, "QQ =")
        # strings: SQL constraints, topics, rules
        ok = k == "S" and x in CONST
        yield c("sql-field:" + x, PRE + "sql_table TT\n{\n    uint8 pk\n    sql %s;\n};\n" % x, ok, "sql " + x)
        yield c("sql-table:" + x, PRE + "sql_table TT\n{\n    uint8 pk;\n    sql\n    %s;\n};\n" % x, ok, x + ";")
        yield c("topic:" + x, PRE + "pubsub TT\n{\n    topic(\n        %s) S1 aa;\n};\n" % x, ok, x + ")")
        yield c("rule:" + x, PRE + "rule_group RR\n{\n    rule\n        %s;\n};\n" % x, ok, x + ";")
        # arguments
        for t, tk in (("uint8", "I"), ("bool", "B"), ("float32", "F"), ("string", "S"), ("E1", "E"), ("M1", "M"), ("S1", "C"), ("extern", "X"), ("bytes", "Y"), ("varuint", "I")):
            ok = False if fail or x in late else assignable(tk, k)
            if ok and (call or tk == "I" and v is not None and not 0 <= v <= 255):
                ok = None
            yield c("argument:%s(%s)" % (t, x), struct("    PP(\n        %s) self;\n" % x, "struct PP(%s pa) { uint8 pb; };\n" % t), ok, x + ")")
            yield c("array-argument:%s(%s)" % (t, x), struct("    PP(\n        %s) self[];\n" % x, "struct PP(%s pa) { uint8 pb; };\n" % t), ok, x + ")")
    # offsets: an unsigned integer field of fixed size, by name only
    fts = {"uint8": True, "uint16": True, "uint32": True, "uint64": True, "bit:5": True, "bit:64": True, "int8": False, "int16": False, "int:7": False, "varuint": False, "varuint32": False, "varsize": False, "varint": False, "bool": False, "float32": False, "string": False, "bytes": False, "extern": False, "E1": False, "M1": False, "S1": False, "bit<3>": None, "SU": True, "SI": False}
    for t, ok in fts.items():
        subs = "subtype uint32 SU;\nsubtype int32 SI;\n"
        yield c("offset:" + t, PRE + subs + "struct TT\n{\n    %s\n    oo;\noo:\n    uint8 data;\n};\n" % t, ok, "oo:")
        yield c("offset-later:" + t, PRE + subs + "struct TT\n{\noo:\n    uint8 data;\n    %s oo;\n};\n" % t, False, "oo:")
        yield c("offset-member:" + t, PRE + subs + "struct HH\n{\n    %s oo;\n};\nstruct TT\n{\n    HH hh;\nhh.oo:\n    uint8 data;\n};\n" % t, ok, "hh.oo:")
        yield c("offset-parameter:" + t, PRE + subs + "struct TT(%s oo)\n{\noo:\n    uint8 data;\n};\n" % t, False if t[:3] != "bit" else False if ":" not in t else False, None)
        yield c("offset-parameter-member:" + t, PRE + subs + "struct HH\n{\n    %s oo;\n};\nstruct TT(HH hh)\n{\nhh.oo:\n    uint8 data;\n};\n" % t, ok, "hh.oo:")
        for arr, aok in (("[]", True), ("[3]", True), (" if true", None)):
            for use, uok in (("oo[@index]", True), ("oo", False), ("oo[0]", False), ("oo[@index + 1]", False), ("oo[ii]", False)):
                for data, dok in (("data[]", True), ("data[3]", True), ("data", False)):
                    k = None if arr == " if true" else aok and uok and dok and ok
                    if arr == " if true" and use != "oo":
                        k = False
                    yield c("indexed-offset:%s%s:%s:%s" % (t, arr, use, data), PRE + subs + "struct TT\n{\n    uint8 ii;\n    %s oo%s;\n%s:\n    uint8 %s;\n};\n" % (t, arr, use, data), False if k is False else k, None)
        yield c("indexed-offset-packed:" + t, PRE + subs + "struct TT\n{\n    packed %s oo[];\noo[@index]:\n    uint8 data[];\n};\n" % t, False)
        yield c("indexed-offset-implicit:" + t, PRE + subs + "struct TT\n{\n    %s oo[];\noo[@index]:\n    implicit uint8 data[];\n};\n" % t, False)
        yield c("offset-union:" + t, PRE + "union TT\n{\n    uint8 oo;\noo:\n    %s data;\n};\n" % ("uint8" if t in ("SU", "SI") else t), False)
    for e in ("1", "CI", "ii + 1", "-ii", "(ii)", "gg()", "ii & 1", "ii << 1", "ii == 1", "bb && bb", "true ? ii : ii", "lengthof(ar)", "valueof(ee)", "numbits(ii)", "isset(mm, M1.AA)", "@index", "ar[@index]", "nope", "st", "st.nope"):
        yield c("offset-expression:" + e, struct("%s:\n    uint8 self;\n" % e), False)
    yield c("offset-expression:ii", struct("ii:\n    uint8 self;\n"), None)
    yield c("offset-expression:st.s1", struct("st.s1:\n    uint8 self;\n"), True)
    yield c("offset-twice", struct("st.s1:\n    uint8 self;\nst.s1:\n    uint8 that;\n"), False)
    # fields used as offsets are in no expression
    for use in ("if oo == 1", ": oo == 1", "[oo]"):
        for first in (True, False):
            o, u = "oo:\n    uint8 data;\n", "    uint8 uu%s;\n" % (use if use[0] == "[" else " " + use)
            yield c("offset-used:%s:%s" % (use, first), "struct TT\n{\n    uint8 oo;\n%s};\n" % (o + u if first else u + o), False)
    yield c("offset-used:function", "struct TT\n{\n    uint8 oo;\noo:\n    uint8 data;\n    function uint8 gg()\n    {\n        return oo;\n    }\n};\n", False)
    yield c("offset-used:argument", "struct PP(uint8 pp) { uint8 pq; };\nstruct TT\n{\n    uint8 oo;\noo:\n    uint8 data;\n    PP(oo) uu;\n};\n", False)
    yield c("offset-used:bit", "struct TT\n{\n    uint8 oo;\noo:\n    uint8 data;\n    bit<oo> uu;\n};\n", False)
    # @index
    for pos, ok in (("PP(@index) self[]", True), ("PP(@index) self[3]", True), ("PP(@index) self", False), ("uint8 self[@index]", False), ("uint8 self[] if @index == 1", False), ("uint8 self[] : @index == 1", False), ("uint8 self = @index", False), ("PP(ar[@index]) self[]", True), ("PP(ar[@index + 1]) self[]", None), ("bit<@index> self", False), ("packed PP(@index) self[]", True)):
        yield c("index:" + pos, struct("    %s;\n" % pos, "struct PP(uint32 pp) { uint8 pq; };\n"), ok)
    yield c("index:function", struct("", "struct QQ\n{\n    uint8 qa[];\n    function uint8 gq()\n    {\n        return @index;\n    }\n};\n"), False)


# ------------------------------------------------------------------------------------------------ kinds of fields
FIXED = {"int8": 1, "uint8": 1, "int16": 1, "uint16": 1, "int32": 1, "uint32": 1, "int64": 1, "uint64": 1, "bit:8": 1, "bit:16": 1, "int:24": 1, "int:32": 1, "float16": 1, "float32": 1, "float64": 1}
OTHER = ["bit:1", "bit:7", "int:9", "bit:63", "varint", "varuint16", "varsize", "bool", "string", "bytes", "extern", "bit<3>", "bit<8>", "int<ii>", "S1", "UU", "CH(ii)", "E1", "M1", "SX", "SS1", "SB"]
FPRE = PRE + "union UU { uint8 ua; string ub; };\nchoice CH(uint8 cs) on cs { case 1: uint8 ca; };\nsubtype uint16 SX;\nsubtype S1 SS1;\nsubtype bool SB;\n"


def fields(tier):
    arrs = {"%s": 1, "%s[]": 1, "%s[3]": 1, "%s[ii]": 1, "implicit %s[]": 1, "implicit %s[3]": 0, "implicit %s": 0, "packed %s[]": 1, "packed %s[3]": 1, "packed %s": 0, "packed implicit %s[]": 0, "implicit packed %s[]": 0}
    for t in list(FIXED) + OTHER:
        fixed = t in FIXED or t == "SX"
        for a, aok in arrs.items():
            mod, post = a.split("%s")
            decl = mod + t + " " + "self" + post
            ok = bool(aok)
            if "implicit" in a and ok:
                ok = True if fixed else False if t not in ("E1", "M1") else None
            for opt, ook in (("", True), ("optional ", True)):
                for cl, cok in (("", True), (" if bb", True)):
                    if opt and cl:
                        cok = False
                    k = ok and cok if ok is not None else None if cok else False
                    yield c("field:%s%s%s" % (opt, decl, cl), FPRE + "struct TT\n{\n    uint8 ii;\n    bool bb;\n    %s%s%s;\n};\n" % (opt, decl, cl), k, decl)
                    if a == "%s":
                        continue
                    yield c("array-default:%s%s%s" % (opt, decl, cl), FPRE + "struct TT\n{\n    uint8 ii;\n    bool bb;\n    %s%s = 1%s;\n};\n" % (opt, decl, cl), False)
            # choices and unions
            ch = decl.replace("ii", "cp")
            k = ok
            yield c("choice-field:" + ch, FPRE + "choice TT(uint8 cp) on cp\n{\n    case 1:\n        %s;\n    default:\n        %s;\n};\n" % (ch, ch.replace("self", "other")), k)
            yield c("union-field:" + ch, FPRE + "union TT(uint8 cp)\n{\n    %s;\n    uint8 other;\n};\n" % ch, k)
            for w in ("optional " + ch, ch + " if true", "extend " + ch, ch + " = 1"):
                yield c("choice-member:" + w, FPRE + "choice TT(uint8 cp) on cp\n{\n    case 1:\n        %s;\n};\n" % w, False)
                yield c("union-member:" + w, FPRE + "union TT(uint8 cp)\n{\n    %s;\n};\n" % w, False)
    for w in ("align(8):\n    uint8 self", "cp:\n    uint8 self"):
        yield c("choice-member:" + w, FPRE + "choice TT(uint8 cp) on cp\n{\n    case 1:\n        %s;\n};\n" % w, False)
        yield c("union-member:" + w, FPRE + "union TT(uint8 cp)\n{\n    %s;\n};\n" % w, False)
    # every kind of declared thing in every place that takes a type
    decl = FPRE + "sql_table TB { uint8 pk sql \"PRIMARY KEY\"; };\nsql_database DB { TB tb; };\nservice SV { S1 me(S1); };\npubsub PS { topic(\"t\") S1 ms; };\nrule_group RG { rule \"r\"; };\nstruct TM<ZT> { ZT tt; };\nstruct PA(uint8 pp) { uint8 pq; };\nsubtype TB STB;\nsubtype UU SUU;\nstruct EX { extend uint8 xx; };\n"
    plain = {"uint8": "b", "bool": "b", "string": "b", "float32": "b", "bytes": "y", "extern": "x", "bit:3": "b", "bit<3>": "d", "S1": "c", "UU": "c", "CH(1)": "p", "PA(1)": "p", "CH": "m", "PA": "m", "E1": "e", "M1": "e", "SX": "b", "SS1": "c", "SUU": "c", "SB": "b", "CI": "no", "CS": "no", "TB": "t", "STB": "t", "DB": "no", "SV": "no", "PS": "no", "RG": "no", "TM": "no", "TM<uint8>": "c", "TM<S1>": "c", "TM<TM<uint8>>": "c", "TM<uint8, uint8>": "no", "TM<CI>": "no", "TM<TM>": "no", "S1<uint8>": "no", "uint8(1)": "no", "S1(1)": "no", "PA(1, 2)": "no", "PA()": "no", "PA(\"x\")": "no", "PA(nope)": "no", "nope": "no", "f.S1": "c", "f.nope": "no", "g.S1": "no", "S1.s1": "no", "EX": "v", "TM<TB>": "no", "TM<nope>": "no"}
    for t, k in plain.items():
        yield c("type-of-field:" + t, decl + "struct TT\n{\n    %s self;\n};\n" % t, k in "bycpxed")
        yield c("type-of-elements:" + t, decl + "struct TT\n{\n    %s self[];\n};\n" % t, k in "bycpxed")
        yield c("type-of-branch:" + t, decl + "union TT\n{\n    %s self;\n};\n" % t, k in "bycpxed")
        yield c("type-of-parameter:" + t, decl + "struct TT(%s self)\n{\n    uint8 tt;\n};\n" % t, True if k in "byxce" else None if k in "mdvt" else False)
        yield c("type-of-function:" + t, decl + "struct TT(%s self)\n{\n    uint8 tt;\n    function %s gg()\n    {\n        return self;\n    }\n};\n" % (t, t), True if k in "bce" else None if k in "mdyxvt" else False)
        yield c("type-of-subtype:" + t, decl + "subtype %s TT;\n" % t, True if k in "byxcet" else None if k in "dvm" else False)
        yield c("type-of-constant:" + t, decl + "const %s TT = %s;\n" % (t, {"bool": "true", "SB": "true", "string": "\"x\"", "E1": "E1.AA", "M1": "M1.AA"}.get(t, "1")), k in "be" if k != "d" else None)
        yield c("type-of-template-argument:" + t, decl + "struct TT\n{\n    TM<%s> tt;\n};\n" % t, True if k in "byxce" else None if k in "dv" else False)
        yield c("type-of-column:" + t, decl + "sql_table TT\n{\n    uint8 pk sql \"PRIMARY KEY\";\n    %s self;\n};\n" % t, None if k in "dyxv" else k in "bcpe")
        yield c("type-of-table:" + t, decl + "sql_database TT\n{\n    %s self;\n};\n" % t, k == "t")
        yield c("type-of-request:" + t, decl + "service TT\n{\n    S1 me(%s);\n};\n" % t, True if k in "cy" else None if k == "v" else False)
        yield c("type-of-response:" + t, decl + "service TT\n{\n    %s me(S1);\n};\n" % t, True if k in "cy" else None if k == "v" else False)
        yield c("type-of-message:" + t, decl + "pubsub TT\n{\n    topic(\"t\") %s me;\n};\n" % t, True if k in "cy" else None if k == "v" else False)
        yield c("type-instantiated:" + t, decl + "instantiate %s TT;\n" % t, t in ("TM<uint8>", "TM<S1>", "TM<TM<uint8>>"))
    # parameters and arguments: number and types
    kinds = {"uint8": ("1", "I"), "string": ("\"x\"", "S"), "S1": ("st", "C"), "bool": ("true", "B")}
    for n in range(0, 3):
        for ps in itertools.product(kinds, repeat=n):
            for m in range(0, 4):
                for args in itertools.product(("1", "\"x\"", "st", "true"), repeat=m):
                    if m > 2 and len(set(args)) > 2:
                        continue
                    ak = [{"1": "I", "\"x\"": "S", "st": "C", "true": "B"}[x] for x in args]
                    ok = [kinds[p][1] for p in ps] == ak
                    d = "struct PP%s\n{\n    uint8 pq;\n};\n" % ("(%s)" % ", ".join("%s p%d" % (p, i) for i, p in enumerate(ps)) if ps else "")
                    u = "PP(%s)" % ", ".join(args) if m else "PP"
                    yield c("arguments:(%s):%s" % (",".join(ps), u), PRE + d + "struct TT\n{\n    S1 st;\n    %s self;\n};\n" % u, ok)


# ------------------------------------------------------------------------------------------------ structure of declarations
def structure(tier):
    # extend: only a tail of the fields
    for n in range(1, 5):
        for flags in itertools.product((0, 1), repeat=n):
            ok = list(flags) == sorted(flags)
            body = "".join("    %suint8 x%d;\n" % ("extend " if f else "", i) for i, f in enumerate(flags))
            yield c("extend:%s" % (flags,), "struct TT\n{\n%s};\n" % body, ok)
            ext = any(flags)
            for use in ("XX self;", "XX self[];", "packed XX self[];", "optional XX self;"):
                yield c("extend-nested:%s:%s" % (flags, use), "struct XX\n{\n%s};\nstruct TT\n{\n    %s\n};\n" % (body, use), False if ext else True)
            yield c("extend-branch:%s" % (flags,), "struct XX\n{\n%s};\nunion TT\n{\n    XX self;\n};\n" % body, not ext and ok)
    # recursion: up to three structures, every graph of references
    edges = ("", "T%d e%d;", "T%d e%d[];", "optional T%d e%d;", "T%d e%d[2];")
    for e in edges:
        d = e % (0, 0) if e else ""
        yield c("recursion:self:" + e, "struct T0\n{\n    uint8 aa;\n    %s\n};\n" % d, True if not e or "optional" in e or "[]" in e else False)
    yield c("recursion:self:if", "struct T0\n{\n    bool aa;\n    T0 e0 if aa;\n};\n", True)
    yield c("recursion:self:length", "struct T0\n{\n    uint8 aa;\n    T0 e0[aa];\n};\n", True)
    for e in ("T0 e0;", "T0 e0[];", "T0 e0[2];"):
        ok = "[]" in e
        yield c("recursion:union:" + e, "union T0\n{\n    uint8 aa;\n    %s\n};\n" % e, ok)
        yield c("recursion:choice:" + e, "choice T0(uint8 p) on p\n{\n    case 1:\n        uint8 aa;\n    default:\n        %s\n};\n" % e.replace("T0", "T0(p)"), ok)
    opts = (None, "T%d e%d;", "T%d e%d[];", "optional T%d e%d;")
    for a, b, d in itertools.product(opts, repeat=3):        # 0 -> 1, 1 -> 2, 2 -> 0
        src = "".join("struct T%d\n{\n    uint8 aa;\n%s};\n" % (i, "    " + x % ((i + 1) % 3, i) + "\n" if x else "") for i, x in enumerate((a, b, d)))
        yield c("recursion:cycle3:%s:%s:%s" % (a, b, d), src, not (a and b and d))
    for a, b in itertools.product(opts, repeat=2):
        src = "".join("struct T%d\n{\n    uint8 aa;\n%s};\n" % (i, "    " + x % (1 - i, i) + "\n" if x else "") for i, x in enumerate((a, b)))
        yield c("recursion:cycle2:%s:%s" % (a, b), src, not (a and b))
    # constants, subtypes, enumerations and bitmasks: every graph of references among three, whatever the order
    pairs = list(itertools.permutations(range(3), 2)) + [(i, i) for i in range(3)]
    for bits in range(1 << len(pairs)):
        es = [p for i, p in enumerate(pairs) if bits >> i & 1]
        succ = {i: [b for a, b in es if a == i] for i in range(3)}
        cyc = any(reaches(succ, i, i) for i in range(3))
        src = "".join("const uint32 K%d = %s;\n" % (i, " + ".join(["1"] + ["K%d" % j for j in succ[i]])) for i in range(3))
        yield c("cycle:const:%s" % es, src, not cyc)
        if tier == "thorough" or bits % 3 == 0:
            src = "".join("enum uint32 N%d\n{\n    AA = %s\n};\n" % (i, " + ".join(["1"] + ["valueof(N%d.AA)" % j for j in succ[i]])) for i in range(3))
            yield c("cycle:enum:%s" % es, src, not cyc)
            src = "".join("bitmask uint32 N%d\n{\n    AA = %s\n};\n" % (i, " + ".join(["1"] + ["valueof(N%d.AA)" % j for j in succ[i]])) for i in range(3))
            yield c("cycle:bitmask:%s" % es, src, not cyc)
            src = "struct TT\n{\n    uint8 aa;\n" + "".join("    function uint32 g%d()\n    {\n        return %s;\n    }\n" % (i, " + ".join(["aa"] + ["g%d()" % j for j in succ[i]])) for i in range(3)) + "};\n"
            yield c("cycle:function:%s" % es, src, False if cyc else None)
    for f in itertools.product((None, 0, 1, 2), repeat=3):
        src = "".join("subtype %s Y%d;\n" % ("uint8" if x is None else "Y%d" % x, i) for i, x in enumerate(f))
        succ = {i: [] if x is None else [x] for i, x in enumerate(f)}
        yield c("cycle:subtype:%s" % (f,), src, not any(reaches(succ, i, i) for i in range(3)))
    # subtypes and instantiations mixed
    for f in itertools.product((None, 0, 1, 2), repeat=3):
        for ks in itertools.product("si", repeat=3):
            if "i" not in ks:
                continue
            ref = ["uint8" if x is None else "Y%d" % x for x in f]
            src = "struct Tem<ZT> { ZT aa; };\n" + "".join("subtype %s Y%d;\n" % (ref[i], i) if ks[i] == "s" else "instantiate Tem<%s> Y%d;\n" % (ref[i], i) for i in range(3))
            succ = {i: [] if x is None else [x] for i, x in enumerate(f)}
            cyc = any(reaches(succ, i, i) for i in range(3))
            twice = len({ref[i] for i in range(3) if ks[i] == "i"}) < ks.count("i")
            yield c("cycle:mixed:%s:%s" % ("".join(ks), f), src, False if cyc else True if ks.count("i") == 1 else None if twice or set(f) - {None} else True)
    # choice cases
    sel = {
        "uint8": ["0", "1", "2", "255", "CI", "1 + 1", "true", "\"x\"", "E1.AA", "1.5", "nope"],
        "int8": ["0", "-1", "1"],
        "bool": ["true", "false", "1", "E1.AA"],
        "E1": ["E1.AA", "AA", "AB", "E1.AB", "E2.AA", "AC", "1", "M1.AA", "nope"],
        "M1": ["M1.AA", "AA", "AB", "M1.AB", "M2.AA", "AC", "M1.AA | M1.AB", "1", "E1.AA"],
    }
    val = {"0": 0, "1": 1, "2": 2, "255": 255, "-1": -1, "CI": 3, "1 + 1": 2, "true": True, "false": False}
    for s, labels in sel.items():
        def good(x):
            if s == "uint8":
                return x in ("0", "1", "2", "255", "CI", "1 + 1")
            if s == "int8":
                return True
            if s == "bool":
                return x in ("true", "false")
            if s == "E1":
                return x in ("E1.AA", "AA", "AB", "E1.AB")
            return x in ("M1.AA", "AA", "AB", "M1.AB", "M1.AA | M1.AB")

        def value(x):
            return val[x] if x in val else {"AA": "AA", "AB": "AB", "M1.AA | M1.AB": "AA|AB"}.get(x, x[3:])
        for n in range(0, 3 if tier == "quick" else 4):
            for seq in itertools.product(labels, repeat=n):
                for group in ((0, 1) if n == 2 else (0,)):
                    for default in (None, "uint8 dd", ""):
                        ok = all(good(x) for x in seq) and len({value(x) for x in seq}) == n
                        if ok and default is not None and n == 2 and s in ("bool", "E1"):
                            ok = False if s == "bool" else None     # nothing is left for the default
                        if n == 0:
                            ok = None
                        body = "".join("    case %s:\n%s" % (x, "" if group and i == 0 else "        uint8 c%d;\n" % i) for i, x in enumerate(seq))
                        if default is not None:
                            body += "    default:\n        %s;\n" % default
                        yield c("cases:%s:%s:%d:%s" % (s, ",".join(seq), group, default), PRE + "choice TT(%s cp) on cp\n{\n%s};\n" % (s, body), ok)
    for x, ok in (("uint8", True), ("bit:3", True), ("varint", True), ("int64", True), ("bool", True), ("E1", True), ("M1", True), ("string", False), ("float32", False), ("S1", False), ("bytes", False), ("extern", False)):
        lit = {"bool": "true", "E1": "AA", "M1": "AA", "string": "\"x\"", "float32": "1.5"}.get(x, "1")
        yield c("selector:" + x, PRE + "choice TT(%s cp)\non cp\n{\n    case %s: uint8 ca;\n};\n" % (x, lit), ok)
    for e, ok in (("cp", True), ("cp + 1", True), ("cp == 1 ? 1 : 2", True), ("hh.s1", True), ("nope", False), ("hh", False), ("hh.nope", False), ("lengthof(hh)", False), ("gg()", None), ("ca", False), ("ff", False), ("valueof(ee)", True)):
        yield c("selector-expression:" + e, PRE + "choice TT(uint8 cp, S1 hh, E1 ee, float32 ff) on %s\n{\n    case 1: uint8 ca;\n    function uint8 gg()\n    {\n        return cp;\n    }\n};\n" % e, ok)
    # repeated default, default not last
    yield c("default-first", "choice TT(uint8 cp) on cp\n{\n    default: uint8 cd;\n    case 1: uint8 ca;\n};\n", False)
    yield c("default-twice", "choice TT(uint8 cp) on cp\n{\n    case 1: uint8 ca;\n    default: uint8 cd;\n    default: uint8 ce;\n};\n", False)


def reaches(succ, a, b):
    seen, todo = set(), list(succ[a])
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += succ[x]
    return False


# ------------------------------------------------------------------------------------------------ names
KEYWORDS = """align bit bool bitmask bytes case choice const default enum explicit extend extern false float16 float32 float64 function if implicit import instantiate int int16 int32 int64 int8
isset lengthof numbits on optional package packed pubsub publish return rule rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string struct subscribe subtype topic true uint16 uint32
uint64 uint8 union using valueof varint varint16 varint32 varint64 varsize varuint varuint16 varuint32 varuint64 zserio_compatibility_version""".split()


# the generators' own checks run with every schema, the Python one refuses properties that start with an underscore
PYTHON = ("field", "parameter", "function", "branch", "case", "tables", "method", "message")


def names(tier):
    decls = {
        "const": "const uint8 %s = 1;\n", "struct": "struct %s { uint8 aa; };\n", "choice": "choice %s(uint8 p) on p { case 1: uint8 aa; };\n", "union": "union %s { uint8 aa; };\n",
        "enum": "enum uint8 %s { AA };\n", "bitmask": "bitmask uint8 %s { AA };\n", "subtype": "subtype uint8 %s;\n", "table": "sql_table %s { uint8 pk sql \"PRIMARY KEY\"; };\n",
        "database": "sql_database %s { XTab tb; };\n", "service": "service %s { XStr me(XStr); };\n", "pubsub": "pubsub %s { topic(\"t\") XStr me; };\n", "rules": "rule_group %s { rule \"r1\"; };\n",
        "template": "struct %s<ZT> { ZT aa; };\n", "instantiate": "instantiate XTem<uint8> %s;\n",
    }
    pre = "struct XStr { uint8 aa; };\nsql_table XTab { uint8 pk sql \"PRIMARY KEY\"; };\nstruct XTem<ZT> { ZT aa; };\n"
    for (ka, a), (kb, b) in itertools.product(decls.items(), repeat=2):
        for na, nb in (("Name", "Name"), ("Name", "NAME"), ("Name", "Names"), ("Name", "Nbme")):
            if (ka == kb == "instantiate"):
                b2 = b.replace("uint8", "uint16")
            elif ka == kb == "rules":
                b2 = b.replace("r1", "r2")
            else:
                b2 = b
            yield c("package-names:%s:%s:%s:%s" % (ka, na, kb, nb), pre + a % na + b2 % nb, na.lower() != nb.lower())
    for k, d in decls.items():
        for n, ok in (("Aa", True), ("A", True), ("A_1", True), ("aa", False), ("_A", False), ("1A", False), ("A-B", False), ("A.B", False), ("zserioA", False), ("ZserioA", False), ("ZSERIOX", False), ("AZserio", True)):
            yield c("name:%s:%s" % (k, n), pre + d % n, ok)
        for w in KEYWORDS:
            yield c("keyword:%s:%s" % (k, w), pre + d % w, False)
    places = {
        "field": "struct TT { uint8 %s; };\n", "parameter": "struct TT(uint8 %s) { uint8 aa; };\n", "function": "struct TT\n{\n    uint8 aa;\n    function uint8 %s()\n    {\n        return aa;\n    }\n};\n",
        "branch": "union TT { uint8 %s; };\n", "case": "choice TT(uint8 p) on p { case 1: uint8 %s; };\n", "item": "enum uint8 TT { %s };\n", "value": "bitmask uint8 TT { %s };\n",
        "column": "sql_table TT { uint8 %s sql \"PRIMARY KEY\"; };\n", "tables": "sql_database TT { XTab %s; };\n", "method": "service TT { XStr %s(XStr); };\n", "message": "pubsub TT { topic(\"t\") XStr %s; };\n",
        "template-parameter": "struct TT<%s> { uint8 aa; };\n",
    }
    for k, d in places.items():
        for w in KEYWORDS:
            yield c("keyword:%s:%s" % (k, w), pre + d % w, False)
        for n, ok in (("ab", True), ("a", True), ("Ab", True), ("_a", None if k in PYTHON else True), ("a1_", True), ("1a", False), ("a-b", False), ("a.b", False), ("a b", False), ("zserioA", False), ("ZSERIO", False), ("azserio", True), ("@a", False), ("\u00e4", False)):
            yield c("member-name:%s:%s" % (k, n), pre + d % n, ok)
    # members of one scope
    two = {
        "field,field": "struct TT { uint8 %s; uint8 %s; };\n", "parameter,parameter": "struct TT(uint8 %s, uint8 %s) { uint8 aa; };\n", "parameter,field": "struct TT(uint8 %s) { uint8 %s; };\n",
        "field,function": "struct TT { uint8 %s; function uint8 %s() { return 1; } };\n", "function,function": "struct TT { uint8 zz; function uint8 %s() { return 1; } function uint8 %s() { return 2; } };\n",
        "parameter,function": "struct TT(uint8 %s) { uint8 zz; function uint8 %s() { return 1; } };\n", "branch,branch": "union TT { uint8 %s; uint8 %s; };\n", "branch,function": "union TT { uint8 %s; function uint8 %s() { return 1; } };\n",
        "case,case": "choice TT(uint8 p) on p { case 1: uint8 %s; case 2: uint8 %s; };\n", "case,default": "choice TT(uint8 p) on p { case 1: uint8 %s; default: uint8 %s; };\n", "parameter,case": "choice TT(uint8 %s) on 1 { case 1: uint8 %s; };\n",
        "item,item": "enum uint8 TT { %s, %s };\n", "value,value": "bitmask uint8 TT { %s, %s };\n", "column,column": "sql_table TT { uint8 %s; uint8 %s; };\n", "tables,tables": "sql_database TT { XTab %s; XTab %s; };\n",
        "method,method": "service TT { XStr %s(XStr); XStr %s(XStr); };\n", "message,message": "pubsub TT { topic(\"t\") XStr %s; topic(\"u\") XStr %s; };\n",
    }
    for k, d in two.items():
        for a, b in (("ab", "ab"), ("ab", "Ab"), ("ab", "aB"), ("ab", "AB"), ("ab", "ac"), ("ab", "abc")):
            same, case = a == b, a.lower() == b.lower()
            first = a[0].lower() + a[1:] == b[0].lower() + b[1:]
            ok = not same if not case else False if same else False if first else None
            if k in ("column,column", "tables,tables") and case:
                ok = False
            yield c("members:%s:%s:%s" % (k, a, b), pre + d % (a, b), ok)
    # packages: names, files, declarations
    for n, ok in (("f", True), ("F", False), ("g", False), ("f.f", False), ("zserio", False), ("if", False), ("", None)):
        yield Case("package:" + n, ("package %s;\n" % n if n else "") + "struct TT { uint8 aa; };\n", ok)
    for text, ok in (("package f;\npackage f;\n", False), ("struct TT { uint8 aa; };\npackage f;\n", False), ("import g.*;\npackage f;\n", False), ("package f;\nstruct TT { uint8 aa; };\nimport g.*;\n", False), ("package f;", True), ("package f\n", False), ("", None),
                     ("zserio_compatibility_version(\"2.4.2\");\npackage f;\n", True), ("package f;\nzserio_compatibility_version(\"2.4.2\");\n", False), ("zserio_compatibility_version(\"99.0.0\");\npackage f;\n", False), ("zserio_compatibility_version(\"2.5.0\");\npackage f;\nstruct TT { packed uint8 aa[]; };\n", None), ("zserio_compatibility_version(\"x\");\npackage f;\n", False), ("zserio_compatibility_version(1);\npackage f;\n", False)):
        yield Case("file:" + text.replace("\n", " ").strip(), text, ok, files={"g.zs": b"package g;\n"})
    # rule identifiers
    for n, ok in (("r", True), ("Rule-01", True), ("a:b.c_d-e", True), ("", False), ("1r", False), ("-r", False), ("a b", False), ("r!", False), ("_r", False), ("\u00e4", False)):
        yield c("rule-id:" + n, "rule_group RR { rule \"%s\"; };\n" % n, ok)
    for a, b in itertools.product(("r1", "R1", "r2"), repeat=2):
        for two in ("rule_group RR { rule \"%s\"; rule \"%s\"; };\n", "rule_group RR { rule \"%s\"; };\nrule_group RS { rule \"%s\"; };\n"):
            yield c("rule-ids:%s:%s:%d" % (a, b, len(two)), two % (a, b), a.lower() != b.lower())


# ------------------------------------------------------------------------------------------------ imports
def imports(tier):
    """Packages g and h that may both define Name; f imports in every way and refers to it in every way."""
    stm = ("import g.*;", "import g.Name;", "import h.*;", "import h.Name;", "import g.Other;", "import g.Nope;", "import n.*;", "import n.Name;", "import k.*;")
    kinds = {"type": ("struct Name { uint8 aa; };\n", "struct TT\n{\n    %s tt;\n};\n"), "const": ("const uint8 Name = 1;\n", "struct TT\n{\n    uint8 tt = %s;\n};\n"), "enum": ("enum uint8 Name { AA };\n", "struct TT\n{\n    uint8 tt = valueof(%s.AA);\n};\n")}
    for kind, (d, use) in kinds.items():
        for local in (0, 1):
            for n in range(0, 3 if tier == "quick" else 4):
                for imps in itertools.product(stm, repeat=n):
                    if kind != "type" and tier == "quick" and n == 2 and hash_(imps) % 3:
                        continue
                    for ref in ("Name", "g.Name", "h.Name", "f.Name", "k.Name"):
                        ok, single, wild, known = True, set(), set(), {"f"}
                        for i in imps:
                            p, s = i[7:-1].split(".")
                            if p == "n" or s == "Nope":
                                ok = False
                            (wild if s == "*" else single).add((p, s))
                        pk = {"g", "h"} & ({p for p, s in single | wild} | {"g" for p, s in wild if p == "k"} if False else {p for p, s in single | wild})
                        if ok:
                            if ref == "Name":
                                only = {p for p, s in single if s == "Name" and (p, "*") not in wild}     # a wildcard import overrides them
                                cand = {"f"} | only if local else only or {p for p, s in wild if p in ("g", "h")}
                                ok = len(cand) == 1
                            elif ref == "f.Name":
                                ok = bool(local)
                            elif ref == "k.Name":
                                ok = False
                            else:
                                vis = {p for p, s in wild} | {p for p, s in single if s == "Name"}
                                ok = ref[0] in vis if kind else None
                        dup = len(imps) != len(set(imps))
                        text = "package f;\n" + "".join(i + "\n" for i in imps) + (d if local else "") + use % ref
                        files = {"g.zs": ("package g;\n" + d + "struct Other { uint8 aa; };\n").encode(), "h.zs": ("package h;\n" + d).encode(), "k.zs": ("package k;\nimport g.*;\nstruct Some { uint8 aa; };\n").encode()}
                        yield Case("import:%s:%s:%d:%s" % (kind, ref, local, "".join(imps)), text, ok, files=files)
    # packages in directories, and cyclic imports
    g = "package a.g;\nimport a.h.*;\nstruct GG { HH hh; };\n"
    h = "package a.h;\n%sstruct HH { uint8 aa; };\n%s"
    for back, use, ok in (("", "", True), ("import a.g.*;\n", "", True), ("import a.g.*;\n", "struct H2 { GG gg; };\n", True), ("", "struct H2 { GG gg; };\n", False), ("import a.g.*;\n", "struct H2 { a.g.GG gg; };\n", True), ("import a.g.GG;\n", "struct H2 { GG gg; };\n", True)):
        for ref, rok in (("HH", True), ("a.h.HH", True), ("h.HH", False), ("GG", False), ("a.g.GG", False)):
            yield Case("directories:%s:%s:%s" % (back.strip(), use.strip(), ref), "package f;\nimport a.h.HH;\nstruct TT { %s tt; };\n" % ref, ok and rok if ref != "a.g.GG" else False, files={"a/g.zs": g.encode(), "a/h.zs": (h % (back, use)).encode()})
    # templates and their instantiations in other packages
    for imp, inst, use in itertools.product(("import g.*;", "import g.Tem;", ""), ("", "instantiate Tem<uint8> TemU;", "instantiate Tem<uint8> TemU;\ninstantiate Tem<uint8> TemV;", "instantiate Tem<uint8> TemU;\ninstantiate Tem<uint16> TemV;", "instantiate Tem<uint8> Tem;"), ("Tem<uint8>", "TemU", "Tem", "Tem<uint8, uint8>", "g.Tem<uint8>")):
        ok = bool(imp)
        if inst.count("<uint8>") == 2 or "Tem;" in inst and imp:
            ok = False if "Tem;" not in inst else None
        if use in ("Tem", "Tem<uint8, uint8>") and "Tem;" not in inst:
            ok = False
        if use == "TemU" and "TemU" not in inst:
            ok = False
        if not imp:
            ok = False
        yield Case("instantiate:%s:%s:%s" % (imp, inst.replace("\n", ""), use), "package f;\n%s\n%s\nstruct TT { %s tt; };\n" % (imp, inst, use), ok, files={"g.zs": b"package g;\nstruct Tem<ZT> { ZT aa; };\n"})


# ------------------------------------------------------------------------------------------------ SQL
def tables(tier):
    cols = {"aa": "uint8", "bb": "string"}
    field = ("", "sql \"PRIMARY KEY\"", "sql \"primary key NOT NULL\"", "sql \"UNIQUE\"", "sql \"NOT NULL\"")
    last = ("", "sql \"PRIMARY KEY(aa)\";", "sql \"PRIMARY KEY (aa, bb)\";", "sql \"PRIMARY KEY(nope)\";", "sql \"UNIQUE(bb)\";", "sql \"UNIQUE(nope)\";", "sql \"unique(aa, nope)\";")
    for a, b, l, w in itertools.product(field, field, last, ("", "sql_without_rowid;")):
        text = "sql_table TT\n{\n    uint8 aa %s;\n    string bb %s;\n    %s\n    %s\n};\n" % (a, b, l, w)
        pk = [x for x in (a, b) if "primary key" in x.lower()] + (["t"] if "PRIMARY KEY" in l else [])
        ok = True
        if "nope" in l or w and not pk:
            ok = False
        elif len(pk) > 1:
            ok = None
        yield c("table:%s:%s:%s:%s" % (a, b, l, w), text, ok)
    for using in ("", "using fts5", "using rtree"):
        for body, n in (("", 0), ("    string aa;\n", 1), ("    sql_virtual string aa;\n", 1), ("    string aa;\n    sql_virtual string bb;\n", 2)):
            for w in ("", "    sql_without_rowid;\n"):
                ok = True
                if using and w or not n:
                    ok = False
                elif not using and "sql_virtual" in body:
                    ok = False
                elif w:
                    ok = False
                yield c("virtual:%s:%s:%s" % (using, body.replace("\n", ""), w.strip()), "sql_table TT %s\n{\n%s%s};\n" % (using, body, w), ok)
    pre = PRE + "struct PP(uint8 pa) { uint8 pb; };\nstruct P2(S1 pa) { uint8 pb; };\n"
    for arg, ok in (("aa", True), ("explicit aa", True), ("explicit xx", True), ("xx", False), ("1", True), ("later", None), ("bb", False), ("explicit 1", False), ("self", None), ("aa + 1", True), ("aa, aa", False), ("explicit aa, explicit aa", False)):
        yield c("column-argument:" + arg, pre + "sql_table TT\n{\n    uint8 aa sql \"PRIMARY KEY\";\n    string bb;\n    PP(%s) self;\n    uint8 later;\n};\n" % arg, ok)
    for arg, ok in (("explicit aa", False), ("aa", True)):
        yield c("struct-argument:" + arg, pre + "struct TT\n{\n    uint8 aa;\n    PP(%s) self;\n};\n" % arg, ok)
    for t1, t2 in itertools.product(("PP(explicit xx)", "P2(explicit xx)", "P2(explicit yy)"), repeat=2):
        yield c("explicit-types:%s:%s" % (t1, t2), pre + "sql_table TT\n{\n    uint8 aa sql \"PRIMARY KEY\";\n    %s b1;\n    %s b2;\n};\n" % (t1, t2), not ("xx" in t1 and "xx" in t2 and t1 != t2))
    for body, ok in (("", False), ("TB tb;", True), ("TB tb; TB tc;", True), ("TB tb[];", False), ("TB tb sql \"x\";", False), ("TB tb : true;", False), ("optional TB tb;", False), ("uint8 tb;", False)):
        yield c("database:" + body, "sql_table TB { uint8 pk sql \"PRIMARY KEY\"; };\nsql_database DD\n{\n    %s\n};\n" % body, ok)
    for col, ok in (("uint8 cc[]", False), ("optional uint8 cc", False), ("uint8 cc if true", False), ("uint8 cc = 1", False), ("uint8 cc : true", False), ("packed uint8 cc[]", False), ("align(8): uint8 cc", False), ("extend uint8 cc", False)):
        yield c("column:" + col, "sql_table TB\n{\n    uint8 pk sql \"PRIMARY KEY\";\n    %s;\n};\n" % col, ok)


# ------------------------------------------------------------------------------------------------ text
def literals(tier):
    for lit, ok in (("1", 1), ("0", 1), ("00", 1), ("07", 1), ("08", 0), ("09", 0), ("0x0", 1), ("0XfF", 1), ("0x", 0), ("0xG", 0), ("1b", 1), ("0b", None), ("101B", 1), ("2b", 0), ("12b", 0), ("1f", None), ("1a", 0), ("+1", 1), ("-1", 1), ("--1", None), ("1 1", 0), ("1_000", 0), ("'1'", 0)):
        yield c("integer-literal:" + lit, "const int64 CC = %s;\n" % lit, None if ok is None else bool(ok))
    for lit, ok in (("1.5", 1), ("1.", 1), (".5", 1), (".", 0), ("1.5f", 1), ("1.5F", 1), ("1e3", 1), ("1E+3", 1), ("1.5e-3", 1), ("1.5e", 0), ("1e", 0), ("e1", 0), ("1.5.5", 0), ("1", 1), ("-1.5", 1), ("+.5", 1), ("1.5e3f", 1), ("1.5d", 0), ("0x1.5", 0)):
        yield c("float-literal:" + lit, "const float64 CC = %s;\n" % lit, bool(ok))
    for body, ok in (("", 1), ("a", 1), ("\u00e4\u20ac", 1), ("\\n\\r\\t\\f\\\\\\\"", 1), ("\\u00e4", 1), ("\\uFFFF", 1), ("\\u00g0", 0), ("\\u123", 0), ("\\x41", 1), ("\\x4", 0), ("\\xg1", 0), ("\\01", 1), ("\\012", 1), ("\\0377", 1), ("\\08", 0), ("\\0", 0), ("\\a", 0), ("\\", 0), ("\n", 0), ("'", 1), ("//", 1), ("/*", 1)):
        yield c("string-literal:" + body, "const string CC = \"%s\";\n" % body, bool(ok))
    for cm, ok in (("// x", 1), ("/* x */", 1), ("/* x", 0), ("/** x */", 1), ("/*! x !*/", 1), ("/*! x */", 1), ("/**/", 1), ("/* /* */", 1), ("/* */ */", 0), ("# x", 0), ("/** @deprecated */", 1), ("/** @see \"x\" CC */", None), ("//", 1), ("/***/", 1), ("/** @todo x */", 1)):
        yield c("comment:" + cm, cm + "\nconst uint8 CC = 1;\n", None if ok is None else bool(ok))
        yield c("inner-comment:" + cm, "const uint8 CC =\n" + cm + "\n1;\n", None if ok is None else bool(ok))
    for eol in ("\n", "\r\n", "\r", "\n\n", "\f", " \t"):
        yield Case("white-space:%r" % eol, ("package f;" + eol + "struct TT" + eol + "{" + eol + "uint8 aa;" + eol + "};" + eol).encode(), True if eol != "\f" else None)
    for sp, ok in ((">>", True), ("> >", False), ("<<", True), ("< <", False), ("&&", True), ("& &", False), ("= =", False), ("! =", False)):
        yield c("spaced:" + sp, "const uint8 CA = 8;\nstruct TT\n{\n    uint8 aa if (CA %s 1) == 4;\n};\n" % sp if sp.replace(" ", "") in (">>", "<<") else "struct TT\n{\n    bool aa;\n    uint8 bb if aa %s true;\n};\n" % sp, ok)


FULL = """package f;
import g.*;
const uint8 SIZE = 3 + 1;
subtype bit:5 Five;
enum uint8 Kind { NONE, @deprecated ONE = 2, TWO, };
bitmask uint16 Flags { READ = 1, WRITE };
struct Tem<ZT>(uint8 num) { ZT value[num]; packed int32 list[]; };
choice Pick(Kind kind) on kind { case NONE: ; case Kind.ONE: uint8 one : one != 0; default: Tem<uint8>(1) rest; };
union Either { string text; Other other[]; function bool has() { return true; } };
struct Main(uint8 width)
{
    uint32 offs;
    Kind kind = Kind.NONE;
    optional Flags flags;
    bit<width> data[SIZE];
align(8):
    varuint16 len if kind == Kind.ONE && width > 2;
offs:
    Pick(kind) pick;
    Tem<float32>(width) tem[] : lengthof(tem) < 5;
    extend Either either;
    function uint8 size() { return isset(flags, WRITE) ? (width << 1) | 0x0F : valueof(kind) - 010; }
};
instantiate Tem<uint8> TemU8;
sql_table Table { int32 id sql "PRIMARY KEY"; Pick(explicit kind) pick; sql "UNIQUE(id)"; };
sql_database Base { Table one; };
service Calls { Either call(Other); };
pubsub Subs { publish topic("a/" + "b") Other out; };
rule_group Rules { rule "r-1"; };
"""
OTHERPKG = b"package g;\nstruct Other { uint8 aa; };\n"
TOKEN = re.compile(r"\s*(\"[^\"]*\"|0x[0-9A-Fa-f]+|[A-Za-z_@][A-Za-z0-9_]*|\d+|<<|==|!=|&&|.)", re.S)


def tokens():
    return [t for t in TOKEN.findall(FULL.rstrip())]


def mutants(tier):
    """Every schema that differs from one full schema by one token: removed, doubled, exchanged with the next, or replaced."""
    ts = tokens()
    files = {"g.zs": OTHERPKG}

    def case(key, seq):
        return Case(key, " ".join(seq).replace("; ", ";\n"), None, files=files)
    yield Case("token:full", FULL, True, files=files)
    repl = ["1", "x", "Other", ";", "{", "(", "uint8", "\"s\"", "=", "if", "true", "<"]
    for i in range(len(ts)):
        yield case("token:%d:remove" % i, ts[:i] + ts[i + 1:])
        yield case("token:%d:double" % i, ts[:i + 1] + ts[i:])
        if i + 1 < len(ts):
            yield case("token:%d:swap" % i, ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:])
        yield case("token:%d:end" % i, ts[:i])
        for r in repl if tier == "thorough" else [repl[(i + j) % len(repl)] for j in range(4)]:
            yield case("token:%d:%s" % (i, r), ts[:i] + [r] + ts[i + 1:])
    names = sorted({t for t in ts if re.match(r"[A-Za-z]", t) and t not in KEYWORDS})
    for i, t in enumerate(ts):
        if t in names:
            for n in names if tier == "thorough" else [x for x in names if hash_(i, x) % 6 == 0]:
                if n != t:
                    yield case("token:%d:name:%s" % (i, n), ts[:i] + [n] + ts[i + 1:])


FAMILIES = {f.__name__: f for f in (ranges, sequences, operators, clauses, fields, structure, names, imports, tables, literals, mutants)}


# ------------------------------------------------------------------------------------------------ running
def build(cp):
    out = os.path.join(zbuild.scratch(), "front")
    zbuild.javac(out, [os.path.join(os.path.dirname(os.path.abspath(__file__)), "java_front", "Front.java")], cp, "front end driver")
    return out + ":" + cp


def shown(case):
    return "\n".join("--- %s\n%s" % (n, t.decode("utf8", "replace")) for n, t in case.files.items())


def explore(task):
    cpath, fam, tier, part, parts = task
    r = Res()
    cases = [x for i, x in enumerate(FAMILIES[fam](tier)) if i % parts == part]
    d = os.path.join(zbuild.scratch(), "front-%s-%d" % (fam, part))
    os.makedirs(d)
    ti, to = d + ".in", d + ".out"
    with open(ti, "w") as f:
        for i, x in enumerate(cases):
            f.write("\t".join([str(i), x.opts, x.main] + [y for n, t in x.files.items() for y in (n, base64.b64encode(t).decode())]) + "\n")
    p = subprocess.run([zbuild.JAVA, "-Xmx1200m", "-Xss4m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", cpath, "Front", ti, to, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    with open(to) as f:
        outs = f.read().split("\n")[:-1]
    if p.returncode != 0 or len(outs) != len(cases):
        at = cases[len(outs)] if len(outs) < len(cases) else None
        r.bad("front:%s:died" % fam, "the tool ended its process (%d) %s\n%s" % (p.returncode, "at " + at.key + "\n" + shown(at) if at else "", p.stdout.decode("utf8", "replace")[-1500:]))
    for x, l in zip(cases, outs):
        i, ok, text = l.split("\t")
        text = base64.b64decode(text).decode("utf8", "replace")
        ok = ok == "1"
        r.states += 1
        r.transitions += 1
        r.traces += 1
        errors = [e for e in text.split("\n") if e.startswith("[ERROR]")]
        where = [re.match(r"\[ERROR\] (\S+\.zs):(\d+):(\d+): \S", e) for e in errors]
        what = None
        if "Internal error" in text or "\tat zserio." in text:
            what = "failed with an internal error"
        elif x.ok is True and not ok:
            what = "was refused"
        elif x.ok is False and ok:
            what = "was accepted"
        elif ok and errors:
            what = "was accepted, with errors printed"
        elif not ok and not errors:
            what = "was refused without an error message"
        elif not ok and not any(where) and not re.search(r"^\[ERROR\] .*(No such file|Default package|file)", text, re.M):
            what = "was refused without telling where"
        elif not ok and x.ok is False and x.line is not None and not any(m and m.group(1) == "f.zs" and int(m.group(2)) == x.line for m in where):
            what = "was refused, but the message does not point to line %d" % x.line
        if what:
            r.bad("front:%s" % x.key[:120], "The schema %s; rule '%s'.\n%s\n--- printed\n%s" % (what, x.key, shown(x), text[-1500:]))
    if cases:
        r.sample({"rule": cases[0].key, "accepted": cases[0].ok, "schema": cases[0].files["f.zs"].decode("utf8", "replace")[:300]})
    return r.out()
