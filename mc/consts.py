"""Literals, constants, default values, enumeration and bitmask items: every one has the schema's value in generated code.

The space: integer types x boundary values x notations x places, words of string pieces x places, floating point literals x types."""
import itertools, os, struct, subprocess
from . import zbuild
from .pool import Res

# --- integers

TYPES = [("int%d" % n, -1 << n - 1, (1 << n - 1) - 1) for n in (8, 16, 32, 64)] + [("uint%d" % n, 0, (1 << n) - 1) for n in (8, 16, 32, 64)]
for _n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64):
    TYPES += [("int:%d" % _n, -1 << _n - 1, (1 << _n - 1) - 1), ("bit:%d" % _n, 0, (1 << _n) - 1)]
TYPES += [("varint16", -(1 << 14) + 1, (1 << 14) - 1), ("varint32", -(1 << 28) + 1, (1 << 28) - 1), ("varint64", -(1 << 56) + 1, (1 << 56) - 1), ("varint", -1 << 63, (1 << 63) - 1),
          ("varuint16", 0, (1 << 15) - 1), ("varuint32", 0, (1 << 29) - 1), ("varuint64", 0, (1 << 57) - 1), ("varuint", 0, (1 << 64) - 1), ("varsize", 0, (1 << 31) - 1)]


def values(lo, hi):
    vs = {lo, lo + 1, hi, hi - 1, 0, 1, -1}
    for k in (7, 8, 15, 16, 31, 32, 63):
        for v in (1 << k, -1 << k):
            vs |= {v - 1, v, v + 1}
    return sorted(v for v in vs if lo <= v <= hi)


def notations(v, full):
    a, s = abs(v), "-" if v < 0 else ""
    out = ["%s%d" % (s, a)]
    if full:
        out += ["%s0x%x" % (s, a), "%s0X%X" % (s, a), "%s0%o" % (s, a), "%s%sb" % (s, bin(a)[2:]), "%s%sB" % (s, bin(a)[2:])]
        if v > 0:
            out.append("+%d" % a)
    return out


def integers(thorough):
    for t, lo, hi in TYPES:
        for v in values(lo, hi):
            for text in notations(v, thorough or t in ("int8", "int16", "int32", "int64", "uint32", "uint64", "bit:31", "bit:33", "varint", "varuint")):
                yield t, text, v


# --- strings: pieces and what they mean

PLAIN = list("aA079fxu ?/'%{}$#<&@") + ["\u00e9", "\u20ac", "\U0001f600"]
ESCAPED = [("\\r", "\r"), ("\\n", "\n"), ("\\f", "\f"), ("\\t", "\t"), ("\\\\", "\\"), ('\\"', '"')] + \
    [("\\u%04x" % c, chr(c)) for c in (0, 1, 0x0a, 0x0d, 0x1f, 0x22, 0x27, 0x41, 0x5c, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x20ac, 0xfffd)] + [("\\u00E9", "\u00e9"), ("\\uFFFD", "\ufffd")] + \
    [("\\x%02x" % c, chr(c)) for c in (0, 1, 0x0a, 0x0d, 0x1f, 0x22, 0x41, 0x5c, 0x7f)] + [("\\x4A", "J")] + \
    [("\\000", "\0"), ("\\012", "\n"), ("\\042", '"'), ("\\077", "?"), ("\\0101", "A"), ("\\0134", "\\"), ("\\0177", "\x7f")]
HIGH = [("\\x80", "\x80"), ("\\xe9", "\u00e9"), ("\\xFF", "\u00ff"), ("\\0200", "\x80"), ("\\0351", "\u00e9"), ("\\0377", "\u00ff")]     # "8-bit character"
PIECES = [(p, p) for p in PLAIN] + ESCAPED


def strings(thorough):
    """(schema expression, value)"""
    yield '""', ""
    for n in (1, 2) if not thorough else (1, 2, 3):
        ps = PIECES if n < 3 else [p for i, p in enumerate(PIECES) if i % 4 == 1 or p[0] in ("\\\\", '\\"', "0", "\\x01", "\\000")]
        for w in itertools.product(ps, repeat=n):
            if any(len(a[0]) == 4 and a[0][:2] == "\\0" and a[0][2] in "0123" and b[0][0] in "01234567" for a, b in zip(w, w[1:])):
                continue        # a digit more is part of the escape sequence
            yield '"' + "".join(p[0] for p in w) + '"', "".join(p[1] for p in w)
    for p, v in HIGH:
        for a, av in [("", "")] + PIECES[:8]:
            yield '"%s%s"' % (a, p), av + v
            yield '"%s%s"' % (p, a), v + av
    few = [p for p in PIECES if p[0] in ("a", "0", "7", "f", "u", "/", "?", "\\\\", '\\"', "\\x01", "\\x41", "\\u00e9", "\\u0041", "\\u000a", "\\000", "\\012", "\\0101", "\u20ac")]
    for a, b in itertools.product(few, repeat=2):
        yield '"%s" + "%s"' % (a[0], b[0]), a[1] + b[1]
    for w in itertools.product("?/='(!<>-", repeat=1):
        yield '"??%s"' % w, "??" + w[0]
    yield '"u0041"', "u0041"
    yield '"\\\\u0041"', "\\u0041"
    yield '"\\\\\\u0041"', "\\A"
    yield '"\\\\\\\\u0041"', "\\\\u0041"
    yield '"\\\\x41"', "\\x41"
    yield '"\\\\\\x41"', "\\A"
    yield '"\\\\0101"', "\\0101"


# --- floating point

FLOATS = ["0.0", "-0.0", "1.0", "-1.0", "+2.5", ".5", "5.", "-.25", "0.1", "3.14", "31.4e-1", "314e-2", "0.314E+1", "1e10", "1E-10", "16777217.0", "16777215.0", "65504.0", "-65504.0", "6.1035e-5", "5.96e-8",
          "3.4028234663852886e38", "1.17549435e-38", "1.401298464324817e-45", "1e-45", "123456789.125", "4503599627370497.5", "9007199254740993.0", "00.5", "007.25", "1e0", "1e+0"]
DOUBLES = ["1.7976931348623157e308", "-1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "1e300", "0.30000000000000004", "179769313486231570000000000000000000000.0e200"]
TEN = ["%s10" % s for s in ("", "-")] + ["0", "7", "0x10", "11b", "010"]


def floats():
    for t in ("float16", "float32", "float64"):
        for x in FLOATS + (DOUBLES if t == "float64" else []):
            yield t, x, float(x)
            if x not in DOUBLES:
                yield t, x + "f", float(x)
                yield t, x + "F", float(x)
        yield t, "1.5 + 2.25", 3.75
        yield t, "-(1.5 * 2.0)", -3.0


def agrees(t, text, want, got):
    """float32 and single precision literals are rounded in some languages"""
    f32 = lambda x: struct.unpack(">f", struct.pack(">f", x))[0]
    if t != "float64" or text[-1] in "fF":
        return struct.pack(">f", got) == struct.pack(">f", want) or struct.pack(">f", got) == struct.pack(">f", f32(want))
    return struct.pack(">d", got) == struct.pack(">d", want)


# --- the schema: a list of (place, name, type, text, value)

class Part:
    def __init__(self, pkg, kind, items):
        self.pkg, self.kind, self.items = pkg, kind, items      # items: (type, text, value)

    def schema(self):
        p, o = self.pkg, ["package %s;\n" % self.pkg]
        if self.kind == "const":
            o += ["const %s K%d = %s;\n" % (t, i, x) for i, (t, x, _) in enumerate(self.items)]
        elif self.kind == "field":
            o += ["struct S\n{\n"] + ["    %s f%d = %s;\n" % (t, i, x) for i, (t, x, _) in enumerate(self.items)] + ["};\n"]
        elif self.kind == "function":
            o += ["struct S\n{\n"] + ["    function %s f%d() { return %s; }\n" % (t, i, x) for i, (t, x, _) in enumerate(self.items)] + ["};\n"]
        elif self.kind == "enum":
            for i, (t, xs, _) in enumerate(self.items):
                o += ["enum %s E%d { %s };\n" % (t, i, ", ".join("I%d = %s" % (j, x) if x else "I%d" % j for j, x in enumerate(xs)))]
        elif self.kind == "bitmask":
            for i, (t, xs, _) in enumerate(self.items):
                o += ["bitmask %s E%d { %s };\n" % (t, i, ", ".join("I%d = %s" % (j, x) if x else "I%d" % j for j, x in enumerate(xs)))]
        elif self.kind == "named":
            o += [NAMED] + ["const %s K%d = %s;\n" % (t, i, x) for i, (t, x, _) in enumerate(self.items)]
        return "".join(o)

    def names(self):
        """(label, place, name, index, expected, type, text)"""
        for i, it in enumerate(self.items):
            if self.kind in ("enum", "bitmask"):
                for j, v in enumerate(it[2]):
                    yield ("E%d" % i, "I%d" % j, v, it[0], (it[1][j] or "implicit"))
            else:
                yield ("%s%d" % ("K" if self.kind in ("const", "named") else "f", i), "", it[2], it[0], it[1])


NAMED = """enum int16 En { LOW = -32768, ZERO = 0, HIGH = 32767 };
bitmask uint16 Mk { LOW = 1, HIGH = 0x8000 };
const int16 BASE = -300;
const bool YES = true;
const int64 LONG = 1024;
const string TEXT = "te\\\\xt";
const float64 HALF = 0.5;
subtype uint32 Word;
subtype En Sub;
subtype string Str;
"""
NAMED_ITEMS = [("En", "En.LOW", "LOW"), ("En", "En.HIGH", "HIGH"), ("Sub", "En.ZERO", "ZERO"), ("Mk", "Mk.LOW", 1), ("Mk", "Mk.LOW | Mk.HIGH", 0x8001), ("int16", "BASE", -300), ("int32", "BASE * 2 + 1", -599), ("uint8", "-BASE / 7", 42),
               ("bool", "YES", True), ("bool", "false", False), ("bool", "!YES", False), ("bool", "BASE < 0", True), ("string", "TEXT", "te\\xt"), ("string", 'TEXT + "\\x41"', "te\\xtA"), ("Str", '"a" + TEXT + TEXT', "ate\\xtte\\xt"),
               ("float64", "HALF", 0.5), ("float32", "HALF + HALF", 1.0), ("Word", "0xFFFFFFFF", 0xFFFFFFFF), ("int16", "valueof(En.LOW)", -32768), ("uint16", "valueof(Mk.HIGH)", 0x8000), ("uint8", "numbits(300)", 9),
               ("int32", "YES ? 1 : 2", 1), ("int64", "(LONG << 30) - 1", (1 << 40) - 1), ("int32", "LONG / 8", 128), ("uint8", "LONG / 8", 128), ("float32", "HALF", 0.5), ("float16", "HALF * 3.0", 1.5), ("uint32", 'lengthof("a\\n\\x41\\u20ac\\\\\\"\\012")', 9), ("uint8", "~0 & 0xFF", 255)]


def enum_items():
    """Enumerations and bitmasks: all explicit boundary values in falling order (enumerations), implicit ones behind each"""
    es, bs = [], []
    for t, lo, hi in TYPES:
        vs = [v for v in values(lo, hi)]
        es.append((t, ["%d" % v for v in vs[::-1]], vs[::-1]))
        xs, ws, used = [], [], set()
        for v in vs:
            if v in used:
                continue
            xs.append("%d" % v), ws.append(v), used.add(v)
            if v + 1 <= hi and v + 1 not in used:
                xs.append(None), ws.append(v + 1), used.add(v + 1)
        es.append((t, xs, ws))
        if lo == 0:
            n = hi.bit_length()
            bs.append((t, ["%d" % v for v in vs if v], [v for v in vs if v]))
            bs.append((t, [None] * min(n, 70), [1 << i for i in range(n)]))
            if n > 2:
                bs.append((t, ["0x%x" % (1 << n // 2)] + [None] * (n - 1 - n // 2), [1 << i for i in range(n // 2, n)]))
    return es, bs


def parts(thorough):
    out = []

    def add(kind, items, size):
        items = list(items)
        for i in range(0, len(items), size):
            out.append(Part("k%d" % len(out), kind, items[i:i + size]))
    ints, strs, fls = list(integers(thorough)), [("string", x, v) for x, v in strings(thorough)], list(floats())
    short = [s for s in strs if len(s[2]) < 2 or "+" in s[1]] + strs[50::41]
    add("const", [i for i in ints], 150)
    add("function", ints, 300), add("field", ints, 100)
    add("const", short, 150), add("field", short, 100), add("function", strs, 400)
    add("const", fls, 150), add("field", fls, 150), add("function", [f for f in fls if f[0] == "float64"], 300)
    add("field", [("bool", "true", True), ("bool", "false", False)], 9)
    add("named", NAMED_ITEMS, 99)
    lens = [("uint32", "lengthof(%s)" % x, len(v.encode("utf8"))) for x, v in strings(False) if "+" not in x and not any(h[0] in x for h in HIGH)]
    add("const", lens[::37], 150), add("function", lens, 400)
    es, bs = enum_items()
    add("enum", es, 40), add("bitmask", bs, 40)
    return out


# --- the three languages: every value as one line

def py_main(task):
    """Worker: runs the generated Python code of one part."""
    gen, lo, hi, thorough = task
    import sys
    sys.dont_write_bytecode = True
    sys.path.insert(0, gen)
    import importlib
    res = Res()
    for part in parts(thorough)[lo:hi]:
        got = []
        try:
            api = importlib.import_module(part.pkg + ".api")
            s = api.S() if part.kind in ("field", "function") else None
            for n, sub, v, t, x in part.names():
                if part.kind == "const":
                    g = getattr(api, n)
                elif part.kind == "field":
                    g = getattr(s, n)
                elif part.kind == "function":
                    g = getattr(s, n)()
                elif part.kind == "enum":
                    g = getattr(api, n)[sub].value
                elif part.kind == "bitmask":
                    g = getattr(getattr(api, n).Values, sub).value
                else:
                    g = getattr(api, n)
                    g = g.name if t in ("En", "Sub") else g.value if t == "Mk" else g
                got.append(g)
        except Exception as e:
            res.bad("python-build:%s" % part.kind, "generated Python package with %s %s: %r" % (part.kind, part.items[:2], e))
            continue
        judge(res, "python", part, [enc(g) for g in got])
    return res.out()


def enc(v):
    if isinstance(v, bool):
        return "b:%d" % v
    if isinstance(v, int):
        return "i:%d" % v
    if isinstance(v, float):
        return "f:" + struct.pack(">d", v).hex()
    if isinstance(v, str):
        return "s:" + v.encode("utf-8", "surrogatepass").hex()
    return "?:" + repr(v)


def kind_of(t):
    return "f" if t.startswith("float") else "s" if t in ("string", "Str", "En", "Sub") else "b" if t == "bool" else "i"


def judge(res, lang, part, lines):
    names = list(part.names())
    if len(lines) != len(names):
        res.bad("%s-lost:%s" % (lang, part.kind), "%d values for %d %ss: %s" % (len(lines), len(names), part.kind, lines[-1:]))
        return
    res.states += len(names)
    for (n, sub, want, t, x), line in zip(names, lines):
        res.transitions += 1
        if x and any(h[0] in x for h in HIGH) and lang == "cpp":
            continue
        k, _, data = line.partition(":")
        ok = k == kind_of(t)
        if ok and k == "f":
            ok = agrees(t, x, want, struct.unpack(">d", bytes.fromhex(data))[0])
        elif ok:
            ok = line == enc(want)
        res.traces += 1
        if not ok:
            shown = bytes.fromhex(data) if k == "s" else line
            res.bad("%s:%s:%s:%s" % (lang, part.kind, t.split(":")[0] if part.kind != "function" or t == "string" else "number", x), "%s: %s %s = %s is %s, %r expected" % (lang, part.kind, t, x, shown, want))


def java_source(part):
    """A class that prints all values of the part"""
    o, calls = [], []
    for i, (n, sub, v, t, x) in enumerate(part.names()):
        if part.kind in ("const", "named"):
            e = "%s.%s.%s" % (part.pkg, n, n)
            if part.kind == "named":
                e += ".name()" if t in ("En", "Sub") else ".getValue()" if t == "Mk" else ""
        elif part.kind == "field":
            e = "s.get%s()" % (n[0].upper() + n[1:])
        elif part.kind == "function":
            e = "s.funcF%s()" % n[1:]
        elif part.kind == "enum":
            e = "%s.%s.%s.getValue()" % (part.pkg, n, sub)
        else:
            e = "%s.%s.Values.%s.getValue()" % (part.pkg, n, sub)
        calls.append("        out(o, %s);\n" % e)
    body, k = [], 100
    for i in range(0, len(calls), k):
        body.append("    static void m%d(java.io.PrintStream o%s)\n    {\n%s    }\n" % (i // k, ", %s.S s" % part.pkg if part.kind in ("field", "function") else "", "".join(calls[i:i + k])))
    s = "new %s.S()" % part.pkg
    return '''public final class Main_%s
{
    static void out(java.io.PrintStream o, long v) { o.println("i:" + v); }
    static void out(java.io.PrintStream o, java.math.BigInteger v) { o.println("i:" + v); }
    static void out(java.io.PrintStream o, boolean v) { o.println("b:" + (v ? 1 : 0)); }
    static void out(java.io.PrintStream o, double v) { o.println("f:" + String.format("%%016x", Double.doubleToRawLongBits(v))); }
    static void out(java.io.PrintStream o, String v)
    {
        StringBuilder b = new StringBuilder("s:");
        for (byte x : v.getBytes(java.nio.charset.StandardCharsets.UTF_8))
            b.append(String.format("%%02x", x));
        o.println(b);
    }
%s
    public static void main(String[] args)
    {
        java.io.PrintStream o = new java.io.PrintStream(new java.io.BufferedOutputStream(System.out));
        %s
%s        o.flush();
    }
}
''' % (part.pkg, "".join(body), "%s.S s = %s;" % (part.pkg, s) if part.kind in ("field", "function") else "", "".join("        m%d(o%s);\n" % (i, ", s" if part.kind in ("field", "function") else "") for i in range(len(body))))


def cpp_source(part):
    o = ['#include <cstdio>\n#include <cstring>\n#include "zserio/StringView.h"\n']
    incs, calls = [], []
    for n, sub, v, t, x in part.names():
        if part.kind in ("const", "named"):
            incs.append(n)
            e = "::%s::%s" % (part.pkg, n)
            if part.kind == "named":
                e = "zserio::enumToString(%s)" % e if t in ("En", "Sub") else e + ".getValue()" if t == "Mk" else e
        elif part.kind == "field":
            incs.append("S")
            e = "s.get%s()" % (n[0].upper() + n[1:])
        elif part.kind == "function":
            incs.append("S")
            e = "s.funcF%s()" % n[1:]
        elif part.kind == "enum":
            incs.append(n)
            e = "zserio::enumToValue(::%s::%s::%s)" % (part.pkg, n, sub)
        else:
            incs.append(n)
            e = "::%s::%s(::%s::%s::Values::%s).getValue()" % (part.pkg, n, part.pkg, n, sub)
        calls.append("    out(%s);\n" % e)
    o += ['#include "%s/%s.h"\n' % (part.pkg, i) for i in dict.fromkeys(incs)]
    o.append('''
namespace
{
void out(bool v) { std::printf("b:%%d\\n", v ? 1 : 0); }
void out(double v) { uint64_t u; std::memcpy(&u, &v, 8); std::printf("f:%%016llx\\n", static_cast<unsigned long long>(u)); }
void out(float v) { out(static_cast<double>(v)); }
void num(long long v) { std::printf("i:%%lld\\n", v); }
void num(unsigned long long v) { std::printf("i:%%llu\\n", v); }
void out(int8_t v) { num(static_cast<long long>(v)); }
void out(int16_t v) { num(static_cast<long long>(v)); }
void out(int32_t v) { num(static_cast<long long>(v)); }
void out(int64_t v) { num(static_cast<long long>(v)); }
void out(uint8_t v) { num(static_cast<unsigned long long>(v)); }
void out(uint16_t v) { num(static_cast<unsigned long long>(v)); }
void out(uint32_t v) { num(static_cast<unsigned long long>(v)); }
void out(uint64_t v) { num(static_cast<unsigned long long>(v)); }
void out(zserio::StringView v) { std::printf("s:"); for (char c : v) std::printf("%%02x", static_cast<unsigned char>(c)); std::printf("\\n"); }
void out(const std::string& v) { out(zserio::StringView(v.data(), v.size())); }
void out(const char* v) { out(zserio::StringView(v, std::strlen(v))); }
}
void main_%s()
{
%s%s}
''' % (part.pkg, "    ::%s::S s;\n" % part.pkg if part.kind in ("field", "function") else "", "".join(calls)))
    return "".join(o)


def build_and_judge(task):
    """Worker: one part in Java or C++."""
    lang, cp_or_flags, gen, index, thorough, objs = task
    part = parts(thorough)[index]
    res = Res()
    d = os.path.join(zbuild.scratch(), "%s_%s" % (lang, part.pkg))
    os.makedirs(d, exist_ok=True)
    try:
        if lang == "cpp":
            with open(d + "/m.cpp", "w") as f:
                f.write(cpp_source(part) + "int main() { main_%s(); return 0; }\n" % part.pkg)
            o = zbuild.cxx_objects(zbuild.find(os.path.join(gen, part.pkg), ".cpp") + [d + "/m.cpp"], d, ["-std=c++11", "-O0", "-w", "-I" + gen, "-I" + zbuild.CPP_RT], 1, gen=True)
            zbuild.run(["g++", "-o", d + "/prog"] + o + objs, "link")
            cmd = [d + "/prog"]
        else:
            with open(d + "/Main_%s.java" % part.pkg, "w", encoding="utf8") as f:
                f.write(java_source(part))
            zbuild.javac(d + "/classes", zbuild.find(os.path.join(gen, part.pkg), ".java") + [d + "/Main_%s.java" % part.pkg], cp_or_flags)
            cmd = [zbuild.JAVA, "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-cp", d + "/classes:" + cp_or_flags, "Main_" + part.pkg]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        lines = p.stdout.decode("ascii", "replace").split()
        if p.returncode:
            lines.append("exit code %d" % p.returncode)
    except zbuild.GenError as e:
        res.bad("%s-build:%s" % (lang, part.kind), str(e)[-800:])
        return res.out()
    judge(res, lang, part, lines)
    return res.out()


def write(src, ps):
    os.makedirs(src, exist_ok=True)
    for p in ps:
        with open(os.path.join(src, p.pkg + ".zs"), "w", encoding="utf8") as f:
            f.write(p.schema())
    with open(os.path.join(src, "all.zs"), "w") as f:
        f.write("package all;\n" + "".join("import %s.*;\n" % p.pkg for p in ps))
