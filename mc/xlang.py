"""Replays model traces on generated Java / C++ code through the drivers in mc/java and mc/cpp.

A trace is a line for the driver with the reference encoding of a value at some start position and the JSON text of the value;
the driver reads, measures, writes, exports, imports and compares, and reports everything; the observations are judged here."""
import base64, json, os, re, struct, subprocess
from copy import deepcopy
from . import families, py_gen, py_json, zbuild
from .ref import *
from .py_gen import cut, norm
from .pool import Res


def b64(s):
    return base64.b64encode(s.encode("utf8")).decode()


def pairs(p):
    return ("#obj", p)


def json_model(t, v):
    return py_json.text(py_json.tree(t, v), None)


def parse_json(text):
    return json.loads(text, object_pairs_hook=pairs)


def json_diff(t, v, j, path=""):
    """None if the parsed JSON j is the documented mapping of model value v, else a description."""
    if isinstance(t, Sub):
        t = t.t
    if isinstance(t, Compound):
        if not (isinstance(j, tuple) and j[0] == "#obj"):
            return path + ": not an object"
        want = [(f, v.get(f.name)) for f in t.fields] if isinstance(t, Struct) else [(f, v[1]) for f in t.all_fields() if f.name == v[0]]
        if [k for k, _ in j[1]] != [f.name for f, _ in want]:
            return "%s: members %s, expected %s" % (path, [k for k, _ in j[1]], [f.name for f, _ in want])
        for (f, x), (_, y) in zip(want, j[1]):
            d = fdiff(f, x, y, path + "." + f.name)
            if d:
                return d
        return None
    if isinstance(t, Float):
        try:
            y = float(j)
        except (TypeError, ValueError):
            return "%s: %r" % (path, j)
        x = norm(t, v) if t.bits == 32 else v
        if t.bits != 64 and y == y and abs(y) != float("inf"):
            y = struct.unpack(">f", struct.pack(">f", y))[0]
        return None if (x == y or x != x and y != y) else "%s: %r, expected %r" % (path, j, x)
    w = json.loads(py_json.text(py_json.leaf_tree(t, v, False), None), object_pairs_hook=pairs)
    return None if w == j and type(w) is type(j) else "%s: %r, expected %r" % (path, j, w)


def fdiff(f, x, y, path):
    if x is None:
        return None if y is None else "%s: %r, expected null" % (path, y)
    if f.arr is not None:
        if not isinstance(y, list) or len(y) != len(x):
            return "%s: %r, expected %d elements" % (path, cut(y, 0), len(x))
        for i, (a, b) in enumerate(zip(x, y)):
            d = json_diff(f.t, a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return json_diff(f.t, x, y, path)


def at(b, start):
    """(hex, end bit) of the reference bits placed after `start` one bits."""
    n = start + b.n
    v = (((1 << start) - 1) << b.n) | b.acc
    return (v << (-n % 8)).to_bytes((n + 7) // 8, "big").hex(), n


class Lines:
    """Collects driver lines and what is expected of each."""

    def __init__(self):
        self.lines, self.exp = [], []

    def add(self, cls, mode, start, end, hexd, js, exp):
        self.lines.append("%d\t%s\t%s\t%d\t%d\t%s\t%s" % (len(self.lines), cls, mode, start, end, hexd, js))
        self.exp.append(exp)


def wire_lines(L, p, starts, stride=1):
    """Every value of the family at every start position."""
    n = 0
    for t, values, args in p.cases:
        for v in values:
            n += 1
            if n % stride:
                continue
            js = json_model(t, encode(t, v, args)[0])
            for s in starts:
                v1, b1 = encode(t, v, args, s)
                hexd, end = at(b1, s)
                L.add("%s.%s" % (p.name, t.name), "W", s, end, hexd, b64(js), (p, t, v1, b1, s, hexd, end))


def has_offset_fields(t):
    return has_offsets(t)


def judge_wire(res, L, outs, lang):
    for line, exp, out in zip(L.lines, L.exp, outs):
        p, t, v, b, s, hexd, end = exp
        key = "%s:%s:%s@%d" % (p.name, t.name, cut(v, 80)[:70], s)
        o = out.split("\t")
        res.states += 1
        res.transitions += 7
        if o[1] != "OK":
            res.bad("%s-fail:%s" % (lang, key), "%s.%s %s at bit %d (%s): %s failed: %s %s" % (p.name, t.name, cut(v, 0), s, hexd, o[2], o[3], base64.b64decode(o[4]).decode("utf8", "replace") if len(o) > 4 else ""))
            continue
        cons, size, endp, wr, js, wr2, eq = o[2:9]
        want = "%d:%s" % (end, hexd)
        d = None
        if int(cons) != b.n:
            d = "read consumed %s bits, %d expected" % (cons, b.n)
        elif int(size) != b.n:
            d = "bitSizeOf(%d) is %s, %d expected" % (s, size, b.n)
        elif int(endp) != end:
            d = "initializeOffsets(%d) is %s, %d expected" % (s, endp, end)
        elif wr != want:
            d = "read from %s, written back as %s" % (want, wr)
        elif js != "-":
            try:
                text = base64.b64decode(js).decode("utf8")
                d = json_diff(t, norm(t, v), parse_json(text))
            except Exception as e:
                d = "JSON export %r: %s" % (text[:300], e)
            if d:
                d = "JSON export: " + d
            elif wr2 != "-" and wr2 != want:
                d = "imported from JSON and written: %s, %s expected" % (wr2, want)
        if d is None and "false" in eq.lower() and not (lang == "cpp" and has_nan(t, v)):
            d = "equal objects (imported, read again, copied) are not equal or not written equally: %s" % eq
        if d:
            res.bad("%s:%s" % (lang, key), "%s.%s %s at bit %d: %s" % (p.name, t.name, cut(v, 0), s, d))
        else:
            res.traces += 1
    return res


# ------------------------------------------------------------------------------------------------ damaged bits
def damage_lines(L, p, t, values, cap, nvals):
    """Every truncation and single bit flip (in the first and last `cap` bits) of encodings of the values."""
    step = max(1, len(values) // nvals)
    encs = {}
    for v in values[::step] + values[-1:]:
        _, b = encode(t, v, ())
        encs[(b.acc, b.n)] = b
    cls = "%s.%s" % (p.name, t.name)

    def one(d, n, what):
        m = py_gen.dec_model(t, d, n, ())
        if m is None:
            return
        again = None
        if m[0] == "ok":
            w = Bits(0, 0)
            try:
                t.enc_c(w, m[1], (), None, None)
                again = "%d:%s" % (w.n, w.bytes().hex())
            except Reject:
                again = "refused"
            except (Unspecified, TypeError, KeyError, AttributeError, IndexError, ZeroDivisionError):
                pass
        L.add(cls, "D", 0, n, d.hex(), "-", (p, t, d, n, what, m, again))
    for b in encs.values():
        data = b.bytes()
        for n in py_gen.positions(b.n, cap):
            one(data[:(n + 7) // 8], n, "truncated")
        for i in py_gen.positions(b.n, cap):
            d = bytearray(data)
            d[i // 8] ^= 0x80 >> (i % 8)
            one(bytes(d), b.n, "bit %d flipped" % i)
        one(data + b"\xc3", len(data) * 8 + 8, "extended")


def allbits_lines(L, p, t, bits):
    for n in bits:
        for x in range(1 << n):
            data = (x << (-n % 8)).to_bytes((n + 7) // 8, "big")
            m = py_gen.dec_model(t, data, n, ())
            if m is not None:
                L.add("%s.%s" % (p.name, t.name), "D", 0, n, data.hex(), "-", (p, t, data, n, "exhaustive", m, None))


def has_nan(t, v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, dict):
        return any(has_nan(t, x) for x in v.values())
    return isinstance(v, (list, tuple)) and any(has_nan(t, x) for x in v)


def wraps(t, data, n, o):
    """True if the driver accepted exactly what the model gives with widths modulo 256."""
    from . import ref
    ref.WIDTH_MOD = True
    try:
        m = py_gen.dec_model(t, data, n, ())
        if m is None or m[0] != "ok" or int(o[2]) != m[2]:
            return False
        w = Bits(0, 0)
        t.enc_c(w, m[1], (), None, None)
        return o[3] == "%d:%s" % (w.n, w.bytes().hex())
    finally:
        ref.WIDTH_MOD = False


def judge_damage(res, L, outs, lang):
    for exp, out in zip(L.exp, outs):
        p, t, data, n, what, m, again = exp
        o = out.split("\t")
        res.states += 1
        res.transitions += 2
        key = "dec:%s:%s:%s:%s/%d" % (lang, p.name, t.name, data.hex()[:60], n)
        head = "%s.%s from %s (%d bits; %s): " % (p.name, t.name, data.hex(), n, what)
        if m[0] == "err":
            if o[1] == "OK" and lang == "cpp" and wraps(t, data, n, o):
                res.bad("dynamic-width-modulo-256", head + "accepted with the width of a dynamic bit field taken modulo 256")
            elif o[1] == "OK":
                res.bad(key, head + "accepted (%s bits consumed), the model refuses it" % o[2])
            elif o[2] != "read":
                res.bad(key, head + "failed at %s: %s" % (o[2], o[3]))
            else:
                res.traces += 1
            continue
        if o[1] != "OK":
            res.bad(key, head + "failed at %s: %s %s; model %s" % (o[2], o[3], base64.b64decode(o[4]).decode("utf8", "replace"), cut(m[1], 0)))
            continue
        d = None
        if int(o[2]) != m[2]:
            d = "consumed %s bits, model %d" % (o[2], m[2])
        elif again == "refused":
            if not o[3].startswith("EXC"):
                d = "written back as %s, model refuses it" % o[3]
        elif again is not None and o[3] != again and not has_nan(t, m[1]):
            d = "written back as %s, model %s" % (o[3], again)
        if d is None and o[4] != "-" and "#absent" not in repr(m[1]):
            try:
                d = json_diff(t, norm(t, m[1]), parse_json(base64.b64decode(o[4]).decode("utf8")))
            except Exception as e:
                d = "JSON export: %s" % e
        if d:
            res.bad(key, head + d)
        else:
            res.traces += 1


# ------------------------------------------------------------------------------------------------ values to be refused
def mutant_lines(L, p, t, values, stride, lang):
    for v in values[::stride]:
        v0 = initialise(t, v, (), 0)
        for path, mv in py_gen.mutants(t, v0):
            if lang == "cpp" and path.endswith("-"):
                continue      # native members are never unset
            mv = deepcopy(mv)
            try:
                js = json_model(t, mv)
                w = Bits(0, 0)
                t.enc_c(w, mv, (), None, None)
                exp = "%d:%s" % (w.n, w.bytes().hex())
            except Reject:
                exp = None
            except (Unspecified, TypeError, KeyError, AttributeError, IndexError, ValueError):
                continue
            if exp is not None and path.endswith("over"):
                continue      # not representable in the native type, and not written
            known = None
            if exp is None:
                u = py_gen.unchecked(t, mv, (), 0)
                known = u and "%d:%s" % (u[1], u[0].hex())
            L.add("%s.%s" % (p.name, t.name), "J", 0, 0, "-", b64(js), (p, t, mv, path, exp, known))


def setter_checked(t, path):
    """True if the mutated member is an integer whose Java setter has to check the range (not one mapped to BigInteger)."""
    names = path.split("=")[0].split(".")[1:]
    if not re.match(r"^[fvo]\d*=-?\d+$", path.split(".")[-1]):
        return False
    for n in names:
        fs = t.fields if isinstance(t, Struct) else t.all_fields() if isinstance(t, Compound) else []
        t = next(f.t for f in fs if f.name == n)
    return isinstance(t, Int) and (t.signed or t.bits < 64) or isinstance(t, Dyn) and t.signed or isinstance(t, Var) and t.kind != "varuint"


def judge_mutants(res, L, outs, lang):
    for exp, out in zip(L.exp, outs):
        p, t, mv, path, want, known = exp
        o = out.split("\t")
        res.states += 1
        res.transitions += 2
        key = "%s:%s:%s:%s" % (lang, p.name, t.name, path)
        head = "%s.%s %s (mutation %s) " % (p.name, t.name, cut(mv, 0), path)
        if want is None:
            if o[1] == "OK" and o[2] == known:
                res.bad("packed-array-element-range", head + "was written as " + o[2])
            elif o[1] == "OK":
                res.bad("accepted:" + key, head + "was written as %s, model refuses it" % o[2])
            elif lang == "java" and p.name == "frng" and setter_checked(t, path) and o[2] != "fromJson":
                res.bad("setter:" + key, head + "was refused only when written, not by the setter (range check code)")
            else:
                res.traces += 1
        elif o[1] != "OK":
            res.bad("refused:" + key, head + "refused at %s: %s %s" % (o[2], o[3], base64.b64decode(o[4]).decode("utf8", "replace")))
        elif o[2] != want:
            res.bad("bits:" + key, head + "written as %s, model %s" % (o[2], want))
        else:
            res.traces += 1


def explore(task):
    """One slice of a family on one language: kind is wire, damage, allbits or mutants."""
    lang, kind, name, tier, lo, hi, arg, prog = task
    p = py_gen.family(name, tier)
    res = Res()
    L = Lines()
    from . import ref
    ref.NATIVE_BIG = lang == "java"
    sub = type(p).__new__(type(p))
    sub.__dict__.update(p.__dict__)
    sub.cases = p.cases[lo:hi]
    if kind == "wire":
        wire_lines(L, sub, arg[0], arg[1])
    for t, values, args in sub.cases:
        if not values:
            continue
        if kind == "damage":
            damage_lines(L, p, t, values, *arg)
        elif kind == "allbits":
            allbits_lines(L, p, t, arg)
        elif kind == "mutants":
            mutant_lines(L, p, t, values, arg, lang)
    if not L.lines:
        return res.out()
    outs = (run_java if lang == "java" else run_cpp)(prog, L.lines, name="%s%s%d" % (kind, name, lo))
    {"wire": judge_wire, "damage": judge_damage, "allbits": judge_damage, "mutants": judge_mutants}[kind](res, L, outs, lang)
    res.sample("%s %s %s[%d:%d]: %d traces, last %s" % (lang, kind, p.name, lo, hi, len(L.lines), L.lines[-1].split("\t", 1)[1][:160]))
    return res.out()


def slices(name, p, kind, n):
    from . import gencheck
    return [(lo, hi) for lo, hi in gencheck.chunks(len(p.cases), n)]


# ------------------------------------------------------------------------------------------------ Java
def tops(extra):
    """Top-level directories of further schema files."""
    return sorted({x.split("/")[0] for x in extra})


def java_build(cp, pkgs, rt, extra=()):
    """Generates and compiles Java code of the packages with the driver; returns the class path."""
    src, gen, out = [os.path.join(zbuild.scratch(), d) for d in ("zsj", "gen_java", "cls_java")]
    os.makedirs(src, exist_ok=True)
    for p in pkgs:
        p.write(src)
    zbuild.parallel(*[lambda p=p: zbuild.generate(cp, src, p.name + ".zs", "-java", gen, "-allowImplicitArrays", "-withTypeInfoCode", *extra) for p in pkgs])
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "java")

    def one(name, extra=()):
        return zbuild.javac(out + "/" + name, sum([zbuild.find(d, ".java") for d in ([here] if name == "driver" else [os.path.join(gen, x) for x in [name] + tops(extra)])], []), rt)
    zbuild.parallel(lambda: one("driver"), *[lambda p=p: one(p.name, p.extra) for p in pkgs])
    return ":".join([out + "/" + n for n in [p.name for p in pkgs] + ["driver"]] + [rt])


def run_java(cpath, lines, main="Replay", name="t", threads=1, props=()):
    d = zbuild.scratch()
    ti, to = os.path.join(d, "%s.%d.in" % (name, os.getpid())), os.path.join(d, "%s.%d.out" % (name, os.getpid()))
    with open(ti, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))
    p = subprocess.run([zbuild.JAVA, "-Xmx1500m", "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dthreads=%d" % threads, *props, "-cp", cpath, main, ti, to], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise zbuild.GenError("Java driver died: " + p.stdout.decode("utf8", "replace")[-3000:])
    with open(to) as f:
        outs = f.read().split("\n")[:-1]
    os.remove(ti), os.remove(to)
    return outs


# ------------------------------------------------------------------------------------------------ C++
def run_prog(prog, lines, name="t"):
    d = zbuild.scratch()
    ti, to = os.path.join(d, "%s.%d.in" % (name, os.getpid())), os.path.join(d, "%s.%d.out" % (name, os.getpid()))
    with open(ti, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))
    p = subprocess.run([prog, ti, to], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise zbuild.GenError("C++ driver died (%d): %s" % (p.returncode, p.stdout.decode("utf8", "replace")[-3000:]))
    with open(to) as f:
        outs = f.read().split("\n")[:-1]
    os.remove(ti), os.remove(to)
    return outs


def run_cpp(progs, lines, name="t"):
    return run_prog(progs[lines[0].split("\t")[1].split(".")[0]], lines, name)


def cpp_build(cp, pkgs, jsons, flags=("-O0",), opts=(), split=60, tag="", driver="replay"):
    """Generates and compiles C++ code of the packages with the driver; returns {package name: program}.
    Packages in jsons get reflection code (needed for JSON)."""
    src, gen = [os.path.join(zbuild.scratch(), d + tag) for d in ("zsc", "gen_cpp")]
    os.makedirs(src, exist_ok=True)
    flags = ["-std=c++11", "-w"] + list(flags)
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cpp")
    base = flags + ["-I" + here, "-I" + zbuild.CPP_RT]

    def prepare(p):
        """-> [(package, source, flags, object)]"""
        js = p.name in jsons
        p.write(src)
        zbuild.generate(cp, src, p.name + ".zs", "-cpp", gen, "-allowImplicitArrays", *(("-withTypeInfoCode", "-withReflectionCode") if js else ()), *opts)
        out = os.path.join(zbuild.scratch(), "prog_%s%s" % (p.name, tag))
        os.makedirs(out)
        names = sorted({t.name for t, values, _ in p.cases if values})
        files = sum([zbuild.find(os.path.join(gen, d), ".cpp") for d in [p.name] + tops(p.extra)], []) + ["%s/%s.cpp" % (here, driver), out + "/table.cpp"]
        n = 0
        for lo in range(0, len(names), split):
            part = names[lo:lo + split]
            with open("%s/reg%d.cpp" % (out, n), "w") as f:
                f.write("".join('#include "%s/%s.h"\n' % (p.name, x) for x in part) + '#include "%s.h"\n' % driver)
                f.write("namespace zvf {\nextern const Entry entries%d[];\nconst Entry entries%d[] = {\n%s};\n}\n" % (n, n, "".join('    {"%s.%s", &handle< ::%s::%s>},\n' % (p.name, x, p.name, x) for x in part)))
            files.append("%s/reg%d.cpp" % (out, n))
            n += 1
        with open(out + "/table.cpp", "w") as f:
            f.write('#include "%s.h"\nnamespace zvf {\n' % driver + "".join("extern const Entry entries%d[];\n" % i for i in range(n)))
            f.write("extern const Entry entries[];\nextern const size_t numEntries;\nconst Entry entries[] = {\n" + "".join("entries%d[%d],\n" % (i // split, i % split) for i in range(len(names))))
            f.write("};\nconst size_t numEntries = %d;\n}\n" % len(names))
        fl = base + (["-DZVF_JSON"] if js else []) + ["-I" + gen]
        return [(p.name, f, fl, "%s/%d.o" % (out, i)) for i, f in enumerate(files)]
    res = zbuild.parallel(lambda: zbuild.cpp_runtime_objs(flags, zbuild.CLANG), *[lambda p=p: prepare(p) for p in pkgs])
    rt, jobs = res[0], sum(res[1:], [])
    jobs.sort(key=lambda j: -os.path.getsize(j[1]) * (4 if "-DZVF_JSON" in j[2] else 1))
    zbuild.compile_jobs([(f, fl, o) for _, f, fl, o in jobs], zbuild.CLANG)
    progs = {}
    for p in pkgs:
        progs[p.name] = os.path.join(zbuild.scratch(), "prog_%s%s" % (p.name, tag), "prog")
        zbuild.run([zbuild.CLANG] + [f for f in flags if f.startswith("-fsan")] + ["-o", progs[p.name]] + [o for n, _, _, o in jobs if n == p.name] + rt, "link")
    return progs
