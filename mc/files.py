"""Serialization and debug string helpers over buffers, bytes, streams and files.

Model: a file is missing, a directory, or has contents; a writer helper replaces the contents by exactly the encoding of the object or
fails; a reader helper is a function of the contents. Histories of writers over one path are explored, every reader tried in every state."""
import itertools, os, struct
from . import zbuild
from .pool import Res

SCHEMA = '''package ff;
struct Item { bit:3 a; string s; };
struct Par(uint8 n) { uint8 xs[n]; bool last; };
enum uint16 En { LOW = 1, HIGH = 513 };
bitmask bit:5 Mk { ONE = 1, TEN = 16 };
'''
ITEMS = [(5, ""), (0, "a"), (7, "z\u20ac\"\n"), (2, "long " * 60), (3, "x" * 20000)]
PARS = [([], True), ([7], False), ([1, 255, 0], True)]
ENUMS = [("LOW", 1), ("HIGH", 513)]
MASKS = [0, 1, 17]


# --- encodings

def varsize(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.insert(0, n & 0x7f | 0x80)
        n >>= 7
    assert len(out) < 5
    return "".join("{:08b}".format(b) for b in out)


def bits_of(kind, v):
    if kind == "I":
        d = v[1].encode()
        return "{:03b}".format(v[0]) + varsize(len(d)) + "".join("{:08b}".format(b) for b in d)
    if kind == "P":
        return "".join("{:08b}".format(x) for x in v[0]) + "%d" % v[1]
    if kind == "E":
        return "{:016b}".format(v[1])
    return "{:05b}".format(v)


def pack(bits):
    bits += "0" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


class Bad(Exception):
    pass


def decode(kind, data, nbits, arg):
    """Value | Bad"""
    bits, pos = "".join("{:08b}".format(b) for b in data)[:nbits], 0

    def take(n):
        nonlocal pos
        if pos + n > len(bits):
            raise Bad
        pos += n
        return int(bits[pos - n:pos] or "0", 2)
    if kind == "I":
        a, n = take(3), 0
        for i in range(5):
            b = take(8)
            n = n << 7 | b & 0x7f if i < 4 else n << 8 | b
            if i == 4 or not b & 0x80:
                break
        if n >= 1 << 31:
            raise Bad
        if pos + 8 * n > len(bits):
            raise Bad
        return (a, bytes(take(8) for _ in range(n)))
    if kind == "P":
        return ([take(8) for _ in range(arg)], bool(take(1)))
    if kind == "E":
        v = take(16)
        if v not in (1, 513):
            raise Bad
        return v
    return take(5)


def show(kind, v):
    if kind == "I":
        return "%d,%s" % (v[0], (v[1] if isinstance(v[1], bytes) else v[1].encode()).hex())
    if kind == "P":
        return "%s,%d" % (".".join(map(str, v[0])), v[1])
    if kind == "E":
        return "%d" % (v[1] if isinstance(v, tuple) else v)
    return "%d" % v


# --- texts

def quote(s):
    out = ""
    for c in s:
        out += {'"': '\\"', "\\": "\\\\", "\n": "\\n"}.get(c, c)
    return '"' + out + '"'


def text(kind, v, indent, filt):
    """JSON text; indent None: one line"""
    nl = lambda d: "" if indent is None else "\n" + " " * (indent * d)
    sep = ", " if indent is None else ","
    fields = []
    if kind == "I":
        fields = ['"a": %d' % v[0], '"s": ' + quote(v[1])]
    else:
        xs = v[0][:1] if filt == "L1" else v[0]
        arr = "[" + sep.join(nl(2) + str(x) for x in xs) + nl(1) + "]"
        fields = ['"xs": ' + arr, '"last": ' + ("true" if v[1] else "false")]
    return "{" + sep.join(nl(1) + f for f in fields) + nl(0) + "}"


# --- what the drivers are asked: (operation line, expected | None for open, label)

def values():
    for v in ITEMS:
        yield "I", v, 0
    for v in PARS:
        yield "P", v, len(v[0])
    for v in ENUMS:
        yield "E", v, 0
    for v in MASKS:
        yield "M", v, 0


def hx(b):
    return b.hex() or "-"


def expected_read(kind, data, nbits, arg):
    try:
        v = decode(kind, data, nbits, arg)
    except Bad:
        return "ERR"
    if kind == "I":
        try:
            v[1].decode()
        except UnicodeDecodeError:
            return None
    return show(kind, v)


BAD_PATHS = ["@/missing/f", "@", "/dev/full"]


def single(lang):
    """Operations without history"""
    for kind, v, arg in values():
        b, s = bits_of(kind, v), show(kind, v)
        d = pack(b)
        yield "ser %s %s %d" % (kind, s, arg), "%d %s" % (len(b), hx(d)), "serialize"
        yield "sby %s %s %d" % (kind, s, arg), hx(d), "serialize to bytes"
        if len(d) < 1000:
            for n in range(len(b) + 1) if len(b) < 80 else list(range(0, 40)) + [len(b) - 9, len(b) - 1, len(b)]:
                yield "des %s %d %s %d" % (kind, n, hx(d[:(n + 7) // 8]), arg), expected_read(kind, d, n, arg), "deserialize"
            for n in range(len(d) + 1):
                yield "dby %s %s %d" % (kind, hx(d[:n]), arg), expected_read(kind, d[:n], 8 * n, arg), "deserialize from bytes"
            yield "dby %s %s %d" % (kind, hx(d + b"\xff\x00"), arg), s, "deserialize from bytes"
        yield "des %s %d %s %d" % (kind, len(b), hx(d), arg), s, "deserialize"
        if kind in "EM" and lang == "cpp":
            continue        # no file helpers for enumerations
        for p in BAD_PATHS:
            yield "sfi %s %s %d %s" % (kind, s, arg, p), "ERR", "serialize to file"
        for p in BAD_PATHS[:2]:
            yield "dfi %s %s %d" % (kind, p, arg), "ERR", "deserialize from file"
    for kind, v, arg in values():
        if kind in "EM":
            continue
        s = show(kind, v)
        for filt in ("N", "L1"):
            for ind in ("D", "0", "2") + (("C",) if lang == "python" else ()):
                t = text(kind, v, {"D": 4, "C": None, "0": 0, "2": 2}[ind], filt)
                yield "jst %s %s %d %s %s" % (kind, s, arg, ind, filt), hx(t.encode()), "to JSON string"
                yield "jss %s %s %d %s %s" % (kind, s, arg, ind, filt), hx(t.encode()), "to JSON stream"
                for p in BAD_PATHS:
                    yield "jfi %s %s %d %s %s %s" % (kind, s, arg, ind, filt, p), "ERR", "to JSON file"
                if filt == "N":
                    yield "kst %s %s %d" % (kind, hx(t.encode()), arg), s, "from JSON string"
                    yield "kss %s %s %d" % (kind, hx(t.encode()), arg), s, "from JSON stream"
                    if len(t) < 60:
                        for n in range(len(t)):
                            yield "kst %s %s %d" % (kind, hx(t[:n].encode()), arg), "ERR", "from JSON string"
        for p in BAD_PATHS[:2]:
            yield "kfi %s %s %d" % (kind, p, arg), "ERR", "from JSON file"


def writers():
    """(name, operation with path %s, contents afterwards | None missing)"""
    out = []
    for kind, i in (("I", 1), ("I", 2), ("I", 3), ("I", 4), ("P", 2)):
        v = (ITEMS if kind == "I" else PARS)[i]
        arg = 0 if kind == "I" else len(v[0])
        out.append(("sfi%s%d" % (kind, i), "sfi %s %s %d %%s" % (kind, show(kind, v), arg), pack(bits_of(kind, v))))
        for ind in ("D", "2") if i == 2 else ("D",):
            out.append(("jfi%s%d%s" % (kind, i, ind), "jfi %s %s %d %s N %%s" % (kind, show(kind, v), arg, ind), text(kind, v, 4 if ind == "D" else 2, "N").encode()))
    out.append(("cut", "put %%s %s" % hx(pack(bits_of("I", ITEMS[3]))[:-1]), pack(bits_of("I", ITEMS[3]))[:-1]))
    out.append(("empty", "put %s -", b""))
    out.append(("junk", "put %%s %s" % ("00" * 700), b"\0" * 700))
    out.append(("del", "del %s", None))
    return out


TEXTS = {}
for _i, _v in enumerate(ITEMS):
    for _n in (4, 2):
        TEXTS[text("I", _v, _n, "N").encode()] = ("I", show("I", _v))
for _v in PARS:
    for _n in (4, 2):
        TEXTS[text("P", _v, _n, "N").encode()] = ("P", show("P", _v))


def readers(path, content, lang):
    """Every reader of the state"""
    yield "cat %s" % path, "NONE" if content is None else hx(content), "contents"
    for kind, arg in (("I", 0), ("P", 3)) + ((("E", 0), ("M", 0)) if lang != "cpp" else ()):
        want = "ERR" if content is None else expected_read(kind, content, 8 * len(content), arg)
        yield "dfi %s %s %d" % (kind, path, arg), want, "deserialize from file"
    for kind, arg in (("I", 0), ("P", 3)):
        if content is None or not content or content[:1] != b"{":
            want = "ERR"
        else:
            k, s = TEXTS[content]
            want = s if k == kind else "ERR"
        if content is not None and len(content) > 10000 and content[:1] == b"{" and want == "ERR":
            want = None
        yield "kfi %s %s %d" % (kind, path, arg), want, "from JSON file"
    yield "fds %s" % path, "0", "open files"


def histories(lang, depth, part, parts):
    """depth 3: all writers; depth 4: those which differ in the size and kind of contents"""
    ws = writers() if depth < 4 else [w for w in writers() if w[0] in ("sfiI1", "sfiI4", "sfiP2", "jfiI3D", "jfiP22", "cut", "empty", "del")]
    for i, h in enumerate(itertools.product(ws, repeat=depth)):
        if i % parts != part:
            continue
        path = "@/h%d_%d" % (depth, i)
        for j, w in enumerate(h):
            yield w[1] % path, None if w[0] == "del" else "ok", "history %s: %s" % ("/".join(x[0] for x in h[:j + 1]), w[0])
            for op, want, label in readers(path, w[2], lang):
                yield op, want, "history %s: %s" % ("/".join(x[0] for x in h[:j + 1]), label)
        yield "del %s" % path, None, ""


def plan(lang, depth, part, parts):
    if part == 0:
        yield from single(lang)
    if depth > 3:
        yield from histories(lang, 3, part, parts)
    yield from histories(lang, depth, part, parts)


# --- Python

def python_ops(gen):
    import sys
    sys.dont_write_bytecode = True
    sys.path.insert(0, gen)
    import io
    import zserio
    from ff import api
    cls = {"I": api.Item, "P": api.Par, "E": api.En, "M": api.Mk}
    raw = lambda t: b"" if t == "-" else bytes.fromhex(t)

    def make(kind, s, arg):
        if kind == "I":
            a, _, t = s.partition(",")
            return api.Item(int(a), bytes.fromhex(t).decode())
        if kind == "P":
            xs, _, l = s.partition(",")
            return api.Par(arg, [int(x) for x in xs.split(".") if x], l == "1")
        return api.En(int(s)) if kind == "E" else api.Mk.from_value(int(s))

    def shown(kind, o):
        if kind == "I":
            return show("I", (o.a, o.s.encode("utf8", "surrogatepass")))
        if kind == "P":
            return show("P", (o.xs, o.last))
        return "%d" % o.value

    def args(kind, arg):
        return (arg,) if kind == "P" else ()

    def opts(ind, filt):
        o = {}
        if ind != "D":
            o["indent"] = None if ind == "C" else int(ind)
        if filt == "L1":
            o["walk_filter"] = zserio.ArrayLengthWalkFilter(1)
        return o

    def run(f):
        op = f[0]
        if op in ("ser", "sby", "sfi"):
            o = make(f[1], f[2], int(f[3]))
            if op == "ser":
                b = zserio.serialize(o)
                return "%d %s" % (b.bitsize, hx(bytes(b.buffer)))
            if op == "sby":
                return hx(zserio.serialize_to_bytes(o))
            zserio.serialize_to_file(o, f[4])
            return "ok"
        if op == "des":
            return shown(f[1], zserio.deserialize(cls[f[1]], zserio.BitBuffer(raw(f[3]), int(f[2])), *args(f[1], int(f[4]))))
        if op == "dby":
            return shown(f[1], zserio.deserialize_from_bytes(cls[f[1]], raw(f[2]), *args(f[1], int(f[3]))))
        if op == "dfi":
            return shown(f[1], zserio.deserialize_from_file(cls[f[1]], f[2], *args(f[1], int(f[3]))))
        if op in ("jst", "jss", "jfi"):
            o, kw = make(f[1], f[2], int(f[3])), opts(f[4], f[5])
            if op == "jst":
                return hx(zserio.to_json_string(o, **kw).encode())
            if op == "jss":
                s = io.StringIO()
                zserio.to_json_stream(o, s, **kw)
                return hx(s.getvalue().encode())
            zserio.to_json_file(o, f[6], **kw)
            return "ok"
        if op == "kst":
            return shown(f[1], zserio.from_json_string(cls[f[1]], raw(f[2]).decode(), *args(f[1], int(f[3]))))
        if op == "kss":
            return shown(f[1], zserio.from_json_stream(cls[f[1]], io.StringIO(raw(f[2]).decode()), *args(f[1], int(f[3]))))
        if op == "kfi":
            return shown(f[1], zserio.from_json_file(cls[f[1]], f[2], *args(f[1], int(f[3]))))
        if op == "put":
            with open(f[1], "wb") as o:
                o.write(raw(f[2]))
            return "ok"
        if op == "del":
            if os.path.exists(f[1]):
                os.remove(f[1])
            return "ok"
        if op == "cat":
            if not os.path.exists(f[1]):
                return "NONE"
            with open(f[1], "rb") as i:
                return hx(i.read())
        n = 0
        for x in os.listdir("/proc/self/fd"):
            try:
                n += os.readlink("/proc/self/fd/" + x).startswith(f[1])
            except OSError:
                pass
        return "%d" % n

    def one(line):
        try:
            return run(line.split(" "))
        except (zserio.PythonRuntimeException, OSError, ValueError, UnicodeError, TypeError, AttributeError, IndexError):
            return "ERR"
    return one


def judge(res, lang, ops, outs):
    if len(ops) != len(outs):
        res.bad(lang + "-lost", "%d answers to %d operations" % (len(outs), len(ops)))
        return
    for (op, want, label), got in zip(ops, outs):
        res.transitions += 1
        res.states += 1
        if want is None:
            continue
        res.traces += 1
        if got != want:
            first = op.split(" ")
            res.bad("%s:%s:%s" % (lang, label, op[:90]), "%s: %s: '%s' gives %s, %s expected" % (lang, label, op[:300], got[:300], want[:300]))


def work(task):
    lang, target, depth, part, parts = task
    res = Res()
    d = os.path.join(zbuild.scratch(), "files_%s_%d" % (lang, part))
    os.makedirs(d, exist_ok=True)
    ops = [(op.replace("@", d), want, label) for op, want, label in plan(lang, depth, part, parts)]
    if lang.startswith("python"):
        one = python_ops(target)
        outs = [one(op) for op, _, _ in ops]
    else:
        from . import xlang
        lines = [op for op, _, _ in ops]
        outs = xlang.run_java(target, lines, "Files", "files%d" % part, props=("-Dfile.encoding=" + ("UTF-8" if part % 2 else "ISO-8859-1"),)) if lang == "java" else xlang.run_prog(target, lines, "files%d" % part)
    judge(res, lang, ops, outs)
    return res.out()
