"""Exhaustive exploration of the Java and C++ JSON parsers: the texts of checks C10, in every chunking, against the same reference parser."""
import itertools, re, struct
from . import xlang
from .pool import Res
from .py_jparse import Unknown, reference


def shown(ev, lang):
    out = ""
    for e in ev:
        if isinstance(e, str):
            out += e + " "
        elif e[0] == "k":
            out += "k" + e[1].encode("latin-1" if lang == "cpp" else "utf8").hex() + " "
        else:
            v = e[1]
            if v is None:
                out += "n "
            elif isinstance(v, bool):
                out += "t " if v else "f "
            elif isinstance(v, int):
                out += "i%d " % v
            elif isinstance(v, float):
                out += "d%x " % (0x7ff8 << 48 if v != v else int.from_bytes(struct.pack(">d", v), "big"))
            else:
                out += "s" + v.encode("latin-1" if lang == "cpp" else "utf8").hex() + " "
    return out


def expect(s, lang):
    """The predicted answer of the driver, None where the outcome is unspecified."""
    if lang == "cpp":
        s = s.encode("utf8").decode("latin-1")
    try:
        ev, o = reference(s, lang)
    except Unknown:
        return None
    return shown(ev, lang) + ("E %d %d" % o[1:] if isinstance(o, tuple) else "T" if o else "F")


def words(task):
    label, alphabet, n, first, wraps = task
    for rest in itertools.product(alphabet, repeat=n - len(first)):
        w = "".join(first) + "".join(rest)
        for pre, post in wraps:
            yield pre + w + post


def explore(task):
    lang, prog, chunks, label, parts = task
    res = Res()
    texts = [s for p in parts for s in words(p)]
    lines = [" ".join(str(c) for c in chunks)] + [s.encode("utf8").hex() for s in texts]
    name = "%s%s%d" % (lang, label, abs(hash(str(parts[0]))))
    outs = xlang.run_java(prog, lines, "zserio.runtime.json.Texts", name) if lang == "java" else xlang.run_prog(prog, lines, name)
    if len(outs) != len(texts):
        res.bad("%s:%s:answers" % (lang, label), "driver answered %d of %d texts" % (len(outs), len(texts)))
        return res.out()
    for s, o in zip(texts, outs):
        o = o.split("\t")
        res.states += 1
        res.transitions += len(chunks)
        if any(x != "=" for x in o[1:]) and not s.endswith("\r"):
            k = [i for i, x in enumerate(o) if i and x != "="][0]
            res.bad("%s:chunk:%s:%r:%d" % (lang, label, s, chunks[k]), "%s: text %r read in chunks of %d: %s, otherwise %s" % (lang, s, chunks[k], o[k], o[0]))
            continue
        e = expect(s, lang)
        if e is not None:
            res.traces += 1
            if lang == "cpp" and o[0] != e and o[0] == re.sub(r"[\[{] (?=E)", "", e):
                continue        # C++ reports the begin of an object or array after the next token could be read
            if o[0] != e and not (s.endswith("\r") and " E " in " " + o[0] and " E " in " " + e and o[0].split("E ")[0] == e.split("E ")[0]):
                res.bad("%s:parse:%s:%r" % (lang, label, s), "%s: text %r: %s, model %s" % (lang, s, o[0], e))
    res.sample("%s %s: %r -> %s" % (lang, label, s, o[0]))
    return res.out()


def doubles(thorough):
    """Bit patterns of doubles: every exponent with boundary mantissas, short decimals, powers of ten and their neighbours."""
    out = set()
    ms = [0, 1, (1 << 52) - 1, 1 << 51, 0x5555555555555, 0x921FB54442D18]
    for e in range(0, 2047, 1 if thorough else 5):
        out.update((e << 52) | m for m in ms)
    bits = lambda d: int.from_bytes(struct.pack(">d", d), "big")
    for x in range(-330, 309, 1 if thorough else 3):
        for t in ("1e%d", "9.99999999999999e%d", "1.2345678901234567e%d", "5e%d"):
            b = bits(float(t % x))
            out.update(y for y in (b - 1, b, b + 1) if 0 <= y < 0x7ff << 52)
    for i in range(1000 if thorough else 200):
        out.update(bits(i * f) for f in (0.1, 0.01, 0.001, 1.0, 1e15 + 1, 1 / 3))
    for i in range(50, 64):
        out.update(bits(float((1 << i) + d)) for d in (-1, 0, 1))
    for x in (1e15, 1e16, 1e17, 1e7, 1e-3, 1e21):
        b = bits(x)
        out.update(range(b - 8, b + 9))
    out |= {b | 1 << 63 for b in out}
    return sorted(out) + [0x7ff0 << 48, 0xfff0 << 48]


def floats(task):
    """Every number written as JSON text reads back as the same number."""
    import json, re
    lang, prog, pats = task
    res = Res()
    lines = ["0"] + ["N%x" % b for b in pats]
    outs = xlang.run_java(prog, lines, "zserio.runtime.json.Texts", "fl%d" % pats[0]) if lang == "java" else xlang.run_prog(prog, lines, "fl%d" % pats[0])
    for b, o in zip(pats, outs):
        d = struct.unpack(">d", b.to_bytes(8, "big"))[0]
        res.states += 1
        res.transitions += 2
        res.traces += 1
        text, back = o.split("\t")
        try:
            j = json.loads(text)
        except ValueError:
            j = None
        if type(j) is not float or struct.pack(">d", j) != struct.pack(">d", d) or back != "[ d%x ] T" % b:
            res.bad("%s:float:%016x" % (lang, b), "%s: number %r (%016x) is written as %s and read back as %s" % (lang, d, b, text, back))
    res.sample("%s: %r -> %s" % (lang, d, o))
    return res.out()
