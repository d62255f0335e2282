"""Exhaustive exploration of the JSON parser: all texts over small alphabets, in every chunking, against a reference parser."""
import io, itertools, json as pyjson, re
from .pool import Res
from .py_json import Drip

NUM = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?\Z")
SEP = ' \t\r\n{}[]:,"'


class Unknown(Exception):
    """Outcome is not defined by the JSON grammar (lenient spellings)."""


class Bad(Exception):
    pass


def tokens(s, lang=None):
    """[(kind, value, line, col)] ... ends with ('eof'|'unknown', None, line, col)"""
    out, i, line, col = [], 0, 1, 1
    while True:
        while i < len(s) and s[i] in " \t\r\n":
            if s[i] in " \t":
                i, col = i + 1, col + 1
            elif s.startswith("\r\n", i):
                i, line, col = i + 2, line + 1, 1
            else:
                i, line, col = i + 1, line + 1, 1
        if i >= len(s):
            out.append(("eof", None, line, col))
            return out
        c = s[i]
        if c in "{}[]:,":
            out.append((c, c, line, col))
            i, col = i + 1, col + 1
            continue
        n = lex_value(s, i, lang)
        if n is None:
            out.append(("unknown", None, line, col))
            return out
        out.append(("v", n[0], line, col))
        i, col = n[1], col + n[1] - i


def lex_value(s, i, lang=None):
    for w, v in (("null", None), ("true", True), ("false", False), ("NaN", float("nan")), ("Infinity", float("inf")), ("-Infinity", float("-inf"))):
        if s.startswith(w, i):
            return v, i + len(w)
    if s[i] == '"':
        j, out = i + 1, ""
        while True:
            if j >= len(s):
                return None
            c = s[j]
            j += 1
            if c == '"':
                return out, j
            if c != "\\":
                out += c
                continue
            if j >= len(s):
                return None
            e = s[j]
            j += 1
            if e in "\\\"bfnrt":
                out += {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}.get(e, e)
            elif e == "u":
                h = s[j:j + 4]
                if not re.match(r"[0-9a-fA-F]{4}\Z", h):
                    return None
                if lang == "cpp" and int(h, 16) > 127:
                    raise Unknown()     # C++ decodes only the escapes that zserio writes
                out += chr(int(h, 16))
                j += 4
            else:
                return None
    m = re.match(r"[-0-9.eE+]+", s[i:])
    if m:
        t = m.group()
        if NUM.match(t):
            if lang == "cpp" and not re.search("[.eE]", t) and not -(1 << 63) <= int(t) < (1 << 64):
                return None
            return (float(t) if re.search("[.eE]", t) else int(t)), i + len(t)
        raise Unknown()
    return None


def reference(s, lang=None):
    """(events, outcome): outcome True/False (whole text consumed) or ('err', line, col)."""
    toks = tokens(s, lang)
    ev = []
    pos = 0

    def tok():
        t = toks[pos]
        return t

    def fail():
        t = tok()
        raise Bad(t[2], t[3])

    def adv():
        nonlocal pos
        pos += 1
        if toks[pos][0] == "unknown":
            fail()

    def element():
        k, v = tok()[:2]
        if k == "[":
            ev.append("[")
            adv()
            if tok()[0] in "[{v":
                element()
                while tok()[0] == ",":
                    adv()
                    element()
            if tok()[0] != "]":
                fail()
            adv_ev("]")
        elif k == "{":
            ev.append("{")
            adv()
            if tok()[0] == "v":
                member()
                while tok()[0] == ",":
                    adv()
                    member()
            if tok()[0] != "}":
                fail()
            adv_ev("}")
        elif k == "v":
            ev.append(("v", v))
            adv()
        else:
            fail()

    def adv_ev(e):
        # the closing event is delivered after the token behind it could be read
        adv()
        ev.append(e)

    def member():
        if tok()[0] != "v" or not isinstance(tok()[1], str):
            fail()
        ev.append(("k", tok()[1]))
        adv()
        if tok()[0] != ":":
            fail()
        adv()
        element()

    try:
        if not s:
            return ev, True
        if toks[0][0] == "unknown":
            fail()
        if toks[0][0] == "eof":
            return ev, True
        element()
        return ev, tok()[0] == "eof"
    except Bad as e:
        return ev, ("err",) + e.args


def observe(zj, s, k):
    ev = []

    class Obs(zj.JsonParser.Observer):
        def begin_object(self): ev.append("{")
        def end_object(self): ev.append("}")
        def begin_array(self): ev.append("[")
        def end_array(self): ev.append("]")
        def visit_key(self, key): ev.append(("k", key))
        def visit_value(self, value): ev.append(("v", value))
    p = zj.JsonParser(io.StringIO(s) if k is None else Drip(s, k), Obs())
    try:
        return ev, p.parse()
    except zj.JsonParserException as e:
        m = re.match(r"Json(?:Parser|Tokenizer):(\d+):(\d+): ", str(e))
        return ev, (("err", int(m.group(1)), int(m.group(2))) if m else ("err", str(e)))


def typed(ev):
    return [(e if isinstance(e, str) else (e[0], type(e[1]).__name__, repr(e[1]))) for e in ev]


def explore(task):
    """All texts pre + w + post, w in alphabet^n starting with `first`."""
    import zserio.json as zj
    label, alphabet, n, first, wraps, chunks = task
    res = Res()
    for rest in itertools.product(alphabet, repeat=n - len(first)):
        w = "".join(first) + "".join(rest)
        for pre, post in wraps:
            s = pre + w + post
            res.states += 1
            try:
                exp = reference(s)
            except Unknown:
                exp = None
            base = None
            for k in chunks:
                res.transitions += 1
                got = observe(zj, s, k)
                if s.endswith("\r") and isinstance(got[1], tuple):     # position of a text that ends in half of a line end
                    got = (got[0], ("err",))
                    exp = exp and (exp[0], exp[1][:1] if isinstance(exp[1], tuple) else exp[1])
                if base is None:
                    base = got
                if exp is not None:
                    res.traces += 1
                    if got[1] != exp[1] or typed(got[0]) != typed(exp[0]):
                        res.bad("parse:%s:%r:%s" % (label, s, k), "text %r in chunks of %s: events %r outcome %r, model %r" % (s, k, got[0], got[1], exp))
                        break
                elif got[1] != base[1] or typed(got[0]) != typed(base[0]):
                    res.bad("chunk:%s:%r:%s" % (label, s, k), "text %r read in chunks of %s: %r, otherwise %r" % (s, k, got, base))
                    break
    res.sample("%s: last text %r -> %r" % (label, s, exp))
    return res.out()


STRUCT = ["{", "}", "[", "]", ":", ",", '"a"', "1", " ", "\n"]
STRING = ['"', "\\", "u", "0", "4", "e", "n", "\u00e9", "\n"]
NUMBER = ["0", "1", "9", "-", "+", ".", "e", "E", "\u0663"]
LITERAL = ["null", "true", "false", "NaN", "Infinity", "-Infinity", "-", "nul", "t", "I", "-I", "NaNN", '"', "[", "]", ",", "\r", "\n", "\r\n", "\t", "x", "/"]
EDGE = ["-", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0", ",", ".5", "e2", "e400", "E-400", " "]


def spaces(t):
    """(label, alphabet, depth, wraps, chunkings)"""
    return [("structure", STRUCT, 6 if t else 5, [("", ""), ("{\"k\":[", "]}")], [None, 1, 2]),
            ("string", STRING, 7 if t else 6, [("[\"", "\"]")], [None, 1] if not t else [None, 1, 3]),
            ("number", NUMBER, 6 if t else 5, [("", ""), ("[", "]"), ("[-", ",2]")], [None, 1, 2]),
            ("edge", EDGE, 5 if t else 4, [("", ""), ("[", "]")], [None, 7]),
            ("literal", LITERAL, 4 if t else 3, [("", ""), ("[", "]"), ("{\"a\":", "\r\n}")], [None, 1, 2, 3])]


def split(alpha, depth):
    """The words up to the depth as (length, first symbols) tasks."""
    return [(n, first) for n in range(depth + 1) for first in itertools.product(alpha, repeat=min(n, 2 if n > 4 else 1))]
