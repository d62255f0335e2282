"""Walker with its filters, and the tree creator: explicit-state models, replayed on Python, Java and C++ code.

Driver lines:  id TAB class TAB "K" TAB end TAB hex TAB filter   -> the event log of the walker
               id TAB class TAB "C" TAB operations               -> the result of each creator operation and the trees built
Values are tokens: n | b0/b1 | i<java class><number> | f<32|64><hex of double> | s<hex utf8> | B<hex> | X<bits>:<hex> |
e<type>:<item>:<number> | m<type>:<number>."""
import re, struct
from . import py_gen, xlang
from .ref import *
from .pool import Res

NOT = -1


def double_hex(x):
    return struct.pack(">d", x).hex()


def jclass(t):
    """Letter of the Java class integers of this type are mapped to."""
    lo, hi = t.bounds()
    if isinstance(t, Int):
        return next(c for c, b in zip("BSILG", (8, 16, 32, 64, 999)) if t.bits + (0 if t.signed else 1) <= b)
    if isinstance(t, Var):
        return {"varint16": "S", "varint32": "I", "varint64": "L", "varint": "L", "varuint16": "S", "varuint32": "I", "varuint64": "L", "varuint": "G", "varsize": "I"}[t.kind]
    raise TypeError(t)


def token(t, v):
    if isinstance(t, Sub):
        t = t.t
    if v is None:
        return "n"
    if isinstance(t, Bool):
        return "b%d" % v
    if isinstance(t, Float):
        return "f%d%s" % (64 if t.bits == 64 else 32, double_hex(v))
    if isinstance(t, Str):
        return "s" + v.encode("utf8").hex()
    if isinstance(t, Bytes):
        return "B" + v.hex()
    if isinstance(t, Extern):
        return "X%d:%s" % (v.n, v.data().hex())
    if isinstance(t, Enum):
        return "e%s:%s:%d" % (t.name, v, t.by_name[v])
    if isinstance(t, Bitmask):
        return "m%s:%d" % (t.name, v)
    return "i%s%d" % (jclass(t), v)


def shown(t, v):
    """Value as the walk log shows it."""
    if isinstance(t, Sub):
        t = t.t
    if v is None:
        return "n"
    if isinstance(t, Enum):
        return "e%d" % t.by_name[v]
    if isinstance(t, Bitmask):
        return "m%d" % v
    if isinstance(t, Float):
        return "f" + double_hex(v)
    if isinstance(v, int) and not isinstance(t, Bool):
        return "i%d" % v
    return token(t, v)


# ------------------------------------------------------------------------------------------------------- walker model
class Node:
    __slots__ = ("kind", "name", "idx", "path", "depth", "val", "kids")

    def __init__(self, kind, name, idx, path, depth, val, kids=()):
        self.kind, self.name, self.idx, self.path, self.depth, self.val, self.kids = kind, name, idx, path, depth, val, list(kids)

    def all_paths(self):
        yield self.path
        for k in self.kids:
            yield from k.all_paths()


def nodes(t, v, prefix="", depth=1):
    if isinstance(t, Struct):
        fs = [(f, v.get(f.name)) for f in t.fields]
    else:
        fs = [(f, v[1]) for f in t.all_fields() if f.name == v[0]]
    out = []
    for f, x in fs:
        path = prefix + f.name
        if x is None:
            out.append(Node("V", f.name, NOT, path, depth, "n"))
        elif f.arr is not None:
            out.append(Node("A", f.name, NOT, path, depth, str(len(x)), [one(f, y, i, "%s[%d]" % (path, i), depth + 1) for i, y in enumerate(x)]))
        else:
            out.append(one(f, x, NOT, path, depth))
    return out


def one(f, x, i, path, depth):
    if isinstance(f.t, Compound):
        return Node("C", f.name, i, path, depth, "", nodes(f.t, x, path + ".", depth + 1))
    return Node("V", f.name, i, path, depth, shown(f.t, x))


class Script:
    """Filter that answers as told (then true) and logs what it was asked."""

    def __init__(self, bits, log):
        self.bits, self.log, self.n = bits, log, 0

    def ask(self, what, node):
        r = self.bits[self.n] == "1" if self.n < len(self.bits) else True
        self.n += 1
        self.log.append("%s%s%s:%d=%d" % (what, node.kind, node.name, node.idx, r))
        return r

    def before(self, n):
        return self.ask("?", n)

    def after(self, n):
        return self.ask("!", n)


class Rule:
    def __init__(self, before, after=lambda n: True):
        self.before, self.after = before, after


class All:
    def __init__(self, fs):
        self.fs = fs

    def before(self, n):
        return all([f.before(n) for f in self.fs])

    def after(self, n):
        return all([f.after(n) for f in self.fs])


def model_filter(spec, log, prefix_match):
    k, a = spec[0], spec[1:]
    if k == "-":
        return Rule(lambda n: True)
    if k == "D":
        return Rule(lambda n: n.depth <= int(a))
    if k == "L":
        lim = lambda n: n.idx == NOT or n.idx < int(a)
        return Rule(lambda n: n.kind == "A" or lim(n), lambda n: n.kind == "A" or lim(n))
    if k == "R":
        rx = re.compile(bytes.fromhex(a).decode())
        m = rx.match if prefix_match else rx.fullmatch
        return Rule(lambda n: any(m(p) for p in n.all_paths()))
    if k == "S":
        return Script(a, log)
    if k == "&":
        return All([model_filter(s, log, prefix_match) for s in a.split(";") if s])
    raise ValueError(spec)


def walk_model(top, spec, prefix_match):
    log = ["R+"]
    flt = model_filter(spec, log, prefix_match)

    def visit(n):
        if flt.before(n):
            if n.kind == "V":
                log.append("V%s:%d=%s" % (n.name, n.idx, n.val))
            else:
                tag = "%s:%d" % (n.name, n.idx) if n.kind == "C" else "%s:%s" % (n.name, n.val)
                log.append(n.kind + "+" + tag)
                for k in n.kids:
                    if not visit(k):
                        break
                log.append(n.kind + "-" + tag)
        return flt.after(n)
    for n in top:
        if not visit(n):
            break
    log.append("R-")
    return " ".join(log)


def calls(top):
    """Number of filter calls of a complete walk."""
    return sum(2 + calls(n.kids) for n in top)


def rx(s):
    return "R" + s.encode().hex()


def filter_specs(top, lang, scripts, thorough):
    paths = [p for n in top for p in n.all_paths()]
    depth = max([p.count(".") + p.count("[") for p in paths] or [0]) + 2
    out = ["-"] + ["D%d" % d for d in range(depth + 1)] + ["L%d" % n for n in range(5)]
    esc = lambda p: re.sub(r"([\[\].])", r"\\\1", p)
    seen = set()
    for p in paths:
        pats = [esc(p) + "$", esc(p) + r"[.\[].*"]
        if thorough or len(paths) < 40:
            pats += ["(" + re.sub(r"\\\[\d+", lambda m: r"\[[0-9]+", esc(p)) + ")$", ".*" + esc(p[-1:]) + "$"]
        if lang == "python":
            pats.append(esc(p))
        for x in pats:
            if x not in seen:
                seen.add(x)
                out.append(rx(x))
    out += [rx(x) for x in (".*", "nothing", "[a-m].*", "[^.]*$")]
    some = ["D1", "D2", "L1", "L0", rx(esc(paths[-1]) + "$") if paths else "D3", "S0", "S10", "S1101"]
    out += ["&%s;%s" % (a, b) for a in some for b in some] + ["&", "&D3;L2;%s" % rx(".*a.*"), "&S;S;S110111110"]
    n = calls(top)
    if scripts and n <= scripts:
        # every filter behaviour with at most two refusals (one refusal for longer walks)
        for i in range(n):
            out.append("S" + "1" * i + "0")
            for j in range(i + 1, n if n <= scripts // 2 or thorough else i + 1):
                out.append("S" + "1" * i + "0" + "1" * (j - i - 1) + "0")
    return out


# ------------------------------------------------------------------------------------------------------ creator model
class Frame:
    def __init__(self, kind, t, f, args=()):
        self.kind, self.t, self.f, self.args = kind, t, f, args    # 'C' compound of type t / 'A' array of field f
        self.val = [] if kind == "A" else {} if isinstance(t, Struct) else (None, None)
        self.began = set()


class Creator:
    def __init__(self, t, lang):
        self.t, self.lang, self.st = t, lang, None

    def set(self, fr, f, v):
        if isinstance(fr.t, Struct):
            fr.val[f.name] = v
        else:
            fr.val = (f.name, v)

    def field(self, name):
        fr = self.st[-1]
        return next((f for f in fr.t.all_fields() if f.name == name), None)

    def env(self, fr, idx=None):
        e = Env(zip((p[1] for p in fr.t.params), fr.args))
        if isinstance(fr.t, Struct):
            e.update(fr.val)
        if idx is not None:
            e["@index"] = idx
        return e

    def op(self, o):
        """'k' / 'r' (refused) / type name; on endRoot the value. None: not specified."""
        k, _, rest = o.partition(",")
        name, _, tok = rest.partition(",")
        st = self.st
        inc, ina = bool(st) and st[-1].kind == "C", bool(st) and st[-1].kind == "A"
        if k == "BR":
            if st is not None:
                return "r"
            self.st = [Frame("C", self.t, None)]
            return "k"
        if k == "ER":
            if not inc or len(st) != 1:
                return "r"
            self.st = None
            return ("value", st[0].val)
        if k in ("BA", "BC", "SV", "GF"):
            if not inc:
                return "r"
            f = self.field(name)
            if f is None:
                return "r"
            if k == "GF":
                return self.type_name(f.t)
            fr = st[-1]
            if k == "BA":
                if f.arr is None:
                    return "r"
                if not self.allowed(fr, f):
                    return None
                fr.began.add(f.name)
                st.append(Frame("A", fr.t, f))
                return "k"
            if k == "BC":
                if f.arr is not None or not isinstance(f.t, Compound):
                    return "r"
                if not self.allowed(fr, f) or f.name in fr.began and self.lang == "cpp":
                    return None
                fr.began.add(f.name)
                st.append(Frame("C", f.t, f, tuple(a(self.env(fr)) for a in f.args)))
                return "k"
            if tok == "n":
                if f.opt is None or not self.allowed(fr, f):
                    return None
                if f.arr is not None or isinstance(f.t, Compound):
                    fr.began.add(f.name)
                self.set(fr, f, None)
                return "k"
            if f.arr is not None or self.wrong(f, tok):
                return "r"
            if not self.allowed(fr, f):
                return None
            self.set(fr, f, self.value(f.t, tok))
            return "k"
        if k == "EA":
            if not ina:
                return "r"
            fr = st.pop()
            self.set(st[-1], fr.f, fr.val)
            return "k"
        if k == "EC":
            if not inc or len(st) < 2 or st[-2].kind == "A":
                return "r"
            fr = st.pop()
            self.set(st[-1], fr.f, fr.val)
            return "k"
        if k == "EE":
            if not inc or len(st) < 2 or st[-2].kind != "A":
                return "r"
            fr = st.pop()
            st[-1].val.append(fr.val)
            return "k"
        if not ina:
            return "r"
        f = st[-1].f
        if k == "BE":
            if not isinstance(f.t, Compound):
                return "r"
            st.append(Frame("C", f.t, f, tuple(a(self.env(st[-2], len(st[-1].val))) for a in f.args)))
            return "k"
        if k == "GE":
            return self.type_name(f.t)
        if k == "AV":
            if self.wrong(f, name):
                return "r"
            st[-1].val.append(self.value(f.t, name))
            return "k"
        raise ValueError(o)

    def allowed(self, fr, f):
        """Order restrictions: fields that arguments and conditions depend on are set first and once."""
        if isinstance(fr.t, Struct):
            deps = [g for g in fr.t.fields if g.args and any(re.search(r"\b%s\b" % f.name, a.text) for a in g.args)]
            if any(g.name in fr.val or g.name in fr.began for g in deps):
                return False
            names = [g.name for g in fr.t.fields]
            if any(n not in fr.val for a in f.args for n in names if re.search(r"\b%s\b" % n, a.text)):
                return False
            if isinstance(f.opt, E) and not f.opt(self.env(fr)):
                return False
            return True
        if isinstance(fr.t, Choice):
            return fr.t.select(self.env(fr)) is f
        return True

    @staticmethod
    def wrong(f, tok):
        t = f.t.t if isinstance(f.t, Sub) else f.t
        kind = "f" if isinstance(t, Float) else "b" if isinstance(t, Bool) else "s" if isinstance(t, Str) else "B" if isinstance(t, Bytes) else "X" if isinstance(t, Extern) \
            else "e" if isinstance(t, Enum) else "m" if isinstance(t, Bitmask) else "i" if isinstance(t, Leaf) else "?"
        return tok[0] != kind

    @staticmethod
    def value(t, tok):
        k, a = tok[0], tok[1:]
        if k == "b":
            return a == "1"
        if k == "i":
            return int(a[1:])
        if k == "f":
            return struct.unpack(">d", bytes.fromhex(a[2:]))[0]
        if k == "s":
            return bytes.fromhex(a).decode("utf8")
        if k == "B":
            return bytes.fromhex(a)
        if k == "X":
            n, h = a.split(":")
            return Ext(int.from_bytes(bytes.fromhex(h), "big") >> (-int(n) % 8), int(n))
        if k == "e":
            return a.split(":")[1]
        if k == "m":
            return int(a.split(":")[1])
        raise ValueError(tok)

    @staticmethod
    def type_name(t):
        return "t" + (t.name if not isinstance(t, (Compound, Enum, Bitmask)) else "ftre." + t.name)

    # ---- exploration
    def good(self, t, n=0):
        if isinstance(t, Bool):
            return token(t, n == 0)
        if isinstance(t, Float):
            return token(t, [1.5, -0.25][n])
        if isinstance(t, Str):
            return token(t, ["\u00e9", ""][n])
        if isinstance(t, Bytes):
            return token(t, [b"\x01\xfe", b""][n])
        if isinstance(t, Extern):
            return token(t, [Ext(5, 3), Ext(0, 0)][n])
        if isinstance(t, Enum):
            return token(t, list(t.by_name)[1 + n])
        if isinstance(t, Bitmask):
            return token(t, [3, 128][n])
        return token(t, [1, min(2, t.bounds()[1])][n])

    def bad(self, t):
        return "iI7" if isinstance(t, (Compound, Str, Bytes, Extern)) else "s6e6f7065"

    def alphabet(self, root):
        """All operations that make sense to try in the current state."""
        out = ["BR", "ER", "EA", "EC", "EE", "BE", "GE"]
        fr = self.st[-1] if self.st else None
        t = fr.t if fr is not None else root
        names = [f.name for f in t.all_fields()]
        for n in names + ["zz", ""]:
            out += ["BA," + n, "BC," + n, "GF," + n]
            f = next((f for f in t.all_fields() if f.name == n), None)
            if f is None:
                out += ["SV,%s,%s" % (n, tok) for tok in ("n", "iI7", "s6e6f7065")]
                continue
            out.append("SV,%s,%s" % (n, self.bad(f.t)))
            if f.opt is not None:
                out.append("SV,%s,n" % n)
            if not isinstance(f.t, Compound):
                out += ["SV,%s,%s" % (n, self.good(f.t, k)) for k in (0, 1)]
        if fr is not None and fr.kind == "A":
            out.append("AV," + self.bad(fr.f.t))
            if not isinstance(fr.f.t, Compound):
                out += ["AV," + self.good(fr.f.t, k) for k in (0, 1)]
        else:
            out += ["AV,iI7", "AV,s6e6f7065"]
        return [o for o in out if o != "SV,,n"] if False else out

    def fill(self, ops):
        """Completes the compound on top: sets everything not set yet."""
        fr = self.st[-1]

        def do(o):
            r = self.op(o)
            assert r == "k", (o, r)
            ops.append(o)

        def put(f):
            if f.arr is not None:
                do("BA," + f.name), do("EA")
            elif isinstance(f.t, Compound):
                do("BC," + f.name)
                self.fill(ops)
                do("EC")
            else:
                do("SV,%s,%s" % (f.name, self.good(f.t)))
        if isinstance(fr.t, Struct):
            for f in fr.t.fields:
                if f.name in fr.val or f.opt == "auto":
                    continue
                if isinstance(f.opt, E) and not f.opt(self.env(fr)):
                    continue
                put(f)
        elif fr.val[0] is None:
            if isinstance(fr.t, Choice):
                f = fr.t.select(self.env(fr))
                if f is not None:
                    put(f)
            else:
                put(fr.t.fields[0])

    def finish(self):
        """Operations that complete the tree from the current state."""
        ops = []
        if self.st is None:
            self.op("BR")
            ops.append("BR")
        while True:
            fr = self.st[-1]
            if fr.kind == "A":
                o = "EA"
            else:
                self.fill(ops)
                o = "ER" if len(self.st) == 1 else "EE" if self.st[-2].kind == "A" else "EC"
            r = self.op(o)
            ops.append(o)
            if o == "ER":
                return ops, r[1]

    def key(self):
        def fz(v):
            return tuple(sorted((k, fz(x)) for k, x in v.items())) if isinstance(v, dict) else tuple(map(fz, v)) if isinstance(v, (list, tuple)) else v
        return None if self.st is None else tuple((f.kind, f.t.name, f.f and f.f.name, fz(f.val), tuple(sorted(f.began)) if self.lang == "cpp" else 0) for f in self.st)


def replayed(t, lang, ops):
    c = Creator(t, lang)
    for o in ops:
        c.op(o)
    return c


def creator_traces(t, lang, depth, share, of, per_state=2):
    """[(operations, expected results, expected trees)] covering every reachable model state up to `depth` accepted
    operations and every operation in each of them."""
    seen = {}
    level = [[]]
    n = 0
    for d in range(depth + 1):
        nxt = []
        for ops in level:
            c = replayed(t, lang, ops)
            key = c.key()
            if seen.get(key, 0) >= per_state:
                continue
            seen[key] = seen.get(key, 0) + 1
            alpha = c.alphabet(t)
            rej, acc = [], []
            for o in alpha:
                m = replayed(t, lang, ops)
                r = m.op(o)
                if r == "r":
                    rej.append(o)
                elif r == "k":
                    acc.append(o)
                elif isinstance(r, str):
                    rej.append(o)       # queries: change nothing either
            n += 1
            if n % of == share:
                for extra in (rej, rej[::-1]):
                    yield trace(t, lang, ops + extra, key)
                for o in acc:
                    yield trace(t, lang, ops + [o], key)
            if d < depth:
                nxt += [ops + [o] for o in acc]
        level = nxt


def trace(t, lang, ops, key):
    c = Creator(t, lang)
    res, trees = [], []

    def run(os):
        for o in os:
            r = c.op(o)
            if isinstance(r, tuple):
                trees.append(r[1])
                r = "k"
            assert r is not None, (ops, o)
            res.append(r)
    run(ops)
    fin = replayed(t, lang, ops).finish()[0]
    run(fin)
    # the creator starts over: refused again, then a second tree
    c2 = Creator(t, lang)
    second = ["ER", "EA", "GE", "SV,%s,iI1" % t.fields[0].name] + c2.finish()[0]
    run(second)
    return ops + fin + second, res, trees


# ---------------------------------------------------------------------------------------------------- Python driver
class Obs:
    def __init__(self, log, show):
        self.log, self.show = log, show

    def begin_root(self, c):
        self.log.append("R+")

    def end_root(self, c):
        self.log.append("R-")

    def begin_array(self, a, m):
        self.log.append("A+%s:%d" % (m.schema_name, len(a)))

    def end_array(self, a, m):
        self.log.append("A-%s:%d" % (m.schema_name, len(a)))

    def begin_compound(self, c, m, i=None):
        self.log.append("C+%s:%d" % (m.schema_name, NOT if i is None else i))

    def end_compound(self, c, m, i=None):
        self.log.append("C-%s:%d" % (m.schema_name, NOT if i is None else i))

    def visit_value(self, v, m, i=None):
        self.log.append("V%s:%d=%s" % (m.schema_name, NOT if i is None else i, self.show(v)))


def py_show(z):
    import enum as pyenum

    def show(v):
        if v is None:
            return "n"
        if isinstance(v, pyenum.Enum):
            return "e%d" % v.value
        if isinstance(v, bool):
            return "b%d" % v
        if isinstance(v, int):
            return "i%d" % v
        if isinstance(v, float):
            return "f" + double_hex(v)
        if isinstance(v, str):
            return "s" + v.encode("utf8").hex()
        if isinstance(v, (bytes, bytearray)):
            return "B" + bytes(v).hex()
        if isinstance(v, z.BitBuffer):
            return "X%d:%s" % (v.bitsize, bytes(v.buffer)[:(v.bitsize + 7) // 8].hex())
        return "m%d" % v.value
    return show


def py_filter(z, spec, log):
    from zserio import walker as w
    k, a = spec[0], spec[1:]
    if k == "-":
        return w.DefaultWalkFilter()
    if k == "D":
        return w.DepthWalkFilter(int(a))
    if k == "L":
        return w.ArrayLengthWalkFilter(int(a))
    if k == "R":
        return w.RegexWalkFilter(bytes.fromhex(a).decode())
    if k == "&":
        return w.AndWalkFilter([py_filter(z, s, log) for s in a.split(";") if s])

    class S(w.WalkFilter):
        n = 0

        def ask(self, what, m, i=None):
            r = a[self.n] == "1" if self.n < len(a) else True
            self.n += 1
            log.append("%s%s:%d=%d" % (what, m.schema_name, NOT if i is None else i, r))
            return r

        def before_array(self, x, m):
            return self.ask("?A", m)

        def after_array(self, x, m):
            return self.ask("!A", m)

        def before_compound(self, x, m, i=None):
            return self.ask("?C", m, i)

        def after_compound(self, x, m, i=None):
            return self.ask("!C", m, i)

        def before_value(self, x, m, i=None):
            return self.ask("?V", m, i)

        def after_value(self, x, m, i=None):
            return self.ask("!V", m, i)
    return S()


def py_value(z, br, tok):
    k, a = tok[0], tok[1:]
    if k == "n":
        return None
    if k == "e":
        return getattr(getattr(br.api, a.split(":")[0]), a.split(":")[1])
    if k == "m":
        return getattr(br.api, a.split(":")[0]).from_value(int(a.split(":")[1]))
    if k == "X":
        n, h = a.split(":")
        return z.BitBuffer(bytes.fromhex(h), int(n))
    if k == "B":
        return bytearray.fromhex(a)
    return Creator.value(None, tok)


def py_create(z, br, t, ops):
    cr = z.ZserioTreeCreator(br.cls(t).type_info()) if hasattr(z, "ZserioTreeCreator") else __import__("zserio.creator").creator.ZserioTreeCreator(br.cls(t).type_info())
    fn = {"BR": cr.begin_root, "ER": cr.end_root, "BA": cr.begin_array, "EA": cr.end_array, "BC": cr.begin_compound, "EC": cr.end_compound, "SV": cr.set_value, "GF": cr.get_field_type,
          "BE": cr.begin_compound_element, "EE": cr.end_compound_element, "AV": cr.add_value_element, "GE": cr.get_element_type}
    res, trees = [], []
    for o in ops:
        p = o.split(",")
        args = p[1:]
        if p[0] in ("SV", "AV"):
            args[-1] = py_value(z, br, args[-1])
        try:
            r = fn[p[0]](*args)
            if p[0] in ("GF", "GE"):
                res.append("t" + r.schema_name)
            else:
                res.append("k")
            if p[0] == "ER":
                w = z.BitStreamWriter()
                try:
                    r.write(w)
                    trees.append("%d:%s" % (w.bitposition, bytes(w.byte_array).hex()))
                except Exception as e:
                    trees.append("EXC")
        except z.PythonRuntimeException:
            res.append("r")
    return res, trees


# ---------------------------------------------------------------------------------------------------------- exploration
def complete(t, v):
    """False if a member that is not optional was never set (its default depends on the language)."""
    if isinstance(t, Struct):
        return all((f.name in v or f.opt is not None) and (v.get(f.name) is None or fcomplete(f, v[f.name])) for f in t.fields)
    return v[0] is not None and fcomplete(next(f for f in t.all_fields() if f.name == v[0]), v[1])


def fcomplete(f, x):
    return not isinstance(f.t, Compound) or all(complete(f.t, y) for y in (x if f.arr is not None else [x]))


def want_trees(t, trees):
    out = []
    for v in trees:
        if not complete(t, v):
            out.append(None)
            continue
        w = Bits(0, 0)
        try:
            t.enc_c(w, v, (), None, None)
            out.append("%d:%s" % (w.n, w.bytes().hex()))
        except Reject:
            out.append("EXC")
        except Unspecified:
            out.append(None)
    return out


def walks(task):
    lang, famname, tier, prog, lo, hi, scripts, thorough = task
    p = py_gen.family(famname, tier)
    res = Res()
    jobs = []
    shape = lambda ns: tuple((n.kind, n.name, shape(n.kids)) for n in ns)
    for t, values, args in p.cases[lo:hi]:
        if args or not values:
            continue
        seen = set()
        for v in values:
            v, b = encode(t, v, args)
            if "#absent" in repr(v):
                continue
            top = nodes(t, v)
            # all filters for one value of each shape (all values of the tree family), few for the others
            key = shape(top)
            specs = filter_specs(top, lang, scripts, thorough) if famname == "fam_tree" or key not in seen and (thorough or len(seen) < 2 and calls(top) < 60) else ["-", "D1", "L1"]
            seen.add(key)
            for spec in specs:
                jobs.append((t, v, b, spec, walk_model(top, spec, lang == "python")))
    if lang == "python":
        z, p, br = py_gen.ctx(famname, tier, prog)
        show = py_show(z)
        outs, last = [], None
        for t, v, b, spec, _ in jobs:
            if last is None or last[0] is not v:
                last = (v, br.build(t, v))
            log = []
            try:
                z.Walker(Obs(log, show), py_filter(z, spec, log)).walk(last[1])
            except Exception as e:
                log.append("EXC %r" % e)
            outs.append(" ".join(log))
    else:
        lines = ["%d\t%s.%s\tK\t%d\t%s\t%s" % (i, p.name, t.name, b.n, b.bytes().hex(), spec) for i, (t, v, b, spec, _) in enumerate(jobs)]
        outs = [o.split("\t", 1)[1] for o in run(lang, prog, lines, "wk%s%d" % (famname, lo))]
    for (t, v, b, spec, exp), got in zip(jobs, outs):
        res.states += 1
        res.transitions += exp.count(" ") + 1
        if got != exp:
            s = spec if spec[0] != "R" else "R/%s/" % bytes.fromhex(spec[1:]).decode()
            res.bad("walk:%s:%s:%s:%s" % (lang, t.name, s[:60], py_gen.cut(v, 0)[:40]), "%s: walk over %s %s with filter %s gives\n  %s\nexpected\n  %s" % (lang, t.name, py_gen.cut(v, 0), s, got, exp))
        else:
            res.traces += 1
    if jobs:
        res.sample("%s %s: %d walks, e.g. filter %s: %s" % (lang, p.name, len(jobs), jobs[-1][3], jobs[-1][4][:200]))
    return res.out()


def run(lang, prog, lines, name):
    if lang == "java":
        return xlang.run_java(prog, lines, main="Trees", name=name)
    return xlang.run_prog(prog, lines, name)


def creations(task):
    lang, tier, prog, tname, depth, share, of = task
    p = py_gen.family("fam_tree", tier)
    t = next(c[0] for c in p.cases if c[0].name == tname)
    res = Res()
    jobs = list(creator_traces(t, lang, depth, share, of))
    if not jobs:
        return res.out()
    if lang == "python":
        z, p, br = py_gen.ctx("fam_tree", tier, prog)
        outs = []
        for ops, _, _ in jobs:
            try:
                r, tr = py_create(z, br, t, ops)
            except Exception as e:
                r, tr = ["failed with %r" % e], []
            outs.append((r, tr))
    else:
        lines = ["%d\t%s.%s\tC\t%s" % (i, p.name, t.name, " ".join(ops)) for i, (ops, _, _) in enumerate(jobs)]
        outs = []
        for o in run(lang, prog, lines, "cr%s%d" % (tname, share)):
            f = o.split("\t")
            outs.append((f[1].split(" "), f[2:]))
    for (ops, exp, trees), (r, tr) in zip(jobs, outs):
        res.states += 1
        res.transitions += len(ops)
        want = want_trees(t, trees)
        if r != exp:
            i = next((i for i, (a, b) in enumerate(zip(r, exp)) if a != b), min(len(r), len(exp)))
            res.bad("create:%s:%s:%s" % (lang, tname, " ".join(ops[max(0, i - 2):i + 1])), "%s creator of %s: operations %s\n  operation %d (%s): %s, expected %s" % (
                lang, tname, " ".join(ops), i, ops[i], r[i] if i < len(r) else r, exp[i]))
        elif len(tr) != len(want) or any(b is not None and a != b for a, b in zip(tr, want)):
            res.bad("tree:%s:%s:%s" % (lang, tname, " ".join(ops)[:80]), "%s creator of %s: operations %s\n  trees %s, expected %s (%s)" % (lang, tname, " ".join(ops), tr, want, trees))
        else:
            res.traces += 1
    res.sample("%s %s: %d traces, e.g. %s" % (lang, tname, len(jobs), " ".join(jobs[-1][0])[:300]))
    return res.out()
