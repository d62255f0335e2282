"""Model of Zserio expressions (precedence table of the language overview, semantics of Java) and its bounded space:
all well typed operator trees up to a size, every operator over every kind of operand, each evaluated on a grid of values."""

PREC = {"u": 13, "*": 12, "/": 12, "%": 12, "+": 11, "-": 11, "<<": 10, ">>": 10, "<": 9, "<=": 9, ">": 9, ">=": 9,
        "==": 8, "!=": 8, "&": 7, "^": 6, "|": 5, "&&": 4, "||": 3, "?": 2}


class Skip(Exception):
    """The value is outside what the language defines for the target (overflow, division by zero, ...)."""


class N:
    """Expression node: leaf (text, fn, tags) or operator (op, kids). t is the type: i b m e s."""

    def __init__(self, t, op=None, kids=(), text=None, fn=None, jt=None, ct=None, prec=15):
        self.t, self.op, self.kids, self.text, self.fn, self.jt, self.ct, self.lp = t, op, kids, text, fn, jt, ct, prec
        self.prec = prec if op is None else 15 if op in ("num", "val", "isset") else PREC["u"] if len(kids) == 1 else PREC[op]

    def big(self):
        return self.jt == "big" or any(k.big() for k in self.kids)

    def ops(self):
        return (0 if self.op is None else 1) + sum(k.ops() for k in self.kids)

    def show(self, full=False):
        if self.op is None:
            return self.text
        if self.op == "num":
            return "numbits(%s)" % self.kids[0].show(full)
        if self.op == "val":
            return "valueof(%s)" % self.kids[0].show(full)
        if self.op == "isset":
            return "isset(%s, %s)" % (self.kids[0].show(full), self.kids[1].show(full))

        def sub(k, need):
            s = k.show(full)
            return "(" + s + ")" if k.prec < need or full and k.op is not None else s
        if self.op == "?":
            return "%s ? %s : %s" % (sub(self.kids[0], 3), sub(self.kids[1], 2), sub(self.kids[2], 2))
        if len(self.kids) == 1:
            s = sub(self.kids[0], 13)
            return self.op[1] + (" " if s[0] in "+-" else "") + s
        return "%s %s %s" % (sub(self.kids[0], self.prec), self.op, sub(self.kids[1], self.prec + 1))


JR = {"int": (-1 << 31, (1 << 31) - 1), "long": (-1 << 63, (1 << 63) - 1), "big": (-1 << 200, 1 << 200)}
LO, HI = -1 << 63, (1 << 64) - 1


def jcommon(*ts):
    return "big" if "big" in ts else "long" if "long" in ts else "int"


def cprom(c):
    return c if c[1] >= 32 else (True, 32)


def ccommon(a, b):
    a, b = cprom(a), cprom(b)
    if a == b:
        return a
    if a[1] == b[1]:
        return (False, a[1])
    return a if a[1] > b[1] else b


def cfit(v, c):
    lo, hi = (-1 << (c[1] - 1), (1 << (c[1] - 1)) - 1) if c[0] else (0, (1 << c[1]) - 1)
    if not lo <= v <= hi:
        raise Skip
    return v


def tdiv(a, b):
    if b == 0:
        raise Skip
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


INT = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": tdiv, "%": lambda a, b: a - b * tdiv(a, b),
       "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}
REL = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
MASK = 0xFF   # the bitmask type of the space has 8 bits


class Ev:
    """Evaluation under the rules of a target language; a value carries its static type where the language has one."""

    def __init__(self, lang, big=False):
        self.lang, self.bigtree = lang, big

    def fit(self, v, t):
        if not LO <= v <= HI:
            raise Skip
        if self.lang == "java":
            lo, hi = JR[t]
            if not lo <= v <= hi:
                raise Skip
        elif self.lang == "cpp":
            cfit(v, t)
        return v, t

    def two(self, a, b):
        if self.lang == "java":
            return jcommon(a[1], b[1])
        if self.lang == "cpp":
            c = ccommon(a[1], b[1])
            cfit(a[0], c), cfit(b[0], c)
            return c
        return None

    def leaf(self, n, env):
        v = n.fn(env)
        if n.t != "i":
            return v, None
        if self.lang == "java":
            return v, "big" if self.bigtree else n.jt
        return v, n.ct if self.lang == "cpp" else None

    def ev(self, n, env):
        if n.op is None:
            return self.leaf(n, env)
        op, k = n.op, n.kids
        if op == "?":
            c = self.ev(k[0], env)[0]
            x, y = self.ev(k[1], env) if c or self.static(n) else None, self.ev(k[2], env) if not c or self.static(n) else None
            r = x if c else y
            if n.t == "i" and self.lang != "py":
                t = self.two(x, y)
                return self.fit(r[0], t)
            return r
        if op == "&&":
            a = self.ev(k[0], env)[0]
            return (self.ev(k[1], env)[0] if a else False), None
        if op == "||":
            a = self.ev(k[0], env)[0]
            return (True if a else self.ev(k[1], env)[0]), None
        a = self.ev(k[0], env)
        if op == "u!":
            return not a[0], None
        if op == "num":
            if a[0] < 0:
                raise Skip
            return (0 if a[0] == 0 else max(1, (a[0] - 1).bit_length())), {"java": "int", "cpp": (False, 8), "py": None}[self.lang]
        if op == "val":
            return a[0], {"java": "big" if self.bigtree else "int", "cpp": (False, 8), "py": None}[self.lang]
        if op in ("u-", "u~", "u+"):
            if n.t == "m":
                return ~a[0] & MASK, None
            t = cprom(a[1]) if self.lang == "cpp" else a[1]
            return self.fit({"u-": lambda v: -v, "u~": lambda v: ~v, "u+": lambda v: v}[op](a[0]), t)
        b = self.ev(k[1], env)
        if op == "isset":
            return a[0] & b[0] == b[0], None
        if n.t == "b" and op in REL:
            if k[0].t == "i":
                self.two(a, b)
            return REL[op](a[0], b[0]), None
        if n.t == "m":
            return INT[op](a[0], b[0]), None
        if n.t == "s":
            return a[0] + b[0], None
        if op in ("<<", ">>"):
            t = cprom(a[1]) if self.lang == "cpp" else a[1]
            width = 31 if t in ("int", (True, 32), (False, 32)) else 63
            if not 0 <= b[0] <= width or a[0] < 0 and b[0] > 30 and op == "<<" and self.lang == "cpp":
                raise Skip
            return self.fit(a[0] << b[0] if op == "<<" else a[0] >> b[0], t)
        return self.fit(INT[op](a[0], b[0]), self.two(a, b))

    def static(self, n):
        return n.t == "i" and self.lang != "py"


def value(n, env, lang):
    """Value of the expression for the assignment, or raises Skip."""
    return Ev(lang, lang == "java" and n.big()).ev(n, env)[0]


# ---- operand kinds -------------------------------------------------------------------------------------------------
def I(text, fn, jt, ct, prec=15):
    return N("i", text=text, fn=fn, jt=jt, ct=ct, prec=prec)


S8, U8, S16, U16, S32, U32, S64, U64 = [(s, b) for b in (8, 16, 32, 64) for s in (True, False)]
ENUM = [("AA", 1), ("BB", 4), ("CC", 200)]
BMASK = [("RD", 1), ("WR", 2), ("EX", 64)]


def fld(name, jt, ct, t="i"):
    return N(t, text=name, fn=lambda e, n=name: e[n], jt=jt, ct=ct)


def lit(text, v, jt=None, ct=None):
    return I(text, lambda e, v=v: v, jt or ("int" if v <= 0x7FFFFFFF else "long"), ct or (S32 if v <= 0x7FFFFFFF else S64))


INTS = {"a": ("int8", "int", S8), "b": ("uint8", "int", U8), "c": ("int16", "int", S16), "d": ("int32", "int", S32), "u": ("uint16", "int", U16),
        "w": ("uint32", "long", U32), "x": ("int64", "long", S64), "v": ("varint", "long", S64), "z": ("varsize", "int", U32),
        "vu": ("varuint16", "int", U16), "b5": ("bit:5", "int", U8), "s7": ("int:7", "int", S8), "b40": ("bit:40", "long", U64), "y": ("uint64", "big", U64)}
FIELDS = [(n, t) for n, (t, _, _) in INTS.items()] + [("p", "bool"), ("q", "bool"), ("r", "bool"), ("e", "En"), ("g", "En"), ("m", "Mk"), ("k", "Mk"),
                                                      ("st", "string"), ("arr", "int32[]"), ("brr", "bool[]"), ("by", "bytes"), ("inn", "Inner(par)")]
PRE = """package %s;
enum uint8 En { AA = 1, BB = 4, CC = 200 };
bitmask uint8 Mk { RD = 1, WR = 2, EX = 64 };
const int32 KN = -7;
const uint8 KP = 3;
const bool KB = true;
subtype int16 Sub;
struct Inner(int32 ip)
{
    Sub iv;
    uint8 ia[];
    bool ib;
    function int32 twice() { return iv * 2; }
    function int32 sum() { return iv + ip; }
    function bool neg() { return iv < 0; }
};
"""


def fields_decl():
    return "".join("    %s;\n" % (t.replace("[]", " %s[]" % n) if "[]" in t else "%s %s" % (t, n)) for n, t in FIELDS)


def f(n):
    return fld(n, INTS[n][1], INTS[n][2])


BOOLS = [fld(n, None, None, "b") for n in "pqr"]
MASKS = [fld(n, None, None, "m") for n in "mk"]
ENUMS = [fld(n, None, None, "e") for n in "eg"]
LEAF_INTS = [f(n) for n in INTS if n != "y"] + [
    I("par", lambda e: e["par"], "int", S32), I("KN", lambda e: -7, "int", S32), I("KP", lambda e: 3, "int", U8),
    I("arr[0]", lambda e: e["arr"][0], "int", S32), I("arr[b5]", lambda e: e["arr"][e["b5"]], "int", S32), I("arr[b5 + 1]", lambda e: e["arr"][e["b5"] + 1], "int", S32),
    I("lengthof(arr)", lambda e: len(e["arr"]), "int", U64), I("lengthof(st)", lambda e: len(e["st"].encode()), "int", U64),
    I("lengthof(inn.ia)", lambda e: len(e["inn"]["ia"]), "int", U64), I("lengthof(by)", lambda e: len(e["by"]), "int", U64),
    I("valueof(e)", lambda e: e["e"], "int", U8), I("valueof(En.BB)", lambda e: 4, "int", U8), I("valueof(m)", lambda e: e["m"], "int", U8),
    I("valueof(Mk.WR)", lambda e: 2, "int", U8), I("numbits(b)", lambda e: max(1, (e["b"] - 1).bit_length()) if e["b"] else 0, "int", U8),
    I("inn.iv", lambda e: e["inn"]["iv"], "int", S16), I("inn.twice()", lambda e: e["inn"]["iv"] * 2, "int", S32),
    I("inn.sum()", lambda e: e["inn"]["iv"] + e["par"], "int", S32), I("inn.ia[1]", lambda e: e["inn"]["ia"][1], "int", U8), I("base()", lambda e: e["a"] + 1, "int", S32),
    lit("0", 0), lit("1", 1), lit("7", 7), lit("0x1F", 31), lit("101b", 5), lit("017", 15), lit("0X0a", 10), lit("3000000000", 3000000000), lit("0xFFFFFFFF", 0xFFFFFFFF, "long", U32),
    lit("0" + "1" * 32 + "b", 0xFFFFFFFF, "long", U32), lit("037777777777", 0xFFFFFFFF, "long", U32),
    I("-5", lambda e: -5, "int", S32, 13), I("-2147483648", lambda e: -2147483648, "int", S32, 13)]
LEAF_BOOLS = BOOLS + [N("b", text=t, fn=fn) for t, fn in (
    ("true", lambda e: True), ("false", lambda e: False), ("KB", lambda e: True), ("brr[1]", lambda e: e["brr"][1]), ("inn.ib", lambda e: e["inn"]["ib"]),
    ("inn.neg()", lambda e: e["inn"]["iv"] < 0), ("isset(m, RD)", lambda e: e["m"] & 1 == 1), ("isset(m, Mk.RD | Mk.EX)", lambda e: e["m"] & 65 == 65))]
LEAF_ENUMS = ENUMS + [N("e", text="En." + n, fn=lambda e, v=v: v) for n, v in ENUM]
LEAF_MASKS = MASKS + [N("m", text="Mk." + n, fn=lambda e, v=v: v) for n, v in BMASK]

OPS = [("u-", "i", "i"), ("u+", "i", "i"), ("u~", "i", "i"), ("num", "i", "i"), ("u!", "b", "b")] + \
      [(o, "ii", "i") for o in ("*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|")] + \
      [(o, "ii", "b") for o in REL] + [(o, "bb", "b") for o in ("==", "!=", "&&", "||")] + \
      [("?", "bii", "i"), ("?", "bbb", "b"), ("?", "bee", "e"), ("?", "bmm", "m"), ("val", "e", "i"), ("val", "m", "i"), ("isset", "mm", "b")] + \
      [(o, "mm", "m") for o in "&|^"] + [("u~", "m", "m")] + [(o, tt, "b") for o in ("==", "!=") for tt in ("ee", "mm")]
REPR = [o for o in OPS if (o[0], o[1]) in {("u-", "i"), ("u~", "i"), ("u!", "b"), ("*", "ii"), ("/", "ii"), ("-", "ii"), (">>", "ii"), ("&", "ii"), ("|", "ii"),
                                           ("<", "ii"), ("==", "ii"), ("==", "bb"), ("!=", "bb"), ("&&", "bb"), ("||", "bb"), ("?", "bii"), ("?", "bbb"), ("val", "m"), ("==", "mm"), ("&", "mm")}]
REPR_T = {"i": ["a", "b", "c", "d"], "b": BOOLS, "m": MASKS, "e": ENUMS}


def trees(n, ops, t=None):
    """All well typed operator skeletons with exactly n operators: nested tuples (op, kids) or a type letter."""
    if n == 0:
        return [t] if t else []
    out = []
    for o, args, res in ops:
        if t is not None and res != t:
            continue
        for split in splits(n - 1, len(args)):
            parts = [trees(k, ops, a) for k, a in zip(split, args)]
            combo = [()]
            for p in parts:
                combo = [c + (x,) for c in combo for x in p]
            out += [(o, res, c) for c in combo]
    return out


def splits(n, k):
    if k == 1:
        return [(n,)]
    return [(i,) + r for i in range(n + 1) for r in splits(n - i, k - 1)]


def fill(sk, pos, rot=0):
    """Puts leaves into a skeleton; the i-th leaf of a type takes the i-th variable of that type (rotated)."""
    if isinstance(sk, str):
        i = pos.get(sk, rot if sk == "i" else 0)
        pos[sk] = i + 1
        if sk == "i":
            return f("abcd"[i % 4])
        return REPR_T[sk][i % len(REPR_T[sk])]
    return N(sk[1], sk[0], tuple(fill(k, pos, rot) for k in sk[2]))


def leaf_space():
    """Every operator with every kind of operand at every operand position (other operands fixed)."""
    pool = {"i": LEAF_INTS, "b": LEAF_BOOLS, "e": LEAF_ENUMS, "m": LEAF_MASKS}
    base = {"i": f("c"), "b": BOOLS[1], "e": ENUMS[1], "m": MASKS[1]}
    out = []
    for o, args, res in OPS:
        for i in range(len(args)):
            for l in pool[args[i]]:
                if o == "num" and l.text.startswith("-"):
                    continue
                out.append(N(res, o, tuple(l if j == i else base[a] for j, a in enumerate(args))))
    return out + [l for t in pool for l in pool[t]]


def native_only(n):
    """Operand kinds which generated Java code cannot mix with uint64 (it does not compile; a known finding)."""
    return any(c in n.text for c in "[(.")


def big_space(java=False):
    """Operators with uint64 operands (BigInteger in Java)."""
    y, d = f("y"), f("d")
    out = []
    for o, args, res in OPS:
        if args == "ii" or args == "i":
            for other in [f("y")] + LEAF_INTS:
                if java and (native_only(other) or o in ("<<", ">>") and other.jt != "int"):
                    continue
                if len(args) == 2:
                    if o in ("<<", ">>"):
                        out.append(N(res, o, (y, other if other.text != "y" else lit("3", 3))))
                        continue
                    if o in ("+", "<", "%", "|", "==") or other.text in ("y", "w", "b", "KN", "7"):
                        out += [N(res, o, (y, other)), N(res, o, (other, y))]
                elif o == "u+" or o == "num" and not java:
                    out.append(N(res, o, (y,)))
    seen, res = set(), []
    for n in out + [N("i", "?", (BOOLS[0], y, f("y"))), N("i", "+", (N("i", "*", (y, lit("2", 2))), f("w")))]:
        if n.show() not in seen:
            seen.add(n.show())
            res.append(n)
    return res


def grid(full=True):
    """The value assignments every expression is evaluated on."""
    ga = [(-7, 3, -5, 1), (5, 2, 4, -9), (-2, 7, -5, 3), (0, 0, 0, 0), (1, 1, 1, 1), (6, 3, 2, 1), (-8, 2, 3, -2), (-128, 255, -32768, -2147483648), (127, 255, 32767, 2147483647),
          (3, 5, -1, 12), (-1, 1, 2, 4), (100, 9, -100, 10)]
    out = []
    for i, (a, b, c, d) in enumerate(ga):
        for j in range(8):
            if not full and (i + j) % 3:
                continue
            w = (i * 8 + j) * 2654435761 % (1 << 32)
            out.append({"a": a, "b": b, "c": c, "d": d, "u": (w >> 3) & 0xFFFF, "w": w, "x": (w << 7) - (1 << 37), "v": -w, "z": w & 0xFFFF, "vu": w & 0x7FFF, "b5": j % 3, "s7": (w % 128) - 64,
                        "b40": (w << 8) | 1, "y": [0, 1, 5, 1 << 62, (1 << 63) + 5, (1 << 64) - 1][j % 6], "p": bool(j & 1), "q": bool(j & 2), "r": bool(j & 4), "e": ENUM[(i + j) % 3][1], "g": ENUM[j % 3][1],
                        "m": [0, 1, 65, 67, 3, 2, 64, 66][j], "k": [3, 0, 64, 1, 66, 67, 2, 65][i % 8], "st": ["", "a", "\u20ac", "ab\u00e9"][j % 4], "arr": [j - 3, 7, -11, i], "brr": [False, bool(j & 1)],
                        "by": bytes(range(i % 4)), "inn": {"iv": [-3, 0, 9][j % 3], "ia": [i, j, 200][:2 + j % 2], "ib": bool(i & 1)}, "par": [-4, 0, 6, 1000][i % 4]})
    return out


RET = {"i": "int64", "b": "bool", "e": "En", "m": "Mk"}


def dedupe(nodes, full_variant=True):
    """(text, node) list without duplicates; each tree in minimal and in fully parenthesised spelling."""
    seen, out = set(), []
    for n in nodes:
        for full in (False, True) if full_variant else (False,):
            s = n.show(full)
            if s not in seen:
                seen.add(s)
                out.append((s, n))
    return out


def schema(pkg, exprs, ret=None):
    """Schema with one structure that has a function per expression."""
    s = PRE % pkg + "struct T(int32 par)\n{\n" + fields_decl() + "    function int32 base() { return a + 1; }\n"
    for i, (text, n) in enumerate(exprs):
        s += "    function %s f%d() { return %s; }\n" % ((ret or RET)[n.t], i, text)
    return s + "};\n"


def space(thorough=False, lang="py"):
    """name -> list of (text, node)."""
    one = [fill(t, {}) for t in trees(1, OPS)] + [fill(t, {}, 1) for t in trees(1, OPS)]
    two = [fill(t, {}) for t in trees(2, OPS)] + [fill(t, {}, 2) for t in trees(2, OPS)]
    three = [fill(t, {}) for t in trees(3, OPS if thorough else REPR)]
    return {"leaves": dedupe(leaf_space(), False), "small": dedupe(one + two), "three": dedupe(three, False), "big": dedupe(big_space(lang == "java"), False)}
