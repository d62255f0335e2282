"""Type information and reflection: model of what the generated type information says, compared with the real one.

Two kinds of lines for the drivers (fields separated by TAB):
  id class "T"                       -> the whole type graph reachable from the class, in canonical order
  id class "E" bits hex queries      -> the answer of every query on the object read from these bits
Type graph: types are numbered in the order they are met; types are separated by '|', their lines by ';'.
Query: path/op, path = field:element,...; operations see `answer`."""
import importlib, re, sys
from . import py_gen, xlang, trees
from .ref import *
from .pool import Res

BUILTIN = re.compile(r"^(?:(bit|int|uint|float)(:?)(\d+)|(var\w+)|bool|string|bytes|extern)$")


def builtin(text):
    m = BUILTIN.match(text)
    if not m:
        return None
    if m.group(4):
        return Var(m.group(4))
    if m.group(1) == "float":
        return Float(int(m.group(3)))
    if m.group(1):
        return Int(int(m.group(3)), m.group(1) == "int", std=not m.group(2))
    return {"bool": Bool, "string": Str, "bytes": Bytes, "extern": Extern}[text]()


def resolve(p, t):
    """Type of a parameter or function given as text."""
    if isinstance(t, T):
        return t
    return builtin(t) or p.types.get(t.split(".")[-1])


def own_name(p, t):
    return "%s.%s" % (getattr(t, "pkg", None) or p.name, t.name)


def strip(n):
    """Names of template instantiations that would not be unique have a hash appended."""
    return re.sub(r"_[0-9A-F]{8}$", "", n)


# ------------------------------------------------------------------------------------------------ structure, model
class Graph:
    def __init__(self, p, lang):
        self.p, self.lang = p, lang
        self.num, self.queue, self.lines = {}, [], []

    def ref(self, t):
        if isinstance(t, Dyn):
            n = "int" if t.signed else "bit"
            return n if self.lang == "python" else n + "<>"
        if not isinstance(t, (Compound, Enum, Bitmask)):
            if getattr(t, "sub", None) and self.lang == "python":
                return own_name(self.p, t)
            return getattr(t, "zsname", None) or base_name(t)
        if id(t) not in self.num:
            self.num[id(t)] = len(self.num)
            self.queue.append(t)
        return "%s#%d" % (own_name(self.p, t), self.num[id(t)])

    def field(self, f):
        arr = f.arr[0] if f.arr else "no"
        off = bool(f.offset)
        nargs = len(f.args) + (1 if isinstance(f.t, Dyn) else 0)
        return "F %s %s %s %d %d %s %d %d %d %d %d" % (f.name, self.ref(f.t), arr, f.packed, f.extend, "no" if f.opt is None else "auto" if f.opt == "auto" else "cond", bool(f.align), off,
                                                      f.init is not None, f.constraint is not None, nargs)

    def one(self, t):
        out = []
        if isinstance(t, Compound):
            kind = {Struct: "struct", Choice: "choice", Union: "union"}[type(t)]
            out.append("T %s %s" % (kind, own_name(self.p, t)))
            fs = t.all_fields()
            out += [self.field(f) for f in fs]
            out += ["P %s %s" % (n, self.ref(resolve(self.p, pt))) for pt, n in t.params]
            out += ["N %s %s" % (n, self.ref(getattr(e, "t", None) or resolve(self.p, rt))) for rt, n, e in t.funcs]
            if kind == "choice":
                st = getattr(t, "seltype", None)
                for _, vals, f in t.cases:
                    shown = ",".join(self.label(x) for x in vals) if self.lang != "cpp" else str(len(vals))
                    out.append("C %s %s" % (shown, f.name if f is not None else "-"))
                if t.default != "none":
                    out.append("C %s %s" % ("" if self.lang != "cpp" else "0", t.default.name if t.default is not None else "-"))
            tm = getattr(t, "tmpl", None)
            if tm:
                out.append("G %s %s" % ("flib.geo." + tm[0], " ".join(self.ref(a) for a in tm[1])))
        elif isinstance(t, Enum):
            out.append("T enum %s" % own_name(self.p, t))
            out.append("U %s" % self.under(t))
            out += ["I %s %d %d %d" % (n, v, a == "deprecated", a == "removed") for n, _, v, a in t.items]
        else:
            out.append("T bitmask %s" % own_name(self.p, t))
            out.append("U %s" % self.under(t))
            out += ["I %s %d 0 0" % (i[0], i[2]) for i in t.items]
        return out

    def under(self, t):
        w = getattr(t, "dynbase", None)     # (length) of an underlying dynamic bit field
        if w is None:
            return base_name(t.base) + " -"
        n = "int" if t.base.signed else "bit"
        return "%s %s" % (n if self.lang == "python" else n + "<>", "1" if self.lang == "cpp" else "i%d" % w)

    def label(self, x):
        if isinstance(x, bool):
            return "b%d" % x
        if isinstance(x, str):
            return "e" + x if not getattr(self, "strs", False) else "s" + x.encode().hex()
        return "i%d" % x

    def dump(self, t):
        self.ref(t)
        out = []
        while self.queue:
            out.append(";".join(self.one(self.queue.pop(0))))
        return "|".join(out)


def base_name(t):
    if isinstance(t, Int):
        return Int(t.bits, t.signed, t.std).name
    if isinstance(t, Var):
        return t.kind
    return type(t).name or Float(t.bits).name


# ------------------------------------------------------------------------------------------------ queries, model
def shown(t, v):
    if v is None:
        return "n"
    if isinstance(t, Compound):
        return "C"
    return trees.shown(t, v)


def guess(v):
    """Token of a value of unknown type."""
    if isinstance(v, (dict, tuple)):
        return "C"
    if isinstance(v, bool):
        return "b%d" % v
    if isinstance(v, int):
        return "i%d" % v
    return None


def safe(fn, *a):
    try:
        return fn(*a)
    except (KeyError, TypeError, IndexError, ZeroDivisionError, AttributeError):
        return Safe


class Safe:
    pass


def queries(p, t, v, args, lang, path="", depth=0):
    """[(query, expected answer)] of an object and everything below it."""
    out = []

    def q(op, exp):
        if exp is not None:
            out.append((path + "/" + op, exp))
    st = isinstance(t, Struct)
    env = t.env(args, v) if st else Compound.env(t, args)
    fs = t.all_fields()
    if st:
        for f in fs:
            if v.get(f.name) == "#absent":
                v = dict(v)
                v[f.name] = env[f.name] = None
                if f.opt is None:
                    env[f.name] = None
    else:
        for f in fs:
            if f.name == v[0]:
                env[f.name] = v[1]
    for (pt, n), a in zip(t.params, args):
        if lang == "cpp":
            q("Q" + n, shown(resolve(p, pt), a))
    for k, f in enumerate(fs):
        x = v.get(f.name) if st else v[1] if v[0] == f.name else None
        here = st or v[0] == f.name
        ext = f.extend and x is None
        if st and f.opt is not None and lang != "cpp" and not ext:
            if f.opt != "auto":
                r = safe(f.opt, env)
                if r is not Safe:
                    q("O%d" % k, "b%d" % bool(r))
                    q("U%d" % k, "b%d" % bool(r))
            else:
                q("U%d" % k, "b%d" % (x is not None))
            q("S%d" % k, "b%d" % (x is not None))
        if not here or x is None:
            continue
        if lang != "cpp":
            if f.constraint is not None:
                q("C%d" % k, "b%d" % bool(f.constraint(env)))
            if f.align:
                q("G%d" % k, "i%d" % f.align)
            if f.init is not None:
                q("I%d" % k, shown(f.t, f.init(env)))
            if f.arr and f.arr[0] == "fixed":
                q("L%d" % k, "i%d" % f.arr[1](env))
            for i in range(len(x)) if f.arr else [-1]:
                e = dict(env)
                e["@index"] = i
                if isinstance(f.t, Dyn):
                    q("A%d.0.%d" % (k, i), "i%d" % f.t.width(e))
                for j, a in enumerate(f.args):
                    q("A%d.%d.%d" % (k, j, i), shown(resolve(p, f.t.params[j][0]), a(e)))
                if f.offset and (f.offset.endswith("[@index]") == (f.arr is not None) or i <= 0):
                    o = e
                    for part in f.offset.replace("[@index]", "").split("."):
                        o = o[part]
                    q("P%d.%d" % (k, i), "i%d" % (o[i] if isinstance(o, list) else o))
        if f.arr is None:
            q("V%d" % k, shown(f.t, x))
        else:
            q("V%d" % k, "A%d" % len(x))
            if not isinstance(f.t, Compound):
                for i, y in enumerate(x):
                    q("V%d.%d" % (k, i), shown(f.t, y))
    for k, (rt, n, e) in enumerate(t.funcs):
        r = safe(e, env)
        ft = getattr(e, "t", None) or resolve(p, rt)
        if r is not Safe and ft is not None:
            q("N%d" % k, shown(ft, r))
    if isinstance(t, Choice):
        if lang == "python":
            s = t.selector(env)
            q("X", "e" + s if isinstance(s, str) else guess(s))
        if lang == "cpp":
            q("X", v[0] or "")
    elif isinstance(t, Union) and lang == "cpp":
        q("X", v[0] or "")
    for k, f in enumerate(fs):
        x = v.get(f.name) if st else v[1] if v[0] == f.name else None
        if x is None or not isinstance(f.t, Compound):
            continue
        for i, y in enumerate(x) if f.arr else [(-1, x)]:
            e = dict(env)
            e["@index"] = i
            out += queries(p, f.t, y, f.targs(e), lang, (path + "," if path else "") + "%d:%d" % (k, i), depth + 1)
    return out


def members(p, t, v, args):
    """(name, type, value, arguments) of everything find() can name; arguments None for arrays and plain types, no value: absent."""
    st = isinstance(t, Struct)
    env = t.env(args, v) if st else Compound.env(t, args)
    if not st and v[0] is not None:
        env[v[0]] = v[1]
    for f in t.all_fields():
        x = v.get(f.name) if st else v[1] if v[0] == f.name else None
        if x == "#absent":
            return          # partially present objects are asked field by field
        if x is not None and isinstance(f.t, Compound) and not f.arr:
            yield f.name, f.t, x, f.targs(dict(env))
        elif st or x is not None:
            yield f.name, None if f.arr else f.t, x, None
    for (pt, n), a in zip(t.params, args):
        pt = resolve(p, pt)
        yield n, pt, a, [] if isinstance(pt, Compound) and not pt.params else None
    for rt, n, e in t.funcs:
        r = safe(e, env)
        ft = getattr(e, "t", None) or resolve(p, rt)
        if r is not Safe and ft is not None:
            yield n, ft, r, [] if isinstance(ft, Compound) and not ft.params else None


def finds(p, t, v, args, prefix="", depth=0, plain=True):
    """Paths for find(): at most four names, every one of them a field, a parameter or a function; and names of nothing."""
    out = [(prefix + "zz", "n")]
    names = set()
    for n, mt, x, a in members(p, t, v, args):
        if n in names:
            continue
        names.add(n)
        if mt is None or x is None:
            exp = "n" if x is None else "A%d" % len(x)
        else:
            exp = shown(mt, x)
        out.append((prefix + n, exp))
        if isinstance(mt, Compound) and x is not None:
            if a is not None and depth < 3:
                out += finds(p, mt, x, a, prefix + n + ".", depth + 1)
        else:
            out.append((prefix + n + ".zz", "n"))
    return out


# ------------------------------------------------------------------------------------------------ Python driver
class PyInfo:
    def __init__(self, z):
        self.ti = z.typeinfo
        self.known = {}
        self.TA, self.MA = z.typeinfo.TypeAttribute, z.typeinfo.MemberAttribute

    def token(self, v):
        import enum, zserio
        if v is None:
            return "n"
        if isinstance(v, bool):
            return "b%d" % v
        if isinstance(v, enum.Enum):
            return "e%d" % v.value
        if isinstance(v, int):
            return "i%d" % v
        if isinstance(v, float):
            return "f" + trees.double_hex(v)
        if isinstance(v, str):
            return "s" + v.encode("utf8").hex()
        if isinstance(v, (bytes, bytearray)):
            return "B" + bytes(v).hex()
        if isinstance(v, zserio.BitBuffer):
            n = v.bitsize
            return "X%d:%s" % (n, bytes(v.buffer)[:(n + 7) // 8].hex())
        if isinstance(v, list):
            return "A%d" % len(v)
        if hasattr(v, "value") and hasattr(type(v), "from_value"):
            return "m%d" % v.value
        return "C"

    def kind(self, ti):
        a, TA = ti.attributes, self.TA
        if TA.ENUM_ITEMS in a:
            return "enum"
        if TA.BITMASK_VALUES in a:
            return "bitmask"
        if TA.FIELDS in a:
            return "struct" if TA.SELECTOR not in a else "union" if a[TA.SELECTOR] is None else "choice"
        return None

    def graph(self, ti):
        TA, MA = self.TA, self.MA
        num, queue, out = {}, [], []

        def ref(x):
            k = self.kind(x)
            if k is None:
                if x.attributes:
                    raise Exception("unexpected attributes of %s" % x.schema_name)
                return x.schema_name
            key = x.schema_name
            if key not in num:
                num[key] = len(num)
                queue.append(x)
            if x.py_type.type_info().schema_name != x.schema_name:
                raise Exception("py_type of %s" % x.schema_name)
            return "%s#%d" % (strip(x.schema_name), num[key])
        ref(ti)
        while queue:
            x = queue.pop(0)
            k, a = self.kind(x), dict(x.attributes)
            lines = ["T %s %s" % (k, strip(x.schema_name))]
            if k in ("enum", "bitmask"):
                ua = a.pop(TA.UNDERLYING_TYPE_ARGUMENTS, None)
                lines.append("U %s %s" % (ref(a.pop(TA.UNDERLYING_TYPE)), "-" if ua is None else " ".join(self.token(e()) for e in ua)))
                for i in a.pop(TA.ENUM_ITEMS if k == "enum" else TA.BITMASK_VALUES):
                    lines.append("I %s %d %d %d" % (i.schema_name, i.py_item.value, i.is_deprecated, i.is_removed))
            else:
                fields = a.pop(TA.FIELDS)
                for f in fields:
                    m = dict(f.attributes)
                    opt = "no"
                    if MA.OPTIONAL in m:
                        opt = "auto" if m.pop(MA.OPTIONAL) is None else "cond"
                        m.pop(MA.IS_USED_INDICATOR_NAME), m.pop(MA.IS_SET_INDICATOR_NAME)
                    arr = "no"
                    if MA.ARRAY_LENGTH in m:
                        n = m.pop(MA.ARRAY_LENGTH)
                        arr = "auto" if n is None else "fixed"
                        if MA.IMPLICIT in m:
                            arr = "implicit" if n is None else "?"
                            m.pop(MA.IMPLICIT)
                    flag = lambda key: m.pop(key, self) is not self
                    line = "F %s %s %s %d %d %s %d %d %d %d %d" % (f.schema_name, ref(f.type_info), arr, flag(MA.PACKED), flag(MA.EXTENDED), opt, flag(MA.ALIGN), flag(MA.OFFSET), flag(MA.INITIALIZER),
                                                                  flag(MA.CONSTRAINT), len(m.pop(MA.TYPE_ARGUMENTS, [])))
                    m.pop(MA.PROPERTY_NAME)
                    lines.append(line + "".join(" +" + y.name for y in m))
                for f in a.pop(TA.PARAMETERS, []):
                    m = dict(f.attributes)
                    m.pop(MA.PROPERTY_NAME)
                    lines.append("P %s %s" % (f.schema_name, ref(f.type_info)) + "".join(" +" + y.name for y in m))
                for f in a.pop(TA.FUNCTIONS, []):
                    lines.append("N %s %s" % (f.schema_name, ref(f.type_info)))
                a.pop(TA.SELECTOR, None)
                for c in a.pop(TA.CASES, []):
                    labels = []
                    for e in c.case_expressions:
                        e = e()
                        labels.append("e" + e.name if isinstance(e, __import__("enum").Enum) else "i%d" % e.value if self.token(e)[0] == "m" else self.token(e))
                    if c.field is not None and not any(c.field is f for f in fields):
                        labels.append("?")
                    lines.append("C %s %s" % (",".join(labels), c.field.schema_name if c.field is not None else "-"))
                if TA.TEMPLATE_NAME in a:
                    lines.append("G %s %s" % (a.pop(TA.TEMPLATE_NAME), " ".join(ref(y) for y in a.pop(TA.TEMPLATE_ARGUMENTS))))
            lines += ["+" + y.name for y in a]
            out.append(";".join(lines))
        return "|".join(out)

    def info(self, c):
        if c not in self.known:
            self.known[c] = c.type_info()
        return self.known[c]

    def answer(self, obj, query):
        TA, MA = self.TA, self.MA
        path, op = query.split("/")
        for step in path.split(",") if path else []:
            k, i = map(int, step.split(":"))
            f = self.info(type(obj)).attributes[TA.FIELDS][k]
            obj = getattr(obj, f.attributes[MA.PROPERTY_NAME])
            if i >= 0:
                obj = obj[i]
        ti = self.info(type(obj))
        k, rest = op[0], op[1:].split(".")
        if k == "X":
            r = ti.attributes[TA.SELECTOR](obj)
            return "e" + r.name if isinstance(r, __import__("enum").Enum) else "i%d" % r.value if self.token(r)[0] == "m" else self.token(r)
        if k == "N":
            f = ti.attributes[TA.FUNCTIONS][int(rest[0])]
            a, b = self.token(f.attributes[MA.FUNCTION_RESULT](obj)), self.token(getattr(obj, f.attributes[MA.FUNCTION_NAME])())
            return a if a == b else a + "!=" + b
        a = ti.attributes[TA.FIELDS][int(rest[0])].attributes
        i = int(rest[-1]) if len(rest) > 1 else -1
        if k == "A":
            return self.token(a[MA.TYPE_ARGUMENTS][int(rest[1])](obj, i))
        if k == "L":
            return self.token(a[MA.ARRAY_LENGTH](obj))
        if k == "O":
            return self.token(bool(a[MA.OPTIONAL](obj)))
        if k == "U":
            return self.token(getattr(obj, a[MA.IS_USED_INDICATOR_NAME])())
        if k == "S":
            return self.token(getattr(obj, a[MA.IS_SET_INDICATOR_NAME])())
        if k == "C":
            return self.token(bool(a[MA.CONSTRAINT](obj)))
        if k == "P":
            return self.token(a[MA.OFFSET](obj, i))
        if k == "G":
            return self.token(a[MA.ALIGN]())
        if k == "I":
            return self.token(a[MA.INITIALIZER]())
        v = getattr(obj, a[MA.PROPERTY_NAME])
        return self.token(v if i < 0 else v[i])


def python_outs(gen, p, lines):
    if gen not in sys.path:
        sys.path.insert(0, gen)
    import zserio
    info = PyInfo(zserio)
    api = importlib.import_module(p.name + ".api")
    outs = []
    for line in lines:
        l = line.split("\t")
        try:
            c = getattr(api, l[1].split(".")[-1])
            if l[2] == "T":
                o = info.graph(c.type_info())
            else:
                obj = c.from_reader(zserio.BitStreamReader(bytes.fromhex(l[4]), int(l[3])))
                res = []
                for q in l[5].split(" ") if l[5] else []:
                    try:
                        res.append(info.answer(obj, q))
                    except Exception as e:
                        res.append("EXC-%s-%s" % (type(e).__name__, re.sub(r"\s", "_", str(e))[:80]))
                o = " ".join(res)
        except Exception as e:
            o = "EXC %s %s" % (type(e).__name__, e)
        outs.append(l[0] + "\t" + o.replace("\n", " ").replace("\t", " "))
    return outs


# ------------------------------------------------------------------------------------------------ exploration
def explore(task):
    lang, name, tier, lo, hi, prog = task
    p = py_gen.family(name, tier)
    res = Res()
    lines, exps = [], []
    if lo == 0:
        tops = {id(t) for t, values, _ in p.cases if values}
        for t in p.types.values():
            if not has_class(p, t) or lang == "cpp" and id(t) not in tops:      # the others are met below these
                continue
            lines.append("%d\t%s.%s\tT" % (len(lines), p.name, t.name))
            exps.append((t, None, [("", Graph(p, lang).dump(t))]))
    for t, values, args in p.cases[lo:hi]:
        if t.params:
            continue
        n_ext = sum(f.extend for f in t.all_fields())
        for v in [dict(v, **{"#ext": k}) for v in values for k in range(n_ext + 1)] if n_ext else values:
            try:
                mv, w = encode(t, v, args)
                mv = decode(t, w.bytes(), w.n, args)[0]
            except (Reject, Unspecified):
                continue
            qs = queries(p, t, mv, args, lang)
            if lang == "cpp":
                qs += [("/F" + n, e) for n, e in finds(p, t, mv, args)]
                if not n_ext or v["#ext"] == n_ext:     # alignment before a missing trailing field is not written again
                    qs.append(("/W", "%d:%s:%d" % (w.n, w.bytes().hex(), w.n)))
            lines.append("%d\t%s.%s\tE\t%d\t%s\t%s" % (len(lines), p.name, t.name, w.n, w.bytes().hex(), " ".join(q for q, _ in qs)))
            exps.append((t, v, qs))
    if lang == "python":
        outs = python_outs(prog, p, lines)
    elif lang == "java":
        outs = xlang.run_java(prog, lines, main="Infos", name="i%s%d" % (name, lo))
    else:
        outs = xlang.run_prog(prog[p.name], lines, name="i%s%d" % (name, lo))
    for (t, v, qs), line, out in zip(exps, lines, outs):
        o = out.split("\t", 1)[1]
        head = "%s %s.%s " % (lang, p.name, t.name)
        if v is None:
            # an instantiation with two subtypes of one type is one type: which name it keeps is open
            want, got = [x.replace("flib.geo.Num2", "flib.geo.Num").split("|") for x in (qs[0][1], o)]
            res.states += len(want)
            res.transitions += qs[0][1].count(";") + len(want)
            if want == got:
                res.traces += 1
                continue
            for i, w in enumerate(want):
                if i >= len(got) or got[i] != w:
                    wl, gl = w.split(";"), (got[i] if i < len(got) else "").split(";")
                    k = next((k for k, x in enumerate(wl) if k >= len(gl) or gl[k] != x), len(wl))
                    res.bad("type:%s:%s:%s" % (lang, p.name, wl[0]), head + "type information of %s: %r, model %r (all: %s)" % (wl[0], gl[k] if k < len(gl) else None, wl[k] if k < len(wl) else None, o[:400]))
                    break
            else:
                res.bad("type:%s:%s:%s:more" % (lang, p.name, t.name), head + "further types: " + "|".join(got[len(want):])[:500])
            continue
        got = o.split(" ")
        res.states += 1
        res.transitions += len(qs)
        if not qs:
            continue
        if len(got) != len(qs):
            res.bad("object:%s:%s.%s" % (lang, p.name, t.name), head + "%r: %s" % (v, o[:500]))
            continue
        bad = [(q, e, g) for (q, e), g in zip(qs, got) if e != g]
        for q, e, g in bad[:3]:
            res.bad("query:%s:%s.%s:%s" % (lang, p.name, t.name, re.sub(r":\d+|\.\d+", "", q)), head + "%.300r: query %s answered %s, model %s" % (v, q, g, e))
        if not bad:
            res.traces += 1
    if lines:
        res.sample("%s %s[%d:%d]: %d lines, last %s" % (lang, p.name, lo, hi, len(lines), lines[-1][:200]))
    return res.out()


def has_class(p, t):
    return isinstance(t, Compound) and not t.name.startswith("_") and getattr(t, "pkg", None) is None
