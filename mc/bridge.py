"""Binds model values to objects of the generated Python code (public API only: constructors and properties)."""
import importlib, os, re, zlib
from .ref import *


def templated(t):
    """Declaration of a compound type as the instantiation of a template."""
    d = re.sub(r"\buint8\b", "ZT", t.decl())
    return re.sub(r"^(\w+ )%s\b" % t.name, r"\1%sOf<ZT>" % t.name, d) + "instantiate %sOf<uint8> %s;\n" % (t.name, t.name)


class Pkg:
    """A zserio package: declarations in order, and the types explored with their values."""

    def __init__(self, name):
        self.name = name
        self.decls = []
        self.types = {}
        self.cases = []          # (type, [values], args)
        self.head = ""
        self.templates = False   # every second compound type is declared as an instantiation of a template
        self.extra = {}          # other files: {path: text}

    def add(self, t):
        if t.name not in self.types:
            self.types[t.name] = t
            self.decls.append(templated(t) if self.templates and isinstance(t, Compound) and zlib.crc32(t.name.encode()) % 2 else t.decl())
        return t

    def raw(self, text):
        self.decls.append(text)

    def case(self, t, values, args=()):
        self.add(t)
        self.cases.append((t, list(values), tuple(args)))
        return t

    def write(self, d):
        """Writes the schema files into a directory."""
        for path, text in [(self.name + ".zs", self.text())] + list(self.extra.items()):
            path = os.path.join(d, path)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(text)

    def text(self):
        return "package %s;\n\n%s%s" % (self.name, self.head, "\n".join(self.decls))


def upper(name):
    return "".join("_" + c if c.isupper() else c.upper() for c in name).lstrip("_").upper()


class Bridge:
    def __init__(self, api, zserio):
        self.api, self.z = api, zserio
        self.far = {}
        self.arg_mut = None      # (field, argument index, replacement): a deliberately wrong argument
        self.arg_hit = False

    def cls(self, t):
        t = getattr(t, "t", t) if isinstance(t, Sub) else t
        pkg = getattr(t, "pkg", None)
        if pkg is None:
            return getattr(self.api, t.name.split(".")[-1])
        if id(t) not in self.far:
            self.far[id(t)] = t, self.find(importlib.import_module(pkg + ".api"), t, self.api.__name__.rsplit(".", 1)[0])
        return self.far[id(t)][1]

    @staticmethod
    def find(api, t, main):
        """A class of another package; instantiations of templates whose names would be the same have a hash appended."""
        if hasattr(api, t.name):
            return getattr(api, t.name)
        if not getattr(t, "tmpl", None):
            raise AttributeError(t.name)
        want = ["%s.%s" % (getattr(x, "pkg", None) or main, x.name) for x in t.tmpl[1] if isinstance(x, Compound)]
        for n in dir(api):
            if re.fullmatch(re.escape(t.name) + "_[0-9A-F]{8}", n):
                a = [x.schema_name for k, v in getattr(api, n).type_info().attributes.items() if k.name == "TEMPLATE_ARGUMENTS" for x in v]
                if all(w in a for w in want):
                    return getattr(api, n)
        raise AttributeError(t.name)

    # ---------------------------------------------------------------------------------------------- model -> object
    def leaf(self, t, v):
        if isinstance(t, Extern):
            return self.z.BitBuffer(v.data(), v.n)
        if isinstance(t, Bytes):
            return bytearray(v)
        if isinstance(t, Enum):
            return getattr(self.cls(t), ("ZSERIO_REMOVED_" if v in t.removed else "") + self.item(v))
        if isinstance(t, Bitmask):
            return self.cls(t).from_value(v)
        return v

    @staticmethod
    def item(name):
        return name

    def args_obj(self, f, env, built):
        out = []
        for a, p in zip(f.args, f.t.params):
            v = a(env)
            pt = p[0]
            if isinstance(pt, Compound):
                v = built[a.text]
            elif isinstance(pt, T):
                v = self.leaf(pt, v)
            if self.arg_mut and self.arg_mut[0] is f and self.arg_mut[1] == len(out):
                v = self.arg_mut[2](v)
                self.arg_hit = True
            out.append(v)
        return out

    def field(self, f, v, env, built):
        if f.arr is not None:
            out = []
            for i, x in enumerate(v):
                env["@index"] = i
                out.append(self.build(f.t, x, f.targs(env) if isinstance(f.t, Compound) else (), self.args_obj(f, env, built) if isinstance(f.t, Compound) else ()))
            return out
        if isinstance(f.t, Compound):
            return self.build(f.t, v, f.targs(env), self.args_obj(f, env, built))
        return self.leaf(f.t, v)

    def build(self, t, v, args=(), oargs=None):
        if isinstance(t, Sub):
            t = t.t
        if not isinstance(t, Compound):
            return self.leaf(t, v)
        if oargs is None:
            oargs = [self.leaf(p[0], a) if isinstance(p[0], T) else a for a, p in zip(args, t.params)]
        kw = {p[1] + "_": o for p, o in zip(t.params, oargs)}
        if isinstance(t, Struct):
            env = t.env(args, v)
            built = {p[1]: o for p, o in zip(t.params, oargs)}
            for f in t.fields:
                x = v.get(f.name)
                built[f.name] = o = None if x is None else self.field(f, x, env, built)
                kw[f.name + "_"] = o
        elif v[0] is not None:
            f = [f for f in t.all_fields() if f.name == v[0]][0]
            env = t.env(args) if not isinstance(t, Struct) else None
            env = Compound.env(t, args)
            built = {p[1]: o for p, o in zip(t.params, oargs)}
            kw[f.name + "_"] = self.field(f, v[1], env, built)
        return self.cls(t)(**kw)

    # ---------------------------------------------------------------------------------------------- object -> model
    def unleaf(self, t, o):
        if isinstance(t, Extern):
            n = o.bitsize
            return Ext(int.from_bytes(bytes(o.buffer)[:(n + 7) // 8], "big") >> (-n % 8), n)
        if isinstance(t, Bytes):
            return bytes(o)
        if isinstance(t, Enum):
            return o.name[15:] if o.name.startswith("ZSERIO_REMOVED_") else o.name
        if isinstance(t, Bitmask):
            return o.value
        return o

    def unfield(self, f, o):
        if f.arr is not None:
            return [self.extract(f.t, x) for x in o]
        return self.extract(f.t, o)

    def extract(self, t, o):
        if isinstance(t, Sub):
            t = t.t
        if not isinstance(t, Compound):
            return self.unleaf(t, o)
        if isinstance(t, Struct):
            v = {}
            n = 0
            has = False
            for f in t.fields:
                if f.extend:
                    has = True
                    if not getattr(o, "is_%s_present" % f.name)():
                        v[f.name] = "#absent"
                        continue
                    n += 1
                x = getattr(o, f.name)
                v[f.name] = None if x is None else self.unfield(f, x)
            if has:
                v["#ext"] = n
            return v
        tag = o.choice_tag
        for f in t.all_fields():
            if tag == getattr(o, "CHOICE_" + upper(f.name)):
                return (f.name, self.unfield(f, getattr(o, f.name)))
        return (None, None)


def to_bits(data, nbits, start):
    """int value of bits [start, nbits) of data."""
    v = int.from_bytes(data, "big") >> (len(data) * 8 - nbits)
    return v & ((1 << (nbits - start)) - 1)
