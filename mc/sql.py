"""SQL tables: model of databases with generated tables, histories of operations, and their replay in all three languages.

A history is one line for a driver (mc/java_sql/Sql.java, mc/cpp_sql/sql.h with generated table handlers, PyDb below):
  id TAB database class TAB file[+table=file...] TAB operation TAB operation ...
  operations: c [names]  create schema (tables not to be made WITHOUT ROWID)     d  delete schema      ct/co/dt|table  one table
              w|table|columns|rows    u|table|columns|row|condition    r|table|columns|condition    (columns *: all)
              t / k / b  begin, commit, roll back     o  close and open again    p|cnt|flag  values of explicit parameters
              q|sql  raw SQL      v  validate
  row = cells separated by ','; cells: n | i<int> | f<double in hex> | s<hex> | b<hex>[:parameter...]
Every operation is answered with ok, [rows], or x... (refused)."""
import importlib, itertools, os, sqlite3, struct, subprocess, sys
from . import zbuild
from .ref import *
from .pool import Res

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------------------------------------ tables
class Col:
    def __init__(self, name, kind, cls=None, lo=None, hi=None, notnull=False, pk=False, unique=False, default=None, check=None, vals=(), params=(), sql=None):
        self.name, self.kind, self.cls, self.lo, self.hi = name, kind, cls, lo, hi
        self.notnull, self.pk, self.unique, self.default, self.check, self.params, self.sql = notnull, pk, unique, default, check, params, sql
        self.vals = list(vals) if vals else sorted({lo, hi, 0 if lo < 0 else lo, lo + 1, hi - 1}) if kind == "int" else []


class Table:
    def __init__(self, cls, cols, key=(), rowid=True, provider=False, types=True):
        self.cls, self.cols, self.key, self.rowid, self.provider = cls, cols, key, rowid, provider
        self.names = [x.name for x in cols]


def fl(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def ints(*names):
    B = {"bool": (0, 1), "bit:1": (0, 1), "bit:63": (0, (1 << 63) - 1), "bit:64": (0, (1 << 64) - 1), "int:5": (-16, 15), "int:64": (-1 << 63, (1 << 63) - 1)}
    out = []
    for n, t in names:
        if t in B:
            lo, hi = B[t]
        elif t.startswith("var"):
            lo, hi = var_bounds(t)
        else:
            k = int(t.lstrip("uint"))
            lo, hi = (0, (1 << k) - 1) if t[0] == "u" else (-1 << k - 1, (1 << k - 1) - 1)
        out.append(Col(n, "int", t, lo, hi))
    return out


TEXTS = ["", "a", "a\u00e9\u20ac\U0001f600", "it's \"x\"", "a\nb\tc"]
u8 = Int(8)
BLOB = Struct("Blob", [Field("n", u8), Field("s", Str()), Field("b", Int(3))])
EMPTY = Struct("Empty", [])
PAR = Struct("Par", [Field("v", Dyn(E("k % 8 + 1", lambda e: e["k"] % 8 + 1))), Field("a", u8, arr=("fixed", E("k % 3", lambda e: e["k"] % 3)))], params=[("uint8", "k")])
CH = Choice("Ch", [("bool", "b")], E("b", lambda e: e["b"]), [(["true"], [True], Field("x", u8)), (["false"], [False], Field("y", Str()))])
UN = Union("Un", [Field("x", u8), Field("y", Str())])


def blob(t, v, args=()):
    return ("b", encode(t, v, args)[1].bytes().hex(), tuple(int(a) for a in args))


def par(k, x=1):
    return blob(PAR, {"v": x % (1 << k % 8 + 1), "a": [7, 200][:k % 3]}, (k,))


BLOBS = [blob(BLOB, {"n": 0, "s": "", "b": 0}), blob(BLOB, {"n": 255, "s": "x\u00e9", "b": 7}), blob(BLOB, {"n": 1, "s": "'" * 40, "b": 5})]
UNS = [blob(UN, ("x", 255)), blob(UN, ("y", "yy"))]
CHS = {1: [blob(CH, ("x", 9), (True,))], 0: [blob(CH, ("y", "no"), (False,))]}

T = {
    "Ints": Table("Ints", [Col("id", "int", "int32", -1 << 31, (1 << 31) - 1, notnull=True, pk=True, sql="PRIMARY KEY NOT NULL")] + ints(
        ("bo", "bool"), ("i8", "int8"), ("i16", "int16"), ("i32", "int32"), ("i64", "int64"), ("u8", "uint8"), ("u16", "uint16"), ("u32", "uint32"), ("u64", "uint64"), ("b1", "bit:1"), ("b63", "bit:63"), ("b64", "bit:64"), ("s5", "int:5"), ("s64", "int:64"),
        ("v16", "varint16"), ("v32", "varint32"), ("v64", "varint64"), ("v", "varint"), ("w16", "varuint16"), ("w32", "varuint32"), ("w64", "varuint64"), ("w", "varuint"), ("vs", "varsize")), key=("id",)),
    "Others": Table("Others", [Col("id", "int", "uint8", 0, 255, notnull=True, pk=True, sql="PRIMARY KEY NOT NULL"), Col("f16", "real", "float16", vals=[0.0, 1.5, -65504.0, 2.0 ** -24]), Col("f32", "real", "float32", vals=[0.0, 3.4028234663852886e38, -1.401298464324817e-45]),
                               Col("f64", "real", "float64", vals=[0.0, 0.1, -1.7976931348623157e308, 5e-324, float("inf")]), Col("st", "text", vals=TEXTS), Col("e", "int", "E", -128, 127, vals=[-128, 0, 127]), Col("eu", "int", "Eu", 0, (1 << 64) - 1, vals=[0, (1 << 64) - 1]),
                               Col("eb", "int", "Eb", 0, 31, vals=[1, 31]), Col("m", "int", "M", 0, 255, vals=[0, 1, 0x81, 255]), Col("mu", "int", "Mu", 0, (1 << 64) - 1, vals=[0, 1, 1 << 63])], key=("id",)),
    "Blobs": Table("Blobs", [Col("id", "int", "uint16", 0, 65535, notnull=True, pk=True, sql="PRIMARY KEY NOT NULL"), Col("k", "int", "uint8", 0, 255, vals=[0, 1, 255]), Col("bl", "blob", "Blob", vals=BLOBS), Col("em", "blob", "Empty", vals=[blob(EMPTY, {})]),
                             Col("pa", "blob", "Par", params=["uint8_t"]), Col("pe", "blob", "Par", params=["uint8_t"]), Col("ch", "blob", "Ch", params=["bool"]), Col("un", "blob", "Un", vals=UNS), Col("after", "text", vals=["z", ""])], key=("id",), provider=True),
    "Mix": Table("Mix", [Col("name", "text", vals=["a", "b"]), Col("bl", "blob", "Blob", vals=BLOBS), Col("e", "int", "E", -128, 127, vals=[-128, 0, 127]), Col("num", "int", "uint32", 0, (1 << 32) - 1)]),
    "Plain": Table("Plain", [Col("a", "int", "int32", -1 << 31, (1 << 31) - 1), Col("b", "text", vals=TEXTS), Col("c", "real", "float64", vals=[0.5, -1e300])]),
    "Comp": Table("Comp", [Col("a", "int", "uint8", 0, 255, notnull=True, pk=True, sql="NOT NULL"), Col("b", "text", notnull=True, pk=True, vals=["x", "y"], sql="NOT NULL"), Col("c", "int", "uint8", 0, 255, unique=True, sql="UNIQUE")], key=("a", "b"), rowid=False),
    "Chk": Table("Chk", [Col("a", "int", "uint8", 0, 255, notnull=True, pk=True, check=lambda v: v < 10, sql="PRIMARY KEY NOT NULL CHECK (a < 10)", vals=[0, 9]), Col("d", "int", "uint8", 0, 255, default=7, sql="DEFAULT 7"), Col("bl", "blob", "Blob", notnull=True, vals=BLOBS, sql="NOT NULL")], key=("a",)),
    "Tm_Blob": Table("Tm_Blob", [Col("id", "int", "uint8", 0, 255, notnull=True, pk=True, sql="PRIMARY KEY NOT NULL"), Col("v", "blob", "Blob", vals=BLOBS)], key=("id",)),
    "Tm_string": Table("Tm_string", [Col("id", "int", "uint8", 0, 255, notnull=True, pk=True, sql="PRIMARY KEY NOT NULL"), Col("v", "text", vals=TEXTS)], key=("id",)),
    "Np": Table("Np", [Col("a", "text", pk=True, vals=["k", "l"], sql="PRIMARY KEY"), Col("b", "int", "uint8", 0, 255)], key=("a",)),
    "Bp": Table("Bp", [Col("k", "blob", "Blob", pk=True, notnull=True, vals=BLOBS, sql="NOT NULL"), Col("n", "int", "uint8", 0, 255, pk=True), Col("f", "real", "float32", notnull=True, vals=[0.5, 2.0], sql="NOT NULL")], key=("k", "n")),
    "Fts": Table("Fts", [Col("t", "text", vals=["one two"]), Col("u", "text", vals=["three"])]),
    "Vm": Table("Vm", [Col("t", "text", vals=["one two"]), Col("rank", "real", "float64", vals=[0.0])]),
}
DBS = {
    "Db": [("ints", "Ints"), ("others", "Others"), ("blobs", "Blobs"), ("mixA", "Mix"), ("mixB", "Mix"), ("plain", "Plain"), ("comp", "Comp"), ("chk", "Chk"), ("tmBlob", "Tm_Blob"), ("tmStr", "Tm_string")],
    "VDb": [("fts", "Fts"), ("vm", "Vm")],
    "Sdb": [("mixA", "Mix"), ("mixB", "Mix"), ("comp", "Comp"), ("chk", "Chk")],
    "Cdb": [("plain", "Plain"), ("blobs", "Blobs")],
    "Ndb": [("np", "Np"), ("bp", "Bp"), ("plain", "Plain")],
}


def snake(s):
    return "".join("_" + x.lower() if x.isupper() else x for x in s)


def cell(v):
    """Token of a model value for a driver."""
    if v is None:
        return "n"
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f%016x" % fl(v)
    if isinstance(v, str):
        return "s" + v.encode("utf8").hex()
    return "b" + ":".join([v[1]] + [str(a) for a in v[2]])


def shown(v):
    """What reading gives."""
    return "b" + v[1] if isinstance(v, tuple) else cell(v)


def rows_text(rows):
    return ";".join(",".join(cell(v) for v in r) for r in rows)


# ------------------------------------------------------------------------------------------------ model
class Model:
    """Contents of a database: {table: rows in the order of their insertion}; None for a missing table."""

    def __init__(self, db):
        self.db = db
        self.tabs = {n: None for n, _ in DBS[db]}
        self.ordinary = set()
        self.saved = None          # state at the begin of a transaction
        self.broken = False        # something failed within a transaction
        self.plain_db = set()

    def snap(self):
        return {n: None if r is None else [list(x) for x in r] for n, r in self.tabs.items()}, set(self.ordinary)

    def table(self, name):
        return T[dict(DBS[self.db])[name]]

    def check(self, name, rows):
        """True if the constraints of the table hold."""
        t = self.table(name)
        for i, col in enumerate(t.cols):
            for r in rows:
                if r[i] is None and col.notnull:
                    return False
                if r[i] is not None and col.check and not col.check(r[i]):
                    return False
            if col.unique:
                vs = [r[i] for r in rows if r[i] is not None]
                if len(set(vs)) != len(vs):
                    return False
        if t.key:
            ks = [tuple(r[t.names.index(k)] for k in t.key) for r in rows]
            ks = [k for k in ks if None not in k]
            if len(set(ks)) != len(ks):
                return False
        return True

    def run(self, op):
        """Expected answer: 'ok', 'x' or a list of rows; None: unspecified."""
        k = op[0]
        old = self.snap()
        r = self.step(op)
        if r == "x":
            self.tabs, self.ordinary = old
            if self.saved is not None and k in "wcd":
                self.broken = True
        return r

    def step(self, op):
        k = op[0]
        if k in ("p", "q"):
            return "ok"
        if k == "c":
            for n in self.tabs:
                if self.tabs[n] is not None:
                    return "x"
                self.tabs[n] = []
            self.ordinary = set(op[1]) if len(op) > 1 else set()
            return "ok"
        if k == "d":
            for n in self.tabs:
                if self.tabs[n] is None:
                    return "x"
                self.tabs[n] = None
            return "ok"
        if k in ("ct", "co"):
            if self.tabs[op[1]] is not None:
                return "x"
            self.tabs[op[1]] = []
            self.ordinary = self.ordinary - {op[1]} | ({op[1]} if k == "co" else set())
            return "ok"
        if k == "dt":
            if self.tabs[op[1]] is None:
                return "x"
            self.tabs[op[1]] = None
            return "ok"
        if k == "t":
            self.saved = self.snap()
            return "ok"
        if k == "k":
            self.saved = None
            return "ok"
        if k == "b" or k == "o":
            if self.saved is not None:
                (self.tabs, self.ordinary), self.saved, self.broken = self.saved, None, False
            return "ok"
        name = op[1]
        t = self.table(name)
        cols = t.names if op[2] is None else op[2]
        rows = self.tabs[name]
        if any(x not in t.names for x in cols) or rows is None:
            return "x"
        if k == "w":
            for new in op[3]:
                r = [v if x.name in cols else x.default for x, v in zip(t.cols, new)]
                for i, x in enumerate(t.cols):
                    if r[i] is None and x.kind == "int" and t.key == (x.name,):      # alias of the rowid
                        r[i] = max([y[i] for y in rows] or [0]) + 1
                rows.append(r)
                if not self.check(name, rows):
                    return "x"
            return "ok"
        if k == "u":
            for r in rows:
                if op[4][1](dict(zip(t.names, r))):
                    for i, x in enumerate(t.names):
                        if x in cols:
                            r[i] = op[3][i]
            return "ok" if self.check(name, rows) else "x"
        if k == "r":
            return [[v if x in cols else None for x, v in zip(t.names, r)] for r in rows if op[3] is None or op[3][1](dict(zip(t.names, r)))]
        raise AssertionError(k)


def op_text(op):
    k = op[0]
    if k == "c" and len(op) > 1:
        return "c|" + ",".join(op[1])
    if k in ("w", "u", "r"):
        cols = "*" if op[2] is None else ",".join(op[2])
        if k == "w":
            return "|".join([k, op[1], cols, rows_text(op[3])])
        if k == "u":
            return "|".join([k, op[1], cols, rows_text([op[3]]), op[4][0]])
        return "|".join([k, op[1], cols, op[3][0] if op[3] else ""])
    return "|".join(str(x) for x in op)


# ------------------------------------------------------------------------------------------------ Python driver
class PyDb:
    def __init__(self, gen):
        import zserio
        if gen not in sys.path:
            sys.path.insert(0, gen)
        import apsw
        self.z, self.apsw = zserio, apsw
        self.api = importlib.import_module("fsql.api")

    def value(self, col, v):
        if isinstance(v, int):
            if col.cls == "bool":
                return bool(v)
            if col.cls in ("E", "Eu", "Eb"):
                return getattr(self.api, col.cls)(v)
            if col.cls in ("M", "Mu"):
                return getattr(self.api, col.cls).from_value(v)
            return v
        if isinstance(v, tuple):
            return getattr(self.api, col.cls).from_reader(self.z.BitStreamReader(bytes.fromhex(v[1])), *[bool(a) if p == "bool" else a for a, p in zip(v[2], col.params)])
        return v

    def token(self, col, v):
        if v is None:
            return "n"
        if hasattr(v, "write"):
            if col.kind == "blob":
                w = self.z.BitStreamWriter()
                v.write(w)
                return "b" + w.byte_array.hex()
            return "i%d" % v.value
        if hasattr(v, "value"):
            return "i%d" % v.value
        if isinstance(v, (bool, int)) and col.kind == "int":
            return "?" + repr(v) if col.cls in ("E", "Eu", "Eb", "M", "Mu") else "i%d" % v
        if isinstance(v, float) and col.kind == "real":
            return "f%016x" % fl(v)
        if isinstance(v, str) and col.kind == "text":
            return "s" + v.encode("utf8").hex()
        return "?" + repr(v)

    def open(self):
        self.obj = getattr(self.api, self.db).from_file(self.file, self.rel) if self.rel else getattr(self.api, self.db).from_file(self.file)
        self.obj.connection.cursor().execute("PRAGMA synchronous=OFF")

    def raw(self, s):
        self.obj.connection.cursor().execute(s)

    def op(self, op):
        k = op[0]
        if k == "p":
            self.cnt, self.flag = op[1:]
        elif k == "c":
            if len(op) > 1:
                self.obj.create_schema(list(op[1]))
            else:
                self.obj.create_schema()
        elif k == "d":
            self.obj.delete_schema()
        elif k == "q":
            self.raw(op[1])
        elif k == "t":
            self.raw("BEGIN")
        elif k == "k":
            self.raw("COMMIT")
        elif k == "b":
            self.raw("ROLLBACK")
        elif k == "o":
            self.obj.close()
            self.open()
        else:
            t = T[dict(DBS[self.db])[op[1]]]
            o = getattr(self.obj, snake(op[1]))
            if k == "ct":
                o.create_table()
            elif k == "co":
                o.create_ordinary_rowid_table()
            elif k == "dt":
                o.delete_table()
            elif k == "w":
                rows = [tuple(self.value(x, v) for x, v in zip(t.cols, r)) for r in op[3]]
                o.write(rows) if op[2] is None else o.write(rows, list(op[2]))
            elif k == "u":
                r = tuple(self.value(x, v) for x, v in zip(t.cols, op[3]))
                o.update(r, op[4][0]) if op[2] is None else o.update_columns(r, list(op[2]), op[4][0])
            elif k == "r":
                prov = []
                if t.provider:
                    me = self

                    class P(getattr(self.api, t.cls).IParameterProvider):
                        def cnt(self, row):
                            return me.cnt

                        def flag(self, row):
                            return bool(me.flag)
                    prov = [P()]
                cond = op[3][0] if op[3] else None
                rows = o.read(*prov, condition=cond) if op[2] is None else o.read_columns(*prov, list(op[2]), cond)
                return "[" + ";".join(",".join(self.token(x, v) for x, v in zip(t.cols, r)) if len(r) == len(t.cols) else "?%d cells" % len(r) for r in rows) + "]"
        return "ok"

    def run(self, db, files, ops):
        self.db, self.file, self.rel, self.cnt, self.flag = db, files[0], dict(f.split("=") for f in files[1:]), 3, 1
        self.open()
        out = []
        for op in ops:
            try:
                r = self.op(op)
            except (self.apsw.Error, self.z.PythonRuntimeException, ValueError) as e:
                r = "x%s %s" % (type(e).__name__, e)
            except Exception as e:
                r = "X%s %s" % (type(e).__name__, e)
            out.append(r)
        self.obj.close()
        return out


# ------------------------------------------------------------------------------------------------ C++ handlers
def cap(s):
    return s[0].upper() + s[1:]


def cpp_source():
    o = ['#include "sql.h"'] + ['#include "fsql/%s.h"' % d for d in DBS] + ["namespace zvf", "{"]
    for t in T.values():
        row = "fsql::%s::Row" % t.cls
        o.append("static %s row_%s(const std::string& text)\n{\n    const Strings c = split(text, ',');\n    %s r;" % (row, t.cls, row))
        for i, x in enumerate(t.cols):
            o.append('    if (c[%d] != "n")' % i)
            if x.kind == "blob":
                ps = "".join(", static_cast<%s>(std::stoi(b.p[%d]))" % (p, j + 1) for j, p in enumerate(x.params))
                o.append("    {\n        Blob b(c[%d]);\n        r.set%s(fsql::%s(b.r%s));\n    }" % (i, cap(x.name), x.cls, ps))
            else:
                o.append("        r.set%s(As<std::decay<decltype(r.get%s())>::type>::get(c[%d]));" % (cap(x.name), cap(x.name), i))
        o.append("    return r;\n}\nstatic std::string text_%s(%s& r)\n{\n    std::string s;" % (t.cls, row))
        for i, x in enumerate(t.cols):
            o.append('    s += %sstd::string(r.is%sSet() ? %s(r.get%s()) : "n");' % ('"," + ' if i else "", cap(x.name), "blobToken" if x.kind == "blob" else "token", cap(x.name)))
        o.append("    return s;\n}")
        prov, parg = "", ""
        if t.provider:
            o.append("struct Prov%s : fsql::%s::IParameterProvider\n{\n    explicit Prov%s(const Provider& x) : p(x) {}\n    const Provider& p;\n    uint8_t getCnt(%s&) override { return static_cast<uint8_t>(p.cnt); }\n    bool getFlag(%s&) override { return p.flag != 0; }\n};" % (t.cls, t.cls, t.cls, row, row))
            prov, parg = "    Prov%s prov(p);\n" % t.cls, "prov, "
        o.append("""static std::string on_%(c)s(fsql::%(c)s& t, const std::string& op, const Strings& a, const Provider& p)
{
    (void)p;
%(prov)s    if (op == "ct")
        t.createTable();
%(co)s    else if (op == "dt")
        t.deleteTable();
    else if (op == "w")
    {
        std::vector<fsql::%(c)s::Row> rows;
        if (!a[3].empty())
            for (const std::string& r : split(a[3], ';'))
                rows.push_back(row_%(c)s(r));
        const Strings cs = cols(a[2]);
        if (a[2] == "*")
            t.write(%(parg)srows);
        else
            t.write(%(parg)srows, cs);
    }
    else if (op == "u")
    {
        auto r = row_%(c)s(a[3]);
        const Strings cs = cols(a[2]);
        if (a[2] == "*")
            t.update(%(parg)sr, a[4]);
        else
            t.update(%(parg)sr, cs, a[4]);
    }
    else if (op == "r")
    {
        const Strings cs = cols(a[2]);
        auto reader = a[2] == "*" ? t.createReader(%(parg)sa[3]) : t.createReader(%(parg)scs, a[3]);
        std::string s = "[";
        while (reader.hasNext())
        {
            auto r = reader.next();
            auto copy = r;
            const std::string x = text_%(c)s(r);
            if (text_%(c)s(copy) != x)
                throw std::runtime_error("copy of a row differs");
            auto moved = std::move(copy);
            if (text_%(c)s(moved) != x)
                throw std::runtime_error("moved row differs");
            s += (s.size() > 1 ? ";" : "") + x;
        }
        return s + "]";
    }
    else
        throw std::runtime_error("no operation " + op);
    return "ok";
}""" % {"c": t.cls, "prov": prov, "parg": parg, "co": '    else if (op == "co")\n        t.createOrdinaryRowIdTable();\n' if not t.rowid else ""})
    for d, tabs in DBS.items():
        provs = [(n, t) for n, t in tabs if T[t].provider]
        o.append("struct Db%s : Database\n{\n    Db%s(const std::string& f, const Relocation& r) : d(f, r) {}\n    fsql::%s d;\n    zserio::ISqliteDatabase& db() override { return d; }\n    void createSchema(const std::set<std::string>& s) override { d.createSchema(s); }" % (d, d, d))
        if provs:
            o.append("    struct P : fsql::%s::IParameterProvider\n    {\n        explicit P(const Provider& p) : %s {}\n%s\n%s\n    };" % (d, ", ".join("%s(p)" % n for n, _ in provs), "\n".join("        Prov%s %s;" % (t, n) for n, t in provs),
                     "\n".join("        fsql::%s::IParameterProvider& get%sParameterProvider() override { return %s; }" % (t, cap(n), n) for n, t in provs)))
        o.append("    void validate(Observer& ob) override\n    {\n%s    }" % ("        P p(prov);\n        d.validate(ob, p);\n" if provs else "        d.validate(ob);\n"))
        o.append("    std::string table(const std::string& op, const std::string& n, const Strings& a) override\n    {\n%s\n        throw std::runtime_error(\"no table\");\n    }\n};" % "\n".join('        if (n == "%s")\n            return on_%s(d.get%s(), op, a, prov);' % (n, t, cap(n)) for n, t in tabs))
    o.append("std::unique_ptr<Database> open(const std::string& cls, const std::string& file, const Relocation& r)\n{\n%s\n    throw std::runtime_error(cls);\n}\n}" % "\n".join('    if (cls == "fsql.%s")\n        return std::unique_ptr<Database>(new Db%s(file, r));' % (d, d) for d in DBS))
    o.append("int main(int, char** argv)\n{\n    return zvf::runAll(argv[1], argv[2]);\n}\n")
    return "\n".join(o)


# ------------------------------------------------------------------------------------------------ builds
JDBC = "/opt/veriftools/tlapm/lib/tlapm/backends/Isabelle/contrib/sqlite-3.48.0.0/lib/sqlite-jdbc-3.48.0.0.jar"


def build(cp, rt, langs=("python", "java", "cpp")):
    """-> {"python": dir, "java": class path, "cpp": program}"""
    d = zbuild.scratch()
    src = HERE + "/schemas"
    out = {}

    def py():
        zbuild.generate(cp, src, "fsql.zs", "-python", d + "/sqlpy")
        out["python"] = d + "/sqlpy"

    def java():
        if not os.path.exists(JDBC):
            return
        zbuild.generate(cp, src, "fsql.zs", "-java", d + "/sqlj", "-withValidationCode")
        zbuild.javac(d + "/sqlcls", zbuild.find(d + "/sqlj", ".java") + zbuild.find(HERE + "/java_sql", ".java"), rt)
        out["java"] = ":".join([d + "/sqlcls", rt, JDBC])

    def cpp():
        if not os.path.exists("/usr/include/sqlite3.h"):
            return
        gen = d + "/sqlcpp"
        zbuild.generate(cp, src, "fsql.zs", "-cpp", gen, "-withValidationCode")
        with open(gen + "/main.cpp", "w") as f:
            f.write(cpp_source())
        srcs = zbuild.find(gen, ".cpp") + zbuild.find(zbuild.CPP_RT, ".cpp")
        objs = []

        def one(i, s):
            zbuild.run(["clang++", "-std=c++11", "-w", "-O0", "-I" + gen, "-I" + HERE + "/cpp_sql", "-I" + zbuild.CPP_RT, "-c", s, "-o", "%s/%d.o" % (gen, i)], "C++ compiler")
        objs = ["%s/%d.o" % (gen, i) for i in range(len(srcs))]
        zbuild.parallel(*[lambda i=i, s=s: one(i, s) for i, s in enumerate(srcs)])
        zbuild.run(["clang++", "-o", gen + "/prog"] + objs + ["-lsqlite3"], "C++ linker")
        out["cpp"] = gen + "/prog"
    zbuild.parallel(*[f for l, f in (("python", py), ("java", java), ("cpp", cpp)) if l in langs])
    return out


# ------------------------------------------------------------------------------------------------ histories
def where(text, fn):
    return (text, fn)


def by(col, v):
    lit = "'%s'" % v if isinstance(v, str) else str(v)
    return (("%s = %s" % (col, lit), lambda r: r[col] == v), ("%s <> %s" % (col, lit), lambda r: r[col] is not None and r[col] != v))


def base(t):
    """A row of ordinary values."""
    out = []
    for x in t.cols:
        if x.cls == "Par":
            out.append(par(1) if x.name == "pa" else par(3))
        elif x.cls == "Ch":
            out.append(CHS[1][0])
        elif x.name == "k":
            out.append(1)
        else:
            out.append(x.vals[0])
    return out


def with_key(t, r, i):
    r = list(r)
    if t.key:
        j = t.names.index(t.key[0])
        r[j] = i % 10 if t.cls == "Chk" else i
    if t.cls == "Comp":
        r[2] = i if i else None
    return r


def value_rows(t, n0=1):
    """One row for every value of every column, all other columns as in base."""
    rows = []
    keys = set(t.key)
    for i, x in enumerate(t.cols):
        if x.name in keys and t.cls != "Chk":
            continue
        if x.cls == "Par" or x.cls == "Ch" or x.name == "k":
            continue
        for v in x.vals + ([] if x.notnull else [None]):
            r = base(t)
            r[i] = v
            rows.append(r)
    return rows


def hist_values(tier):
    """Every value of every column: written, read, kept over closing, used for an update."""
    out = []
    for n, tn in DBS["Db"]:
        t = T[tn]
        rows = value_rows(t)
        if t.cls == "Blobs":
            for k in (0, 1, 2, 7, 8, 255):
                for cnt in (0, 1, 5, 7, 255):
                    for flag in (0, 1):
                        ch = CHS[flag][0]
                        rr = []
                        for i, (pa, pe, cx) in enumerate(itertools.product((par(k), None), (par(cnt, 3), None), (ch, None))):
                            r = base(t)
                            r[:2], r[4:7] = [i, k], [pa, pe, cx]
                            rr.append(r)
                        up = [base(t)[0:1][0]] + rr[0][1:]
                        up[0] = 77
                        h = [("p", cnt, flag), ("ct", n), ("w", n, None, rr), ("r", n, None, None), ("o",), ("p", cnt, flag), ("r", n, None, None), ("u", n, None, up, by("id", 3)[0]), ("r", n, None, by("id", 77)[0]), ("r", n, ["k", "pa"], None), ("r", n, ["ch", "un", "after"], None)]
                        out.append(("Db", h))
        rows = [with_key(t, r, i) for i, r in enumerate(rows)] if t.cls not in ("Chk", "Comp") else rows
        if t.cls == "Ints":
            rows += [[v] + base(t)[1:] for v in t.cols[0].vals if v not in range(len(rows))]
        if t.cls in ("Chk", "Comp"):
            for r in rows:
                out.append(("Db", [("c",), ("p", 3, 1), ("w", n, None, [r]), ("r", n, None, None), ("o",), ("r", n, None, None), ("u", n, None, with_key(t, base(t), 5), by("a", r[0])[0]), ("r", n, None, None), ("d",)]))
            continue
        h = [("p", 3, 1), ("ct", n), ("w", n, None, rows), ("r", n, None, None), ("o",), ("p", 3, 1), ("r", n, None, None)]
        if t.key:
            k = t.key[0]
            for i in range(len(rows)):
                j = (i * 7 + 3) % len(rows)
                new = list(rows[j])
                new[0] = rows[i][0]
                h.append(("u", n, None, new, by(k, rows[i][0])[0]))
            h += [("r", n, None, None), ("r", n, None, by(k, rows[2][0])[0]), ("r", n, None, by(k, rows[2][0])[1])]
        h += [("dt", n), ("r", n, None, None), ("w", n, None, rows[:1]), ("ct", n), ("r", n, None, None), ("w", n, None, []), ("r", n, None, None)]
        out.append(("Db", h))
    return out


def subsets(t, full):
    for m in range(1, 1 << len(t.cols)):
        s = [x for i, x in enumerate(t.names) if m >> i & 1]
        if "pa" in s and "k" not in s:
            continue
        if not full and len(s) not in (1, 2, len(t.names) - 1, len(t.names)):
            continue
        yield s


def hist_columns(tier):
    """Every set of columns: read, written, used for an update; in both orders; unknown columns are refused."""
    out = []
    for n, tn in (("mixA", "Mix"), ("plain", "Plain"), ("comp", "Comp"), ("chk", "Chk"), ("blobs", "Blobs"), ("tmStr", "Tm_string")):
        t = T[tn]
        for s in subsets(t, tier == "thorough" or tn != "Blobs"):
            r0, r1, r2, r3 = [with_key(t, base(t), i) for i in (1, 2, 3, 4)]
            for i, x in enumerate(t.cols):
                if x.name not in t.key and x.cls not in ("Par", "Ch") and x.name not in ("k", "c"):
                    r1[i], r2[i], r3[i] = x.vals[1 % len(x.vals)], x.vals[-1], None if not x.notnull else x.vals[0]
            rev = s[::-1]
            h = [("p", 3, 1), ("ct", n), ("w", n, None, [r0, r1]), ("r", n, s, None), ("r", n, rev, None), ("w", n, s, [r2, r3] if tn != "Comp" else [r2]), ("r", n, None, None), ("r", n, s, None)]
            key = t.key[0] if t.key else t.names[0]
            up = with_key(t, r2, 6)
            cond = by(key, r1[t.names.index(key)])[0]
            h += [("u", n, rev, up, cond), ("r", n, None, None), ("u", n, s, with_key(t, r0, 7), ("0 = 1", lambda r: False)), ("r", n, None, None)]
            h += [("r", n, s + ["nope"], None), ("w", n, ["nope"] + s, [r2]), ("u", n, s + [s[0].upper() + "X"], up, cond), ("r", n, rev, cond), ("r", n, None, None)]
            out.append(("Db", h))
    return out


def alphabet():
    b1, b2, b3 = BLOBS
    return [("c",), ("d",), ("c", ("comp",)), ("ct", "comp"), ("co", "comp"), ("dt", "comp"), ("dt", "mixB"),
            ("w", "mixA", None, [["a", b1, 0, 5], ["b", b2, None, 6]]), ("w", "mixB", ["name", "num"], [["x", b3, -128, 1], [None, None, None, None]]),
            ("w", "comp", None, [[1, "x", 3], [2, "x", 4]]), ("w", "comp", None, [[3, "x", 5], [4, "x", 6], [3, "x", 7]]),
            ("w", "chk", None, [[1, 2, b1]]), ("w", "chk", None, [[2, None, b2], [10, 1, b1]]), ("w", "chk", ["a", "bl"], [[3, 0, b3], [4, 0, None]]),
            ("u", "comp", ["c"], [0, "", 9], where("a > 0", lambda r: r["a"] > 0)), ("u", "mixA", None, ["z", b3, 127, None], where("num = 6", lambda r: r["num"] == 6)),
            ("t",), ("k",), ("b",), ("o",)]


def hist_ops(tier):
    """All sequences of operations."""
    A = alphabet()
    depth = 4 if tier == "thorough" else 3
    out = []

    def rec(h, m, left):
        if h:
            out.append(("Sdb", h + finish(m)))
        if not left:
            return
        for op in A:
            if op[0] == "t" and m.saved is not None or op[0] in "kb" and m.saved is None:
                continue
            if m.broken and op[0] not in ("b", "o"):
                continue
            m2 = Model("Sdb")
            for o in h + [op]:
                m2.run(o)
            rec(h + [op], m2, left - 1)

    def finish(m):
        return [] if m.broken else [("r", n, None, None) for n in m.tabs if m.tabs[n] is not None]
    # starting with no tables, with an empty schema, and with filled tables
    rec([], Model("Sdb"), depth - (tier != "thorough"))
    for pre in ([("c",)], [("c",), ("w", "mixA", None, [["q", BLOBS[0], 0, 6]]), ("w", "comp", None, [[1, "y", 1], [7, "z", None]]), ("w", "chk", None, [[2, 1, BLOBS[1]]])]):
        m = Model("Sdb")
        for o in pre:
            m.run(o)
        rec(pre, m, depth - (tier != "thorough" and len(pre) == 1))
    return out


def hist_files(tier):
    """Every distribution of the tables over three files."""
    out = []
    A = alphabet()
    names = [n for n, _ in DBS["Sdb"]]
    for a in itertools.product("-AB", repeat=4):
        rel = {n: f for n, f in zip(names, a) if f != "-"}
        h = [A[0], A[7], A[8], A[9], A[11]] + [("r", n, None, None) for n in names] + [("o",)] + [("r", n, None, None) for n in names]
        out.append(("Sdb", h + [A[10], A[13], A[14], A[15]] + [("r", n, None, None) for n in names], rel))
        out.append(("Sdb", [A[2], ("t",), A[7], A[9], ("b",), ("r", "comp", None, None), A[11], A[5], A[0], A[4], ("o",), ("r", "chk", None, None), ("r", "mixA", None, None), ("d",)], rel))
    return out


def hist_virtual(tier):
    out = []
    rows = [["one two", "three"], ["two", "four five"], ["", None]]
    out.append(("VDb", [("c",), ("w", "fts", None, rows), ("r", "fts", None, None), ("r", "fts", ["u"], None), ("r", "fts", None, ("fts MATCH 'two'", lambda r: "two" in (r["t"] or ""))), ("o",), ("r", "fts", None, ("fts MATCH 'five'", lambda r: "five" in (r["u"] or ""))),
                       ("u", "fts", ["t"], ["six", None], ("rowid = 2", lambda r: r["t"] == "two")), ("r", "fts", None, None), ("w", "vm", ["t"], [["one two", 0.0], ["seven", 0.0]]), ("r", "vm", ["t"], None), ("r", "vm", ["t"], ("vm MATCH 'seven'", lambda r: r["t"] == "seven"))]))
    out.append(("VDb", [("c",), ("d",), ("c",), ("dt", "vm"), ("ct", "vm"), ("w", "vm", ["t"], [["x", 0.0]]), ("r", "vm", ["t"], None), ("c",), ("r", "vm", ["t"], None)]))
    return out


PARTS = {"values": hist_values, "columns": hist_columns, "operations": hist_ops, "files": hist_files, "virtual": hist_virtual}


# ------------------------------------------------------------------------------------------------ replay
TABLE_SQL = {"Comp": "PRIMARY KEY(a, b)", "Bp": "PRIMARY KEY(k, n)"}
SQLT = {"int": "INTEGER", "real": "REAL", "text": "TEXT", "blob": "BLOB"}


def rawvalue(v):
    """What has to be stored."""
    if isinstance(v, tuple):
        return ("blob", v[1])
    if isinstance(v, bool) or isinstance(v, int):
        return ("integer", v - (1 << 64) if v >= 1 << 63 else v)
    if isinstance(v, float):
        return ("real", v)
    return ("null", None) if v is None else ("text", v)


def judge_file(m, path, names):
    """Differences between a database file and the model's tables in it (read without the code under test)."""
    c = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    try:
        have = {r[0] for r in c.execute("select name from sqlite_master where type = 'table'") if not r[0].startswith("sqlite_")}
        if m.db == "VDb":
            have = {x for x in have if "_" not in x}
        want = {n for n in names if m.tabs[n] is not None}
        if have != want:
            return "tables %s in the file, expected %s" % (sorted(have), sorted(want))
        for n in sorted(want) if m.db != "VDb" else []:
            t = m.table(n)
            info = [(r[1], r[2], bool(r[3]), bool(r[5])) for r in c.execute("pragma table_info(%s)" % n)]
            exp = [(x.name, SQLT[x.kind], x.notnull, x.name in t.key) for x in t.cols]
            if info != exp:
                return "columns of %s: %s, expected %s" % (n, info, exp)
            try:
                c.execute("select rowid from %s limit 1" % n).fetchall()
                rowid = True
            except sqlite3.Error:
                rowid = False
            if rowid != (t.rowid or n in m.ordinary):
                return "table %s has %s rowid" % (n, "a" if rowid else "no")
            got = [tuple((r[2 * i + 1], r[2 * i].hex() if r[2 * i + 1] == "blob" else r[2 * i]) for i in range(len(t.cols))) for r in c.execute("select %s from %s" % (", ".join("%s, typeof(%s)" % (x, x) for x in t.names), n))]
            exp = [tuple(rawvalue(v) for v in r) for r in m.tabs[n]]
            if sorted(map(repr, got)) != sorted(map(repr, exp)):
                return "stored rows of %s differ: only in the file %s, only expected %s" % (n, [x for x in got if x not in exp][:2], [x for x in exp if x not in got][:2])
    finally:
        c.close()


def expected(db, ops):
    m = Model(db)
    return m, [m.run(op) for op in ops]


def diff(op, want, got, t):
    """None if the answer is the expected one."""
    if want is None:
        return None
    if got.startswith("X"):
        return "undocumented failure %s" % got[1:]
    if want == "x":
        return None if got.startswith("x") else "accepted, although it has to be refused"
    if isinstance(want, list):
        if not got.startswith("["):
            return "refused: %s" % got[1:]
        g = sorted(got[1:-1].split(";")) if got != "[]" else []
        w = sorted(",".join(shown(v) for v in r) for r in want)
        if g != w:
            return "read %s, expected %s" % ([x for x in g if x not in w][:2] or "%d rows" % len(g), [x for x in w if x not in g][:2] or "%d rows" % len(w))
        return None
    return None if got == "ok" else "refused: %s" % got[1:]


def explore(task):
    from . import xlang
    lang, part, tier, lo, hi, prog = task
    res = Res()
    hs = PARTS[part](tier)[lo:hi]
    import shutil, tempfile
    d = tempfile.mkdtemp(prefix="zvfsql", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else zbuild.scratch())
    py = PyDb(prog) if lang == "python" else None
    try:
        for at in range(0, len(hs), 400):
            chunk = hs[at:at + 400]
            lines, paths = [], []
            for i, h in enumerate(chunk):
                rel = h[2] if len(h) > 2 else {}
                f = {x: "%s/%d%s.db" % (d, i, x) for x in "-AB"}
                paths.append((f, rel))
                files = [f["-"]] + ["%s=%s" % (n, f[x]) for n, x in rel.items()]
                lines.append((h, files))
            if py:
                outs = [py.run(h[0], files, h[1]) for h, files in lines]
            else:
                text = ["%d\t%s\t%s\t%s" % (i, ("fsql." + h[0]), "+".join(files), "\t".join(op_text(o) for o in h[1])) for i, (h, files) in enumerate(lines)]
                tag = "sql%s%s%d" % (lang, part, lo + at)
                outs = [o.split("\t")[1:] for o in (xlang.run_java(prog, text, main="Sql", name=tag) if lang == "java" else xlang.run_prog(prog, text, name=tag))]
            for i, (h, _) in enumerate(lines):
                m, want = expected(h[0], h[1])
                res.traces += 1
                res.transitions += len(h[1])
                name = "+".join("".join(str(x) for x in op[:2]) for op in h[1])[:70]
                if i >= len(outs) or len(outs[i]) < len(want):
                    res.bad("%s:%s:no answer" % (lang, part), "%s: no answer" % [op_text(o)[:200] for o in h[1]])
                    break
                bad = None
                for j, (op, w, g) in enumerate(zip(h[1], want, outs[i])):
                    bad = diff(op, w, g, None)
                    if bad:
                        t = dict(DBS[h[0]]).get(op[1]) if len(op) > 1 and op[0] in ("w", "u", "r") else None
                        cols = "" if len(op) < 3 or op[2] is None or op[0] not in "wur" else "".join(op[2])[:20]
                        res.bad("%s:%s:%s%s%s" % (lang, part, op[0], ":" + t if t else "", ":" + cols if cols else ""), "%s: operation %d, %s: %s\nhistory: %s" % (lang, j + 1, op_text(op)[:300], bad, "\n".join(op_text(o)[:400] for o in h[1])))
                        break
                res.states += len(want)
                if not bad and len(outs[i]) > len(want):
                    res.bad("%s:%s:close" % (lang, part), "%s\n%s" % (outs[i][-1], [op_text(o)[:200] for o in h[1]]))
                if not bad:
                    if m.saved is not None:       # closing rolled the transaction back
                        m.run(("b",))
                    f, rel = paths[i]
                    for x in "-AB":
                        if x == "-" or x in rel.values():
                            bad = judge_file(m, f[x], [n for n in m.tabs if rel.get(n, "-") == x])
                            if bad:
                                res.bad("%s:%s:file:%s" % (lang, part, name), "%s: %s\nhistory: %s" % (lang, bad, "\n".join(op_text(o)[:400] for o in h[1])))
                                break
                for x in paths[i][0].values():
                    if os.path.exists(x):
                        os.unlink(x)
                if i == 7:
                    res.sample({"history": [op_text(o)[:120] for o in h[1]], "answers": [o[:80] for o in outs[i]]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res.out()
