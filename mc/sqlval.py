"""Validation of databases: every deviation of a database from its schema, made behind the back of the generated code, is reported, and nothing else is.

A case is a list of operations that fill a database, raw SQL statements that damage it, and what validating it has to report.
Model of a damaged table: rows of stored values (storage class, value)."""
import itertools, os, re, shutil, tempfile
from . import zbuild, xlang
from .pool import Res
from .ref import *
from .sql import T, DBS, BLOB, EMPTY, PAR, CH, UN, BLOBS, SQLT, TABLE_SQL, base, with_key, rawvalue, op_text, par, CHS, UNS, value_rows

BTYPES = {"Blob": BLOB, "Empty": EMPTY, "Par": PAR, "Ch": CH, "Un": UN}
CLASS = {"int": "integer", "real": "real", "text": "text", "blob": "blob"}
CNT, FLAG = 3, 1


def literal(r):
    k, v = r
    return "NULL" if k == "null" else "x'%s'" % v if k == "blob" else "'%s'" % v.replace("'", "''") if k == "text" else repr(v) if k == "real" else str(v)


def stored(col, r):
    """What SQLite stores of a value in a column with this type (type affinity)."""
    k, v = r
    if k == "integer" and col.kind == "real":
        return ("real", float(v))
    if k in ("integer", "real") and col.kind == "text":
        return ("text", str(v))
    return r


def value_error(t, col, row):
    """Error of a value with the right storage class: its kind or None."""
    k, v = row[t.names.index(col.name)]
    if k == "null":
        return None
    if col.kind == "int":
        if col.cls == "bool":
            return None
        lo, hi = col.lo, col.hi
        if hi < (1 << 63) and not lo <= v <= hi:
            return "VALUE_OUT_OF_RANGE"
        if col.cls in ("E", "Eu", "Eb"):
            u = v + (1 << 64) if v < 0 <= lo else v
            if u not in col.vals:
                return "ENUM"
        return None
    if col.kind == "blob":
        bt = BTYPES[col.cls]
        args = ()
        if col.cls == "Par":
            args = (row[t.names.index("k")][1] if col.name == "pa" else CNT,)
        elif col.cls == "Ch":
            args = (bool(FLAG),)
        data = bytes.fromhex(v)
        try:
            val, pos = decode(bt, data, None, args)
            again = encode(bt, val, args)[1]
        except Exception:
            return "BLOB_PARSE_FAILED"
        if again.n != pos:
            return "BLOB_COMPARE_FAILED"
        return "TRAILING" if len(data) * 8 - pos >= 8 else None
    return None


def row_error(t, row):
    for c, (k, v) in zip(t.cols, row):
        if k not in ("null", CLASS[c.kind]):
            return c.name, "INVALID_COLUMN_TYPE"
    for c in t.cols:
        e = value_error(t, c, row)
        if e:
            return c.name, e
    return None


def keys(t, row, i, lang):
    def show(c, r):
        if c.kind == "blob":
            return "BLOB"
        if r[0] not in ("null", CLASS[c.kind]):
            return "*"                                           # a key of the wrong type: how it is shown is open
        return "NULL" if r[0] == "null" else "*" if r[0] == "real" else str(r[1])
    if t.key:
        return [show(c, r) for c, r in zip(t.cols, row) if c.name in t.key]
    return [str(i + 1)] if lang == "cpp" else [show(c, r) for c, r in zip(t.cols, row)]


def create(name, t, cols=None, swap=None):
    """CREATE TABLE with changed columns: [(name, type, not null, primary key)]."""
    key = [c[0] for c in cols if c[3]]
    body = ["%s %s%s" % (c[0], c[1], " NOT NULL" if c[2] else "") for c in cols]
    return "CREATE TABLE %s(%s%s)%s" % (name, ", ".join(body), ", PRIMARY KEY(%s)" % ", ".join(key) if key else "", " WITHOUT ROWID" if not t.rowid and key else "")


def schema_cases(n, t):
    """(statements, [(column, error)]) for every deviation of a table's columns."""
    std = [(c.name, SQLT[c.kind], c.notnull, c.name in t.key) for c in t.cols]
    out = [([create(n, t, std)], []), ([create(n, t, std[::-1])], [])]
    for i, c in enumerate(std):
        drop = std[:i] + std[i + 1:]
        out.append(([create(n, t, drop)], [(c[0], "COLUMN_MISSING")]))
        out.append(([create(n, t, drop + [(c[0] + "_", c[1], c[2], False)])], [(c[0], "COLUMN_MISSING"), (c[0] + "_", "COLUMN_SUPERFLUOUS")]))
        for ty in ("INTEGER", "REAL", "TEXT", "BLOB", "VARCHAR", ""):
            if ty != c[1]:
                out.append(([create(n, t, std[:i] + [(c[0], ty, c[2], c[3])] + std[i + 1:])], [(c[0], "INVALID_COLUMN_TYPE")]))
        if t.rowid or not c[3]:
            out.append(([create(n, t, std[:i] + [(c[0], c[1], not c[2], c[3])] + std[i + 1:])], [(c[0], "INVALID_COLUMN_CONSTRAINT")]))
        out.append(([create(n, t, std[:i] + [(c[0], c[1], c[2], not c[3])] + std[i + 1:])], [(c[0], "INVALID_COLUMN_CONSTRAINT")]))
    out.append(([create(n, t, std + [("extra", "TEXT", False, False)])], [("extra", "COLUMN_SUPERFLUOUS")]))
    out.append(([create(n, t, [("extra", "INTEGER", False, False)] + std + [("other", "BLOB", True, False)])], [("extra", "COLUMN_SUPERFLUOUS"), ("other", "COLUMN_SUPERFLUOUS")]))
    out.append(([create(n, t, std), "ALTER TABLE %s ADD COLUMN late REAL" % n], [("late", "COLUMN_SUPERFLUOUS")]))
    for (i, a), (j, b) in itertools.combinations(list(enumerate(std)), 2):
        c2 = list(std)
        c2[i], c2[j] = (a[0], "NUMERIC", a[2], a[3]), (b[0], "NUMERIC", b[2], b[3])
        out.append(([create(n, t, c2)], [(a[0], "INVALID_COLUMN_TYPE"), (b[0], "INVALID_COLUMN_TYPE")]))
    return out


def damages(t, row):
    """(column index, stored value) for every deviation of one row's values, and for values that are no deviation."""
    for i, c in enumerate(t.cols):
        alias = t.key == (c.name,) and c.kind == "int"
        cand = []
        if not alias:
            cand = [("text", "abc"), ("real", 1.5), ("blob", "00"), ("blob", ""), ("integer", 7), ("text", "")]
        if c.kind == "int":
            big = [-1 << 63, (1 << 63) - 1, -1, 0, 1, 2, 5, 6, 15, 16, 31, 32, 127, 128, 129, 255, 256, -128, -129, 1 << 32, -1 << 31, (-1 << 31) - 1]
            cand += [("integer", v) for v in sorted(set(big + [c.lo - 1, c.lo, c.hi, c.hi + 1])) if -1 << 63 <= v < 1 << 63]
        if c.kind == "blob" and c.cls in BTYPES:
            b = bytes.fromhex(row[i][1])
            cand += [("blob", b[:k].hex()) for k in range(len(b))] + [("blob", (b + x).hex()) for x in (b"\x00", b"\xff\xff")]
            cand += [("blob", (b[:k >> 3] + bytes([b[k >> 3] ^ 128 >> (k & 7)]) + b[(k >> 3) + 1:]).hex()) for k in range(min(8 * len(b), 64))]
            cand += [("blob", x) for x in ("ff80800078", "0080" , "05ffffffff7800", "0100" + "00" * 3, "20" * 20)]
        if c.name == "k":
            cand = [x for x in cand if x[0] != "integer"]        # the argument of another column
        for r in cand:
            r = stored(c, r)
            if r[0] == "blob" and c.kind == "blob" and not ascii_strings(r[1]):
                continue
            yield i, r


def ascii_strings(h):
    return all(b < 128 or i in (0, 1) for i, b in enumerate(bytes.fromhex(h))) or all(b >= 128 for b in bytes.fromhex(h)[2:]) and len(h) <= 6


def utf8_safe(t, row):
    """Languages keep strings differently where they are not UTF-8: excluded."""
    for c, (k, v) in zip(t.cols, row):
        if c.kind == "blob" and k == "blob" and c.cls in ("Blob", "Un", "Ch"):
            b = bytes.fromhex(v)
            if c.cls == "Blob" and len(b) > 2:
                n = b[1] if b[1] < 128 else 0
                body = b[2:2 + n]
            else:
                body = b[2:]
            try:
                body.decode("utf8")
            except UnicodeDecodeError:
                return False
    return True


TABS = [("Db", n, tn) for n, tn in DBS["Db"] if n != "mixB"] + [("Ndb", "np", "Np"), ("Ndb", "bp", "Bp")]


def rows_of(t):
    """Three rows to be damaged."""
    rs = [with_key(t, base(t), i) for i in (1, 2, 3)]
    for i, x in enumerate(t.cols):
        if x.name not in t.key and x.cls not in ("Par", "Ch") and x.name not in ("k", "c") and len(x.vals) > 1 and x.kind == "blob":
            rs[1][i] = x.vals[1]
    if t.cls == "Np":
        rs = [["p", 1], [None, 2], ["q", 3]]
    if t.cls == "Bp":
        rs = [[BLOBS[0], 1, 0.5], [BLOBS[1], 2, 2.0], [BLOBS[0], None, 0.5]]
    if t.cls == "Ints":
        rs[1][0] = -5
    return rs


def locate(t, i, rows):
    if t.cls == "Comp":
        return "a = %d AND b = '%s'" % (rows[i][0][1], rows[i][1][1])
    if t.key and t.cols[0].kind == "int":
        return "%s = %d" % (t.cols[0].name, rows[i][0][1])
    return "rowid = %d" % (i + 1)


class Case:
    def __init__(self, db, n, ops, rows, schema, stop=0):
        self.db, self.n, self.ops, self.rows, self.schema, self.stop = db, n, ops, rows, schema, stop


def cases(part, tier):
    out = []
    for db, n, tn in TABS:
        t = T[tn]
        rows = rows_of(t)
        fill = [("c",), ("p", CNT, FLAG), ("w", n, None, rows)]
        raw = [[rawvalue(v) for v in r] for r in rows]
        if part == "clean":
            vals = value_rows(t) if t.cls not in ("Comp", "Chk", "Np", "Bp") else rows
            vals = [with_key(t, r, i) for i, r in enumerate(vals)] if t.cls not in ("Comp", "Chk", "Np", "Bp") else vals
            out.append(Case(db, n, [("c",), ("p", CNT, FLAG), ("w", n, None, vals)], [[rawvalue(v) for v in r] for r in vals], []))
        if part == "schema":
            if n in ("ints", "others") and tier == "quick":
                sub = [x for i, x in enumerate(schema_cases(n, t)) if i % 3 == 0]
            else:
                sub = schema_cases(n, t)
            for stmts, errs in sub:
                for stop in range(0, len(errs) + 1):
                    out.append(Case(db, n, [("c",), ("p", CNT, FLAG), ("q", "DROP TABLE " + n)] + [("q", s) for s in stmts], [], errs, stop))
        if part == "values":
            for at in range(3):
                for i, r in damages(t, raw[at]):
                    new = [list(x) for x in raw]
                    if r == new[at][i]:
                        continue
                    if t.key and t.names[i] in t.key and r in [x[i] for x in new]:
                        continue
                    if t.cls == "Chk" and t.names[i] == "a" and r[0] == "integer" and not r[1] < 10:
                        continue
                    if t.cols[i].unique and r in [x[i] for x in new]:
                        continue
                    new[at][i] = r
                    if not utf8_safe(t, new[at]):
                        continue
                    out.append(Case(db, n, fill + [("q", "UPDATE %s SET %s = %s WHERE %s" % (n, t.names[i], literal(r), locate(t, at, raw)))], new, []))
        if part == "pairs":
            one = []
            for i, c in enumerate(t.cols):
                if t.key == (c.name,):
                    continue
                cand = [r for j, r in damages(t, raw[0]) if j == i and row_error(t, raw[0][:i] + [r] + raw[0][i + 1:]) and utf8_safe(t, raw[0][:i] + [r] + raw[0][i + 1:])]
                one += [(i, cand[0])] + ([(i, cand[-1])] if cand[-1] != cand[0] else []) if cand else []
            if len(one) > 8 and tier == "quick":
                one = one[:4] + one[-4:]
            for (i, r), (j, q) in itertools.product(one, one):
                for a, b in ((0, 1), (1, 2), (0, 0)):
                    if a == b and i == j:
                        continue
                    new = [list(x) for x in raw]
                    new[a][i], new[b][j] = r, q
                    if t.key and len({tuple(map(str, (x[t.names.index(k)] for k in t.key))) for x in new}) < 3 or any(c.unique and len({str(x[m]) for x in new}) < 3 for m, c in enumerate(t.cols)):
                        continue
                    ops = fill + [("q", "UPDATE %s SET %s = %s WHERE %s" % (n, t.names[i], literal(r), locate(t, a, raw)))]
                    if t.cls == "Comp" and a == b:
                        continue
                    ops += [("q", "UPDATE %s SET %s = %s WHERE %s" % (n, t.names[j], literal(q), locate(t, b, raw)))]
                    for stop in (0, 1, 2):
                        out.append(Case(db, n, ops, new, [], stop))
    return out


PARTS = ("clean", "schema", "values", "pairs")


def expect(case, lang):
    """-> (errors of the damaged table, rows validated)."""
    t = T[dict(DBS[case.db])[case.n]]
    stop = case.stop if lang == "cpp" else 0
    if case.schema:
        errs = [(f, "", e) for f, e in case.schema]
        return errs[:stop] if stop else errs, 0
    errs, seen = [], 0
    order = range(len(case.rows))
    if t.key and (t.cols[0].kind == "int"):
        order = sorted(order, key=lambda i: [x[1] if x[0] != "null" else -1 for x in case.rows[i]][0] if case.rows[i][0][0] == "integer" else 1 << 70)
    for i in order:
        seen += 1
        e = row_error(t, case.rows[i])
        if e:
            errs.append((e[0], "/".join(keys(t, case.rows[i], i, lang)), e[1]))
            if len(errs) == stop:
                break
    return errs, seen


def same_error(got, want, lang):
    g, w = got, want
    if g[0] != w[0] or not re.fullmatch(".*".join(map(re.escape, w[1].split("*"))), g[1], re.S):
        return False
    kind = {"ENUM": "INVALID_VALUE" if lang == "cpp" else "INVALID_ENUM_VALUE"}.get(w[2], w[2])
    return g[2] == kind


def judge(case, lang, answer):
    want, seen = expect(case, lang)
    tabs = [n for n, _ in DBS[case.db]]
    optional = [w for w in want if w[2] == "TRAILING"]
    if lang == "java":
        f = answer.split(";")
        head = f[0].split(",")
        errs = [tuple(x.split(",", 3)) for x in f[1:]]
        errs = [e for i, e in enumerate(errs) if e[2] != "BLOB_COMPARE_FAILED" or e not in errs[:i]]        # one report per differing byte
        if any(e[0] != case.n for e in errs):
            return "error in table %s" % [e[0] for e in errs if e[0] != case.n][0]
        errs = [e[1:] for e in errs]
        want = [(a, b, "BLOB_COMPARE_FAILED" if k == "TRAILING" else k) for a, b, k in want]
        if head != [str(len(tabs)), str(seen)]:
            return "%s tables and rows validated, expected %s" % (head, [len(tabs), seen])
    else:
        f = answer.split(";")
        if f[0] != "B%d" % len(tabs) or f[-1] != "E%d" % len(tabs):
            return "begins with %s and ends with %s" % (f[0], f[-1])
        errs, inside = [], None
        order = []
        for x in f[1:-1]:
            if x[0] == "b" and x[1:].split(",")[0] in tabs and inside is None:
                inside, n = x[1:].split(",")
                order.append(inside)
                if int(n) != (len(case.rows) if inside == case.n else 0):
                    return "table %s begins with %s rows" % (inside, n)
            elif x[0] == "e" and inside and x[1:].split(",")[0] == inside:
                if int(x.split(",")[1]) != (seen if inside == case.n else 0):
                    return "table %s ends with %s validated rows, expected %d" % (inside, x.split(",")[1], seen if inside == case.n else 0)
                inside = None
            else:
                e = x.split(",", 3)
                if e[0] != inside or e[0] != case.n:
                    return "error %s within table %s" % (x, inside)
                errs.append(tuple(e[1:]))
        if order != tabs:
            return "validated tables %s" % order
        want = [w for w in want if w[2] != "TRAILING" or (w[0], w[1], "BLOB_COMPARE_FAILED") in errs]      # whether bytes after a blob are a deviation is open in C++
    ok = len(errs) == len(want) and all(any(same_error(g, w, lang) for g in errs) for w in want) and all(any(same_error(g, w, lang) for w in want) for g in errs)
    return None if ok else "reported %s, expected %s" % (errs, want)


def explore(task):
    lang, part, tier, lo, hi, prog = task
    res = Res()
    cs = cases(part, tier)[lo:hi]
    d = tempfile.mkdtemp(prefix="zvfval", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else zbuild.scratch())
    try:
        for at in range(0, len(cs), 300):
            chunk = cs[at:at + 300]
            text = ["\t".join(["%d" % i, "fsql." + c.db, "%s/%d.db" % (d, i)] + [op_text(o) for o in c.ops] + ["v" if lang == "java" else "v|%d" % c.stop]) for i, c in enumerate(chunk)]
            tag = "val%s%s%d" % (lang, part, lo + at)
            outs = [o.split("\t")[1:] for o in (xlang.run_java(prog, text, main="Sql", name=tag) if lang == "java" else xlang.run_prog(prog, text, name=tag))]
            for i, c in enumerate(chunk):
                res.traces += 1
                res.states += len(c.rows) or 1
                res.transitions += len(c.ops) + 1
                what = "%s: %s\ndamage: %s" % (lang, c.n, "\n".join(op_text(o)[:300] for o in c.ops[2:]))
                key = "%s:%s:%s" % (lang, part, op_text(c.ops[-1])[:80])
                if i >= len(outs) or len(outs[i]) <= len(c.ops):
                    res.bad("%s:%s:no answer" % (lang, part), what)
                    break
                refused = [j for j, o in enumerate(outs[i][:len(c.ops)]) if o != "ok"]
                ans = outs[i][len(c.ops)]
                bad = "operation %d refused: %s" % (refused[0] + 1, outs[i][refused[0]]) if refused else "validation failed: %s" % ans[1:] if ans[:1] in ("x", "X") else judge(c, lang, ans)
                if bad and refused and c.ops[refused[0]][0] == "q":
                    raise RuntimeError("damage refused by SQLite: %s: %s" % (c.ops[refused[0]], outs[i][refused[0]]))
                if bad:
                    res.bad(key, "%s\n%s" % (bad, what))
                if os.path.exists("%s/%d.db" % (d, i)):
                    os.unlink("%s/%d.db" % (d, i))
                if i == 11:
                    res.sample({"damage": [op_text(o)[:120] for o in c.ops[3:]], "answer": ans[:200]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res.out()
