"""Histories of runs of the zserio tool over one output directory.

A history is a sequence of edits of the sources, removed output files, changes of the tool (its time stamp) and runs with some options
and main file. The model of a run is a function: the files that a run from scratch with the same sources, options and main file gives.
After every run each of these files has to be there with the same contents, whatever the history (files of earlier runs may remain).
The runs from scratch are repeated in other directories, processes and orders, and have to agree (determinism)."""
import base64, itertools, os, subprocess
from . import zbuild
from .pool import Res

SOURCES = {
    "a.zs": ["""package a;
import d.c.*;
const uint8 SIZE = LIMIT + 1;
enum uint8 Kind { NONE, ONE, TWO };
bitmask uint8 Mask { READ, WRITE };
subtype uint16 Word;
struct Item { uint8 num; Word word; Mask mask; };
struct Pair<ZT> { ZT first; ZT second[SIZE]; };
struct Main(uint8 len) { Item item; string text if len > LIMIT; extend Kind kind; function uint8 twice() { return len * 2; } };
choice Pick(Kind kind) on kind { case ONE: uint8 one; case TWO: Item two; default: ; };
union Either { Item item; Deep deep; };
service Calls { Item call(Item); };
pubsub Topics { topic("a") Item out; };
sql_table Table { uint32 id sql "PRIMARY KEY"; Item item; Pick(explicit kind) pick; };
sql_database Base { Table table; };
rule_group Rules { rule "r-1"; };
"""],
    "b.zs": ["""package b;
import a.*;
struct User { Item items[]; Pair<uint8> pair; Kind kinds[]; };
"""],
    "d/c.zs": ["""package d.c;
/** The limit. */
const uint8 LIMIT = 3;
struct Deep { uint32 depth; bool flag; };
"""],
}
SOURCES["a.zs"].append(SOURCES["a.zs"][0].replace("uint8 num;", "uint32 num; uint8 more;").replace("TWO };", "TWO, THREE };"))
SOURCES["b.zs"].append(SOURCES["b.zs"][0].replace("Item items[]", "packed Item items[]").replace("Pair<uint8>", "Pair<Item>"))
SOURCES["d/c.zs"].append(SOURCES["d/c.zs"][0].replace("= 3", "= 5").replace("The limit", "Another limit").replace("bool flag", "bool flag; Deep sub[]"))
MAINS = ("a.zs", "b.zs")
OPTIONS = ["", "-withTypeInfoCode", "-withoutWriterCode", "-withRangeCheckCode", "-withCodeComments", "-withValidationCode", "-withoutWriterCode -withSettersCode", "-withTypeInfoCode -withReflectionCode", "-withoutSourcesAmalgamation",
           "-withParsingInfoCode", "-setCppAllocator polymorphic", "-withoutServiceCode", "-withoutPubsubCode", "-withoutSqlCode", "-setTopLevelPackage top.pkg", "-ignoreTimestamps"]
ONCE = "-xml @/out/xml -withGlobalRuleIdCheck"      # always written anew: only compared between runs from scratch


def run_step(opts, main):
    return "R -src @/src %s -python @/out/python -java @/out/java -cpp @/out/cpp %s" % (opts, main)


def write(name, v):
    return "W src/%s %s" % (name, base64.b64encode(SOURCES[name][v].encode()).decode())


START = {n: 0 for n in SOURCES}


class History:
    """A list of operations: ("run", options, main), ("edit", file, variant), ("delete", output), ("tool",)"""
    def __init__(self, ops, state=None):
        self.ops, self.state = ops, dict(state or START)

    def name(self):
        return "/".join("-".join(str(x) for x in o if x != "") for o in self.ops)

    def line(self, ident, directory):
        steps = [write(n, v) for n, v in self.state.items()]
        for o in self.ops:
            if o[0] == "run":
                steps += [run_step(o[1], o[2]), "H out"]
            elif o[0] == "edit":
                steps.append(write(o[1], o[2]))
            elif o[0] == "delete":
                steps.append("D out/" + o[1])
            else:
                steps.append("J")
        return "\t".join([str(ident), directory] + [" ".join(s.split()) for s in steps])

    def expected(self):
        """(schema state, options, main) of every run"""
        st, out = dict(self.state), []
        for o in self.ops:
            if o[0] == "edit":
                st[o[1]] = o[2]
            elif o[0] == "run":
                out.append((tuple(sorted(st.items())), o[1], o[2]))
        return out


def tour(n):
    """A closed walk through all ordered pairs of different numbers below n, every pair once."""
    succ = {a: [b for b in range(n) if b != a] for a in range(n)}
    path, out = [0], []
    while path:
        if succ[path[-1]]:
            path.append(succ[path[-1]].pop())
        else:
            out.append(path.pop())
    return out[::-1]


def plan(tier):
    hs = []
    th = tier == "thorough"
    # every change of options, in pieces of one walk through all of them
    walk, k = tour(len(OPTIONS)), 15
    for m in MAINS[::-1] if th else MAINS[1:]:
        for i in range(0, len(walk) - 1, k):
            hs.append(History([("run", OPTIONS[o], m) for o in walk[i:i + k + 1]]))
    # every event between two runs, with and without a change of options or main file
    events = [("edit", n, 1 - v) for n, v in START.items()] + [("tool",)] + [("delete", f) for f in ("python/a/api.py", "python/a/item.py", "java/a/Item.java", "cpp/a/Item.h", "cpp/a/A.cpp", "python/d/c/limit.py", "java/b/User.java")]
    runs = [("run", o, m) for o in ("", "-withTypeInfoCode") for m in MAINS]
    for r1, e, r2 in itertools.product(runs, events, runs):
        if th or r1[1] == r2[1] and (r1[1] == "" or r1 == r2) or e[0] == "edit" and r1[1] == "" and r1[2] == r2[2]:
            hs.append(History([r1, e, r2]))
    for r1, r2 in itertools.product(runs, repeat=2):
        hs.append(History([r1, r2]))
        if th:
            for r3 in runs:
                hs.append(History([r1, r2, r3]))
    # every edit, from every state of the sources, and back
    for vs in itertools.product((0, 1), repeat=3):
        st = dict(zip(START, vs))
        for m in MAINS:
            ops = [("run", "", m)]
            for n in START:
                ops += [("edit", n, 1 - st[n]), ("run", "", m), ("edit", n, st[n]), ("run", "", m)]
            hs += [History(ops, st)] if th or m == "b.zs" else []
    if th:
        for r1, e1, e2, r2, r3 in itertools.product(runs[:2], events, events, runs[:2], runs[:2]):
            hs.append(History([r1, e1, r2, e2, r3]))
    return hs


def same_sources(ops):
    """Is the last run one with another main file than the run before and the same options, where none of its sources has been edited and
    the tool has not changed in between? Such a run skips the files it finds (known finding main-file-changed)."""
    last = ops[-1]
    for o in ops[-2::-1]:
        if o[0] == "run":
            return o[1] == last[1] and o[2] != last[2]
        if o[0] == "tool" or o[0] == "edit" and (o[1] != "b.zs" or last[2] == "b.zs"):
            return False


def build(cp):
    out = os.path.join(zbuild.scratch(), "regen")
    zbuild.javac(out, [os.path.join(os.path.dirname(os.path.abspath(__file__)), "java_regen", "Regen.java")], cp, "regeneration driver")
    return out


def play(driver, cp, tag, hists):
    """[(ok, printed, {file: hash}) of every run] of every history"""
    d = os.path.join(zbuild.scratch(), "regen-" + tag)
    os.makedirs(d)
    with open(d + "/in", "w") as f:
        for i, h in enumerate(hists):
            f.write(h.line(i, "%s/%d" % (d, i)) + "\n")
    p = subprocess.run([zbuild.JAVA, "-Xmx1500m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", driver, "Regen", d + "/in", d + "/out", cp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=850)
    if p.returncode != 0:
        raise zbuild.GenError("the tool ended its process: " + p.stdout.decode("utf8", "replace")[-2000:])
    out = []
    with open(d + "/out") as f:
        for h, l in zip(hists, f.read().split("\n")):
            c = l.split("\t")[1:]
            out.append([(c[k][0] == "1", base64.b64decode(c[k][1:]).decode("utf8", "replace"), dict(x.split("=") for x in c[k + 1].split())) for k in range(0, len(c), 2)])
    return out


def scratch_runs(task):
    driver, cp, i, refs, rep = task
    r = Res()
    hists = [History([("run", o, m)], dict(st)) for st, o, m in refs]
    out = dict(r.out())
    out["refs"] = [(k, x[0]) for k, x in zip(refs, play(driver, cp, "ref%d-%d" % (i, rep), hists))]
    return out


def explore(task):
    driver, cp, i, hists, refs = task
    r = Res()
    for h, runs in zip(hists, play(driver, cp, "hist%d" % i, hists)):
        r.traces += 1
        for n, (key, (ok, text, files)) in enumerate(zip(h.expected(), runs)):
            r.states += 1
            r.transitions += len(files)
            rok, _, rfiles = refs[key]
            if ok != rok:
                r.bad("regen:%s" % h.name(), "Run %d of the history %s %s, a run from scratch %s.\n%s" % (n + 1, h.ops, "succeeded" if ok else "failed", "does not" if ok else "does", text[-1500:]))
                break
            wrong = sorted(f for f in rfiles if files.get(f) != rfiles[f])
            if wrong:
                stale = [f for f in wrong if f in files]
                at = [k for k, o in enumerate(h.ops) if o[0] == "run"][n]
                if not [f for f in wrong if f not in files] and same_sources(h.ops[:at + 1]):
                    r.bad("main-file-changed", "After run %d of the history %s these files differ from a run from scratch: %s" % (n + 1, h.ops, stale[:10]))
                    break
                r.bad("regen:%s:%s" % (wrong[0].split("/")[0], h.name()), "After run %d of the history %s these files differ from a run from scratch: %s; missing: %s" % (n + 1, h.ops, stale[:10], [f for f in wrong if f not in files][:10]))
                break
    if hists:
        r.sample({"history": hists[0].name()})
    return r.out()
