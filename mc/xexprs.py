"""Evaluates expressions in generated Java and C++ code and compares every value with the model."""
import os
from . import exprs, zbuild, xlang, gencheck
from .ref import *
from .pool import Res
from .py_exprs import word

LIMIT = 700


def t_struct():
    """The structure of exprs.schema as reference types."""
    en = Enum("En", Int(8), [(n, str(v), v, None) for n, v in exprs.ENUM])
    mk = Bitmask("Mk", Int(8), [(n, str(v), v) for n, v in exprs.BMASK])
    inner = Struct("Inner", [Field("iv", Int(16, True)), Field("ia", Int(8), arr=("auto",)), Field("ib", Bool())], params=[(Int(32, True), "ip")])
    leaf = {"int8": Int(8, True), "uint8": Int(8), "int16": Int(16, True), "int32": Int(32, True), "uint16": Int(16), "uint32": Int(32), "int64": Int(64, True), "uint64": Int(64),
            "bit:5": Int(5), "int:7": Int(7, True), "bit:40": Int(40), "bool": Bool(), "En": en, "Mk": mk, "string": Str(), "bytes": Bytes()}
    fs = []
    for n, t in exprs.FIELDS:
        if n == "inn":
            fs.append(Field(n, inner, args=[E("par", lambda e: e["par"])]))
        elif t.endswith("[]"):
            fs.append(Field(n, leaf[t[:-2]], arr=("auto",)))
        else:
            fs.append(Field(n, leaf.get(t) or Var(t)))
    return Struct("T", fs, params=[(Int(32, True), "par")])


def rows(full):
    """(operands, par, bits, hex) of every grid point."""
    t = t_struct()
    names = {v: n for n, v in exprs.ENUM}
    out = []
    for e in exprs.grid(full):
        v = {n: names[e[n]] if n in "eg" else e[n] for n, _ in exprs.FIELDS}
        _, b = encode(t, v, (e["par"],))
        out.append((e, e["par"], b.n, b.bytes().hex()))
    return out


def parts(thorough, lang):
    """(package, space name, expressions, full grid)"""
    out = []
    for name, ex in exprs.space(thorough, lang).items():
        for i, (lo, hi) in enumerate(gencheck.chunks(len(ex), max(1, (len(ex) + LIMIT - 1) // LIMIT))):
            out.append(("ex_%s%d" % (name, i), name, ex[lo:hi]))
    return out


def java_known():
    """uint64 mixed with operands which are native in Java: one package per operand kind, known not to compile."""
    out = []
    for i, n in enumerate([x for x in exprs.LEAF_INTS if exprs.native_only(x)]):
        e = exprs.N("i", "+", (exprs.f("y"), n))
        out.append(("ek_%d" % i, "big", [(e.show(), e)]))
    return out


def judge(res, lang, name, ex, grid, outs):
    for (e, _, _, _), line in zip(grid, outs):
        res.states += 1
        got = line.split("\t")
        if len(got) != len(ex):
            res.bad("%s-expr:%s" % (lang, name), "%d results for %d expressions" % (len(got), len(ex)))
            return
        for (text, n), g in zip(ex, got):
            try:
                want = exprs.value(n, e, lang)
            except exprs.Skip:
                continue
            res.transitions += 1
            if n.t == "i" and not (0 <= want < 1 << 64 if name == "big" else -1 << 63 <= want < 1 << 63):
                continue
            res.traces += 1
            w = ("true" if want else "false") if n.t == "b" else str(want)
            if g != w:
                res.bad("%s-expr:%s" % (lang, word(text)), "expression %s gives %s in generated %s, %s expected; operands %r" % (text, g, lang, w, e))


def write_schemas(src, ps):
    os.makedirs(src, exist_ok=True)
    for pkg, name, ex in ps:
        with open(os.path.join(src, pkg + ".zs"), "w") as f:
            f.write(exprs.schema(pkg, ex, {"i": "uint64", "b": "bool"} if name == "big" else None))


def java(task):
    lang, cpath, pkg, name, ex_i, thorough = task
    ex = parts(thorough, lang)[ex_i][2]
    res = Res()
    grid = rows(thorough or name != "three")
    outs = xlang.run_java(cpath, ["%s.T\t%d\t%d\t%s" % (pkg, p, n, h) for _, p, n, h in grid], "Exprs", pkg)
    judge(res, "java", name, ex, grid, outs)
    res.sample("java: " + ex[len(ex) // 2][0])
    return res.out()


MAIN = '''#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "%(pkg)s/T.h"
static void out(std::ostream& o, bool v) { o << (v ? "true" : "false"); }
template <typename T> static void num(std::ostream& o, T v) { if (v < T(0)) o << static_cast<long long>(v); else o << static_cast<unsigned long long>(v); }
static void out(std::ostream& o, int64_t v) { num(o, v); }
static void out(std::ostream& o, uint64_t v) { num(o, v); }
static void out(std::ostream& o, %(pkg)s::En v) { num(o, zserio::enumToValue(v)); }
static void out(std::ostream& o, %(pkg)s::Mk v) { num(o, v.getValue()); }
using namespace %(pkg)s;
static sigjmp_buf trap;
static void onTrap(int) { siglongjmp(trap, 1); }
static void all(const T& t, std::ostream& o)
{
%(calls)s}
int main(int, char** a)
{
    signal(SIGFPE, onTrap);
    std::ifstream in(a[1]);
    std::ofstream o(a[2]);
    std::string cls, hex;
    long long par, bits;
    while (in >> cls >> par >> bits >> hex)
    {
        std::vector<uint8_t> d;
        for (size_t i = 0; i + 1 < hex.size(); i += 2)
            d.push_back(static_cast<uint8_t>(std::stoi(hex.substr(i, 2), nullptr, 16)));
        zserio::BitStreamReader r(d.data(), static_cast<size_t>(bits), zserio::BitsTag());
        T t(r, static_cast<int32_t>(par));
        all(t, o);
        o << "\\n";
    }
    return 0;
}
'''


def cpp_build(gen, pkg, ex, objs):
    """Compiles the expressions of one package to a program; returns its path."""
    out = os.path.join(zbuild.scratch(), "cppx_" + pkg)
    os.makedirs(out, exist_ok=True)
    calls = "".join("    %sif (sigsetjmp(trap, 1) == 0) out(o, t.funcF%d()); else o << \"FPE\";\n" % ("o << '\\t'; " if i else "", i) for i in range(len(ex)))
    with open(out + "/main.cpp", "w") as f:
        f.write(MAIN % {"pkg": pkg, "calls": calls})
    flags = ["-std=c++11", "-O0", "-w", "-fwrapv", "-I" + gen, "-I" + zbuild.CPP_RT]
    o = zbuild.cxx_objects(zbuild.find(os.path.join(gen, pkg), ".cpp") + [out + "/main.cpp"], out, flags, 2, gen=True)
    zbuild.run(["g++", "-o", out + "/prog"] + o + objs, "link")
    return out + "/prog"


def cpp(task):
    lang, prog, pkg, name, ex_i, thorough = task
    ex = parts(thorough, lang)[ex_i][2]
    res = Res()
    grid = rows(thorough or name != "three")
    outs = xlang.run_prog(prog, ["%s.T\t%d\t%d\t%s" % (pkg, p, n, h) for _, p, n, h in grid], pkg)
    judge(res, "cpp", name, ex, grid, outs)
    res.sample("cpp: " + ex[len(ex) // 2][0])
    return res.out()
