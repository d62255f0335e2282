"""Services and Pub/Sub: histories of calls, publications and subscriptions through generated classes, with recording backends.

Operations (one history per line: id TAB operation TAB ...):
  m|service|method|request bytes|response bytes|context|mode   call through the client; mode: '' | f (the implementation fails) |
                                                               n (the transport fails) | b<hex> (the transport answers this)
  d|service|name|data|response|context|mode                    call on the service itself
  p|pubsub|message|bytes|context    s|pubsub|message|context    u|pubsub|id    w|topic|data (a publication of somebody else)
Answer: events in order, then the result.  B:method:data:object:context (transport)  I:method:data:context (implementation)
  A:data:object (answer of the service)  P:topic:data:context  S:topic:context=id  U:id  C:id:topic:data (callback)  E:id (it failed)"""
import importlib, itertools, os, sys
from . import zbuild, xlang
from .bridge import Pkg
from .pool import Res
from .ref import *
from .sql import snake

HERE = os.path.dirname(os.path.abspath(__file__))


def types():
    rq = Struct("Rq", [Field("n", Int(8)), Field("s", Str())])
    un = Union("Un", [Field("a", Int(8)), Field("b", Str()), Field("r", rq)])
    of = Struct("Of", [Field("off", Int(32)), Field("k", Int(3)), Field("s", Str(), offset="off")])
    em = Struct("Em", [])
    pa = Struct("Pa", [Field("v", Dyn(E("k + 1", lambda e: e["k"] + 1))), Field("t", Str(), opt=E("k > 2", lambda e: e["k"] > 2))], params=[("uint8", "k")])
    K = E("k", lambda e: e["k"])
    ho = Struct("Ho", [Field("k", Int(8)), Field("p", pa, args=[K]), Field("q", pa, arr=("auto",), args=[K])])
    pk = Struct("Pk", [Field("a", Int(32, True), arr=("auto",), packed=True)])
    ex = Struct("Ex", [Field("a", Int(8)), Field("b", Str(), extend=True)])

    def pv(k, i):
        return {"v": i, "t": "t" * i if k > 2 else None}
    vals = {"Rq": [{"n": 0, "s": ""}, {"n": 255, "s": "ab\u20ac"}], "Un": [("a", 200), ("b", ""), ("r", {"n": 1, "s": "z"})], "Of": [{"off": 0, "k": 5, "s": "x"}], "Em": [{}],
            "Ho": [{"k": k, "p": pv(k, 1), "q": [pv(k, i) for i in range(n)]} for k, n in ((0, 0), (3, 2))], "Pk": [{"a": []}, {"a": [5, 6, 7, 100]}], "Ex": [{"a": 1, "b": "q", "#ext": 1}, {"a": 2, "b": "#absent", "#ext": 0}],
            "bytes": [b"", b"\x00\xff\x80"]}
    return [rq, un, of, em, pa, ho, pk, ex], vals


TYPES, VALS = types()
BY = {t.name: t for t in TYPES}
SERVICES = {"SvA": [("Rq", "ma", "Rq"), ("Un", "mb", "Of"), ("bytes", "mc", "Rq"), ("Rq", "md", "bytes"), ("bytes", "me", "bytes"), ("Em", "mf", "Ho"), ("Ho", "mg", "Em"), ("Of", "mh", "Pk"), ("Ex", "mi", "Ex"), ("Pk", "mA", "Un")],
            "SvB": [("Of", "ma", "Un"), ("Ho", "mz", "Ho"), ("bytes", "mc", "bytes")], "Nil": []}
# (keyword, topic text, topic, type, name)
PUBSUBS = {"PsA": [("publish", '"a/x"', "a/x", "Rq", "px"), ("subscribe", '"a/x"', "a/x", "Rq", "sx"), ("pubsub", '"a/y"', "a/y", "Un", "by"), ("pubsub", '"raw"', "raw", "bytes", "br"), ("publish", '"a/x"', "a/x", "bytes", "pr"),
                   ("subscribe", '"a/y"', "a/y", "Rq", "sw"), ("pubsub", 'PRE + "of"', "pre/of", "Of", "bo"), ("pubsub", '"ho"', "ho", "Ho", "bh"), ("subscribe", '"raw"', "raw", "Ex", "se")],
           "PsB": [("publish", '"a/y"', "a/y", "Un", "pu"), ("publish", '"raw"', "raw", "Ex", "pe")], "PsC": [("subscribe", '"a/x"', "a/x", "bytes", "sr"), ("subscribe", '"em"', "em", "Em", "se")],
           "PsN": [("publish", '"raw"', "raw", "bytes", "pb")], "PsE": [("pubsub", '"em"', "em", "Em", "be")]}

BASE_PS, BASE_SV = list(PUBSUBS), list(SERVICES)


def combinations():
    """Pub/Sub types with every sequence of one to three kinds of messages, services with every sequence of one or two kinds of methods."""
    ty = ["Rq", "bytes", "Em"]
    for n in (1, 2, 3):
        for h in itertools.product(("publish", "subscribe", "pubsub"), repeat=n):
            PUBSUBS["Q" + "".join(k[2 if k == "pubsub" else 0] for k in h)] = [(k, '"t%d"' % i, "t%d" % i, ty[(i + n + len(h[0])) % 3], "m%d" % i) for i, k in enumerate(h)]
    kinds = list(itertools.product(("Rq", "bytes"), repeat=2))
    for n in (1, 2):
        for h in itertools.product(range(4), repeat=n):
            SERVICES["Sv" + "".join(map(str, h))] = [(kinds[k][0], "m%d" % i, kinds[k][1]) for i, k in enumerate(h)]


combinations()


def package():
    p = Pkg("fsvc")
    for t in TYPES:
        p.add(t)
    p.raw('const string PRE = "pre/";\n')
    for n, ms in SERVICES.items():
        p.raw("service %s\n{\n%s};\n" % (n, "".join("    %s %s(%s);\n" % m for m in ms)))
    for n, ms in PUBSUBS.items():
        p.raw("pubsub %s\n{\n%s};\n" % (n, "".join("    %s(%s) %s %s;\n" % ("topic" if k == "pubsub" else k + " topic", x, t, m) for k, x, _, t, m in ms)))
    return p


def enc(t, v):
    return v if t == "bytes" else encode(BY[t], v)[1].bytes()


def again(t, data):
    """What an object read from these bytes is written as; None: it cannot be read."""
    if t == "bytes":
        return data
    try:
        v = decode(BY[t], data, 8 * len(data))[0]
    except Reject:
        return None
    w = Bits(0, 0)
    BY[t].enc_c(w, v, (), None, None)
    return w.bytes()


# ------------------------------------------------------------------------------------------------ model
class Model:
    def __init__(self, lang):
        self.lang = lang
        self.subs = {}
        self.next = 1

    def obj(self, t):
        return "0" if t == "bytes" or self.lang == "cpp" else "1"           # cppr: with reflection

    def call(self, ev, svc, name, data, resp, ctx, mode):
        """-> response bytes or None"""
        m = [x for x in SERVICES[svc] if x[1] == name]
        if not m:
            return None
        rt, _, qt = m[0]
        got = again(qt, data)
        if got is None:
            return None
        ev.append("I:%s.%s:%s:%s" % (svc, name, got.hex(), ctx))
        if mode == "f":
            return None
        r = again(rt, resp)
        ev.append("A:%s:%s" % (r.hex(), self.obj(rt)))
        return r

    def run(self, op):
        k, ev = op[0], []
        if k == "m":
            _, svc, name, req, resp, ctx, mode = op
            rt, _, qt = [x for x in SERVICES[svc] if x[1] == name][0]
            data = again(qt, req)
            ev.append("B:%s:%s:%s:%s" % (name, data.hex(), self.obj(qt), ctx))
            if mode == "n":
                return ev + ["x"]
            r = bytes.fromhex(mode[1:]) if mode[:1] == "b" else self.call(ev, svc, name, data, resp, ctx, mode)
            r = None if r is None else again(rt, r)
            return ev + ["x" if r is None else "=" + r.hex()]
        if k == "d":
            _, svc, name, data, resp, ctx, mode = op
            r = self.call(ev, svc, name, data, resp, ctx, mode)
            return ev + ["x" if r is None else "=" + r.hex()]
        if k == "p":
            _, ps, name, data, ctx = op
            m = [x for x in PUBSUBS[ps] if x[4] == name][0]
            d = again(m[3], data)
            ev.append("P:%s:%s:%s" % (m[2], d.hex(), ctx))
            return ev + self.deliver(m[2], d) + ["="]
        if k == "s":
            _, ps, name, ctx = op
            m = [x for x in PUBSUBS[ps] if x[4] == name][0]
            self.subs[self.next] = m
            self.next += 1
            return ["S:%s:%s=%d" % (m[2], ctx, self.next - 1), "=%d" % (self.next - 1)]
        if k == "u":
            ok = int(op[2]) in self.subs
            self.subs.pop(int(op[2]), None)
            return ["U:%s" % op[2], "=" if ok else "x"]
        if k == "w":
            return self.deliver(op[1], op[2]) + ["="]

    def deliver(self, topic, data):
        ev = []
        for i, m in sorted(self.subs.items()):
            if m[2] == topic:
                d = again(m[3], data)
                ev.append("E:%d" % i if d is None else "C:%d:%s:%s" % (i, topic, d.hex()))
        return ev


def op_text(op):
    return "|".join(x.hex() if isinstance(x, bytes) else str(x) for x in op)


# ------------------------------------------------------------------------------------------------ histories
def calls():
    """Every call with every request, response, failure and damage."""
    out = []
    for svc, ms in SERVICES.items():
        if svc not in BASE_SV:
            out += [("m", svc, n, enc(qt, VALS[qt][-1]), enc(rt, VALS[rt][-1]), "c", mode) for rt, n, qt in ms for mode in ("", "f")]
            out += [("d", svc, "m%d" % i, enc(ms[i % len(ms)][2], VALS[ms[i % len(ms)][2]][-1]), enc(ms[i % len(ms)][0], VALS[ms[i % len(ms)][0]][-1]), "-", "") for i in range(3)]
            continue
        for rt, name, qt in ms:
            for i, q in enumerate(VALS[qt]):
                for j, r in enumerate(VALS[rt]):
                    for mode in ("", "f", "n"):
                        out.append(("m", svc, name, enc(qt, q), enc(rt, r), "-" if (i + j) % 2 else "c%d" % i, mode))
            good = enc(rt, VALS[rt][-1])
            bad = {good[:n] for n in range(len(good))} | {good + b"\x00", b"\xff" * 3, good[:-1] + bytes([good[-1] ^ 1]) if good else b""}
            out += [("m", svc, name, enc(qt, VALS[qt][0]), good, "-", "b" + b.hex()) for b in sorted(bad)]
            good = enc(qt, VALS[qt][-1])
            bad = {good[:n] for n in range(len(good) + 1)} | {good + b"\x00", b"\xff" * 3, good[:-1] + bytes([good[-1] ^ 1]) if good else b""}
            out += [("d", svc, name, b, enc(rt, VALS[rt][-1]), "c", m) for b in sorted(bad) for m in ("", "f")]
        for name in sorted({m[1] for s in BASE_SV for m in SERVICES[s]} | {"", "m", "MA", "maa", "ma ", "SvA.ma", "maMethod", "fsvc.SvA.ma"}):
            out.append(("d", svc, name, b"\x00\x00", enc("Un", VALS["Un"][0]) if not [m for m in ms if m[1] == name] else enc([m[0] for m in ms if m[1] == name][0], VALS[[m[0] for m in ms if m[1] == name][0]][0]), "-", ""))
    return out


def messages():
    out = []
    for ps in BASE_PS:
        for kw, _, topic, t, name in PUBSUBS[ps]:
            if kw != "subscribe":
                out += [("p", ps, name, enc(t, v), "-" if i else "c") for i, v in enumerate(VALS[t])]
            if kw != "publish":
                out += [("s", ps, name, "-" if len(name) % 2 else "d")]
    return out


def histories(part, tier):
    if part == "calls":
        C = calls()
        return [[c] for c in C] + [[a, b] for a in C[::7] for b in C[3::9]]
    if part == "topics":
        # every publication and damaged publication with every set of up to two subscriptions
        M = messages()
        subs = [m for m in M if m[0] == "s"]
        pubs = [m for m in M if m[0] == "p"] + [("w", t, d) for t in ("a/x", "a/y", "raw", "ho", "em", "pre/of", "A/X", "a/", "") for d in (b"", b"\x01", b"\x00\x00", b"\xff\xff\xff\xff\xff")]
        return [list(s) + pubs for n in (1, 2) for s in itertools.product(subs, repeat=n)]
    if part == "combinations":
        # everything can be subscribed and published once, alone and together
        out = []
        for ps in PUBSUBS:
            if ps in BASE_PS:
                continue
            ss = [("s", ps, m[4], "-") for m in PUBSUBS[ps] if m[0] != "publish"]
            pp = [("p", ps, m[4], enc(m[3], VALS[m[3]][-1]), "c") for m in PUBSUBS[ps] if m[0] != "subscribe"]
            ww = [("w", "t%d" % i, enc(m[3], VALS[m[3]][0])) for i, m in enumerate(PUBSUBS[ps])]
            out += [ss + pp + ww, pp + ww] + [[x] + pp + ww + [("u", ps, 1)] + pp + ww for x in ss] + [ss + [("u", ps, 1)] + pp + ww]
        return [h for h in out if h and not (h[0][0] != "s" and any(o[0] == "u" for o in h))]
    M = messages()
    A = [m for i, m in enumerate(M) if m[0] == "s" or (m[0] == "p" and m[2] in ("px", "by", "br", "be"))] + [("u", "PsA", 1), ("u", "PsC", 2), ("u", "PsA", 9), ("w", "a/x", b"\x05\x01x"), ("w", "raw", b"")]
    if tier == "quick":
        A = A[::2] + [a for a in A[1::2] if a[0] == "u"]
    return [list(h) for h in itertools.product(A, repeat=3 if tier == "quick" else 4) if h[0][0] != "u" and (h[0][0] == "s" or tier == "quick")]


PARTS = ("calls", "topics", "combinations", "subscriptions")


# ------------------------------------------------------------------------------------------------ Python driver
class PyDrv:
    def __init__(self, gen):
        import zserio
        self.z = z = zserio
        sys.path.insert(0, gen)
        self.api = api = importlib.import_module("fsvc.api")
        me = self
        self.ev, self.mode, self.resp = [], "", b""

        def make(svc, ms):
            class Impl(getattr(api, svc).Service):
                pass
            for rt, name, qt in ms:
                def impl(self, request, context=None, rt=rt, qt=qt, name=name):
                    me.ev.append("I:%s.%s:%s:%s" % (svc, name, me.out(request).hex(), context or "-"))
                    if me.mode == "f":
                        raise ValueError("failed")
                    return me.make(rt, me.resp)
                setattr(Impl, "_%s_impl" % snake(name), impl)
            return Impl()

        class Transport(z.ServiceClientInterface):
            def __init__(self, svc):
                self.svc = svc

            def call_method(self, name, request, context=None):
                me.ev.append("B:%s:%s:%s:%s" % (name, request.byte_array.hex(), "01"[request.zserio_object is not None], context or "-"))
                if me.mode == "n":
                    raise z.ServiceException("no transport")
                if me.mode[:1] == "b":
                    return bytes.fromhex(me.mode[1:])
                return me.direct(self.svc, name, request.byte_array, context)

        class Broker(z.PubsubInterface):
            def __init__(self):
                self.subs, self.next = {}, 1

            def publish(self, topic, data, context=None):
                me.ev.append("P:%s:%s:%s" % (topic, bytes(data).hex(), context or "-"))
                self.deliver(topic, data)

            def subscribe(self, topic, callback, context=None):
                self.subs[self.next] = (topic, callback)
                me.ev.append("S:%s:%s=%d" % (topic, context or "-", self.next))
                self.next += 1
                return self.next - 1

            def unsubscribe(self, i):
                me.ev.append("U:%d" % i)
                if i not in self.subs:
                    raise z.PubsubException("no subscription")
                del self.subs[i]

            def deliver(self, topic, data):
                for i, (t, cb) in sorted(self.subs.items()):
                    if t == topic:
                        try:
                            cb(topic, data)
                        except Exception:
                            me.ev.append("E:%d" % i)
        self.Broker = Broker
        self.services = {s: make(s, ms) for s, ms in SERVICES.items()}
        self.clients = {s: getattr(api, s).Client(Transport(s)) for s in SERVICES}
        self.names = {s: (x.service_full_name, list(x.method_names)) for s, x in self.services.items()}

    def make(self, t, data):
        return bytes(data) if t == "bytes" else getattr(self.api, t).from_reader(self.z.BitStreamReader(data))

    def out(self, o):
        if isinstance(o, (bytes, bytearray)):
            return bytes(o)
        w = self.z.BitStreamWriter()
        o.write(w)
        return w.byte_array

    def direct(self, svc, name, data, context):
        r = self.services[svc].call_method(name, data, context)
        a = r.byte_array
        if a != r.byte_array:
            raise ValueError("data changed")
        self.ev.append("A:%s:%s" % (bytes(a).hex(), "01"[r.zserio_object is not None]))
        return a

    def run(self, ops):
        self.broker = b = self.Broker()
        ps = {n: getattr(self.api, n)(b) for n in PUBSUBS}
        out = []
        for op in ops:
            self.ev = []
            k = op[0]
            try:
                res = "="
                if k in "md":
                    ctx = () if op[5] == "-" else (op[5],)
                    self.resp, self.mode = op[4], op[6]
                    if k == "m":
                        qt = [m[2] for m in SERVICES[op[1]] if m[1] == op[2]][0]
                        res += self.out(getattr(self.clients[op[1]], snake(op[2]))(self.make(qt, op[3]), *ctx)).hex()
                    else:
                        res += bytes(self.direct(op[1], op[2], op[3], *(ctx or (None,)))).hex()
                elif k == "p":
                    t = [m[3] for m in PUBSUBS[op[1]] if m[4] == op[2]][0]
                    getattr(ps[op[1]], "publish_" + op[2])(self.make(t, op[3]), *(() if op[4] == "-" else (op[4],)))
                elif k == "s":
                    at = b.next

                    def cb(topic, message, at=at):
                        self.ev.append("C:%d:%s:%s" % (at, topic, self.out(message).hex()))
                    res += str(getattr(ps[op[1]], "subscribe_" + op[2])(cb, *(() if op[3] == "-" else (op[3],))))
                elif k == "u":
                    ps[op[1]].unsubscribe(op[2])
                elif k == "w":
                    b.deliver(op[1], op[2])
            except Exception:
                res = "x"
            out.append(";".join(self.ev + [res]))
        return out


def cap(s):
    return s[0].upper() + s[1:]


# ------------------------------------------------------------------------------------------------ Java driver
def java_source():
    o = ["public class Glue extends Svc\n{"]
    for s, ms in SERVICES.items():
        o.append("    class Impl%s extends fsvc.%s.%sService\n    {" % (s, s, s))
        for rt, n, qt in ms:
            jt = lambda t: "byte[]" if t == "bytes" else "fsvc." + t
            o.append("        @Override\n        protected %s %sImpl(%s request, Object context)\n        {\n            return (%s)implement(\"%s.%s\", request, context, %s);\n        }" % (jt(rt), n, jt(qt), jt(rt), s, n, "byte[].class" if rt == "bytes" else jt(rt) + ".class"))
        o.append("    }")
    o.append("    @Override\n    zserio.runtime.service.ServiceInterface service(String n)\n    {\n%s        return null;\n    }" % "".join('        if (n.equals("%s"))\n            return new Impl%s();\n' % (s, s) for s in SERVICES))
    o.append("    @Override\n    String names()\n    {\n        return %s;\n    }" % ' + ";" + '.join('fsvc.%s.%sService.serviceFullName() + ":" + String.join(",", fsvc.%s.%sService.methodNames())' % (s, s, s, s) for s in SERVICES))
    o.append("    @Override\n    String[] pubsubs()\n    {\n        return new String[] {%s};\n    }" % ", ".join('"%s"' % n for n in PUBSUBS))
    o.append("    public static void main(String[] args) throws Throwable\n    {\n        new Glue().runAll(args[0], args[1]);\n    }\n}\n")
    return "\n".join(o)


def cpp_source():
    o = ['#include "svc.h"'] + ['#include "fsvc/%s.h"' % n for n in list(SERVICES) + list(PUBSUBS)] + ["namespace zvf\n{"]
    ct = lambda t: "std::vector<uint8_t>" if t == "bytes" else "fsvc::" + t
    at = lambda t: "zserio::Span<const uint8_t>" if t == "bytes" else "const fsvc::%s&" % t
    mt = lambda t: "zserio::Span<const uint8_t>" if t == "bytes" else "fsvc::" + t
    for s, ms in SERVICES.items():
        o.append("class Impl%s : public fsvc::%s::Service\n{" % (s, s))
        for rt, n, qt in ms:
            o.append("    %s %sImpl(%s request, void* context) override\n    {\n        return implement<%s>(\"%s.%s\", out(request), context);\n    }" % (ct(rt), n, at(qt), ct(rt), s, n))
        o.append("};")
    o.append("zserio::IService* service(const std::string& n)\n{\n%s    return nullptr;\n}" % "".join('    static Impl%s i%s;\n    if (n == "%s")\n        return &i%s;\n' % (s, s, s, s) for s in SERVICES))
    o.append("std::string names()\n{\n    std::string s;\n%s    return s;\n}" % "".join('    s += std::string(s.empty() ? "" : ";") + text(fsvc::%s::Service::serviceFullName()) + ":";\n    for (size_t i = 0; i < fsvc::%s::Service::methodNames().size(); ++i)\n        s += std::string(i ? "," : "") + text(fsvc::%s::Service::methodNames()[i]);\n' % (s, s, s) for s in SERVICES))
    o.append("std::vector<uint8_t> client(const std::string& svc, const std::string& m, const std::vector<uint8_t>& d, void* ctx)\n{\n    Transport t(svc);")
    for s, ms in SERVICES.items():
        o.append('    if (svc == "%s")\n    {\n        fsvc::%s::Client c(t);' % (s, s))
        for rt, n, qt in ms:
            o.append('        if (m == "%s")\n        {\n            const auto request = make<%s>(d);\n            return out(ctx ? c.%sMethod(request, ctx) : c.%sMethod(request));\n        }' % (n, ct(qt), n, n))
        o.append("    }")
    o.append('    throw std::logic_error("no method");\n}')
    o.append("struct All\n{\n    explicit All(Broker& b) : %s {}\n%s\n};" % (", ".join("m%s(b)" % n for n in PUBSUBS), "\n".join("    fsvc::%s m%s;" % (n, n) for n in PUBSUBS)))
    for n, ms in PUBSUBS.items():
        if any(k != "publish" for k, _, _, _, _ in ms):
            o.append("template <typename M>\nstruct Cb%s : fsvc::%s::%sCallback<M>\n{\n    explicit Cb%s(size_t i) : id(i) {}\n    void operator()(zserio::StringView topic, const M& message) override\n    {\n        events.push_back(\"C:\" + std::to_string(id) + \":\" + text(topic) + \":\" + hex(out(message)));\n    }\n    size_t id;\n};" % (n, n, n, n))
    o.append("void publish(All& a, const std::string& ps, const std::string& m, const std::vector<uint8_t>& d, void* ctx)\n{")
    for n, ms in PUBSUBS.items():
        for k, _, _, t, m in ms:
            if k != "subscribe":
                o.append('    if (ps == "%s" && m == "%s")\n    {\n        const auto message = make<%s>(d);\n        return ctx ? a.m%s.publish%s(message, ctx) : a.m%s.publish%s(message);\n    }' % (n, m, ct(t), n, cap(m), n, cap(m)))
    o.append("}\nsize_t subscribe(All& a, const std::string& ps, const std::string& m, size_t id, void* ctx)\n{")
    for n, ms in PUBSUBS.items():
        for k, _, _, t, m in ms:
            if k != "publish":
                o.append('    if (ps == "%s" && m == "%s")\n    {\n        const auto cb = std::make_shared<Cb%s<%s>>(id);\n        return ctx ? a.m%s.subscribe%s(cb, ctx) : a.m%s.subscribe%s(cb);\n    }' % (n, m, n, mt(t), n, cap(m), n, cap(m)))
    o.append('    throw std::logic_error("no message");\n}\nvoid unsubscribe(All& a, const std::string& ps, size_t id)\n{\n%s}\n' % "".join('    if (ps == "%s")\n        a.m%s.unsubscribe(id);\n' % (n, n) for n, ms in PUBSUBS.items() if any(k[0] != "publish" for k in ms)))
    o.append("All* makeAll(Broker& b)\n{\n    return new All(b);\n}\nvoid freeAll(All* a)\n{\n    delete a;\n}\n}\nint main(int, char** argv)\n{\n    return zvf::runAll(argv[1], argv[2]);\n}\n")
    return "\n".join(o)


def build(cp, rt, langs=("python", "java", "cpp", "cppr")):
    d = zbuild.scratch()
    src = d + "/svczs"
    os.makedirs(src, exist_ok=True)
    package().write(src)
    out = {}

    def py():
        zbuild.generate(cp, src, "fsvc.zs", "-python", d + "/svcpy")
        out["python"] = d + "/svcpy"

    def java():
        zbuild.generate(cp, src, "fsvc.zs", "-java", d + "/svcj")
        with open(d + "/svcj/Glue.java", "w") as f:
            f.write(java_source())
        zbuild.javac(d + "/svccls", zbuild.find(d + "/svcj", ".java") + zbuild.find(HERE + "/java_svc", ".java"), rt)
        out["java"] = ":".join([d + "/svccls", rt])

    def cpp(name, *opts):
        gen = d + "/svc" + name
        zbuild.generate(cp, src, "fsvc.zs", "-cpp", gen, *opts)
        with open(gen + "/main.cpp", "w") as f:
            f.write(cpp_source())
        flags = ["-std=c++11", "-w", "-O0"]
        objs = zbuild.cpp_runtime_objs(flags, zbuild.CLANG)
        srcs = zbuild.find(gen, ".cpp")
        mine = ["%s/%d.o" % (gen, i) for i in range(len(srcs))]
        zbuild.compile_jobs([(s, flags + ["-I" + gen, "-I" + HERE + "/cpp_svc", "-I" + zbuild.CPP_RT], o) for s, o in zip(srcs, mine)], zbuild.CLANG)
        zbuild.run([zbuild.CLANG, "-o", gen + "/prog"] + mine + objs, "C++ linker")
        out[name] = gen + "/prog"
    jobs = {"python": py, "java": java, "cpp": lambda: cpp("cpp"), "cppr": lambda: cpp("cppr", "-withTypeInfoCode", "-withReflectionCode")}
    zbuild.parallel(*[f for l, f in jobs.items() if l in langs])
    return out


def explore(task):
    lang, part, tier, lo, hi, prog = task
    res = Res()
    hs = histories(part, tier)[lo:hi]
    if lang == "python":
        drv = PyDrv(prog)
        outs = [drv.run(h) for h in hs]
        names = ";".join("%s:%s" % (a, ",".join(b)) for a, b in drv.names.values())
    else:
        lines = ["%d\t%s" % (i, "\t".join(op_text(o) for o in h)) for i, h in enumerate(hs)] + ["n\tn"]
        tag = "svc%s%s%d" % (lang, part, lo)
        outs = [x.split("\t")[1:] for x in (xlang.run_java(prog, lines, main="Glue", name=tag) if lang == "java" else xlang.run_prog(prog, lines, name=tag))]
        names = outs[-1][0]
    want = ";".join("fsvc.%s:%s" % (s, ",".join(m[1] for m in ms)) for s, ms in SERVICES.items())
    if names != want:
        res.bad("%s:names" % lang, "services and methods %s, expected %s" % (names, want))
    for i, h in enumerate(hs):
        m = Model(lang)
        res.states += len(h)
        res.transitions += len(h)
        bad = None
        for j, op in enumerate(h):
            w = ";".join(m.run(op))
            if w != outs[i][j]:
                bad = "operation %d, %s: %s, expected %s" % (j + 1, op_text(op), outs[i][j], w)
                res.bad("%s:%s:%s:%s.%s" % (lang, part, op[0], op[1], op[2] if op[0] != "w" else ""), "%s: %s\nhistory: %s" % (lang, bad, "  ".join(op_text(o) for o in h)))
                break
        res.traces += not bad
        if i == 3:
            res.sample({"history": [op_text(o)[:100] for o in h][:6], "answers": outs[i][:6]})
    return res.out()
