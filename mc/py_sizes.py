"""Size prediction and offsets of generated Python objects at any stream position, over histories of initialize / change / write."""
from .ref import *
from .py_gen import ctx, cut, norm, write_at
from .bridge import to_bits
from .pool import Res


def predict(task):
    """bitsizeof(s) and initialize_offsets(s) == number of bits written at s, for every start s."""
    name, tier, gen, lo, hi, starts, stride = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases[lo:hi]:
        for v in values[::stride]:
            key = "%s:%s:%s" % (p.name, t.name, cut(v, 80)[:80])
            obj = br.build(t, v, args)
            for s in starts:
                v1, b1 = encode(t, v, args, s)
                size, end = obj.bitsizeof(s), obj.initialize_offsets(s)
                res.states += 1
                res.transitions += 3
                if size != b1.n or end != s + b1.n:
                    res.bad("size:%s@%d" % (key, s), "%s %s at bit %d: bitsizeof %d, initialize_offsets end %d, model %d" % (t.name, cut(v, 0), s, size, end, b1.n))
                    break
                if obj.bitsizeof(s) != b1.n:
                    res.bad("size2:%s@%d" % (key, s), "%s %s at bit %d: bitsizeof differs after initialize_offsets" % (t.name, cut(v, 0), s))
                    break
                data, pos = write_at(z, obj, s)
                res.traces += 1
                if pos != end or to_bits(data, pos, s) != b1.acc:
                    res.bad("bits:%s@%d" % (key, s), "%s %s at bit %d: wrote %d bits, model %d" % (t.name, cut(v, 0), s, pos - s, b1.n))
                    break
            else:
                if obj.bitsizeof() != encode(t, v, args)[1].n:
                    res.bad("size0:%s" % key, "bitsizeof() without position")
        if values:
            res.sample("%s.%s at %s" % (p.name, t.name, starts))
    return res.out()


def accepts(t, v, args, s):
    """Bits the model writes at s with the offsets as they are in v, or None."""
    w = Bits((1 << s) - 1, s)
    try:
        t.enc_c(w, deepcopy(v), args, None, None)
    except Reject:
        return None
    return w


def histories(task):
    """All sequences of initialize_offsets(s) / replacement of members up to a depth, each followed by writes at every start."""
    name, tier, gen, lo, hi, starts, nvals, depth = task
    z, p, br = ctx(name, tier, gen)
    res = Res()
    for t, values, args in p.cases[lo:hi]:
        if not has_offsets(t) or not isinstance(t, Struct):
            continue
        step = max(1, len(values) // nvals)
        vs = [dict(deepcopy(v)) for v in values[::step][:nvals]]
        seen = 0
        # model state: (value with its current offset contents); explored as a tree of operation sequences
        todo = [((), vs[0])]
        while todo:
            ops, mv = todo.pop()

            def build():
                obj = br.build(t, vs[0], args)
                for o in ops:
                    if o[0] == "init":
                        obj.initialize_offsets(o[1])
                    else:
                        other = br.build(t, vs[o[1]], args)
                        for f in t.fields:
                            setattr(obj, f.name, getattr(other, f.name))
                return obj
            res.states += 1
            for s in starts:
                exp = accepts(t, mv, args, s)
                obj = build()
                try:
                    data, pos = write_at(z, obj, s)
                except z.PythonRuntimeException:
                    data = None
                res.transitions += len(ops) + 1
                res.traces += 1
                key = "hist:%s:%s:%s:write@%d" % (p.name, t.name, ops, s)
                if exp is None and data is not None:
                    res.bad(key, "%s after %s holds stale offsets (%s) but was written at bit %d" % (t.name, ops, cut(mv, 0), s))
                elif exp is not None and (data is None or pos != exp.n or int.from_bytes(data, "big") >> (-pos % 8) != exp.acc):
                    res.bad(key, "%s after %s (%s) at bit %d: %s, model %d bits" % (t.name, ops, cut(mv, 0), s, "refused" if data is None else "%d bits %s" % (pos, data.hex()), exp.n))
            # serialize() always brings the offsets up to date
            obj = build()
            bb = z.serialize(obj)
            b0 = encode(t, mv, args)[1]
            if bb.bitsize != b0.n or bytes(bb.buffer) != b0.bytes():
                res.bad("ser:%s:%s:%s" % (p.name, t.name, ops), "%s after %s: serialize differs from the model" % (t.name, ops))
            seen += 1
            if len(ops) < depth:
                for s in starts:
                    todo.append((ops + (("init", s),), initialise(t, mv, args, s)))
                for j in range(1, len(vs)):
                    todo.append((ops + (("set", j),), deepcopy(vs[j])))
        res.sample("%s.%s: %d histories, last %s" % (p.name, t.name, seen, ops))
    return res.out()
