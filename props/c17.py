"""User-registered coders inside tuples and arrays: the specification judges the calls as if
the built-in type of the same size and dynamicity had been used; errors must propagate."""
from lib import customs, gen, pv, rec, regs
from lib.customs import STYLES, SUB, register, sub
from .units import *

NAMES = list(SUB)


def customize(rng, t):
    """t with some leaves replaced by custom types"""
    if t[0] == "arr":
        return ("arr", customize(rng, t[1]), t[2])
    if t[0] == "tup":
        return ("tup", [customize(rng, c) for c in t[1]])
    return (rng.choice(NAMES),) if rng.random() < 0.6 else t


def units(tier, seed):
    """(group, types with custom leaves, kind)"""
    q = tier == "quick"
    for D in ("cdy", "cdt", "cda", "bytes"):
        for S in ("cst", "cwd", "bool"):
            if (D, S) != ("bytes", "bool"):
                for ts in gen.shapes((D,), (S,)):
                    yield "shape", ts
    for i in range(1500 if q else 20000):
        r = rng_for(seed, "c17t", i)
        ts = [customize(r, t) for t in gen.rtypes(r, depth=r.choice([1, 2, 3, 3, 4]))]
        if set().union(*map(customs.names, ts)):
            yield "random", ts


def codecs(tier, seed):
    """codecs over registries with all custom types, in all combinations of styles"""
    from eth_abi.codec import ABICodec
    from eth_abi.registry import registry

    out = []
    k = 0
    for es in STYLES:
        for ds in STYLES:
            reg = regs.fresh() if k % 3 == 0 else registry.copy()
            for j, name in enumerate(NAMES):
                how = ["str", "base", "base0", "fn"][(k + j) % 4]
                e, d = (es, ds) if k % 2 else (STYLES[(k + j) % len(STYLES)], STYLES[(k * 3 + j) % len(STYLES)])
                register(reg, name, e, d, how)
            out.append((f"{es}/{ds}/{k}", ABICodec(reg)))
            k += 1
    return out


class Boom(Exception):
    pass


class KeyBoom(KeyError):
    pass


def boom_types():
    from eth_abi.exceptions import DecodingError, EncodingError, IllegalValue, InvalidPointer

    class BoomE(EncodingError):
        pass

    class BoomD(DecodingError):
        pass

    return [Boom, KeyBoom, BoomE, BoomD, IllegalValue, InvalidPointer, ValueError, ZeroDivisionError, OverflowError, IndexError, TypeError,
            NotImplementedError, RecursionError, LookupError, AssertionError, UnicodeError, OSError, MemoryError, RuntimeError]


def raiser(f, exc, magic):
    def g(x):
        v = f(x)
        if magic(x, v):
            raise exc("boom")
        return v
    return g


BAD = 0xBADBAD


def booms(tier, seed, shard, n):
    """A custom coder raises for one value somewhere inside: the caller sees that exception."""
    from eth_abi.codec import ABICodec
    from eth_abi.registry import registry

    ebad = lambda x, v: v == customs.word(BAD)
    dbad = lambda x, v: v == BAD
    i = 0
    for exc in boom_types():
        # check, write: library coders which raise in only one of their two methods
        for es in ("fn", "obj", "inst", "cls", "partial", "method", "type", "check", "write"):
            i += 1
            if i % n != shard:
                continue
            reg = registry.copy()
            register(reg, "cst", es, es, "str", raiser(customs.put_int, exc, ebad), raiser(customs.get_int, exc, dbad))
            from eth_abi.registry import registry as base
            good = base.copy()
            register(good, "cst", "fn", "fn", "str")
            c, cg = ABICodec(reg), ABICodec(good)
            for D in (("bytes",), ("string",)):
                for k, ts in enumerate(gen.shapes(D, ("cst",))):
                    if tier == "quick" and (k + i) % 3:
                        continue
                    r = rng_for(seed, "boom", i, k)
                    vs = gen.rvalues(r, [sub(t) for t in ts])
                    vs, hit = plant(r, ts, vs)
                    st = strs(ts)
                    o, _ = rec.enc(c.encode, st, vs)
                    yield {"c": "Propagates", "g": "enc", "x": exc.__name__, "hit": hit, "r": {"ok": o["ok"], "e": o.get("e", [])},
                           "n": f"{es} raising {exc.__name__}: " + note("encode", st, vs)}
                    p, b = rec.enc(cg.encode, st, vs)
                    if b is not None:
                        o, _ = rec.call(c.decode, st, b)
                        yield {"c": "Propagates", "g": "dec", "x": exc.__name__, "hit": hit,
                               "r": {"ok": o["ok"], "e": o.get("e", [])},
                               "n": f"{es} raising {exc.__name__}: " + note("decode", st, b.hex())}


def plant(rng, ts, vs):
    """one custom value replaced by BAD, if there is one"""
    spots = []

    def find(t, v, path):
        if t[0] == "cst":
            spots.append(path)
        elif t[0] == "arr":
            for i, x in enumerate(v):
                find(t[1], x, path + [i])
        elif t[0] == "tup":
            for i, x in enumerate(v):
                find(t[1][i], x, path + [i])

    def put(v, path):
        if not path:
            return BAD
        v = list(v)
        v[path[0]] = put(v[path[0]], path[1:])
        return v

    for i, t in enumerate(ts):
        find(t, vs[i], [i])
    if not spots:
        return vs, 0
    return put(vs, rng.choice(spots)), 1


def packed_codecs():
    from eth_abi.codec import ABIEncoder
    from eth_abi.packed import registry_packed

    out = []
    for k, es in enumerate(["fn", "obj", "inst", "cls", "partial", "method", "type"]):
        reg = registry_packed.copy()
        for j, name in enumerate(("cst", "cwd")):
            reg.register_encoder(customs.lookup(name, ["str", "base", "fn"][(k + j) % 3]), customs.encoder(name, es))
        out.append((es, ABIEncoder(reg)))
    return out


def events(tier, seed, shard, n):
    yield from booms(tier, seed, shard, n)
    cs = codecs(tier, seed)
    ps = packed_codecs()
    none = {"ok": 0, "e": ["NotCalled"]}
    for i, (g, ts) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        r = rng_for(seed, "c17", i)
        us = [sub(t) for t in ts]
        st, su = strs(ts), strs(us)
        reps = 2 if tier == "quick" else 5
        for label, c in [cs[(i * reps + j) % len(cs)] for j in range(reps)]:
            vs = gen.rvalues(r, us)
            vr = [pv.rec(v) for v in vs]
            en, b = rec.enc(c.encode, st, vs)
            nt = f"coders {label}: " + note("encode", st, vs)
            yield {"c": "Exact", "g": g, "ts": rec.cps(su), "vs": vr, "pk": 0, "r": en, "n": nt}
            rs = rl = none
            if b is not None:
                rs, _ = rec.call(c.decode, st, b)
            yield {"c": "RoundTrip", "g": g, "ts": rec.cps(su), "vs": vr, "en": {"ok": en["ok"]}, "rs": rs, "rl": rs, "n": nt}
            yield from askable(c, label, g, st, su, vs)
            # refused values
            j = r.randrange(len(ts))
            x = spoiled(r, us[j], vs[j])
            ws = list(vs)
            ws[j] = x
            if x is not None and not any(is_bool_on_fixed(t, v) for t, v in zip(us, ws)) and not shapeless(us, ws):
                en, _ = rec.enc(c.encode, st, ws)
                yield {"c": "Accepts", "g": g + "-unfit", "ts": rec.cps(su), "vs": [pv.rec(v) for v in ws], "pk": 0, "r": en,
                       "n": f"coders {label}: " + note("encode", st, ws)}
                yield from askable(c, label, g, st, su, ws)
            # payloads
            pv_ = gen.rvalues(r, us, plain=True)
            b, marks = gen.payload(us, pv_, r if r.random() < 0.4 else None)
            if len(b) > 5000:
                continue
            ms = [("valid", b)] + r.sample(list(gen.mutations(b, marks, r)), 1) * bool(marks) if b else []
            for k, m in ms:
                o, _ = rec.call(c.decode, st, m)
                yield {"c": "StrictDec", "g": g + "-" + k, "ts": rec.cps(su), "b": list(m), "r": o,
                       "n": f"coders {label}: " + note("decode", st, m.hex())}
        if not set().union(*map(customs.names, ts)) & customs.DYN:
            label, c = ps[i % len(ps)]
            vs = gen.rvalues(r, us)
            en, b = rec.enc(c.encode, st, vs)
            # encode() of a packed registry: dynamic parts cannot occur, so it concatenates
            yield {"c": "Exact", "g": g + "-packed", "ts": rec.cps(su), "vs": [pv.rec(v) for v in vs], "pk": 1, "r": en,
                   "n": f"packed coders {label}: " + note("encode", st, vs)}


def shapeless(us, ws):
    return any(type(w).__name__ in ("generator", "list_iterator") for w in ws)


def askable(c, label, g, st, su, vs):
    if len(st) == 1:
        s, u, v = st[0], su[0], vs[0]
    else:
        s, u, v = "(" + ",".join(st) + ")", "(" + ",".join(su) + ")", tuple(vs)
    r, _ = rec.call(c.is_encodable, s, v)
    rt, _ = rec.call(c.is_encodable_type, s)
    e, _ = rec.enc(c.encode, [s], [v])
    yield {"c": "Agrees", "g": g, "t": pv.cps(u), "pk": 0, "r": r, "rt": rt, "en": {"ok": e["ok"]},
           "n": f"coders {label}: " + note("is_encodable", s, v)}
