from lib import gen, pv, rec
from .units import *

MARK = int.from_bytes(bytes(range(0xC0, 0xE0)), "big")


def types(tier, seed):
    rng = rng_for(seed, "lay")
    for t in elementary(tier, rng):
        yield t
        for n in (None, 1, 3):
            yield ("arr", t, n)
        yield ("tup", [t])
    for D in LEAF_D:
        for S in LEAF_S:
            for ts in gen.shapes(D, S):
                yield ("tup", ts) if len(ts) > 1 else ts[0]
            for dims in ((None, 2), (2, None), (2, 2), (2, None, 2), (1, 2, 3), (None, None), (2, 1, None), (None, 1, 2)):
                for base in (D, S, ("tup", [S, D]), ("tup", [S, S]), ("tup", [("tup", [S]), ("arr", S, 2)])):
                    t = base
                    for d in dims:
                        t = ("arr", t, d)
                    yield t
    U8, T = ("uint", 8), lambda *c: ("tup", list(c))
    for k in (10, 16, 31, 32, 33, 64, 65, 100, 128, 255, 256, 257, 300):  # many items or components
        for t in (U8, ("string",), ("bytes",), T(U8, ("bytes",)), ("arr", U8, None), T(U8)):
            yield ("arr", t, k)
            if k in (10, 33, 256):
                yield ("arr", ("arr", t, k), 1)
                yield T(("arr", t, k), U8)
        if k < 70:
            yield T(*[U8] * k)
            yield T(*[U8] * k, ("string",))
            yield T(*[("bytes",)] * k)
            yield T(("string",), *[U8] * k)
    for i in range(1500 if tier == "quick" else 40000):
        r = rng_for(seed, "lay", i)
        yield gen.rtype(r, depth=r.choice([1, 2, 3, 4, 5]))


def events(tier, seed, shard, n):
    from eth_abi import decode, encode
    from eth_abi.grammar import parse
    from eth_abi.registry import registry

    flag = lambda x: 1 if x is True else 0 if x is False else 2
    deep = [(t, v) for t, v, _ in deep_units(tier, seed, "lay")]
    for i, (t, w) in enumerate([(t, None) for t in types(tier, seed)] + deep):
        if i % n != shard:
            continue
        r = rng_for(seed, "layv", i)
        s = tstr(t, r)
        bs, ds = [], []
        for _ in range(1 if w is not None or len(s) < 20 and t[0] == "arr" and (t[2] or 0) > 50 else 3):
            v = gen.rvalue(r, t) if w is None else w
            en, b = rec.enc(encode, [s, "uint256"], [v, MARK])
            if b is None:
                bs.append([])
                continue
            bs.append(list(b))
            o, d = rec.call(decode, [s, "uint256"], gen.payload([t, ("uint", 256)], [v, MARK])[0])
            ds.append(list(d[1].to_bytes(32, "big")) if o["ok"] and len(d) == 2 and type(d[1]) is int and 0 <= d[1] < 2**256 else [])
        yield {"c": "Layout", "g": t[0], "t": pv.cps(s), "pd": flag(parse(s).is_dynamic),
               "ed": flag(registry.get_encoder(s).is_dynamic), "dd": flag(registry.get_decoder(s).is_dynamic),
               "bs": bs, "ds": ds, "m": list(MARK.to_bytes(32, "big")), "n": f"layout of {s}"}
