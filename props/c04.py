from lib import pv, rec, wire
from .units import *
from .typestrs import bad_type_strings, odd_type_strings


def prepare(tier, seed, work):
    wire.generate_given(work)


def units(tier, seed):
    """(group, type string, value)"""
    rng = rng_for(seed, "c04")
    for g, ts, vs in wire.given():
        if len(ts) == len(vs) == 1:
            yield g, tstr(ts[0]), vs[0]
        elif ts:
            yield g, "(" + ",".join(map(tstr, ts)) + ")", vs
    for g, ts, vs in unfit_units(tier, seed, salt="ie"):
        if len(ts) == 1:
            yield g, tstr(ts[0], rng), vs[0]
        elif len(ts) == len(vs):
            if rng.random() < 0.5:
                yield g, "(" + ",".join(tstr(t, rng) for t in ts) + ")", tuple(vs)
            else:
                for t, v in zip(ts, vs):
                    yield g, tstr(t, rng), v
    for g, ts, vs in encode_units(tier, seed, salt="ie", light=True):
        for t, v in zip(ts, vs):
            yield g, tstr(t, rng), v
    vals = [0, 1, -1, True, b"", b"a", "", "a", None, [], (), [1], (1, 2), Decimal(1), "0x" + "00" * 20, [b"a"], {}]
    for s in list(bad_type_strings(rng, tier)) + odd_type_strings():
        for v in (vals if tier == "thorough" else rng.sample(vals, 3)):
            yield "type", s, v
    for n in (0, 1, 2, 3):
        for v in ([], [1] * n, (1,) * n, [True] * n, [b"x"] * n, range(n), deque([1] * n), "x" * n, b"x" * n, [[1]] * n,
                  [(1, b"")] * n, {i: i for i in range(n)}, iter([1] * n)):
            for s in ("uint8[]", "uint8[2]", "bytes[2]", "bytes[]", "bool[1]", "uint8[][2]", "(uint8,bytes)[]",
                      "(uint8,bytes)[2]", "(uint8,uint8)", "(bytes)", "string[]", "string"):
                yield "count", s, v


def events(tier, seed, shard, n):
    from eth_abi import encode, is_encodable, is_encodable_type
    from eth_abi.codec import ABICodec, ABIEncoder
    from eth_abi.packed import default_encoder_packed, encode_packed, is_encodable_packed

    is_encodable_type_packed = default_encoder_packed.is_encodable_type

    groups = ((is_encodable, is_encodable_type, encode), (is_encodable_packed, is_encodable_type_packed, encode_packed))
    for i, (g, s, v) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        for pk, (ie, it, en) in enumerate(groups):
            r, _ = rec.call(ie, s, v)
            rt, _ = rec.call(it, s)
            e, _ = rec.enc(en, [s], [v])
            yield {"c": "Agrees", "g": g, "t": pv.cps(s), "pk": pk, "r": r, "rt": rt, "en": {"ok": e["ok"]},
                   "n": note(ie.__name__, s, v)}
