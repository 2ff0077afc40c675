from lib import pv, rec, wire
from itertools import chain

from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work, False)


def events(tier, seed, shard, n):
    from eth_abi import decode, encode

    for i, (g, ts, vs) in enumerate(chain(wire.sent(), encode_units(tier, seed, salt="rt"))):
        if i % n != shard:
            continue
        st = strs(ts, rng_for(seed, i))
        vs2 = [pv.rec(v) for v in vs]
        en, b = rec.enc(encode, st, vs)
        none = {"ok": 0, "e": ["NotCalled"]}
        rs = rl = none
        if b is not None:
            rs, _ = rec.call(decode, st, b)
            rl, _ = rec.call(decode, st, b, strict=False)
        yield {"c": "RoundTrip", "g": g, "ts": rec.cps(st), "vs": vs2, "en": {"ok": en["ok"]}, "rs": rs,
               "rl": rl, "n": note("encode", st, vs)}
