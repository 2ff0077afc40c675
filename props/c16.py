from itertools import chain

from lib import pv, rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work, False)


def events(tier, seed, shard, n):
    from eth_abi.packed import encode_packed

    for i, (g, ts, vs) in enumerate(chain(wire.sent(), encode_units(tier, seed, salt="pk"))):
        if i % n != shard:
            continue
        st = strs(ts, rng_for(seed, i))
        vs2 = [pv.rec(v) for v in vs]
        r, _ = rec.enc(encode_packed, st, vs)
        yield {"c": "Exact", "g": g, "ts": rec.cps(st), "vs": vs2, "pk": 1, "r": r,
               "n": note("encode_packed", st, vs)}
