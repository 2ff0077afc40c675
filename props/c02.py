from lib import rec, pv, wire
from itertools import chain

from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work, False)


def events(tier, seed, shard, n):
    from eth_abi import encode

    for i, (g, ts, vs) in enumerate(chain(wire.sent(), encode_units(tier, seed))):
        if i % n != shard:
            continue
        st = strs(ts, rng_for(seed, i))
        vs2 = [pv.rec(v) for v in vs]
        r, _ = rec.enc(encode, st, vs)
        yield {"c": "Exact", "g": g, "ts": rec.cps(st), "vs": vs2, "pk": 0, "r": r, "n": note("encode", st, vs)}
