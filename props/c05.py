from lib import rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work)


def units(tier, seed):
    yield from wire.received()
    yield from word_units(tier, seed)
    yield from payload_units(tier, seed, per=25 if tier == "quick" else None)


def events(tier, seed, shard, n):
    from eth_abi import decode

    for i, (g, ts, b) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        st = strs(ts)
        r, _ = rec.call(decode, st, b)
        yield {"c": "StrictDec", "g": g, "ts": rec.cps(st), "b": list(b), "r": r,
               "n": note("decode", st, b.hex())}
