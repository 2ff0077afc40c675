from lib import rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work)


def units(tier, seed):
    yield from wire.received()
    q = tier == "quick"
    yield from payload_units(tier, seed, salt="rec", per=12 if q else None, random_n=2200 if q else 12000, shuffle=0.7)
    yield from word_units(tier, seed)


def events(tier, seed, shard, n):
    from eth_abi import decode, encode
    from eth_abi.packed import encode_packed

    for i, (g, ts, b) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        st = strs(ts, rng_for(seed, "rec", i))
        for strict in (True, False):
            r, v = rec.call(decode, st, b, strict=strict)
            if not r["ok"]:
                continue
            en, e = rec.enc(encode, st, v)
            pk, _ = rec.enc(encode_packed, st, v)
            r2 = {"ok": 0, "e": ["NotCalled"]}
            if e is not None:
                r2, _ = rec.call(decode, st, e)
            yield {"c": "Recode", "g": g, "ts": rec.cps(st), "r": r, "en": {"ok": en["ok"]}, "pk": {"ok": pk["ok"]},
                   "r2": r2, "n": note("decode", st, b.hex(), strict)}
