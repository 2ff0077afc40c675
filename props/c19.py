from lib import rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work)

OUT = {"ok": 0, "e": []}


def sufs(r, b):
    more = []
    if r.random() < 0.05:  # long ones: more than the payload, or past a round total
        more = [r.randbytes(r.choice([300, 1024, 4096])), b"\0" * r.choice([255, 256, 4095, 65536]), b + b]
    if r.random() < 0.1:
        more.append(b"\0" * ((-len(b)) % 4096 + r.choice([0, 1])))
    return more + [b"\0", b"\1", bytes(32), r.randbytes(r.choice([1, 31, 32, 33, 64])), b"\xff" * 31, gen.w32(32) + r.randbytes(40)]


def units(tier, seed):
    """payloads to extend"""
    yield from wire.received()
    q = tier == "quick"
    yield from payload_units(tier, seed, salt="suf", per=6 if q else 40, random_n=500 if q else 8000, shuffle=0.5)


def events(tier, seed, shard, n):
    from eth_abi import decode, encode

    q = tier == "quick"
    for i, (g, ts, b) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        st = strs(ts)
        r = rng_for(seed, "suf", i)
        for strict in (True, False):
            o, _ = rec.call(decode, st, b, strict=strict)
            if not o["ok"]:
                continue
            x = [rec.call(decode, st, b + s, strict=strict)[0] for s in sufs(r, b)]
            yield {"c": "Suffix", "g": g, "r": o, "x": x, "n": note("decode", st, b.hex(), strict)}
    for i, (g, ts, vs) in enumerate(encode_units(tier, seed, salt="pre", light=True)):
        if i % n != shard:
            continue
        st = strs(ts)
        r = rng_for(seed, "pre", i)
        en, b = rec.enc(encode, st, vs)
        if b is None:
            continue
        L = len(b)
        cuts = set(range(L)) if L <= (320 if q else 1024) else (
            {0, 1, 31, 32, 33} | {L - k for k in range(1, 66)} | {r.randrange(L) for _ in range(60)})
        x = []
        for c in sorted(cuts):
            o, _ = rec.call(decode, st, b[:c])
            x.append({"ok": o["ok"]})
        yield {"c": "Prefix", "g": g, "x": x, "n": note("prefixes of encode", st, vs)}
