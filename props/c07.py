from lib import rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work)


def units(tier, seed):
    yield from wire.received()
    q = tier == "quick"
    yield from payload_units(tier, seed, salt="tot", per=18 if q else None, random_n=1500 if q else 12000, shuffle=0.3)
    yield from word_units(tier, seed)
    for i in range(6000 if q else 60000):
        r = rng_for(seed, "tot", "noise", i)
        ts = gen.rtypes(r, depth=r.choice([0, 1, 2, 3, 4]))
        n = r.choice([0, 1, 5, 31, 32, 33, 64, 96, 128, 160, 256, 320, 511])
        p = r.random()
        if p < 0.3:
            b = r.randbytes(n)
        elif p < 0.9:  # words that are plausible offsets, lengths, or extreme
            pool = [0, 1, 2, 3, 32, 64, 96, 128, 160, 31, 33, n, max(0, n - 32)] + gen.BIGS
            b = b"".join(gen.w32(r.choice(pool)) for _ in range(n // 32)) + r.randbytes(n % 32)
        else:
            b = bytes([r.choice([0, 0xFF, 0x80])]) * n
        yield "noise", ts, b
    U, B = ("uint", 8), ("bytes",)
    for dim in (100, 10**4, 10**6, 10**9, 2**31, 2**63, 2**64, 10**30):  # payload far too short for the type
        for ts in ([("arr", U, dim)], [("arr", B, dim)], [("arr", ("tup", [U, B]), dim)], [("tup", [("arr", B, dim), B])],
                   [("arr", ("arr", U, dim), 2)], [("arr", ("arr", B, dim), None)], [B, ("arr", U, dim)]):
            for b in (b"", gen.w32(32) + gen.w32(1) + gen.w32(32) + gen.w32(0), bytes(320), b"\xff" * 96,
                      gen.w32(32) * 6, gen.w32(64) * 9):
                yield "dim", ts, b


def events(tier, seed, shard, n):
    from eth_abi import decode

    for i, (g, ts, b) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        st = strs(ts)
        for strict in (True, False):
            r, _ = rec.call(decode, st, b, strict=strict)
            if r["ok"] and r["v"].get("k") == "seq":  # the shape is all this property asks about
                r["v"]["i"] = [{"k": "any"} for _ in r["v"]["i"]]
            yield {"c": "Total", "g": g, "ts": rec.cps(st), "r": r, "n": note("decode", st, b.hex(), strict)}
