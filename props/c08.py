from lib import rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work)


def units(tier, seed):
    yield from wire.received()
    q = tier == "quick"
    yield from payload_units(tier, seed, kinds=("pad", "cut"), salt="len", per=16 if q else None,
                             random_n=1500 if q else 12000, shuffle=0.3)
    yield from payload_units(tier, seed, kinds=("word", "len", "count", "off", "content", "ext"), salt="len2", per=8 if q else 40,
                             random_n=800 if q else 4000)
    for i in range(1000 if q else 6000):
        r = rng_for(seed, "len3", i)
        ts = gen.rtypes(r, depth=r.choice([1, 2, 3]))
        vs = gen.rvalues(r, ts, plain=True)
        b, marks = gen.payload(ts, vs, r if r.random() < 0.4 else None)
        pads = [m for m in marks if m.kind == "pad" and m.n]
        for m in pads:  # dirty padding everywhere, then one more fault on top
            b = gen.put(b, m.pos, r.randbytes(m.n)[: max(0, len(b) - m.pos)])
        yield "allpads", ts, b
        if pads:
            last = max(pads, key=lambda m: m.pos)
            yield "allpads", ts, b[: last.pos]
            yield "allpads", ts, b[: last.pos - 1] if last.pos else b
        yield "allpads", ts, gen.mutate_many(b, marks, r, 1)


def events(tier, seed, shard, n):
    from eth_abi import decode

    for i, (g, ts, b) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        st = strs(ts)
        rs, _ = rec.call(decode, st, b, strict=True)
        rl, _ = rec.call(decode, st, b, strict=False)
        yield {"c": "Lenient", "g": g, "ts": rec.cps(st), "b": list(b), "rs": rs, "rl": rl, "n": note("decode", st, b.hex())}
