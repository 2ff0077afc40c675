from lib import rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate(tier, seed, work)


def units(tier, seed):
    yield from wire.received()
    yield from payload_units(tier, seed, kinds=("off",), salt="ptr", per=14 if tier == "quick" else None, shuffle=0.4)
    U, B = ("uint", 256), ("bytes",)
    A = lambda t, n=None: ("arr", t, n)
    T = lambda *c: ("tup", list(c))
    # containers with large heads, so that offsets into them are likely to hit something
    for k in (1, 2, 3, 5, 9):
        for ts in ([A(U, k), B], [T(*[U] * k), B, A(U)], [T(T(*[U] * k), B)], [A(T(A(U, k), B))], [A(T(A(U, k), B), 2)],
                   [A(A(B, k))], [A(A(B), k)], [T(A(A(U, k), 2), B, U, A(B))], [T(B, A(T(*[U] * k), 2))]):
            r = rng_for(seed, "heads", k, repr(ts))
            vs = gen.rvalues(r, ts, plain=True)
            b, marks = gen.payload(ts, vs)
            offs = [m for m in marks if m.kind == "off"]
            if len(offs) > 8:
                offs = r.sample(offs, 8)
            for m in offs:
                for v in range(0, m.head_end - m.org + 65, 8 if tier == "thorough" else 16):
                    yield "head", ts, gen.put(b, m.pos, gen.w32(v))
    # containers deep inside others
    for d in range(1, 13):
        for k in range(4 if tier == "quick" else 12):
            r = rng_for(seed, "deep", d, k)
            t, v = r.choice([(B, b"ab"), (T(U, B), (5, b"xyz")), (A(U), [1, 2]), (A(B, 2), [b"", b"q"])])
            for _ in range(d):
                w = r.randrange(5 if k else 1)
                if w < 3:
                    t, v = (A(t), [v]) if w < 2 else (A(t, 1), [v])
                else:
                    t, v = (T(t), (v,)) if w == 3 else (T(U, t), (7, v))
            b, marks = gen.payload([t], [v])
            offs = [m for m in marks if m.kind == "off"]
            yield "deep", [t], b
            for m in offs[-2:] + r.sample(offs, min(len(offs), 2)):
                he = m.head_end - m.org
                for x in r.sample([0, 1, he - 32, he - 1, len(b) - m.org, len(b) - m.org - 1, m.val + 32, 2**256 - 32, 2**64], 4 if tier == "quick" else 9):
                    if x >= 0:
                        yield "deep", [t], gen.put(b, m.pos, gen.w32(x))
    # many items
    for k in (33, 65, 100, 130, 200, 260, 520) + ((1100,) if tier == "thorough" else ()):
        for ts in ([A(B)], [A(B, k)], [A(T(U, B))], [B] * k) if k > 200 else ([T(*[U] * k, B)], [T(*[B, U] * (k // 2))], [U] * k + [B], [B] * k, [A(B, k)], [A(B)], [A(T(U, B), k // 2)], [A(A(U), k // 3)]):
            r = rng_for(seed, "wide", k, len(ts), repr(ts[:1]))
            if ts == [A(T(U, B))]:
                b, marks = gen.payload(ts, [[(i, b"x" * (i % 3)) for i in range(k)]])
            elif ts == [A(B)]:
                b, marks = gen.payload(ts, [[b"x" * (i % 3) for i in range(k)]])
            else:
                b, marks = gen.payload(ts, gen.rvalues(r, ts, plain=True))
            offs = [m for m in marks if m.kind == "off"]
            inner = [m for m in offs if m.head_end == max(x.head_end for x in offs) or m.org]
            yield "wide", ts, b
            for m in offs[-2:] + r.sample(offs, min(len(offs), 2)) + inner[-2:]:
                he = m.head_end - m.org
                for v in r.sample([0, 32, he - 32, he - 1, len(b) - m.org, len(b) - m.org - 1, m.val - 32, m.val - 1, 2**256 - 32, m.pos - m.org], 4):
                    if v >= 0:
                        yield "wide", ts, gen.put(b, m.pos, gen.w32(v))


def events(tier, seed, shard, n):
    from eth_abi import decode

    for i, (g, ts, b) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        st = strs(ts)
        for strict in (1, 0):
            r, _ = rec.call(decode, st, b, strict=bool(strict))
            yield {"c": "Pointers", "g": g, "ts": rec.cps(st), "b": list(b), "st": strict, "r": r,
                   "n": note("decode", st, b.hex(), bool(strict))}
