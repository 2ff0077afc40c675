from lib import gen, pv, rec
from .c13 import prepare, typed  # noqa: F401
from .typestrs import *
from .units import elementary


def events(tier, seed, shard, n):
    from eth_abi import decode, encode, is_encodable_type
    from eth_abi.grammar import normalize, parse
    from eth_abi.packed import default_encoder_packed, encode_packed

    is_encodable_type_packed = default_encoder_packed.is_encodable_type

    q = tier == "quick"

    def norm(s):
        r, v = rec.call(normalize, s)
        r2, _ = rec.call(normalize, v) if isinstance(v, str) else (r, None)
        return {"c": "Normalizing", "g": "", "s": pv.cps(s), "r": r, "r2": r2, "n": f"normalize({pv.brief(s)})"}

    def use(s):
        vd, _ = rec.call(lambda: parse(normalize(s)).validate())
        it, _ = rec.call(is_encodable_type, s)
        itp, _ = rec.call(is_encodable_type_packed, s)
        de, _ = rec.call(decode, [s], b"")
        return {"c": "Usable", "g": "", "s": pv.cps(s), "vd": {"ok": 1} if vd["ok"] else vd, "it": it, "itp": itp,
                "de": {"ok": 1} if de["ok"] else de, "n": f"type {pv.brief(s)}"}

    def strings():
        rng = rng_for(seed, "use")
        yield from grid()
        yield from odd_type_strings()
        yield from typed()
        for k in ("uint", "int"):
            for m in range(1, 300):
                yield f"{k}{m}"
        for m in range(1, 70):
            yield f"bytes{m}"
        for m in list(range(1, 290, 1 if not q else 5)) + [8, 16, 256, 255, 257]:
            for p in (1, 2, 18, 79, 80, 81, 100, 256):
                yield f"{rng.choice(['fixed', 'ufixed'])}{m}x{p}"
        for p in range(1, 130):
            yield f"fixed128x{p}"
            yield f"ufixed8x{p}"
        bad = ["bool8", "uint7", "bytes33", "string1", "address1", "fixed8x81", "foo", "int257", "byte1", "function1", "fixed8", "bytes8x1"]
        for i in range(1200 if q else 30000):
            r = rng_for(seed, "use", i)
            s = rstr(r)
            yield s
            yield mutate(r, s)
            words = [w for w in ("uint8", "bool", "string", "bytes", "address", "int256", "uint256") if w in s]
            if words:  # one illegal part deep inside
                yield s.replace(r.choice(words), r.choice(bad), 1)

    def aliased():
        """(alias string, canonical string, values)"""
        AL = [("uint", 256), ("int", 256), ("fixed", 128, 18), ("ufixed", 128, 18), ("bytesN", 24), ("bytesN", 1)]
        for i in range(500 if q else 10000):
            r = rng_for(seed, "alias", i)

            def sub(t):
                if t[0] == "arr":
                    return ("arr", sub(t[1]), t[2])
                if t[0] == "tup":
                    return ("tup", [sub(c) for c in t[1]])
                return r.choice(AL) if r.random() < 0.7 else t

            t = sub(gen.rtype(r, depth=r.choice([0, 1, 2, 3])))
            yield tstr(t, r), tstr(t), gen.rvalue(r, t), t, r

    i = 0
    seen = set()
    for s in strings():
        if s in seen or len(s) > 600:
            continue
        seen.add(s)
        i += 1
        if i % n == shard:
            yield use(s)
            if all(ord(c) < 128 or c in "éλ٥国" for c in s):
                yield norm(s)
    for j in range(2000 if q else 50000):
        if j % n == shard:
            yield norm(odd_words(rng_for(seed, "norm", j)))
    for j, d in enumerate((2, 3, 5, 9, 17, 33, 65, 127, 128, 129, 200, 255, 256, 257, 258, 300, 513) + ((1025,) if not q else ())):
        if j % n == shard:
            yield norm("(" + ",".join(["int"] * d) + ")")
            yield norm(",".join(["uint8", "byte", "(function", "ufixed[2]"] * (d // 2 + 1)))
            yield norm("x" * d + "int" + "y" * d + " int " + "z" * d)
            yield use("(" + ",".join(["byte"] * d) + ")[2]")
            if d < 300:
                yield use("bool" + "[1]" * min(d, 60))
    for j, (s, ns, v, t, r) in enumerate(aliased()):
        if j % n != shard or s == ns:
            continue
        bad = gen.mutate_many(*(gen.payload([t], [v]) + (r, 2)))
        e1, b1 = rec.enc(encode, [s], [v])
        e2, b2 = rec.enc(encode, [ns], [v])
        p1, p2 = rec.enc(encode_packed, [s], [v])[0], rec.enc(encode_packed, [ns], [v])[0]
        ds1 = [rec.call(decode, [s], b)[0] for b in (b2 or b"", bad)]
        ds2 = [rec.call(decode, [ns], b)[0] for b in (b2 or b"", bad)]
        yield {"c": "AliasSame", "g": "", "s": pv.cps(s), "ns": pv.cps(ns), "r": [e1, p1, ds1], "q": [e2, p2, ds2],
               "n": f"{s} / {ns}: {pv.brief(v)}"}
