from lib import gen, owned, pv, rec, regs
from .units import *


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [("ArgsGen_2", []), ("ArgsGen_again", []),
                         ("ArgsSim_again", ["-simulate", f"num={100 if q else 3000}", "-depth", "13", "-seed", str(seed)]), ("ArgsSim", ["-simulate", f"num={150 if q else 3000}", "-depth", "13", "-seed", str(seed)])], module="ArgsMC")


def kind(x):
    for k in (list, tuple, bytes, bytearray):
        if isinstance(x, k):
            return k.__name__
    return "other"


def mutable(t, v, rng):
    """v with mutable containers where the type allows them"""
    if t[0] in ("arr", "tup") and isinstance(v, (list, tuple)):
        cs = t[1] if t[0] == "tup" else [t[1]] * len(v)
        return [mutable(c, x, rng) for c, x in zip(cs, v)] + list(v[len(cs):])
    if t[0] in ("bytes", "bytesN", "address") and isinstance(v, bytes):
        return bytearray(v)
    return v


def frozen(v):
    if isinstance(v, list):
        return tuple(frozen(x) for x in v)
    if isinstance(v, bytearray):
        return bytes(v)
    return v


def ids(v):
    if isinstance(v, (list, tuple, deque)):
        return [str(id(v)), [ids(x) for x in v]]
    if isinstance(v, dict):
        return [str(id(v)), [[ids(k), ids(x)] for k, x in v.items()]]
    return [str(id(v))]


def snap(*a):
    return [[pv.rec(x), ids(x), type(x).__name__] for x in a]


def wreck(v):
    """Overwrite every mutable part; 0 if some buffer refuses."""
    ok = 1
    if isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] ^= 0xFF
        try:
            v.append(1)
            v.extend(bytes(100))
            del v[:]
        except BufferError:
            ok = 0
    elif isinstance(v, (list, tuple)):
        for x in v:
            ok &= wreck(x)
        if isinstance(v, list):
            v.clear()
    elif isinstance(v, dict):
        v.clear()
    return ok


class L(list):
    pass


def arg_events():
    from eth_abi import decode, encode
    from eth_abi.packed import encode_packed

    types = [["uint8"], ("uint8",), [], ["bogus!"], ["uint7"], ["nope"], None, "uint8", b"uint8", {"uint8"}, {"uint8": 1}, iter(["uint8"]),
             (x for x in ["uint8"]), 1, deque(["uint8"]), frozenset(["uint8"]), range(1), object(), True, bytearray(b"x"), {}.keys()]
    vals = [[1], (1,), [], ["x"], None, "1", b"1", {1}, {1: 1}, iter([1]), (x for x in [1]), 1, deque([1]), frozenset([1]), range(1), object(),
            bytearray(b"1"), memoryview(b"1"), "", b"", {}, set(), 0, False, {1: 1}.values()]
    data = [bytes(32), bytearray(32), b"", "", "00" * 32, "0x" + "00" * 32, None, 0, [0] * 32, (0,) * 32, memoryview(bytes(32)), object(),
            True, {}, iter(b""), range(32), deque([0]), "\0" * 32]
    import array
    import io

    data += [array.array("B", bytes(32)), io.BytesIO(bytes(32))]
    for f in (encode, encode_packed):
        for t in types:
            for v in vals:
                yield f, t, v
    for t in types:
        for d in data:
            yield decode, t, d


def events(tier, seed, shard, n):
    from eth_abi import decode, encode, is_encodable
    from eth_abi.packed import encode_packed, is_encodable_packed

    q = tier == "quick"
    yield from owned.events(shard, n)
    for i, (f, t, v) in enumerate(arg_events()):
        kt, kv = kind(t), kind(v)
        good = kt in ("list", "tuple") and kv in (("bytes", "bytearray") if f is decode else ("list", "tuple"))
        if i % n != shard or good:
            continue
        r, _ = rec.call(f, t, v)
        yield {"c": "ArgKinds", "g": f.__name__, "f": f.__name__, "kt": kt, "kv": kv, "r": {"ok": 1} if r["ok"] else r,
               "n": note(f.__name__, t, v)}

    def units():
        yield from encode_units(tier, seed, salt="bnd", light=True)
        yield from unfit_units(tier, seed, salt="bnd")

    for i, (g, ts, vs) in enumerate(units()):
        if i % n != shard:
            continue
        r = rng_for(seed, "bnd", i)
        if q and r.random() < 0.65:
            continue
        st = strs(ts, r)
        for f in (encode, encode_packed):
            # wrong numbers of values
            if len(vs) and g in ("shape", "random", "big") and r.random() < 0.5:
                for w in (vs[:-1], vs + [0], vs + [vs[-1]], []):
                    o, _ = rec.enc(f, st, w)
                    yield {"c": "Counts", "g": f.__name__, "nt": len(st), "nv": len(w), "r": {"ok": 1} if o["ok"] else o,
                           "n": note(f.__name__, st, w)}
                o, _ = rec.enc(f, st + ["uint8"], vs)
                yield {"c": "Counts", "g": f.__name__, "nt": len(st) + 1, "nv": len(vs), "r": {"ok": 1} if o["ok"] else o,
                       "n": note(f.__name__, st + ["uint8"], vs)}
            mv = [mutable(t, v, r) for t, v in zip(ts, vs)]
            fv = frozen(mv)
            rs = [rec.enc(f, a, b)[0] for a, b in ((st, mv), (tuple(st), mv), (st, fv), (tuple(st), fv), (L(st), L(mv)))]
            yield {"c": "Alike", "g": f.__name__, "rs": rs, "n": note(f.__name__, st, mv)}
            before = snap(st, mv)
            o, b = rec.enc(f, st, mv)
            after = snap(st, mv)
            mv2 = [mutable(t, v, r) for t, v in zip(ts, frozen(mv))]
            o2, b2 = rec.enc(f, st, mv2)
            rz = wreck(mv2)
            w = {"ok": 1, "b": list(b2), "y": type(b2).__name__} if b2 is not None else o2
            yield {"c": "Untouched", "g": f.__name__, "b": before, "a": after, "v": o2, "w": w, "rz": rz, "n": note(f.__name__, st, mv)}
        # the encodability checks
        for ie in (is_encodable, is_encodable_packed):
            j = r.randrange(len(st)) if st else None
            if j is not None and j < len(mv):
                before = snap(mv[j])
                o, _ = rec.call(ie, st[j], mv[j])
                yield {"c": "Untouched", "g": "is_encodable", "b": before, "a": snap(mv[j]), "v": o, "w": o, "rz": 1,
                       "n": note(ie.__name__, st[j], mv[j])}
                o2, _ = rec.call(ie, st[j], frozen(mv[j]))
                yield {"c": "Alike", "g": "is_encodable", "rs": [o, o2], "n": note(ie.__name__, st[j], mv[j])}

    for i, (g, ts, b) in enumerate(payload_units(tier, seed, salt="bnd", per=4 if q else 30, random_n=500 if q else 8000, shuffle=0.3)):
        if i % n != shard:
            continue
        r = rng_for(seed, "bnd2", i)
        st = strs(ts, r)
        for strict in (True, False):
            rs = [rec.call(decode, a, d, strict=strict)[0] for a, d in ((st, b), (tuple(st), b), (st, bytearray(b)), (tuple(st), MyBytes(b)))]
            yield {"c": "Alike", "g": "decode", "rs": rs, "n": note("decode", st, b.hex(), strict)}
            d = bytearray(b)
            before = snap(st, d)
            o, v = rec.call(decode, st, d, strict=strict)
            after = snap(st, d)
            rz = wreck(d)
            w = {"ok": 1, "v": pv.rec(v)} if v is not None else o
            yield {"c": "Untouched", "g": "decode", "b": before, "a": after, "v": o, "w": w, "rz": rz, "n": note("decode", st, b.hex(), strict)}
