from lib import pv, rec, wire
from .units import *


def prepare(tier, seed, work):
    wire.generate_given(work)


def units(tier, seed):
    yield from wire.given()
    yield from unfit_units(tier, seed)
    yield from encode_units(tier, seed, salt="acc", light=True)


def events(tier, seed, shard, n):
    from eth_abi import encode
    from eth_abi.packed import encode_packed
    from eth_abi.registry import registry, registry_packed

    for i, (g, ts, vs) in enumerate(units(tier, seed)):
        if i % n != shard:
            continue
        st = strs(ts)
        vs2 = [pv.rec(v) for v in vs]
        if len(ts) == len(vs) == 1 and ts[0][0] not in ("arr", "tup") and g != "known":
            # the coders themselves, as the registries hand them out
            for pk, reg in enumerate((registry, registry_packed)):
                head = bytes(31) + b"\x20" if not pk and ts[0][0] in ("bytes", "string") else b""
                r, b = rec.enc(lambda t, v: head + reg.get_encoder(t)(v), st[0], vs[0])
                yield {"c": "Accepts", "g": "coder", "ts": rec.cps(st), "vs": vs2, "pk": pk, "r": r, "n": note("get_encoder()", st, vs)}
        for pk, f in enumerate((encode, encode_packed)):
            r, b = rec.enc(f, st, vs)
            ev = {"c": "Accepts", "g": g, "ts": rec.cps(st), "vs": vs2, "pk": pk, "r": r,
                  "n": note(f.__name__, st, vs)}
            if g == "known":
                ev["o"] = b.hex() if b is not None else r["e"][0]
            yield ev
