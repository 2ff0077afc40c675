"""Behaviours of Wire.tla (values sent, bytes tampered with) and Decoder.tla (words received) for replay into the library."""
from decimal import Decimal

from . import regs
from .gen import scaled


def generate(tier, seed, work, tampered=True):
    q = tier == "quick"
    n = 1200 if q else 20000
    jobs = [("WireGen_0", [])]
    if tampered:
        jobs += [(f"WireGen_{k}", ["-simulate", f"num={n}", "-depth", "5", "-seed", str(seed)]) for k in (1, 2)]
        jobs.append(("DecoderGen", ["-simulate", f"num={2 * n}", "-depth", "60", "-seed", str(seed)], "Decoder"))
    regs.generate(work, jobs, module="Wire")


def generate_given(work, more=()):
    """Values given to the encoder, good and bad (Encoder.tla)."""
    regs.generate(work, [("EncoderGen_shape", [])] + list(more), module="Encoder")


def py(r):
    """The Python value a record stands for."""
    k = r["k"]
    if k == "int":
        return int.from_bytes(bytes(r["m"]), "big") * (-1 if r["s"] else 1)
    if k == "bool":
        return bool(r["x"])
    if k == "dec":
        return Decimal((r["s"], tuple(r["d"]), r["e"]))
    if k == "decs":
        return Decimal(r["z"])
    if k == "bytes":
        return bytes(r["b"])
    if k == "str":
        return "".join(map(chr, r["c"]))
    if k == "seq":
        return [py(x) for x in r["i"]]
    return None


def given():
    """(group, types, values): not all encodable"""
    for cfg, hs in regs.histories():
        if cfg.startswith("EncoderGen"):
            for h in hs:
                yield "given", [typ(t) for t in h["ts"]], [py(v) for v in h["vs"]]


def typ(t):
    k = t["k"]
    if k == "arr":
        return ("arr", typ(t["t"]), None if t["n"] == -1 else t["n"])
    if k == "tup":
        return ("tup", [typ(c) for c in t["c"]])
    return tuple([k] + [t[f] for f in ("n", "p") if f in t])


def val(t, a):
    k = t[0]
    if k in ("uint", "int", "fixed", "ufixed"):
        i = int.from_bytes(bytes(a["m"]), "big") * (-1 if a["s"] else 1)
        return i if k in ("uint", "int") else scaled(i, t[2])
    if k == "bool":
        return bool(a)
    if k == "address":
        return "0x" + bytes(a).hex()
    if k == "string":
        return bytes(a).decode()
    if k == "arr":
        return [val(t[1], x) for x in a]
    if k == "tup":
        return tuple(val(c, x) for c, x in zip(t[1], a))
    return bytes(a)


def sent():
    """(group, types, values)"""
    for cfg, hs in regs.histories():
        if cfg == "WireGen_0":
            for h in hs:
                ts = [typ(t) for t in h["ts"]]
                yield "sent", ts, [val(t, a) for t, a in zip(ts, h["as"])]


def received():
    """(group, types, payload)"""
    for cfg, hs in regs.histories():
        if cfg.startswith(("WireGen", "DecoderGen")):
            for h in hs:
                yield "+".join(["wire"] + h["ops"]), [typ(t) for t in h["ts"]], bytes(h["wire"])
