"""The decoding stream: operation histories enumerated by TLC from FrameStreamMC.tla, and the
stream's state after real decodes."""
from lib import gen, pv, rec, regs
from .units import *


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [
        ("FrameStreamGen_3" if q else "FrameStreamGen_4", []),
        ("FrameStreamSim", ["-simulate", f"num={200 if q else 3000}", "-depth", "27", "-seed", str(seed)]),
    ], module="FrameStreamMC")


def data(n):
    return bytes((i * 7 + 3) % 251 for i in range(n))


def origin(s):
    """Origin of the current frame, found through the public interface."""
    p = s.tell()
    s.seek_in_frame(0)
    g = s.tell()
    s.seek(p)
    return g


def replay(ops, n, probe):
    from eth_abi.decoding import ContextFramesBytesIO

    s = ContextFramesBytesIO(data(n))
    out, depth = [], 0
    for op in ops:
        d = []
        k = op["n"]
        if op["o"] == "read":
            r, v = rec.call(s.read, k)
            d = list(v) if v is not None else []
        elif op["o"] == "seek":
            r, v = rec.call(s.seek, k)
        elif op["o"] == "seekf":
            r, v = rec.call(s.seek_in_frame, k)
        elif op["o"] == "push":
            r, v = rec.call(s.push_frame, k)
            depth += 1
        else:
            r, v = rec.call(s.pop_frame)
            depth = max(0, depth - 1)
        out.append(dict(op, r0={"ok": 1} if r["ok"] else r, d=d, t=s.tell(), g=origin(s) if probe else -1))
    pops = []
    for _ in range(len(ops) + 2):
        try:
            s.pop_frame()
        except IndexError:
            break
        pops.append({"t": s.tell(), "g": origin(s)})
    return out, pops


def events(tier, seed, shard, n):
    from eth_abi.decoding import ContextFramesBytesIO, TupleDecoder
    from eth_abi.registry import registry

    q = tier == "quick"
    i = 0
    for cfg, hs in regs.histories():
        ln = 40 if "Sim" in cfg else 7
        for ops in hs:
            i += 1
            if i % n != shard:
                continue
            for probe in ((0, 1) if "Sim" in cfg else (i // n % 2,)):
                o, pops = replay(ops, ln, probe)
                yield {"c": "Stream", "g": cfg, "len": ln, "ops": o, "pops": pops, "n": "; ".join(f"{x['o']} {x['n']}" for x in ops)}
    # long ones, put together from those, with frames left open
    sims = [ops for cfg, hs in regs.histories() if "Sim" in cfg for ops in hs]
    for j in range(120 if q else 1500):
        if j % n != shard or not sims:
            continue
        r = rng_for(seed, "long", j)
        keep = r.choice([0, 0, 0.1, 0.5, 0.9])
        ops = [op for _ in range(r.choice([5, 10, 20])) for op in r.choice(sims) if op["o"] != "pop" or r.random() < keep]
        o, pops = replay(ops, 300, j % 2)
        yield {"c": "Stream", "g": "long", "len": 300, "ops": o, "pops": pops, "n": "; ".join(f"{x['o']} {x['n']}" for x in ops)}
    for i, (g, ts, b) in enumerate(payload_units(tier, seed, salt="fr", per=3 if q else 20, random_n=900 if q else 12000, shuffle=0.6)):
        if i % n != shard:
            continue
        r = rng_for(seed, "fr", i)
        st = strs(ts)
        for strict in (True, False):
            pre = r.choice([0, 0, 1, 32, 64, 100])
            s = ContextFramesBytesIO(bytes(pre) + b)
            p0 = r.choice([0, 5, 32])
            s.seek(p0)
            o0 = origin(s)
            split = r.choice([0, pre, pre // 2])
            if split:
                s.push_frame(split)
                p0, o0 = s.tell(), origin(s)
                s.push_frame(pre - split)
            else:
                s.push_frame(pre)
            org = s.tell()
            if r.random() < 0.5:
                dec = TupleDecoder(decoders=[registry.get_decoder(t, strict=strict) for t in st])
            else:
                dec = registry.get_decoder("(" + ",".join(st) + ")", strict=strict)
            o, v = rec.call(dec, s)
            if not o["ok"]:
                continue
            t, gg = s.tell(), origin(s)
            pr, _ = rec.call(s.pop_frame)
            yield {"c": "AfterDecode", "g": gg, "grp": g, "ts": rec.cps(st), "r": {"ok": 1}, "org": org, "t": t, "p0": p0, "o0": o0, "pt": s.tell(),
                   "pg": origin(s), "n": note("decode at", pre, st, b.hex(), strict)}
