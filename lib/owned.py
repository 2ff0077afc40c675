"""Replaying histories of ArgsMC.tla."""
from . import pv, rec, regs, wire
from .gen import tstr


def events(shard, n, alone=None):
    """events of histories of calls on objects the caller keeps and changes in between;
    alone(key, f): outcome of a call made alone, for judging answers only"""
    from eth_abi import decode, encode, is_encodable
    from eth_abi.packed import encode_packed

    fill = {"a": [1, 2], "b": [4], "d": [0] * 31 + [64] + [5] + [0] * 31 + [0] * 31 + [3] + [7, 8, 9] + [0] * 29}
    todo = (ops for cfg, hs in regs.histories() if cfg.startswith("Args") for ops in hs)
    for k, ops in enumerate(todo):
        if k % n != shard:
            continue
        h = {x: bytearray(c) for x, c in fill.items()}
        h["l"], h["t"] = [h["a"]], ["bytes", "bytes2"]
        wr = {id(h["a"]): "a", id(h["b"]): "b"}

        def held():
            return {"a": list(h["a"]), "b": list(h["b"]), "l": [wr.get(id(x), "?") for x in h["l"]], "d": list(h["d"]),
                    "t": [{"k": "bytes"} if x == "bytes" else {"k": "bytesN", "n": 2} if x == "bytes2" else {"k": "?"} for x in h["t"]]}

        def call(f, ts, vs):
            if f in ("enc", "packed"):
                return rec.enc(encode if f == "enc" else encode_packed, ts, vs)
            if f == "ask":
                return rec.call(is_encodable, ts[0], vs[0])
            return rec.call(decode, ts, vs[0], strict=f == "dec")

        obs, later = [], []
        for op in ops:
            o = {}
            if op["o"] == "call":
                ts = h["t"] if not op["ts"] else [tstr(wire.typ(t)) for t in op["ts"]]
                vs = [h[x] for x in op["vs"]]
                fresh = [[bytes(y) for y in v] if isinstance(v, list) else bytes(v) for v in vs]
                fts = list(ts)
                o["r"], v = call(op["f"], ts, vs)
                later.append((o, v, op["f"], fts, fresh))
            else:
                poke(h, op["x"], op["w"])
            o["h"] = held()
            obs.append(o)
        for o, v, f, fts, fresh in later:
            o["q"] = call(f, fts, fresh)[0] if alone is None else alone((f, tuple(fts), repr(fresh)), lambda: call(f, fts, fresh)[0])
            z = dict(o["r"])
            if z["ok"] and "b" in z:
                z["b"] = list(v)
            elif z["ok"]:
                z["v"] = pv.rec(v)
            o["z"] = z
        brief = "; ".join(f"{o['x']}.{o['w']}" if o["o"] == "poke" else f"{o['f']}({'t' if not o['ts'] else ','.join(tstr(wire.typ(t)) for t in o['ts'])}; {','.join(o['vs'])})"
                          for o in ops)
        if alone is not None:
            yield {"c": "Sames", "g": f"owned{len(ops)}", "x": [{"r": o["r"], "q": o["q"]} for o in obs if "r" in o], "n": brief}
            continue
        yield {"c": "ArgsHistory", "g": f"owned{len(ops)}", "ops": ops, "obs": obs, "n": brief}


def poke(h, x, w):
    v = h[x]
    try:
        if x in "ab":
            if w == "flip" and v:
                v[0] ^= 255
            elif w == "grow":
                v.append(9)
            elif w == "clear":
                del v[:]
        elif x == "l":
            if w in ("adda", "addb"):
                v.append(h[w[-1]])
            elif v:
                v.pop()
        elif x == "d":
            if w == "grow":
                v.extend(b"\xff" * 32)
            elif w == "cut":
                if len(v) >= 32:
                    del v[-1]
            else:
                i = 96 if w == "flip" else 127
                if i < len(v):
                    v[i] ^= 255
        elif w == "add":
            v.append("bytes")
        elif w == "turn":
            v.reverse()
        elif v:
            v.pop()
    except BufferError:
        pass
