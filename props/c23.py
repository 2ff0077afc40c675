from lib import gen, pv, rec
from .units import *

HANDLERS = ["strict", "replace", "ignore", "backslashreplace", "surrogateescape", "surrogatepass",
            "verif.count", "verif.step", "verif.skip", "verif.rest"]
# handlers of our own: text and number of bytes it stands for
OWN = {
    "verif.count": lambda e: ("<%d>" % (e.end - e.start), e.end),
    "verif.step": lambda e: ("?", e.start + 1),
    "verif.skip": lambda e: (".", min(e.end + 1, len(e.object))),
    "verif.rest": lambda e: ("!", len(e.object)),
}
EDGE = [0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
        0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFC, 0xFE, 0xFF]
S = ("string",)
# (type with the text in it, value around the content, path to the text)
WRAPS = [
    (S, lambda c: c, ()),
    (("tup", [("uint", 8), S]), lambda c: (7, c), (1,)),
    (("arr", S, None), lambda c: [b"ok", c, b""], (1,)),
    (("arr", S, 2), lambda c: [c, b"zz"], (0,)),
    (("arr", ("tup", [("bytes",), ("arr", S, None)]), None), lambda c: [(b"q", []), (b"w", [c])], (1, 1, 0)),
    (("tup", [("tup", [S]), S]), lambda c: ((b"a",), c), (1,)),
]


def raw(t):
    """t with bytes for string, to lay out arbitrary content"""
    if t == S:
        return ("bytes",)
    if t[0] == "arr":
        return ("arr", raw(t[1]), t[2])
    if t[0] == "tup":
        return ("tup", [raw(c) for c in t[1]])
    return t


def contents(tier, seed):
    q = tier == "quick"
    for a in range(256):
        yield bytes([a])
    for a in EDGE:
        for b in EDGE:
            yield bytes([a, b])
    r = rng_for(seed, "utf")
    leads = [0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xC1, 0xF8]
    conts = [0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0x41]
    for a in leads:
        for b in conts:
            for c in conts:
                yield bytes([a, b, c])
                if not q or r.random() < 0.3:
                    for d in conts:
                        yield bytes([a, b, c, d])
    for t in gen.TEXTS:
        yield t.encode()
    for cp in (0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0xFEFF):
        yield chr(cp).encode() * 3
    for pos in (0, 10, 30, 31, 32, 33, 62, 63, 64):  # a fault at or across word boundaries
        for bad in (b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", "€".encode(),
                    b"\x80", b"\xe2\x82\xac\xac"):
            yield b"a" * pos + bad
            yield b"a" * pos + bad + b"z" * r.choice([1, 5, 40])
    for n in (255, 1023, 4095, 8191) if q else (255, 511, 1023, 2047, 4095, 8191, 16383):  # long texts, with a sequence across a round position
        for k, mid in enumerate((b"\xff", b"\xc3", b"\xe2\x82", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"")):
            yield b"a" * (n - k % 3) + mid + b"z" * r.choice([0, 1, 3, 700])
        yield b"a" * r.choice([0, 1, 2]) + "é€😀".encode() * (n // 9) + r.choice([b"", b"\xe2\x82", b"\x80z"])
    for i in range(1500 if q else 40000):
        r = rng_for(seed, "utf", i)
        n = r.choice([3, 4, 5, 8, 20, 31, 32, 33])
        if r.random() < 0.3:
            yield bytes(r.choice(EDGE) for _ in range(n))
        else:
            b = bytearray(gen.rtext(r, r.choice([1, 3, 8, 20])).encode())
            for _ in range(r.choice([0, 1, 1, 2])):
                if b:
                    i = r.randrange(len(b))
                    p = r.random()
                    if p < 0.4:
                        b[i] = r.choice(EDGE)
                    elif p < 0.7:
                        del b[i]
                    else:
                        b.insert(i, r.choice(EDGE))
            yield bytes(b)


def texts(tier, seed):
    q = tier == "quick"
    yield from gen.TEXTS
    for cp in range(0xD7FE, 0xE002, 1 if not q else 37):
        yield chr(cp)
    for i in range(600 if q else 20000):
        r = rng_for(seed, "txt", i)
        t = gen.rtext(r)
        if r.random() < 0.4:
            i = r.randrange(len(t) + 1)
            t = t[:i] + chr(r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xDC80, r.randint(0xD800, 0xDFFF)])) + t[i:]
        yield t


def codecs():
    from eth_abi.codec import ABICodec
    from eth_abi.decoding import StringDecoder
    from eth_abi.encoding import TextStringEncoder
    from eth_abi.registry import BaseEquals, registry

    import codecs as std

    for name, f in OWN.items():
        std.register_error(name, f)
    out = {}
    for h in HANDLERS:
        reg = registry.copy()
        if h != "strict":
            reg.unregister("string")
            reg.register(BaseEquals("string", with_sub=False), TextStringEncoder, StringDecoder(handle_string_errors=h), label="string")
        out[h] = ABICodec(reg)
    return out


def events(tier, seed, shard, n):
    from eth_abi import encode, is_encodable
    from eth_abi.packed import encode_packed, is_encodable_packed

    cs = codecs()
    q = tier == "quick"
    for i, c in enumerate(contents(tier, seed)):
        if i % n != shard:
            continue
        r = rng_for(seed, "wrap", i)
        for h in HANDLERS:
            if q and h != "strict" and (r.random() < 0.45 or len(c) > 2000 and r.random() < 0.5):
                continue
            for wi, (t, f, path) in enumerate(WRAPS):
                if q and wi and r.random() < (0.75 if len(c) < 2000 else 0.9):
                    continue
                b, _ = gen.payload([raw(t)], [f(c)])
                strict = r.random() < 0.7
                o, v = rec.call(cs[h].decode, [tstr(t)], b, strict=strict)
                if v is not None:
                    try:
                        x = v[0]
                        for p in path:
                            x = x[p]
                    except (TypeError, IndexError):
                        x = None
                    o = {"ok": 1, "v": pv.rec(x)}
                yield {"c": "TextDec", "g": h + "/" + str(wi), "b": list(c), "h": h, "r": o,
                       "n": note("decode", [tstr(t)], c, h, strict)}
    for i, t in enumerate(texts(tier, seed)):
        if i % n != shard:
            continue
        o, _ = rec.enc(encode, ["string"], [t])
        ie, _ = rec.call(is_encodable, "string", t)
        pk, _ = rec.enc(encode_packed, ["string"], [t])
        ipk, _ = rec.call(is_encodable_packed, "string", t)
        r = rng_for(seed, "inner", i)
        ty, v = r.choice([("(string,uint8)", (t, 1)), ("string[]", ["a", t]), ("string[2]", [t, "b"]), ("(uint8,(bytes,string))[]", [(1, (b"", "x")), (2, (b"y", t))])])
        inn, _ = rec.enc(encode, [ty], [v])
        iin, _ = rec.call(is_encodable, ty, v)
        for g, r, b in (("", o, ie), ("packed", pk, ipk), ("nested", inn, iin)):
            yield {"c": "TextEnc", "g": g, "v": pv.rec(t), "r": r, "ie": b,
                   "n": note("encode" + g, [ty if g == "nested" else "string"], [v if g == "nested" else t])}
