"""Coders made by hand: classes and type strings, constructors and settings, parts put together."""
import re
from decimal import Decimal

from lib import gen, pv, rec, regs
from .typestrs import *
from .units import is_bool_on_fixed, leaf_values, unfit_values


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [("BuildGen_4", []), ("BuildSim", ["-simulate", f"num={300 if q else 5000}", "-depth", "8", "-seed", str(seed)])], module="BuildMC")


ENC = [("UnsignedInteger", "elem", "uint"), ("SignedInteger", "elem", "int"), ("UnsignedFixed", "elem", "ufixed"), ("SignedFixed", "elem", "fixed"),
       ("Boolean", "elem", "bool"), ("Address", "elem", "address"), ("Bytes", "bytesM", "bytes"), ("ByteString", "bytesD", "bytes"),
       ("TextString", "elem", "string"), ("BaseArray", "arr", ""), ("Tuple", "tup", "")]


def classes():
    """(class, form, base, packed, makes an encoder, registry)"""
    from eth_abi import decoding, encoding
    from eth_abi.registry import registry, registry_packed

    out = []
    for n, form, base in ENC:
        out.append((getattr(encoding, n + "Encoder"), form, base, 0, True, registry))
        pn = {"BaseArray": "PackedArray"}.get(n, "Packed" + n) + "Encoder"
        if n != "Tuple":
            out.append((getattr(encoding, pn), form, base, 1, True, registry_packed))
        dn = {"TextString": "String"}.get(n, n) + "Decoder"
        out.append((getattr(decoding, dn), form, base, 0, False, registry))
    return out


def own_classes():
    """Classes of the user's, made with the documented decorators: (class, form, base)"""
    from eth_abi.base import BaseCoder, parse_tuple_type_str, parse_type_str

    out = []
    for form, base, deco in [("ownelem", b, parse_type_str(b or None)) for b in ("", "uint", "foo", "bytes", "hash", "bool")] \
            + [("ownarr", b, parse_type_str(b or None, with_arrlist=True)) for b in ("", "uint", "foo", "string")] \
            + [("owntup", "", parse_tuple_type_str)]:
        @deco
        def from_type_str(cls, abi_type, registry):
            return cls, abi_type, registry

        out.append((type("Own", (BaseCoder,), {"from_type_str": from_type_str}), form, base))
    return out


def strings(tier, seed):
    q = tier == "quick"
    rng = rng_for(seed, "build")
    for w in ("uint", "int", "fixed", "ufixed", "bytes", "byte", "function", "string", "bool", "address", "hash", "foo", "Uint"):
        for s in ("", "1", "7", "8", "16", "32", "33", "160", "256", "257", "264", "8x1", "128x18", "8x80", "8x81", "7x1", "264x1", "0", "08"):
            yield w + s
        for a in ("[]", "[2]", "[0]", "[][3]", "[1][]"):
            yield w + a
            yield w + "8" + a
            yield w + "128x18" + a
            yield f"({w})" + a
            yield f"({w}8)" + a
    yield from odd_type_strings()
    for i in range(150 if q else 4000):
        r = rng_for(seed, "build", i)
        s = rstr(r)
        yield s
        yield mutate(r, s)


LEAF = re.compile(r"(uint|int|ufixed|fixed|bytes|byte|function|string|bool|address)([0-9]+)?(?:x([0-9]+))?")
ALIAS = {"uint": ("uint", 256), "int": ("int", 256), "ufixed": ("ufixed", 128, 18), "fixed": ("fixed", 128, 18), "byte": ("bytesN", 1), "function": ("bytesN", 24)}


def typ_of(s):
    """The tagged type of a type string, None if it is none."""
    def at(i):
        if s[i:i + 1] == "(":
            cs, i = [], i + 1
            while True:
                t, i = at(i)
                cs.append(t)
                if s[i] == ")":
                    t, i = ("tup", cs), i + 1
                    break
                if s[i] != ",":
                    raise ValueError
                i += 1
        else:
            m = LEAF.match(s, i)
            k, n, p = m.groups()
            i = m.end()
            if n is None:
                t = ALIAS.get(k, (k,))
            elif k == "bytes":
                t = ("bytesN", int(n))
            else:
                t = (k, int(n)) + ((int(p),) if p else ())
        while s[i:i + 1] == "[":
            j = s.index("]", i)
            t, i = ("arr", t, int(s[i + 1:j]) if j > i + 1 else None), j + 1
        return t, i

    try:
        t, i = at(0)
    except (ValueError, IndexError, AttributeError):
        return None
    return t if i == len(s) and valid(t) and leaves(t) < 200 else None


def valid(t):
    k = t[0]
    if k == "arr":
        return valid(t[1]) and t[2] != 0
    if k == "tup":
        return all(map(valid, t[1]))
    if k in ("uint", "int", "ufixed", "fixed"):
        return t[1] in range(8, 257, 8) and len(t) == (3 if "fixed" in k else 2) and all(p in range(1, 81) for p in t[2:])
    return len(t) == 2 and t[1] in range(1, 33) if k == "bytesN" else len(t) == 1


def leaves(t):
    if t[0] == "arr":
        return (t[2] or 3) * leaves(t[1])
    return sum(map(leaves, t[1])) if t[0] == "tup" else 1


def payloads(rng, t, b):
    """Payloads for a coder alone: its encoding and broken ones."""
    out = [b, b + b"\x01", b[:-1], b""]
    if b:
        for _ in range(3):
            i = rng.randrange(len(b))
            out.append(b[:i] + bytes([b[i] ^ rng.choice([1, 0x80, 0xFF])]) + b[i + 1:])
    return out


def uses(coder, vs):
    out = []
    for v in vs:
        r, _ = rec.enc(coder, v)
        out.append({"v": pv.rec(v), "r": r})
    return out


def reads(coder, bs):
    from eth_abi.decoding import ContextFramesBytesIO

    return [{"b": list(b), "r": rec.call(coder, ContextFramesBytesIO(b))[0]} for b in bs]


def unfit(rng, t):
    xs = [x for x in unfit_values(t, rng, "quick") if not is_bool_on_fixed(t, x)]
    return rng.sample(xs, min(3, len(xs)))


def misfit(rng, t, v):
    """v with one thing wrong: an item more or less where their number is fixed, or an unfit leaf."""
    if t[0] not in ("arr", "tup"):
        xs = unfit(rng, t)
        return rng.choice(xs) if xs else v
    w = list(v)
    if w and rng.random() < 0.5:
        i = rng.randrange(len(w))
        w[i] = misfit(rng, t[1] if t[0] == "arr" else t[1][i], w[i])
    elif t[0] == "tup" or t[2] is not None:
        if rng.random() < 0.5 and w:
            w.pop(rng.randrange(len(w)))
        else:
            w.append(w[-1] if w else 0)
    return rng.choice([list, tuple])(w)


def some_values(rng, t, tier):
    if t[0] in ("arr", "tup"):
        vs = [gen.rvalue(rng, t) for _ in range(2)]
        return vs + [misfit(rng, t, rng.choice(vs)) for _ in range(2)]
    vs = leaf_values(t, rng, tier)
    vs = rng.sample(vs, min(len(vs), 6))
    return [v for v in vs if not isinstance(v, (str, bytes, bytearray)) or len(v) < 200] + unfit(rng, t)


def shuffled(rng, xs):
    rng.shuffle(xs)
    return xs


def coded(t, v):
    """The bytes of v of type t, as a coder alone writes them."""
    b, _ = gen.payload([t], [v])
    return b[32:] if gen.dyn(t) else b


def settings_events(tier, seed, shard, n):
    from eth_abi import decoding, encoding

    q = tier == "quick"
    names = {"uint": "UnsignedInteger", "int": "SignedInteger", "ufixed": "UnsignedFixed", "fixed": "SignedFixed", "bytesN": "Bytes",
             "address": "Address", "bool": "Boolean"}
    i = 0
    for k, name in names.items():
        for bits in [None, 1, 4, 7, 8, 9, 12, 16, 24, 64, 128, 160, 248, 255, 256, 257, 264, 512]:
            for slot in [None, 1, 2, 3, 16, 20, 31, 32, 33, 64]:
                for places in ([None, -1, 0, 1, 2, 18, 79, 80, 81, 100] if "fixed" in k else [None]):
                    for enc in (True, False):
                        if k == "bool" and bits not in (None, 8) or k == "address" and not enc and bits not in (None, 160):
                            continue
                        i += 1
                        if i % n != shard:
                            continue
                        rng = rng_for(seed, "set", i)
                        if q and "fixed" in k and rng.random() < 0.8 and places not in (0, 80, 81):
                            continue
                        kw = {a: b for a, b in (("value_bit_size", bits), ("data_byte_size", slot), ("frac_places", places)) if b is not None}
                        unk = rng.random() < 0.04
                        if unk:
                            kw[rng.choice(["size", "bits", "value_bits", "items", "foo", "_value_bit_size", "byte_size"])] = rng.choice([1, 0, None, ""])
                        cls = getattr(encoding if enc else decoding, name + ("Encoder" if enc else "Decoder"))
                        r, c = rec.call(lambda: cls(**kw))
                        us, ds = [], []
                        nb = bits if bits is not None else {"address": 160, "bool": 8}.get(k)
                        if r["ok"] and nb and nb % 8 == 0:
                            t = {"bytesN": ("bytesN", nb // 8), "address": ("address",), "bool": ("bool",)}.get(
                                k, (k, nb) + ((places,) if "fixed" in k else ()))
                            m = slot or 32
                            if enc:
                                vs = some_values(rng, t, tier) if nb <= 256 else [0, 1, Decimal(0)]
                                us = uses(c, rng.sample(vs, min(len(vs), 5)))
                            else:
                                raw = [bytes(m), b"\xff" * m, bytes(m - 1) + b"\x01", rng.randbytes(m), bytes(m - 1), rng.randbytes(m + 5)]
                                w = nb // 8
                                if w <= m:
                                    x = rng.randbytes(w)
                                    raw += [bytes(m - w) + x, x + bytes(m - w), b"\xff" * (m - w) + x, bytes(m - w) + b"\x80" + x[1:]]
                                ds = reads(c, raw)
                        yield {"c": "Settings", "g": "enc" if enc else "dec",
                               "q": {"k": k, "bits": [bits] if bits is not None else [], "slot": [slot] if slot is not None else [],
                                     "places": [places] if places is not None else [], "unk": int(unk)},
                               "r": {"ok": 1} if r["ok"] else r, "us": us, "ds": ds, "n": f"{cls.__name__}({kw})"}


def lacking_events():
    from eth_abi import decoding, encoding

    u, d = encoding.UnsignedIntegerEncoder(value_bit_size=8), decoding.UnsignedIntegerDecoder(value_bit_size=8)
    E, D = encoding, decoding
    for cls, kw, unk in [
            (E.TupleEncoder, {}, 0), (E.SizedArrayEncoder, {}, 0), (E.SizedArrayEncoder, {"array_size": 2}, 0), (E.SizedArrayEncoder, {"item_encoder": u}, 0),
            (E.DynamicArrayEncoder, {}, 0), (E.PackedArrayEncoder, {}, 0), (D.TupleDecoder, {}, 0), (D.DynamicArrayDecoder, {}, 0),
            (D.SizedArrayDecoder, {"array_size": 2}, 0), (D.HeadTailDecoder, {}, 0),
            (E.TupleEncoder, {"decoders": [u]}, 1), (E.TupleEncoder, {"encoders": [u], "items": 1}, 1), (E.DynamicArrayEncoder, {"item_encoder": u, "array_size": 1}, 1),
            (E.SizedArrayEncoder, {"item_encoder": u, "array_size": 1, "size": 2}, 1), (D.TupleDecoder, {"encoders": [d]}, 1),
            (D.DynamicArrayDecoder, {"item_decoder": d, "array_size": 3}, 1), (D.HeadTailDecoder, {"tail_decoder": d, "head": 1}, 1),
            (E.ByteStringEncoder, {"size": 3}, 1), (E.TextStringEncoder, {"errors": "strict"}, 1), (E.BooleanEncoder, {"bits": 8}, 1),
            (D.BooleanDecoder, {"bits": 8}, 1), (D.ByteStringDecoder, {"size": 8}, 1)]:
        r, _ = rec.call(lambda: cls(**kw))
        yield {"c": "Lacking", "g": "", "unk": unk, "r": {"ok": 1} if r["ok"] else r, "n": f"{cls.__name__}({', '.join(kw)})"}


def assembly(h, rng, tier):
    from eth_abi import decoding, encoding

    names = {"uint": "UnsignedInteger", "int": "SignedInteger", "ufixed": "UnsignedFixed", "fixed": "SignedFixed", "bytesN": "Bytes",
             "address": "Address", "bool": "Boolean", "bytes": "ByteString", "string": "TextString"}
    st, x = [], []  # (type, encoder, decoder)
    for j, op in enumerate(h):
        o, k, m = op["o"], op["k"], op["n"]
        if o == "leaf":
            kw = {}
            if k in ("uint", "int", "ufixed", "fixed"):
                kw["value_bit_size"] = m
            if k == "bytesN":
                kw["value_bit_size"] = m * 8
            if k in ("ufixed", "fixed"):
                kw["frac_places"] = op["p"]
            t = (k,) + ((m,) if k in ("uint", "int", "ufixed", "fixed", "bytesN") else ()) + ((op["p"],) if "fixed" in k else ())
            dn = "String" if k == "string" else names[k]
            mk = (lambda: getattr(encoding, names[k] + "Encoder")(**kw)), (lambda: getattr(decoding, dn + "Decoder")(**kw))
            took = 0
        else:
            took = m if o == "tuple" else 1
            parts = st[len(st) - took:]
            es, ds = [p[1] for p in parts], [p[2] for p in parts]
            if o == "tuple":
                t = ("tup", [p[0] for p in parts])
                c = rng.choice([tuple, list])
                mk = (lambda: encoding.TupleEncoder(encoders=c(es))), (lambda: decoding.TupleDecoder(decoders=c(ds)))
            elif o == "sized":
                t = ("arr", parts[0][0], m)
                mk = (lambda: encoding.SizedArrayEncoder(array_size=m, item_encoder=es[0])), (lambda: decoding.SizedArrayDecoder(array_size=m, item_decoder=ds[0]))
            else:
                t = ("arr", parts[0][0], None)
                mk = (lambda: encoding.DynamicArrayEncoder(item_encoder=es[0])), (lambda: decoding.DynamicArrayDecoder(item_decoder=ds[0]))
        (re, e), (rd, d) = rec.call(mk[0]), rec.call(mk[1])
        ev = {"op": op, "re": {"ok": 1} if re["ok"] else re, "rd": {"ok": 1} if rd["ok"] else rd, "ed": 0, "dd": 0, "us": [], "ds": [], "name": pv.cps(tstr(t))}
        if re["ok"] and rd["ok"]:
            del st[len(st) - took:]
            st.append((t, e, d))
            ev["ed"], ev["dd"] = int(bool(e.is_dynamic)), int(bool(d.is_dynamic))
            if j == len(h) - 1 or j == len(h) - 3:
                vs = shuffled(rng, some_values(rng, t, tier))[:3]
                ev["us"] = uses(e, vs)
                bs = [b for v in [gen.rvalue(rng, t)] for b in payloads(rng, t, coded(t, v))]
                ev["ds"] = reads(d, bs)
        x.append(ev)
        if bool(re["ok"]) != bool(rd["ok"]):
            break  # the clause has its verdict
        if not re["ok"] and o != "leaf":
            break
    return {"c": "Assembly", "g": "", "x": x, "n": "assembling " + " ; ".join(f"{s['o']}{s['k']}{s['n'] or ''}" for s in h)}


def events(tier, seed, shard, n):
    seen = set()
    cs, own = classes(), own_classes()
    i = 0
    for s in strings(tier, seed):
        if s in seen or len(s) > 300:
            continue
        seen.add(s)
        i += 1
        if i % n != shard:
            continue
        rng = rng_for(seed, "use", i)
        t = None
        for cls, form, base, pk, enc, reg in cs:
            r, c = rec.call(cls.from_type_str, s, reg)
            us, ds, dy = [], [], -1
            if r["ok"]:
                t = t or typ_of(s)
                if t is not None:
                    if not pk:
                        dy = int(bool(c.is_dynamic))
                    if enc:
                        us = uses(c, shuffled(rng, some_values(rng, t, tier))[:4 if tier == "quick" else 12])
                    else:
                        ds = reads(c, payloads(rng, t, coded(t, gen.rvalue(rng, t))))
            yield {"c": "Builds", "g": form, "form": form, "base": pv.cps(base), "pk": pk, "s": pv.cps(s), "r": {"ok": 1} if r["ok"] else r,
                   "dy": dy, "us": us, "ds": ds, "h": {"s": [], "ok": 1}, "n": f"{cls.__name__}.from_type_str({pv.brief(s)})"}
        for cls, form, base in own:
            reg = object()
            r, got = rec.call(cls.from_type_str, s, reg)
            h = {"s": [], "ok": 0}
            if r["ok"]:
                rs, name = rec.call(got[1].to_type_str)
                h = {"s": pv.cps(name) if isinstance(name, str) else [], "ok": int(got[0] is cls and got[2] is reg)}
            yield {"c": "Builds", "g": form, "form": form, "base": pv.cps(base), "pk": 0, "s": pv.cps(s), "r": {"ok": 1} if r["ok"] else r,
                   "dy": -1, "us": [], "ds": [], "h": h, "n": f"own class for {base or 'any'} ({form}): from_type_str({pv.brief(s)})"}
    yield from settings_events(tier, seed, shard, n)
    if shard == 0:
        yield from lacking_events()
    i = 0
    for cfg, hs in regs.histories():
        for h in hs:
            i += 1
            if i % n == shard:
                yield assembly(h, rng_for(seed, "asm", i), tier)
