"""Replaying registry histories (generated by TLC from RegistryMC.tla) into real registries."""
import copy
import functools
import json
import os
import re

from . import pv, rec, tlc

MAGIC = 0xC0DEC0DE << 200
PLAIN = 0xA7
TYPES = ["foo", "foo8", "bar", "foo_bar", "foo[2]", "bar[]", "(foo,bar)", "(foo8,uint)[2]", "(bar[],(foo,bar))", "uint8", "uint", "uint256", "foo[2][]", "(uint,foo)"]


def txt(c):
    return "" if c == [0] else "".join(map(chr, c))


# ------------------------------------------------------------- generation (parent)
def generate(work, jobs, module="RegistryMC"):
    """jobs: [(cfg, extra TLC arguments[, module])]; writes the histories to work/hist.json"""
    procs = []
    jobs = [(j + (module,))[:3] for j in jobs]
    for i, (cfg, extra, mod) in enumerate(jobs):
        procs.append(tlc.start(mod, cfg + ".cfg", os.path.join(work, f"gen{i}"), workers=1, heap="3g", extra=extra))
    out = []
    for (cfg, extra, mod), (p, f) in zip(jobs, procs):
        p.wait()
        text = open(f).read()
        if "Error:" in text:
            raise tlc.TlcError(text[-2000:])
        hs = re.findall(r'^"@@H@@(.*)"$', text, re.M)
        hs = [json.loads(h.replace('\\"', '"')) for h in hs]
        if "-simulate" in extra and mod not in ("Wire", "Decoder", "Grammar", "Encoder"):  # TLC prints every possible last step: keep two of them
            seen, keep = {}, []
            for h in hs:
                k = json.dumps(h[:-1])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] in (1, 8):
                    keep.append(h)
            hs = keep
        out.append([cfg, hs])
    with open(os.path.join(work, "hist.json"), "w") as f:
        json.dump(out, f)


def histories():
    return json.load(open(os.path.join(os.environ["VERIF_WORK"], "hist.json")))


# ------------------------------------------------------------------ real objects
_fns = {}


def fn(i, ms):
    if i not in _fns:
        names = {txt(m) for m in ms}
        _fns[i] = lambda s: s in names
    return _fns[i]


@functools.lru_cache(None)
def prefix():
    """a predicate class as a user would write it"""
    from eth_abi.registry import Predicate

    class GoesOn(Predicate):
        __slots__ = ("value",)

        def __init__(self, value):
            self.value = value

        def __call__(self, s):
            return s.startswith(self.value) and s != self.value

        def __str__(self):
            return f"({self.value}...)"

    return GoesOn


def lookup(lk):
    """A new object each time, so that predicates are equal but distinct."""
    from eth_abi.registry import BaseEquals, Equals, has_arrlist, is_base_tuple

    k = lk["k"]
    if k == "str":
        return txt(lk["v"])
    if k == "eq":
        return Equals(txt(lk["v"]))
    if k == "base":
        return BaseEquals(txt(lk["b"]), with_sub={-1: None, 0: False, 1: True}[lk["ws"]])
    if k == "pre":
        return prefix()(txt(lk["v"]))
    if k == "fn":
        return fn(lk["id"], lk["ms"])
    return {"arr": has_arrlist, "tuple": is_base_tuple, "junk": 42}[k]


@functools.lru_cache(None)
def coders(tag):
    """encoder, decoder that write and return the tag; callables, instances or classes"""
    from eth_abi.decoding import BaseDecoder
    from eth_abi.encoding import BaseEncoder

    word = (MAGIC + tag).to_bytes(32, "big")
    if tag % 3 == 0:
        def dec(stream):
            stream.read(32)
            return MAGIC + tag
        return (lambda v: word), dec

    class E(BaseEncoder):
        def encode(self, value):
            return word

        def validate_value(self, value):
            pass

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    class D(BaseDecoder):
        def decode(self, stream):
            stream.read(32)
            return MAGIC + tag

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return (E(), D()) if tag % 3 == 1 else (E, D)


def fresh():
    """The default registrations, made one by one in a new registry."""
    from eth_abi import decoding as d
    from eth_abi import encoding as e
    from eth_abi.registry import ABIRegistry, BaseEquals, has_arrlist, is_base_tuple

    r = ABIRegistry()
    for p, en, de, label in (
        (BaseEquals("uint"), e.UnsignedIntegerEncoder, d.UnsignedIntegerDecoder, "uint"),
        (BaseEquals("int"), e.SignedIntegerEncoder, d.SignedIntegerDecoder, "int"),
        (BaseEquals("address"), e.AddressEncoder, d.AddressDecoder, "address"),
        (BaseEquals("bool"), e.BooleanEncoder, d.BooleanDecoder, "bool"),
        (BaseEquals("ufixed"), e.UnsignedFixedEncoder, d.UnsignedFixedDecoder, "ufixed"),
        (BaseEquals("fixed"), e.SignedFixedEncoder, d.SignedFixedDecoder, "fixed"),
        (BaseEquals("bytes", with_sub=True), e.BytesEncoder, d.BytesDecoder, "bytes<M>"),
        (BaseEquals("bytes", with_sub=False), e.ByteStringEncoder, d.ByteStringDecoder, "bytes"),
        (BaseEquals("function"), e.BytesEncoder, d.BytesDecoder, "function"),
        (BaseEquals("byte", with_sub=False), e.BytesEncoder, d.BytesDecoder, "byte"),
        (BaseEquals("string"), e.TextStringEncoder, d.StringDecoder, "string"),
        (has_arrlist, e.BaseArrayEncoder, d.BaseArrayDecoder, "has_arrlist"),
        (is_base_tuple, e.TupleEncoder, d.TupleDecoder, "is_base_tuple"),
    ):
        r.register(p, en, de, label=label)
    return r


VALUES = {
    "foo": None, "foo8": None, "bar": None, "foo_bar": None, "foo[2]": [None] * 2, "bar[]": [None] * 2, "(foo,bar)": (None, None),
    "(foo8,uint)[2]": [(None, PLAIN)] * 2, "(bar[],(foo,bar))": ([None] * 2, (None, None)), "uint8": PLAIN, "uint": PLAIN,
    "uint256": PLAIN, "foo[2][]": [[None] * 2] * 2, "(uint,foo)": (PLAIN, None),
}
W = lambda *i: b"".join(x.to_bytes(32, "big") for x in i)
PAYLOADS = {s: W(PLAIN, PLAIN, PLAIN, PLAIN) for s in VALUES}
PAYLOADS["bar[]"] = W(32, 2, PLAIN, PLAIN)
PAYLOADS["foo[2][]"] = W(32, 2, PLAIN, PLAIN, PLAIN, PLAIN)
PAYLOADS["(bar[],(foo,bar))"] = W(32, 96, PLAIN, PLAIN, 2, PLAIN, PLAIN)

# five of them: in place, or all with the same tail
FIVE = {s: (W(*[160] * 5) + b[32:] if b[:32] == W(32) else b"") + W(*[PLAIN] * 20) for s, b in PAYLOADS.items()}


def tag(i):
    return i - MAGIC if i >= MAGIC else -2 if i == PLAIN else -9


def flat(v):
    return [t for x in v for t in flat(x)] if isinstance(v, tuple) else [tag(v)] if type(v) is int else [-9]


class Family:
    """root: "default" for the library's own registry, reached through its module-level
    functions (only in a process of its own), "empty", or a new one with the default registrations."""

    def __init__(self, root=None):
        from eth_abi.registry import ABIRegistry, registry

        self.regs = [registry if root == "default" else ABIRegistry() if root == "empty" else fresh()]
        self.default = root == "default"
        self.codecs = {}
        self.many = False  # also code lists of types

    def codec(self, i):
        """The same codec each time, as an application would use it."""
        import eth_abi
        from eth_abi.codec import ABICodec

        if i == 0 and self.default:
            return eth_abi
        if i not in self.codecs:
            self.codecs[i] = ABICodec(self.regs[i])
        return self.codecs[i]

    def look(self, i, s, full=True):
        """Outcome of coding type s through registry i (from 0)."""
        c = self.codec(i)
        out = {"r": i + 1, "s": pv.cps(s)}
        for k in (1, 5) if full and self.many else (1,):
            r, b = rec.enc(c.encode, [s] * k, [VALUES[s]] * k)
            if b is not None:
                ws = [int.from_bytes(b[j: j + 32], "big") for j in range(0, len(b), 32)]
                r = {"ok": 1, "v": [tag(w) for w in ws if w >= MAGIC or w == PLAIN]}
            d, v = rec.call(c.decode, [s] * k, PAYLOADS[s] if k == 1 else FIVE[s])
            if v is not None:
                d = {"ok": 1, "v": flat(v)}
            out.update({"e": r, "d": d} if k == 1 else {"e5": r, "d5": d})
        if full:
            for k, f in (("h", lambda: c.is_encodable_type(s)), ("i", lambda: c.is_encodable(s, VALUES[s]))):
                o, x = rec.call(f)
                out[k] = {"ok": 1, "v": 1 if x is True else 0 if x is False else 2} if o["ok"] else o
        return out

    def apply(self, op):
        i = op["r"] - 1
        reg = self.regs[i]
        if op["o"] == "look":
            return {"ok": 1, "v": self.look(i, txt(op["s"]))}
        if op["o"] == "new":
            from eth_abi.registry import ABIRegistry

            o, new = rec.call(ABIRegistry)
            self.regs.append(new)
            return {"ok": o["ok"]} if o["ok"] else o
        if op["o"] == "copy":
            f = {"copy": lambda: reg.copy(), "shallow": lambda: copy.copy(reg), "deep": lambda: copy.deepcopy(reg)}[op["sd"]]
            o, new = rec.call(f)
            if new is not None:
                self.regs.append(new)
            return {"ok": o["ok"]} if o["ok"] else o
        lk = lookup(op["lk"])
        if op["o"] == "reg":
            en, de = coders(op["c"])
            kw = {"label": txt(op["l"])} if op["l"] else {}
            if op["sd"] == "e":
                f = lambda: reg.register_encoder(lk, en, **kw)
            elif op["sd"] == "d":
                f = lambda: reg.register_decoder(lk, de, **kw)
            else:
                f = lambda: reg.register(lk, en, de, **kw)
        else:
            f = {"e": lambda: reg.unregister_encoder(lk), "d": lambda: reg.unregister_decoder(lk), "b": lambda: reg.unregister(lk)}[op["sd"]]
        o, _ = rec.call(f)
        return {"ok": 1} if o["ok"] else o


def brief(ops):
    def one(o):
        lk = o["lk"]
        t = {"str": lambda: repr(txt(lk["v"])), "eq": lambda: f"Equals({txt(lk['v'])!r})", "base": lambda: f"BaseEquals({txt(lk['b'])!r},{lk['ws']})",
             "fn": lambda: f"f{lk['id']}", "pre": lambda: f"GoesOn({txt(lk['v'])!r})"}.get(lk["k"], lambda: lk["k"])()
        n = {"reg": "register", "unreg": "unregister", "copy": "copy", "look": "code", "new": "new"}[o["o"]]
        if o["o"] == "look":
            return f"r{o['r']}.code({txt(o['s'])})"
        if o["o"] == "new":
            return "ABIRegistry()"
        if o["o"] == "copy":
            return f"r{o['r']}.{o['sd']}copy"
        sd = {"e": "_encoder", "d": "_decoder", "b": ""}[o["sd"]]
        return f"r{o['r']}.{n}{sd}({t}" + (f", label={txt(o['l'])!r}" if o["l"] else "") + ")"
    return "; ".join(one(o) for o in ops)
