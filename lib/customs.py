"""User-registered coders that mimic built-in types of the same size and dynamicity:
cst ~ uint256, cwd ~ (uint256,uint256), cdy ~ bytes, cdt ~ (uint256,bytes), cda ~ uint256[].
Each comes in several registration styles."""
import functools

SUB = {
    "cst": ("uint", 256), "cwd": ("tup", [("uint", 256), ("uint", 256)]), "cdy": ("bytes",),
    "cdt": ("tup", [("uint", 256), ("bytes",)]), "cda": ("arr", ("uint", 256), None),
}
DYN = {"cdy", "cdt", "cda"}
STYLES = ["fn", "obj", "inst", "cls", "lib", "partial", "method", "type"]


def sub(t):
    """The built-in type a type with custom leaves stands for."""
    if t[0] in SUB:
        return SUB[t[0]]
    if t[0] == "arr":
        return ("arr", sub(t[1]), t[2])
    if t[0] == "tup":
        return ("tup", [sub(c) for c in t[1]])
    return t


def names(t):
    if t[0] in SUB:
        return {t[0]}
    if t[0] == "arr":
        return names(t[1])
    if t[0] == "tup":
        return set().union(*(names(c) for c in t[1]))
    return set()


def word(i):
    return i.to_bytes(32, "big")


def put_int(v):
    from eth_abi.exceptions import EncodingTypeError, ValueOutOfBounds

    if isinstance(v, bool) or not isinstance(v, int):
        raise EncodingTypeError("not an integer")
    if v < 0 or v >= 2**256:
        raise ValueOutOfBounds("out of bounds")
    return word(v)


def items(v, n=None):
    from eth_abi.exceptions import EncodingTypeError, ValueOutOfBounds
    from collections.abc import Sequence

    if not isinstance(v, Sequence) or isinstance(v, (str, bytes, bytearray)):
        raise EncodingTypeError("not a sequence")
    if n is not None and len(v) != n:
        raise ValueOutOfBounds("wrong number of items")
    return list(v)


def put_bytes(v):
    from eth_abi.exceptions import EncodingTypeError

    if not isinstance(v, (bytes, bytearray)):
        raise EncodingTypeError("not bytes")
    return word(len(v)) + bytes(v) + bytes(-len(v) % 32)


def put_pair(v):
    return b"".join(put_int(x) for x in items(v, 2))


def put_dt(v):
    a, b = items(v, 2)
    return put_int(a) + word(64) + put_bytes(b)


def put_arr(v):
    xs = items(v)
    return word(len(xs)) + b"".join(put_int(x) for x in xs)


def get(stream, n):
    from eth_abi.exceptions import InsufficientDataBytes

    b = stream.read(min(n, 1 << 40))
    if len(b) < n:
        raise InsufficientDataBytes("too short")
    return b


def get_int(stream):
    return int.from_bytes(get(stream, 32), "big")


def get_bytes(stream):
    from eth_abi.exceptions import NonEmptyPaddingBytes

    n = get_int(stream)
    b = get(stream, n + -n % 32)
    if any(b[n:]):
        raise NonEmptyPaddingBytes("padding")
    return b[:n]


def get_pair(stream):
    return (get_int(stream), get_int(stream))


def get_dt(stream):
    from eth_abi.exceptions import InvalidPointer

    at = stream.tell()
    a, o = get_int(stream), get_int(stream)
    if o < 64 or at + o >= len(stream.getbuffer()):
        raise InvalidPointer("bad offset")
    stream.seek(at + o)
    b = get_bytes(stream)
    stream.seek(at + 64)
    return (a, b)


def get_arr(stream):
    return tuple(get_int(stream) for _ in range(get_int(stream)))


PUT = {"cst": put_int, "cwd": put_pair, "cdy": put_bytes, "cdt": put_dt, "cda": put_arr}
GET = {"cst": get_int, "cwd": get_pair, "cdy": get_bytes, "cdt": get_dt, "cda": get_arr}


class Obj:
    def __init__(self, f, dyn):
        self.f = f
        if dyn:
            self.is_dynamic = True

    def __call__(self, x):
        return self.f(x)


class Holder:
    def __init__(self, f):
        self.f = f

    def run(self, x):
        return self.f(x)


def plain(style, f, dyn):
    """A callable that is not a library coder."""
    if style == "fn" or (style == "method" and dyn):  # attributes cannot be set on bound methods
        g = lambda x: f(x)
        if dyn:
            g.is_dynamic = True
        return g
    if style == "obj":
        return Obj(f, dyn)
    if style == "partial":
        g = functools.partial(lambda a, x: f(x), None)
        if dyn:
            g.is_dynamic = True
        return g
    if style == "type":  # a class that is no coder class, called like a function

        class Call:
            if dyn:
                is_dynamic = True

            def __new__(cls, x):
                return f(x)

        return Call
    return Holder(f).run


def encoder(name, style, put=None):
    from eth_abi import encoding as e

    put = put or PUT[name]
    dyn = name in DYN
    if style == "lib":
        u = e.UnsignedIntegerEncoder(value_bit_size=256, data_byte_size=32)
        return {
            "cst": lambda: u, "cwd": lambda: e.TupleEncoder(encoders=(u, u)), "cdy": lambda: e.ByteStringEncoder(),
            "cdt": lambda: e.TupleEncoder(encoders=(u, e.ByteStringEncoder())),
            "cda": lambda: e.DynamicArrayEncoder(item_encoder=u),
        }[name]()
    if style not in ("inst", "cls", "check", "write"):
        return plain(style, put, dyn)

    class E(e.BaseEncoder):
        is_dynamic = dyn

        def encode(self, value):
            return (PUT[name] if style == "check" else put)(value)

        def validate_value(self, value):
            (PUT[name] if style == "write" else put)(value)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return E if style == "cls" else E()


def decoder(name, style, get_=None):
    from eth_abi import decoding as d

    get_ = get_ or GET[name]
    dyn = name in DYN
    if style == "lib":
        u = d.UnsignedIntegerDecoder(value_bit_size=256)
        return {
            "cst": lambda: u, "cwd": lambda: d.TupleDecoder(decoders=(u, u)), "cdy": lambda: d.ByteStringDecoder(),
            "cdt": lambda: d.TupleDecoder(decoders=(u, d.ByteStringDecoder())),
            "cda": lambda: d.DynamicArrayDecoder(item_decoder=u),
        }[name]()
    if style not in ("inst", "cls", "check", "write"):
        return plain(style, get_, dyn)

    class D(d.BaseDecoder):
        is_dynamic = dyn

        def decode(self, stream):
            return get_(stream)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return D if style == "cls" else D()


def lookup(name, how):
    from eth_abi.registry import BaseEquals

    return {"str": lambda: name, "base": lambda: BaseEquals(name), "base0": lambda: BaseEquals(name, with_sub=False),
            "fn": lambda: (lambda s: s == name)}[how]()


def register(reg, name, es, ds, how, put=None, get_=None):
    lk = lookup(name, how)
    if how == "fn":
        reg.register(lk, encoder(name, es, put), decoder(name, ds, get_), label=name)
    elif how == "base0":
        reg.register_encoder(lk, encoder(name, es, put))
        reg.register_decoder(lk, decoder(name, ds, get_), label=name)
    else:
        reg.register(lk, encoder(name, es, put), decoder(name, ds, get_))
