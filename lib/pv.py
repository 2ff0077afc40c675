"""Python values <-> the records the specification works on (see spec/Codec.tla)."""
from collections.abc import Sequence
from decimal import Decimal

ECLAMP = 10**6


def rec(v, depth=0):
    t = type(v)
    if isinstance(v, bool):
        return {"k": "bool", "x": int(v)}
    if isinstance(v, int):
        m = -v if v < 0 else v
        m = int(m)
        return {
            "k": "int",
            "y": "int" if t is int else "sub",
            "s": 1 if v < 0 else 0,
            "m": list(m.to_bytes((m.bit_length() + 7) // 8, "big")),
        }
    if isinstance(v, Decimal):
        if not v.is_finite():
            return {"k": "decs", "z": "nan" if v.is_nan() else "inf"}
        s, d, e = v.as_tuple()
        return {
            "k": "dec",
            "y": "Decimal" if t is Decimal else "sub",
            "s": s,
            "d": list(d),
            "e": max(-ECLAMP, min(ECLAMP, e)),
        }
    if isinstance(v, (bytes, bytearray)):
        return {"k": "bytes", "y": t.__name__, "b": list(v)}
    if isinstance(v, str):
        return {"k": "str", "y": "str" if t is str else "sub", "c": [ord(c) for c in v]}
    if isinstance(v, Sequence) and depth < 400:
        return {"k": "seq", "y": t.__name__, "i": [rec(i, depth + 1) for i in v]}
    return {"k": "other", "y": t.__name__}


def cps(s):
    return [ord(c) for c in s]


def err(e):
    """Outcome record of a raised exception: the names of its classes."""
    return {"ok": 0, "e": [c.__name__ for c in type(e).__mro__ if c is not object]}


def brief(x, n=160):
    try:
        s = repr(x)
    except Exception:
        s = object.__repr__(x)
    return s if len(s) <= n else s[: n - 3] + "..."
