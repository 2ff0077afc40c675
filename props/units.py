"""Work units shared by the properties: what to encode, what to decode.
A unit carries its own seed, so results do not depend on sharding."""
from collections import deque, namedtuple
from decimal import Decimal
from enum import IntEnum
from fractions import Fraction

from lib import gen
from lib.gen import rng_for, tstr

LEAF_D = [("bytes",), ("string",), ("arr", ("uint", 256), None)]
LEAF_S = [("uint", 256), ("int", 8), ("bool",), ("address",), ("bytesN", 3), ("fixed", 128, 18)]


def mine(it, shard, n):
    for i, x in enumerate(it):
        if i % n == shard:
            yield x


def elementary(tier, rng):
    ts = gen.INTS + gen.BYTESN + gen.SIMPLE
    if tier == "thorough":
        return ts + gen.fixeds()
    fx = gen.fixeds((1, 18, 80))
    fx += rng.sample(gen.fixeds(), 60)
    return ts + list(dict.fromkeys(fx))


def leaf_values(t, rng, tier):
    """Boundary and other interesting encodable values of an elementary type."""
    k = t[0]
    m = 3 if tier == "quick" else 10
    if k in ("uint", "int"):
        sp = gen.int_specials(t)
        if tier == "quick" and len(sp) > 24:
            sp = sp[:13] + rng.sample(sp[13:], 11)
        return sp + [gen.rvalue(rng, t) for _ in range(m)]
    if k in ("ufixed", "fixed"):
        sp = gen.int_specials(("uint" if k == "ufixed" else "int", t[1]))
        if tier == "quick":
            sp = sp[:9] + rng.sample(sp[9:], min(3, max(0, len(sp) - 9)))
        out = [gen.dec_variants(gen.scaled(i, t[2]), rng) for i in sp]
        lo, hi = gen.int_bounds(t)
        out += [i for i in (0, 1, -1, 7) if lo <= i * 10 ** t[2] <= hi]
        return out + [Decimal("-0"), Decimal("0E+40"), Decimal("0E-300")] \
            + [gen.rvalue(rng, t) for _ in range(m)]
    if k == "bool":
        return [True, False]
    if k == "address":
        return [f for a in gen.ADDRS for f in gen.addr_forms(a)] \
            + [gen.rvalue(rng, t) for _ in range(m)]
    if k == "bytesN":
        n = t[1]
        out = [b"", b"\0", b"\0" * n, b"\xff" * n, b"a", bytes(n - 1) + b"\x01"]
        out += [gen.rbytes(rng, n), gen.rbytes(rng, n - 1), rng.randbytes(n), bytearray(b"\x80")]
        return [b for b in out if len(b) <= n]
    if k == "bytes":
        return [gen.rbytes(rng, n) for n in gen.LENS + gen.BIGLENS] \
            + [b"\0", b"\0" * 32, b"\xff" * 32, bytearray(b"abc"), b"a\0", bytes(33)]
    return list(gen.TEXTS) + [gen.rtext(rng, n) for n in gen.LENS + gen.BIGLENS[:4]]


def encode_units(tier, seed, salt="enc", light=False):
    """(group, types, values): encodable values."""
    rng = rng_for(seed, salt, tier)
    q = tier == "quick"
    for t in elementary(tier, rng):
        for v in leaf_values(t, rng, tier):
            if not light or not q or rng.random() < 0.4:
                yield "leaf", [t], [v]
    reps = 1 if tier == "quick" else 8
    for rep in range(reps):
        for D in LEAF_D:
            for S in LEAF_S:
                for i, ts in enumerate(gen.shapes(D, S)):
                    if tier == "quick" and (i + LEAF_S.index(S)) % 3 and S != ("uint", 256):
                        continue
                    yield "shape", ts, gen.rvalues(rng, ts)
    n = (2500 if light else 8000) if q else 60000
    for i in range(n):
        r = rng_for(seed, salt, i)
        ts = gen.rtypes(r, depth=r.choice([1, 2, 3, 3, 4, 5]))
        yield "random", ts, gen.rvalues(r, ts)
    for ts, vs in big_units(rng, tier):
        yield "big", ts, vs
    for t, v, r in deep_units(tier, seed, salt):
        yield "deep", [t], [v]
        yield "deep", [("bytes",), t, ("uint", 8)], [b"x", v, 3]


def big_units(rng, tier):
    U, B, S = ("uint", 256), ("bytes",), ("string",)
    A = lambda t, n=None: ("arr", t, n)
    out = []
    for n in (9, 10, 11, 33, 64, 65, 127, 128, 129, 257):
        ts = [gen.leaf(rng) for _ in range(n)]
        if n < 40:
            out.append((ts, gen.rvalues(rng, ts)))
            out.append(([("tup", ts)], [tuple(gen.rvalues(rng, ts))]))
        out.append(([A(U)], [[rng.getrandbits(8) for _ in range(n)]]))
        out.append(([A(("uint", 8), n)], [[rng.getrandbits(8) for _ in range(n)]]))
        out.append(([A(B)], [[b"x" * (i % 3) for i in range(n)]]))
        out.append(([A(B, n)], [[b"" for i in range(n)]]))
        out.append(([A(("tup", [U, S])), U], [[(i, "s" * (i % 2)) for i in range(n)], 7]))
        out.append(([A(("bool",), n), B], [[bool(i % 2) for i in range(n)], b"q"]))
    # every kind of item, many of them
    T = lambda *c: ("tup", list(c))
    kinds = [("uint", 8), ("uint", 256), ("int", 64), ("bool",), ("address",), ("bytesN", 1), ("bytesN", 32), ("bytesN", 20), ("fixed", 128, 18),
             ("ufixed", 8, 1), S, B, T(U, B), T(("bool",), ("address",)), A(U), A(B, 2), A(("bytesN", 4), 3), T(B, T(U)), A(A(("bool",)), 1), T(S)]
    for t in kinds:
        for j in range(4 if tier == "quick" else 16):
            n = rng.choice([16, 17, 20, 25, 31, 32, 33, 34, 40, 48, 50, 64, 65, 66, 80, 100, 101, 128, 129, 130])
            vs = [gen.rvalue(rng, t) for _ in range(n)] if rng.random() < 0.7 else [gen.rvalue(rng, t)] * n
            u = A(t, n) if j % 2 else A(t)
            if j % 4 < 2:
                out.append(([u], [vs]))
            elif j % 4 == 2:
                out.append(([T(u, U)], [(vs, 5)]))
            else:
                out.append(([U, A(T(u, t), 1)], [5, [(vs, vs[0])]]))
        n = rng.choice([17, 24, 33, 40, 65, 70])
        vs = [gen.rvalue(rng, t) for _ in range(n)]
        out.append(([T(*[t] * n)], [tuple(vs)]) if rng.random() < 0.5 else ([t] * n, vs))
    for n in (2048, 4096, 4097, 8191, 20000, 65535, 65536, 70000):
        out.append(([B], [gen.rbytes(rng, n)]))
        out.append(([S, U, B], ["é" * (n // 2), 1, b"tail"]))
        out.append(([A(B)], [[rng.randbytes(n), b"tail", b""]]))
        if tier == "quick" and n >= 8191:
            break
    out.append(([S, S], ["a" * 66000, "b"]))
    for n in (255, 256, 257, 511, 513, 767, 1023, 1025, 4095, 16383, 16385, 32767, 32769):  # around round lengths
        out.append(([B], [rng.randbytes(n)]) if n % 4 == 1 else ([U, S], [n, "x" * n]))
    out += [([B], [b"y" * 65530]), ([S, B], ["z" * 65535, b"y" * 65537])]
    for n in (1024, 4096, 8192) + ((65536,) if tier == "thorough" else ()):  # texts whose bytes straddle round positions
        for c in "é€😀":
            w = len(c.encode())
            out.append(([S], ["a" * rng.randrange(w) + c * (n // w + 1)]))
            out.append(([U, A(S)], [1, ["", "a" * rng.randrange(4) + c * (n // w) + "z", "é"]]))
    for n in (300, 520, 1030):  # more items than fit in a byte, or in a page
        out.append(([A(U)], [[rng.getrandbits(rng.choice([1, 8, 64, 256])) for _ in range(n)]]))
        out.append(([A(B), U], [[rng.randbytes(i % 3) for i in range(n)], 3]))
        out.append(([A(T(U, S))], [[(i, "" if i % 7 else "q") for i in range(n)]]))
    for n in (300, 520):
        out.append(([A(S, n)], [["" if i % 5 else str(i) for i in range(n)]]))
        out.append(([A(("uint", 8), n), B], [[i % 256 for i in range(n)], b"e"]))
    t = U
    for d in range(12):
        t = ("tup", [t]) if d % 3 else A(t, None if d % 2 else 1)
        v = gen.rvalue(rng, t)
        out.append(([t], [v]))
        out.append(([U, t, B], [d, gen.rvalue(rng, t), b"zz"]))
    t = B
    for d in range(10):
        t = ("tup", [t, U]) if d % 2 else A(t, 1 if d % 4 == 0 else None)
        v = b"leaf"
        out.append(([t], [gen.rvalue(rng, t)]))
    for n in (10, 12, 21, 100):
        t = A(A(("uint", 16), n), 2)
        out.append(([t, B], [gen.rvalue(rng, t), b"x"]))
    if tier == "thorough":
        for n in (100000, 131072, 200000):
            out.append(([B, B], [rng.randbytes(n), rng.randbytes(3)]))
        out.append(([A(("uint", 8))], [[i % 256 for i in range(5000)]]))
        out.append(([A(S)], [["é" * (i % 5) for i in range(1500)]]))
    return out


# ------------------------------------------------------ values that do not fit
class E1(IntEnum):
    ONE = 1
    BIG = 300


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyDec(Decimal):
    pass


NT = namedtuple("NT", "a b")


class BadRepr:
    def __repr__(self):
        raise RuntimeError("no repr")


def wrong_kinds():
    return [
        None, 1.0, 0.0, 1.5, float("nan"), float("inf"), 1j, Fraction(1, 2), Fraction(2, 1), object(),
        "", "1", "0x01", "abc", b"", b"1", b"\x01", bytearray(b"1"), True, False, 0, 1, -1, 255, 300,
        Decimal(1), Decimal("1.0"), Decimal("0.5"), Decimal("NaN"), Decimal("sNaN"), Decimal("Infinity"),
        Decimal("-Infinity"), [], (), [1], (1,), [[]], {}, {1: 2}, set(), {1}, frozenset(), range(2),
        memoryview(b"ab"), deque([1]), iter([1]), (x for x in (1, 2)), int, len, E1.ONE, E1.BIG,
        MyStr("abc"), MyBytes(b"abc"), MyDec("1.5"), NT(1, 2), 10**100, -(10**100), 10**5000,
        [10**5000], "0x" + "00" * 20, b"\0" * 20, BadRepr(), [BadRepr()], Ellipsis, "\ud800", ["\udfff"],
        [None], [True], ["a"], [b"a"], (b"a", 1), slice(1), Decimal("1E+1000000"), Decimal("1E-50"),
    ]


NEG_RESIDUE = [  # known finding F4: the only negative values with too many places that are tried
    (("fixed", 8, 1), Decimal("-0.15")),
    (("fixed", 8, 1), Decimal("-0.05")),
    (("fixed", 128, 18), Decimal("-1.0000000000000000001")),
]


def unfit_values(t, rng, tier):
    """Values of about the right kind that must be refused (or just must not be altered)."""
    k = t[0]
    out = []
    if k in ("uint", "int"):
        lo, hi = gen.int_bounds(t)
        out = [lo - 1, hi + 1, lo - 2, hi + 2, hi * 2, hi * 2 + 1, 2 ** t[1], 2 ** (t[1] + 8) + 1,
               -(2 ** t[1]), 2**256, 2**256 + 5, -(2**256), -(2**255) - 1, 2**512, float(1), Decimal(1),
               -1, str(1), lo - 256, hi + 256]
    elif k in ("ufixed", "fixed"):
        lo, hi = gen.int_bounds(t)
        p = t[2]
        for i in (lo - 1, hi + 1, hi * 2, lo - 2, 2**256 + 5, hi + 10**p, lo - 10**p):
            out.append(gen.scaled(i, p))
        lo10, hi10 = -(-lo // 10**p), hi // 10**p
        out += [hi10 + 1, lo10 - 1, 10**90, Decimal("1E+90"), Decimal("1E+1000000")]
        for i in (0, 1, hi, hi - 1, hi // 2, rng.randrange(hi)):
            for frac in ("5", "1", "9", "00000001", "0" * 60 + "1", "5" * 30, "9" * 45, "0" * 1100 + "1",
                         "49", "51", "999"):
                s = str(i) + frac
                out.append(Decimal((0, tuple(map(int, s)), -p - len(frac))))
        out += [Decimal((0, (1,), -p - 1)), Decimal((0, (1,), -p - 1000)), Decimal("1E-2000000"),
                Decimal("NaN"), Decimal("sNaN"), Decimal("Infinity"), Decimal("-Infinity"),
                Decimal("-NaN"), 1.5, 0.1, 1.0]
        if k == "ufixed":
            out += [Decimal((1, (1,), -p)), Decimal((1, (1,), -p - 1)), -1, Decimal("-1E-2000000")]
        if tier == "quick":
            out = [out[i] for i in sorted(rng.sample(range(len(out)), min(len(out), 30)))]
    elif k == "bool":
        out = [0, 1, 2, None, "True", b"\x01", 1.0, [], "", Decimal(1)]
    elif k == "address":
        h = "d3cda913deb6f67967b99d67acdfa1712c293601"
        out = [h[:-1], h + "0", "0x" + h[:-1], "0x" + h + "0", "0x" + h[:-1] + "g", "0x", "", h + "\n",
               " 0x" + h, "0x" + h + " ", "1x" + h, "00" + h, "0x0x" + h[2:], bytes(19), bytes(21), b"",
               bytes(32), bytearray(19), int(h, 16), h.encode(), ("0x" + h).encode(), "0x" + h[:39] + "１",
               bytes(12) + bytes.fromhex(h), "ICAP", None, [h], MyStr("0x" + h), "0x" + "-" + h[1:],
               "0x" + "_" + h[1:], "0b" + h, "x" + h, "0" + h, h[:20] + " " + h[21:], memoryview(bytes(20))]
    elif k == "bytesN":
        n = t[1]
        out = [bytes(n + 1), b"a" * (n + 1), b"a" * (n + 31), bytes(64), b"a" * (n + 256), "a" * n, bytearray(n + 1),
               [1] * n, n, memoryview(bytes(n)), "0x" + "61" * n, None, b"a" * n + b"\0"]
    elif k == "bytes":
        out = ["abc", None, 5, [97], memoryview(b"abc"), "0x00", (97,), True]
    elif k == "string":
        out = [b"abc", None, 5, ["a"], bytearray(b"a"), "\ud800", "\udfff", "a\ud83d\ude00", "\udc80abc",
               "x" * 40 + "\udbff", True]
    return out


def spoiled(rng, t, v):
    """v with one spot deep inside made unfit; None if there is none."""
    k = t[0]
    if k == "arr":
        v = list(v)
        r = rng.random()
        if r < 0.2 and t[2] is not None:
            return v[:-1] if rng.random() < 0.5 else v + [gen.rvalue(rng, t[1])]
        if r < 0.3:
            return rng.choice([None, 5, "ab", b"ab", {}, {1}, iter(v), (x for x in v), True, 1.5])
        if not v:
            return None
        i = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
        x = spoiled(rng, t[1], v[i])
        v[i] = x
        return None if x is None else v
    if k == "tup":
        v = list(v)
        r = rng.random()
        if r < 0.12:
            return tuple(v[:-1])
        if r < 0.24:
            return tuple(v) + (rng.choice([0, None, b"", "x"]),)
        if r < 0.32:
            return rng.choice([None, 5, "ab", b"ab", {}, iter(v), True])
        i = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
        x = spoiled(rng, t[1][i], v[i])
        if x is None:
            return None
        v[i] = x
        return tuple(v)
    bad = [x for x in unfit_values(t, rng, "quick") if x is not None]
    return rng.choice(bad)


def is_bool_on_fixed(t, v):
    k = t[0]
    if k in ("fixed", "ufixed"):
        return isinstance(v, bool) or _neg_residue(t, v)
    try:
        if k == "arr":
            return isinstance(v, (list, tuple, deque, range)) and any(is_bool_on_fixed(t[1], x) for x in v)
        if k == "tup":
            return isinstance(v, (list, tuple)) and any(is_bool_on_fixed(c, x) for c, x in zip(t[1], v))
    except Exception:
        return True
    return False


def _neg_residue(t, v):
    """Negative in-range value with more places than the type has (known finding F4)."""
    if t[0] != "fixed" or not isinstance(v, Decimal) or not v.is_finite() or not v.is_signed():
        return False
    s, d, e = v.as_tuple()
    if -e - t[2] <= 0:
        return False
    cut = -e - t[2]
    return any(d[max(0, len(d) - cut):]) and (t, v) not in NEG_RESIDUE


def unfit_units(tier, seed, salt="unfit"):
    """(group, types, values): values to be judged acceptable or not.  Values whose status is
    not specified (booleans for fixed types) or a known finding are left out."""
    rng = rng_for(seed, salt, tier)
    for g, ts, vs in _unfit_units(tier, seed, rng, salt):
        if not any(is_bool_on_fixed(t, v) for t, v in zip(ts, vs)):
            yield g, ts, vs


def _unfit_units(tier, seed, rng, salt):
    for t, v in NEG_RESIDUE:
        yield "known", [t], [v]
    U = ("uint", 256)
    for t in elementary(tier, rng):
        for v in unfit_values(t, rng, tier):
            yield "unfit", [t], [v]
    kinds = [("uint", 8), ("int", 256), ("fixed", 128, 18), ("ufixed", 8, 1), ("bool",), ("address",),
             ("bytesN", 1), ("bytesN", 32), ("bytes",), ("string",), ("arr", ("uint", 8), None),
             ("arr", ("uint", 8), 1), ("arr", ("bytes",), 2), ("tup", [("uint", 8)]),
             ("tup", [("uint", 8), ("bytes",)]), ("arr", ("tup", [("uint", 8)]), None)]
    for t in kinds:
        for v in wrong_kinds():
            yield "kind", [t], [v]
            if rng.random() < 0.3:
                yield "kind", [U, t], [1, v]
    yield from alike_units(rng)
    n = 5000 if tier == "quick" else 40000
    for i in range(n):
        r = rng_for(seed, salt, i)
        ts = gen.rtypes(r, depth=r.choice([1, 2, 2, 3, 4]))
        vs = gen.rvalues(r, ts)
        j = r.randrange(len(ts))
        x = spoiled(r, ts[j], vs[j])
        if x is None:
            continue
        vs[j] = x
        yield "spoiled", ts, vs
    for n in (40, 101, 130, 300):  # the bad item sits far inside
        for pos in (0, n // 2, n - 2, n - 1):
            a = [i % 256 for i in range(n)]
            a[pos] = rng.choice([256, -1, "1", None])
            yield "far", [("arr", ("uint", 8), None)], [a]
            yield "far", [("arr", ("uint", 8), n)], [a]
            b = [b"x"] * n
            b[pos] = rng.choice(["x", None, 5])
            yield "far", [("arr", ("bytes",), None)], [b]
            c = [(i % 256, b"y") for i in range(n)]
            c[pos] = rng.choice([(256, b"y"), (1, "y"), (1,), (1, b"", 2), 5])
            yield "far", [("arr", ("tup", [("uint", 8), ("bytes",)]), None)], [c]
    for n in (9, 17, 40):
        ts = [gen.leaf(rng) for _ in range(n)]
        for pos in (0, n // 2, n - 1):
            vs = gen.rvalues(rng, ts)
            vs[pos] = spoiled(rng, ts[pos], vs[pos])
            yield "far", ts, vs
            yield "far", [("tup", ts)], [tuple(vs)]
    for t, v, r in deep_units(tier, seed, salt):
        x = spoiled(r, t, v)
        if x is not None:
            yield "deep", [t], [x]
    for d in (1, 3, 6, 9):
        t, v = ("int", 16), 40000
        for i in range(d):
            t, v = (("tup", [t]), (v,)) if i % 2 else (("arr", t, None), [v])
        yield "far", [t], [v]


def alike_units(rng):
    """Items that are equal as Python objects and yet of another kind, next to each other."""
    h = "0x" + "ab" * 20
    for t, fit, odd in [(("uint", 8), 1, [True, 1.0, Decimal(1), E1.ONE, Fraction(1), 1 + 0j]), (("int", 256), 0, [False, 0.0, Decimal(0), Decimal("-0")]),
                        (("bool",), True, [1, 1.0, Decimal(1)]), (("bool",), False, [0, 0.0, Decimal("0.00")]),
                        (("fixed", 128, 18), Decimal(1), [1, 1.0, Decimal("1.000"), 1 + 0j]), (("ufixed", 8, 1), 2, [Decimal(2), 2.0, Decimal("2.00")]),
                        (("string",), "abc", [MyStr("abc")]), (("bytes",), b"ab", [bytearray(b"ab"), MyBytes(b"ab"), memoryview(b"ab")]),
                        (("bytesN", 2), b"ab", [bytearray(b"ab"), memoryview(b"ab")]), (("address",), h, [MyStr(h), "0x" + "AB" * 20, b"\xab" * 20])]:
        for x in odd:
            for vs in ([fit, x], [x, fit], [fit] * 9 + [x], [fit, fit, x, fit]):
                c = rng.choice([list, tuple])
                for k in (list, tuple):
                    yield "alike", [("arr", t, rng.choice([None, len(vs)]))], [k(vs)]
                yield "alike", [("tup", [t] * len(vs))], [c(vs)]
                yield "alike", [t] * len(vs), vs
                yield "alike", [("arr", ("arr", t, None), None)], [c([c([v]) for v in vs])]
                yield "alike", [("arr", ("tup", [t, ("uint", 8)]), None)], [c([(v, 5) for v in vs])]


# ------------------------------------------------------------------ payloads
def word_units(tier, seed):
    """(group, types, payload): one static leaf, good and bad words."""
    rng = rng_for(seed, "word", tier)
    for t in elementary(tier, rng):
        if t in (("bytes",), ("string",)):
            continue
        ws = gen.word_variants(t, rng)
        if tier == "quick" and t[0] in ("fixed", "ufixed"):
            ws = rng.sample(ws, min(8, len(ws)))
        for w in ws:
            yield "word", [t], w
        if t[0] not in ("fixed", "ufixed"):
            w = rng.choice(ws)
            yield "word", [("arr", t, 2)], rng.choice(ws) + w
            yield "word", [t, ("bool",)], w + gen.w32(1)
            yield "word", [("arr", t, None)], gen.w32(32) + gen.w32(2) + rng.choice(ws) + w
            yield "word", [("tup", [t, t])], rng.choice(ws) + w
        yield "word", [t], ws[0][:31]
        yield "word", [t], b""


def payload_units(tier, seed, kinds=None, salt="pl", per=None, random_n=None, shuffle=0.0):
    """(group, types, payload): valid payloads and single targeted mutations of them; kinds
    restricts the mutations, per samples them per base payload."""
    reps = 1 if tier == "quick" else 4
    for rep in range(reps):
        for D in LEAF_D:
            for si, S in enumerate(LEAF_S):
                for i, ts in enumerate(gen.shapes(D, S)):
                    if tier == "quick" and si and (i + si) % 5:
                        continue
                    r = rng_for(seed, salt, rep, D, S, i)
                    vs = gen.rvalues(r, ts, plain=True)
                    b, marks = gen.payload(ts, vs, r if r.random() < shuffle else None)
                    yield "valid", ts, b
                    ms = [(k, m) for k, m in gen.mutations(b, marks, r) if kinds is None or k in kinds]
                    if per is not None and len(ms) > per:
                        ms = r.sample(ms, per)
                    for k, m in ms:
                        yield k, ts, m
    r = rng_for(seed, salt, "big")
    for ts, vs in big_units(r, tier):
        b, marks = gen.payload(ts, vs)
        if len(b) > (20000 if tier == "quick" else 80000):
            continue
        yield "big", ts, b
        ms = [(k, m) for k, m in gen.mutations(b, r.sample(marks, min(len(marks), 8)) + marks[-2:], r) if kinds is None or k in kinds]
        for k, m in r.sample(ms, min(len(ms), 2 if tier == "quick" else 12)):
            yield "big-" + k, ts, m
    for t, v, r in deep_units(tier, seed, salt):
        b, marks = gen.payload([t], [v], r if r.random() < shuffle else None)
        yield "deep", [t], b
        ms = [(k, m) for k, m in gen.mutations(b, marks[-4:] + r.sample(marks, min(len(marks), 3)), r) if kinds is None or k in kinds]
        for k, m in r.sample(ms, min(len(ms), 5 if tier == "quick" else 12)):
            yield "deep-" + k, [t], m
    n = (1800 if tier == "quick" else 12000) if random_n is None else random_n
    for i in range(n):
        r = rng_for(seed, salt, "r", i)
        ts = gen.rtypes(r, depth=r.choice([1, 2, 3, 3, 4]))
        vs = gen.rvalues(r, ts, plain=True)
        b, marks = gen.payload(ts, vs, r if r.random() < max(shuffle, 0.3) else None)
        if len(b) > 6000:
            continue
        yield "valid", ts, b
        ms = [(k, m) for k, m in gen.mutations(b, marks, r) if kinds is None or k in kinds]
        for k, m in r.sample(ms, min(len(ms), 4)):
            yield k, ts, m
        if kinds is None:
            for _ in range(2):
                yield "multi", ts, gen.mutate_many(b, marks, r, r.choice([1, 2, 3, 5]))


def deep_units(tier, seed, salt):
    """(type, value, rng): one thing inside many containers"""
    U = ("uint", 256)
    for d in list(range(3, 15)) + [24, 36, 48]:
        for k in range((6 if tier == "quick" else 24) if d < 15 else 2):
            r = rng_for(seed, salt, "deep", d, k)
            t = r.choice([("bytes",), ("string",), gen.leaf(r), ("tup", [U, ("bytes",)]), ("arr", U, None), ("arr", ("string",), 2), ("arr", gen.leaf(r), 2)])
            v = gen.rvalue(r, t, plain=True)
            for _ in range(d):
                w = r.randrange(6 if k and d < 15 else 1)
                if w < 3:
                    t, v = ("arr", t, None if w < 2 else 1), [v]
                elif w == 3:
                    t, v = ("tup", [t]), (v,)
                else:
                    x = gen.leaf(r)
                    y = gen.rvalue(r, x, plain=True)
                    t, v = (("tup", [x, t]), (y, v)) if w == 4 else (("tup", [t, x]), (v, y))
            yield t, v, r


def note(f, *a):
    from lib import pv

    return f + "(" + ", ".join(pv.brief(x, 220) for x in a) + ")"


def strs(ts, rng=None):
    return [tstr(t, rng) for t in ts]
