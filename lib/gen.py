"""Generators of types, values and payloads.  Generation only: nothing here judges the
implementation, so mistakes here cost coverage, not soundness."""
import random
from decimal import Context, Decimal

CTX = Context(prec=400, Emin=-999999999, Emax=999999999)

# ----------------------------------------------------------------- types
# ("uint",n) ("int",n) ("ufixed",n,p) ("fixed",n,p) ("bool",) ("address",)
# ("bytesN",n) ("bytes",) ("string",) ("arr",t,n|None) ("tup",[t...])


def dyn(t):
    k = t[0]
    if k in ("bytes", "string"):
        return True
    if k == "arr":
        return t[2] is None or dyn(t[1])
    if k == "tup":
        return any(dyn(c) for c in t[1])
    return False


def size(t):
    if dyn(t):
        return 32
    if t[0] == "arr":
        return t[2] * size(t[1])
    if t[0] == "tup":
        return sum(size(c) for c in t[1])
    return 32


def tstr(t, rng=None):
    """Render; with rng, aliases are used now and then."""
    k = t[0]
    alias = rng is not None and rng.random() < 0.5
    if k in ("uint", "int"):
        return k if alias and t[1] == 256 else f"{k}{t[1]}"
    if k in ("ufixed", "fixed"):
        return k if alias and t[1:] == (128, 18) else f"{k}{t[1]}x{t[2]}"
    if k == "bytesN":
        if alias and t[1] == 24:
            return "function"
        if alias and t[1] == 1:
            return "byte"
        return f"bytes{t[1]}"
    if k == "arr":
        return tstr(t[1], rng) + ("[]" if t[2] is None else f"[{t[2]}]")
    if k == "tup":
        return "(" + ",".join(tstr(c, rng) for c in t[1]) + ")"
    return k


INTS = [(k, n) for k in ("uint", "int") for n in range(8, 257, 8)]
BYTESN = [("bytesN", n) for n in range(1, 33)]
SIMPLE = [("bool",), ("address",), ("bytes",), ("string",)]


def fixeds(places=None):
    ps = range(1, 81) if places is None else places
    return [(k, n, p) for k in ("ufixed", "fixed") for n in range(8, 257, 8) for p in ps]


def leaf(rng):
    r = rng.random()
    if r < 0.22:
        return rng.choice([("bytes",), ("string",)])
    if r < 0.32:
        return ("bool",)
    if r < 0.40:
        return ("address",)
    if r < 0.52:
        return ("bytesN", rng.choice([1, 2, 24, 31, 32, rng.randint(1, 32)]))
    if r < 0.64:
        return (
            rng.choice(["fixed", "ufixed"]),
            rng.choice([8, 128, 256, 8 * rng.randint(1, 32)]),
            rng.choice([1, 18, 80, rng.randint(1, 80)]),
        )
    return (
        rng.choice(["uint", "int"]),
        rng.choice([8, 256, 16, 160, 8 * rng.randint(1, 32)]),
    )


def rtype(rng, depth=3, width=4):
    r = rng.random()
    if depth == 0 or r < 0.3:
        return leaf(rng)
    if r < 0.62:
        n = rng.choice([1, 2, 3, rng.randint(1, width)])
        return ("tup", [rtype(rng, depth - 1, width) for _ in range(n)])
    return (
        "arr",
        rtype(rng, depth - 1, width),
        None if rng.random() < 0.5 else rng.choice([1, 2, 2, 3, 3, 5]),
    )


def rtypes(rng, depth=3, width=4, n=None):
    n = rng.choice([1, 1, 2, 3, 4]) if n is None else n
    return [rtype(rng, depth, width) for _ in range(n)]


# Shapes every quick run visits, around one dynamic leaf D and one static leaf S
def shapes(D=("bytes",), S=("uint", 256)):
    A = lambda t, n=None: ("arr", t, n)
    T = lambda *c: ("tup", list(c))
    return [
        [S], [D], [S, D], [D, S], [D, D], [S, S, D], [D, S, D], [S, D, S, D, S],
        [A(S)], [A(D)], [A(S, 1)], [A(S, 2)], [A(S, 3)], [A(D, 1)], [A(D, 2)], [A(D, 3)],
        [A(A(S))], [A(A(D))], [A(A(S, 2))], [A(A(D, 2))], [A(A(S), 2)], [A(A(D), 2)],
        [A(A(S, 2), 3)], [A(A(D, 2), 2)], [A(A(A(S)))], [A(A(A(D, 2)), 2)],
        [T(S)], [T(D)], [T(S, S)], [T(S, D)], [T(D, S)], [T(D, D)], [T(S, S, S, D)],
        [T(S, S), D], [D, T(S, S)], [T(S, S), T(S), D, S], [T(S, D), S, D],
        [A(S, 3), D], [D, A(S, 2)], [A(A(S, 2), 2), D], [D, A(T(S, S), 2), D],
        [A(T(S, S), 2), D], [T(A(S, 2), S), D], [T(T(S, S), S), D], [T(T(T(S), S), D), D],
        [A(T(S, S))], [A(T(S, D))], [A(T(D, D), 2)], [T(A(D))], [T(A(D), D)], [T(A(D, 2), S)],
        [T(T(D))], [T(T(D, S), S), D], [T(S, T(S, T(S, D)))], [T(A(T(A(D))))],
        [A(T(A(S, 2), D))], [A(T(A(T(S, D)), S), 2)], [T(A(T(S, S), 2), D)],
        [A(A(T(S, S), 2), 2), D], [T(D, A(A(S, 2), 2), D)], [A(T(T(S, S), D))],
        [T(A(S), A(S), A(S))], [A(S), A(D), S, A(S, 2), T(S, D)],
    ]


# ---------------------------------------------------------------- values
def int_bounds(t):
    k, n = t[0], t[1]
    return (0, 2**n - 1) if k in ("uint", "ufixed") else (-(2 ** (n - 1)), 2 ** (n - 1) - 1)


def int_specials(t):
    lo, hi = int_bounds(t)
    out = [0, 1, 2, -1, -2, lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, lo // 2, lo // 2 - 1]
    for k in range(8, t[1] + 1, 8):
        out += [2**k - 1, 2**k, 2 ** (k - 1), 2 ** (k - 1) - 1]
        out += [-(2 ** (k - 1)), -(2 ** (k - 1)) - 1, -(2**k), -(2**k) + 1]
    seen, res = set(), []
    for v in out:
        if lo <= v <= hi and v not in seen:
            seen.add(v)
            res.append(v)
    return res


def scaled(i, p):
    return Decimal((1 if i < 0 else 0, tuple(int(c) for c in str(abs(i))), -p))


def dec_variants(d, rng):
    """The same number written in other ways."""
    s, digits, e = d.as_tuple()
    r = rng.random()
    if r < 0.35:
        return d
    if r < 0.55:  # trailing zeros
        z = rng.choice([1, 2, 5, 40])
        return Decimal((s, digits + (0,) * z, e - z))
    ds = list(digits)  # normalized
    while len(ds) > 1 and ds[-1] == 0:
        ds.pop()
        e += 1
    if ds == [0]:
        e = rng.choice([0, -3, 5])
    if r < 0.9:
        return Decimal((s, tuple(ds), e))
    if e >= 0 and e < 100:
        return int(Decimal((s, tuple(ds), e)))
    return d


TEXTS = [
    "", "a", "abc", "\x00", "a\x00", "\x00a", "abc\x00\x00", " ", "\ufeff", "\ufeffabc", "a\ufeff",
    "\n", "\r\n", "\r", "\t", "\x1a", "\x7f", "\x80", "\xa0", "\xff", "é", "e\u0301", "ß", "ſ",
    "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufffd", "\ufffe", "\uffff", "\U00010000",
    "\U0001f600", "\U0010ffff", "日本語テキスト", "🙂" * 8, "ab" * 15 + "é", "a" * 30 + "€",
    "a" * 29 + "🙂", "\u2028", "\u202e", "\\x41", "%s{}", "0x", "\u0130", "K",
] + ["x" * n for n in (31, 32, 33, 63, 64, 65)]
LENS = [0, 1, 2, 3, 20, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129]
BIGLENS = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025]


def rbytes(rng, n):
    r = rng.random()
    if r < 0.12:
        return bytes(n)
    if r < 0.22:
        return b"\xff" * n
    if r < 0.32 and n:
        return rng.randbytes(n - 1) + b"\x00"
    if r < 0.42 and n:
        return b"\x00" + rng.randbytes(n - 1)
    return rng.randbytes(n)


def rtext(rng, n=None):
    if n is None and rng.random() < 0.5:
        return rng.choice(TEXTS)
    n = rng.choice(LENS) if n is None else n
    pools = [
        lambda: chr(rng.randint(32, 126)),
        lambda: chr(rng.randint(0, 0x7F)),
        lambda: chr(rng.randint(0x80, 0x7FF)),
        lambda: chr(rng.choice([rng.randint(0x800, 0xD7FF), rng.randint(0xE000, 0xFFFF)])),
        lambda: chr(rng.randint(0x10000, 0x10FFFF)),
    ]
    p = rng.choice(pools + [lambda: rng.choice(pools)()])
    return "".join(p() for _ in range(n))


ADDRS = [
    bytes(20), b"\xff" * 20, bytes(19) + b"\x01", b"\x01" + bytes(19), bytes(range(20)),
    bytes.fromhex("d3cda913deb6f67967b99d67acdfa1712c293601"), bytes(10) + b"\xab" * 10,
]


def addr_forms(b, rng=None):
    h = b.hex()
    mixed = "".join(c.upper() if i % 3 else c for i, c in enumerate(h))
    forms = ["0x" + h, h, "0x" + h.upper(), "0X" + h, b, bytearray(b), "0x" + mixed, mixed]
    return forms if rng is None else rng.choice(forms)


def rvalue(rng, t, big=False, plain=False):
    """A random encodable value; plain: canonical form only."""
    k = t[0]
    if k in ("uint", "int"):
        lo, hi = int_bounds(t)
        r = rng.random()
        if r < 0.5:
            return rng.choice(int_specials(t))
        v = rng.getrandbits(rng.randint(1, t[1]))
        v = -v if lo < 0 and rng.random() < 0.5 else v
        return max(lo, min(hi, v))
    if k in ("ufixed", "fixed"):
        i = rvalue(rng, ("uint" if k == "ufixed" else "int", t[1]))
        d = scaled(i, t[2])
        return d if plain else dec_variants(d, rng)
    if k == "bool":
        return rng.random() < 0.5
    if k == "address":
        b = rng.choice(ADDRS) if rng.random() < 0.4 else rng.randbytes(20)
        return "0x" + b.hex() if plain else addr_forms(b, rng)
    if k == "bytesN":
        n = t[1] if plain or rng.random() < 0.6 else rng.randint(0, t[1])
        b = rbytes(rng, n)
        return bytearray(b) if not plain and rng.random() < 0.1 else b
    if k == "bytes":
        n = rng.choice(BIGLENS if big else LENS)
        b = rbytes(rng, n)
        return bytearray(b) if not plain and rng.random() < 0.1 else b
    if k == "string":
        return rtext(rng, rng.choice(BIGLENS) if big else None)
    if k == "arr":
        n = t[2]
        if n is None:
            n = rng.choice([0, 1, 1, 2, 2, 3, 4] + ([17, 33] if big else []))
        items = [rvalue(rng, t[1], False, plain) for _ in range(n)]
        return tuple(items) if plain or rng.random() < 0.4 else items
    items = [rvalue(rng, c, False, plain) for c in t[1]]
    return tuple(items) if plain or rng.random() < 0.6 else items


def rvalues(rng, ts, big=False, plain=False):
    return [rvalue(rng, t, big, plain) for t in ts]


# ------------------------------------------------- payloads with a layout
class Mark:
    """A word or region of a payload: kind, position, and what mutations need."""

    __slots__ = ("kind", "pos", "n", "org", "head_end", "t", "val")

    def __init__(self, kind, pos, n=32, org=0, head_end=0, t=None, val=0):
        self.kind, self.pos, self.n = kind, pos, n
        self.org, self.head_end, self.t, self.val = org, head_end, t, val


def w32(i):
    return (i % 2**256).to_bytes(32, "big")


def abs_num(t, v):
    if t[0] in ("uint", "int"):
        return int(v)
    if isinstance(v, int):
        return v * 10 ** t[2]
    s, d, e = v.as_tuple()
    n = int("".join(map(str, d)))
    e += t[2]
    n = n * 10**e if e >= 0 else n // 10 ** (-e)
    return -n if s else n


def addr_bytes(v):
    if isinstance(v, str):
        return bytes.fromhex(v[-40:])
    return bytes(v)


def enc_tail(t, v, pos, marks, rng=None):
    """Body of t at absolute position pos."""
    k = t[0]
    if k in ("bytes", "string"):
        b = v.encode("utf8") if k == "string" else bytes(v)
        marks.append(Mark("len", pos, t=t, val=len(b)))
        marks.append(Mark("content", pos + 32, len(b), t=t))
        pad = -len(b) % 32
        marks.append(Mark("pad", pos + 32 + len(b), pad, t=t))
        return w32(len(b)) + b + bytes(pad)
    if k == "arr":
        ts = [t[1]] * len(v)
        if t[2] is None:
            marks.append(Mark("count", pos, t=t, val=len(v)))
            return w32(len(v)) + enc_items(ts, v, pos + 32, marks, rng)
        return enc_items(ts, v, pos, marks, rng)
    if k == "tup":
        return enc_items(t[1], v, pos, marks, rng)
    marks.append(Mark("word", pos, t=t))
    if k in ("uint", "int", "fixed", "ufixed"):
        return w32(abs_num(t, v))
    if k == "bool":
        return w32(int(v))
    if k == "address":
        return bytes(12) + addr_bytes(v)
    return bytes(v).ljust(32, b"\0")


def enc_items(ts, vs, org, marks, rng=None):
    """rng: lay the tails out in random order with gaps and shared parts."""
    head_end = org + sum(size(t) for t in ts)
    heads, pos, pend = [], org, []
    for t, v in zip(ts, vs):
        if dyn(t):
            heads.append(None)
            pend.append((len(heads) - 1, pos, t, v))
            pos += 32
        else:
            heads.append(enc_tail(t, v, pos, marks, rng))
            pos += size(t)
    order = list(range(len(pend)))
    if rng is not None:
        rng.shuffle(order)
    tails, at, done = b"", head_end, {}
    for o in order:
        hi, hp, t, v = pend[o]
        key = (tstr(t), repr(v))
        if rng is not None and key in done and rng.random() < 0.7:
            off = done[key]
        else:
            if rng is not None and rng.random() < 0.4:
                gap = rng.randbytes(rng.choice([1, 5, 31, 32, 33, 64]))
                tails += gap
                at += len(gap)
            off = at - org
            body = enc_tail(t, v, at, marks, rng)
            tails += body
            at += len(body)
            done[key] = off
        heads[hi] = w32(off)
        marks.append(Mark("off", hp, org=org, head_end=head_end, t=t, val=off))
    return b"".join(heads) + tails


def payload(ts, vs, rng=None):
    marks = []
    return enc_items(ts, vs, 0, marks, rng), marks


BIGS = [2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64, 2**128, 2**255, 2**256 - 1, 2**256 - 32]


def put(b, pos, new):
    return b[:pos] + new + b[pos + len(new):]


def off_targets(b, m):
    L = len(b)
    org, he = m.org, m.head_end - m.org
    vals = [0, 1, 31, 32, 33, 64, m.val - 32, m.val - 1, m.val + 1, m.val + 31, m.val + 32,
            m.val + 64, he - 33, he - 32, he - 31, he - 1, he, he + 1, L - org - 33, L - org - 32,
            L - org - 31, L - org - 1, L - org, L - org + 1, L - org + 32, L, L - 1, L - 32,
            m.pos, m.pos - org, m.head_end]
    vals += BIGS + [2**32 + m.val, 2**64 + m.val, 2**128 + m.val, 2**255 + m.val,
                    2**256 - org, 2**256 - m.val, 2**256 - 1 - org]
    return [v for v in dict.fromkeys(vals) if 0 <= v < 2**256 and v != m.val]


def len_targets(b, m):
    rest = len(b) - m.pos - 32
    vals = [0, 1, m.val - 32, m.val - 1, m.val + 1, m.val + 31, m.val + 32, rest - 1, rest,
            rest + 1, rest + 32, rest // 32, rest // 32 + 1, -(-m.val // 32) * 32, len(b)]
    vals += BIGS + [2**64 + m.val, 2**255 + m.val, 2**256 - 31, 2**256 - 64, 2**61, 2**59]
    return [v for v in dict.fromkeys(vals) if 0 <= v < 2**256 and v != m.val]


def word_variants(t, rng):
    """Words for a static leaf, good and bad."""
    k = t[0]
    out = [w32(0), w32(1), w32(2), b"\xff" * 32, w32(2**255), w32(2**248), w32(256), w32(255)]
    if k in ("uint", "int", "fixed", "ufixed"):
        n = t[1]
        for v in (2**n - 1, 2**n, 2 ** (n - 1), 2 ** (n - 1) - 1, 2**n + 1, -1, -(2 ** (n - 1)),
                  -(2 ** (n - 1)) - 1, -(2**n), -(2**n) - 1, 2**n + 2 ** (n - 1)):
            out.append(w32(v))
        k8 = n // 8
        for i in {0, 1, 31 - k8, 31 - k8 - 1, rng.randrange(0, 32)}:
            if 0 <= i < 32:
                out.append(put(w32(rng.getrandbits(n - 1)), i, bytes([rng.choice([1, 0x80, 0xFF])])))
                out.append(put(w32(-1 - rng.getrandbits(n - 1)), i,
                               bytes([rng.choice([0, 0x7F, 0xFE])])))
    elif k == "bool":
        out += [w32(i) for i in (3, 0x80, 0x81, 0x100, 0x101, 0x10001)]
        out += [put(w32(j), i, b"\x01") for i in (0, 1, 15, 29, 30) for j in (0, 1)]
    elif k == "address":
        a = rng.randbytes(20)
        out += [bytes(12) + a]
        out += [put(bytes(12) + a, i, bytes([rng.choice([1, 0xFF])])) for i in (0, 5, 10, 11)]
    elif k == "bytesN":
        n = t[1]
        a = rng.randbytes(n)
        out += [a.ljust(32, b"\0")]
        out += [put(a.ljust(32, b"\0"), i, bytes([rng.choice([1, 0x80, 0xFF])]))
                for i in {n, n + 1, 31, 30, rng.randrange(0, 32)} if n <= i < 32]
    return list(dict.fromkeys(out))


def mutations(b, marks, rng):
    """All the targeted single mutations of a payload, as (what, bytes)."""
    for m in marks:
        if m.kind == "off":
            for v in off_targets(b, m):
                yield "off", put(b, m.pos, w32(v))
        elif m.kind in ("len", "count"):
            for v in len_targets(b, m):
                yield m.kind, put(b, m.pos, w32(v))
        elif m.kind == "pad" and m.n:
            for i in {0, m.n - 1, rng.randrange(m.n)}:
                yield "pad", put(b, m.pos + i, bytes([rng.choice([1, 0x80, 0xFF])]))
            yield "pad", put(b, m.pos, b"\xff" * m.n)
        elif m.kind == "word":
            for wd in word_variants(m.t, rng):
                yield "word", put(b, m.pos, wd)
        elif m.kind == "content" and m.n:
            i = rng.randrange(m.n)
            yield "content", put(b, m.pos + i, bytes([rng.choice([0, 0x80, 0xC0, 0xED, 0xFF])]))
    L = len(b)
    cuts = {0, 1, 31, 32, 33, L - 1, L - 31, L - 32, L - 33}
    for m in marks:
        cuts |= {m.pos, m.pos + 1, m.pos + m.n, m.pos + m.n - 1}
    for c in sorted(c for c in cuts if 0 <= c < L):
        yield "cut", b[:c]
    for x in (b"\0", b"\1", bytes(31), bytes(32), b"\xff" * 32, b"\xff" * 33):
        yield "ext", b + x


def mutate_many(b, marks, rng, n):
    """n random mutations on top of each other."""
    for _ in range(n):
        r = rng.random()
        if r < 0.55 and marks:
            m = rng.choice(marks)
            if m.kind == "off":
                b = put(b, m.pos, w32(rng.choice(off_targets(b, m) or [0])))
            elif m.kind in ("len", "count"):
                b = put(b, m.pos, w32(rng.choice(len_targets(b, m) or [0])))
            elif m.kind == "pad" and m.n:
                b = put(b, m.pos + rng.randrange(m.n), bytes([rng.randrange(1, 256)]))
            elif m.kind == "word":
                b = put(b, m.pos, rng.choice(word_variants(m.t, rng)))
            elif m.kind == "content" and m.n:
                b = put(b, m.pos + rng.randrange(m.n), bytes([rng.randrange(256)]))
        elif r < 0.7 and b:
            b = put(b, rng.randrange(len(b)), bytes([rng.randrange(256)]))
        elif r < 0.8 and b:
            b = b[: rng.randrange(len(b) + 1)]
        elif r < 0.9 and len(b) >= 64:
            i, j = (32 * rng.randrange(len(b) // 32) for _ in range(2))
            b = put(b, i, b[j: j + 32])
        else:
            b = b + rng.randbytes(rng.choice([1, 31, 32, 33]))
    return b


def rng_for(seed, *salt):
    return random.Random(repr((seed, salt)))
