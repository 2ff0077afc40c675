"""A pool of concrete library calls for the abstract calls of Session.tla / Overlap.tla, and
running histories of them in forked children of a process that has made no call yet."""
import decimal
import json
import os
import sys
from decimal import Decimal

from . import customs, gen, pv, rec
from .gen import rng_for

A = lambda t, n=None: ("arr", t, n)
T = lambda *c: ("tup", list(c))
U, B, S = ("uint", 256), ("bytes",), ("string",)

TYPES = {  # shape -> types; custom names only where the registry knows them
    "B": [[B], [S], [U, B], [B, S]],
    "T": [[T(U, B)], [T(S)], [T(T(B, U), S)], [U, T(B, B)]],
    "A": [[A(B)], [A(S, 2)], [A(A(B, 2))], [A(T(U, B))], [A(T(B), 2)]],
    "S": [[("uint", 8)], [("bool",), ("address",)], [A(("int", 16), 2)], [T(("bytesN", 3), ("fixed", 128, 18))], [A(("uint", 8))]],
}
EXTRA = {"B": [[("cdy",)], [("cdt",)]], "T": [[T(("cdy",), ("cdt",))], [T(("cst",), ("cwd",), ("cda",))]],
         "A": [[A(("cdy",))], [A(("cdt",), 2)]], "S": [[("cst",), ("cwd",)], [A(("cst",), 3)]]}


class Env:
    """Registries 1..3 of Session.tla; nothing is looked up here."""

    def __init__(self):
        import eth_abi
        from eth_abi import decoding as d
        from eth_abi import encoding as e
        from eth_abi.codec import ABICodec
        from eth_abi.registry import BaseEquals, registry

        r2 = registry.copy()
        for label, en, de in (("bytes", e.ByteStringEncoder, d.ByteStringDecoder), ("string", e.TextStringEncoder, d.StringDecoder)):
            r2.unregister(label)
            r2.register(BaseEquals(label, with_sub=False), en(), de(), label=label)
        for i, name in enumerate(customs.SUB):
            st = ["lib", "inst", "cls", "obj", "fn"][i]
            customs.register(r2, name, "lib" if name in ("cdy", "cdt") else st, "lib" if name in ("cdy", "cdt") else st, "str")
        r3 = r2.copy()
        self.regs = {1: registry, 2: r2, 3: r3}
        self.codecs = {1: eth_abi, 2: ABICodec(r2), 3: ABICodec(r3)}
        self.list = []  # one list object used for the types of several calls
        self.buf = bytearray()
        self.held = {}


def dec_call(ts, b, r, st):
    def run(env):
        return rec.call(env.codecs[r].decode, ts, b, strict=bool(st))[0] if st == 0 or len(b) % 64 else rec.call(env.codecs[r].decode, ts, b)[0]
    return run


def enc_call(ts, vs, r):
    return lambda env: rec.enc(env.codecs[r].encode, ts, vs)[0]


def ask_call(t, v, r):
    return lambda env: rec.call(env.codecs[r].is_encodable, t, v)[0]


def held_call(t, b, r, st, early):
    """Decoding with a decoder object obtained from the registry, at once or at the beginning."""
    def run(env):
        from eth_abi.decoding import ContextFramesBytesIO

        def f():
            d = env.held.get((r, t, st)) if early else None
            if d is None:
                d = env.regs[r].get_decoder(t, strict=bool(st))
            return d(ContextFramesBytesIO(b))
        return rec.call(f)[0]
    run.hold = (r, t, st)
    return run


def pool(seed):
    """{abstract call: [(text, function of the environment)]}"""
    out = {}

    def add(key, text, f):
        out.setdefault(key, []).append((text, f))

    for sh in TYPES:
        for r in (1, 2, 3):
            for j, ts in enumerate(TYPES[sh] + (EXTRA[sh] if r > 1 else [])):
                rng = rng_for(seed, "pool", sh, j)
                us = [customs.sub(t) for t in ts]
                st_ = [gen.tstr(t) for t in ts]
                vs = gen.rvalues(rng, us, plain=True)
                if not any(len(x) for x in vs if isinstance(x, (tuple, bytes, str))):
                    vs = gen.rvalues(rng, us, plain=True)
                good, marks = gen.payload(us, vs)
                pads = [m for m in marks if m.kind == "pad" and m.n]
                words = [m for m in marks if m.kind == "word"]
                offs = [m for m in marks if m.kind == "off"]
                pay = {"good": [good], "slack": [], "bad": [good[:31], good[: len(good) // 2]]}
                if pads:
                    m = pads[-1]
                    pay["slack"] += [gen.put(good, m.pos + m.n - 1, b"\x07"), good[: m.pos] if m.pos + m.n == len(good) else gen.put(good, m.pos, b"\1")]
                elif words and sh == "S":
                    m = words[0]
                    pay["slack"].append(gen.put(good, m.pos, b"\x55" + good[m.pos + 1: m.pos + 31] + b"\x55"))
                else:
                    pay["slack"].append(good + b"\0")
                if offs:
                    m = offs[-1]
                    pay["bad"] += [gen.put(good, m.pos, gen.w32(0)), gen.put(good, m.pos, gen.w32(len(good)))]
                for p, bs in pay.items():
                    for b in bs:
                        for s in (0, 1):
                            add(("dec", r, sh, s, p), f"r{r}.decode({st_}, {b.hex()}, strict={bool(s)})", dec_call(st_, b, r, s))
                            if sh in "BA" and p != "bad" and r < 3 and len(st_) == 1:
                                # a tail starts where the offset points
                                for early in (0, 1):
                                    add(("held", r, sh, s, p), f"r{r}.get_decoder({st_[0]}, strict={bool(s)})({b[32:].hex()}) held={early}",
                                        held_call(st_[0], b[32:], r, s, early))
                if r < 3:
                    bad = list(vs)
                    bad[0] = rng.choice([None, {}, 2.5, -(2**300)])
                    add(("enc", r, sh, 1, "good"), f"r{r}.encode({st_}, {pv.brief(vs)})", enc_call(st_, vs, r))
                    add(("enc", r, sh, 1, "bad"), f"r{r}.encode({st_}, {pv.brief(bad)})", enc_call(st_, bad, r))
                    t, v = (st_[0], vs[0]) if len(st_) == 1 else ("(" + ",".join(st_) + ")", tuple(vs))
                    w = bad[0] if len(st_) == 1 else tuple(bad)
                    add(("ask", r, sh, 1, "good"), f"r{r}.is_encodable({t}, {pv.brief(v)})", ask_call(t, v, r))
                    add(("ask", r, sh, 1, "bad"), f"r{r}.is_encodable({t}, {pv.brief(w)})", ask_call(t, w, r))
    for t, name in (("U", ["uint256", "uint", "int8", "uint8[1]", "(uint8)"]), ("Bool", ["bool", "bool[1]", "(bool)"])):
        for s in name:
            w = (lambda v: [v]) if "[" in s or "(" in s else (lambda v: v)
            for p, v in (("one", 1), ("true", True)):
                add(("val", 1, t, 1, p), f"encode([{s}], [{w(v)}])", enc_call([s], [w(v)], 1))
                add(("val", 1, t, 1, p), f"is_encodable({s}, {w(v)})", ask_call(s, w(v), 1))
    for p, ss in (("good", ["(uint256,bytes[2][])[]", "uint256", "foo", "(a,b)", "fixed128x18[3]"]),
                  ("bad", ["", "uint256[", "(a,", "Foo", "uint256 ", "(uint256)x", "uint0256"])):
        for s in ss:
            add(("parse", 1, "S", 1, p), f"parse({s!r})", parse_call(s))
    for k, (text, f) in enumerate(traps(), 1):
        add(("trap", k), text, f)
    return out


def parse_call(s):
    def run(env):
        from eth_abi.grammar import normalize, parse

        def f():
            a = parse(s)
            return (a.to_type_str(), a.is_dynamic if a.arrlist else None, str(a.arrlist), normalize(s))
        return rec.call(f)[0]
    return run


def traps():
    """Calls that go wrong when something is remembered under too coarse a key."""
    import eth_abi
    from eth_abi.packed import encode_packed, is_encodable_packed

    out = []

    def enc(ts, vs, f=None):
        out.append((f"{(f or eth_abi.encode).__name__}({ts}, {pv.brief(vs)})", lambda env: rec.enc(f or eth_abi.encode, ts, vs)[0]))

    def dec(ts, b, strict=True):
        out.append((f"decode({ts}, {b.hex()}, {strict})", lambda env: rec.call(eth_abi.decode, ts, b, strict=strict)[0]))

    def ask(t, v, f=None):
        out.append((f"{(f or eth_abi.is_encodable).__name__}({t!r}, {pv.brief(v)})", lambda env: rec.call(f or eth_abi.is_encodable, t, v)[0]))

    # equal keys, different meaning
    enc(["uint8"], [1]), enc(["uint8"], [1.0]), enc(["uint8"], [Decimal(1)]), enc(["bool"], [True]), enc(["bool"], [1])
    enc(["fixed8x1"], [Decimal("1.0")]), enc(["fixed8x1"], [1]), enc(["ufixed128x18"], [Decimal("0E-18")])
    enc(["uint8[]"], [[1, 0]]), enc(["uint8[]"], [[True, False]]), enc(["bool[]"], [[True, False]]), enc(["bool[]"], [[1, 0]])
    enc(["(uint8,bool)"], [(1, True)]), enc(["(uint8,bool)"], [(True, 1)]), enc(["(bool,uint8)"], [(True, 1)])
    enc(["uint8"], [1], encode_packed), enc(["uint256"], [1]), enc(["uint"], [1]), enc(["uint256"], [1], encode_packed)
    enc(["(uint8,uint8)"], [(1, 2)]), enc(["(uint8", "uint8)"], [1, 2]), enc(["uint8", "uint8"], [1, 2]), enc(["uint8,uint8"], [(1, 2)])
    enc(["bytes2"], [b"ab"]), enc(["bytes"], [b"ab"]), enc(["bytes3"], [b"ab"]), enc(["string"], ["ab"]), enc(["string"], [b"ab"])
    enc(["address"], ["0x" + "Ab" * 20]), enc(["address"], ["0x" + "ab" * 20]), enc(["address"], [b"\xab" * 20])
    ask("uint8", 1), ask("uint8", True), ask("bool", 1), ask("bool", True), ask("uint8", 256), ask("uint8[2]", [1, 2, 3])
    ask("(uint8,bytes)", (1, b"")), ask("uint8", 1, is_encodable_packed), ask("(uint8,bytes)", (1, b"")), ask("nope", 1)
    # same length, same beginning, same end
    w = gen.w32
    dec(["bytes"], w(32) + w(2) + b"ab".ljust(32, b"\0")), dec(["bytes"], w(32) + w(3) + b"abc".ljust(32, b"\0"))
    dec(["string"], w(32) + w(2) + b"ab".ljust(32, b"\0")), dec(["bytes"], w(32) + w(2) + b"ab".ljust(32, b"\1"))
    dec(["bytes"], w(32) + w(2) + b"ab".ljust(32, b"\1"), False), dec(["uint256[2]"], w(1) + w(2)), dec(["(uint256,uint256)"], w(1) + w(2))
    dec(["uint256", "uint256"], w(1) + w(2)), dec(["uint8"], w(1)), dec(["bool"], w(1)), dec(["uint8"], w(256)), dec(["int8"], w(2**256 - 1))
    dec(["fixed8x1"], w(2**256 - 1)), dec(["fixed8x2"], w(2**256 - 1)), dec(["uint8", "uint8"], w(1) + w(2)), dec(["(uint8", "uint8)"], w(1) + w(2))

    # one list object, other contents; one buffer, other contents
    def shared(ts, vs, text):
        def run(env):
            env.list[:] = ts
            return rec.enc(eth_abi.encode, env.list, vs)[0]
        out.append((f"encode(L := {ts}, {vs}) {text}", run))

    shared(["uint8"], [7], ""), shared(["bytes1"], [b"\7"], ""), shared(["uint8", "uint8"], [7, 8], "")

    def shbuf(ts, b):
        def run(env):
            env.buf[:] = b
            return rec.call(eth_abi.decode, ts, env.buf)[0]
        out.append((f"decode({ts}, buffer := {b.hex()})", run))

    shbuf(["uint256"], w(5)), shbuf(["uint256"], w(6))

    def under(prec, traps_, ts, vs):
        def run(env):
            with decimal.localcontext() as c:
                c.prec, c.Emax, c.Emin = prec, 9, -9
                for t in traps_:
                    c.traps[t] = True
                r, b = rec.enc(eth_abi.encode, ts, vs)
                q, _ = rec.call(eth_abi.decode, ts, b) if b is not None else (r, None)
            return {"ok": 1, "a": [r, q]}
        out.append((f"encode and decode({ts}, {vs}) under precision {prec}", run))

    under(3, [decimal.Inexact, decimal.Rounded], ["fixed256x80"], [Decimal("0.12345678901234567890")])
    under(1, [], ["ufixed128x18"], [Decimal("123456789.000000000000000001")])
    enc(["fixed256x80"], [Decimal("0.12345678901234567890")]), enc(["ufixed128x18"], [Decimal("123456789.000000000000000001")])
    return out



def key(c):
    return ("trap", c["k"]) if c["o"] == "trap" else (c["o"], c["r"], c["t"], c["st"], c["p"])


def forked(f):
    """f()'s JSON result, computed in a child"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = json.dumps(f()).encode()
            with os.fdopen(wr, "wb") as o:
                o.write(data)
            code = 0
        except BaseException as e:  # noqa
            sys.stderr.write(f"child: {type(e).__name__}: {e}\n")
            c = rec.crash(e)
            if c is not None:
                with os.fdopen(wr, "wb") as o:
                    o.write(json.dumps(c.args).encode())
                code = 9
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as i:
        data = i.read()
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 9:
        raise rec.Crash(*json.loads(data))
    if status != 0:
        raise RuntimeError(f"child ended with {status}")
    return json.loads(data)


def theme(seed, i, n=48):
    """n closely related calls: one value under many types, one payload under many types, many
    values and payloads under one type."""
    import eth_abi
    from eth_abi.packed import encode_packed, is_encodable_packed

    r = rng_for(seed, "theme", i)
    out = []

    def add(what, ts, x, **k):
        st = [t if isinstance(t, str) else gen.tstr(t, r) for t in ts]
        if what == "enc":
            f = lambda env: rec.enc(eth_abi.encode, st, x)[0]
        elif what == "packed":
            f = lambda env: rec.enc(encode_packed, st, x)[0]
        elif what == "ask":
            f = lambda env: rec.call(eth_abi.is_encodable, st[0], x[0])[0]
        elif what == "askp":
            f = lambda env: rec.call(is_encodable_packed, st[0], x[0])[0]
        else:
            f = lambda env: rec.call(eth_abi.decode, st, x, **k)[0]
        out.append((f"{what}({st}, {x.hex() if what == 'dec' else pv.brief(x)}{k or ''})", f))

    def near(t):
        """types that look like t"""
        k = t[0]
        c = [t, A(t), A(t, 1), A(t, 2), T(t), T(t, t), A(A(t, 1)), T(A(t))]
        if k in ("uint", "int"):
            c += [(r.choice(["uint", "int"]), 8 * r.randint(1, 32)) for _ in range(6)]
        elif k in ("ufixed", "fixed"):
            c += [(r.choice(["ufixed", "fixed"]), t[1] if r.random() < .6 else 8 * r.randint(1, 32), r.randint(1, 80)) for _ in range(12)]
        elif k == "bytesN":
            c += [("bytesN", r.randint(1, 32)) for _ in range(6)] + [B, S, ("address",)]
        else:
            c += [B, S, ("address",), ("bool",), ("uint", 256), ("bytesN", 32)]
        return c

    def fit(t, v):
        """v put where type t wants it"""
        while t[0] in ("arr", "tup"):
            n_ = (t[2] if t[2] is not None else r.randint(0, 2)) if t[0] == "arr" else len(t[1])
            return [fit(t[1] if t[0] == "arr" else t[1][j], v) for j in range(n_)]
        return v

    kind = i % 4
    base = gen.leaf(r)
    if kind == 0 and r.random() < 0.5:
        base = (r.choice(["ufixed", "fixed"]), 256, r.randint(1, 80))
    cand = near(base)
    vals = [gen.rvalue(r, base), gen.rvalue(r, base), 0, 1, True, Decimal("0"), Decimal("0.1"), Decimal("1"), b"", b"ab", "", "ab", -1]
    if kind == 0:  # one value, many types
        v = r.choice(vals[:2] + [r.choice(vals)])
        while len(out) < n:
            t = r.choice(cand)
            add(r.choice(["enc", "enc", "packed", "ask", "askp"]), [t], [fit(t, v)])
    elif kind == 1:  # one payload, many types
        t = r.choice(cand)
        good, _ = gen.payload([t], gen.rvalues(r, [t], plain=True))
        if r.random() < 0.3:
            good = b"".join(gen.w32(r.choice([0, 1, 2, 32, 64, 96, 2**256 - 1])) for _ in range(r.randint(1, 5)))
        if not good:
            good = gen.w32(0)
        bs = [good, good + bytes(32), good[: len(good) - r.choice([1, 32])]]
        while len(out) < n:
            t = r.choice(cand)
            add("dec", [t] if r.random() < 0.8 else [t, r.choice(cand)], r.choice(bs), strict=r.random() < 0.5)
    elif kind == 2:  # one type, many values and payloads
        t = gen.rtype(r, 2, 3) if r.random() < 0.6 else base
        while len(out) < n:
            v = gen.rvalue(r, t)
            if r.random() < 0.2:
                v = r.choice([None, {}, 2.5, -(2**300), [], "x", fit(t, r.choice(vals))])
            w = r.choice(["enc", "packed", "ask", "askp", "dec", "dec"])
            if w == "dec":
                b, marks = gen.payload([t], gen.rvalues(r, [t], plain=True), r if r.random() < 0.5 else None)
                if r.random() < 0.5:
                    b = gen.mutate_many(b, marks, r, 1)
                add("dec", [t], b, strict=r.random() < 0.6)
            else:
                add(w, [t], [v])
    else:  # anything
        ts = [gen.rtype(r, 2, 3) for _ in range(5)]
        while len(out) < n:
            us = [r.choice(ts) for _ in range(r.randint(1, 3))]
            vs = gen.rvalues(r, us, plain=r.random() < 0.5)
            w = r.choice(["enc", "packed", "ask", "dec", "dec"])
            if w == "dec":
                b, marks = gen.payload(us, gen.rvalues(r, us, plain=True))
                add("dec", us, gen.mutate_many(b, marks, r, r.randint(0, 2)), strict=r.random() < 0.6)
            else:
                add(w, us, vs)
    return out


def flood(seed, i, n=2600):
    """A long session: many types, values and payloads, few of them twice."""
    r = rng_for(seed, "flood", i)
    out = []
    for j in range(n // 96):
        out += theme(seed, 100000 + 1000 * i + j)
    import eth_abi

    def enc(ts, vs):
        return (f"enc({ts}, {pv.brief(vs)})", lambda env: rec.enc(eth_abi.encode, ts, vs)[0])

    def dec(ts, b, strict):
        return (f"dec({ts}, {b.hex()}, {strict})", lambda env: rec.call(eth_abi.decode, ts, b, strict=strict)[0])

    def ask(t, v):
        return (f"ask({t}, {pv.brief(v)})", lambda env: rec.call(eth_abi.is_encodable, t, v)[0])

    while len(out) < n:
        t = gen.rtype(r, 3, 4)
        s = gen.tstr(t, r)
        v = gen.rvalue(r, t, plain=True)
        b, marks = gen.payload([t], [v])
        out += [enc([s], [v]), ask(s, v), ask(s, None), (f"parse({s})", parse_call(s)), dec([s], b, True), dec([s], b, False),
                dec([s], gen.mutate_many(b, marks, r, 1), r.random() < 0.6)]
    return out
