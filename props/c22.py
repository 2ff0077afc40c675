"""Overlapping calls: schedules enumerated by TLC from Overlap.tla, replayed in real threads
that hand over at line (or opcode) granularity inside the library; coders that call the library
themselves; free-running threads."""
import sys
import threading

from lib import calls, customs, gen, pv, rec, regs, sched
from lib.gen import rng_for


def prepare(tier, seed, work):
    regs.generate(work, [(f"OverlapGen_{q}", []) for q in ("44", "241", "62", "222", "2401", "123")], module="Overlap")


def overlapped(env, fs, q, s, warm, ops):
    rec.LIMIT = 0
    if warm:
        for _, f in fs:
            f(env)
    # steps of each call alone, in the same state of the caches
    ns = [calls.forked(lambda: sched.lines(lambda: f(env), ops)) for _, f in fs]
    quotas = [max(1, -(-n // k)) for n, k in zip(ns, q)]
    sc = sched.Sched([t - 1 for t in s], quotas, ops)
    out = sc.run([lambda f=f: f(env) for _, f in fs])
    return {"out": out, "sw": sc.switches}


A = lambda t, n=None: ("arr", t, n)
T = lambda *c: ("tup", list(c))
U, B, S = ("uint", 256), ("bytes",), ("string",)
TWINS = [A(U), A(S), A(B, 2), T(U, S), T(S, B), A(T(U, B)), T(A(U), B, U), A(A(U)), A(A(("uint", 8), 2)), T(T(B, U), A(S)),
         A(("fixed", 128, 18)), T(("fixed", 256, 3), ("ufixed", 64, 4)), A(("address",)), A(("bytesN", 3)), A(("int", 16)), A(("bool",)),
         ("bytesN", 24), S, B, T(A(S, 2), A(T(S, S))), A(A(A(B))), T(U, A(T(U, A(S), B), 2))]
LEAVES = [("uint", 64), ("int", 24), ("bool",), ("address",), ("bytesN", 5), ("fixed", 64, 7), ("ufixed", 16, 1), B, S, ("bytesN", 24), A(U), T(B, U), A(B)]


def twins(seed, ts, rep):
    """Calls of the same types, through the same coders, whose data differ: lengths, values, faults."""
    import eth_abi
    from eth_abi.packed import encode_packed, is_encodable_packed

    r = rng_for(seed, "twins", str(ts), rep)
    st = [gen.tstr(t) for t in ts]
    out = []

    def add(text, f):
        out.append((text, f))

    for j in range(4):
        vs = gen.rvalues(r, ts, plain=True)
        if j == 1:
            vs = [grown(t, 5, r) for t in ts]
        b, marks = gen.payload(ts, vs)
        strict = r.random() < 0.6
        x = gen.mutate_many(b, marks, r, 1) if j == 3 else b
        add(f"decode({st}, {x.hex()}, strict={strict})", lambda env, x=x, strict=strict: rec.call(eth_abi.decode, st, x, strict=strict)[0])
        add(f"encode({st}, {pv.brief(vs)})", lambda env, vs=vs: rec.enc(eth_abi.encode, st, vs)[0])
        if j < 2:
            add(f"encode_packed({st}, {pv.brief(vs)})", lambda env, vs=vs: rec.enc(encode_packed, st, vs)[0])
            add(f"is_encodable({st[0]}, {pv.brief(vs[0])})", lambda env, vs=vs: rec.call(eth_abi.is_encodable, st[0], vs[0])[0])
        elif j == 2:
            bad = r.choice([None, {}, 2.5, "zz", [], -(2**300)])
            add(f"encode({st}, {[bad] * len(ts)})", lambda env, bad=bad: rec.enc(eth_abi.encode, st, [bad] * len(ts))[0])
            add(f"is_encodable_packed({st[0]}, {bad})", lambda env, bad=bad: rec.call(is_encodable_packed, st[0], bad)[0])
    return out


def grown(t, n, r):
    """a value whose unsized parts have n members"""
    if t[0] == "arr":
        return [grown(t[1], max(1, n - 2), r) for _ in range(n if t[2] is None else t[2])]
    if t[0] == "tup":
        return tuple(grown(c, n, r) for c in t[1])
    if t[0] == "bytes":
        return bytes(range(1, 20 * n))
    if t[0] == "string":
        return "xyz" * (7 * n)
    return gen.rvalue(r, t, plain=True)


def twinned(env, a, b, hs, ops, cap, r):
    """one child: every schedule of two calls that use the same coders"""
    rec.LIMIT = 0
    a(env), b(env)
    ns = [sched.lines(lambda: f(env), ops) for f in (a, b)]
    todo = []
    for h in hs:
        quotas = [max(1, -(-n // k)) for n, k in zip(ns, h["q"])]
        for phase in range(min(quotas[0], 8)):
            if h["s"].index(2) * quotas[0] - phase <= ns[0] + quotas[0]:  # the first call is still running
                todo.append((h["s"], quotas, phase))
    if len(todo) > cap:
        todo = r.sample(todo, cap)
    seen = []
    for s, quotas, phase in todo:
        out = sched.Sched([t - 1 for t in s], quotas, ops, phase).run([lambda: a(env), lambda: b(env)])
        if out not in seen:
            seen.append(out)
        if len(seen) > 3:
            break
    return seen


def reentrant(env, outer, inner, depth):
    """outer codes custom values whose coders make the inner call"""
    rec.LIMIT = 0
    env.inner = []
    env.inner_call = inner
    r = outer(env)
    got, env.inner_call = env.inner, None
    return {"out": [r] + got}


def nesting_env(env):
    """A codec whose custom coders call the library in the middle of a value."""
    from eth_abi.codec import ABICodec
    from eth_abi.registry import registry

    env.inner_call, env.inner = None, []

    def wrap(f):
        def g(x):
            a = (env.inner_call[1] if env.inner_call and len(env.inner) < 3 else None)
            if a is None:
                return f(x)
            if len(env.inner) % 2:
                v = f(x)
                env.inner.append(a(env))
            else:
                env.inner.append(a(env))
                v = f(x)
            return v
        return g

    reg = registry.copy()
    for i, name in enumerate(customs.SUB):
        st = ["fn", "inst", "obj", "cls", "partial"][i]
        customs.register(reg, name, st, st, "str", wrap(customs.PUT[name]), wrap(customs.GET[name]))
    env.regs[4] = reg
    env.codecs[4] = ABICodec(reg)
    # the inner calls may go through the same registry
    return env


def nest_outers(seed):
    out = []
    for j, ts in enumerate([[("cst",)], [("cst",), B], [("cdy",), B], [A(("cst",)), B], [T(("cdy",), B), B], [A(T(("cdt",), B), 2)],
                            [T(("cst",), A(B)), ("cda",)], [A(("cda",)), ("cwd",), B], [A(A(("cdy",), 2)), B]]):
        r = rng_for(seed, "nest", j)
        us = [customs.sub(t) for t in ts]
        vs = gen.rvalues(r, us, plain=True)
        b, marks = gen.payload(us, vs)
        pads = [m for m in marks if m.kind == "pad" and m.n]
        st = [gen.tstr(t) for t in ts]
        out.append((f"encode({st}, {vs})", calls.enc_call(st, vs, 4)))
        t, v = "(" + ",".join(st) + ")", tuple(vs)
        out.append((f"is_encodable({t}, {v})", calls.ask_call(t, v, 4)))
        for s in (0, 1):
            out.append((f"decode({st}, {b.hex()}, {s})", calls.dec_call(st, b, 4, s)))
            if pads:
                x = gen.put(b, pads[-1].pos, b"\7")
                out.append((f"decode({st}, {x.hex()}, {s})", calls.dec_call(st, x, 4, s)))
    return out


def storm(env, lists):
    rec.LIMIT = 0
    sys.setswitchinterval(1e-6)
    outs = [[] for _ in lists]

    def go(i):
        for f in lists[i]:
            outs[i].append(f(env))

    ths = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(lists))]
    for t in ths:
        t.start()
    for t in ths:
        t.join(60)
    return outs


def events(tier, seed, shard, n):
    q_ = tier == "quick"
    env = nesting_env(calls.Env())
    pool = calls.pool(seed)
    keys = sorted(k for k in pool)
    groups = {}
    for k in keys:
        groups.setdefault(k[0], []).append(k)
    base = {}

    def pick(r):
        g = r.choices(["dec", "enc", "ask", "held", "trap", "val", "parse"], [10, 5, 3, 2, 4, 1, 1])[0]
        k = r.choice(groups[g])
        j = r.randrange(len(pool[k]))
        return k, j

    def alone(k, j):
        if (k, j) not in base:
            base[k, j] = calls.forked(lambda: [pool[k][j][1](env)])[0]
        return base[k, j]

    hists = list(regs.histories())
    # calls that share their coders and differ in their data
    i = 0
    for rep in range(2 if q_ else 30):
        for ti, t in enumerate(TWINS + LEAVES):
            for cfg, hs in hists:
                if cfg not in ("OverlapGen_2401", "OverlapGen_123"):
                    continue
                i += 1
                if i % n != shard:
                    continue
                ops = ti >= len(TWINS)  # every opcode of a short call
                r = rng_for(seed, "twin", rep, ti, cfg)
                ts = [t] if r.random() < 0.7 or ops else [t, r.choice([U, B, t])]
                cs = twins(seed, ts, rep)
                same = {}
                for text, f in cs:
                    same.setdefault(text.split("(")[0], []).append((text, f))
                for k in range(3):
                    if k < 2:  # both decode, or both encode; one of them much data
                        xs = same[["decode", "encode"][k]]
                        a, b = xs[1], r.choice(xs[:1] + xs[2:])
                        if r.random() < 0.5:
                            a, b = b, a
                    else:
                        a, b = r.sample(cs, 2)
                    want = [calls.forked(lambda: [f[1](env)])[0] for f in (a, b)]
                    got = calls.forked(lambda: twinned(env, a[1], b[1], hs, ops, 500 if cfg == "OverlapGen_2401" else 80 if q_ else 455, r))
                    yield {"c": "Sames", "g": f"{cfg}/shared coders" + ("/op" if ops else ""),
                           "x": [{"r": x, "q": w} for g in got for x, w in zip(g, want)],
                           "n": f"schedules of {a[0]} || {b[0]}"}
    i = 0
    for cfg, hs in hists:
        if cfg in ("OverlapGen_2401", "OverlapGen_123"):
            continue
        reps = {"OverlapGen_44": 4, "OverlapGen_241": 24, "OverlapGen_62": 10, "OverlapGen_222": 3}[cfg] * (1 if q_ else 12)
        for rep in range(reps):
            for h in hs:
                i += 1
                if i % n != shard:
                    continue
                # all schedules of one configuration see the same calls
                r = rng_for(seed, "c22", cfg, rep)
                ks = [pick(r) for _ in h["q"]]
                if r.random() < 0.35:  # two instances of the same call, or of the same types
                    ks = [ks[0]] * len(ks)
                elif r.random() < 0.4:
                    same = [k for k in groups["dec"] if k[2] == ks[0][0][2]] if ks[0][0][0] == "dec" else groups["dec"]
                    ks = [ks[0]] + [(k, r.randrange(len(pool[k]))) for k in (r.choice(same) for _ in ks[1:])]
                ks = [k for k in ks]
                warm, ops = rep % 2, (not q_ and rep % 3 == 2) or (q_ and rep % 8 == 3)
                fs = [pool[k][j] for k, j in ks]
                if any(k[0] == "trap" and "buffer" in pool[k][j][0] or "L :=" in pool[k][j][0] for k, j in ks):
                    continue  # these share a mutable argument on purpose
                want = [alone(k, j) for k, j in ks]
                got = calls.forked(lambda: overlapped(env, fs, h["q"], h["s"], warm, ops))
                yield {"c": "Sames", "g": cfg + ("/warm" if warm else "/cold") + ("/op" if ops else ""),
                       "x": [{"r": a, "q": b} for a, b in zip(got["out"], want)],
                       "n": f"schedule {h['s']} of " + " || ".join(t for t, _ in fs)}
    # re-entrant calls
    outs = nest_outers(seed)
    obase = {}
    i = 0
    for oi, (text, outer) in enumerate(outs):
        for rep in range(60 if q_ else 400):
            i += 1
            if i % n != shard:
                continue
            r = rng_for(seed, "c22n", oi, rep)
            k, j = pick(r)
            inner = pool[k][j] if rep % 4 else (text, outer)  # now and then the same call
            if oi not in obase:
                obase[oi] = calls.forked(lambda: [outer(env)])[0]
            want_in = obase[oi] if rep % 4 == 0 else alone(k, j)
            if rep % 4 == 0:
                env_inner = (text, lambda env: without(env, outer))
            else:
                env_inner = inner
            got = calls.forked(lambda: reentrant(env, outer, env_inner, 1))["out"]
            yield {"c": "Sames", "g": "nested", "x": [{"r": got[0], "q": obase[oi]}] + [{"r": x, "q": want_in} for x in got[1:]],
                   "n": f"{text} whose coders call {inner[0]}"}
    # free-running threads
    for rep in range(3 if q_ else 40):
        if (rep + 3) % n != shard and not q_ or (q_ and rep != shard % 3):
            continue
        r = rng_for(seed, "storm", rep, shard)
        lists = [[p for p in (pick(r) for _ in range(120)) if "buffer" not in pool[p[0]][p[1]][0] and "L :=" not in pool[p[0]][p[1]][0]]
                 for _ in range(4)]
        want = [[alone(*p) for p in ps] for ps in lists]
        got = calls.forked(lambda: storm(env, [[pool[k][j][1] for k, j in ps] for ps in lists]))
        for ps, w, g in zip(lists, want, got):
            if len(w) != len(g):
                yield {"c": "Sames", "g": "free", "x": [{"r": len(g), "q": len(w)}], "n": "a thread did not finish its calls"}
            for c in range(0, len(g), 20):
                yield {"c": "Sames", "g": "free", "x": [{"r": a, "q": b} for a, b in zip(g[c:c + 20], w[c:c + 20])],
                       "n": "4 threads: " + "; ".join(pool[k][j][0][:60] for k, j in ps[c:c + 20])}


def without(env, outer):
    """the call, with the coders' own calls switched off meanwhile"""
    keep, env.inner_call = env.inner_call, None
    try:
        return outer(env)
    finally:
        env.inner_call = keep
