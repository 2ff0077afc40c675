"""Histories of calls generated by TLC from Session.tla; each runs in a fresh process and every
response is compared with that of the same call made alone in a fresh process."""
from lib import calls, owned, regs
from lib.gen import rng_for


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [
        ("SessionGen_calls_2", []), ("SessionGen_traps_2", []),
        ("SessionSim", ["-simulate", f"num={300 if q else 6000}", "-depth", "42", "-seed", str(seed)]),
        ("SessionThemes", ["-simulate", f"num={240 if q else 6000}", "-depth", "50", "-seed", str(seed)]),
        ("ArgsGen_again", [], "ArgsMC"),
        ("ArgsSim_again", ["-simulate", f"num={100 if q else 3000}", "-depth", "13", "-seed", str(seed)], "ArgsMC"),
    ], module="Session")


def run(env, fs):
    for _, f in fs:
        h = getattr(f, "hold", None)
        if h and h not in env.held:
            try:
                env.held[h] = env.regs[h[0]].get_decoder(h[1], strict=bool(h[2]))
            except Exception:
                pass
    return [f(env) for _, f in fs]


def events(tier, seed, shard, n):
    env = calls.Env()
    pool = calls.pool(seed)
    base = {}

    def alone(k, j):
        if (k, j) not in base:
            base[k, j] = calls.forked(lambda: [pool[k][j][1](env)])[0]
        return base[k, j]

    # long sessions: forwards, in another order, and some calls alone
    for j in range(1 if tier == "quick" else 12):
        k = j * n + shard
        r = rng_for(seed, "c09f", k)
        fs = calls.flood(seed, k)
        order = list(range(len(fs)))
        r.shuffle(order)
        got = calls.forked(lambda: run(env, fs + fs[:300]))
        other = dict(zip(order, calls.forked(lambda: run(env, [fs[o] for o in order]))))
        x = [({"r": got[o], "q": other[o]}, fs[o][0]) for o in range(len(fs))]
        x += [({"r": got[len(fs) + o], "q": got[o]}, "again " + fs[o][0]) for o in range(300)]
        for o in r.sample(range(len(fs)), 60):
            x.append(({"r": got[o], "q": calls.forked(lambda: [fs[o][1](env)])[0]}, "alone " + fs[o][0]))
        for a in range(0, len(x), 40):
            yield {"c": "Sames", "g": "flood", "x": [y for y, _ in x[a:a + 40]], "n": f"session {k}, calls {a}..: " + "; ".join(t for _, t in x[a:a + 40])[:4000]}

    def fresh(key, f):
        if key not in base:
            base[key] = calls.forked(lambda: [f()])[0]
        return base[key]

    yield from owned.events(shard, n, fresh)
    i = 0
    for cfg, hs in regs.histories():
        if cfg.startswith("Args"):
            continue
        for h in hs:
            i += 1
            if i % n != shard:
                continue
            if h[0]["o"] == "theme":
                th = calls.theme(seed, i)
                fs = [th[c["k"] - 1] for c in h]
                got = calls.forked(lambda: run(env, fs))
                back = calls.forked(lambda: run(env, fs[::-1]))[::-1]
                x = [{"r": a, "q": b} for a, b in zip(got, back)]
                r = rng_for(seed, "c09t", i)
                for j in {0, len(h) - 1} | {r.randrange(len(h)) for _ in range(5)}:
                    x.append({"r": got[j], "q": calls.forked(lambda: [fs[j][1](env)])[0]})
                yield {"c": "Sames", "g": "themes", "x": x, "n": "; ".join(t for t, _ in fs)[:4000]}
                continue
            r = rng_for(seed, "c09", i)
            reps = 1 if tier == "quick" else 3
            for _ in range(reps):
                ks = []
                for c in h:
                    k = calls.key(c)
                    ks.append((k, r.randrange(len(pool[k]))))
                fs = [pool[k][j] for k, j in ks]
                q = [alone(k, j) for k, j in ks]
                got = calls.forked(lambda: run(env, fs))
                yield {"c": "Sames", "g": cfg, "x": [{"r": a, "q": b} for a, b in zip(got, q)], "n": "; ".join(t for t, _ in fs)}


def finish(tier, judged, kinds):
    return {"histories": judged}
