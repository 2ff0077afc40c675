"""Routing of lookups after any history of changes: histories enumerated by TLC from
RegistryMC.tla (all of a given length over the routing alphabet, and long random ones)."""
from lib import calls, gen, regs


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [
        ("RegistryGen_route_3", []), ("RegistryGen_route_2", []),
        ("RegistrySim_route", ["-simulate", f"num={150 if q else 4000}", "-depth", "16", "-seed", str(seed)]),
    ])


def run(ops, mode, root=None, many=False):
    """mode 1: look at every type after every operation; 0: only at the end; many: also at lists of them"""
    fam = regs.Family(root)
    fam.many = many
    out = []
    look = lambda: [fam.look(0, s) for s in regs.TYPES]
    if mode:
        look()
    for k, op in enumerate(ops):
        r0 = fam.apply(op)
        b = []
        if op["o"] == "look":
            if r0["ok"]:
                b = [r0["v"]]
            r0 = {"ok": 1}
        if mode or k == len(ops) - 1:
            b = b + look()
        out.append(dict(op, r0=r0, b=b))
    return out


def events(tier, seed, shard, n):
    i = 0
    for cfg, hs in regs.histories():
        for ops in hs:
            i += 1
            if i % n != shard:
                continue
            if tier == "quick" and cfg.endswith("_3") and gen.rng_for(seed, "c10", i).random() > 0.23:
                continue
            for mode in (1, 0):
                if mode == 0 and not any(o["o"] == "look" for o in ops):
                    continue
                many = gen.rng_for(seed, "c10m", i).random() < (0.3 if tier == "quick" else 0.5)
                g = cfg + ("/eager" if mode else "/lazy") + ("/lists" if many else "")
                yield {"c": "History", "g": g, "ops": run(ops, mode, many=many), "n": regs.brief(ops)}
                if cfg.startswith("RegistrySim") or gen.rng_for(seed, "c10r", i).random() < 0.15:
                    # through the library's own registry, in a process of its own
                    yield {"c": "History", "g": g + "/default", "ops": calls.forked(lambda: run(ops, mode, "default", many)),
                           "n": "default registry: " + regs.brief(ops)}
