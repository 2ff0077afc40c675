"""Exactness of registration changes: op outcomes and, at the end, what is registered."""
from lib import calls, gen, regs


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [
        ("RegistryGen_exact_3", []), ("RegistryGen_exact_2", []),
        ("RegistrySim_exact", ["-simulate", f"num={250 if q else 4000}", "-depth", "16", "-seed", str(seed)]),
    ])


def events(tier, seed, shard, n):
    i = 0
    for cfg, hs in regs.histories():
        for ops in hs:
            i += 1
            ops = [o for o in ops if o["o"] != "look"]
            if i % n != shard or not ops:
                continue
            if tier == "quick" and cfg.endswith("_3") and gen.rng_for(seed, "c11", i).random() > 0.35:
                continue
            yield {"c": "History", "g": cfg, "ops": run(ops), "n": regs.brief(ops)}
            if cfg.startswith("RegistrySim") or gen.rng_for(seed, "c11r", i).random() < 0.1:
                yield {"c": "History", "g": cfg + "/default", "ops": calls.forked(lambda: run(ops, "default")), "n": "default registry: " + regs.brief(ops)}


def run(ops, root=None):
    fam = regs.Family(root)
    out = [dict(op, r0=fam.apply(op), b=[]) for op in ops]
    out[-1]["b"] = [fam.look(0, s, full=False) for s in ("foo", "foo8", "bar", "uint8")]
    return out
