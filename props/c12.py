"""Independence of copies: each registry of a family is compared with a lone registry that goes
through the same operations; which operations those are is decided by Registry.tla."""
from lib import calls, gen, rec, regs


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [
        ("RegistryGen_copy_3", []),
        ("RegistrySim_copy", ["-simulate", f"num={400 if q else 6000}", "-depth", "16", "-seed", str(seed)]),
    ])


BORN = ("copy", "new")


def lineage(ops, r, upto):
    births = [i for i, o in enumerate(ops) if o["o"] in BORN]
    start = 0 if r == 1 else births[r - 2] + 1
    own = [o for o in ops[start:upto] if o["r"] == r and o["o"] not in BORN]
    if r == 1 or ops[births[r - 2]]["o"] == "new":
        return own
    b = births[r - 2]
    return [o for o in lineage(ops, ops[b]["r"], b) if o["o"] != "look"] + own


def strip(o):
    """observations must not mention which registry of the family they were made on"""
    if isinstance(o, dict) and isinstance(o.get("v"), dict):
        return {"ok": 1, "v": {k: x for k, x in o["v"].items() if k != "r"}}
    return o


def final(fam, i):
    return [{k: x for k, x in fam.look(i, s).items() if k != "r"} for s in regs.TYPES]


def run(ops, root=None, many=False):
    fam = regs.Family(root)
    fam.many = many
    return fam, [dict(op, r0=strip(fam.apply(op))) for op in ops]


def events(tier, seed, shard, n):
    i = 0
    cache = {}
    lone_packed = calls.forked(packed)
    for cfg, hs in regs.histories():
        for ops in hs:
            i += 1
            if i % n != shard or not any(o["o"] in BORN for o in ops):
                continue
            if tier == "quick" and cfg.endswith("_3") and gen.rng_for(seed, "c12", i).random() > 0.6:
                continue
            root = "default" if gen.rng_for(seed, "c12r", i).random() < 0.5 else None
            many = gen.rng_for(seed, "c12m", i).random() < 0.3
            # histories, and what they are compared with, run in fresh processes
            out, fins, pk = calls.forked(lambda: whole(ops, root, many))
            yield {"c": "Sames", "g": cfg + "/packed", "x": [{"r": a, "q": b} for a, b in zip(pk, lone_packed)],
                   "n": "packed coding after " + regs.brief(ops)}
            births = [o for o in ops if o["o"] in BORN]
            for r in range(1, len(fins) + 1):
                lin = [dict(o, r=1) for o in lineage(ops, r, len(ops))]
                # the root of the lineage
                k = r
                while k > 1 and births[k - 2]["o"] == "copy":
                    k = births[k - 2]["r"]
                key = repr((k == 1 and (root or "fresh"), many, lin))
                if key not in cache:
                    cache[key] = calls.forked(lambda: lonely(lin, root if k == 1 else "empty", many))
                lone, lfin = cache[key]
                yield {"c": "Family", "g": cfg, "ops": out, "r": r, "fin": fins[r - 1], "lone": lone, "lfin": lfin,
                       "n": f"registry {r} after " + regs.brief(ops)}


def whole(ops, root, many):
    fam, out = run(ops, root, many)
    return out, [final(fam, k) for k in range(len(fam.regs))], packed()


def packed():
    """The registry behind packed coding is not part of the family."""
    from eth_abi import packed as p

    vs = [(s, 7 if "uint" in s and "foo" not in s and "(" not in s else regs.VALUES[s]) for s in regs.TYPES]
    vs += [("bytes", b"ab"), ("string", "ab"), ("uint16[]", [1, 2]), ("(uint8,bool)", (1, True))]
    out = []
    for t, v in vs:
        out += [rec.enc(p.encode_packed, [t], [v])[0], rec.call(p.is_encodable_packed, t, v)[0], rec.call(p.default_encoder_packed.is_encodable_type, t)[0]]
    return out


def lonely(lin, root, many):
    fam, out = run(lin, root, many)
    return out, final(fam, 0)
