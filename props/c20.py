"""Value strategies of eth_abi.tools: what they generate is judged by the specification; the
registry of strategies goes through histories generated by TLC."""
from lib import gen, pv, rec, regs
from .units import *

ALIASES = ["uint", "int", "fixed", "ufixed", "function", "byte", "uint[]", "(byte,function)", "(uint,(int,fixed[2])[])", "byte[3][]"]


def prepare(tier, seed, work):
    q = tier == "quick"
    regs.generate(work, [
        ("RegistryGen_strat_2", []),
        ("RegistrySim_strat", ["-simulate", f"num={120 if q else 1500}", "-depth", "16", "-seed", str(seed)]),
    ])


def type_list(tier, seed):
    rng = rng_for(seed, "c20")
    for t in elementary(tier, rng):
        yield tstr(t), t[0] in ("uint", "int", "fixed", "ufixed")
    for s in ALIASES:
        yield s, s in ("uint", "int", "fixed", "ufixed")
    for s in ("bool[17]", "bool[33]", "bool[65]", "bool[100]", "bool[129]", "bool[257]", "bytes1[40]", "(bool,bool[70])", "bool[3][30]", "bool[30][3]",
              "bool[66][]", "(%s)" % ",".join(["bool"] * 20), "(%s)" % ",".join(["bool", "uint8"] * 35), "bool[1][1][1][1][1]", "uint8[12]"):
        yield s, False
    for D in LEAF_D[:2]:
        for i, ts in enumerate(gen.shapes(D, rng.choice(LEAF_S))):
            if len(ts) == 1:
                yield tstr(ts[0], rng), False
    for i in range(150 if tier == "quick" else 2000):
        r = rng_for(seed, "c20r", i)
        t = gen.rtype(r, depth=r.choice([2, 3, 4]))
        if t[0] in ("arr", "tup"):
            yield tstr(t, r), False


def draw(strategy, n):
    from hypothesis import HealthCheck, Phase, given, settings

    from hypothesis import strategies as st

    out = []
    k = 30 if n > 300 else 1

    @settings(derandomize=True, database=None, max_examples=max(1, n // k), deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(st.lists(strategy, min_size=k, max_size=k) if k > 1 else strategy.map(lambda v: [v]))
    def collect(v):
        out.extend(v)

    collect()
    return out


def extremes(strategy, s, vs):
    """the extreme values, if the strategy can be made to yield them"""
    from eth_abi.grammar import normalize, parse

    t = parse(normalize(s))
    u, sub = t.base.startswith("u"), t.sub
    bits, places = sub if isinstance(sub, tuple) else (sub, 0)
    lo, hi = (0, 2**bits - 1) if u else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
    out = []
    for x in (lo, hi):
        x = gen.scaled(x, places) if places else x
        if x not in vs:
            o, v = rec.call(lambda: one(strategy, lambda v: v == x, 30000))
            if o["ok"]:
                out.append(v)
    return out


def one(strategy, ok, n=2000):
    """one generated value with ok(value)"""
    from hypothesis import Phase, find, settings, HealthCheck

    return find(strategy, ok, settings=settings(derandomize=True, database=None, max_examples=n, deadline=None,
                                                suppress_health_check=list(HealthCheck), phases=[Phase.generate]))


def samples(tier, seed, shard, n):
    from eth_abi import decode, encode, is_encodable
    from eth_abi.tools import get_abi_strategy

    q = tier == "quick"
    for i, (s, numeric) in enumerate(type_list(tier, seed)):
        if i % n != shard:
            continue
        o, vs = rec.call(lambda: draw(get_abi_strategy(s), (900 if numeric else 60 if s[-1] in ")]" else 300) * (1 if q else 3)))
        if vs is None and o["e"] == ["TIMEOUT"]:
            continue  # drawing large nested values is slow, which proves nothing
        if vs is None:
            yield {"c": "Sampled", "g": "failed", "ts": rec.cps([s]), "vs": [{"k": "other", "y": str(o["e"][0])}], "en": {"ok": 0},
                   "rs": o, "rl": o, "n": f"get_abi_strategy({s!r}) or drawing from it raised {o['e'][0]}"}
            continue
        if numeric:
            vs += extremes(get_abi_strategy(s), s, vs)
        if i % (3 if q else 1) == 0 or s[-1] not in "])":  # look for something that does not encode
            o, v = rec.call(lambda: one(get_abi_strategy(s), lambda v: not is_encodable(s, v), 1500 if s in ("string", "bytes", "address") else 150))
            if o["ok"]:
                vs.insert(0, v)
        rs = list({repr(r): r for r in map(pv.rec, vs)}.values())
        if len(str(rs)) < 400000:
            yield {"c": "Spans", "g": "spans", "t": pv.cps(s), "xs": rs, "n": f"{len(vs)} samples of get_abi_strategy({s!r})"}
        keep = vs if not numeric else vs[:20] + [max(vs), min(vs)]
        keep = keep[: 40 if q else 150]
        for v in keep:
            r = pv.rec(v)
            if len(str(r)) > 20000:
                continue
            en, b = rec.enc(encode, [s], [v])
            rs_ = rl = {"ok": 0, "e": ["NotCalled"]}
            if b is not None:
                rs_, _ = rec.call(decode, [s], b)
                rl, _ = rec.call(decode, [s], b, strict=False)
            yield {"c": "Sampled", "g": "leaf" if numeric else "other", "ts": rec.cps([s]), "vs": [r], "en": {"ok": en["ok"]},
                   "rs": rs_, "rl": rl, "n": f"sample {pv.brief(v)} of get_abi_strategy({s!r})"}


def parts():
    """the class of the registry and the factories for arrays and tuples"""
    from eth_abi.tools import get_abi_strategy
    from eth_abi.tools import _strategies as m
    from hypothesis import strategies as st

    cls = getattr(m, "StrategyRegistry", None) or type(get_abi_strategy.__self__)
    arr = getattr(m, "get_array_strategy", None) or (lambda t, r: st.lists(
        r.get_strategy(t.item_type.to_type_str()), **({"min_size": t.arrlist[-1][0], "max_size": t.arrlist[-1][0]} if t.arrlist[-1] else {})))
    tup = getattr(m, "get_tuple_strategy", None) or (lambda t, r: st.tuples(*(r.get_strategy(c.to_type_str()) for c in t.components)))
    return cls, arr, tup


class StratFamily:
    """A registry of strategies with the same lookups as regs.fresh()"""

    def __init__(self):
        from eth_abi.registry import BaseEquals, has_arrlist, is_base_tuple
        from hypothesis import strategies as st

        StrategyRegistry, arr, tup = parts()
        r = self.reg = StrategyRegistry()
        plain = st.just(regs.PLAIN)
        for base, ws, label in (("uint", None, "uint"), ("int", None, "int"), ("address", None, "address"), ("bool", None, "bool"),
                                ("ufixed", None, "ufixed"), ("fixed", None, "fixed"), ("bytes", True, "bytes<M>"), ("bytes", False, "bytes"),
                                ("function", None, "function"), ("byte", False, "byte"), ("string", None, "string")):
            r.register_strategy(BaseEquals(base, with_sub=ws), plain, label=label)
        r.register_strategy(has_arrlist, arr, label="has_arrlist")
        r.register_strategy(is_base_tuple, tup, label="is_base_tuple")

    def apply(self, op):
        from hypothesis import strategies as st

        lk = regs.lookup(op["lk"])
        if op["o"] == "reg":
            j = st.just(regs.MAGIC + op["c"])
            reg = j if op["c"] % 2 else (lambda abi_type, registry: j)
            kw = {"label": regs.txt(op["l"])} if op["l"] else {}
            o, _ = rec.call(lambda: self.reg.register_strategy(lk, reg, **kw))
        else:
            o, _ = rec.call(lambda: self.reg.unregister_strategy(lk))
        return {"ok": 1} if o["ok"] else o

    def look(self, s):
        """dynamic arrays: a value with two items in each"""
        def ok(v):
            if s == "bar[]":
                return len(v) == 2
            if s == "(bar[],(foo,bar))":
                return len(v[0]) == 2
            return True
        o, st_ = rec.call(lambda: self.reg.get_strategy(s))
        if o["ok"] == 0:
            return {"r": 1, "s": pv.cps(s), "e": o}
        o, v = rec.call(lambda: one(st_, lambda v: not isinstance(v, (list, tuple)) or ok(v)))
        if o["ok"] == 0:
            return {"r": 1, "s": pv.cps(s), "e": o}
        return {"r": 1, "s": pv.cps(s), "e": {"ok": 1, "v": flat(v)}}


def flat(v):
    return [t for x in v for t in flat(x)] if isinstance(v, (list, tuple)) else [regs.tag(v)]


TYPES = ["foo", "foo8", "bar", "foo[2]", "bar[]", "(foo,bar)", "(foo8,uint)[2]", "(bar[],(foo,bar))", "uint8"]


def histories(tier, seed, shard, n):
    i = 0
    for cfg, hs in regs.histories():
        for ops in hs:
            i += 1
            if i % n != shard:
                continue
            r = rng_for(seed, "c20h", i)
            if tier == "quick" and cfg.endswith("_2") and r.random() > 0.4:
                continue
            fam = StratFamily()
            out = []
            for k, op in enumerate(ops):
                r0 = fam.apply(op)
                look = TYPES if k == len(ops) - 1 else r.sample(TYPES, 1)
                out.append(dict(op, r0=r0, b=[fam.look(s) for s in look]))
            yield {"c": "History", "g": cfg, "ops": out, "n": "strategies: " + regs.brief(ops)}


def events(tier, seed, shard, n):
    yield from samples(tier, seed, shard, n)
    yield from histories(tier, seed, shard, n)
