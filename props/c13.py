from itertools import chain

from lib import pv, rec, regs
from .typestrs import grammar_strings, rng_for


def prepare(tier, seed, work):
    regs.generate(work, [("GrammarGen", ["-simulate", f"num={3000 if tier == 'quick' else 60000}", "-depth", "24", "-seed", str(seed)])], "Grammar")


def typed():
    for _, hs in regs.histories():
        for h in hs:
            yield "".join(map(chr, h))


def digits(n):
    return pv.cps(str(n)) if type(n) is int else [0]


def tree(t):
    from eth_abi.grammar import BasicType, TupleType

    a = t.arrlist
    if a is None:
        arr = []
    elif isinstance(a, (tuple, list)) and len(a) and all(isinstance(d, (tuple, list)) and len(d) < 2 for d in a):
        arr = [digits(d[0]) if len(d) else [] for d in a]
    else:
        arr = [[0]]
    if isinstance(t, TupleType):
        return {"k": "t", "c": [tree(c) for c in t.components], "arr": arr}
    if isinstance(t, BasicType):
        s = t.sub
        sub = [] if s is None else [digits(x) for x in s] if isinstance(s, (tuple, list)) else [digits(s)]
        return {"k": "b", "base": pv.cps(t.base), "sub": sub, "arr": arr}
    return {"k": "odd"}


def event(parse, s):
    r, t = rec.call(parse, s)
    ev = {"c": "Parsing", "s": pv.cps(s), "r": {"ok": 1} if r["ok"] else r, "n": f"parse({pv.brief(s)})"}
    if t is not None:
        ev["tree"] = tree(t)
        ev["str"] = pv.cps(t.to_type_str())
        ev["ia"] = 1 if t.is_array is True else 0 if t.is_array is False else 2
        it, x = rec.call(lambda: t.item_type)
        ev["it"] = {"ok": 1, "tree": tree(x), "str": pv.cps(x.to_type_str())} if it["ok"] else it
        ev["eq"] = int(t == parse(s) and not (t != parse(s)))
    return ev


TEMPLATES = ["uint256", "fixed128x18", "(int8,bool)[12][]", "((a1x2)[],b)", "bytes[3][45]", "A[]", "uint8[2]"]


def tried(tier):
    """All ASCII, and characters which some notion of letter, digit, space or case could take for one."""
    import unicodedata

    out = set(range(0x3000 if tier == "quick" else 0x11000))
    for c in range(0x3000, 0x110000):
        s = chr(c)
        if 0xD800 <= c < 0xE000:
            continue
        if unicodedata.category(s) in ("Nd", "Nl", "No", "Zs", "Ps", "Pe") \
                or any(x.isascii() for f in (s.lower(), s.upper(), s.casefold(), unicodedata.normalize("NFKC", s)) for x in f):
            out.add(c)
    return sorted(out)


def hole(parse, pre, suf, chars):
    from eth_abi.exceptions import ParseError

    acc, odd = [], []
    for c in chars:
        s = pre + chr(c) + suf
        try:
            parse(s)
            acc.append(c)
        except ParseError:
            if "()" in s:
                odd.append(c)
        except ValueError:
            if "()" not in s:
                odd.append(c)
        except Exception:
            odd.append(c)
    return {"c": "Hole", "pre": pv.cps(pre), "suf": pv.cps(suf), "acc": acc, "odd": odd,
            "n": f"parse({pre!r} + c + {suf!r}) for {len(chars)} characters c; accepted {pv.brief([chr(c) for c in acc])}, "
                 f"other errors for {pv.brief([chr(c) for c in odd])}"}


def holes():
    seen = set()
    for t in TEMPLATES:
        for i in range(len(t) + 1):
            for h in ((t[:i], t[i:]), (t[:i], t[i + 1:])):  # inserted, replaced
                if h not in seen:
                    seen.add(h)
                    yield h


def events(tier, seed, shard, n):
    from eth_abi.grammar import parse

    seen = set()
    i = 0
    for s in chain(typed(), grammar_strings(tier, seed)):
        if s in seen:
            continue
        seen.add(s)
        i += 1
        if i % n == shard:
            yield event(parse, s)
    chars = tried(tier)
    for i, (pre, suf) in enumerate(holes()):
        if i % n == shard:
            yield hole(parse, pre, suf, chars)
    if shard == 0:
        for x in (None, 1, b"uint8", 1.5, ("uint8",), object(), True, bytearray(b"uint8"), ["uint8"], {}, set(), frozenset(["uint8"])):
            r, _ = rec.call(parse, x)
            yield {"c": "ParseOther", "r": {"ok": 1} if r["ok"] else r, "n": f"parse({pv.brief(x)})"}
