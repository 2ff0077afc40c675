"""Runs the generators of one property against the library in /repo and records events.
Arguments: property tier seed shard nshards outfile"""
import importlib
import json
import os
import resource
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(3000)


def guarded(events):
    """The events, and one for an exception out of the library where none is possible."""
    from lib import rec

    last = ""
    it = iter(events)
    while True:
        try:
            ev = next(it)
        except StopIteration:
            return
        except Exception as e:
            c = rec.crash(e)
            if c is None:
                raise
            yield {"c": "Crashed", "g": "", "e": c.args[0], "n": f"{c.args[1]} (after {last[:300]})"}
            return
        last = str(ev.get("n", ""))
        yield ev


def main():
    pid, tier, seed, shard, nshards, out = sys.argv[1:7]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    import eth_abi

    root = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not os.path.realpath(eth_abi.__file__).startswith(root + os.sep):
        print("eth_abi imported from", eth_abi.__file__, file=sys.stderr)
        return 3
    mod = importlib.import_module("props." + pid.lower())
    t0 = time.time()
    kinds, n, samples = {}, 0, []
    seen = set()
    with open(out, "w") as f:
        for ev in guarded(mod.events(tier, seed, shard, nshards)):
            line = json.dumps(ev, separators=(",", ":"))
            h = hash(line)
            if h in seen:
                continue
            seen.add(h)
            f.write(line + "\n")
            n += 1
            kind = ev["c"] + ":" + str(ev.get("grp", ev.get("g", "")))
            kinds[kind] = kinds.get(kind, 0) + 1
            if len(samples) < 3 and n % 97 == 1:
                samples.append(ev.get("n", line[:300]))
    with open(out + ".stat", "w") as f:
        json.dump({"events": n, "kinds": kinds, "samples": samples, "s": time.time() - t0}, f)
    return 0


if __name__ == "__main__":
    sys.exit(main())
