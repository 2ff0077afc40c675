#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.
VERIF_TIER (quick / thorough) and VERIF_SEED choose what is explored."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import tlc  # noqa: E402
from props.models import MODELS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
LIMIT = 840 if TIER == "quick" else 6 * 3600


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: "):])
                if d["property"] == pid:
                    out.append(d)
    return out


class Broken(Exception):
    """The check could not be carried out (exit 2)."""


def run_models(pid, work):
    """Starts the model-checking runs of this property; returns a function collecting them."""
    runs = []
    for m in MODELS.get(pid, []):
        if TIER not in m["tiers"]:
            continue
        w = os.path.join(work, "mc-" + m["cfg"])
        p, out = tlc.start(m["module"], m["cfg"] + ".cfg", w, workers=m.get("workers", 2),
                           heap=m.get("heap", "4g"), extra=m.get("extra", ()),
                           env=m.get("env"))
        runs.append((m, p, out, time.time()))

    def collect():
        res = []
        for m, p, out, t0 in runs:
            p.wait()
            text = open(out, errors="replace").read()
            gen, dist = tlc.counts(text)
            bad = ("is violated" in text) or ("Error:" in text) or p.returncode != 0
            expect = m.get("expect")  # negative control: invariant that must be violated
            if expect:
                if m.get("says", f"{expect} is violated") not in text:
                    raise Broken(f"negative control {m['cfg']} did not violate {expect}\n" + text[-3000:])
            elif bad:
                raise Broken(f"model {m['cfg']} failed\n" + text[-4000:])
            res.append({"model": m["cfg"], "states": dist, "transitions": gen,
                        "expected_violation": expect or "", "what": m.get("what", ""),
                        "s": round(time.time() - t0, 1)})
        return res

    return collect


def main():
    pid = sys.argv[1].upper()
    t0 = time.time()
    # the parent never imports the library; props/<id>.py keeps such imports inside functions
    mod = importlib.import_module("props." + pid.lower())
    work = tempfile.mkdtemp(prefix="verif-")
    procs = []
    try:
        collect = run_models(pid, work)
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), PYTHONHASHSEED="0",
                   VERIF_WORK=work)
        if hasattr(mod, "prepare"):  # e.g. behaviours generated by TLC
            mod.prepare(TIER, SEED, work)
        n = getattr(mod, "SHARDS", 8)
        trace = getattr(mod, "TRACE", "Trace")
        shards = []
        for s in range(n):
            out = os.path.join(work, f"log{s}.ndjson")
            p = subprocess.Popen([PY, "-B", os.path.join(HERE, "worker.py"), pid, TIER, str(SEED),
                                  str(s), str(n), out], cwd=work, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            procs.append(p)
            shards.append([p, out, None, None])
        # as soon as a shard is recorded, TLC judges it
        waiting = list(range(n))
        while waiting:
            for s in list(waiting):
                p, out, _, _ = shards[s]
                if p.poll() is None:
                    continue
                text = p.stdout.read().decode(errors="replace")
                if p.returncode != 0:
                    raise Broken(f"worker {s} of {pid} failed ({p.returncode})\n{text[-4000:]}")
                waiting.remove(s)
                if os.path.getsize(out):
                    chains = 4
                    q, tout = tlc.start(trace, trace + ".cfg", os.path.join(work, f"tlc{s}"),
                                        env={"TRACE": out, "CHAINS": str(chains)}, workers=1,
                                        heap="3g")
                    procs.append(q)
                    shards[s][2:] = [q, tout]
            if time.time() - t0 > LIMIT:
                raise Broken("out of time while recording")
            time.sleep(0.05)
        bad, judged, skipped, kinds, samples = [], 0, 0, {}, []
        tgen = tdist = 0
        for s, (p, out, q, tout) in enumerate(shards):
            if q is None:
                continue
            try:
                q.wait(timeout=max(1, LIMIT - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                raise Broken("out of time while judging")
            text = open(tout, errors="replace").read()
            stat = json.load(open(out + ".stat"))
            if q.returncode != 0 or "No error has been found" not in text:
                raise Broken(f"TLC failed on shard {s}\n{text[-4000:]}")
            gen, dist = tlc.counts(text)
            if dist != stat["events"] + 4:
                raise Broken(f"TLC judged {dist - 4} of {stat['events']} events of shard {s}")
            tgen, tdist = tgen + gen, tdist + dist
            judged += stat["events"]
            for k, v in stat["kinds"].items():
                kinds[k] = kinds.get(k, 0) + v
            samples += stat["samples"]
            vs = dict(tlc.verdicts(text))
            if vs:
                with open(out) as f:
                    for i, line in enumerate(f, 1):
                        if i in vs:
                            if vs[i] == "skip":
                                skipped += 1
                            else:
                                bad.append((vs[i], json.loads(line)))
        models = collect()
        post = mod.finish(TIER, judged, kinds) if hasattr(mod, "finish") else {}
        if judged == 0:
            raise Broken("nothing was judged")
        return report(pid, bad, judged, skipped, kinds, samples, models, tgen, tdist, post, t0, mod)
    except Broken as e:
        print(f"CHECK-ERROR property={pid}: {e}", file=sys.stderr)
        return 2
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)


def report(pid, bad, judged, skipped, kinds, samples, models, tgen, tdist, post, t0, mod):
    known = known_findings(pid)
    new, seen = [], {}
    for why, ev in bad:
        hit = None
        for i, k in enumerate(known):
            if ev.get("n") == k["input"] and ev.get("o", "") == k["outcome"]:
                hit = i
        if hit is None:
            new.append((why, ev))
        else:
            seen[hit] = known[hit]
    for i in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {seen[i]['what']}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {
        "states": tdist + sum(m["states"] for m in models),
        "transitions": tgen + sum(m["transitions"] for m in models),
        "traces_validated_against_impl": judged,
        "samples": samples[:8] or ["(none)"],
        "events_by_clause_and_group": kinds,
        "events_outside_the_clause": skipped,
        "model_runs": models,
        "events_violating": len(bad),
    }
    cov.update(post)
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
        "assumptions": getattr(mod, "ASSUMES", [
            "the recorder (lib/pv.py, lib/rec.py) represents Python values faithfully",
            "TLC evaluates the specification correctly"]),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{pid} {TIER} seed={SEED}: {judged} recorded events judged, {skipped} outside the clause, "
          f"{len(new)} violating; models: "
          + (", ".join(f"{m['model']} {m['states']} states" for m in models) or "none")
          + f"; {time.time() - t0:.1f} s")
    if new:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-{TIER}-{SEED}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "violations": [
                {"why": w, "call": e.get("n", ""), "event": e} for w, e in new[:50]],
                "total": len(new)}, f, indent=1)
        for w, e in new[:5]:
            print(f"  {w}: {e.get('n', '')[:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
