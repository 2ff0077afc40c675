"""Running TLC."""
import os
import re
import subprocess

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def start(module, cfg, work, env=None, workers=1, heap="2g", extra=(), gc="Serial"):
    """Starts TLC on spec/<module>.tla; work: scratch directory of this run."""
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    e["TMPDIR"] = work
    out = open(os.path.join(work, "tlc.out"), "w")
    cmd = [
        "java", f"-XX:+Use{gc}GC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={work}",
        "-cp", JAR, "tlc2.TLC", "-noTE", "-workers", str(workers),
        "-metadir", os.path.join(work, "meta"), "-config", cfg, *extra, module + ".tla",
    ]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
    return p, out.name


def counts(text):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", text):
        pass
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = None
    for m in re.finditer(r"The number of states generated: ([\d,]+)", text):
        pass
    if m:
        return int(m.group(1).replace(",", "")), 0
    return 0, 0


def verdicts(text):
    """Lines @@<event number>@@<verdict> printed by Trace.tla."""
    return [(int(a), b) for a, b in re.findall(r'^"?@@(\d+)@@(.*?)"?$', text, re.M)]
