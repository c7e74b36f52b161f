"""Runs TLC on the specifications of /verif/spec and reads its verdicts."""
import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC itself failed (a failure of the machinery, not of the code under test)."""


class Result:
    def __init__(self, out):
        self.out = out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.violated = [
            x for g in re.findall(
                r"Error: (?:Invariant (\S+) is violated|Action property (\S+) is violated|"
                r"(Temporal properties were violated)|(Deadlock reached)|"
                r"The (?:first|initial).*?(predicate \S+ is violated))", out) for x in g if x
        ]
        # values printed with PrintT(ToJson(...)): a TLA+ string holding JSON
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                try:
                    self.prints.append(json.loads(json.loads(line)))
                except ValueError:
                    pass

    def tagged(self, key):
        return [p for p in self.prints if p.get("k") == key]


def run(module, cfg=None, *, env=None, workers="auto", timeout=600, extra=(), heap="6g",
        simulate=None, depth=None, dfs=False, seed=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg; returns a Result."""
    meta = tempfile.mkdtemp(prefix="vp-tlc-")
    cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
           f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={meta}"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
            "-workers", str(workers), "-config", str(SPEC / f"{cfg or module}.cfg")]
    if simulate:
        cmd += ["-simulate", simulate]
        if depth:
            cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [str(SPEC / f"{module}.tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if p.returncode == 124:
        raise TLCError(f"TLC timed out after {timeout} s on {module}/{cfg}")
    r = Result(p.stdout)
    r.rc = p.returncode
    if not r.violated and p.returncode not in (0,):
        raise TLCError(f"TLC failed on {module}/{cfg or module} (exit {p.returncode}):\n{p.stdout[-3000:]}")
    return r
