#!/opt/venv/bin/python
"""check.py <ID>: decides one property on the current tree of /repo.

1. TLC explores the specification (exhaustively within its bounds).
2. Where the plan says so, TLC generates behaviours of the specification.
3. A driver process runs the real code (replaying those behaviours) and records
   what it observed.
4. TLC judges the records against the specification.
Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the machinery failed.
"""
import concurrent.futures
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from harness import tlc  # noqa: E402
from harness.plans import PLANS  # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def readable(v):
    """Lists of character codes back to text, for people."""
    if isinstance(v, list):
        if v == [-1]:
            return None
        if v and all(isinstance(x, int) and not isinstance(x, bool) and 9 <= x < 0x110000 for x in v):
            try:
                return "".join(chr(x) for x in v)
            except ValueError:
                return v
        return [readable(x) for x in v]
    if isinstance(v, dict):
        return {k: readable(x) for k, x in v.items()}
    return v


def known(pid):
    out = []
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) clause=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLANS[pid]
    t0 = time.time()
    work = pathlib.Path(tempfile.mkdtemp(prefix=f"vp-{pid}-"))
    replay_dir = VERIF / "evidence" / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    for old in replay_dir.glob(f"{pid}-*"):
        old.unlink()
    try:
        return decide(pid, tier, seed, plan, t0, work, replay_dir)
    except tlc.TLCError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, plan, t0, work, replay_dir):
    states = transitions = 0
    mc_runs = []
    pool = concurrent.futures.ThreadPoolExecutor(4)
    mcs = [m for m in plan.mc if tier in m.tiers]
    jobs = [pool.submit(tlc.run, m.module, m.cfg, workers=m.workers,
                        timeout=600 if tier == "quick" else 20000) for m in mcs]

    # behaviours generated from the specification
    scripts = None
    generated = 0
    if plan.gen:
        scripts = work / "scripts.ndjson"
        with open(scripts, "w") as f:
            for g in plan.gen:
                n = (g.simulate or {}).get(tier)
                r = tlc.run(g.module, g.cfg, simulate=f"num={n}" if n else None, depth=g.depth,
                            seed=seed if n else None, workers=1 if n else "auto",
                            timeout=600 if tier == "quick" else 6000)
                if r.violated:
                    raise tlc.TLCError(f"{g.module}/{g.cfg}: {r.violated}\n{r.out[-2000:]}")
                seen = set()
                for p in r.tagged("script"):
                    line = json.dumps(p, sort_keys=True)
                    if line not in seen:
                        seen.add(line)
                        f.write(line + "\n")
                        generated += 1
                states += r.distinct
                transitions += r.generated
        if not generated:
            raise tlc.TLCError("no behaviour generated")

    # the real code
    out = work / "trace.ndjson"
    env = dict(os.environ)
    env.update(PYTHONPATH=f"{REPO}:{VERIF}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX=str(work / "pyc"), TZ="UTC")
    if pid == "C18":
        # the drivers set the date; without a compiler they use today's
        shim = work / "clockshim.so"
        try:
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", str(shim), str(VERIF / "harness" / "clockshim.c")], check=True,
                           capture_output=True, timeout=60)
            env.update(LD_PRELOAD=str(shim), VP_CLOCK=str(shim))
        except (OSError, subprocess.SubprocessError):
            pass
    cmd = [PY, "-B", "-m", "harness.drive", pid, tier, str(seed), str(out)]
    if scripts:
        cmd.append(str(scripts))
    violations = []
    notes = []
    try:
        p = subprocess.run(cmd, cwd=work, env=env, capture_output=True, text=True, errors="replace",
                           timeout=plan.drive_limit[tier])
        if p.returncode != 0:
            violations.append({"clause": "driver", "detail": "the driver could not exercise the code",
                               "exit": p.returncode, "output": (p.stdout + p.stderr)[-4000:]})
    except subprocess.TimeoutExpired as e:
        violations.append({"clause": "hang", "detail": f"no end after {e.timeout} s",
                           "output": str(e.stderr)[-2000:]})

    # the specification's verdict
    records = []
    if out.exists() and not violations:
        with open(out) as f:
            records = [json.loads(x) for x in f]
        if not records:
            raise tlc.TLCError("the driver recorded nothing")
        r = tlc.run(plan.trace, plan.trace_cfg, env={"TRACE": str(out), "PROPERTY": pid},
                    workers=1 if plan.stateful else "auto", timeout=plan.judge_limit[tier])
        if r.violated:
            raise tlc.TLCError(f"judging failed: {r.violated}\n{r.out[-3000:]}")
        judged = sum(x["n"] for x in r.tagged("judged"))
        if judged != len(records):
            raise tlc.TLCError(f"judged {judged} of {len(records)} records\n{r.out[-3000:]}")
        states += r.distinct
        transitions += r.generated
        known_here = known(pid)
        hit = {}
        for b in sorted(r.tagged("bad"), key=lambda x: x["i"]):
            rec = records[b["i"] - 1]
            left = []
            for c in sorted(b["clauses"]):
                m = [k for k in known_here if k[0] == rec.get("key") and k[1] == c]
                if m:
                    hit[m[0]] = hit.get(m[0], 0) + 1
                else:
                    left.append(c)
            if left:
                violations.append({"clause": ",".join(left), "at": b.get("at"),
                                   "expected": readable(b.get("want")), "record": readable(rec), "raw": rec})
        for k, n in hit.items():
            print(f"KNOWN-FINDING: property={pid} {k[2]} (key={k[0]}, clause={k[1]}, {n} record(s))")
            notes.append(f"known finding {k[0]}: {n} record(s)")

    for m, j in zip(mcs, jobs):
        r = j.result()
        if r.violated:
            raise tlc.TLCError(f"the specification breaks its own properties {m.module}/{m.cfg}: "
                               f"{r.violated}\n{r.out[-3000:]}")
        states += r.distinct
        transitions += r.generated
        mc_runs.append({"module": m.module, "cfg": m.cfg or m.module, "distinct": r.distinct,
                        "generated": r.generated})

    kinds = {}
    for rec in records:
        k = str(rec.get("k", "trace"))
        kinds[k] = kinds.get(k, 0) + 1
    samples = [readable(records[i]) for i in sorted({0, len(records) // 3, len(records) - 1})] if records else []
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {"states": states, "transitions": transitions,
                     "traces_validated_against_impl": len(records),
                     "behaviours_generated_by_tlc": generated,
                     "records_by_kind": kinds, "model_checking_runs": mc_runs,
                     "samples": [json.loads(json.dumps(s))if len(json.dumps(s)) < 4000
                                 else json.dumps(s)[:4000] for s in samples],
                     "notes": notes},
        "assumptions": plan.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    if violations:
        path = replay_dir / f"{pid}-1.json"
        path.write_text(json.dumps({"property": pid, "tier": tier, "seed": seed, "count": len(violations),
                                    "violations": violations[:50]}, indent=1) + "\n")
        for v in violations[:5]:
            print(f"  {v['clause']}: {json.dumps(v.get('record', v))[:600]}")
            if v.get("expected") is not None:
                print(f"    expected {json.dumps(v['expected'])[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid} held: {len(records)} records of the real code, {states} states, "
          f"{time.time() - t0:.1f} s")
    return 0


sys.exit(main())
