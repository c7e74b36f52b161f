"""Makes /verif/seeded/<id>/ from tools/seeds/<id>.py: edits a scratch clone of /repo, checks that the stable tests
pass with the change, that the demonstration passes without it and fails with it, and writes the patch.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
usage: mkseed.py <id>... """
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
GW = (V / "tools" / "seeds" / "gw.py")


def main(sid):
    s = runpy.run_path(str(V / "tools" / "seeds" / f"{sid}.py"))
    d = V / "seeded" / sid
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.py").write_text(s["DEMO"].lstrip())
    if "from gw import" in s["DEMO"]:
        shutil.copy(GW, d / "gw.py")
    (d / "demo.sh").write_text('#!/bin/bash\n# run in the repository: exit 0 when the property holds here\n'
                               'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 200 /opt/venv/bin/python -B '
                               '"$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"],
                                             "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    w = pathlib.Path(tempfile.mkdtemp(prefix="seed-"))
    try:
        subprocess.run(["git", "clone", "-q", "/repo", str(w / "r")], check=True)
        r = w / "r"
        env = dict(os.environ, PYTHONPATH=str(r), PYTHONDONTWRITEBYTECODE="1")

        def demo():
            return subprocess.run(["bash", str(d / "demo.sh")], cwd=r, env=env, capture_output=True, text=True)
        a = demo()
        for f, old, new in s["EDITS"]:
            p = r / f
            data = p.read_bytes()
            crlf = b"\r\n" in data
            t = data.decode().replace("\r\n", "\n")
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            t = t.replace(old, new)
            p.write_bytes((t.replace("\n", "\r\n") if crlf else t).encode())
        diff = subprocess.run(["git", "diff", "--binary"], cwd=r, capture_output=True).stdout
        (d / "patch.diff").write_bytes(diff)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], cwd=r, env=env,
                           capture_output=True, text=True)
        b = demo()
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(sid, s["PROPERTY"], "OK" if ok else "BAD",
              f"clean={a.returncode} patched={b.returncode} tests={t.stdout.strip().splitlines()[-1:]}")
        if not ok:
            print(a.stdout[-800:], a.stderr[-800:], b.stdout[-500:], t.stdout[-800:])
        else:
            print("   ", ((b.stdout + b.stderr).strip().splitlines() or [""])[-1][:150])
        subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")], check=True)
    finally:
        shutil.rmtree(w)


for x in sys.argv[1:]:
    main(x)
