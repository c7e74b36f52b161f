"""Mutation sweep: small syntactic changes of /repo/pyown that pass the existing tests, each run through the driver and
the judge of the checks that concern its file (the model-checking part does not depend on the code and is skipped).
Prints the changes that no check noticed.  Development tool; no check uses it.

usage: sweep.py OUT.jsonl [--file SUBSTR] [--every N] [--jobs N] [--only I,J]"""
import argparse
import ast
import concurrent.futures
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V))
sys.dont_write_bytecode = True
from harness import tlc  # noqa: E402
from harness.plans import PLANS  # noqa: E402

PY = "/opt/venv/bin/python"
REPO = pathlib.Path("/repo")
MAP = [
    ("auth/open", "C08 C10"), ("auth/", "C09 C11 C10 C28"),
    ("client/base", "C10 C12 C25 C11 C13 C15 C17 C23 C24 C03 C04 C14 C27 C28 C29"),
    ("client/client", "C23 C22 C24 C21 C12 C25"),
    ("client/session", "C10 C12"),
    ("items/base", "C15 C16 C17 C24 C22 C21 C18 C19 C12 C26 C27 C29"),
    ("items/gateway", "C20 C19 C18 C21 C22 C15 C16 C17"),
    ("items/energy", "C30 C18 C19 C21 C22 C15 C16 C17 C24 C06"),
    ("items/", "C18 C19 C21 C22 C15 C16 C17 C24 C06"),
    ("messages/", "C01 C02 C05 C03 C04 C15 C16"),
    ("protocol/", "C03 C04 C13 C14 C25 C23 C12 C29"),
    ("tags/where", "C07 C01 C05"), ("tags/", "C05 C06 C01 C09 C02"),
    ("exceptions", "C02 C10 C15 C12"),
]


def checks_for(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return []


def mutants(src):
    """(start offset, end offset, replacement, what) on characters."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x))

    def off(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return src[a:b]
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and ast.get_docstring(n):
            skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                if isinstance(x, (ast.Constant, ast.JoinedStr)):
                    skip.add(id(x))
        if isinstance(n, ast.Call) and re.match(r"(self\._?)?(log|logger)\b", ast.unparse(n.func)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.returns:
                skip.update(id(x) for x in ast.walk(n.returns))
            if n.name in ("__repr__",) or any("overload" in ast.unparse(d) for d in n.decorator_list):
                skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "__all__":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
    out = []
    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
           ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//",
           ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            parts = [n.left] + n.comparators
            for i, op in enumerate(n.ops):
                a, b = span(parts[i])[1], span(parts[i + 1])[0]
                out.append((a, b, f" {CMP[type(op)]} ", "cmp"))
                if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                    out.append((a, b, " == ", "cmp="))
        elif isinstance(n, ast.BoolOp):
            w = "or" if isinstance(n.op, ast.And) else "and"
            for x, y in zip(n.values, n.values[1:]):
                out.append((span(x)[1], span(y)[0], f" {w} ", "bool"))
            for x in n.values:
                out.append((*span(x), "True" if isinstance(n.op, ast.And) else "False", "drop-operand"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((*span(n), f"({seg(n.operand)})", "not"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.BitOr) and re.search(r"\bNone\b|str\b|int\b", seg(n)):
                continue
            out.append((span(n.left)[1], span(n.right)[0], f" {BIN[type(n.op)]} ", "arith"))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((*span(n), str(not n.value), "bool-const"))
            elif isinstance(n.value, (int, float)):
                out.append((*span(n), repr(n.value + 1), "const+1"))
                if n.value:
                    out.append((*span(n), repr(n.value - 1), "const-1"))
            elif isinstance(n.value, str) and src[span(n)[0]] in "\"'r":
                v = n.value
                if re.fullmatch(r"\d+", v):
                    out.append((*span(n), repr(str(int(v) + 1)), "str+1"))
                    if len(v) > 1:
                        out.append((*span(n), repr(v[1:]), "str-cut"))
                else:
                    out.append((*span(n), repr(v[1:] if v else "0"), "str"))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant,)):
                continue
            if isinstance(n, ast.Expr) and id(n.value) in skip:
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                out.append((*span(n), "if False: " + seg(n), "del-yield"))
                out.append((*span(n), seg(n) + "; " + seg(n), "dup"))
                continue
            out.append((*span(n), "pass", "del"))
            if isinstance(n, ast.Expr) and "\n" not in seg(n):
                out.append((*span(n), seg(n) + "; " + seg(n), "dup"))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((*span(n), "return None", "ret-none"))
        elif isinstance(n, ast.Raise):
            out.append((*span(n), "pass", "del-raise"))
            if n.exc is not None:
                out.append((*span(n), "raise RuntimeError('x')", "raise-other"))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((*span(n.test), "True", "cond-true"))
            out.append((*span(n.test), "False", "cond-false"))
        elif isinstance(n, ast.Break):
            out.append((*span(n), "continue", "break"))
        elif isinstance(n, ast.Continue):
            out.append((*span(n), "break", "continue"))
            out.append((*span(n), "pass", "continue"))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            out.append((*span(n.type), "()", "except"))
            if isinstance(n.type, ast.Tuple):
                for x in n.type.elts:
                    out.append((*span(n.type), "(" + ", ".join(seg(y) for y in n.type.elts if y is not x) + ",)",
                                "except-1"))
        elif isinstance(n, (ast.AsyncWith, ast.With)):
            a = off(n.lineno, n.col_offset)
            b = span(n.items[-1].optional_vars or n.items[-1].context_expr)[1]
            out.append((a, b, "if True", "with"))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                for x, y in zip(n.args, n.args[1:]):
                    if seg(x) != seg(y):
                        out.append((span(x)[0], span(y)[1], f"{seg(y)}, {seg(x)}", "swap-args"))
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 0:
                    a, b = span(k)
                    m = re.match(r"\s*,", src[b:])
                    out.append((a, b + (m.end() if m else 0), "", "drop-kw"))
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            x, y = n.elts
            out.append((span(x)[0], span(y)[1], f"{seg(y)}, {seg(x)}", "swap-tuple"))
    seen, uniq = set(), []
    for a, b, r, w in out:
        if src[a:b] != r and (a, b, r) not in seen:
            seen.add((a, b, r))
            uniq.append((a, b, r, w))
    return sorted(uniq)


def gen_scripts(cache):
    res = {}
    made = {}
    for pid, plan in PLANS.items():
        if not plan.gen:
            continue
        key = json.dumps([(g.module, g.cfg, g.simulate) for g in plan.gen])
        if key not in made:
            path = cache / f"{pid}.ndjson"
            with open(path, "w") as f:
                for g in plan.gen:
                    n = (g.simulate or {}).get("quick")
                    r = tlc.run(g.module, g.cfg, simulate=f"num={n}" if n else None, depth=g.depth,
                                seed=1 if n else None, workers=1 if n else "auto")
                    seen = set()
                    for p in r.tagged("script"):
                        line = json.dumps(p, sort_keys=True)
                        if line not in seen:
                            seen.add(line)
                            f.write(line + "\n")
            made[key] = path
        res[pid] = made[key]
    return res


KNOWN = [re.match(r"known: property=(\S+) key=(\S+) clause=(\S+)", x).groups()
         for x in (V / "known_findings.txt").read_text().splitlines() if x.startswith("known:")]


def run_check(pid, tree, work, scripts):
    plan = PLANS[pid]
    out = work / f"{pid}.ndjson"
    env = dict(os.environ, PYTHONPATH=f"{tree}:{V}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX=str(work / "pyc"), TZ="UTC")
    cmd = [PY, "-B", "-m", "harness.drive", pid, "quick", "1", str(out)]
    if pid in scripts:
        cmd.append(str(scripts[pid]))
    try:
        p = subprocess.run(cmd, cwd=work, env=env, capture_output=True, text=True, errors="replace",
                           timeout=plan.drive_limit["quick"])
    except subprocess.TimeoutExpired:
        return "hang"
    if p.returncode:
        return "driver: " + (p.stderr.strip().splitlines() or [""])[-1][:200]
    try:
        r = tlc.run(plan.trace, plan.trace_cfg, env={"TRACE": str(out), "PROPERTY": pid}, workers=1,
                    timeout=plan.judge_limit["quick"], heap="2500m")
    except tlc.TLCError as e:
        return "TLCERROR " + str(e)[-300:]
    if r.violated:
        return "TLCERROR " + str(r.violated)
    bad = r.tagged("bad")
    if bad:
        recs = [json.loads(x) for x in open(out)]
        for b in bad:
            left = [c for c in b["clauses"] if (pid, recs[b["i"] - 1].get("key"), c) not in KNOWN]
            if left:
                return "clause " + ",".join(sorted(left))[:150]
    out.unlink()
    return None


def one(job):
    i, f, a, b, rep, what, scripts, every_check = job
    work = pathlib.Path(tempfile.mkdtemp(prefix="sweep-"))
    try:
        tree = work / "t"
        shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__"))
        raw = (tree / f).read_bytes()
        crlf = b"\r\n" in raw
        src = raw.decode().replace("\r\n", "\n")
        line = src.count("\n", 0, a) + 1
        new = src[:a] + rep + src[b:]
        r = {"i": i, "file": f, "line": line, "what": what, "old": src[a:b][:120], "new": rep[:120],
             "text": src.splitlines()[line - 1].strip()[:140]}
        try:
            compile(new, f, "exec")
        except SyntaxError:
            r["status"] = "syntax"
            return r
        (tree / f).write_bytes((new.replace("\n", "\r\n") if crlf else new).encode())
        env = dict(os.environ, PYTHONPATH=str(tree), PYTHONDONTWRITEBYTECODE="1")
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=10", "tests"],
                               cwd=tree, env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            r["status"] = "tests"
            return r
        if t.returncode:
            r["status"] = "tests"
            return r
        r["status"] = "SURVIVED"
        r["by"] = {}
        for pid in checks_for(f):
            v = run_check(pid, tree, work, scripts)
            if v:
                r["by"][pid] = v
                if not v.startswith("TLCERROR"):
                    r["status"] = "caught"
                    if not every_check:
                        break
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--file", default="pyown/")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--only", default="")
    ap.add_argument("--all-checks", action="store_true")
    o = ap.parse_args()
    cache = pathlib.Path(tempfile.mkdtemp(prefix="sweepgen-"))
    try:
        files = [f for f in subprocess.run(["git", "ls-files", "pyown"], cwd=REPO, capture_output=True,
                                           text=True).stdout.split() if f.endswith(".py") and o.file in f]
        jobs = []
        i = 0
        only = {int(x) for x in o.only.split(",") if x}
        for f in files:
            src = (REPO / f).read_bytes().decode().replace("\r\n", "\n")
            for a, b, rep, what in mutants(src):
                i += 1
                if (i in only) if only else (i % o.every == o.offset):
                    jobs.append((i, f, a, b, rep, what))
        print(len(jobs), "of", i, "changes", flush=True)
        scripts = gen_scripts(cache)
        n = {}
        with concurrent.futures.ThreadPoolExecutor(o.jobs) as ex, open(o.out, "a") as out:
            for r in ex.map(one, [(*j, scripts, o.all_checks) for j in jobs]):
                n[r["status"]] = n.get(r["status"], 0) + 1
                out.write(json.dumps(r) + "\n")
                out.flush()
                if r["status"] == "SURVIVED":
                    print(f"{r['i']} {r['file']}:{r['line']} {r['what']}: {r['old']!r} -> {r['new']!r}   [{r['text']}]"
                          + (f" {r['by']}" if r["by"] else ""), flush=True)
        print(n)
    finally:
        shutil.rmtree(cache, ignore_errors=True)


if __name__ == "__main__":
    main()
