"""Judges the checks with systematically generated one-edit mutants of the code.

python3 tools/mutate.py FILE:PER_FILE:C03,C04 ...   (results in out/mut/)
"""

import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
OUT = VERIF / "out" / "mut"
SKIP_CALL = ("logging", "warnings", "print")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def seg(src_lines, n):
    return ast.get_source_segment("".join(src_lines), n)


def mutants(text):
    """Yields (lineno, kind, new text)."""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()

    def pos(line, col):
        return offs[line - 1] + col

    def rng(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def put(a, b, new):
        return (raw[:a] + new.encode() + raw[b:]).decode()

    res = []

    def visit(n, infunc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for c in n.body:
                visit(c, True)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d, True)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.AnnAssign)) and not (
            isinstance(n, ast.AnnAssign) and n.value
        ):
            return
        if isinstance(n, ast.AnnAssign):
            visit(n.value, infunc)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.startswith(SKIP_CALL):
                return
        if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == "msg" for t in n.targets
        ):
            return
        if infunc and isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)):
            a, b = rng(n)
            if not (isinstance(n, ast.Expr) and ast.unparse(n).startswith(SKIP_CALL)):
                res.append((n.lineno, "delete", put(a, b, "pass")))
        if infunc and isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            a, b = rng(n)
            res.append((n.lineno, "delete", put(a, b, "pass")))
        if isinstance(n, ast.If):
            a, b = rng(n.test)
            t = raw[a:b].decode()
            if infunc:
                res.append((n.lineno, "if-false", put(a, b, "(False)")))
                res.append((n.lineno, "if-not", put(a, b, f"not ({t})")))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op:
                _, a = rng(n.left)
                b, _ = rng(n.comparators[0])
                old = raw[a:b].decode()
                for o in ("<=", ">=", "==", "!=", "<", ">"):
                    if o in old:
                        res.append((n.lineno, "compare", put(a, b, old.replace(o, op, 1))))
                        break
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and infunc:
            _, a = rng(n.left)
            b, _ = rng(n.right)
            old = raw[a:b].decode()
            o = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "BitAnd": "&", "BitOr": "|"}[
                type(n.op).__name__
            ]
            if o in old:
                res.append((n.lineno, "binop", put(a, b, old.replace(o, BIN[type(n.op)], 1))))
        if isinstance(n, ast.BoolOp) and infunc:
            _, a = rng(n.values[0])
            b, _ = rng(n.values[1])
            old = raw[a:b].decode()
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if o in old:
                res.append((n.lineno, "boolop", put(a, b, old.replace(o, w, 1))))
        if isinstance(n, ast.UnaryOp) and infunc and isinstance(n.op, (ast.Not, ast.Invert)):
            a, b = rng(n)
            c, d = rng(n.operand)
            res.append((n.lineno, "unary", put(a, b, raw[c:d].decode())))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
            a, b = rng(n)
            if isinstance(n.value, bool):
                res.append((n.lineno, "bool", put(a, b, str(not n.value))))
            elif isinstance(n.value, int):
                res.append((n.lineno, "const", put(a, b, str(n.value + 1))))
            elif isinstance(n.value, float):
                res.append((n.lineno, "const", put(a, b, repr(n.value * 1.1))))
        for c in ast.iter_child_nodes(n):
            visit(c, infunc)

    for c in tree.body:
        visit(c, False)
    out = []
    seen = set()
    for ln, kind, new in res:
        if new in seen or new == text:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        out.append((ln, kind, new))
    return out


def run(file, n, checks, copy):
    src = Path("/repo", file).read_text()
    ms = mutants(src)
    step = max(1, len(ms) / n)
    pick = [ms[int((i + 0.37) * step)] for i in range(n) if int((i + 0.37) * step) < len(ms)]
    target = Path(copy, file)
    for ln, kind, new in pick:
        target.write_text(new)
        d = subprocess.run(["diff", "-U0", f"/repo/{file}", str(target)], capture_output=True, text=True).stdout
        d = "".join(x for x in d.splitlines(True)[2:] if not x.startswith("@@"))
        t0 = time.time()
        killed = None
        for c in checks:
            env = dict(os.environ, VERIF_REPO=copy, VERIF_FAILFAST="1", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run(["nice", "-n", "10", str(VERIF / "check"), c, "quick"], env=env, capture_output=True,
                                   text=True, timeout=800)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    killed = c
                    break
                if r.returncode not in (0, 1) or r.returncode == 1:
                    killed = f"{c} crash"
                    break
            except subprocess.TimeoutExpired:
                killed = f"{c} timeout"
                break
        with open(OUT / "results.jsonl", "a") as f:
            f.write(json.dumps({"file": file, "line": ln, "kind": kind, "killed": killed, "diff": d,
                                "checks": checks, "t": round(time.time() - t0, 1)}) + "\n")
    target.write_text(src)


def main():
    OUT.mkdir(parents=True, exist_ok=True)
    copy = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
        for a in sys.argv[1:]:
            file, n, checks = a.split(":")
            run(file, int(n), checks.split(","), copy)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--count":
        for f in sys.argv[2:]:
            print(f, len(mutants(Path("/repo", f).read_text())))
    else:
        main()
