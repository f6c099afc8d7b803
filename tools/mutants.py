"""Mutation sweep, to find what the checks miss (a development aid).

usage: mutants.py FILE[,FILE...] N SEED   e.g. mutants.py pdr/browsify.py 20 1

Works on copies of /repo and /verif under /tmp, never on either. A mutant is
reported if the existing tests pass with it and no relevant quick check fails.
"""
import ast
import os
import random
import shutil
import subprocess
import sys
from pathlib import Path

PY = "/opt/venv/bin/python"
CHECKS = {
    "pdr/browsify.py": "C28 C25", "pdr/func.py": "C27 C31 C12",
    "pdr/pdr.py": "C01 C03 C04 C02 C08 C09 C05 C20 C21 C25 C23 C22 C13 C24 C32 C33",
    "pdr/_scaling.py": "C20 C21", "pdr/utils.py": "C26 C05 C10 C04 C19 C11 C25",
    "pdr/datatypes.py": "C14", "pdr/bit_handling.py": "C17 C16",
    "pdr/np_utils.py": "C14 C12 C15 C17 C22 C20 C26",
    "pdr/pd_utils.py": "C15 C16 C17 C18 C14 C29 C22",
    "pdr/pil_utils.py": "C24", "pdr/pdrtypes.py": "C01 C12",
    "pdr/parselabel/pds3.py": "C06 C07 C08 C09 C10 C11 C16 C04",
    "pdr/parselabel/utils.py": "C10 C06 C04 C09",
    "pdr/parselabel/pds4.py": "C23 C09 C04 C21",
    "pdr/loaders/queries.py":
        "C12 C13 C15 C16 C11 C14 C17 C22 C29 C30 C18 C19 C31 C02 C33",
    "pdr/loaders/image.py": "C12 C13 C26 C14 C33",
    "pdr/loaders/table.py": "C18 C15 C29 C30 C17 C14",
    "pdr/loaders/text.py": "C19 C31", "pdr/loaders/utility.py": "C04 C03 C01",
    "pdr/loaders/handlers.py": "C22 C24", "pdr/loaders/datawrap.py":
        "C31 C27 C12 C19 C22 C24 C29", "pdr/loaders/dispatch.py": "C31",
    "pdr/loaders/_helpers.py": "C03 C01 C18 C31",
    "pdr/formats/checkers.py": "C35 C34 C31",
}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
        ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*",
       ast.Div: "*", ast.Mod: "//"}


def places(text, allowed):
    """(start, end, replacement) in characters of text"""
    lines = text.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x))

    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return (pos(n.lineno, n.col_offset),
                pos(n.end_lineno, n.end_col_offset))

    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in ast.walk(n.args):
                if getattr(a, "annotation", None) is not None:
                    skip.update(map(id, ast.walk(a.annotation)))
            if n.returns is not None:
                skip.update(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.AnnAssign):
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and getattr(
                n.func, "attr", getattr(n.func, "id", "")) in (
                "warn", "filterwarnings", "dump", "write"):
            skip.update(map(id, ast.walk(n)))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno") or \
                n.lineno not in allowed:
            continue
        a, b = span(n)
        src = text[a:b]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l = span(n.left)[1]
            r = span(n.comparators[0])[0]
            between = text[l:r]
            if "(" in between or ")" in between:
                l0 = text[a:l]
            op = SWAP[type(n.ops[0])]
            yield a, b, f"{text[a:l]} {op} {text[r:b]}"
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield a, b, "(" + op.join(
                f"({text[slice(*span(v))]})" for v in n.values) + ")"
            if len(n.values) > 1:
                k = random.randrange(len(n.values))
                rest = [v for i, v in enumerate(n.values) if i != k]
                op = " and " if isinstance(n.op, ast.And) else " or "
                yield a, b, "(" + op.join(
                    f"({text[slice(*span(v))]})" for v in rest) + ")"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield a, b, f"bool({text[slice(*span(n.operand))]})"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield a, b, f"(+{text[slice(*span(n.operand))]})"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = text[slice(*span(n.left))], text[slice(*span(n.right))]
            yield a, b, f"(({l}) {BIN[type(n.op)]} ({r}))"
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield a, b, str(not n.value)
            elif isinstance(n.value, int):
                yield a, b, str(n.value + 1)
                if n.value > 0:
                    yield a, b, str(n.value - 1)
            elif isinstance(n.value, str) and len(n.value) > 1 and \
                    src[0] in "'\"":
                yield a, b, repr("X" + n.value)
        elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and \
                isinstance(n.ctx, ast.Load):
            k = random.randrange(len(n.elts))
            rest = [text[slice(*span(v))] for i, v in enumerate(n.elts)
                    if i != k]
            o, c = "()" if isinstance(n, ast.Tuple) else "[]"
            yield a, b, o + ", ".join(rest) + ("," if o == "(" else "") + c
        elif isinstance(n, (ast.If, ast.IfExp)):
            ta, tb = span(n.test)
            yield ta, tb, "True"
            yield ta, tb, "False"
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield a, b, "pass"
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and \
                not isinstance(n, ast.AugAssign):
            if any(isinstance(t, (ast.Subscript, ast.Attribute))
                   for t in n.targets):
                yield a, b, "pass"
        elif isinstance(n, ast.AugAssign):
            yield a, b, "pass"
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield a, b, "pass"


def run(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, text=True, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, ""


def original(f):
    """numbers of the lines that are of the original repository"""
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], text=True,
                         stdout=subprocess.PIPE).stdout
    return {i for i, x in enumerate(out.splitlines(), 1)
            if x.startswith("^")}


def main(files, n, seed):
    top = Path(f"/tmp/mu/{os.getpid()}")
    repo, verif = top / "repo", top / "verif"
    top.mkdir(parents=True)
    subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
    subprocess.run(["cp", "-a", "/verif", str(verif)], check=True)
    for f in ("check.py", "harness/core.py"):
        p = verif / f
        p.write_text(p.read_text().replace('"/repo"', f'"{repo}"').replace(
            '"/verif"', f'"{verif}"'))
    env = dict(os.environ, PYTHONPATH=str(repo), PYTHONDONTWRITEBYTECODE="1",
               MPLBACKEND="Agg", PATH="/opt/venv/bin:" + os.environ["PATH"])
    shutil.rmtree(verif / "evidence" / "replay", ignore_errors=True)
    for f in files:
        random.seed(f"{seed} {f}")
        path = repo / f
        text = path.read_text()
        cands = list(places(text, original(f)))
        random.shuffle(cands)
        done = 0
        for a, b, new in cands:
            if done >= n:
                break
            mutated = text[:a] + new + text[b:]
            try:
                ast.parse(mutated)
            except SyntaxError:
                continue
            line = text[:a].count("\n") + 1
            path.write_text(mutated)
            rc, out = run([PY, "-m", "pytest", "-q", "-x", "-p",
                           "no:cacheprovider", "--deselect",
                           
                           "pdr/tests/test_primary_desktop_image.py::"
                           "test_anigif", "--timeout=60",
                           "pdr/tests", f"--basetemp={top}/t"],
                          repo, env, 120)
            bad = [x for x in out.splitlines() if x.startswith(
                ("FAILED", "ERROR")) and "anigif" not in x]
            if bad or rc not in (0, 1):
                continue
            done += 1
            killed = None
            for c in CHECKS.get(f, "C35 C34").split():
                rc, out = run([PY, "check.py", c], verif, env, 400)
                if rc:
                    killed = f"{c} {rc}"
                    break
            status = f"killed by {killed}" if killed else "SURVIVED"
            print(f"{status} | {f}:{line} | {text[a:b][:90]!r} -> "
                  f"{new[:90]!r}", flush=True)
        path.write_text(text)
    shutil.rmtree(top)


if __name__ == "__main__":
    main(sys.argv[1].split(","), int(sys.argv[2]), int(sys.argv[3]))
