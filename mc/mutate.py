#!/usr/bin/env python3
"""Development tool (no check uses it): mechanical mutants of functions of the code under test, and which of them a check notices.

    mutate.py CHECK[,CHECK...] FILE[:function,function...] [--every N] [--jobs N] [--limit SECONDS]

Each mutant is made in its own scratch copy of /repo (BOS_REPO); a survivor is printed with its line.
Survivors are either equivalent for the property, outside its statement, or a gap of the check: a person decides.
"""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("BOS_REPO", "/repo"))
QUIET = {"dPrint", "vPrint", "fnPrint", "print", "critical", "error", "warning", "info", "debug", "addPriorityError", "append_error"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}

def mutants(text, names):
    tree = ast.parse(text)
    raw = text.encode("utf-8")
    starts = [0]
    for l in raw.split(b"\n"): starts.append(starts[-1] + len(l) + 1)
    pos = lambda line, col: starts[line - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    src = lambda n: raw[slice(*span(n))].decode()
    out = []
    def add(n, new, what): out.append((n.lineno, *span(n), new, what))
    def quiet(n):
        if isinstance(n, ast.Expr): n = n.value
        if not isinstance(n, ast.Call): return isinstance(n, ast.Constant)
        f = n.func
        return (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")) in QUIET
    def debug(test):
        s = src(test)
        return any(w in s.lower() for w in ("debug", "verbos", "strictchecking", "alreadymulti", "maxprocesses")) 
    def visit(n):
        if isinstance(n, (ast.Assert, ast.Raise)) or quiet(n): return
        if isinstance(n, ast.If):
            if debug(n.test):
                for c in n.orelse: visit(c)
                return
            add(n.test, "False", "if False"); add(n.test, "True", "if True")
        if isinstance(n, (ast.IfExp)): add(n, src(n.body), "then"); add(n, src(n.orelse), "else")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP[type(n.ops[0])]
            add(n, f"({src(n.left)} {new} {src(n.comparators[0])})", f"-> {new}")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(" + src(v) + ")" for v in n.values) + ")", "->" + o)
            for i in range(len(n.values)): add(n.values[i], "True" if isinstance(n.op, ast.And) else "False", "drop operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, "(" + src(n.operand) + ")", "not dropped")
        if isinstance(n, ast.Constant) and type(n.value) is int: add(n, str(n.value + 1) if n.value else "1", "int+1")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)): add(n, f"({src(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {src(n.right)})", "+-")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or isinstance(n, ast.Expr): add(n, "pass", "deleted")
        for f, v in ast.iter_fields(n):
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST) and not isinstance(c, ast.JoinedStr): visit(c)
    def find(n, path=""):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = path + c.name
                if isinstance(c, ast.FunctionDef) and (not names or c.name in names or q in names) and c.name not in ("briefDemo", "fullDemo", "main"):
                    for b in c.body: visit(b)
                else: find(c, q + ".")
    find(tree)
    res = []
    for line, a, b, new, what in sorted(set(out)):
        m = raw[:a] + new.encode() + raw[b:]
        try: ast.parse(m.decode())
        except SyntaxError: continue
        if m != raw: res.append((line, what, raw[a:b].decode(), new, m))
    return res

def main(argv):
    opts, args = {}, []
    it = iter(argv)
    for a in it:
        if a.startswith("--"): opts[a[2:]] = next(it)
        else: args.append(a)
    checks, (file, _, names) = args[0].split(","), args[1].partition(":")
    text = (REPO / file).read_text(encoding="utf-8")
    ms = mutants(text, set(names.split(",")) if names else None)[int(opts.get("from", 0))::int(opts.get("every", 1))]
    jobs = int(opts.get("jobs", 8))
    base = Path(tempfile.mkdtemp(prefix="mutate-", dir="/tmp"))
    free = []
    for j in range(jobs):
        d = base / f"w{j}"
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__", "Tests", "*.zip"), symlinks=True)
        free.append(d)
    def one(m):
        line, what, old, new, data = m
        d = free.pop()
        try:
            (d / file).write_bytes(data)
            for c in checks:
                try: r = subprocess.run([str(VERIF / "run.sh"), c, "quick", *(["--only", opts["only"]] if "only" in opts else [])], env={**os.environ, "BOS_REPO": str(d), "MC_PROCS": opts.get("procs", "1"), "MC_FAST": "1"}, capture_output=True, text=True, timeout=int(opts.get("limit", 400)))
                except subprocess.TimeoutExpired: return m, "timeout", ""
                if r.returncode: return m, "killed" if r.returncode == 1 else f"rc{r.returncode}", (r.stdout + r.stderr)[-300:]
            return m, "SURVIVED", ""
        finally:
            (d / file).write_text(text, encoding="utf-8"); free.append(d)
    count = {}
    try:
        with ThreadPoolExecutor(jobs) as ex:
            for m, res, out in ex.map(one, ms):
                count[res] = count.get(res, 0) + 1
                if res != "killed": print(f"{res} {m[0]}: {m[1]}: {m[2][:110]!r}" + (f" {out!r}" if res.startswith("rc") else ""), flush=True)
    finally: shutil.rmtree(base)
    print(len(ms), "mutants", count)

main(sys.argv[1:])
