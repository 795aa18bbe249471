#!/usr/bin/env python3
"""mutate.py PROP FILE N SEED [--lines a-b]: run PROP against N random one-place mutants of FILE.

Development only: copies /repo and /verif to /tmp, prints the mutants the quick check misses."""
import ast, os, random, shutil, subprocess, sys, concurrent.futures as cf

prop, file, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rng = random.Random(seed)
src = open(f"/repo/{file}").read()
tree = ast.parse(src)
lines = src.splitlines(keepends=True)
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()))
bsrc = src.encode()
lo, hi = 0, 10**9
if len(sys.argv) > 5:
    lo, hi = map(int, sys.argv[6].split("-"))


def span(x):
    return off[x.lineno - 1] + x.col_offset, off[x.end_lineno - 1] + x.end_col_offset


SK = set()
for x in ast.walk(tree):
    if isinstance(x, (ast.Raise, ast.Import, ast.ImportFrom)):
        SK.update(ast.walk(x))
    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
        SK.update(ast.walk(x))
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (
        (isinstance(x.func.value, ast.Name) and x.func.value.id in ("_logger", "warnings", "logging")) or x.func.attr in ("warning", "debug", "info", "warn")
    ):
        SK.update(ast.walk(x))
    if isinstance(x, ast.FunctionDef):
        for d in x.decorator_list:
            SK.update(ast.walk(d))
        if x.returns:
            SK.update(ast.walk(x.returns))
        for a in x.args.args + x.args.kwonlyargs:
            if a.annotation:
                SK.update(ast.walk(a.annotation))
    if isinstance(x, ast.JoinedStr):
        SK.update(ast.walk(x))
    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == "__doc__" or isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and x.target.attr == "__doc__":
        SK.update(ast.walk(x))
cands = []


def add(x, new):
    a, b = span(x)
    if lo <= x.lineno <= hi:
        cands.append((x.lineno, a, b, new))


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+", ast.Pow: "*"}
u = ast.unparse
for x in ast.walk(tree):
    if x in SK:
        continue
    if isinstance(x, ast.Compare) and len(x.ops) == 1:
        add(x, f"{u(x.left)} {CMP[type(x.ops[0])]} {u(x.comparators[0])}")
    elif isinstance(x, ast.BoolOp):
        o = " or " if isinstance(x.op, ast.And) else " and "
        add(x, "(" + o.join(f"({u(v)})" for v in x.values) + ")")
        for i in range(len(x.values)):
            vs = x.values[:i] + x.values[i + 1 :]
            o2 = " and " if isinstance(x.op, ast.And) else " or "
            add(x, "(" + o2.join(f"({u(v)})" for v in vs) + ")")
    elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)):
        add(x, f"({u(x.operand)})")
    elif isinstance(x, ast.BinOp) and type(x.op) in BIN and not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)):
        add(x, f"(({u(x.left)}) {BIN[type(x.op)]} ({u(x.right)}))")
    elif isinstance(x, ast.Constant):
        v = x.value
        if isinstance(v, bool):
            add(x, repr(not v))
        elif isinstance(v, int):
            add(x, repr(v + 1))
            if v > 0:
                add(x, repr(v - 1))
        elif isinstance(v, float):
            add(x, repr(v * 1.5 + (v == 0)))
        elif isinstance(v, (str, bytes)):
            add(x, repr(v + ("X" if isinstance(v, str) else b"X")))
    elif isinstance(x, ast.Slice):
        if x.lower is not None:
            add(x, f":{u(x.upper) if x.upper else ''}" + (f":{u(x.step)}" if x.step else ""))
        if x.upper is not None:
            add(x, f"{u(x.lower) if x.lower else ''}:" + (f":{u(x.step)}" if x.step else ""))
    elif isinstance(x, (ast.If, ast.While)):
        add(x.test, "True" if isinstance(x, ast.If) else u(x.test))
        add(x.test, "False")
    elif isinstance(x, ast.IfExp):
        add(x, f"({u(x.body)})")
        add(x, f"({u(x.orelse)})")
    elif isinstance(x, (ast.Expr, ast.AugAssign, ast.Assign)):
        add(x, "pass")
    elif isinstance(x, ast.Call):
        if len(x.args) >= 2:
            c = ast.Call(x.func, [x.args[1], x.args[0]] + x.args[2:], x.keywords)
            add(x, u(c))
        for i in range(len(x.keywords)):
            add(x, u(ast.Call(x.func, x.args, x.keywords[:i] + x.keywords[i + 1 :])))
    elif isinstance(x, (ast.Continue,)):
        add(x, "break")
    elif isinstance(x, ast.Break):
        add(x, "continue")
rng.shuffle(cands)
seen, todo = set(), []
for c in cands:
    m = bsrc[: c[1]] + c[3].encode() + bsrc[c[2] :]
    if m in seen or m == bsrc:
        continue
    try:
        compile(m, file, "exec")
    except SyntaxError:
        continue
    seen.add(m)
    todo.append((c, m))
    if len(todo) >= n:
        break
J = int(os.environ.get("J", "4"))
P = os.environ.get("P", "3")
base = f"/tmp/mut.{os.getpid()}"


def setup(i):
    d = f"{base}.{i}"
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["git", "clone", "-q", "/verif", d + "/verif"], check=True)
    subprocess.run(f"cp -a /verif/rv /verif/known_findings.json {d}/verif/", shell=True, check=True)
    return d


import queue

Q = queue.Queue()
for i in range(J):
    Q.put(setup(i))


def one(t):
    (ln, a, b, new), m = t
    d = Q.get()
    try:
        p = f"{d}/repo/{file}"
        open(p, "wb").write(m)
        out = ""
        for scale in ("0.25", "1"):
            env = dict(os.environ, RV_REPO=d + "/repo", RV_PROCS=P, RV_SCALE=scale, VERIF_SEED="1")
            try:
                r = subprocess.run(["./check", "run", prop], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=400)
                out = f"exit {r.returncode}"
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    return t, "killed"
                if r.returncode:
                    return t, "ERR " + (r.stdout + r.stderr)[-150:].replace("\n", " ")
            except subprocess.TimeoutExpired:
                return t, "TIMEOUT"
        return t, "SURVIVED"
    finally:
        open(f"{d}/repo/{file}", "wb").write(bsrc)
        Q.put(d)


k = 0
with cf.ThreadPoolExecutor(J) as ex:
    res = list(ex.map(one, todo))
for (c, m), w in sorted(res, key=lambda r: r[0][0][0]):
    if w == "killed":
        k += 1
    else:
        ln, a, b, new = c
        old = bsrc[a:b].decode()
        print(f"{w} {file}:{ln}: {' '.join(old.split())[:110]}  ->  {new[:110]}   | {lines[ln-1].strip()[:70]}")
print(f"{prop} {file}: {k}/{len(res)} killed of {len(cands)}")
for i in range(J):
    d = f"{base}.{i}"
    assert d.startswith("/tmp/mut.")
    shutil.rmtree(d)
