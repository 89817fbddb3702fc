"""Development tool: a sweep of small source changes over /repo, to find behaviour no check looks at.
   mutate.py list                      prints the number of mutants per file
   mutate.py run COVDIR OUT [every [offset]]  tests every n-th mutant which passes the repository's own tests against
                                       the checks which execute its line (COVDIR: files Cxx with lines file:line)
Works on scratch copies only."""
import ast, json, os, shutil, subprocess, sys, tempfile, hashlib, random
PY = "/opt/venv/bin/python"
SRC = "/repo/tfchain"
SKIPF = ("errors.py", "__init__.py")
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
        ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
       ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def mutants(path):
    src = open(path).read()
    b = src.encode()
    starts = [0]
    for l in b.split(b"\n"):
        starts.append(starts[-1] + len(l) + 1)
    pos = lambda ln, col: starts[ln - 1] + col
    rng = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def seg(n):
        s, e = rng(n)
        return b[s:e].decode()

    def add(n, new, kind):
        s, e = rng(n)
        out.append((n.lineno, kind, s, e, new))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__") and "isinstance" not in seg(n)[:0]:
                fn = n.name
            fn = n.name
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            add(n, "(%s %s %s)" % (seg(n.left), SWAP[t], seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + j.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                o = (" and " if isinstance(n.op, ast.And) else " or ").join("(" + seg(v) + ")" for k, v in enumerate(n.values) if k != i)
                add(n, "(" + o + ")", "drop-operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + seg(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            o = "-" if isinstance(n.op, ast.Add) else "+"
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, "(%s %s %s)" % (seg(n.left), o, seg(n.right)), "arith")
        elif isinstance(n, ast.Constant) and type(n.value) is int and 0 <= n.value < 100000:
            add(n, str(n.value + 1), "const")
            if n.value > 1:
                add(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.If):
            if n.body and isinstance(n.body[-1], ast.Raise) and len(n.body) == 1:
                add(n.test, "False", "no-guard")
            elif isinstance(n.body[-1], (ast.Return, ast.Continue)) and len(n.body) == 1:
                add(n.test, "False", "no-early")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and fn != "__init__":
            add(n, "pass", "del")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "break" if isinstance(n, ast.Continue) else "continue", "loop")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("max", "min"):
            add(n.func, "min" if n.func.id == "max" else "max", "call")
        elif isinstance(n, ast.keyword):
            pass
    walk(ast.parse(src), "")
    seen, res = set(), []
    for ln, kind, s, e, new in sorted(out):
        t = b[:s] + new.encode() + b[e:]
        if t in seen:
            continue
        seen.add(t)
        res.append((ln, kind, b[s:e].decode(), new, t))
    return res


def all_mutants():
    r = []
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if f.endswith(".py") and f not in SKIPF:
                p = os.path.join(d, f)
                for ln, kind, old, new, t in mutants(p):
                    rel = os.path.relpath(p, SRC)
                    r.append((rel, ln, kind, old, new, t))
    return r


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        import collections
        c = collections.Counter(m[0] for m in ms)
        for k, v in c.items():
            print(v, k)
        print(len(ms))
        return
    cov, out = sys.argv[2:4]
    every = int(sys.argv[4]) if len(sys.argv) > 4 else 10
    off = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    times = json.load(open(cov + "/times.json"))
    lines = {}
    for c in times:
        for l in set(open(cov + "/" + c).read().split()):
            lines.setdefault(l, set()).add(c)
    random.Random(7).shuffle(ms)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    d = tempfile.mkdtemp(prefix="mut.")
    repo = d + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    for i, (rel, ln, kind, old, new, t) in enumerate(ms):
        if i % every != off:
            continue
        mid = hashlib.sha1(t).hexdigest()[:10]
        if mid in done:
            continue
        p = repo + "/tfchain/" + rel
        orig = open(p, "rb").read()
        rec = {"id": mid, "file": rel, "line": ln, "kind": kind, "old": old[:300], "new": new[:300]}
        try:
            open(p, "wb").write(t)
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "--deselect", "tests/test_explorer_client.py::test_explorer_client", "--no-header", "-p", "no:cacheprovider"],
                                   cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, timeout=60)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                rec["res"] = "tests"
            else:
                cs = sorted(lines.get("%s:%d" % (rel, ln), ()), key=lambda c: times[c])
                rec["checks"] = cs
                rec["res"] = "UNREACHED" if not cs else "SURVIVED"
                for c in cs:
                    try:
                        r = subprocess.run([PY, "/verif/run.py", c], cwd="/verif", capture_output=True, text=True, timeout=600,
                                           env=dict(os.environ, VERIF_REPO=repo, VERIF_MAXVIOL="1", PYTHONPATH="", VERIF_NOEVIDENCE="1"))
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                    if rc != 0:
                        rec["res"] = "%s rc=%s" % (c, rc)
                        break
        finally:
            open(p, "wb").write(orig)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")
    shutil.rmtree(d)


main()
