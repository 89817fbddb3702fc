"""Development tool: makes or re-validates a planted bug in a scratch copy.
   seed.py new ID PROP SPEC.json   with {"edits": [[file, old, new], ...], "demo": "...", "needs": "...", "breaks": "..."}
   seed.py check [ID...] [--all-checks]   re-validates: applies, tests, demo both ways, which checks catch it
"""
import json, os, shutil, subprocess, sys, tempfile

V = "/verif/seeded"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix="seed.")
    sh(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def run_tests(repo):
    r = sh([PY, "-m", "pytest", "-q", "-x", "--deselect", "tests/test_explorer_client.py::test_explorer_client", "--no-header", "-p", "no:cacheprovider"], cwd=repo, env={"PYTHONPATH": repo})
    return r.returncode == 0, r.stdout[-1500:]


def demo(repo, sid):
    d = tempfile.mkdtemp(prefix="demo.")
    for f in os.listdir(V + "/" + sid):
        if os.path.isdir(V + "/" + sid + "/" + f):
            shutil.copytree(V + "/" + sid + "/" + f, d + "/" + f)
        elif not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(V + "/" + sid + "/" + f, d)
    r = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=300)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-800:]


def own_lines(sid):
    """removed lines of the patch that one of my own commits added (must be none)"""
    root = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    bad, f, ln, plus = [], None, 0, 0
    for l in open(V + "/%s/patch.diff" % sid):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            ln = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(["git", "-C", "/repo", "blame", "-l", "-s", "--root", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f]).stdout
            if not b.lstrip("^").startswith(root[:39]):
                bad.append("%s:%d" % (f, ln))
            else:
                plus += 1
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return bad, plus


def validate(sid, checks=None):
    d, repo = copy()
    try:
        meta = json.load(open(V + "/%s/meta.json" % sid))
        rc0, o0 = demo(repo, sid)
        if rc0 != 0:
            return False, "demo fails on the unchanged tree: " + o0
        r = sh(["git", "apply", V + "/%s/patch.diff" % sid], cwd=repo)
        if r.returncode:
            return False, "patch: " + r.stderr
        ok, out = run_tests(repo)
        if not ok:
            return False, "tests fail: " + out
        rc1, o1 = demo(repo, sid)
        if rc1 == 0:
            return False, "demo passes with the patch"
        res = []
        for c in checks or [meta["property"]]:
            if not os.path.exists("/verif/mc/checks/%s.py" % c.lower()):
                res.append(c + ":none")
                continue
            r = sh([PY, "/verif/run.py", c], cwd="/verif", env={"VERIF_REPO": repo, "PYTHONPATH": "", "VERIF_MAXVIOL": "1"})
            res.append("%s:%s" % (c, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, r.returncode)))
            if r.returncode == 1:
                ls = [l for l in r.stdout.splitlines() if l.startswith("   ") and "{" in l or "unexpected" in l]
                res.append((r.stdout.split("VIOLATION", 1)[1].splitlines() + [""])[1].strip()[:200])
            elif r.returncode not in (0, 1):
                res.append((r.stdout + r.stderr)[-600:])
        b, n = own_lines(sid)
        if b or not n:
            res.append("OWN-LINES %s (original lines: %d)" % (b, n))
        return True, " ".join(res)
    finally:
        shutil.rmtree(d)


def new(sid, prop, spec):
    s = json.load(open(spec))
    d, repo = copy()
    try:
        for f, old, new_ in s["edits"]:
            p = repo + "/" + f
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new_))
        diff = sh(["git", "diff"], cwd=repo).stdout
    finally:
        shutil.rmtree(d)
    o = V + "/" + sid
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    demo_text = s["demo"]
    if "from mc" in demo_text:  # the stand-in for the network, as a copy beside the demonstration
        demo_text = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n" + demo_text.lstrip()
        for f in ("__init__.py", "core.py", "world.py", "ref/__init__.py", "ref/enc.py", "ref/types.py", "ref/txn.py", "ref/ledger.py"):
            os.makedirs(os.path.dirname(o + "/mc/" + f), exist_ok=True)
            if os.path.exists("/verif/mc/" + f):
                shutil.copy("/verif/mc/" + f, o + "/mc/" + f)
    open(o + "/demo.py", "w").write(demo_text)
    open(o + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    print(sid, *validate(sid))


if sys.argv[1] == "new":
    new(*sys.argv[2:5])
else:
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    checks = sorted(f[:-3].upper() for f in os.listdir("/verif/mc/checks") if f.startswith("c") and f.endswith(".py")) if "--all-checks" in sys.argv else None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for sid, r in ex.map(lambda s: (s, validate(s, checks)), args or sorted(os.listdir(V))):
            print(sid, *r, flush=True)
