"""C29: results do not depend on the surroundings."""
import decimal
import json
import os
import pkgutil
import subprocess
import sys

import tfchain

from mc import envwork as E
from mc.core import REPO, bad, expect, family, same

PROPERTY = "C29"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive enumeration of surroundings (every decimal context, interpreter option, hash seed, zone, locale, working directory, thread, first-imported module and pair of them) x a fixed set of steps; "
             "oracle: the same step in the default surroundings")
RULE = ("surroundings x steps (all readings of transactions, conditions and fulfillments, amount arithmetic, pairs of wallet operations, keys, merkle trees). Non-trivial: the step ran in those surroundings and its result was compared")
ASSUMPTIONS = ["the results compared are judged by the other properties in the default surroundings", "texts of points in time follow the zone of the machine and are not compared",
               "a machine without any UTF-8 locale is no supported surrounding: the mnemonic package cannot read its own word lists there"]
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

# --- the decimal context of the thread
D = decimal
CONTEXTS = {"prec%d %s%s" % (p, r[6:].lower(), "" if c else " small"): (dict(prec=p, rounding=r) if c else dict(prec=p, rounding=r, Emax=9, Emin=-9))
            for p in (1, 3, 9, 28, 60) for r in (D.ROUND_HALF_EVEN, D.ROUND_UP, D.ROUND_DOWN, D.ROUND_05UP) for c in (0, 1)}
CONTEXTS.update({"no traps": dict(traps=[]), "all traps": dict(traps=[D.Inexact, D.Rounded, D.Subnormal, D.Clamped, D.Underflow, D.Overflow, D.FloatOperation, D.InvalidOperation, D.DivisionByZero]),
                 "all traps prec5": dict(prec=5, traps=[D.Inexact, D.Rounded, D.Subnormal, D.Clamped, D.Underflow, D.Overflow, D.FloatOperation, D.InvalidOperation, D.DivisionByZero]),
                 "inexact": dict(traps=[D.Inexact]), "float": dict(traps=[D.FloatOperation]), "clamp": dict(clamp=1, prec=7, Emax=9, Emin=-9), "capitals": dict(capitals=0)})


@family
def context(case):
    """[name of the context, step]: the step under a decimal context of the caller's"""
    name, step = case
    want = plain(step)
    with decimal.localcontext(decimal.Context(**CONTEXTS[name])):
        got = E.plain(step)
        now = decimal.getcontext()
        same([now.prec, now.rounding, now.Emax, now.Emin, now.traps], [(c := decimal.Context(**CONTEXTS[name])).prec, c.rounding, c.Emax, c.Emin, c.traps], "the caller's decimal context afterwards")
    if got != want:
        bad("{} under decimal context {}: got {} want {}", step, name, *differ(got, want))
    return (step[0], want[:200])


_want = {}


def plain(step):
    k = json.dumps(step)
    if k not in _want:
        if len(_want) > 2000:
            _want.clear()
        _want[k] = E.plain(step)
    return _want[k]


_digest = {}


def digests(l):
    for s in l:
        k = json.dumps(s)
        if k not in _digest:
            _digest[k] = E.digests([s])[k]
    return {json.dumps(s): _digest[json.dumps(s)] for s in l}


def differ(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return a[max(0, i - 40):i + 80], b[max(0, i - 40):i + 80]


# --- the process
def child(env, job):
    opts = env.get("opts", [])
    e = dict(os.environ, PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE + os.pathsep + REPO)
    for k, v in env.get("env", {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    job = dict(job, **{k: env[k] for k in ("first", "prepare", "thread") if k in env})
    p = subprocess.run([sys.executable] + opts + ["-m", "mc.envwork"], input=json.dumps(job), capture_output=True, text=True, env=e, cwd=env.get("cwd", HERE), timeout=300)
    if p.returncode:
        return p.stderr[-600:]
    return json.loads(p.stdout[p.stdout.index("{"):])


ENVS = {"default": {}}
for n in range(1, 9):
    ENVS["hash seed %d" % n] = {"env": {"PYTHONHASHSEED": str(n)}}
for o in ("-O", "-OO", "-bb", "-I0", "-X dev", "-X utf8=0", "-X utf8=1", "-u", "-X int_max_str_digits=0", "-q"):
    if o != "-I0":
        ENVS[o] = {"opts": o.split()}
for z in ("America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/Brussels", "Etc/GMT+12", "XYZ-13:37"):
    ENVS["zone " + z] = {"env": {"TZ": z}}
for n, v in (("C", {"LC_ALL": "C", "LANG": "C"}), ("POSIX in UTF-8", {"LC_ALL": "POSIX", "PYTHONUTF8": "1"}), ("ascii", {"PYTHONIOENCODING": "ascii"}), ("turkish", {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}), ("latin", {"LC_ALL": "de_DE.ISO-8859-1"})):
    ENVS["locale " + n] = {"env": v}
ENVS["no home"] = {"env": {"HOME": None, "USER": None, "LOGNAME": None, "PATH": "", "TMPDIR": "/nonexistent"}}
ENVS["elsewhere"] = {"cwd": "/"}
ENVS["thread"] = {"thread": True}
ENVS["random seeded"] = {"prepare": "import random; random.seed(0)"}
ENVS["random seeded otherwise"] = {"prepare": "import random; random.seed(12345)"}
ENVS["no garbage collection"] = {"prepare": "import gc; gc.disable()"}
ENVS["busy garbage collection"] = {"prepare": "import gc; gc.set_threshold(1, 1, 1)"}
ENVS["context in all threads"] = {"prepare": "import decimal; decimal.DefaultContext.prec = 4; decimal.setcontext(decimal.Context(prec=4))", "thread": True}
ENVS["locale set"] = {"prepare": "import locale; locale.setlocale(locale.LC_ALL, 'C.UTF-8')"}
ENVS["default timeout"] = {"prepare": "import socket; socket.setdefaulttimeout(0.001)"}
ENVS["patient switching"] = {"prepare": "import sys; sys.setswitchinterval(1e-6)", "thread": True}
ENVS["no output"] = {"prepare": "import sys; sys.stderr = None"}
ENVS["warnings are errors"] = {"prepare": "import warnings; warnings.simplefilter('error')"}
ENVS["logging on"] = {"prepare": "import logging; logging.basicConfig(level=1)"}
ENVS["json patched by nobody"] = {"prepare": "import json.encoder; json.encoder.c_make_encoder = None"}


def modules():
    return sorted(m.name for m in pkgutil.walk_packages(tfchain.__path__, "tfchain."))


def chunks(l, n):
    return [l[i::n] for i in range(n)]


@family
def process(case):
    """[names of surroundings, part, parts, deep]: the steps in a process of its own with these surroundings"""
    names, part, parts, deep = case
    env = {}
    for n in names:
        for k, v in ENVS[n].items():
            env[k] = {**env[k], **v} if isinstance(v, dict) and k in env else env[k] + v if k == "opts" and k in env else env[k] + "\n" + v if k == "prepare" and k in env else v
    l = chunks(E.steps(deep), parts)[part]
    got = child(env, {"steps": l})
    what = " and ".join(names)
    if not isinstance(got, dict):
        bad("{}: nothing works: {}", what, got)
    want = digests(l)
    diff = [s for s in l if got[json.dumps(s)] != want[json.dumps(s)]]
    if diff:
        s = diff[0]
        full = child(env, {"steps": [s], "full": True})
        a, b = differ(full[json.dumps(s)] if isinstance(full, dict) else str(full), E.plain(s))
        bad("{}: {} steps differ, first {}: got {} want {}", what, len(diff), json.dumps(s)[:200], a, b)
    return (what, len(l))


process.timeout = 300


@family
def first(case):
    """[module]: every module may be the first one imported, and what follows is the same"""
    m = case[0]
    l = E.steps(False)
    l = [s for i, s in enumerate(l) if i % 7 == case[1]]
    got = child({"first": m}, {"steps": l})
    if not isinstance(got, dict):
        bad("{} cannot be imported first: {}", m, got)
    want = digests(l)
    for s in l:
        same(got[json.dumps(s)], want[json.dumps(s)], "result of %s after importing %s first" % (json.dumps(s)[:200], m))
    return m


first.timeout = 300


def run(ctx):
    Th = ctx.thorough
    few = list(CONTEXTS)[::9]
    ctx.all(context, ([c, s] for s in E.steps(Th) for c in (few if s[0] in ("refusals", "parts", "documents", "play") and not Th else CONTEXTS)), parallel=True, chunk=len(CONTEXTS))
    ctx.all(first, ([m, i % 7] for i, m in enumerate(modules())), parallel=True, chunk=1)
    ctx.all(process, [[[n], p, 1, False] for n in ENVS for p in range(1)], parallel=True, chunk=1)
    if Th:
        some = [n for n in ENVS if not n.startswith("hash seed") or n.endswith("5")]
        ctx.all(process, ([[a, b], (i + j) % 4, 4, False] for i, a in enumerate(some) for j, b in enumerate(some) if i < j), parallel=True, chunk=1)
        ctx.all(process, ([[n], p, 4, True] for n in ENVS for p in range(4)), parallel=True, chunk=1)
