"""Core of the bounded-exhaustive explorer: case families, enumeration, breadth-first search over
histories, violations with replay files, known findings and evidence.

A check module defines
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    run(ctx)                      enumerates
and decorates its predicates with @family.  A predicate takes one JSON-able case, runs the real code
from /repo on it, compares with a reference, and either returns an outcome (any repr-able value; None
means "trivial case") or raises Bad.  Any other exception is a violation as well: every case the
predicates are given is one on which the code under test must not fail unexpectedly.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FAMILIES = {}
CASE_TIMEOUT = 60.0


class Bad(Exception):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    pass


def bad(msg, *args):
    raise Bad(msg.format(*args) if args else msg)


def expect(cond, msg, *args):
    if not cond:
        bad(msg, *args)


def same(got, want, what):
    if not (type(got) == type(want) or isinstance(got, (int, str, bytes, bytearray, list, tuple))) or got != want:
        bad("{}: got {} want {}", what, short(got), short(want))


def short(v, n=400):
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v).hex()
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def family(f):
    FAMILIES[f.__name__] = f
    return f


def raises(excs, fn, *a, **kw):
    """Runs fn and returns the exception when it is one of excs; Bad when it returns."""
    try:
        r = fn(*a, **kw)
    except excs as e:
        return e
    bad("expected {} but got {}", [e.__name__ for e in (excs if isinstance(excs, tuple) else (excs,))], short(r))


class _Alarm:
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        def h(signum, frame):
            raise CaseTimeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def one(fam, case):
    """Runs one case. Returns (ok, outcome-or-message)."""
    f = FAMILIES[fam]
    try:
        with _Alarm(getattr(f, "timeout", CASE_TIMEOUT)):
            return True, f(case)
    except Bad as e:
        return False, str(e)
    except CaseTimeout:
        return False, "no result within %gs (does not terminate?)" % CASE_TIMEOUT
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.relpath(t.filename, REPO) if t.filename.startswith(REPO)
                                     else os.path.basename(t.filename), t.lineno) for t in tb[-3:])
        return False, "unexpected %s: %s [%s]" % (type(e).__name__, e, where)


def case_key(fam, case):
    return hashlib.blake2b((fam + json.dumps(case, sort_keys=True, default=str)).encode(), digest_size=12).hexdigest()


def _chunk(args):
    fam, cases = args
    out = []
    for c in cases:
        ok, r = one(fam, c)
        if ok:
            out.append((True, None if r is None else digest(r), r if isinstance(r, Succ) else None))
        else:
            out.append((False, r, None))
    return out


def digest(r):
    if isinstance(r, Succ):
        r = r.outcome
    return hashlib.blake2b(repr(r).encode(), digest_size=8).hexdigest()


class Succ:
    """Outcome of a history in a breadth-first search: the canonical state reached and what is enabled there."""
    __slots__ = ("outcome", "state", "enabled")

    def __init__(self, state, enabled, outcome=None):
        self.state = hashlib.blake2b(repr(state).encode(), digest_size=12).hexdigest()
        self.enabled = list(enabled)
        self.outcome = repr(outcome if outcome is not None else state)


class Ctx:
    MAXVIOL = int(os.environ.get("VERIF_MAXVIOL", "5"))

    def __init__(self, module, tier, seed, budget):
        self.m = module
        self.prop = module.PROPERTY
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.evaluations = 0
        self.keys = set()
        self.nontrivial = 0
        self.outcomes = collections.Counter()
        self.per_family = collections.OrderedDict()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.caps = []
        self.extra = {}
        self.known = load_known(self.prop)
        self._pool = None

    # -- bookkeeping
    def _record(self, fam, case, ok, r):
        self.evaluations += 1
        pf = self.per_family.setdefault(fam, {"evaluations": 0, "nontrivial": 0, "outcomes": set()})
        pf["evaluations"] += 1
        if ok:
            if r is not None:
                k = case_key(fam, case)
                if k not in self.keys:
                    self.keys.add(k)
                    self.nontrivial += 1
                    pf["nontrivial"] += 1
                if len(pf["outcomes"]) < 200000:
                    pf["outcomes"].add(r)
            if pf["evaluations"] in (1, 7) or (pf["evaluations"] in (50, 1000) and len(self.samples) < 60):
                self.samples.append({"family": fam, "case": shrink(case)})
        else:
            self._violation(fam, case, r)

    def _violation(self, fam, case, msg):
        key = case_key(fam, case)
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k
                return
        self.violations.append((fam, case, msg))

    @property
    def stop(self):
        return len(self.violations) >= self.MAXVIOL

    def expired(self, what):
        if time.time() > self.deadline:
            if what not in self.caps:
                self.caps.append(what)
            return True
        return False

    # -- exhaustive enumeration
    def all(self, fam, cases, parallel=None, chunk=None):
        """Evaluates the family on every case of the iterable (simplest first)."""
        name = fam.__name__
        if parallel is None or parallel is False:
            parallel = bool(parallel)
        if not parallel:
            for c in cases:
                if self.stop or self.expired(name):
                    return
                ok, r = one(name, c)
                self._record(name, c, ok, None if (ok and r is None) else (digest(r) if ok else r))
            return
        chunk = chunk or 64
        pool = self.pool()

        def gen():
            buf = []
            for c in cases:
                buf.append(c)
                if len(buf) >= chunk:
                    yield (name, buf)
                    buf = []
            if buf:
                yield (name, buf)
        pending = collections.deque()
        it = gen()
        done = False
        while True:
            while not done and len(pending) < 64:
                if self.stop or self.expired(name):
                    done = True
                    break
                try:
                    a = next(it)
                except StopIteration:
                    done = True
                    break
                pending.append((a, pool.apply_async(_chunk, (a,))))
            if not pending:
                break
            a, res = pending.popleft()
            for c, (ok, r, _) in zip(a[1], res.get()):
                self._record(name, c, ok, r)

    # -- breadth-first search over histories replayed on fresh real objects
    def bfs(self, fam, roots, depth, parallel=False, chunk=16):
        """fam(history) replays a history and returns Succ(state, enabled events). Explores every
        event sequence up to depth, merging histories that reach equal canonical states."""
        name = fam.__name__
        seen = set()
        frontier = [list(r) for r in roots]
        level = 0
        stats = []
        while frontier and not self.stop:
            nxt = []
            results = self._run_level(name, frontier, parallel, chunk)
            for h, (ok, r, succ) in zip(frontier, results):
                self._record(name, h, ok, r)
                if not ok:
                    continue
                self.traces += 1
                if level:
                    self.transitions += 1
                if succ.state in seen:
                    continue
                seen.add(succ.state)
                self.states += 1
                if level < depth:
                    for e in succ.enabled:
                        nxt.append(h + [e])
            stats.append({"depth": level, "histories": len(frontier), "states_total": len(seen)})
            if self.expired(name + " at depth %d" % level):
                break
            level += 1
            frontier = nxt
        self.extra.setdefault("bfs", {})[name + ":" + str(len(self.extra.get("bfs", {})))] = stats

    def _run_level(self, name, frontier, parallel, chunk):
        if not parallel or len(frontier) < 4:
            out = []
            for h in frontier:
                out.extend(_chunk((name, [h])))
            return out
        pool = self.pool()
        jobs = [pool.apply_async(_chunk, ((name, frontier[i:i + chunk]),)) for i in range(0, len(frontier), chunk)]
        out = []
        for j in jobs:
            try:
                out.extend(j.get(max(1.0, self.deadline - time.time())))
            except multiprocessing.TimeoutError:
                self.close()
                break
        return out

    def pool(self):
        if self._pool is None:
            self._pool = multiprocessing.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", "8")))
        return self._pool

    def close(self):
        if self._pool is not None:
            self._pool.terminate()
            self._pool.join()
            self._pool = None


def shrink(c, n=600):
    s = json.dumps(c, default=str)
    return c if len(s) <= n else s[:n] + "..."


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                out.append({"key": key.split("=", 1)[1], "what": what})
    return out


def write_replay(prop, fam, case, msg, n):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump({"property": prop, "family": fam, "case": case, "message": msg,
                   "key": case_key(fam, case),
                   "run": "/opt/venv/bin/python /verif/run.py %s --replay %s" % (prop, path)}, f, indent=1, default=str)
    return path


def main(module, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="development: only this family")
    a = ap.parse_args(argv)
    prop = module.PROPERTY
    if a.replay:
        rec = json.load(open(a.replay))
        ok, r = one(rec["family"], rec["case"])
        print("holds" if ok else "VIOLATION property=%s replay=%s\n  %s" % (prop, a.replay, r))
        return 0 if ok else 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 700.0 if a.tier == "thorough" else 240.0
    ctx = Ctx(module, a.tier, seed, budget)
    ctx.only = a.only
    crashed = None
    try:
        module.run(ctx)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(t.filename.startswith(REPO + "/") for t in tb):
            traceback.print_exc()
            ctx.violations.append(("setup", {"error": traceback.format_exc()}, "setup failed inside the code under test: %r" % e))
        else:
            crashed = traceback.format_exc()
    finally:
        ctx.close()
    cov = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": ctx.nontrivial,
        "rule": module.RULE,
        "samples": ctx.samples[:40] or [{"none": True}],
        "exhaustive": not ctx.caps,
        "caps_hit": ctx.caps,
        "families": {k: {"evaluations": v["evaluations"], "nontrivial": v["nontrivial"],
                         "distinct_outcomes": len(v["outcomes"])} for k, v in ctx.per_family.items()},
    }
    if module.LEVEL == "model_checking":
        cov.update({"states": ctx.states, "transitions": ctx.transitions,
                    "traces_validated_against_impl": ctx.traces})
    cov.update(ctx.extra)
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": module.LEVEL, "coverage": cov,
          "assumptions": list(module.ASSUMPTIONS), "wall_s": round(time.time() - ctx.t0, 3),
          "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    for k in ctx.known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d evaluations, %d distinct non-trivial, states=%d transitions=%d in %.1fs%s" % (
        prop, a.tier, ctx.evaluations, ctx.nontrivial, ctx.states, ctx.transitions, time.time() - ctx.t0,
        " (capped: %s)" % ctx.caps if ctx.caps else ""))
    for fam, v in cov["families"].items():
        print("   %-28s %7d evaluations, %7d nontrivial, %6d outcomes" % (fam, v["evaluations"], v["nontrivial"], v["distinct_outcomes"]))
    if ctx.violations:
        for i, (fam, case, msg) in enumerate(ctx.violations[:ctx.MAXVIOL]):
            path = write_replay(prop, fam, case, msg, i)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s %s: %s" % (fam, json.dumps(shrink(case, 300), default=str)[:400], msg))
        return 1
    if crashed:
        print(crashed)
        print("ERROR: the check itself failed")
        return 2
    return 0
