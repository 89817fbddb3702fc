"""C11: every output sits in exactly one bucket of a balance, whatever order it is seen in."""
import itertools

from mc import build as B
from mc import world as W
from mc.core import Succ, bad, expect, family, raises, same
from mc.ref import ledger as L
from mc.ref import types as R

from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance

PROPERTY = "C11"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking: breadth-first exploration to closure of all report sequences on real balance objects, "
             "each state compared with a reference that only knows the set of reports")
RULE = ("histories of reports (output, confirmed?, spent?) and chain positions over outputs that are free, height locked, time locked and multi-signature "
        "owned; merged when all reports seen, the chain position and every public observable agree; plus every ordered history without merging up to a depth, "
        "and every split of the reports over two (and three) balances of every kind. Non-trivial when an output was reported")
ASSUMPTIONS = ["a chain position is known when its time is above 0; with an unknown position nothing counts as locked (documented in the code)",
               "an output keeps its value and condition between reports (an identifier determines them)",
               "balances at contradicting chain positions (higher but earlier) may be refused with ValueError, and are then not judged",
               "plain WalletBalance objects are given personal outputs only"]

LOCK_H, LOCK_T = 10, L.T0 + 1000
U = [W.K(1, 0).uh, W.K(1, 1).uh, W.K(2, 0).uh]
MS = ["ms", [U[0], U[2]], 2]
MS1 = ["ms", [U[1], U[2]], 1]
OUTS = {
    "p": [3, ["uh", U[0]]], "q": [5, ["uh", U[1]]], "h": [7, ["lt", LOCK_H, ["uh", U[0]]]], "t": [11, ["lt", LOCK_T, ["uh", U[1]]]],
    "m": [13, MS], "mh": [17, ["lt", LOCK_H, MS]], "mt": [19, ["lt", LOCK_T, MS1]], "n": [23, MS1],
}
REPORTS = [(c, s) for c in (1, 0) for s in (0, 1)]
CHAIN = [[0, 0], [LOCK_H - 1, LOCK_T - 1], [LOCK_H, LOCK_T - 1], [LOCK_H - 1, LOCK_T], [LOCK_H, LOCK_T], [0, L.T0], [0, LOCK_T]]
FWD = [1, 2, 3, 4]
BUCKETS = ("available", "locked", "unconfirmed", "unconfirmed_locked", "spent", "unconfirmed_spent")


def oid(n):
    return L.hid("c11", n)


def real(n):
    from tfchain.types.IO import CoinOutput
    v, c = OUTS[n]
    return CoinOutput(value=B.cur(v), condition=B.cond(c), id=oid(n))


def addr(n):
    return R.uh_text(R.cond_uh(OUTS[n][1]))


def is_ms(n):
    return R.unwrap(OUTS[n][1])[0] == "ms"


def bucket(facts, cond, chain):
    if not facts:
        return None
    if (1, 1) in facts:
        return "spent"
    if (0, 1) in facts:
        return "unconfirmed_spent"
    l = chain[1] > 0 and L.locked(cond, chain[0], chain[1])
    if (1, 0) in facts:
        return "locked" if l else "available"
    return "unconfirmed_locked" if l else "unconfirmed"


def new(kind):
    if kind == "w":
        return WalletBalance()
    if kind == "ws":
        return WalletsBalance()
    c = MS if kind == "m" else MS1
    return MultiSigWalletBalance(owners=[B.uh(u) for u in c[1]], signature_count=c[2])


def accepts(kind, n):
    if kind == "ws":
        return True
    if kind == "w":
        return not is_ms(n)
    return addr(n) == R.uh_text(R.cond_uh(MS if kind == "m" else MS1))


def put(b, n, rep):
    b.output_add(real(n), confirmed=bool(rep[0]), spent=bool(rep[1]))


def move(b, chain):
    b.chain_height, b.chain_time = chain
    b.chain_blockid = block(chain)


def block(chain):
    return L.hid("c11", *chain)


def part(b, names, facts, chain, what):
    """compares one wallet with the reference for the given outputs"""
    want = {k: {} for k in BUCKETS}
    for n in names:
        k = bucket(facts.get(n, ()), OUTS[n][1], chain)
        if k:
            want[k][oid(n)] = OUTS[n][0]
    o = W.outputs(b)
    same(o["available"], want["available"], what + " available outputs")
    same(o["unconfirmed"], want["unconfirmed"], what + " unconfirmed available outputs")
    same(o["spent"], want["spent"], what + " spent outputs")
    same(o["unconfirmed_spent"], want["unconfirmed_spent"], what + " unconfirmed spent outputs")
    same(o["unconfirmed_all"], dict(want["unconfirmed"], **want["unconfirmed_locked"]), what + " unconfirmed outputs")
    same(W.amounts(b), {k: sum(want[k].values()) for k in BUCKETS[:4]}, what + " amounts")
    if not want["locked"] and not want["unconfirmed_locked"]:
        same(bool(b.active), bool(want["available"] or want["unconfirmed"]), what + " active")
    return want


def judge(b, facts, chain, what="wallet"):
    """the whole balance against the set of reports"""
    names = [n for n in OUTS if facts.get(n)]
    pers = [n for n in names if not is_ms(n)]
    out = []
    if isinstance(b, MultiSigWalletBalance):
        expect(not pers, "a multi-signature balance took over personal outputs")
        out.append(part(b, names, facts, chain, what))
        return out
    ms = sorted({addr(n) for n in names if is_ms(n)})
    out.append(part(b, pers, facts, chain, what))
    same(sorted(map(str, b.addresses)), sorted({addr(n) for n in pers}), what + " addresses")
    if isinstance(b, WalletsBalance):
        same(sorted(map(str, b.addresses_multisig)), ms, what + " multi-signature addresses")
        for a, w in b.wallets.items():
            a = str(a)
            same(str(w.address), a, what + " address of a multi-signature wallet")
            c = R.unwrap(next(OUTS[n][1] for n in names if addr(n) == a))
            same(sorted(map(str, w.owners)), sorted(R.uh_text(u) for u in c[1]), what + " owners")
            same(w.signature_count, c[2], what + " signature count")
            out.append(part(w, [n for n in names if addr(n) == a], facts, chain, what + " multi-signature"))
    else:
        expect(not ms, what + " lost the multi-signature outputs")
    expect(isinstance(repr(b), str) and isinstance(str(b), str), "no text form")
    return out


@family
def history(case):
    """case: [setup, event...]; setup {"kind", "outs", "chain"}, event ["r", name, confirmed, spent] or ["c", chain position]"""
    setup, events = case[0], case[1:]
    b = new(setup["kind"])
    chain = CHAIN[0]
    facts = {}
    for e in events:
        if e[0] == "c":
            chain = CHAIN[e[1]]
            move(b, chain)
        else:
            put(b, e[1], (e[2], e[3]))
            facts.setdefault(e[1], set()).add((e[2], e[3]))
    obs = judge(b, facts, chain)
    enabled = [["r", n, c, s] for n in setup["outs"] for c, s in REPORTS] + [["c", i] for i in setup["chain"] if CHAIN[i] != chain]
    return Succ([setup["kind"], sorted((k, sorted(v)) for k, v in facts.items()), chain, obs], enabled, obs)


@family
def ordered(case):
    """every order, nothing merged: [kind, outs, reports...]"""
    kind, reps = case[0], case[1]
    b = new(kind)
    move(b, CHAIN[1])
    facts = {}
    for n, c, s in reps:
        put(b, n, (c, s))
        facts.setdefault(n, set()).add((c, s))
    return judge(b, facts, CHAIN[1])


def fill(kind, facts, chain):
    b = new(kind)
    for n, reps in facts.items():
        for r in reps:
            put(b, n, r)
    move(b, chain)
    return b


def fset(mask):
    return [REPORTS[i] for i in range(4) if mask >> i & 1]


@family
def merge(case):
    """case: {"kinds": [..], "facts": [{name: mask}..], "chain": [i..], "assoc": how, "later": bool}: merging gives what one balance would have seen"""
    kinds = case["kinds"]
    facts = [{n: fset(m) for n, m in f.items() if m} for f in case["facts"]]
    chains = [CHAIN[i] for i in case["chain"]]
    bs = [fill(k, f, c) for k, f, c in zip(kinds, facts, chains)]
    known = [c for c in chains if c[1] > 0]
    if case.get("assoc") == "right":
        r = bs[0].balance_add(bs[1].balance_add(bs[2]))
    else:
        r = bs[0]
        for x in bs[1:]:
            r = r.balance_add(x)
    total = {}
    for f in facts:
        for n, reps in f.items():
            total.setdefault(n, set()).update(reps)
    chain = max(known) if known else CHAIN[0]
    same([r.chain_height, r.chain_time], chain, "chain position after merging")
    if known:
        same(str(r.chain_blockid), block(chain), "block after merging")
        for w in (r.wallets.values() if isinstance(r, WalletsBalance) else ()):
            same([w.chain_height, w.chain_time, str(w.chain_blockid)], [*chain, block(chain)], "chain position and block of a multi-signature wallet after merging")
    obs = judge(r, total, chain, "merged")
    # the merged balance goes on like one that has seen everything, and its parts stay as they are
    nxt = CHAIN[4]
    move(r, nxt)
    judge(r, total, nxt, "merged and moved on")
    for n in OUTS:
        if accepts("ws", n) and isinstance(r, WalletsBalance) or n in total and not is_ms(n) and not isinstance(r, MultiSigWalletBalance):
            put(r, n, (1, 1))
            total.setdefault(n, set()).add((1, 1))
    judge(r, total, nxt, "merged and spent")
    if len(bs) == 2 and r is not bs[1]:
        judge(bs[1], {n: set(v) for n, v in facts[1].items()}, chains[1], "other operand")
    return obs if any(facts) else None


@family
def foreign(case):
    """multi-signature balances of different wallets cannot become one"""
    a, b = fill("m", {"m": [(1, 0)]}, CHAIN[1]), fill("m1", {"n": [(1, 0)]}, CHAIN[1])
    raises(ValueError, a.balance_add, b)
    judge(a, {"m": {(1, 0)}}, CHAIN[1])
    judge(b, {"n": {(1, 0)}}, CHAIN[1])
    w = new("ws")
    w = w.balance_add(a).balance_add(b).balance_add(None)
    judge(w, {"m": {(1, 0)}, "n": {(1, 0)}}, CHAIN[1])
    same(a.balance_add(None) is a, True, "merging nothing")
    # owners or their number in common is not enough, and the order of owners means nothing
    sets = [(us, n) for k in (1, 2, 3) for us in itertools.combinations(U[:3], k) for n in range(1, k + 1)]
    for (us, n), (vs, m) in itertools.product(sets, repeat=2):
        x = MultiSigWalletBalance(owners=[B.uh(u) for u in us], signature_count=n)
        y = MultiSigWalletBalance(owners=[B.uh(u) for u in reversed(vs)], signature_count=m)
        y.output_add(B.cout([5, ["ms", list(vs), m]], id=oid("m")))
        if (us, n) == (vs, m):
            same(W.amounts(x.balance_add(y))["available"], 5, "amount after merging the balances of one wallet")
        else:
            raises(ValueError, x.balance_add, y)
            same(W.amounts(x)["available"], 0, "amount after a refused merge")
    return "refused"


def merges(deep):
    # every pair of report sets for one output, in every combination of balance kinds that can hold it
    combos = [("w", "w"), ("w", "ws"), ("ws", "w"), ("ws", "ws")]
    for n in ("p", "h"):
        for k in combos:
            for a, b in itertools.product(range(16), range(16)):
                yield {"kinds": list(k), "facts": [{n: a}, {n: b}], "chain": [1, 1]}
    for n in ("m", "mh"):
        for k in [("ws", "ws"), ("ws", "m"), ("m", "ws"), ("m", "m")]:
            for a, b in itertools.product(range(16), range(16)):
                if (a or k[0] != "m") and (b or k[1] != "m"):
                    yield {"kinds": list(k), "facts": [{n: a}, {n: b}], "chain": [1, 1]}
    # personal and multi-signature mixed
    ms = [1, 2, 4, 8, 5, 15] if deep else [1, 4, 8]
    for k, A, Bn in [(("w", "m"), "pt", "mh"), (("m", "w"), "mh", "pt"), (("m", "m1"), None, None), (("ws", "m1"), "pm", "nt"), (("ws", "ws"), "pm", "pm"),
                     (("ws", "ws"), "pn", "qm")]:
        if A is None:
            continue
        an = ["m", "mh"] if A == "mh" else list(A)
        bn = ["m", "mh"] if Bn == "mh" else (["n", "mt"] if Bn == "nt" else list(Bn))
        for x in itertools.product([0] + ms, repeat=2):
            for y in itertools.product([0] + ms, repeat=2):
                if (k[0] == "m" and not any(x)) or (k[1] in ("m", "m1") and not any(y)):
                    continue
                yield {"kinds": list(k), "facts": [dict(zip(an, x)), dict(zip(bn, y))], "chain": [1, 1]}
    # chain positions
    ok = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 4), (4, 1), (0, 5), (5, 0), (5, 5), (0, 6), (5, 1), (1, 5), (6, 4), (4, 6)]
    for i, j in ok:
        for k, f in [(("w", "w"), [{"h": 1, "t": 4}, {"p": 1}]), (("ws", "ws"), [{"h": 1, "mh": 1, "mt": 4}, {"t": 1, "m": 1, "n": 4}]), (("ws", "m"), [{"h": 1, "t": 4}, {"mh": 1, "m": 4}]),
                     (("m", "ws"), [{"mh": 1, "m": 4}, {"h": 1, "t": 4, "mt": 1}]), (("m", "m"), [{"mh": 1}, {"m": 4}]), (("ws", "ws"), [{"mh": 1}, {"mh": 4}]),
                     (("m", "w"), [{"mh": 1}, {"h": 4, "t": 1}]), (("w", "m"), [{"h": 1}, {"mh": 4}]), (("ws", "w"), [{"mh": 1, "mt": 1}, {"h": 4, "t": 1}]), (("w", "ws"), [{"t": 1}, {"mh": 4, "mt": 1}])]:
            yield {"kinds": list(k), "facts": f, "chain": [i, j]}
    # three ways
    for k in [("w", "w", "w"), ("ws", "w", "ws"), ("w", "ws", "w"), ("ws", "ws", "ws")]:
        for n in ("p", "t"):
            for x in itertools.product(range(16) if deep else (0, 1, 2, 4, 8, 6), repeat=3):
                for assoc in ("left", "right"):
                    yield {"kinds": list(k), "facts": [{n: a} for a in x], "chain": [1, 1, 1], "assoc": assoc}
    for k in [("m", "m", "m"), ("ws", "m", "m"), ("m", "ws", "m")]:
        for x in itertools.product((1, 2, 4, 8, 6), repeat=3):
            for assoc in ("left", "right"):
                yield {"kinds": list(k), "facts": [{"mh": a} for a in x], "chain": [1, 1, 1], "assoc": assoc}


def orders(deep):
    for kind, outs in (("w", "ph"), ("ws", ["p", "mh"])) + ((("m", ["m", "mh"]),) if deep else ()):
        ev = [[n, c, s] for n in outs for c, s in REPORTS]
        for d in range(1, 6 if deep else 5):
            for reps in itertools.product(ev, repeat=d):
                yield [kind, list(reps)]


def run(ctx):
    t = ctx.thorough
    roots = [[{"kind": "w", "outs": ["p", "h"], "chain": FWD}], [{"kind": "ws", "outs": ["p", "mh"], "chain": FWD}], [{"kind": "m", "outs": ["m", "mh"], "chain": FWD}]]
    if t:
        roots += [[{"kind": "ws", "outs": ["t", "m", "mt"], "chain": FWD}], [{"kind": "w", "outs": ["p", "h", "t"], "chain": FWD}]]
    for r in roots:
        ctx.bfs(history, [r], 20, parallel=True, chunk=64)
    ctx.all(foreign, [[]])
    ctx.all(merge, merges(t), parallel=True)
    ctx.all(ordered, orders(t), parallel=True, chunk=128)
