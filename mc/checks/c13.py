"""C13: funding picks distinct spendable outputs that cover the amount, or fails cleanly."""
import itertools

from mc import build as B
from mc import ops as O
from mc import world as W
from mc.core import bad, expect, family, raises, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

import tfchain.errors
from tfchain.TFChainWallet import WalletsBalance
from tfchain.types.ConditionTypes import UnlockHash

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("all multisets of outputs (value, owner: two personal addresses and two multi-signatures, state: confirmed / unconfirmed / locked / unconfirmed locked / spent) up to a size, "
        "every amount from the smallest unit to the total plus one, every source (none, single, several, unknown), outputs reported in both orders; "
        "pools around the limit of 99 inputs with every split over wallets and states; and every wallet operation with every source and refund choice on a ledger. "
        "Non-trivial always")
ASSUMPTIONS = ["unconfirmed outputs may be used when, and only when, the confirmed outputs of the same wallet do not suffice by themselves (documented in the code)",
               "without a source only the personal addresses are used (documented)", "sources of one address notation each; the same address given twice is not judged"]

U = [W.K(1, 0).uh, W.K(1, 1).uh, W.K(2, 0).uh, W.K(2, 1).uh]
MS = ["ms", [U[0], U[2]], 2]
MS1 = ["ms", [U[1], U[2]], 1]
OWN = {"a": ["uh", U[0]], "b": ["uh", U[1]], "m": MS, "n": MS1}
TEXT = {k: R.uh_text(R.cond_uh(c)) for k, c in OWN.items()}
TEXT["x"] = R.uh_text(U[3])                                       # known to nobody
TEXT["y"] = R.uh_text(R.cond_uh(["ms", [U[2], U[3]], 1]))
H, T = 20, L.T0
STATES = {"c": (True, False), "u": (False, False), "s": (True, True), "v": (False, True), "l": (True, False), "k": (False, False)}
SOURCES = [None, "a", "b", "m", "n", "ab", "am", "mn", "abmn", "x", "ax", "y", "my"]
MAX = 99


def output(i, o):
    v, w, s = o
    c = OWN[w]
    if s in "lk":
        c = ["lt", H + 1 if i % 2 else T + 1, c]
    elif i % 3 == 2:
        c = ["lt", H if i % 2 else T, c]      # a lock that has been reached
    return B.cout([v, c], id=L.hid("c13", i))


def source(src, form):
    if src is None:
        return None
    s = [TEXT[k] for k in src]
    if form % 2:
        s = [UnlockHash.from_json(x) for x in s]
    return s[0] if len(s) == 1 and form < 2 else s


def fund(case, outs, src, amount, form, b):
    """one call judged; returns the number of inputs, or 0 when the funds do not suffice"""
    srcs = "ab" if src is None else src
    ok = {L.hid("c13", i): o for i, o in enumerate(outs) if o[1] in srcs and o[2] in "cu"}
    best = sum(sorted((o[0] for o in ok.values()), reverse=True)[:MAX])
    try:
        inputs, rest, refund = b.fund(B.cur(amount), source=source(src, form))
    except tfchain.errors.InsufficientFunds:
        expect(best < amount, "insufficient funds although {} of {} can be collected", best, amount)
        return 0
    expect(best >= amount, "funded {} although at most {} can be collected", amount, best)
    ids = [str(i.parentid) for i in inputs]
    expect(len(set(ids)) == len(ids), "an output is used twice")
    expect(1 <= len(ids) <= MAX, "{} inputs", len(ids))
    for i, c in zip(ids, inputs):
        expect(i in ok, "an output is used which is not available or not of the source")
        same(str(c.parent_output.id), i, "parent of an input")
        same(int(c.parent_output.value.json()), ok[i][0], "value of an input")
    got = sum(ok[i][0] for i in ids)
    same(got - int(rest.json()), amount, "inputs minus the returned remainder")
    for w in ("ab", "m", "n"):
        unc = [i for i in ids if ok[i][2] == "u" and ok[i][1] in w]
        conf = sum(sorted((o[0] for o in ok.values() if o[2] == "c" and o[1] in w), reverse=True)[:MAX])
        expect(not unc or conf < amount, "an unconfirmed output is used although confirmed ones of that wallet suffice")
    if src is not None and len(src) == 1 and src in OWN:
        same(R.uh_text(X.uh_of(str(refund.unlockhash))), TEXT[src], "suggested refund")
        if src in "mn":
            same(refund.json(), R.cond_js(OWN[src]), "suggested refund condition")
    else:
        expect(refund is None, "a refund address was suggested for {}", src)
    return len(ids)


def balance(outs, rev):
    b = WalletsBalance()
    b.chain_height, b.chain_time = H, T
    l = [(i, o) for i, o in enumerate(outs)]
    for i, o in reversed(l) if rev else l:
        c, s = STATES[o[2]]
        b.output_add(output(i, o), confirmed=c, spent=s)
    return b


@family
def small(case):
    """all amounts and sources on one multiset of outputs"""
    outs, srcs = case
    n = []
    for rev in (0, 1):
        b = balance(outs, rev)
        before = (W.outputs(b), W.amounts(b))
        tot = sum(o[0] for o in outs)
        for k, src in enumerate(srcs):
            for a in range(1, tot + 2):
                n.append(fund(case, outs, src, a, (k + a + rev) % 4, b))
        same((W.outputs(b), W.amounts(b)), before, "the balance after funding")
    return [sum(1 for x in n if x), max(n or [0])]


@family
def pool(case):
    """pools around the input limit: groups of [count, value, step, owner, state]"""
    groups, srcs, rev = case
    outs = []
    for cnt, v, step, w, s in groups:
        outs += [[v + step * (i % 7), w, s] for i in range(cnt)]
    b = balance(outs, rev)
    n = []
    for src in srcs:
        own = "ab" if src is None else src
        vals = sorted((o[0] for o in outs if o[1] in own and o[2] in "cu"), reverse=True)
        top = sum(vals[:MAX])
        conf = sorted((o[0] for o in outs if o[1] in own and o[2] == "c"), reverse=True)
        marks = {top, sum(conf[:MAX]), sum(vals[-MAX:]), sum(vals), max(vals or [1]), top // 2}
        for k in (MAX - 1, MAX + 1, 1, 50):
            marks |= {sum(vals[:k]), sum(vals[-k:]), sum(conf[:k]), sum(conf[-k:])}
        for a in sorted({m + d for m in marks for d in (-1, 0, 1) if m + d > 0}):
            n.append(fund(case, outs, src, a, 0, b))
    return [sum(1 for x in n if x), max(n or [0])]


@family
def choice(case):
    """an operation with a source and a refund choice on a ledger"""
    return O.run(case, judge="funding")


def run(ctx):
    vals = (1, 2, 4)
    kinds = [[v, w, s] for w in "abmn" for s in "cul" for v in vals] + [[v, w, s] for w in "am" for s in "svk" for v in (1, 4)]
    few = [[v, w, s] for w in "abm" for s in "cu" for v in (1, 2, 3)] + [[4, "a", "l"], [4, "m", "s"]]
    def cases():
        for n in range(0, 3):
            for o in itertools.combinations_with_replacement(kinds, n):
                yield [list(o), SOURCES]
        for o in itertools.combinations_with_replacement(kinds if ctx.thorough else few, 3):
            yield [list(o), SOURCES]
        for o in itertools.combinations_with_replacement(few, 4):
            if ctx.thorough or sum(1 for x in o if x[0] == 3) == 0:
                yield [list(o), [None, "m", "ab", "abm"]]
    ctx.all(small, cases(), parallel=True, chunk=50)
    counts = (1, 50, 98, 99, 100, 150) if ctx.thorough else (1, 60, 99, 100)
    def pools():
        gs = [[c, v, st, w, s] for c in counts for v, st in ((1, 0), (5, 1)) for w, s in (("a", "c"), ("b", "u"), ("m", "c"), ("m", "u"), ("n", "c"))]
        for g in gs:
            for rev in (0, 1):
                yield [[g], [None, "ab", "m", "abm", "abmn"], rev]
        for g in itertools.combinations(gs, 2):
            if g[0][3:] != g[1][3:]:
                for rev in (0, 1) if ctx.thorough else (0,):
                    yield [list(g), [None, "ab", "abm", "abmn"], rev]
        if ctx.thorough:
            for g in itertools.combinations([x for x in gs if x[0] in (1, 50, 99)], 3):
                if len({tuple(x[3:]) for x in g}) == 3:
                    yield [list(g), ["ab", "abm", "abmn"], 0]
    ctx.all(pool, pools(), parallel=True, chunk=4)


    def choices():
        refs = [None, ["uh", U[1]], ["uh", U[3]], ["ms", [U[0], U[2]], 2], ["ms", [U[0], U[1], U[2]], 1]]
        srcs = [None, "a", "b", "m", "n", "p", "ab", "am", "mn", "bmp", "x", "y"]
        big = 3 * O.F
        for op, a in O.base_ops(big):
            need = O.cost(op, a) + O.F
            # every source holds a bit more, the exact sum, or a bit less, in one or two outputs
            for d in (-1, 0, 1) if not ctx.thorough else (-1, 0, 1, O.F):
                for split in (0, 1, 2):
                    bal = []
                    for w in "abmnp":
                        if split == 0:
                            bal.append([need + d, w, "c"])
                        elif split == 1:
                            bal += [[need // 2, w, "c"], [need - need // 2 + d, w, "u"], [need * 2, w, "l"], [need * 3, w, "s"]]
                        else:
                            bal += [[need // 3, w, "u"], [need - need // 3 + d, w, "c"], [need * 2, w, "v"], [need * 3, w, "w"], [need * 5, w, "k"]]
                    for src in srcs:
                        for ref in refs:
                            yield {"bal": bal, "op": op, "a": a, "src": src, "ref": ref, "bots": O.BOTS}
    ctx.all(choice, choices(), parallel=True, chunk=20)
