"""C15: draining a balance moves exactly everything spendable."""
import itertools
import json

from mc import build as B
from mc import ops as O
from mc import world as W
from mc.core import bad, expect, family, raises, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

import tfchain.errors
from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("all multisets of outputs (value around the fee, owner, state) up to a size in every kind of balance, with every combination of recipient notation, lock, data, fee and "
        "unconfirmed or not; pools around multiples of 99 inputs with every split over confirmed and unconfirmed outputs; and drained transactions signed and submitted on a ledger. "
        "Non-trivial always")
ASSUMPTIONS = ["draining a wallet's balance drains its personal outputs, a multi-signature balance is drained by itself (documented in the tests)",
               "outputs that do not exceed the fee may be left behind or the drain refused (CurrencyNegativeValue, InsufficientFunds or ValueError); "
               "with more than 99 outputs full coverage is then only judged for the outputs which exceed the fee by themselves, unless every batch can pay the fee"]

U, OWN, MAX = O.U, O.OWN, O.MAX
H, T = 20, L.T0
STATES = {"c": (True, False), "u": (False, False), "s": (True, True), "v": (False, True), "l": (True, False), "k": (False, False)}
TO = {"addr": ["uh", U[3]], "own": ["uh", U[0]], "none": ["nil"], "ms": ["ms", [U[0], U[2]], 2], "msn": ["ms", [U[0], U[2], U[3]], 2]}


def put(b, outs, rev=0):
    l = list(enumerate(outs))
    for i, (v, w, s) in reversed(l) if rev else l:
        c = OWN[w]
        if s in "lk":
            c = ["lt", H + 1 if i % 2 else T + 1, c]
        elif i % 3 == 2:
            c = ["lt", H if i % 2 else T, c]
        b.output_add(B.cout([v, c], id=L.hid("c15", i)), confirmed=STATES[s][0], spent=STATES[s][1])


def new(kind):
    if kind in OWN:
        b = MultiSigWalletBalance(owners=[B.uh(u) for u in OWN[kind][1]], signature_count=OWN[kind][2])
    else:
        b = WalletBalance() if kind == "w" else WalletsBalance()
    b.chain_height, b.chain_time = H, T
    return b


def check(txns, can, conds, fee, to, lock, data, must):
    """can: {id: value} that may be spent; must: all of it has to be"""
    want_cond = O.lockit(TO[to], lock)
    seen = []
    for t in txns:
        sp = O.spec_of(t)
        same(sp["v"], 1, "version")
        ids = [p for p, _ in sp["cin"]]
        expect(1 <= len(ids) <= MAX, "{} inputs", len(ids))
        for p, f in sp["cin"]:
            expect(p in can, "an output is drained which is not available")
            same(f[0], "ms" if R.unwrap(conds[p])[0] == "ms" else "ss", "kind of fulfillment")
        seen += ids
        same(sp["fees"], [fee], "miner fees")
        same(sp["cout"], [[sum(can[p] for p in ids) - fee, want_cond]], "outputs")
        expect(sp["cout"][0][0] > 0, "an output without value")
        same(sp["data"], (data if isinstance(data, bytes) else (data or "").encode()).hex(), "data")
        same([sp["bin"], sp["bout"]], [[], []], "block stakes")
        for c in t.coin_inputs:
            same(R.uh_text(X.uh_of(str(c.parent_output.condition.unlockhash))), R.uh_text(R.cond_uh(conds[str(c.parentid)])), "parent of an input")
    expect(len(set(seen)) == len(seen), "an output is drained twice")
    if must:
        same(sorted(seen), sorted(can), "drained outputs")
    return len(txns)


REFUSALS = (tfchain.errors.CurrencyNegativeValue, tfchain.errors.InsufficientFunds, ValueError)


def drain(b, kind, outs, fee, unc, to, lock, data, form=0):
    mine = [(i, o) for i, o in enumerate(outs) if (o[1] == kind if kind in OWN else o[1] in "ab")]
    can = {L.hid("c15", i): o[0] for i, o in mine if o[2] == "c" or (unc and o[2] == "u")}
    conds = {L.hid("c15", i): OWN[o[1]] for i, o in mine}
    vals = sorted(can.values())
    n = -(-len(vals) // MAX)
    # the least a batch can hold: any number of batches of up to 99; with one batch it is everything
    sure = (len(vals) <= MAX and sum(vals) > fee) or (len(vals) > MAX and vals[0] > fee)
    kw = {}
    if unc is not None:
        kw["unconfirmed"] = bool(unc)
    if lock is not None:
        kw["lock"] = lock
    if data is not None:
        kw["data"] = data
    try:
        txns = b.drain(O.recipient(TO[to], form), B.cur(fee), **kw)
    except REFUSALS as e:
        expect(vals and not sure and vals[-1] <= fee, "refused: {}", repr(e))
        return -1
    expect(isinstance(txns, list), "no list of transactions but {}", txns)
    if len(vals) <= MAX:
        same(len(txns), 1 if sum(vals) > fee else 0, "number of transactions")
    elif sure:
        expect(n <= len(txns), "too few transactions")
    spent = {str(i.parentid) for t in txns for i in t.coin_inputs}
    for p in can:
        expect(p in spent or can[p] <= fee, "an output of {}, more than the fee of {}, is left behind", can[p], fee)
    return check(txns, can, conds, fee, to, lock, data, sure)


@family
def small(case):
    kind, outs, fee = case
    out = []
    for rev in (0, 1):
        b = new(kind)
        put(b, outs, rev)
        before = (W.outputs(b), W.amounts(b))
        for unc in (None, 0, 1):
            out.append(drain(b, kind, outs, fee, unc, "addr", None, None, rev))
        same((W.outputs(b), W.amounts(b)), before, "the balance after draining")
    return out


@family
def args(case):
    """every combination of recipient, lock and data"""
    kind, outs, fee, to, lock, data, form = case
    b = new(kind)
    put(b, outs)
    d = data
    if isinstance(d, dict):
        d = bytes.fromhex(d["hex"])
    if d is not None and len(d) > 83:
        raises(REFUSALS, drain_raw, b, fee, to, d)
        return "refused"
    return [drain(b, kind, outs, fee, unc, to, lock, d, form) for unc in (0, 1)]


def drain_raw(b, fee, to, data):
    return b.drain(O.recipient(TO[to]), B.cur(fee), data=data)


@family
def pool(case):
    groups, fee, kind = case
    outs = []
    for cnt, v, step, w, s in groups:
        outs += [[v + step * (i % 5), w, s] for i in range(cnt)]
    b = new(kind)
    put(b, outs)
    return [drain(b, kind, outs, fee, unc, "addr", *x) for unc in (0, 1) for x in ((None, None), (L.T0 + 5, "a text"))]


@family
def fees(case):
    """a missing or malformed miner fee is refused"""
    b = new("ws")
    put(b, [[10, "a", "c"]])
    bads = {"zero": B.cur(0), "none": None, "int": 1, "text": "1"}
    raises((TypeError, ValueError), b.drain, O.TEXT["x"], bads[case])
    for unc in (False, True):
        raises((TypeError, ValueError), b.drain, O.TEXT["x"], bads[case], unconfirmed=unc)
    return case


@family
def live(case):
    """drained from a wallet on a ledger, signed and submitted: afterwards nothing spendable is left"""
    s = O.Scene(case)
    bal = s.wallet.balance
    unc = case["unc"]
    which = case["which"]
    b = bal if which == "me" else bal.wallets.get(O.TEXT[which])
    can = {h: s.case["bal"][i] for h, i in s.ids.items() if s.case["bal"][i][1] in ("ab" if which == "me" else which) and s.case["bal"][i][2] in ("cu" if unc else "c")}
    if b is None:
        expect(not can, "no balance for the multi-signature wallet")
        return "none"
    total = sum(o[0] for o in can.values())
    if not total:
        same(list(b.drain(O.TEXT["x"], s.wallet.client.minimum_miner_fee, unconfirmed=unc)), [], "transactions of an empty balance")
        return "empty"
    if len(can) > MAX and min(o[0] for o in can.values()) <= s.fee or total <= s.fee:
        return None
    txns = b.drain(O.TEXT["x"], s.wallet.client.minimum_miner_fee, unconfirmed=unc)
    for t in txns:
        r = s.wallet.transaction_sign(t)
        expect(r.signed, "not signed")
        same(bool(r.submitted), which != "m", "submitted")
    spent = [p for t in s.ex.posted for p, _ in t["cin"]]
    if which == "m":
        same(spent, [], "spent")
        return "co-signer needed"
    same(sorted(spent), sorted(can), "spent outputs")
    same(sum(o[0] for t in s.ex.posted for o in t["cout"]), total - len(txns) * s.fee, "received")
    after = s.wallet.balance
    w = after if which == "me" else after.wallets[O.TEXT[which]]
    same(B.nano(w.available), 0, "available after draining")
    if unc:
        same(B.nano(w.unconfirmed), 0, "unconfirmed after draining")
    return [len(txns), len(spent)]


def run(ctx):
    def cases():
        for kind in ("w", "ws", "m", "n"):
            owners = ["a", "b"] if kind == "w" else ["a", "b", "m"] if kind == "ws" else [kind]
            vals = (1, 2, 3, 4)
            kinds = [[v, w, s] for w in owners for s in "culsvk" for v in vals if s in "cu" or v == 3]
            size = 4 if ctx.thorough or len(owners) == 1 else 3
            for n in range(0, size + 1):
                for o in itertools.combinations_with_replacement(kinds, n):
                    for fee in (1, 3, 5) if n < 4 or ctx.thorough else (5,):
                        yield [kind, list(o), fee]
    ctx.all(small, cases(), parallel=True, chunk=200)
    def argcases():
        for kind in ("w", "ws", "m"):
            w = "m" if kind == "m" else "a"
            bals = [[[5, w, "c"]], [[5, w, "c"], [6, w, "u"], [7, w, "l"]], [[5, w, "c"], [6, w, "c"], [7, w, "u"], [7, w, "s"]], [], [[2, w, "c"]]]
            for outs in bals:
                for to in TO:
                    for lock in (None, 1, 499999999, 500000000, L.T0 + 5):
                        for data in (None, "", "x", "a text \u00e9", {"hex": "00ff"}, {"hex": "ab" * 83}, {"hex": "ab" * 84}):
                            for form in (0, 1):
                                if (outs and outs[0][0] > 2) or not isinstance(data, dict) or len(data["hex"]) < 168:
                                    yield [kind, outs, 2, to, lock, data, form]
    ctx.all(args, argcases(), parallel=True, chunk=100)
    counts = (97, 98, 99, 100, 101, 197, 198, 199, 297, 298) if ctx.thorough else (98, 99, 100, 198, 199)
    def pools():
        for kind in ("ws", "m"):
            w = "a" if kind == "ws" else "m"
            for n in counts:
                for v, st in ((10, 0), (11, 1), (1, 3)):
                    for fee in (1, 2, 9):
                        yield [[[n, v, st, w, "c"]], fee, kind]
                        for k in (1, 2, 98, 99, 100, n - 1):
                            yield [[[n - min(k, n - 1), v, st, w, "c"], [min(k, n - 1), v, st, w, "u"], [3, 50, 1, w, "l"], [2, 50, 1, w, "s"]], fee, kind]
                            if kind == "ws":
                                yield [[[n - min(k, n - 1), v, st, "b", "u"], [min(k, n - 1), v, st, w, "c"], [3, 50, 1, "m", "c"]], fee, kind]
                # outputs which cannot pay the fee, not even a full batch of them, before, after and around others
                for d in (1, 98, 99, 100, 198) if n in (99, 100) or ctx.thorough else (99,):
                    for a, b in (("c", "c"), ("c", "u"), ("u", "c")):
                        big, dust = [n, 1000, 1, w, a], [d, 1, 0, w, b]
                        for g in ([dust, big], [big, dust], [[n, 1000, 1, w, a], dust, [1, 5000, 0, w, a]], [dust, [1, 5000, 0, w, a], dust]):
                            yield [g, 500, kind]
    ctx.all(pool, pools(), parallel=True, chunk=4)
    ctx.all(fees, ["zero", "none", "int", "text"])
    F = O.F
    def lives():
        vs = (F // 2, F + 1, 5 * F)
        kinds = [[v, w, s] for w in "abmnp" for s in "cul" for v in vs] + [[9 * F, w, s] for w in "am" for s in "swv"]
        for n in range(0, 4 if ctx.thorough else 3):
            for o in itertools.combinations_with_replacement(kinds, n):
                for which in ("me", "m", "n", "p"):
                    if n < 3 or which == "me" or any(x[1] == which for x in o):
                        for unc in (False, True):
                            yield {"bal": list(o), "which": which, "unc": unc, "op": "drain", "a": {}}
        for n in (99, 100, 150):
            for w, which in (("a", "me"), ("p", "p")):
                for unc in (False, True):
                    yield {"bal": [[5 * F + i, w, "c" if i % 3 else "u"] for i in range(n)], "which": which, "unc": unc, "op": "drain", "a": {}}
    ctx.all(live, lives(), parallel=True, chunk=20)
