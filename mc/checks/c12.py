"""C12: the balance of a wallet is the ledger's view of its addresses."""
import copy
import re
from collections import Counter
from decimal import Decimal

from mc import world as W
from mc.core import Succ, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state breadth-first search over ledger histories; at every state the real wallet and client answer from the "
             "ledger's explorer documents and are compared with the ledger itself")
RULE = ("all event sequences up to the depth over receive / time locked / height locked / multi-signature / self transfer / spend (of confirmed and unconfirmed outputs) / mint / "
        "mint condition / ERC20 / 3Bot refund / legacy / block stake events and confirmations of all or the first pending transaction, reorganisations (the last block gives way to an empty one) and transactions leaving the pool, merged when the ledgers agree up to renaming. "
        "In every state: the balance, its multi-signature wallets, the list of transactions, the balance of every single address, each asked twice and after an earlier query. "
        "Non-trivial when an address of the wallet was touched")
ASSUMPTIONS = ["the wallet has two addresses and no key scan (scanning is C10)", "the explorer's answers are those of a correct explorer (faults are C20), its transaction lists in two orders",
               "miner payouts are not transactions and are not counted by the client (noted in DESIGN.md); blocks with payouts are present in the answers"]

A0, A1, O0, O1 = W.K(1, 0), W.K(1, 1), W.K(2, 0), W.K(2, 1)
SIG = "ab" * 64
MS = ["ms", [A0.uh, O0.uh], 2]
MS1 = ["ms", [O1.uh, A1.uh, A0.uh], 1]
MSX = ["ms", [O0.uh, O1.uh], 1]
LOCK_T = L.T0 + 100000
LOCK_H = 40
TO = {
    "recv0": [[101, ["uh", A0.uh]]],
    "recv1x": [[203, ["uh", A1.uh]], [7, ["uh", O0.uh]], [5, ["nil"]]],
    "both": [[11, ["uh", A1.uh]], [13, ["uh", A0.uh]], [11, ["uh", A1.uh]]],
    "lockh": [[307, ["lt", LOCK_H, ["uh", A0.uh]]]],
    "lockt": [[409, ["lt", LOCK_T, ["uh", A1.uh]]], [1, ["lt", LOCK_H + 10, ["uh", A1.uh]]]],
    "ms": [[503, MS]],
    "msmix": [[601, ["lt", LOCK_H, MS]], [603, MS1], [17, ["uh", A0.uh]]],
    "msother": [[19, MSX], [23, ["as", A0.uh, O0.uh, "11" * 32, LOCK_T]], [29, ["nil"]]],
}


START = L.Ledger("testnet", time=L.T0)
START.give([[10 ** 12, ["uh", O0.uh]]] * 12)
STAKE = L.hid("stake")


class Sim:
    """events on a ledger; the wallet's addresses are A0 and A1"""
    def __init__(self):
        self.l = copy.deepcopy(START)
        self.l.stakes[STAKE] = {"value": 3000, "cond": ["uh", A0.uh], "by": list(self.l.txs)[0], "i": 0, "spent": None}

    def mine_of(self):
        return {R.uh_text(k.uh) for k in (A0, A1)}

    def unspent(self, cond):
        return [i for i, o in self.l.outs.items() if o["spent"] is None and cond(o["cond"])]

    def tag(self):
        return "%04x" % len(self.l.txs)

    def tx1(self, ins, outs, data=None):
        return {"v": 1, "cin": ins, "cout": outs, "bin": [], "bout": [], "fees": [1], "data": data or self.tag()}

    def faucet(self):
        i = self.unspent(lambda c: c == ["uh", O0.uh])[0]
        return [i, ["ss", O0.pk, SIG]], self.l.outs[i]["value"]

    def do(self, e):
        """performs the event; False when it is not possible here"""
        l = self.l
        n = e[0]
        if n in TO:
            i, v = self.faucet()
            l.submit(self.tx1([i], TO[n] + [[v - sum(o[0] for o in TO[n]) - 1, ["uh", O0.uh]]]))
        elif n == "spend":      # the oldest or newest free personal output, with change
            own = self.unspent(lambda c: c in (["uh", A0.uh], ["uh", A1.uh]))
            if not own:
                return False
            p = own[0] if e[1] == "first" else own[-1]
            v = l.outs[p]["value"]
            if v < 4:
                return False
            k = A0 if l.outs[p]["cond"][1] == A0.uh else A1
            l.submit(self.tx1([[p, ["ss", k.pk, SIG]]], [[1, ["uh", O0.uh]], [v - 2, ["uh", A1.uh]]]))
        elif n == "spendall":   # everything personal, also unconfirmed and locked ones
            own = self.unspent(lambda c: R.cond_uh(c) in (A0.uh, A1.uh))
            if not own:
                return False
            l.submit(self.tx1([[p, ["ss", A0.pk, SIG]] for p in own], [[sum(l.outs[p]["value"] for p in own) - 1, ["uh", O0.uh]]]))
        elif n == "spendms":
            own = self.unspent(lambda c: R.cond_uh(c) == R.cond_uh(MS))
            if not own:
                return False
            p = own[0]
            if l.outs[p]["value"] < 60:
                return False
            l.submit(self.tx1([[p, ["ms", [[A0.pk, SIG], [O0.pk, SIG]]]]], [[51, ["uh", A0.uh]], [l.outs[p]["value"] - 52, MS]]))
        elif n == "spendmix":   # inputs of several owners in one transaction: the first and the last output of each
            want = {"ms": (MS, MS1), "all": (["uh", A0.uh], MS, ["uh", A1.uh], MS1, ["uh", O0.uh])}[e[1]]
            own = []
            for c in want:
                o = self.unspent(lambda x: R.cond_uh(x) == R.cond_uh(c))
                own += [p for p in o[:1] + o[1:][-1:] if self.l.outs[p]["value"] < 10 ** 9]
            if len(own) < 2 or len({repr(self.l.outs[p]["cond"]) for p in own}) < 2:
                return False
            ff = lambda p: ["ms", [[A0.pk, SIG], [O0.pk, SIG]]] if R.unwrap(l.outs[p]["cond"])[0] == "ms" else ["ss", A0.pk, SIG]
            tot = sum(l.outs[p]["value"] for p in own)
            if tot < 7:
                return False
            l.submit(self.tx1([[p, ff(p)] for p in own], [[2, MS1], [3, ["uh", A1.uh]], [tot - 6, ["uh", O1.uh]]]))
        elif n == "mine":
            if not l.pool():
                return False
            l.mine(l.pool()[:1] if e[1] == "one" else None, payouts=[[1000, A0.uh], [1, O0.uh]])
        elif n == "forward":
            if l.height > LOCK_H or l.time > LOCK_T:
                return False
            l.mine([], dh=max(1, LOCK_H - l.height), dt=(LOCK_T - l.time) if e[1] == "both" else 60)
        elif n == "undo":       # a reorganisation: the last block gives way to an empty one with another identifier
            if l.height < 2:
                return False
            l.undo(dt=61)
        elif n == "drop":       # a transaction leaves the pool unconfirmed
            if not l.pool():
                return False
            l.drop(l.pool()[0 if e[1] == "first" else -1])
        elif n == "mint":
            l.submit({"v": 129, "nonce": "00000000" + self.tag() * 2, "mf": ["ss", O0.pk, SIG], "cout": [[701, ["uh", A0.uh]], [703, MS]], "fees": [1], "data": ""})
        elif n == "mintcond":
            c = {"ms": MS1, "mslocked": ["lt", LOCK_H, MS1], "own": ["uh", A1.uh], "other": ["uh", O0.uh], "locked": ["lt", LOCK_T, ["uh", A0.uh]]}[e[1]]
            l.submit({"v": 128, "nonce": "00000000" + self.tag() * 2, "mf": ["ss", O0.pk, SIG], "mc": c, "fees": [1], "data": ""})
        elif n == "refund":     # transactions of other versions with a refund to the wallet
            i, v = self.faucet()
            t = {"cin": [i], "fee": 1, "refund": [v - 5, ["uh", A0.uh]]}
            t.update({144: {"addrs": [["h", "example.org"]], "names": [], "months": 1, "pk": O0.pk, "sig": SIG},
                      145: {"id": 1, "aadd": [], "arem": [], "nadd": ["foobar"], "nrem": [], "months": 0, "sig": SIG},
                      146: {"sid": 1, "ssig": SIG, "rid": 2, "rsig": SIG, "names": ["foobar"]},
                      208: {"addr": "ab" * 20, "value": 4}, 210: {"pk": A1.pk, "sig": SIG, "regfee": L.REG_FEE}}[e[1]], v=e[1])
            if e[1] == 208:
                t["refund"] = [v - 5, MS]
            if e[1] == 210:
                t["refund"][0] -= L.REG_FEE
            l.submit(t)
        elif n == "bridge":
            l.submit({"v": 209, "uh": A1.uh, "value": 801, "fee": 1, "blockid": L.hid("b"), "txid": L.hid(self.tag())})
        elif n == "legacy":
            i, v = self.faucet()
            l.submit({"v": 0, "cin": [i], "cout": [[v - 1, ["uh", A0.uh]]], "bin": [], "bout": [], "fees": [1], "data": self.tag()})
        elif n == "stake":
            if l.stakes[STAKE]["spent"]:
                return False
            i, v = self.faucet()
            t = self.tx1([i], [[v - 1, ["uh", A1.uh]]])
            t.update(bin=[[STAKE, ["ss", A0.pk, SIG]]], bout=[[1000, ["uh", A1.uh]], [2000, MS]])
            l.submit(t)
        else:
            raise AssertionError(e)
        return True

    def can(self, e):
        return copy.deepcopy(self).do(e) if e[0] in ("spend", "spendall", "spendms", "spendmix", "mine", "forward", "stake", "undo", "drop") else True

    def canon(self):
        l = self.l
        outs = sorted(repr([o["value"], o["cond"], l.confirmed(o["by"]), None if o["spent"] is None else l.confirmed(o["spent"])]) for o in l.outs.values())
        txs = [[r["t"]["v"], r["height"] is None, repr(X.couts(r["t"]))] for r in l.txs.values()]
        return [outs, sorted(map(repr, txs)), l.height >= LOCK_H, l.time >= LOCK_T, len(l.pool())]


EVENTS = [["recv0"], ["recv1x"], ["both"], ["lockh"], ["lockt"], ["ms"], ["msmix"], ["msother"], ["spend", "first"], ["spend", "last"], ["spendall"], ["spendms"], ["spendmix", "ms"], ["spendmix", "all"],
          ["mine", "all"], ["mine", "one"], ["undo"], ["drop", "first"], ["drop", "last"], ["forward", "height"], ["forward", "both"], ["mint"], ["mintcond", "ms"], ["mintcond", "mslocked"], ["mintcond", "own"],
          ["mintcond", "locked"], ["bridge"], ["legacy"], ["stake"], ["refund", 144], ["refund", 145], ["refund", 146], ["refund", 208], ["refund", 210]]
GROW = [e for e in EVENTS if e[0] not in ("undo", "drop")]     # events that take nothing back


def merged(views):
    out = {}
    for v in views:
        for k, d in v.items():
            out.setdefault(k, {}).update(d)
    return out


def check_part(b, v, what):
    o = W.outputs(b)
    for k in ("available", "unconfirmed", "spent", "unconfirmed_spent"):
        same(o[k], v[k], "%s: %s outputs" % (what, k))
    same(o["unconfirmed_all"], dict(v["unconfirmed"], **v["unconfirmed_locked"]), what + ": all unconfirmed outputs")
    same(W.amounts(b), {k: sum(v[k].values()) for k in ("available", "locked", "unconfirmed", "unconfirmed_locked")}, what + ": amounts")
    return W.amounts(b)


def check_balance(b, l, keys, what):
    out = [check_part(b, merged(l.view(k.uh) for k in keys), what)]
    same([b.chain_height, b.chain_time, str(b.chain_blockid)], [l.height, l.time, l.tip()["id"]], what + ": chain position")
    owned = {R.uh_text(R.cond_uh(c)): c for c in _ms_conditions(l) if any(k.uh in c[1] for k in keys)}
    seen = {R.uh_text(R.cond_uh(o["cond"])) for o in l.outs.values()} & set(owned)
    got = {str(a): w for a, w in b.wallets.items()} if hasattr(b, "wallets") else {}
    expect(set(got) <= set(owned), "{}: multi-signature wallets that are not co-owned: {}", what, set(got) - set(owned))
    expect(seen <= set(got), "{}: multi-signature wallets missing: {}", what, seen - set(got))
    for a, w in sorted(got.items()):
        out.append(check_part(w, l.view(X.uh_of(a)), what + " multi-signature"))
        same(str(w.address), a, what + ": address")
        same(sorted(map(str, w.owners)), sorted(R.uh_text(u) for u in owned[a][1]), what + ": owners")
        same(w.signature_count, owned[a][2], what + ": signatures needed")
    # the text form tells the same amounts, the personal ones first
    text = repr(b)
    nums = [int(Decimal(x) * L.UNIT) for x in re.findall(r"([0-9][0-9.]*) TFT", text)]
    same(nums[:2], [out[0]["available"], out[0]["locked"]], what + ": available and locked amounts in the text form")
    told = Counter(nums)
    want = Counter(x for d in out for x in d.values() if x)
    expect(not want - told, "{}: amounts missing in the text form: {}", what, sorted((want - told).elements()))
    for a, w in got.items():
        expect(a in text or not any(W.amounts(w).values()), "{}: multi-signature address missing in the text form", what)
    return out


def _ms_conditions(l):
    for r in l.txs.values():
        t = r["t"]
        for c in [o[1] for o in X.couts(t)] + [o[1] for o in t.get("bout", [])] + ([t["mc"]] if t["v"] == 128 else []):
            c = R.unwrap(c)
            if c[0] == "ms":
                yield c


def check_transactions(w, l, keys):
    txs = w.transactions
    ids = [t.id for t in txs]
    want = {i for k in keys for i in l.touching(k.uh)}
    same(sorted(ids), sorted(want), "transactions of the wallet")
    hs = [(10 ** 9 if l.txs[i]["height"] is None else l.txs[i]["height"]) for i in ids]
    same(hs, sorted(hs, reverse=True), "heights of the listed transactions")
    for t in txs:
        r = l.txs[t.id]
        same(t.unconfirmed, r["height"] is None, "unconfirmed state of a transaction")
        if r["height"] is not None:
            same(t.height, r["height"], "height of a transaction")
    return len(ids)


def check_single(client, l, uh, cond, target, what):
    """the balance of one address as the client reports it"""
    from tfchain import errors
    try:
        r = client.unlockhash_get(target)
    except errors.ExplorerNoContent:
        expect(not l.touching(uh) and not l.multisigs(uh), "{}: not found", what)
        return None
    same(sorted(str(a) for a in r.multisig_addresses), sorted(l.multisigs(uh)), what + ": co-owned addresses")
    same(sorted(t.id for t in r.transactions), sorted(l.touching(uh)), what + ": transactions")
    out = []
    for _ in (0, 1):
        b = r.balance()
        out.append(check_part(b, l.view(uh), what))
        same([b.chain_height, b.chain_time], [l.height, l.time], what + ": chain position")
    same(out[0], out[1], what + " asked twice")
    return out[0]


@family
def history(case):
    """case: [setup, event...]"""
    setup, events = case[0], case[1:]
    s = Sim()
    order = {"fwd": None, "rev": lambda x: list(reversed(x))}[setup["order"]]
    p = W.Party(s.l, 1, keys=2, order=order)
    keys = [A0, A1]
    for i, e in enumerate(events):
        if i == len(events) - 1:
            check_balance(p.wallet.balance, s.l, keys, "before the last event")
        if not s.do(e):
            raise AssertionError("event not enabled")
    one = check_balance(p.wallet.balance, s.l, keys, "wallet")
    two = check_balance(p.wallet.balance, s.l, keys, "wallet asked again")
    same(two, one, "balance asked twice")
    n = check_transactions(p.wallet, s.l, keys)
    singles = [check_single(p.client, s.l, A0.uh, None, A0.text, "first address"), check_single(p.client, s.l, A1.uh, None, A1.text, "second address"),
               check_single(p.client, s.l, R.NILUH, None, None, "free-for-all"),
               check_single(p.client, s.l, R.cond_uh(MS), MS, [A0.text, O0.text], "multi-signature"),
               check_single(p.client, s.l, R.cond_uh(MS1), MS1, ([A0.text, A1.text, O1.text], 1), "1-of-3")]
    expect(not p.ex.posted, "asking for a balance submitted something")
    enabled = [e for e in setup.get("events", EVENTS) if s.can(e)]
    return Succ(s.canon(), enabled, [one, n, singles])


UNSPENT = ("available", "locked", "unconfirmed", "unconfirmed_locked")


def during(b0, b1):
    """the buckets an output may be found in when the ledger moves from one to the other while it is asked"""
    ok = {b0, b1}
    if b0 in UNSPENT and b1 in UNSPENT:
        for u in (b0.startswith("unc"), b1.startswith("unc")):
            for k in (b0.endswith("locked"), b1.endswith("locked")):
                ok.add(("unconfirmed_locked" if k else "unconfirmed") if u else ("locked" if k else "available"))
    return ok


def buckets(v):
    return {i: k for k, d in v.items() for i in d}


@family
def moving(case):
    """[events before, event, request]: the ledger moves on just before the given request of one balance (or list) retrieval"""
    before, event, k, ask = case
    s = Sim()
    p = W.Party(s.l, 1, keys=2)
    for e in before:
        if not s.do(e):
            return None
    if not s.can(event):
        return None
    keys = [A0, A1]
    conds = {R.uh_text(R.cond_uh(c)): R.cond_uh(c) for c in (MS, MS1)}
    take = lambda: [buckets(merged(s.l.view(x.uh) for x in keys)), {a: buckets(s.l.view(u)) for a, u in conds.items()}, {i for x in keys for i in s.l.touching(x.uh)}, s.l.height]
    v0 = take()
    p.ex.moves[k] = lambda: s.do(event)
    if ask == "transactions":
        ids = [t.id for t in p.wallet.transactions]
        if p.ex.moves:
            return None
        v1 = take()
        expect(len(set(ids)) == len(ids), "a transaction is listed twice")
        expect(v0[2] <= set(ids) <= v1[2], "transactions {} between {} and {}", ids, v0[2], v1[2])
        return ["listed", len(ids)]
    b = p.wallet.balance
    if p.ex.moves:
        return None     # fewer requests than that
    v1 = take()
    out = []
    expect({a for a, o in v0[1].items() if o} <= set(map(str, b.wallets)), "a multi-signature wallet is missing")
    for x, o0, o1 in [(b, v0[0], v1[0])] + [(w, v0[1][a], v1[1][a]) for a, w in sorted(b.wallets.items())]:
        o = W.outputs(x)
        got = {i: k for k in ("available", "unconfirmed", "spent", "unconfirmed_spent") for i in o[k]}
        same(len(got), sum(len(o[k]) for k in ("available", "unconfirmed", "spent", "unconfirmed_spent")), "outputs in one bucket only")
        got.update({i: "unconfirmed_locked" for i in o["unconfirmed_all"] if i not in o["unconfirmed"]})
        expect(set(got) <= set(o1), "outputs that do not exist: {}", set(got) - set(o1))
        for i in o1:
            ok = during(o0[i], o1[i]) if i in o0 else {o1[i], None, "unconfirmed", "unconfirmed_locked"}
            if i not in got:
                expect(ok & {None, "locked"}, "output of {} is missing", s.l.outs[i])
            else:
                expect(got[i] in ok, "output in bucket {} but it was {} and is now {}", got[i], o0.get(i), o1[i])
        a = W.amounts(x)
        same([a["available"], a["unconfirmed"], a["unconfirmed_locked"]], [sum(s.l.outs[i]["value"] for i, k in got.items() if k == q) for q in ("available", "unconfirmed", "unconfirmed_locked")], "amounts")
        expect(a["locked"] in {sum(s.l.outs[i]["value"] for i in s_) for s_ in subsets([i for i in o1 if i not in got])}, "locked amount {}", a["locked"])
        expect(v0[3] <= x.chain_height <= v1[3], "chain height {}", x.chain_height)
        out.append(sorted(Counter(got.values()).items()))
    return out


def subsets(l):
    return [[x for j, x in enumerate(l) if n >> j & 1] for n in range(1 << len(l))]


@family
def genesis(case):
    """a chain that consists of its first block only"""
    l = L.Ledger("testnet", time=L.T0)
    i = l.submit({"v": 1, "cin": [], "cout": [[5, ["uh", A0.uh]], [7, MS], [9, ["lt", LOCK_H, ["uh", A1.uh]]], [3, ["lt", LOCK_T, MS]]], "bin": [], "bout": [], "fees": [], "data": ""})
    l.txs[i]["height"] = 0
    l.blocks[0]["txs"] = [i]
    if case:
        l.mine([])
    p = W.Party(l, 1, keys=2)
    if case > 1:
        l.give([[4, ["uh", A0.uh]]])
        l.give([[6, ["uh", A1.uh]]], mine=case > 2)
    want = [t for t, r in l.txs.items() if r["height"] is None] + [t for t, r in reversed(list(l.txs.items())) if r["height"] is not None]
    same([str(t.id) for t in p.wallet.transactions], want, "transactions, the newest first")
    return check_balance(p.wallet.balance, l, [A0, A1], "at genesis")


@family
def unused(case):
    """addresses nobody has used"""
    l = L.Ledger("testnet")
    p = W.Party(l, 9, keys=case)
    b = p.wallet.balance
    same(p.wallet.transactions, [], "transactions")
    same(list(p.wallet.addresses_multisig), [], "multi-signature addresses")
    return check_balance(b, l, [W.K(9, i) for i in range(case)], "unused")


def run(ctx):
    for c in (0, 1, 2, 3):
        ctx.all(genesis, [c])
    ctx.all(unused, [1, 2, 3])
    def movings():
        first = [[e] for e in GROW] + [[e, ["mine", "all"]] for e in GROW] + [[["ms"], ["both"], ["mine", "all"], e] for e in GROW]
        if ctx.thorough:
            first += [[e, ["mine", "all"], g] for e in GROW for g in GROW]
        for b in first:
            for e in GROW:
                for k in range(1, 9):
                    for ask in ("balance", "transactions"):
                        if ask == "balance" or k < 3:
                            yield [b, e, k, ask]
    ctx.all(moving, movings(), parallel=True, chunk=50)
    if ctx.thorough:
        ctx.bfs(history, [[{"order": "fwd"}]], 4, parallel=True, chunk=32)
        ctx.bfs(history, [[{"order": "rev"}]], 3, parallel=True, chunk=32)
    else:
        ctx.bfs(history, [[{"order": "fwd"}]], 3, parallel=True, chunk=32)
        ctx.bfs(history, [[{"order": "rev"}]], 2, parallel=True, chunk=16)
