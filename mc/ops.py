"""Wallet operations on a small ledger: what is asked, what the resulting transaction must look like.
A case is {"bal": [[value, who, state]..], "op", "a": arguments, "src", "ref", "data", ...}; see Scene and PLAN."""
import json
from collections import Counter

import tfchain.errors
from tfchain.types.ConditionTypes import UnlockHash

from mc import build as B
from mc import world as W
from mc.core import bad, expect, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

UNIT = L.UNIT
MAX = 99
ME, YOU = 1, 2
KEYS = 2
SIG = "ab" * 64
U = [W.K(ME, 0).uh, W.K(ME, 1).uh, W.K(YOU, 0).uh, W.K(YOU, 1).uh]
OWN = {"a": ["uh", U[0]], "b": ["uh", U[1]], "m": ["ms", [U[0], U[2]], 2], "n": ["ms", [U[2], U[1]], 1], "p": ["ms", [U[0], U[1]], 2],
       "q": ["ms", [U[2], U[3], U[0]], 2]}
TEXT = {k: R.uh_text(R.cond_uh(c)) for k, c in OWN.items()}
TEXT["x"] = R.uh_text(U[3])                                       # not of the wallet
TEXT["y"] = R.uh_text(R.cond_uh(["ms", [U[2], U[3]], 1]))
MYPK = {W.K(ME, i).pk: tuple(W.K(ME, i).uh) for i in range(KEYS)}
LOCK_T = L.T0 + 10 ** 6
LOCK_H = 1000
CLEAN = (ValueError, TypeError, tfchain.errors.InsufficientFunds, tfchain.errors.AtomicSwapInsufficientAmountError, tfchain.errors.ThreeBotInactive,
         tfchain.errors.ThreeBotNotFound, tfchain.errors.ERC20RegistrationForbidden, tfchain.errors.AtomicSwapForbidden,
         tfchain.errors.CurrencyNegativeValue, tfchain.errors.CurrencyPrecisionOverflow)


def recipient(c, form=0):
    """a condition in the notation of the wallet operations"""
    if c[0] == "nil":
        return None
    if c[0] == "uh":
        return R.uh_text(c[1]) if form == 0 else B.uh(c[1])
    o = [R.uh_text(u) if form == 0 else B.uh(u) for u in c[1]]
    return o if c[2] == len(o) and form == 0 else (o, c[2])


def money(n, form=0):
    return [B.dec(n) + " TFT", B.dec(n), B.cur(n)][form]


class Scene:
    """the ledger of a case and the wallet working on it"""
    def __init__(self, case):
        self.case = case
        self.net = case.get("net", "devnet")
        self.fee = L.MIN_FEE[self.net]
        self.l = l = L.Ledger(self.net, mint=case.get("mint"))
        for i, b in (case.get("bots") or {}).items():
            l.bots[int(i)] = {"names": b.get("names", []), "addrs": b.get("addrs", []), "pk": W.K(*b["key"]).pk, "exp": L.T0 + b["exp"]}
        bal = case["bal"]
        self.ids = {}
        conds = []
        for v, w, s in bal:
            c = OWN[w]
            conds.append(["lt", LOCK_T if v % 2 else LOCK_H, c] if s in "lk" else c)
        for states, mine in (("cslw", True), ("uvk", False)):
            idx = [i for i, o in enumerate(bal) if o[2] in states]
            if idx:
                for i, h in zip(idx, l.give([[bal[i][0], conds[i]] for i in idx], mine=mine)):
                    self.ids[h] = i
        for states in ("s", "wv"):      # spent (confirmed); spent by an unconfirmed transaction
            ps = [h for h, i in self.ids.items() if bal[i][2] in states]
            if ps:
                l.submit({"v": 1, "cin": [[p, ["ss", W.K(YOU, 1).pk, SIG]] for p in ps], "cout": [[1, ["uh", U[3]]]], "bin": [], "bout": [], "fees": [1], "data": "0" * 8})
                if states == "s":
                    l.mine([i for i in l.pool() if all(p in ps for p, _ in l.txs[i]["t"]["cin"]) and l.txs[i]["t"]["cin"]])
        self.p = W.Party(l, ME, keys=KEYS, scan=case.get("scan", 0), network=self.net, accept=case.get("accept", True))
        self.p.ex.refuse = bool(case.get("refuse"))
        self.wallet, self.ex = self.p.wallet, self.p.ex

    def pool(self):
        """permitted outputs {id: [value, who, state]} of the requested source"""
        src = self.case.get("src") or "ab"
        out = {}
        for w in src:
            if w in OWN:
                v = self.l.view(R.cond_uh(OWN[w]))
                for k, st in (("available", "c"), ("unconfirmed", "u")):
                    out.update({h: [n, w, st] for h, n in v[k].items()})
        return out

    def kw(self):
        c, k = self.case, {}
        if c.get("src"):
            s = [TEXT[x] if (j + len(c["bal"])) % 2 else UnlockHash.from_json(TEXT[x]) for j, x in enumerate(c["src"])]
            k["source"] = s[0] if len(s) == 1 else s
        if c.get("ref"):
            k["refund"] = recipient(c["ref"])
        return k

    def change_cond(self):
        c = self.case
        if c.get("ref"):
            return c["ref"]
        if c.get("src") and len(c["src"]) == 1 and c["src"] in OWN:
            return OWN[c["src"]]
        return OWN["a"]


def data_arg(case):
    """data is given as None, text or {"hex": bytes}"""
    d = case.get("data")
    if isinstance(d, dict):
        return bytes.fromhex(d["hex"])
    return d


def data_hex(case):
    d = data_arg(case)
    return (d or b"").hex() if not isinstance(d, str) else d.encode().hex()


def lockit(c, lock):
    return c if lock is None else ["lt", lock, c]


# --- the operations: each gives (call, wanted outputs, fields of the spec, amount besides the miner fee, refuse?)
def p_send(s, a):
    n = a["amount"]
    def call():
        return s.wallet.coins_send(recipient(a["to"], a.get("form", 0)), money(n, a.get("form", 0)), lock=a.get("lock"), data=data_arg(s.case), **s.kw())
    return call, [[n, lockit(a["to"], a.get("lock"))]], {"v": 1}, n, n <= 0


def p_build(s, a):
    def call():
        b = s.wallet.coin_transaction_builder_new()
        for i, (n, c, lock) in enumerate(a["outs"]):
            b.output_add(recipient(c), money(n, i % 3), lock=lock)
        return b.send(data=data_arg(s.case), **s.kw())
    return call, [[n, lockit(c, k)] for n, c, k in a["outs"]], {"v": 1}, sum(o[0] for o in a["outs"]), any(o[0] <= 0 for o in a["outs"])


def sender_of(s):
    c = s.change_cond()
    return c[1] if c[0] == "uh" else U[0]


def p_init(s, a):
    n = a["amount"]
    def call():
        s.result = s.wallet.atomicswap.initiate(R.uh_text(a["to"]), money(n), refund_time=a["time"], data=data_arg(s.case), submit=a.get("submit", True), **s.kw())
        s.hash = L.secret_hash(str(s.result.secret))
        return s.result
    return call, lambda: [[n, ["as", sender_of(s), a["to"], s.hash, a["time"]]]], {"v": 1}, n, n <= s.fee


def p_part(s, a):
    n = a["amount"]
    def call():
        return s.wallet.atomicswap.participate(R.uh_text(a["to"]), money(n), a["hash"], refund_time=a["time"], data=data_arg(s.case), submit=a.get("submit", True), **s.kw())
    return call, [[n, ["as", sender_of(s), a["to"], a["hash"], a["time"]]]], {"v": 1}, n, n <= s.fee


def na(l):
    return None if l is None else [X.netaddr_js(x) for x in l]


def p_new(s, a):
    f = {"v": 144, "months": a["months"], "names": sorted(a.get("names") or []), "addrs": sorted(a.get("addrs") or [])}
    k = a.get("key")
    def call():
        return s.wallet.threebot.record_new(months=a["months"], names=a.get("names"), addresses=na(a.get("addrs")), key_index=k, **s.kw())
    f["pk"] = W.K(ME, KEYS if k is None or a.get("bad") else k).pk
    return call, [], f, L.bot_fee(f), a.get("bad", False)


def p_upd(s, a):
    g = lambda k: a.get(k) or []
    f = {"v": 145, "id": a["id"], "months": a.get("months", 0), "nadd": sorted(g("nadd")), "nrem": sorted(g("nrem")), "aadd": sorted(g("aadd")), "arem": sorted(g("arem"))}
    def call():
        return s.wallet.threebot.record_update(a["id"], months=f["months"], names_to_add=a.get("nadd"), names_to_remove=a.get("nrem"),
                                               addresses_to_add=na(a.get("aadd")), addresses_to_remove=na(a.get("arem")), **s.kw())
    return call, [], f, L.bot_fee(f), a.get("bad", False)


def p_xfer(s, a):
    f = {"v": 146, "sid": a["sid"], "rid": a["rid"], "names": sorted(a["names"])}
    def call():
        return s.wallet.threebot.name_transfer(a["sid"], a["rid"], a["names"], **s.kw())
    return call, [], f, L.bot_fee(f), a.get("bad", False)


def p_erc(s, a):
    n = a["amount"]
    def call():
        if a.get("via") == "send":
            return s.wallet.coins_send("0x" + a["addr"], money(n), **s.kw())
        return s.wallet.erc20.coins_send("0x" + a["addr"], money(n, a.get("form", 0)), **s.kw())
    return call, [], {"v": 208, "addr": a["addr"], "value": n}, n, n <= 0


def p_reg(s, a):
    k = a["key"]
    def call():
        v = {None: None, 0: 0, 1: 1, "t0": TEXT["a"], "t1": TEXT["b"], "u1": B.uh(U[1])}[k]
        return s.wallet.erc20.address_register(v, **s.kw())
    i = {None: KEYS, 0: 0, 1: 1, "t0": 0, "t1": 1, "u1": 1}[k]
    return call, [], {"v": 210, "pk": W.K(ME, i).pk, "regfee": L.REG_FEE}, L.REG_FEE, False


def p_mint(s, a):
    n = a["amount"]
    def call():
        return s.wallet.minter.coins_new(recipient(a["to"]), money(n), lock=a.get("lock"), data=data_arg(s.case))
    return call, [[n, lockit(a["to"], a.get("lock"))]], {"v": 129}, None, n <= 0


def p_def(s, a):
    def call():
        return s.wallet.minter.definition_set(recipient(a["to"]), data=data_arg(s.case))
    return call, [], {"v": 128, "mc": a["to"]}, None, a["to"][0] == "nil"


PLAN = {"send": p_send, "build": p_build, "init": p_init, "part": p_part, "new": p_new, "upd": p_upd, "xfer": p_xfer, "erc": p_erc, "reg": p_reg,
        "mint": p_mint, "def": p_def}


def spec_of(txn):
    return X.of_json(json.loads(json.dumps(txn.json())))


def norm(k, v):
    return sorted(v) if isinstance(v, list) and k != "mc" else v


def signers(s, spec):
    """(complete?, per authorisation the number of own signatures it needs at least)"""
    mine = {tuple(W.K(ME, i).uh) for i in range(KEYS + 1)}
    l, ok = s.l, True
    conds = [(("cin", i), l.outs[p]["cond"]) for i, (p, _) in enumerate(spec.get("cin", []))]
    if spec["v"] in (128, 129):
        conds.append((("mint", 0), l.mint_condition()))
    least = {}
    for k, c in conds:
        c = R.unwrap(c)
        if c[0] == "ms":
            own = sum(1 for u in c[1] if tuple(u) in mine)
            least[k] = min(own, c[2])
            ok = ok and own >= c[2]
        else:
            own = tuple(R.cond_uh(c)) in mine
            least[k] = int(own)
            ok = ok and own
    for b in [spec["id"]] if spec["v"] == 145 else [spec["sid"], spec["rid"]] if spec["v"] == 146 else []:
        ok = ok and any(l.bots[b]["pk"] == W.K(ME, i).pk for i in range(KEYS + 1))
    return ok, least


def need_of(s, besides):
    return None if besides is None else besides + s.fee


def run(case, judge):
    """one operation; judge "funding" looks at the selection and the change, "value" at amounts, content and submission"""
    return step(Scene(case), case, judge)


def step(s, case, judge):
    s.case = case
    before = len(s.ex.posted)
    call, outs, fields, besides, refuse = PLAN[case["op"]](s, case["a"])
    need = need_of(s, besides)
    pool = s.pool()
    best = sum(sorted((o[0] for o in pool.values()), reverse=True)[:MAX])
    refuse = refuse or (len(data_hex(case)) > 166)
    try:
        res = call()
    except CLEAN as e:
        if len(s.ex.posted) != before:
            bad("an operation that failed with {} has submitted a transaction", repr(e))
        if not refuse and case.get("maybe") and isinstance(e, tfchain.errors.ThreeBotInactive):
            return "refused"
        if not refuse:
            expect(need is not None, "refused: {}", repr(e))
            if isinstance(e, tfchain.errors.InsufficientFunds):
                if judge == "funding":
                    expect(best < need, "insufficient funds although {} of {} can be collected", best, need)
                return "insufficient"
            bad("refused: {}", repr(e))
        return "refused"
    except tfchain.errors.ExplorerServerPostError:
        expect(s.ex.refuse or s.ex.refused, "the network accepted the transaction but an error was raised")
        return "network refused"
    expect(not refuse, "an operation was carried out that has to be refused")
    if need is not None and judge == "funding":
        expect(best >= need, "funded {} although at most {} can be collected", need, best)
    expect(not s.ex.refuse or not res.submitted, "reported as submitted although the network refused it")
    t = res.transaction
    spec = spec_of(t)
    ids = [p for p, _ in spec.get("cin", [])]
    got = sum(s.l.outs[p]["value"] for p in ids if p in s.l.outs)
    co = X.couts(spec)
    if callable(outs):
        outs = outs()
    left = Counter(map(repr, co))
    left.subtract(Counter(map(repr, outs)))
    change = [o for o in co if left[repr(o)] > 0]
    if judge == "funding":
        if need is None:
            return "no inputs"
        expect(len(set(ids)) == len(ids), "an output is used twice")
        expect(1 <= len(ids) <= MAX, "{} inputs", len(ids))
        for p in ids:
            expect(p in pool, "an output is used which is not available or not of the source")
        for w in ("ab", "m", "n", "p", "q"):
            unc = [p for p in ids if pool[p][2] == "u" and pool[p][1] in w]
            conf = sum(sorted((o[0] for o in pool.values() if o[2] == "c" and o[1] in w), reverse=True)[:MAX])
            expect(not unc or conf < need, "an unconfirmed output is used although confirmed ones of that wallet suffice")
        for o in change:
            same(o[1], s.change_cond(), "condition of the change")
        return [len(ids), len(change)]
    # value
    same(spec["v"], fields["v"], "version")
    for o in change:
        same(o[1], s.change_cond(), "condition of the change")
    fees = L.fees_of(spec)
    expect(sum(fees) >= s.fee, "miner fee {} below the minimum", fees)
    expect(all(v >= 0 for v in left.values()), "requested outputs are missing or changed: got {} want {}", co, outs)
    expect(len(change) <= 1, "more outputs than requested: {}", change)
    if need is not None:
        same(got, sum(o[0] for o in co) + sum(fees) + L.burned(spec), "value of the inputs against outputs and fees")
        same(L.burned(spec), 0 if spec["v"] == 1 else besides, "protocol fee")
        expect(all(p in s.l.outs for p in ids) and len(set(ids)) == len(ids), "inputs unknown or used twice")
    else:
        same(change, [], "outputs besides the requested")
    expect(all(o[0] > 0 for o in co), "an output without value")
    for k, v in fields.items():
        same(norm(k, spec[k]), norm(k, v), "field " + k)
    same(spec.get("data", ""), data_hex(case) if fields["v"] in (1, 128, 129) else spec.get("data", ""), "data")
    complete, least = signers(s, spec)
    want = complete and case["a"].get("submit", True)
    same(bool(res.submitted), want, "reported as submitted")
    same(bool(t.is_fulfilled()), complete, "reported as complete")
    same(s.ex.posted[before:], [spec] if want else [], "submitted documents")
    if want:
        same(str(t.id), s.ex.ids[-1], "transaction identifier")
    for i, o in enumerate(t.coin_outputs):
        expect(str(o.id) in ("", "00" * 32, "None", X.coin_id(spec, i)), "identifier of output {}", i)
    num = Counter()
    for lab, ex, pk, sig in X.signatures(spec):
        if not sig:
            continue
        expect(L.verifies(pk, X.digest(spec, ex), sig), "a signature does not verify")
        expect(pk in MYPK or pk == W.K(ME, KEYS).pk, "signed by a key which is not of the wallet")
        num[(lab, ex[0][1] if lab == "cin" else 0)] += 1
    for k, n in least.items():
        expect(num[k] >= n, "only {} of {} own signatures at {}", num[k], n, k)
    if case["op"] in ("init", "part"):
        c = res.contract
        i = co.index(outs[0])
        same(str(c.outputid), X.coin_id(spec, i), "identifier of the contract")
        same([B.nano(c.amount), str(c.sender), str(c.receiver), str(c.secret_hash), c.refund_timestamp],
             [outs[0][0], R.uh_text(outs[0][1][1]), R.uh_text(outs[0][1][2]), outs[0][1][3], outs[0][1][4]], "contract")
    return [want, len(change), len(ids)]


# --- grids
F = L.MIN_FEE["devnet"]
TO = ["uh", U[3]]
ACTIVE, EXPIRED = 10 ** 6, -1
BOTS = {"1": {"key": [ME, 0], "exp": ACTIVE, "names": ["foobar", "barfoo"]}, "2": {"key": [ME, 1], "exp": ACTIVE}, "3": {"key": [YOU, 0], "exp": ACTIVE},
        "4": {"key": [ME, 0], "exp": EXPIRED}, "5": {"key": [ME, 0], "exp": 0}}


def base_ops(amount):
    """one argument set per operation, with the amount where it can be chosen"""
    yield "send", {"amount": amount, "to": TO}
    yield "build", {"outs": [[amount - 1, TO, None], [1, ["uh", U[1]], LOCK_T]]}
    yield "init", {"amount": amount, "to": U[2], "time": L.T0 + 1000}
    yield "part", {"amount": amount, "to": U[2], "hash": "3c" * 32, "time": L.T0 + 1000}
    yield "erc", {"amount": amount, "addr": "ab" * 20}
    yield "new", {"months": 1, "names": ["chatbot"], "key": 1}
    yield "upd", {"id": 1, "months": 3, "nadd": ["chatbot"]}
    yield "xfer", {"sid": 1, "rid": 2, "names": ["foobar"]}
    yield "reg", {"key": 1}


def cost(op, a):
    """what the operation costs besides the miner fee"""
    if op in ("send", "init", "part", "erc", "mint"):
        return a["amount"]
    if op == "build":
        return sum(o[0] for o in a["outs"])
    if op == "reg":
        return L.REG_FEE
    f = {"v": {"new": 144, "upd": 145, "xfer": 146}[op], "months": a.get("months", 0), "names": a.get("names") or [], "nadd": a.get("nadd") or [], "aadd": a.get("aadd") or [],
         "arem": a.get("arem") or []}
    return L.bot_fee(f)
