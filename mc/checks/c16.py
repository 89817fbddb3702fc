"""C16: atomic swap contracts.

history: breadth-first search over everything three wallets (sender, receiver, outsider) can do with two contracts on one ledger, at
every chain time around the two refund times; the model of a contract decides what may succeed, the ledger's validity rules and an
independent reading of every posted document decide whether what happened is right.
create, claim, verify: the products of the arguments of one operation."""
import hashlib
import json

import tfchain.errors as E
from tfchain.types.AtomicSwap import AtomicSwapContract
from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash, UnlockHash
from tfchain.types.PrimitiveTypes import Hash

from mc import build as B
from mc import world as W
from mc.core import Succ, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C16"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over the histories of three wallets and a ledger (real wallets replayed for every history) + exhaustive products of arguments"
RULE = ("an evaluation replays one history, or one operation or verification on a contract; it is non-trivial when an outcome was "
        "compared with the model (they all are but those whose start could not be built)")
ASSUMPTIONS = [
    "explorers report the state of the ledger truthfully, and every wallet looks at the same ledger",
    "a minimum refund time other than 0 that is not in the future is not judged, nor is a number below 500000000",
    "which of several applicable reasons a refusal names is not judged",
    "contracts for the all-zero or empty secret (which no receiver can redeem on the chain) only must not lead to a submission the network refuses",
]
UNIT = L.UNIT
S, RCV, OUT = 1, 2, 3
WHO = {"S": S, "R": RCV, "O": OUT}
SECRET = "5a" * 32
SHASH = L.secret_hash(SECRET)
CLEAN = (ValueError, TypeError, E.InsufficientFunds, E.AtomicSwapInsufficientAmountError, E.CurrencyNegativeValue, E.CurrencyPrecisionOverflow)


def start(net="devnet", keys=2):
    l = L.Ledger(net)
    l.give([[100 * UNIT, ["uh", W.K(n).uh]] for n in (S, RCV, OUT)])
    ps = {k: W.Party(l, n, keys=keys, network=net) for k, n in WHO.items()}
    return l, ps


def owner_keys(n, keys=2):
    return {tuple(W.K(n, i).uh): W.K(n, i) for i in range(keys)}


def seen_contract(c):
    return {"id": str(c.outputid), "amount": B.nano(c.amount), "sender": str(c.sender), "receiver": str(c.receiver), "hash": str(c.secret_hash),
            "time": c.refund_timestamp}


def check_contract(c, m):
    same(seen_contract(c), {k: m[k] for k in ("id", "amount", "sender", "receiver", "hash", "time")}, "contract")


def check_creation(l, p, res, n_before, want, submit=True):
    """the transaction of a new contract: want = (sender uh, receiver uh, hash, time, amount, data); gives the output identifier"""
    fee = L.MIN_FEE[l.network]
    t = X.of_json(json.loads(json.dumps(res.transaction.json())))
    posted = p.ex.posted[n_before:]
    same(bool(res.submitted), submit, "reported as submitted")
    same(posted, [t] if submit else [], "submitted documents")
    sender, receiver, h, tm, amount, data = want
    cs = [(i, o) for i, o in enumerate(t["cout"]) if o[1][0] == "as"]
    same([o for _, o in cs], [[amount, ["as", sender, receiver, h, tm]]], "contract outputs")
    expect(len(t["cout"]) <= 2, "outputs {}", t["cout"])
    same(t["fees"], [fee], "miner fees")
    same(t["data"], data, "data")
    if not submit:
        why = l.problems(t)
        expect(not why, "the transaction is not valid: {}", why)
    oid = X.coin_id(t, cs[0][0])
    check_contract(res.contract, {"id": oid, "amount": amount, "sender": R.uh_text(sender), "receiver": R.uh_text(receiver), "hash": h, "time": tm})
    expect(res.contract.unspent, "a new contract is reported as spent")
    return oid, t


def check_claim(l, p, txn, n_before, m, key, secret, data=""):
    fee = L.MIN_FEE[l.network]
    posted = p.ex.posted[n_before:]
    same(len(posted), 1, "number of submitted documents")
    t = posted[0]
    same(X.of_json(json.loads(json.dumps(txn.json()))), t, "returned transaction")
    same(str(txn.id), p.ex.ids[-1], "identifier of the transaction")
    same(t["v"], 1, "version")
    same([i[0] for i in t["cin"]], [m["id"]], "inputs")
    ff = t["cin"][0][1]
    same([ff[0], ff[1]], ["as", key.pk], "fulfillment and key")
    same(ff[3] if ff[3] and any(bytes.fromhex(ff[3])) else None, secret, "secret")
    same(t["cout"], [[m["amount"] - fee, ["uh", key.uh]]], "outputs")
    same(t["fees"], [fee], "miner fees")
    same(t["bin"] + t["bout"], [], "block stakes")
    same(t["data"], data, "data")


def reasons(l, m, who, act, secret):
    """why the act must be refused: set of error classes (empty: it must succeed)"""
    out = set()
    if m is None:
        return {E.AtomicSwapContractNotFound}
    if m["by"]:
        out.add(E.AtomicSwapContractSpent)
    keys = owner_keys(WHO[who])
    if act == "redeem":
        if not secret or L.secret_hash(secret) != m["hash"] or not any(bytes.fromhex(secret)):
            out.add(E.AtomicSwapInvalidSecret)
        if tuple(X.uh_of(m["receiver"])) not in keys:
            out.add(E.AtomicSwapForbidden)
    else:
        if l.time < m["time"]:
            out.add(E.AtomicSwapForbidden)
        if tuple(X.uh_of(m["sender"])) not in keys:
            out.add(E.AtomicSwapForbidden)
    if m["amount"] <= L.MIN_FEE[l.network]:
        out |= set(CLEAN)
    return out


def attempt(l, p, who, act, m, oid, secret=None, data=None, datahex=""):
    """redeem or refund; True when it succeeded"""
    n = len(p.ex.posted)
    want = reasons(l, m, who, act, secret)
    try:
        if act == "redeem":
            txn = p.wallet.atomicswap.redeem(oid, secret, data=data) if data is not None else p.wallet.atomicswap.redeem(oid, secret)
        else:
            txn = p.wallet.atomicswap.refund(oid, data=data) if data is not None else p.wallet.atomicswap.refund(oid)
    except tuple(want) as e:
        same(len(p.ex.posted), n, "documents submitted by a refused " + act)
        return False
    except CLEAN + (E.AtomicSwapContractError, E.AtomicSwapContractNotFound) as e:
        bad("{} by {} raised {} instead of {}", act, who, repr(e)[:200], [x.__name__ for x in want] or "success")
    if want:
        bad("{} by {} succeeded although it has to be refused: {}", act, who, [x.__name__ for x in want])
    key = owner_keys(WHO[who])[tuple(X.uh_of(m["receiver" if act == "redeem" else "sender"]))]
    check_claim(l, p, txn, n, m, key, secret if act == "redeem" else None, datahex)
    return True


# --- histories
T_INIT, T_PART = 10000, 5000
TIMES = [4999, 5000, 9999, 10000, 10001]
VARIANTS = {
    "plain": {"net": "devnet", "amount": 10 * UNIT},
    "least": {"net": "devnet", "amount": UNIT + 1},
    "std": {"net": "standard", "amount": 7 * UNIT + 3},
    "second": {"net": "devnet", "amount": 10 * UNIT, "rkey": 1, "skey": 1},
}


@family
def history(h):
    """[variant, event...]"""
    v = VARIANTS[h[0]]
    l, ps = start(v["net"])
    cs = {}        # the model: contract name -> {id, amount, sender, receiver, hash, time, secret, by}
    failed = False
    amount, rk, sk = v["amount"], v.get("rkey", 0), v.get("skey", 0)
    last = None
    for e in h[1:]:
        op = e[0]
        if op in ("init", "part"):
            me, you = ("S", "R") if op == "init" else ("R", "S")
            p, n = ps[me], len(ps[me].ex.posted)
            to = W.K(WHO[you], rk)
            kw = {"refund": W.K(WHO[me], sk).text} if sk else {}
            tm = L.T0 + (T_INIT if op == "init" else T_PART)
            if op == "init":
                res = p.wallet.atomicswap.initiate(to.text, B.dec(amount), refund_time=tm, **kw)
                secret = str(res.secret)
                hs = L.secret_hash(secret)
                expect(len(secret) == 64 and any(bytes.fromhex(secret)), "secret {}", secret)
                expect(secret not in [c["secret"] for c in cs.values()], "a secret is used twice")
            else:
                secret, hs = (cs["I"]["secret"], cs["I"]["hash"]) if "I" in cs else (SECRET, SHASH)
                res = p.wallet.atomicswap.participate(to.text, B.dec(amount), hs, refund_time=tm, **kw)
            oid, t = check_creation(l, p, res, n, (W.K(WHO[me], sk).uh, to.uh, hs, tm, amount, ""))
            cs["I" if op == "init" else "P"] = {"id": oid, "amount": amount, "sender": W.K(WHO[me], sk).text, "receiver": to.text, "hash": hs, "time": tm,
                                                 "secret": secret, "by": None, "tx": p.ex.ids[-1]}
        elif op == "mine":
            l.mine(dt=1)
        elif op == "time":
            l.mine(dt=L.T0 + e[1] - l.time)
        elif op in ("redeem", "refund"):
            who, name, what = e[1], e[2], e[3]
            m = cs.get(name)
            oid = m["id"] if m else "7b" * 32
            secret = None
            if op == "redeem":
                secret = {"right": m["secret"] if m else SECRET, "wrong": "5b" * 32, "zero": "00" * 32}[what]
            if attempt(l, ps[who], who, op, m, oid, secret):
                m["by"] = [op, who, ps[who].ex.ids[-1]]
            else:
                failed = True
        elif op == "spend":
            # everything the party has, claims and change included, goes to the outsider
            who = e[1]
            have = sum(sum(l.view(k)[b].values()) for k in owner_keys(WHO[who]) for b in ("available", "unconfirmed"))
            fee = L.MIN_FEE[v["net"]]
            n = len(ps[who].ex.posted)
            conf = sum(sum(l.view(k)["available"].values()) for k in owner_keys(WHO[who]))
            if have > fee:
                r = ps[who].wallet.coins_send(W.K(OUT).text, B.dec(have - fee))
                same(bool(r.submitted), True, "spending of everything submitted")
        last = e
    # every party sees the contracts as they are
    for name, m in cs.items():
        for who, p in ps.items():
            try:
                c = p.wallet.atomicswap.verify(m["id"])
                expect(not m["by"], "a spent contract is verified")
                check_contract(c, m)
                expect(c.unspent, "an unspent contract reported as spent")
            except E.AtomicSwapContractSpent as x:
                expect(m["by"], "an unspent contract is refused as spent")
                check_contract(x.contract, m)
                expect(not x.contract.unspent, "a spent contract reported as unspent")
                same(str(x.transaction.id), m["by"][2], "the transaction that spent the contract")
    view = {who: [[b, sorted(x.values())] for k in owner_keys(n) for b, x in sorted(l.view(k).items())] for who, n in WHO.items()}
    state = json.dumps([h[0], l.time - L.T0 if l.time - L.T0 > 1000 else 0, failed, view,
                        {n: [m["by"][:2] if m["by"] else None, bool(m["by"]) and l.confirmed(m["by"][2]), l.confirmed(m["tx"])] for n, m in cs.items()},
                        len(l.pool())], sort_keys=True)
    en = []
    if "I" not in cs:
        en.append(["init"])
    if "P" not in cs:
        en.append(["part"])
    if l.pool():
        en.append(["mine"])
    en += [["time", t] for t in TIMES if L.T0 + t > l.time][:2]
    for who in WHO:
        for name in ("I", "P"):
            if name not in cs and last is not None:
                continue
            for w in ("right", "wrong") + (("zero",) if who != "O" else ()):
                en.append(["redeem", who, name, w])
            en.append(["refund", who, name, ""])
    if cs:
        en += [["spend", "S"], ["spend", "R"]]
    return Succ(state, en, [sorted((n, str(m["by"] and m["by"][:2])) for n, m in cs.items()), failed, l.time > L.T0 + T_INIT])


# --- creation
@family
def create(case):
    """{op, amount, form, time, tform, hash form, src, ref, submit, data}"""
    c = case
    net = c.get("net", "devnet")
    l, ps = start(net)
    p = ps["S"]
    fee = L.MIN_FEE[net]
    n = len(p.ex.posted)
    kw = {}
    sender = W.K(S).uh
    if c.get("src") is not None:
        kw["source"] = W.K(S, c["src"]).text
        if c["src"] == 0:
            sender = W.K(S, 0).uh
    if c.get("ref"):
        kw["refund"] = {"own1": W.K(S, 1).text, "other": W.K(OUT).text, "ms": ([W.K(S).text, W.K(OUT).text], 1)}[c["ref"]]
        sender = {"own1": W.K(S, 1).uh, "other": W.K(OUT).uh, "ms": W.K(S).uh}[c["ref"]]
    if c.get("data"):
        kw["data"] = c["data"]
    if "submit" in c:
        kw["submit"] = c["submit"]
    refuse = c["amount"] <= fee or c["amount"] + fee > 100 * UNIT or c.get("src") == 1
    tm = c.get("time")
    if tm is None:
        tm = 48 * 3600 if c["op"] == "init" else 24 * 3600
        tm += l.time
    elif isinstance(tm, list):
        kw["refund_time"], tm = tm[0], l.time + tm[1]
    else:
        kw["refund_time"] = tm
        refuse = refuse or isinstance(tm, str) or tm < 500000000
    to = UnlockHash.from_json(W.K(RCV).text) if c.get("toform") else W.K(RCV).text
    if c.get("to") == "bad":
        to, refuse = W.K(RCV).text[:-1] + "z", True
    if c.get("to") == "ms":
        to, refuse = [W.K(RCV).text, W.K(OUT).text], True
    am = [B.dec(c["amount"]), B.dec(c["amount"]) + " TFT", B.cur(c["amount"]) if c["amount"] >= 0 else B.dec(c["amount"])][c.get("form", 0)]
    hs = SHASH
    try:
        if c["op"] == "init":
            res = p.wallet.atomicswap.initiate(to, am, **kw)
            hs = L.secret_hash(str(res.secret))
        else:
            hv = [SHASH, bytes.fromhex(SHASH), bytearray.fromhex(SHASH), AtomicSwapSecretHash(value=SHASH)][c.get("hform", 0)]
            if c.get("hash") is not None:
                hv, refuse = c["hash"], True
            res = p.wallet.atomicswap.participate(to, am, hv, **kw)
    except CLEAN as x:
        expect(refuse, "refused: {}", repr(x))
        same(len(p.ex.posted), n, "documents submitted by a refused operation")
        return ["refused", type(x).__name__]
    expect(not refuse, "a contract was created that has to be refused")
    check_creation(l, p, res, n, (sender, W.K(RCV).uh, hs, tm, c["amount"], (c.get("data") or "").encode().hex()), c.get("submit", True))
    return ["created", tm - L.T0, c["amount"], sender]


def create_cases():
    F = UNIT
    for op in ("init", "part"):
        for a in (-1, 0, 1, F - 1, F, F + 1, 2 * F, 99 * F - 1, 99 * F, 99 * F + 1, 100 * F, 101 * F):
            for f in range(3):
                for net in ("devnet", "standard"):
                    yield {"op": op, "amount": a, "form": f, "net": net}
        for a in (F // 10 - 1, F // 10, F // 10 + 1):
            yield {"op": op, "amount": a, "net": "standard"}
        for t in (None, ["+48h", 48 * 3600], ["+24h", 24 * 3600], ["+10m", 600], ["+2d", 172800], ["+1h30m", 5400], ["+1s", 1], 0, 1, 499999999, 500000000,
                  L.T0 - 1, L.T0, L.T0 + 1, L.T0 + 99999, 2 ** 31, 2 ** 32 - 1, -1, "", "abc", "+", "+x"):
            for tf in (0, 1):
                yield {"op": op, "amount": 5 * F, "time": t, "toform": tf}
        for s in (None, 0, 1):
            for r in (None, "own1", "other", "ms"):
                for d in (None, "text"):
                    for sub in (True, False):
                        for net in ("devnet", "standard"):
                            yield {"op": op, "amount": 5 * F, "src": s, "ref": r, "data": d, "submit": sub, "net": net}
        for to in ("bad", "ms"):
            yield {"op": op, "amount": 5 * F, "to": to}
    for hf in range(4):
        for a in (2 * F, 5 * F):
            yield {"op": "part", "amount": a, "hform": hf}
    for h in ("ab", "ab" * 31, "ab" * 33, "zz" * 32, 5, SHASH + "0"):
        yield {"op": "part", "amount": 5 * F, "hash": h}


# --- claiming contracts that appear on the chain
@family
def claim(case):
    """{amount, secret, hash, sender: [who, key], receiver: [who, key], dt: chain time - refund time, act, who, given, form, data, state, net}"""
    c = case
    net = c.get("net", "devnet")
    l, ps = start(net)
    lock = L.T0 + 50000
    hs = hashlib.sha256(bytes.fromhex(c.get("secret", SECRET))).hexdigest()
    sk, rk = W.K(WHO[c["sender"][0]], c["sender"][1]), W.K(WHO[c["receiver"][0]], c["receiver"][1])
    kind = c.get("kind", "swap")
    cond = ["as", sk.uh, rk.uh, hs, lock] if kind == "swap" else ["uh", rk.uh]
    oid = l.give([[7, ["uh", W.K(OUT).uh]], [c["amount"], cond]], mine=c.get("state") != "fresh")[1]
    m = {"id": oid, "amount": c["amount"], "sender": sk.text, "receiver": rk.text, "hash": hs, "time": lock, "by": None}
    l.mine(txids=[], dt=lock + c["dt"] - l.time)
    st = c.get("state")
    if st in ("spent", "spending"):
        k = rk
        t = {"v": 1, "cin": [[oid, ["as", None, None, SECRET]]], "cout": [[c["amount"] - l_fee(l), ["uh", k.uh]]], "bin": [], "bout": [], "fees": [l_fee(l)], "data": ""}
        t["cin"][0][1] = ["as", k.pk, k.sign(X.digest(t, [["i", 0], ["pk", k.pk], ["raw", SECRET]])), SECRET]
        expect(not l.problems(t), "the harness' own redemption is refused")
        m["by"] = ["redeem", "R", l.submit(t)]
        if st == "spent":
            l.mine(dt=0)
    p = ps[c["who"]]
    given = c.get("given", c.get("secret", SECRET))
    form = c.get("form", 0)
    i = [oid, Hash(value=oid), bytes.fromhex(oid), bytearray.fromhex(oid)][form]
    if kind != "swap":
        n = len(p.ex.posted)
        try:
            p.wallet.atomicswap.redeem(i, given) if c["act"] == "redeem" else p.wallet.atomicswap.refund(i)
        except (TypeError, ValueError, E.AtomicSwapContractError, E.AtomicSwapContractNotFound):
            same(len(p.ex.posted), n, "documents submitted")
            return "no contract"
        bad("an output that is no contract is claimed")
    odd = len(bytes.fromhex(c.get("secret", SECRET))) != 32 or not any(bytes.fromhex(c.get("secret", SECRET)))
    if odd:
        # the network reads the missing or zero secret as a refund: only a wrong submission is a violation
        n = len(p.ex.posted)
        try:
            p.wallet.atomicswap.redeem(i, given)
        except Exception:
            same(len(p.ex.posted), n, "documents submitted")
            return "refused"
        return "submitted"
    if c["act"] == "redeem":
        if len(given) != 64 or set(given) - set("0123456789abcdef"):
            n = len(p.ex.posted)
            try:
                p.wallet.atomicswap.redeem(i, given)
            except CLEAN + (E.AtomicSwapContractError,):
                same(len(p.ex.posted), n, "documents submitted")
                return "malformed secret"
            bad("redeemed with a malformed secret")
        give = [given, bytes.fromhex(given), bytearray.fromhex(given), AtomicSwapSecret(value=given)][c.get("sform", 0)]
        ok = attempt_with(l, p, c["who"], "redeem", m, i, given, give, c.get("data"))
    else:
        ok = attempt_with(l, p, c["who"], "refund", m, i, None, None, c.get("data"))
    return [c["act"], ok]


def l_fee(l):
    return L.MIN_FEE[l.network]


class _Given:
    def __init__(self, wallet, give):
        self.atomicswap, self._give = self, give
        self._w = wallet

    def redeem(self, oid, secret, **kw):
        return self._w.atomicswap.redeem(oid, self._give, **kw)

    def refund(self, oid, **kw):
        return self._w.atomicswap.refund(oid, **kw)


class _Party:
    def __init__(self, p, give):
        self.ex, self.wallet = p.ex, _Given(p.wallet, give)


def attempt_with(l, p, who, act, m, i, secret, give, data):
    return attempt(l, _Party(p, give), who, act, m, i, secret, data=data, datahex=(data or "").encode().hex())


def claim_cases(ctx):
    F = UNIT
    for act in ("redeem", "refund"):
        for who in WHO:
            for snd in (["S", 0], ["S", 1], ["R", 1], ["O", 0]):
                for rcv in (["R", 0], ["R", 1], ["S", 0], ["O", 1]):
                    for dt in (-1, 0, 1):
                        for given in ((SECRET, "5b" * 32) if act == "redeem" else (SECRET,)):
                            yield {"act": act, "who": who, "sender": snd, "receiver": rcv, "dt": dt, "given": given, "amount": 9 * F}
        for who in "SR":
            b = {"act": act, "who": who, "sender": ["S", 0], "receiver": ["R", 0], "dt": 0}
            for net in ("devnet", "standard"):
                for a in (1, F // 10 - 1, F // 10, F // 10 + 1, F - 1, F, F + 1, 2 * F, 10 ** 15 + 7):
                    yield dict(b, amount=a, net=net)
            for st in ("fresh", "spent", "spending"):
                for dt in (-100, 0, 100):
                    yield dict(b, amount=9 * F, state=st, dt=dt)
            for form in range(4):
                for sf in range(4):
                    for d in (None, "hello"):
                        yield dict(b, amount=9 * F, form=form, sform=sf, data=d)
            for g in ("", "5a", "5a" * 31, "5a" * 33, "zz" * 32, "00" * 32):
                yield dict(b, amount=9 * F, given=g)
            for s in ("00" * 32, "", "5a" * 31, "5a" * 33):
                for who2 in (["S", 0], ["R", 0]):
                    for dt in (-5, 5):
                        yield dict(b, amount=9 * F, act="redeem", secret=s, sender=who2, dt=dt)
            yield dict(b, amount=9 * F, kind="plain")


# --- verification
@family
def verify(case):
    """{amount, hash, min, sender, receiver, who, dt, via, form}"""
    c = case
    l, ps = start()
    A = 9 * UNIT
    lock = L.T0 + 50000
    me = c["roles"]
    sk, rk = W.K(WHO[me[0]], c.get("ki", 0)), W.K(WHO[me[1]], c.get("ki", 0))
    oid = l.give([[7, ["uh", W.K(OUT).uh]], [A, ["as", sk.uh, rk.uh, SHASH, lock]]])[1]
    l.mine(dt=lock + c["dt"] - l.time)
    m = {"id": oid, "amount": A, "sender": sk.text, "receiver": rk.text, "hash": SHASH, "time": lock}
    p = ps[c["who"]]
    kw, ok = {}, True
    if c["amount"] is not None:
        n = A + c["amount"]
        kw["amount"] = [B.dec(n), B.cur(n), B.dec(n) + " TFT"][c.get("form", 0)]
        ok = ok and c["amount"] == 0
    if c["hash"] is not None:
        h = SHASH if c["hash"] else SECRET
        kw["secret_hash"] = [h, AtomicSwapSecretHash(value=h), bytes.fromhex(h)][c.get("form", 0)]
        ok = ok and bool(c["hash"])
    if c["min"] is not None:
        if c["min"] == 0:
            kw["min_refund_time"] = 0
            ok = ok and l.time >= lock
        else:
            kw["min_refund_time"] = l.time + c["min"] if not isinstance(c["min"], list) else c["min"][0]
            d = c["min"] if not isinstance(c["min"], list) else c["min"][1]
            ok = ok and lock - l.time >= d
    mine = owner_keys(WHO[c["who"]])
    if c["sender"]:
        kw["sender"] = True
        ok = ok and tuple(sk.uh) in mine
    if c["receiver"]:
        kw["receiver"] = True
        ok = ok and tuple(rk.uh) in mine
    i = [oid, Hash(value=oid), oid][c.get("form", 0)]
    if c["via"]:
        kw["contract"] = ps["O"].wallet.atomicswap.verify(oid)
        if c["via"] == "other":
            i, ok = [X.H0 if hasattr(X, "H0") else "7b" * 32, Hash(value="7b" * 32), "7b" * 32][c.get("form", 0)], False
    elif c.get("id") == "unknown":
        try:
            p.wallet.atomicswap.verify("7b" * 32, **kw)
        except E.AtomicSwapContractNotFound:
            return "unknown"
        bad("an unknown contract is verified")
    try:
        got = p.wallet.atomicswap.verify(i, **kw)
    except E.AtomicSwapContractInvalid as x:
        expect(not ok, "a contract that matches is refused: {}", x)
        check_contract(x.contract, m)
        return "refused"
    expect(ok, "a contract is accepted that does not match")
    check_contract(got, m)
    same(p.ex.posted, [], "submitted documents")
    return "accepted"


def verify_cases(ctx):
    for via in (None, "given", "other"):
        for roles in (["S", "R"], ["S", "S"], ["R", "O"]):
            for who in WHO:
                for amount in (None, 0, -1, 1):
                    for h in (None, 1, 0):
                        for s in (False, True):
                            for r in (False, True):
                                for dt in (-3600, -1, 0, 1) if ctx.thorough else (-3600, 0):
                                    for mn in (None, 0, 3599, 3600, 3601, ["+1h", 3600], ["+59m", 3540], ["+2h", 7200]) if (ctx.thorough or amount in (None, 0)) else (None, 0, 3600, ["+2h", 7200]):
                                        yield {"via": via, "roles": roles, "who": who, "amount": amount, "hash": h, "sender": s, "receiver": r, "dt": dt, "min": mn}
    for dt in (-100000, -7201, -7200, -7199, -3601, -3600, -3599, -2, -1, 0, 1, 2, 5000):
        for mn in (None, 0, 1, 2, 3599, 3600, 3601, 7199, 7200, 7201, ["+1s", 1], ["+2s", 2], ["+1h", 3600], ["+1h1s", 3601], ["+2h", 7200], ["+1d", 86400]):
            for form in range(3):
                for ki in (0, 1):
                    yield {"via": None, "roles": ["S", "R"], "who": "S", "amount": 0, "hash": 1, "sender": True, "receiver": False, "dt": dt, "min": mn, "form": form, "ki": ki}
    for a in (-9 * UNIT, -9 * UNIT + 1, UNIT, 10 ** 12):
        for form in range(3):
            yield {"via": None, "roles": ["S", "R"], "who": "S", "amount": a, "hash": None, "sender": False, "receiver": False, "dt": 0, "min": None, "form": form}
    for a in (None, 0, 1):
        for h in (None, 1, 0):
            for who in WHO:
                yield {"via": None, "roles": ["S", "R"], "who": who, "amount": a, "hash": h, "sender": False, "receiver": False, "dt": 0, "min": None, "id": "unknown"}


@family
def stale(case):
    """verification with a contract that is known to be spent: [who, from the error of, amount right?]"""
    who, via, amount = case
    l, ps = start()
    sk, rk = W.K(S), W.K(RCV)
    oid = l.give([[7, ["uh", W.K(OUT).uh]], [9 * UNIT, ["as", sk.uh, rk.uh, SHASH, L.T0 + 50000]]])[1]
    ps["R"].wallet.atomicswap.redeem(oid, SECRET)
    p = ps[who]
    try:
        if via == "verify":
            p.wallet.atomicswap.verify(oid)
        elif via == "redeem":
            p.wallet.atomicswap.redeem(oid, SECRET)
        else:
            p.wallet.atomicswap.refund(oid)
    except E.AtomicSwapContractSpent as x:
        expect(not x.contract.unspent, "a spent contract reported as unspent")
        c = x.contract
    else:
        bad("a spent contract is accepted")
    try:
        p.wallet.atomicswap.verify(oid, contract=c, amount=B.dec(9 * UNIT + amount))
    except (E.AtomicSwapContractSpent, E.AtomicSwapContractInvalid):
        return ["refused", via]
    bad("a contract that is known to be spent is verified")


@family
def secrets(case):
    """verify_secret of a contract: [right?, length, form]"""
    right, n, form = case
    s = bytes(range(1, 33))
    g = (s if right else bytes(32 - i for i in range(32)))
    g = (g + b"\x07" * 8)[:n]
    from tfchain.types.IO import CoinOutput
    c = AtomicSwapContract(coinoutput=B.cout([9, ["as", W.K(S).uh, W.K(RCV).uh, hashlib.sha256(s).hexdigest(), L.T0]], id="7b" * 32))
    try:
        v = [g.hex(), g, bytearray(g), None][form] if form < 3 else AtomicSwapSecret(value=g)
        r = c.verify_secret(v)
    except (ValueError, TypeError):
        expect(n != 32, "a secret of the right size is refused")
        return "refused"
    same(bool(r), bool(right and n == 32), "verdict on the secret")
    return [bool(r)]


def nibble(h, i, d=1):
    return h[:i] + "%x" % ((int(h[i], 16) + d) % 16) + h[i + 1:]


@family
def near(case):
    """a contract or an argument which differs in one digit only from what is claimed: [what, digit]"""
    what, i = case
    l, ps = start()
    sk, rk = W.K(S), W.K(RCV)
    h, su, ru = SHASH, sk.uh, rk.uh
    if what == "hash":
        h = nibble(h, i)
    elif what == "receiver":
        ru = [ru[0], nibble(ru[1], i)]
    elif what == "sender":
        su = [su[0], nibble(su[1], i)]
    A = 9 * UNIT
    lock = L.T0 + 50000
    oid = l.give([[7, ["uh", W.K(OUT).uh]], [A, ["as", su, ru, h, lock]]])[1]
    m = {"id": oid, "amount": A, "sender": R.uh_text(su), "receiver": R.uh_text(ru), "hash": h, "time": lock}
    check_contract(ps["O"].wallet.atomicswap.verify(oid), m)
    given = SHASH if what != "argument" else nibble(h, i)
    for kw, p, ok in (({"secret_hash": given}, ps["O"], given == h), ({"sender": True}, ps["S"], su == sk.uh), ({"receiver": True}, ps["R"], ru == rk.uh)):
        try:
            got = p.wallet.atomicswap.verify(oid, **kw)
        except E.AtomicSwapContractInvalid as x:
            expect(not ok, "a contract that matches is refused: {}", x)
            check_contract(x.contract, m)
        else:
            expect(ok, "a contract is accepted that differs in one digit: {}", kw)
            check_contract(got, m)
    c = ps["O"].wallet.atomicswap.verify(oid)
    same(bool(c.verify_secret(SECRET)), h == SHASH, "verdict on the secret")
    if what == "secret":
        s = nibble(SECRET, i)
        expect(not c.verify_secret(s), "a secret which differs in one digit is accepted")
        expect(not attempt(l, ps["R"], "R", "redeem", {**m, "by": None}, oid, s), "claimed with a wrong secret")
    m["by"] = None
    if what == "sender":
        l.mine(dt=lock + 1 - l.time)
        attempt(l, ps["S"], "S", "refund", m, oid)
    else:
        attempt(l, ps["R"], "R", "redeem", m, oid, SECRET)
    return what


def run(ctx):
    ctx.all(near, [[w, i] for w in ("hash", "argument", "secret", "sender", "receiver") for i in range(64)], parallel=True, chunk=8)
    ctx.all(secrets, [[r, n, f] for r in (1, 0) for n in (0, 1, 16, 31, 32, 33, 40) for f in range(4)])
    ctx.all(stale, [[w, v, a] for w in WHO for v in ("verify", "redeem", "refund") for a in (0, 1)])
    ctx.all(create, create_cases(), parallel=True, chunk=16)
    ctx.all(claim, claim_cases(ctx), parallel=True, chunk=16)
    ctx.all(verify, verify_cases(ctx), parallel=True, chunk=32)
    for v in VARIANTS if ctx.thorough else ("plain", "second"):
        ctx.bfs(history, [[v]], 7 if ctx.thorough else 4, parallel=True, chunk=4)
