"""C31: what a refusal, a contract or a report says is true.

swaps: breadth-first search over the histories of one contract; in every state reached every party tries everything that has to be
refused, and what the refusal says is compared with the ledger. contract, same_contract: texts and equality of contracts.
amounts, bots, addresses, answers, chain: the other refusals and reports, for products of what they are about."""
import itertools
import json
import re
import time as clock
from decimal import Decimal

import tfchain.errors as E
from tfchain.types.AtomicSwap import AtomicSwapContract
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.IO import CoinOutput
from tfchain.types.PrimitiveTypes import Currency, Hash

from mc import build as B
from mc import world as W
from mc.core import Succ, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C31"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over the histories of a contract (real wallets replayed for every history, every refusal provoked in every state) + exhaustive products"
RULE = "an evaluation judges what refusals or reports say about one history or one combination of arguments; trivial when nothing was refused or reported"
ASSUMPTIONS = [
    "which of several applicable reasons a refusal names is not judged, only that what it says applies",
    "points in time are written for the zone of the machine and read back in it",
    "explorers report the state of the ledger truthfully, apart from the documents the family answers spoils",
]
UNIT = L.UNIT
S, RCV, OUT = 1, 2, 3
WHO = {"S": S, "R": RCV, "O": OUT}
SECRET = "5a" * 32
SHASH = L.secret_hash(SECRET)
UNKNOWN = "7b" * 32
LOCK = 10000


def secs(text):
    """'1d2h3m4s' in seconds; every unit once, none zero, each below the next"""
    m = re.fullmatch(r"(?:(\d+)d)?(?:(\d+)h)?(?:(\d+)m)?(?:(\d+)s)?", text)
    expect(m and text, "not a duration: {!r}", text)
    n = [int(x or 0) for x in m.groups()]
    expect(n[1] < 24 and n[2] < 60 and n[3] < 60 and all(x is None or int(x) for x in m.groups()), "duration {}", text)
    return ((n[0] * 24 + n[1]) * 60 + n[2]) * 60 + n[3]


STAMP = r"\d{4,}/\d\d/\d\d \d\d:\d\d:\d\d"


def epoch(text):
    return int(clock.mktime(clock.strptime(text, "%Y/%m/%d %H:%M:%S")))


def one(pattern, text, what):
    m = re.findall(pattern, text)
    expect(len(m) == 1, "{}: found {} times in {!r}", what, len(m), text)
    return m[0]


def nanos(text):
    return [int(Decimal(x) * UNIT) for x in re.findall(r"([0-9][0-9.]*) TFT", text)]


def judge_contract(c, m, now, spent, what, unspent=True):
    """an object that stands for the contract m: content, state, text"""
    same({"id": str(c.outputid), "amount": B.nano(c.amount), "sender": str(c.sender), "receiver": str(c.receiver), "hash": str(c.secret_hash),
          "time": c.refund_timestamp}, {k: m[k] for k in ("id", "amount", "sender", "receiver", "hash", "time")}, what)
    same(bool(c.unspent), not spent, what + ": reported as unspent")
    o = c.coin_output
    same([str(o.id), B.nano(o.value), o.condition.json()], [m["id"], m["amount"], R.cond_js(m["cond"])], what + ": its output")
    same(c.condition.json(), R.cond_js(m["cond"]), what + ": its condition")
    text = repr(c)
    same(one(r"(?i)contract ([0-9a-f]{64})", text, "identifier"), m["id"], what + ": identifier in the text")
    same(one(r"(?i)sender: ([0-9a-f]{78})", text, "sender"), m["sender"], what + ": sender in the text")
    same(one(r"(?i)receiver: ([0-9a-f]{78})", text, "receiver"), m["receiver"], what + ": receiver in the text")
    same(one(r"(?i)secret hash: ([0-9a-f]{64})", text, "hash"), m["hash"], what + ": secret hash in the text")
    same(nanos(text), [m["amount"]], what + ": amount in the text")
    times = [epoch(x) for x in re.findall(STAMP, text)]
    if spent:
        expect(re.search("(?i)spent", text), "{}: the text of a spent contract is {!r}", what, text)
        same(times, [], what + ": times in the text")
        return
    expect(not re.search("(?i)spent", text), "{}: the text of an unspent contract is {!r}", what, text)
    same(times, [m["time"]], what + ": time of the refund in the text")
    ins = re.findall(r"\(in: ([^)]*)\)", text)
    if now >= m["time"]:
        expect(re.search("(?i)available since", text) and not ins, "{}: the refund is available already, but the text is {!r}", what, text)
    else:
        expect(not re.search("(?i)available since", text), "{}: the refund is not available yet, but the text is {!r}", what, text)
        same([secs(x) for x in ins], [m["time"] - now], what + ": time left in the text")


def ids_in(text):
    return set(re.findall(r"(?<![0-9a-f])[0-9a-f]{64}(?![0-9a-f])", text)), set(re.findall(r"(?<![0-9a-f])[0-9a-f]{78}(?![0-9a-f])", text))


def judge_refusal(x, l, m, who, op, args, oid):
    """is what the refusal x of operation op says true?"""
    fee = L.MIN_FEE[l.network]
    what = "%s by %s refused with %s" % (op, who, type(x).__name__)
    mine = {k.text for k in (W.K(WHO[who], 0), W.K(WHO[who], 1))}
    if isinstance(x, E.AtomicSwapContractNotFound):
        expect(m is None or oid != m["id"], "{}, but the contract exists", what)
        same(str(x.outputid), oid, what + ": identifier")
        expect(oid in str(x), "{}: identifier missing in {!r}", what, str(x))
        return "notfound"
    expect(m is not None, "{}, but there is no such contract", what)
    if isinstance(x, E.AtomicSwapInsufficientAmountError):
        expect(m["amount"] <= fee, "{}, but the amount is {}", what, m["amount"])
        same([B.nano(x.amount), B.nano(x.minimum_miner_fee)], [m["amount"], fee], what + ": amount and fee")
        return "insufficient"
    expect(isinstance(x, E.AtomicSwapContractError), "{}: {}", what, repr(x)[:200])
    judge_contract(x.contract, m, l.time, bool(m["by"]), what + ": contract")
    hexes, addrs = ids_in(str(x))
    if isinstance(x, E.AtomicSwapContractSpent):
        expect(m["by"], "{}, but the contract is unspent", what)
        if x.transaction is not None:
            same(str(x.transaction.id), m["by"], what + ": transaction")
            expect(m["by"] in hexes, "{}: transaction missing in {!r}", what, str(x))
        expect(hexes <= {m["by"]} and not addrs, "{}: {!r}", what, str(x))
        return "spent"
    expect(not m["by"], "{}, but what it says of a spent contract is {!r}", what, str(x))
    if isinstance(x, E.AtomicSwapInvalidSecret):
        expect(op == "redeem" and L.secret_hash(args["secret"]) != m["hash"], "{}, but the secret is right", what)
        expect(not hexes - {m["hash"]} and not addrs, "{}: {!r}", what, str(x))
        return "secret"
    if isinstance(x, E.AtomicSwapForbidden):
        role = {"redeem": "receiver", "refund": "sender"}.get(op)
        expect(role, "{}: no authorization is needed", what)
        early = op == "refund" and l.time < m["time"]
        foreign = m[role] not in mine
        expect(early or foreign, "{}, but it is the right wallet at the right time", what)
        times = [epoch(t) for t in re.findall(STAMP, str(x))]
        if addrs:
            same(addrs, {m[role]}, what + ": address in " + repr(str(x)))
            expect(foreign, "{}: the address is the wallet's own: {!r}", what, str(x))
        if times:
            same(times, [m["time"]], what + ": time in " + repr(str(x)))
            expect(early, "{}: it is late enough: {!r}", what, str(x))
        expect(addrs or times, "{}: no reason is given in {!r}", what, str(x))
        return "forbidden"
    expect(isinstance(x, E.AtomicSwapContractInvalid) and op == "verify", "{}", what)
    why = []
    if "amount" in args and args["amount"] != m["amount"]:
        why.append("amount")
    if "secret_hash" in args and args["secret_hash"] != m["hash"]:
        why.append("hash")
    left, least = max(0, m["time"] - l.time), max(0, args.get("min_refund_time", l.time) - l.time)
    if "min_refund_time" in args and (left < least or (not least and left)):
        why.append("time")
    if args.get("sender") and m["sender"] not in mine:
        why.append("sender")
    if args.get("receiver") and m["receiver"] not in mine:
        why.append("receiver")
    expect(why, "{}, but all that was asked for applies: {!r}", what, str(x))
    text = str(x)
    got = nanos(text)
    if got:
        expect("amount" in why, "{}: the amount is right: {!r}", what, text)
        same(got, [args["amount"], m["amount"]], what + ": amounts in " + repr(text))
    if hexes:
        expect("hash" in why, "{}: the hash is right: {!r}", what, text)
        h = re.findall(r"[0-9a-f]{64}", text)
        same(h, [args["secret_hash"], m["hash"]], what + ": hashes in " + repr(text))
    ds = [secs(d) for d in re.findall(r"(?<![\w/:])((?:\d+[dhms])+)(?!\w)", text)]
    ts = [epoch(t) for t in re.findall(STAMP, text)]
    if ds or ts or "refunded yet" in text:
        expect("time" in why, "{}: the time is right: {!r}", what, text)
        expect(ds in ([], [least], [least, left]), "{}: {} and {} seconds in {!r}", what, least, left, text)
        expect(not ts or (ts == [m["time"]] and l.time >= m["time"]), "{}: the refund time is {}, text {!r}", what, m["time"], text)
        expect("refunded yet" not in text or (left and not least), "{}: {!r}", what, text)
    for role in ("sender", "receiver"):
        if re.search("as " + role, text):
            expect(role in why, "{}: the wallet is the {}: {!r}", what, role, text)
    expect(got or hexes or ds or ts or re.search("refunded yet|as sender|as receiver", text), "{}: no reason is given in {!r}", what, text)
    return "invalid"


TRIES = [("verify", {}), ("verify", {"amount": 1}), ("verify", {"amount": -1}), ("verify", {"secret_hash": "12" * 32}), ("verify", {"secret_hash": SHASH}),
         ("verify", {"sender": True}), ("verify", {"receiver": True}), ("verify", {"sender": True, "receiver": True})]
TRIES += [("verify", {"min_refund_time": t}) for t in (-1, 0, 1, LOCK - 1, LOCK, LOCK + 1, LOCK + 86400 + 3661)]
TRIES += [("verify", {"amount": 1, "secret_hash": "12" * 32, "min_refund_time": LOCK + 5, "sender": True, "receiver": True})]
TRIES += [("redeem", {"secret": s}) for s in (SECRET, "5b" * 32, "5a" * 31 + "5b")] + [("refund", {})]


def may(l, m, who, op, secret):
    if m["by"] or m["amount"] <= L.MIN_FEE[l.network]:
        return False
    mine = {W.K(WHO[who], i).text for i in (0, 1)}
    if op == "redeem":
        return secret == SECRET and m["receiver"] in mine
    return l.time >= m["time"] and m["sender"] in mine


VARIANTS = {"plain": ("devnet", 9 * UNIT, 0), "second": ("standard", 3 * UNIT + 7, 1), "least": ("devnet", L.MIN_FEE["devnet"] - 3, 0), "more": ("testnet", L.MIN_FEE["testnet"] + 1, 0)}


@family
def swaps(h):
    """[variant, event...]"""
    net, amount, ki = VARIANTS[h[0]]
    l = L.Ledger(net)
    l.give([[100 * UNIT, ["uh", W.K(n).uh]] for n in (S, RCV, OUT)])
    ps = {k: W.Party(l, n, keys=2, network=net) for k, n in WHO.items()}
    sk, rk = W.K(S, ki), W.K(RCV, ki)
    cond = ["as", sk.uh, rk.uh, SHASH, L.T0 + LOCK]
    oid = l.give([[3, ["uh", W.K(OUT).uh]], [amount, cond]], mine=False)[1]
    m = {"id": oid, "amount": amount, "sender": sk.text, "receiver": rk.text, "hash": SHASH, "time": L.T0 + LOCK, "by": None, "cond": cond}
    kept = None
    for e in h[1:]:
        if e[0] == "mine":
            l.mine(dt=e[1])
        elif e[0] == "time":
            l.mine(dt=L.T0 + LOCK + e[1] - l.time)
        elif e[0] == "keep":
            kept = ps["O"].wallet.atomicswap.verify(oid)
            kept_at = l.time
        elif e[0] == "redeem":
            ps["R"].wallet.atomicswap.redeem(oid, SECRET)
            m["by"] = ps["R"].ex.ids[-1]
        else:
            ps["S"].wallet.atomicswap.refund(oid)
            m["by"] = ps["S"].ex.ids[-1]
    out = set()
    n = len(l.txs)
    for who, p in ps.items():
        for op, args in TRIES:
            a = dict(args)
            if "amount" in a:
                a["amount"] = amount + a["amount"]
            if "min_refund_time" in a:
                a["min_refund_time"] = L.T0 + a["min_refund_time"]
            for target in (oid, UNKNOWN):
                if target == UNKNOWN and len(args) > 1:
                    continue
                if target == oid and op != "verify" and may(l, m, who, op, a.get("secret")):
                    continue
                kw = dict(a)
                if "amount" in kw:
                    kw["amount"] = B.cur(kw["amount"])
                w = p.wallet.atomicswap
                try:
                    if op == "verify":
                        c = w.verify(target, **kw)
                    elif op == "redeem":
                        w.redeem(target, kw["secret"])
                    else:
                        w.refund(target)
                except (E.AtomicSwapContractError, E.AtomicSwapContractNotFound, E.AtomicSwapInsufficientAmountError) as x:
                    out.add(judge_refusal(x, l, m if target == oid else None, who, op, a, target))
                    continue
                except (ValueError, TypeError, E.CurrencyNegativeValue):
                    continue
                expect(op == "verify" and target == oid, "{} of {} by {} succeeded", op, target, who)
                judge_contract(c, m, l.time, bool(m["by"]), "the contract verified")
                out.add("verified")
    same(len(l.txs), n, "number of transactions afterwards")
    known = []
    if kept is not None:
        # a contract fetched once: verified again without asking the network
        judge_contract(kept, m, kept_at, False, "a contract kept")
        known.append((kept, kept_at, False))
    if m["by"]:
        try:
            ps["O"].wallet.atomicswap.verify(oid)
        except E.AtomicSwapContractSpent as x:
            known.append((x.contract, l.time, True))
    for c, at, spent in known:
        for target in (oid, UNKNOWN):
            for a in ({}, {"amount": amount + 1}, {"secret_hash": "12" * 32}, {"receiver": True}):
                kw = dict(a, amount=B.cur(a["amount"])) if "amount" in a else a
                try:
                    got = ps["O"].wallet.atomicswap.verify(target, contract=c, **kw)
                    expect(target == oid and not spent and not a, "verified: {} {}", target, a)
                    judge_contract(got, m, at, spent, "a contract kept and verified")
                except E.AtomicSwapContractSpent as x:
                    expect(spent, "a contract not known to be spent is refused as spent")
                    judge_contract(x.contract, m, at, True, "a contract kept and refused")
                    expect(x.transaction is None or str(x.transaction.id) == m["by"], "spent in {}", x.transaction)
                    out.add("kept spent")
                except E.AtomicSwapContractInvalid as x:
                    judge_contract(x.contract, m, at, spent, "a contract kept and refused")
                    hexes = ids_in(str(x))[0]
                    expect(target != oid or a, "a contract kept is refused: {!r}", str(x))
                    expect(hexes in (set(), {target, oid}) if target != oid else not hexes or hexes == {a.get("secret_hash"), m["hash"]}, "the refusal of {} for {} says {!r}", oid, target, str(x))
                    if target == oid and nanos(str(x)):
                        same(nanos(str(x)), [a.get("amount"), amount], "amounts in " + repr(str(x)))
                    out.add("kept invalid")
    state = json.dumps([h[0], l.time, bool(m["by"]) and [m["by"], l.confirmed(m["by"])], l.confirmed(l.outs[oid]["by"]), kept is not None and kept_at])
    en = [["mine", 1]] if l.pool() else []
    en += [["time", t] for t in (-86400 * 2, -3601, -1, 0, 1, 100000) if L.T0 + LOCK + t > l.time][:3]
    if kept is None and not m["by"]:
        en.append(["keep"])
    for who, op in (("R", "redeem"), ("S", "refund")):
        if may(l, m, who, op, SECRET):
            en.append([op])
    return Succ(state, en, sorted(out))


DELTAS = [1, 2, 59, 60, 61, 119, 120, 3599, 3600, 3601, 3660, 3661, 7199, 7200, 86399, 86400, 86401, 86460, 90000, 90061, 2 * 86400 - 1, 31 * 86400 + 5, 400 * 86400 + 59, 0, -1, -60, -86400, -100000]


@family
def contract(case):
    """the text of a contract: [seconds until the refund, amount, unspent, clock given, roles]"""
    d, amount, unspent, given, k = case
    now = 1549649728 if given else int(clock.time())
    cond = ["as", W.K(S, k).uh, W.K(RCV, k).uh, SHASH, now + d + (0 if given else 50000 if d > 0 else -50000)]
    o = B.cout([amount, cond], id=UNKNOWN)
    c = AtomicSwapContract(coinoutput=o, unspent=bool(unspent), **({"current_timestamp": now} if given else {}))
    m = {"id": UNKNOWN, "amount": amount, "sender": W.K(S, k).text, "receiver": W.K(RCV, k).text, "hash": SHASH, "time": cond[4], "cond": cond}
    if given:
        judge_contract(c, m, now, not unspent, "a contract")
    elif unspent:
        expect(bool(re.search("available since", repr(c))) == (d <= 0), "the text of a contract whose refund is possible in {} s: {!r}", cond[4] - now, repr(c))
    return [d > 0, unspent, given]


@family
def contract_refused(i):
    """a contract is made of an atomic swap output only"""
    u = ["uh", W.K(S).uh]
    cond = ["as", W.K(S).uh, W.K(RCV).uh, SHASH, L.T0]
    good = B.cout([9, cond], id=UNKNOWN)
    calls = [lambda: AtomicSwapContract(coinoutput=B.cout([9, u], id=UNKNOWN)), lambda: AtomicSwapContract(coinoutput=B.cout([9, ["nil"]], id=UNKNOWN)),
             lambda: AtomicSwapContract(coinoutput=B.cout([9, ["ms", [W.K(S).uh, W.K(RCV).uh], 1]], id=UNKNOWN)), lambda: AtomicSwapContract(coinoutput=None),
             lambda: AtomicSwapContract(coinoutput=B.cout([9, ["lt", 5, u]], id=UNKNOWN)), lambda: AtomicSwapContract(coinoutput=UNKNOWN),
             lambda: AtomicSwapContract(coinoutput=good, unspent="no"), lambda: AtomicSwapContract(coinoutput=good, current_timestamp="now"),
             lambda: AtomicSwapContract(coinoutput=good.condition)]
    try:
        c = calls[i]()
    except (TypeError, ValueError):
        return "refused"
    bad("made a contract of it: {!r}", repr(c)[:200])


def pool_of_contracts():
    a, b, c = W.K(S).uh, W.K(RCV).uh, W.K(OUT).uh
    for id in (UNKNOWN, "7b" * 31 + "7c"):
        for amount in (9, 10):
            for s, r in ((a, b), (b, a), (a, c)):
                for h in (SHASH, SHASH[:-1] + "%x" % (int(SHASH[-1], 16) ^ 1)):
                    for t in (L.T0, L.T0 + 1):
                        for u in (True, False):
                            yield [id, amount, s, r, h, t, u]


POOL = list(pool_of_contracts())


@family
def same_contract(case):
    """equality of contracts: [index of one, of the other]"""
    i, j = case
    mk = lambda s, now: AtomicSwapContract(coinoutput=B.cout([s[1], ["as", s[2], s[3], s[4], s[5]]], id=s[0]), unspent=s[6], current_timestamp=now)
    a, b = mk(POOL[i], L.T0), mk(POOL[j], L.T0)
    want = POOL[i] == POOL[j]
    for x, y in ((a, b), (b, a)):
        same([bool(x == y), bool(x != y)], [want, not want], "equality of two contracts")
    if want:
        same(bool(a == mk(POOL[j], L.T0 + 500)), True, "equality of a contract with itself, looked at later")
        for o in (None, POOL[i][0], B.cout([9, ["nil"]], id=UNKNOWN)):
            try:
                expect(not (a == o) and a != o, "a contract equals {!r}", o)
            except TypeError:
                pass
    return [want]


# --- amounts
@family
def amounts(case):
    """a refused amount: [text, form]"""
    text, form = case
    d = Decimal(text.replace("TFT", "").strip())
    v = [text, d, int(d) if d == d.to_integral_value() else None][form]
    if v is None or (form and "TFT" in text):
        return None
    _, digits, exp = d.as_tuple()
    while exp < 0 and (not any(digits) or digits[-1] == 0):
        digits, exp = digits[:-1], exp + 1
    places = max(0, -exp)
    try:
        Currency(value=v)
    except E.CurrencyNegativeValue as x:
        expect(d < 0 or (d == 0 and d.is_signed()), "refused as negative: {}", text)
        same([Decimal(x.value), Decimal(x.value).is_signed()], [d, True], "value of the refusal")
        expect(str(x.value) in str(x), "the value is missing in {!r}", str(x))
        return "negative"
    except E.CurrencyPrecisionOverflow as x:
        expect(places > 9, "refused as too precise: {}", text)
        same(Decimal(x.value), d, "value of the refusal")
        same(x.precision, places, "precision of the refusal")
        expect(str(x.value) in str(x), "the value is missing in {!r}", str(x))
        return "precision"
    expect(d >= 0 and places <= 9, "accepted: {}", text)
    return "accepted"


@family
def too_little(case):
    """a contract whose amount cannot pay for more than the fee: [network, amount, operation]"""
    net, amount, op = case
    l = L.Ledger(net)
    l.give([[100 * UNIT, ["uh", W.K(S).uh]]])
    p = W.Party(l, S, network=net)
    fee = L.MIN_FEE[net]
    a = p.wallet.atomicswap
    try:
        if op == "init":
            a.initiate(W.K(RCV).text, B.dec(amount))
        else:
            a.participate(W.K(RCV).text, B.dec(amount), SHASH)
    except E.AtomicSwapInsufficientAmountError as x:
        expect(amount <= fee, "an amount of {} is refused as not above {}", amount, fee)
        same([B.nano(x.amount), B.nano(x.minimum_miner_fee)], [amount, fee], "amount and fee of the refusal")
        nums = [int(Decimal(n) * UNIT) for n in re.findall(r"\d+(?:\.\d+)?", str(x))]
        same(sorted(nums), sorted([amount, fee]), "numbers in " + repr(str(x)))
        same(p.ex.posted, [], "submitted documents")
        return "refused"
    except ValueError:
        same(amount, 0, "refused amount")
        return "zero"
    expect(amount > fee, "an amount of {} is accepted", amount)
    return "accepted"


# --- 3Bots
@family
def bots(case):
    """[operation, what is asked for, expirations relative to the chain time of bots 3 and 4]"""
    op, ident, exps = case
    l = L.Ledger("devnet")
    l.give([[900 * UNIT, ["uh", W.K(S).uh]]])
    for i, e in zip((3, 4), exps):
        l.bots[i] = {"names": ["name%d" % i], "addrs": [["4", "0a00000%d" % i]], "pk": W.K(S, i - 3).pk, "exp": l.time + e}
    p = W.Party(l, S, keys=3)
    w = p.wallet.threebot
    ident = {"pk3": R.pk_text(W.K(S, 0).pk), "pk?": R.pk_text(W.K(OUT, 5).pk)}.get(ident, ident)
    known = {"3": 3, "name3": 3, R.pk_text(W.K(S, 0).pk): 3}.get(str(ident), 4 if str(ident) in ("4", "name4") else None)
    try:
        if op == "get":
            r = p.client.threebot.record_get(ident)
        elif op == "update":
            w.record_update(ident, names_to_add=["fresh"])
        elif op == "extend":
            w.record_update(ident, months=1)
        elif op == "to":
            w.name_transfer(4, ident, ["name4"])
        else:
            w.name_transfer(ident, 4, ["name3"])
    except E.ThreeBotNotFound as x:
        expect(known is None, "3Bot {} is not found", ident)
        same(str(x.identifier), str(ident), "identifier of the refusal")
        expect(str(ident) in str(x), "the identifier is missing in {!r}", str(x))
        return "notfound"
    except E.ThreeBotInactive as x:
        expect(op != "get" and op != "extend", "a 3Bot need not be active here: {}", x)
        inv = {"update": [known], "to": [4, known], "from": [known, 4]}[op]
        expect(x.identifier in inv, "{} is refused for 3Bot {}", op, x.identifier)
        e = exps[x.identifier - 3]
        expect(e <= 0, "3Bot {} is called inactive but expires in {} s", x.identifier, e)
        same(x.expiration, l.time + e, "expiration of the refusal")
        same([epoch(t) for t in re.findall(STAMP, str(x))], [l.time + e], "expiration in " + repr(str(x)))
        expect(re.search(r"\b%d\b" % x.identifier, str(x)), "the identifier is missing in {!r}", str(x))
        return "inactive"
    except (ValueError, TypeError):
        expect(known is None or op != "get", "a known identifier is refused")
        return None
    expect(known, "{} of an unknown 3Bot succeeded", op)
    if op == "get":
        same([r.identifier, r.expiration, list(map(str, r.names)), str(r.public_key)],
             [known, l.time + exps[known - 3], ["name%d" % known], R.pk_text(W.K(S, known - 3).pk)], "record")
        return "record"
    need = {"update": [known], "extend": [], "to": [4, known], "from": [known, 4]}[op]
    expect(all(exps[i - 3] > 0 for i in need), "{} succeeded though a 3Bot is inactive", op)
    return "done"


# --- addresses of others
@family
def addresses(case):
    """ERC20 operations on an address: [operation, whose, form]"""
    op, whose, form = case
    l = L.Ledger("devnet")
    l.give([[900 * UNIT, ["uh", W.K(S).uh]]])
    p = W.Party(l, S, keys=2)
    uh = {"own": W.K(S).uh, "own1": W.K(S, 1).uh, "next": W.K(S, 2).uh, "other": W.K(OUT).uh, "near": [1, ("%x" % (int(W.K(S).uh[1][0], 16) ^ 1)) + W.K(S).uh[1][1:]],
          "ms": [3, "ab" * 32]}[whose]
    a = R.uh_text(uh)
    if whose.startswith("own"):
        l.erc20[a] = 7
    v = a if form == "text" else UnlockHash.from_json(a)
    e = p.wallet.erc20
    try:
        if op == "register":
            e.address_register(v)
        else:
            info = e.address_get(v)
    except (E.ERC20RegistrationForbidden, E.AddressNotInWallet) as x:
        expect(not whose.startswith("own"), "an own address is refused: {}", x)
        same(str(x.address), a, "address of the refusal")
        same(ids_in(str(x))[1], {a}, "address in " + repr(str(x)))
        return "refused"
    except (ValueError, TypeError):
        expect(whose == "ms", "refused")
        return "invalid"
    expect(whose.startswith("own"), "{} of a foreign address succeeded", op)
    if op == "get":
        same(str(info.address_tft), a, "address of the answer")
    return "done"


# --- answers of explorers
def chain():
    l = L.Ledger("devnet", mint=["uh", W.K(S).uh])
    ids = l.give([[9 * UNIT, ["uh", W.K(S).uh]], [5 * UNIT, ["as", W.K(S).uh, W.K(RCV).uh, SHASH, L.T0 + LOCK]], [2 * UNIT, ["ms", [W.K(S).uh, W.K(RCV).uh], 2]]])
    l.bots[3] = {"names": ["name3"], "addrs": [], "pk": W.K(S).pk, "exp": l.time + 99}
    l.erc20[W.K(S).text] = 7
    l.mine(payouts=[(10 * UNIT, W.K(S).uh)])
    return l, ids


REQUESTS = {
    "info": lambda c, l, ids: c.blockchain_info_get(),
    "block": lambda c, l, ids: c.block_get(l.height),
    "blockid": lambda c, l, ids: c.block_get(l.tip()["id"]),
    "transaction": lambda c, l, ids: c.transaction_get(list(l.txs)[0]),
    "address": lambda c, l, ids: c.unlockhash_get(W.K(S).text),
    "output": lambda c, l, ids: c.coin_output_get(ids[0]),
    "mint": lambda c, l, ids: c.minter.condition_get(),
    "mintat": lambda c, l, ids: c.minter.condition_get(height=1),
    "bot": lambda c, l, ids: c.threebot.record_get(3),
    "botname": lambda c, l, ids: c.threebot.record_get("name3"),
    "erc20": lambda c, l, ids: c.erc20.address_get(W.K(S).text),
}


def paths(d, at=()):
    """every place in a document, outermost first"""
    yield at
    for k, v in (d.items() if isinstance(d, dict) else enumerate(d) if isinstance(d, list) else ()):
        yield from paths(v, at + (k,))


def values(d):
    yield d
    for v in (d.values() if isinstance(d, dict) else d if isinstance(d, list) else ()):
        yield from values(v)


def spoil(d, at, how):
    d = json.loads(json.dumps(d))
    if not at:
        return {"drop": None, "null": None, "number": 5, "list": [], "object": {}, "text": "x"}[how]
    o = d
    for k in at[:-1]:
        o = o[k]
    if how == "drop":
        if isinstance(o, list):
            o.pop(at[-1])
        else:
            del o[at[-1]]
    else:
        o[at[-1]] = {"null": None, "number": 5, "list": [], "object": {}, "text": "x"}[how]
    return d


@family
def answers(case):
    """an answer spoilt at one place: [request, number of the answer, place, how]; the refusal names what was asked and answered"""
    name, k, at, how = case
    l, ids = chain()
    ex = W.Explorer(l)
    from tfchain.TFChainClient import TFChainClient
    c = TFChainClient(explorer_client=ex, network_type="devnet")
    seen = []

    def tamper(endpoint, a):
        if len(seen) == k and a is not None:
            a = spoil(a, tuple(at), how)
        seen.append([endpoint, json.loads(json.dumps(a))])
        return a
    ex.tamper = tamper
    try:
        REQUESTS[name](c, l, ids)
    except E.ExplorerInvalidResponse as x:
        same(x.endpoint, seen[-1][0], "endpoint of the refusal")
        expect(seen[-1][0] in str(x), "the endpoint is missing in {!r}", str(x)[:200])
        if isinstance(seen[-1][1], dict):
            r = json.loads(json.dumps(x.response))
            parts = list(values(seen[-1][1]))
            expect(r in parts or (list(r) == ["response"] and r["response"] in parts), "the refusal names another answer than the one given: {}", r)
        return "invalid"
    except E.ExplorerNoContent as x:
        same(x.endpoint, seen[-1][0], "endpoint of the refusal")
        return "nothing"
    except E.ThreeBotNotFound as x:
        expect(seen[-1][1] is None, "not found: {}", seen[-1][1])
        return "nobot"
    return "accepted"


def answer_cases(ctx):
    for name, f in REQUESTS.items():
        l, ids = chain()
        from tfchain.TFChainClient import TFChainClient
        ex = W.Explorer(l)
        docs = []
        ex.tamper = lambda endpoint, a: docs.append(a) or a
        f(TFChainClient(explorer_client=ex, network_type="devnet"), l, ids)
        for k, d in enumerate(docs):
            for at in paths(json.loads(json.dumps(d))):
                for how in ("drop", "null", "number", "list", "object", "text"):
                    yield [name, k, list(at), how]


@family
def reports(case):
    """texts about the chain and an address: [blocks, outputs, multi-signature addresses]"""
    nb, no, nm = case
    l = L.Ledger("devnet")
    for i in range(no):
        l.give([[i + 1, ["uh", W.K(S).uh]]])
    for i in range(nm):
        l.give([[i + 1, ["ms", [W.K(S).uh, W.K(5 + i).uh], 1]]])
    for i in range(nb):
        l.mine(dt=3600 + i)
    c = W.client(l)
    info = c.blockchain_info_get()
    text = repr(info)
    same(ids_in(text)[0], {l.tip()["id"]}, "block in " + repr(text))
    same([epoch(t) for t in re.findall(STAMP, text)], [l.time], "time in " + repr(text))
    same(one(r"height (\d+)", text, "height"), str(l.height), "height in " + repr(text))
    same([str(info.blockid), info.height, info.timestamp], [l.tip()["id"], l.height, l.time], "chain")
    if no + nm:
        r = c.unlockhash_get(W.K(S).text)
        t2 = repr(r)
        same(ids_in(t2)[1], {W.K(S).text}, "address in " + repr(t2))
        nums = [int(x) for x in re.findall(r"(?<![0-9a-f])(\d+) ", t2)]
        same(nums[:2], [len(l.touching(W.K(S).uh)), nm], "numbers in " + repr(t2))
        b = repr(r.balance())
        same([epoch(t) for t in re.findall(STAMP, b)], [l.time], "time in " + repr(b))
        same(one(r"height (\d+)", b, "height"), str(l.height), "height in " + repr(b))
    return [nb, no, nm]


def run(ctx):
    T = ctx.thorough
    ctx.all(contract, [[d, a, u, g, k] for d in DELTAS for a in (1, 10 ** 8, 9 * UNIT, 123456789012345678) for u in (True, False) for g in (1, 0) for k in (0, 1)])
    ctx.all(contract_refused, range(9))
    ctx.all(same_contract, [[i, j] for i in range(len(POOL)) for j in range(len(POOL))] if T else
            [[i, j] for i in range(len(POOL)) for j in range(len(POOL)) if sum(x != y for x, y in zip(POOL[i], POOL[j])) <= 2], parallel=True, chunk=64)
    texts = [s + n + u for s in ("", "-", "+") for n in ("0", "1", "5", "0.0", "0.5", "10.000", "0.000000001", "0.0000000001", "0.00000000010", "1.1234567891", "1.12345678900", "12345678901234567890",
             "0.12345678912345678", "1.123456789000000000001", "1e-9", "1e-10", "15e-10", "1E+3", "100e-12", "1e-29", "1.5e-40", "1" + "0" * 30 + "." + "0" * 30 + "1") for u in ("", " TFT")]
    ctx.all(amounts, [[t, f] for t in texts for f in range(3)])
    ctx.all(too_little, [[n, a, o] for n in ("devnet", "testnet", "standard") for o in ("init", "part") for a in
                         (0, 1, 2, UNIT // 10 - 1, UNIT // 10, UNIT // 10 + 1, UNIT - 1, UNIT, UNIT + 1, 3 * UNIT)], parallel=True)
    ctx.all(bots, [[o, i, e] for o in ("get", "update", "extend", "from", "to") for i in (3, 4, 5, "name3", "name4", "nobody", "pk3", "pk?", 0, 2 ** 31)
                   for e in itertools.product((-1000, -1, 0, 1, 1000), repeat=2)], parallel=True, chunk=16)
    ctx.all(addresses, [[o, w, f] for o in ("register", "get") for w in ("own", "own1", "next", "other", "near", "ms") for f in ("text", "object")])
    ctx.all(answers, answer_cases(ctx), parallel=True, chunk=32)
    ctx.all(reports, [[b, o, m] for b in range(3) for o in range(4) for m in range(3)], parallel=True)
    for v in VARIANTS:
        ctx.bfs(swaps, [[v]], 9 if T else 6, parallel=True, chunk=4)
