"""C22: the ERC20 bridge.

accept: every small corruption of an address text, judged by its form, for the type and for the sending operations. derive, register,
known: addresses and registrations. sending: amounts around what can be funded. created: several creations in one balance. bridge:
breadth-first search over what two wallets do with creations, conversions, registrations and blocks."""
import itertools
import json
import re

import tfchain.errors as E
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types import transactions as T
from tfchain.types.ERC20 import ERC20Address

from mc import build as B
from mc import ops as O
from mc import world as W
from mc.core import Bad, Succ, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C22"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of corruptions, keys and amounts on the real code + explicit-state search over the histories of two wallets on a ledger"
RULE = "an evaluation judges one text, address, operation, balance or history; non-trivial when an acceptance, a document or an amount was compared"
ASSUMPTIONS = [
    "explorers report the ledger truthfully",
    "a prefix written 0X and the mixed-case check digits of Ethereum are not judged",
    "an ERC20Address made from nothing (None or an empty text) is the nil address; it is no recipient",
]
UNIT = L.UNIT
FEE = L.MIN_FEE["devnet"]
GOOD = "0x828de486adc50aa52dab52a2ec284bcac75be211"
FORM = re.compile(r"(0x)?[0-9a-fA-F]{40}\Z")
CHARS = [chr(c) for c in list(range(9, 14)) + list(range(32, 127))] + ["\0", "\x7f", "\u00a0", "\u0663", "\uff11", "\u00b2", "\u2028", "\U0001d7d8"]
CLEAN = (ValueError, TypeError, E.InsufficientFunds, E.CurrencyNegativeValue, E.CurrencyPrecisionOverflow)
ME = W.K(1)


def wallet(bal=50 * UNIT):
    l = L.Ledger("devnet")
    l.give([[bal, ["uh", ME.uh]]])
    return l, W.Party(l, 1, keys=2, network="devnet")


@family
def accept(text):
    if text[:2] == "0X":
        return None
    ok = FORM.match(text) is not None
    same(bool(ERC20Address.is_valid_value(text)), ok, "is_valid_value")
    if ok:
        a = ERC20Address(value=text)
        same(bytes(a.value).hex(), text[-40:].lower(), "address read from the text")
        same(str(a), "0x" + text[-40:].lower(), "text of the address")
        same(str(ERC20Address.from_json(text)), str(a), "address read from JSON")
    if not ok or len(text) == 40 or text[5] in "0fF":
        for via in ("erc20", "wallet"):
            l, p = wallet()
            send = p.wallet.erc20.coins_send if via == "erc20" else p.wallet.coins_send
            try:
                res = send(text, "3 TFT")
            except CLEAN as x:
                expect(not ok, "a well formed address is refused: {}", repr(x))
                same(p.ex.posted, [], "submitted documents")
                continue
            expect(ok, "sent to a malformed address")
            same([t["v"] for t in p.ex.posted], [208], "submitted documents")
            same([p.ex.posted[0]["addr"], p.ex.posted[0]["value"]], [text[-40:].lower(), 3 * UNIT], "recipient and value")
    return [ok, len(text)]


def texts(thorough):
    body = GOOD[2:]
    out = {GOOD, body, GOOD.upper().replace("X", "x"), body.upper(), "0x" + "0" * 40, "0x" + "f" * 40, "0x" + "F" * 40, "", "0x", "0", "x", "0x0x" + body[2:], "0x0x" + body, "00" + body, "0x" + body[:20]}
    for base in (GOOD, body):
        n = len(base)
        for i in range(n):
            for c in CHARS:
                out.add(base[:i] + c + base[i + 1:])
            out.add(base[:i] + base[i + 1:])
            out.add(base[:i])
        for i in range(n + 1):
            for c in CHARS if thorough else " \t\n_+-0aGx":
                out.add(base[:i] + c + base[i:])
        for i in range(2, n):
            for c in ("_", " ", "+", "-"):
                for d in ("_", " ", "0"):
                    out.add(base[:i] + c + d + base[i + 2:])          # same length, two characters replaced
                    out.add(base[:i] + c + d + base[i:])
        if thorough:
            for i, j in itertools.combinations(range(n), 2):
                for c, d in (("_", "_"), (" ", " "), ("g", "0"), ("+", "a"), ("\n", "f")):
                    out.add(base[:i] + c + base[i + 1:j] + d + base[j + 1:])
    for k in range(0, 90):
        out.add("0x" + "a" * k)
        out.add("a" * k)
    return sorted(out)


@family
def accept_other(case):
    """[kind, size]: recipients that are no text"""
    kind, n = case
    v = {"bytes": bytes(range(1, n + 1)), "bytearray": bytearray(range(1, n + 1)), "address": None, "none": None, "int": n, "list": [GOOD] * n, "float": 1.5, "bool": True,
         "tft": UnlockHash.from_json(W.K(2).text), "tfttext": W.K(2).text}[kind]
    if kind == "address":
        v = ERC20Address(value=bytes(range(1, n + 1))) if n == 20 else ERC20Address()
    ok = kind in ("bytes", "bytearray", "address") and n == 20
    if kind != "address" or n == 20:
        same(bool(ERC20Address.is_valid_value(v)), ok, "is_valid_value")
    l, p = wallet()
    try:
        res = p.wallet.erc20.coins_send(v, "3 TFT")
    except CLEAN as x:
        expect(not ok, "a well formed address is refused: {}", repr(x))
        same(p.ex.posted, [], "submitted documents")
        return "refused"
    if kind == "address" and n != 20:
        return None
    expect(ok, "sent to something that is no ERC20 address")
    same([p.ex.posted[0]["v"], p.ex.posted[0]["addr"], p.ex.posted[0]["value"]], [208, bytes(range(1, n + 1)).hex(), 3 * UNIT], "document")
    return "sent"


@family
def derive(u):
    """[type, hash]"""
    a = ERC20Address.from_unlockhash(B.uh(u))
    same(bytes(a.value).hex(), R.erc20_of(u), "derived address")
    expect(ERC20Address.is_valid_value(a) and ERC20Address.is_valid_value(str(a)), "the derived address is not valid")
    if u[0] == 1:
        pass
    return ["derived"]


# --- registrations
@family
def register(case):
    """{keys, scan, value: [kind, index], balance, src, ref}"""
    c = case
    l = L.Ledger("devnet")
    l.give([[c.get("bal", 50 * UNIT), ["uh", ME.uh]], [3 * UNIT, ["ms", [ME.uh, W.K(2).uh], 1]]])
    p = W.Party(l, 1, keys=c["keys"], network="devnet")
    w = p.wallet
    n = c["keys"]
    kind, i = c["value"]
    want = None      # index of the key, or the error
    if kind == "none":
        v, want = None, n
    elif kind == "index":
        v, want = i, i if 0 <= i < n else ValueError
    elif kind in ("text", "uh"):
        v = W.K(1, i).text
        want = i if i < n else E.ERC20RegistrationForbidden
    elif kind == "other":
        v, want = W.K(2, i).text, E.ERC20RegistrationForbidden
    elif kind == "multi":
        v, want = R.uh_text(R.cond_uh(["ms", [ME.uh, W.K(2).uh], 1])), E.ERC20RegistrationForbidden
    elif kind == "bad":
        v, want = [ME.text[:-1] + ("0" if ME.text[-1] != "0" else "1"), "", "zz", ME.text[:-2], ME.text + "00", 1.0, True, [], ME.text.encode(), GOOD][i], (ValueError, TypeError)
    if kind == "uh":
        v = UnlockHash.from_json(v)
    if c.get("bal", 50 * UNIT) < L.REG_FEE + FEE and isinstance(want, int):
        want = E.InsufficientFunds
    kw = {}
    if c.get("ref"):
        kw["refund"] = W.K(1, 1).text
    try:
        res = w.erc20.address_register(v, **kw) if not (v is None and c.get("bare")) else w.erc20.address_register(**kw)
    except Exception as x:
        if isinstance(x, Bad):
            raise
        expect(not isinstance(want, int) and isinstance(x, want), "refused with {} but wanted {}", repr(x), want)
        same(p.ex.posted, [], "submitted documents")
        if isinstance(x, E.ERC20RegistrationForbidden):
            same(str(x.address), str(v), "address named by the refusal")
        return ["refused", type(x).__name__]
    expect(isinstance(want, int), "registered {} but wanted {}", v, want)
    k = W.K(1, want)
    same(len(p.ex.posted), 1, "number of submitted documents")
    t = p.ex.posted[0]
    same([t["v"], t["pk"], t["regfee"], t["fee"]], [210, k.pk, L.REG_FEE, FEE], "document")
    expect(L.verifies(k.pk, X.digest(t, [["raw", X.REGISTRATION.hex()]]), t["sig"]), "not signed by the registered key")
    ins = sum(l.outs[i]["value"] for i, _ in t["cin"])
    same(ins - sum(o[0] for o in X.couts(t)), L.REG_FEE + FEE, "what the registration costs")
    doc = json.loads(json.dumps(res.transaction.json()))["data"]
    same([doc["tftaddress"], doc["erc20address"]], [k.text, "0x" + R.erc20_of(k.uh)], "addresses in the document")
    expect(res.submitted, "not reported as submitted")
    # once the chain knows the address it is found, under that address only
    l.mine()
    l.erc20[k.text] = 0
    info = w.erc20.address_get(k.text)
    same([str(info.address_tft), str(info.address_erc20), info.confirmations], [k.text, "0x" + R.erc20_of(k.uh), 0], "registration")
    same([str(x.address_tft) for x in w.erc20.addresses_get()], [k.text], "registered addresses")
    return ["registered", want]


def register_cases():
    for n in (1, 2, 4):
        b = {"keys": n}
        for bare in (True, False):
            yield dict(b, value=["none", 0], bare=bare)
        for i in range(-2, n + 2):
            yield dict(b, value=["index", i])
        for i in range(n + 1):
            yield dict(b, value=["text", i])
            yield dict(b, value=["uh", i])
        for i in range(2):
            yield dict(b, value=["other", i])
        yield dict(b, value=["multi", 0])
        for i in range(10):
            yield dict(b, value=["bad", i])
        for bal in (1, FEE, L.REG_FEE - 1, L.REG_FEE, L.REG_FEE + FEE - 1, L.REG_FEE + FEE, L.REG_FEE + FEE + 1):
            for v in (["none", 0], ["index", 0], ["text", n - 1]):
                yield dict(b, value=v, bal=bal)
                if n > 1:
                    yield dict(b, value=v, bal=bal, ref=1)


@family
def regfee(case):
    """[fee, by]: the registration fee is 10 TFT, a document or a value that says something else is refused"""
    fee, by = case
    t = {"v": 210, "pk": ME.pk, "sig": "ab" * 64, "regfee": L.REG_FEE, "fee": FEE, "cin": [], "refund": None}
    ok = fee == L.REG_FEE
    if by == "set":
        o = T.erc20_address_registration_new()
        try:
            o.registration_fee = B.cur(fee)
        except ValueError:
            expect(not ok, "the registration fee of 10 TFT is refused")
        else:
            expect(ok, "a registration fee of {} is taken", fee)
        same(int(o.registration_fee.json()), L.REG_FEE, "registration fee")
        return [by, ok]
    doc = X.js(t)
    doc["data"]["regfee"] = str(fee)
    try:
        o = T.from_json(json.dumps(doc))
    except (ValueError, E.ExplorerInvalidResponse):
        expect(not ok, "a document with the registration fee of 10 TFT is refused")
        return [by, ok]
    expect(ok, "a document with a registration fee of {} is read", fee)
    same([int(o.registration_fee.json()), o.json()], [L.REG_FEE, doc], "registration fee of the document")
    return [by, ok]


@family
def known(case):
    """[keys, registered indices, foreign too?, form]: what the wallet tells about registered addresses"""
    n, reg, foreign, form = case
    l = L.Ledger("devnet")
    l.give([[UNIT, ["uh", W.K(1, i).uh]] for i in range(n) if i % 2 == 0])
    for j, i in enumerate(reg):
        l.erc20[W.K(1, i).text] = 10 * j
    if foreign:
        l.erc20[W.K(2, 0).text] = 7
    w = W.Party(l, 1, keys=n, network="devnet").wallet
    same([[str(x.address_tft), str(x.address_erc20), x.confirmations] for x in w.erc20.addresses_get()],
         [[W.K(1, i).text, "0x" + R.erc20_of(W.K(1, i).uh), l.erc20[W.K(1, i).text]] for i in sorted(reg)], "registered addresses")
    for i in range(-1, n + 1):
        v = [i, W.K(1, max(i, 0)).text, UnlockHash.from_json(W.K(1, max(i, 0)).text)][form]
        if form and i < 0:
            v, i = None, 0
        want = ValueError if form == 0 and not 0 <= i < n else E.AddressNotInWallet if i >= n else E.ExplorerNoContent if i not in reg else None
        try:
            x = w.erc20.address_get(v) if v is not None else w.erc20.address_get()
        except (E.ExplorerNoContent, E.AddressNotInWallet, ValueError) as e:
            expect(want and isinstance(e, want), "address {}: {} instead of {}", i, repr(e), want)
            continue
        expect(want is None, "address {} is reported as registered", i)
        same([str(x.address_tft), str(x.address_erc20), x.confirmations], [W.K(1, i).text, "0x" + R.erc20_of(W.K(1, i).uh), l.erc20[W.K(1, i).text]], "registration")
    try:
        w.erc20.address_get(W.K(2, 0).text)
    except E.AddressNotInWallet as x:
        same(str(x.address), W.K(2, 0).text, "address named by the refusal")
    else:
        bad("a foreign address is looked up")
    return [len(reg)]


# --- sending
@family
def sending(case):
    return O.run(case, "value")


def sending_cases(ctx):
    for via in (None, "send"):
        for bal in ([[50 * UNIT, "a", "c"]], [[5 * UNIT, "a", "c"], [7 * UNIT, "b", "c"]], [[5 * UNIT, "a", "c"], [7 * UNIT, "b", "u"]], [[9 * UNIT, "m", "c"], [5 * UNIT, "a", "c"]]):
            tot = sum(v for v, w, s in bal if w in "ab")
            for n in (-1, 0, 1, UNIT, 4 * UNIT - 1, 4 * UNIT, 4 * UNIT + 1, tot - FEE - 1, tot - FEE, tot - FEE + 1, tot, tot + UNIT):
                for form in (0, 1, 2) if n >= 0 else (0,):
                    for src in (None, "a", "b"):
                        for ref in (None, ["uh", O.U[1]], ["ms", [O.U[0], O.U[2]], 1]):
                            for addr in ("ab" * 20, "00" * 19 + "01") if ref is None else ("ab" * 20,):
                                yield {"bal": bal, "op": "erc", "a": {"amount": n, "addr": addr, "via": via, "form": form}, "src": src, "ref": ref}


@family
def extras(case):
    """[lock?, data?]: a conversion cannot be locked nor carry data"""
    lock, data = case
    l, p = wallet()
    kw = {}
    if lock:
        kw["lock"] = lock
    if data:
        kw["data"] = data
    try:
        p.wallet.coins_send(GOOD, "3 TFT", **kw)
    except ValueError:
        expect(kw, "refused")
        same(p.ex.posted, [], "submitted documents")
        return "refused"
    expect(not kw, "a conversion with a lock or data was carried out without it")
    return "sent"


# --- coins created from ERC20
@family
def created(case):
    """[[key, value, confirmed?]...]: the outputs of the creations, and a transaction that spends all of them"""
    l = L.Ledger("devnet")
    l.give([[1, ["uh", W.K(2).uh]]])
    ids = []
    for j, (k, v, conf) in enumerate(case):
        t = {"v": 209, "uh": W.K(1, k).uh, "value": v, "fee": FEE, "blockid": L.hid("block"), "txid": L.hid("tx", j)}
        i = l.submit(t)
        ids.append(l.txs[i]["ids"][0])
        same(ids[-1], X.coin_id(t, 0), "harness")
        if conf:
            l.mine([i])
    p = W.Party(l, 1, keys=2, network="devnet")
    want = {"available": {}, "unconfirmed": {}}
    for i, (k, v, conf) in zip(ids, case):
        want["available" if conf else "unconfirmed"][i] = v
        co, tx, spent = p.client.coin_output_get(i)
        same([str(co.id), B.nano(co.value), str(co.condition.unlockhash)], [i, v, W.K(1, k).text], "created output")
        expect(spent is None, "the output is spent")
        same([len(tx.coin_outputs), str(tx.coin_outputid_new(0)), str(tx.coin_outputs[0].id)], [1, i, i], "outputs of the creation")
    b = p.wallet.balance
    o = W.outputs(b)
    same({k: o[k] for k in want}, want, "outputs of the balance")
    a = W.amounts(b)
    same([a["available"], a["unconfirmed"]], [sum(want["available"].values()), sum(want["unconfirmed"].values())], "amounts")
    tot = sum(v for _, v, _ in case)
    conf = sum(want["available"].values())
    if tot > FEE:
        res = p.wallet.coins_send(W.K(2).text, B.cur(tot - FEE))
        same(sorted(x for x, _ in p.ex.posted[0]["cin"]), sorted(ids), "outputs spent")
        expect(res.submitted, "not submitted")
        o = W.outputs(p.wallet.balance)
        same([o["available"], o["unconfirmed"]], [{}, {}], "outputs left")
    return [len(case), bool(want["unconfirmed"])]


# --- histories
@family
def bridge(h):
    l = L.Ledger("devnet")
    l.give([[30 * UNIT, ["uh", W.K(1, 0).uh]], [30 * UNIT, ["uh", W.K(2, 0).uh]], [12 * UNIT, ["uh", W.K(1, 1).uh]]])
    ps = {k: W.Party(l, n, keys=2, network="devnet") for k, n in (("A", 1), ("B", 2))}
    burned = {"A": 0, "B": 0}
    regs = []
    note = None
    for j, e in enumerate(h):
        op = e[0]
        if op == "mine":
            todo = [l.txs[i]["t"] for i in l.pool()]
            l.mine()
            for t in todo:
                if t["v"] == 210:
                    l.erc20[R.uh_text(R.pk_uh(t["pk"]))] = 0
            continue
        who = e[1]
        p, w = ps[who], ps[who].wallet
        keys = [W.K(p.n, i) for i in range(2)]
        n = len(p.ex.posted)
        if op == "in":
            l.submit({"v": 209, "uh": keys[e[2]].uh, "value": 5 * UNIT, "fee": FEE, "blockid": L.hid("block"), "txid": L.hid("bridge", j)})
            continue
        views = [l.view(k.uh) for k in keys]
        conf, unc = sum(sum(v["available"].values()) for v in views), sum(sum(v["unconfirmed"].values()) for v in views)
        cost = {"out": e[2] * UNIT if op == "out" else 0, "reg": L.REG_FEE, "all": 0, "send": 4 * UNIT}[op]
        try:
            if op == "out":
                res = w.erc20.coins_send(GOOD, "%d TFT" % e[2])
            elif op == "reg":
                res = w.erc20.address_register(e[2])
            elif op == "send":
                res = w.coins_send(W.K(3 - p.n, 0).text, "4 TFT")
        except E.InsufficientFunds:
            same(p.ex.posted[n:], [], "submitted documents")
            expect(conf + unc < cost + FEE, "insufficient funds with {} for {}", conf + unc, cost)
            note = "insufficient"
            continue
        expect(conf + unc >= cost + FEE, "funded {} from {}", cost, conf + unc)
        expect(res.submitted, "not submitted")
        t = p.ex.posted[-1]
        same(len(p.ex.posted), n + 1, "number of submitted documents")
        ins = sum(l.outs[i]["value"] for i, _ in t["cin"])
        outs = sum(o[0] for o in X.couts(t))
        same(t["v"], {"out": 208, "reg": 210, "send": 1}[op], "version")
        same(ins - outs, FEE + (cost if op != "send" else 0), "what is destroyed")
        if op == "out":
            same([t["addr"], t["value"]], [GOOD[2:], cost], "recipient and value")
        if op == "reg":
            same(t["pk"], keys[e[2]].pk, "registered key")
            expect(L.verifies(t["pk"], X.digest(t, [["raw", X.REGISTRATION.hex()]]), t["sig"]), "not signed by the registered key")
            regs.append([who, e[2]])
    for who, p in ps.items():
        keys = [W.K(p.n, i) for i in range(2)]
        views = [l.view(k.uh) for k in keys]
        want = {b: {i: v for x in views for i, v in x[b].items()} for b in ("available", "unconfirmed")}
        o = W.outputs(p.wallet.balance)
        same({b: o[b] for b in want}, want, "balance of " + who)
        same([str(x.address_erc20) for x in p.wallet.erc20.addresses_get()], ["0x" + R.erc20_of(k.uh) for k in keys if k.text in l.erc20], "registered addresses of " + who)
    state = json.dumps([[[sorted(l.view(W.K(n, i).uh)[b].values()) for b in ("available", "unconfirmed")] for n in (1, 2) for i in (0, 1)], sorted(l.erc20), len(l.pool()),
                        sorted(l.txs[i]["t"]["v"] for i in l.pool()), note], sort_keys=True)
    en = [["mine"]] if l.pool() else []
    for who in ps:
        en += [["in", who, 0], ["in", who, 1], ["out", who, 7], ["out", who, 29], ["reg", who, 0], ["reg", who, 1], ["send", who]]
    return Succ(state, en, [note, len(regs), len(l.erc20)])


def run(ctx):
    ctx.all(regfee, [[f, by] for f in (1, 5, UNIT, L.REG_FEE - 1, L.REG_FEE, L.REG_FEE + 1, 11 * UNIT, 20 * UNIT, 10 * L.REG_FEE, L.REG_FEE + (1 << 64)) for by in ("set", "doc")])
    words = texts(ctx.thorough)
    ctx.all(accept, words, parallel=True, chunk=64)
    ctx.all(accept_other, [[k, n] for k in ("bytes", "bytearray", "address", "int", "list") for n in (0, 1, 19, 20, 21, 32, 40)] + [[k, 0] for k in ("none", "float", "bool", "tft", "tfttext")])
    ctx.all(derive, [[t, h] for t in (1, 2, 3) for h in ["%02x" % b * 32 for b in range(256)] + [L.hid("u", i) for i in range(64)]] + [W.K(n, i).uh for n in range(1, 6) for i in range(6)],
            parallel=True, chunk=64)
    ctx.all(register, register_cases(), parallel=True, chunk=8)
    ctx.all(known, [[n, list(r), f, form] for n in (1, 2, 3, 4) for k in range(n + 1) for r in itertools.combinations(range(n), k) for f in (0, 1) for form in range(3)], parallel=True, chunk=16)
    ctx.all(sending, sending_cases(ctx), parallel=True, chunk=32)
    ctx.all(extras, [[l, d] for l in (None, 5, L.T0 + 10) for d in (None, "text", b"\0")])
    ctx.all(created, [list(c) for n in range(1, 5 if ctx.thorough else 4) for c in itertools.product([[0, 5 * UNIT, 1], [0, 5 * UNIT, 0], [1, 5 * UNIT, 1], [1, 7, 1], [0, 1, 0]], repeat=n)],
            parallel=True, chunk=16)
    ctx.bfs(bridge, [[]], 5 if ctx.thorough else 4, parallel=True, chunk=8)
