"""C25: looking at something changes nothing, and objects do not influence one another."""
import copy
import inspect
import itertools
import json
import threading

import tfchain.TFChainClient
from tfchain.TFChainWallet import TFChainWallet
from tfchain.types import ConditionTypes as CT
from tfchain.types import FulfillmentTypes as FT
from tfchain.types import transactions as T
from tfchain.types.ERC20 import ERC20Address, ERC20Hash
from tfchain.types.PrimitiveTypes import BinaryData, Currency, Hash

from mc import build as B
from mc import changes
from mc.menu import MENU, party, play
from mc import ops as O
from mc import txnspec as TS
from mc import world as W
from mc.core import bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive enumeration of reading sequences (every ordered pair of readings adjacent on one object) and of interleavings of the "
             "operations of two wallets (in threads: every schedule at the granularity of explorer requests up to a number of preemptions); oracle: the same reading of a fresh object, the same operations carried out alone")
RULE = ("transactions of every version, conditions, fulfillments, balances, wallets and explorer answers x all ordered pairs of readings; every single change of a transaction next to a "
        "second object made from the same document; all interleavings of short operation scripts of two wallets on different networks, of the same and of "
        "different seeds; two wallets in two threads, each schedule of their requests with up to 1 (thorough: 2) preemptions. Non-trivial: an answer was compared")
ASSUMPTIONS = ["mint transactions draw a random nonce: it and the signatures over it are left out of the comparison",
               "parts a caller hands to several objects are his own affair (the Currency given to a CoinOutput is kept)"]


def text(v):
    """a reading as plain data"""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [text(x) for x in v]
    if isinstance(v, dict):
        return sorted([str(k), text(x)] for k, x in v.items())
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if hasattr(v, "json"):
        return json.dumps(v.json(), sort_keys=True)
    return str(v)


def answer(f, o):
    try:
        return text(f(o))
    except (ValueError, TypeError, IndexError, KeyError, tfchain.errors.ExplorerError) as e:
        return ["refused", type(e).__name__]


def covering(n):
    """a walk over range(n) in which every ordered pair, (i, i) included, is adjacent"""
    out = [0]
    for i in range(n):
        for j in range(n):
            if out[-1] != i:
                out.append(i)
            out.append(j)
    return out


def walk(make, readings, what):
    """every ordered pair of readings on one object, each compared with the reading of a fresh one"""
    want = [answer(f, make()) for _, f in readings]
    o = make()
    last = None
    for i in covering(len(readings)):
        same(answer(readings[i][1], o), want[i], "%s: %s after %s" % (what, readings[i][0], last))
        last = readings[i][0]
    return want


def tampered(j):
    """everything inside a JSON value is replaced or removed"""
    if isinstance(j, dict):
        for k in list(j):
            tampered(j[k])
            del j[k]
    elif isinstance(j, list):
        for x in j:
            tampered(x)
        j.clear()


def json_given_away(o):
    tampered(o.json())
    return o.json()


def requests(o):
    return sorted([str(r.wallet_address), r.fulfilled, text(r.input_hash_new(B.pk(TS.K[0])).value)] for r in o.signature_requests_new())


TX = [("json", lambda o: o.json()), ("json after the given one was torn", json_given_away), ("binary form", lambda o: o.binary_encode()),
      ("digest 0", lambda o: o.signature_hash_get(0)), ("digest 1", lambda o: o.signature_hash_get(1)),
      ("coin output id", lambda o: o.coin_outputid_new(0).value), ("last coin output id", lambda o: o.coin_outputid_new(len(o.coin_outputs) - 1).value),
      ("stake output id", lambda o: o.blockstake_outputid_new(0).value), ("complete", lambda o: o.is_fulfilled()), ("requests", requests), ("text", str),
      ("repr", repr), ("same as itself", lambda o: o == o), ("id", lambda o: o.id), ("fees", lambda o: [str(x) for x in o.miner_fees]), ("data", lambda o: text(getattr(o.data, "value", o.data))),
      ("bot fees", lambda o: str(o.required_bot_fees) if hasattr(o, "required_bot_fees") else None),
      ("inputs", lambda o: [[str(i.parentid), i.is_fulfilled(), json.dumps(i.json(), sort_keys=True), str(i.parent_output.value)] for i in list(o.coin_inputs) + list(o.blockstake_inputs)]),
      ("outputs", lambda o: [[str(i.value), str(i.condition.unlockhash), str(i.condition.lock), str(i.id)] for i in list(o.coin_outputs) + list(o.blockstake_outputs)]),
      ("version", lambda o: [int(o.version), o.height, o.unconfirmed])]


PARENT = {"ss": ["uh", TS.U[0]], "ms": ["ms", [TS.U[0], TS.U[1]], 2], "as": ["as", TS.U[0], TS.U[2], R.secret_hash("5a" * 32) if hasattr(R, "secret_hash") else TS.H[5], 1549649728]}


def tx_of(t, route, parents):
    o = B.txn(t, route)
    if parents:
        for i in o.coin_inputs:
            k = {1: "ss", 2: "as", 3: "ms"}[i.fulfillment.type]
            i.parent_output = B.cout([5, PARENT[k]], id=i.parentid)
        for i in o.blockstake_inputs:
            k = {1: "ss", 2: "as", 3: "ms"}[i.fulfillment.type]
            i.parent_output = B.bout([5, PARENT[k]], id=i.parentid)
        if t["v"] in (128, 129):
            o.parent_mint_condition = B.cond(PARENT[t["mf"][0]])
    return o


@family
def transaction(case):
    """[spec, route, parents known]"""
    t, route, parents = case
    return walk(lambda: tx_of(t, route, parents), TX, "transaction v%d" % t["v"])


COND = [("json", lambda o: o.json()), ("json after the given one was torn", json_given_away), ("rivbin", lambda o: B.enc("riv", o)), ("siabin", lambda o: B.enc("sia", o)),
        ("address", lambda o: str(o.unlockhash)), ("lock", lambda o: [int(o.lock), str(o.lock), o.lock.locked_check(600, 10 ** 9)]), ("inner", lambda o: o.unwrap().json()),
        ("type", lambda o: o.type), ("parties", lambda o: [str(x) for x in getattr(o, "unlockhashes", [])])]
FF = [("json", lambda o: o.json()), ("json after the given one was torn", json_given_away), ("rivbin", lambda o: B.enc("riv", o)), ("siabin", lambda o: B.enc("sia", o)), ("type", lambda o: o.type)]


@family
def piece(case):
    """[kind, spec]: a condition, or a fulfillment under a condition"""
    kind, spec = case[:2]
    if kind == "cond":
        return walk(lambda: B.cond(spec), COND, "condition")
    c = B.cond(case[2])
    rs = FF + [("complete", lambda o: o.is_fulfilled(c)), ("requests", lambda o: [str(r.wallet_address) for r in o.signature_requests_new(lambda *a: b"\x05" * 32, c)]), ("condition", lambda o: c.json())]
    return walk(lambda: B.ff(spec), rs, "fulfillment")


@family
def document(case):
    """a document is read twice, one of the objects changed in every way: the document and the other object keep what they are"""
    t = case[0]
    doc = X.chain_js(t)
    before = json.dumps(doc, sort_keys=True)
    a, b = T.from_json(doc), T.from_json(doc)
    same(json.dumps(doc, sort_keys=True), before, "the document after reading it")
    want = [answer(f, b) for _, f in TX]
    n = 0
    for label, _, m in changes.mutations(t):
        for way in ("set", "inside"):
            a = T.from_json(doc)
            try:
                done = B.assign(a, t, m, way)
            except (ValueError, TypeError):
                done = True
            if not done:
                continue
            n += 1
            for (name, f), w in zip(TX, want):
                same(answer(f, b), w, "%s of the other object after %s (%s)" % (name, label, way))
            same(json.dumps(doc, sort_keys=True), before, "the document after changing an object read from it")
    return n or None


VALUES = {"data": (BinaryData, {}, 5), "base64": (BinaryData, {"strencoding": "base64"}, 83), "prefixed": (BinaryData, {"strencoding": "hexprefix"}, 20), "fixed": (BinaryData, {"fixed_size": 8}, 8), "sized": (BinaryData, {"fixed_size": 0}, 9),
          "hash": (Hash, {}, 32), "secret": (CT.AtomicSwapSecret, {}, 32), "secret hash": (CT.AtomicSwapSecretHash, {}, 32), "signature": (FT.ED25519Signature, {}, 64), "erc20": (ERC20Address, {}, 20), "erc20 hash": (ERC20Hash, {}, 32)}
TOUCH = [("given changed", lambda g, l: g.__setitem__(0, g[0] ^ 1)), ("given emptied", lambda g, l: g.clear()), ("first assigned", lambda g, l: setattr(l[0], "value", bytes(len(g) or len(l[0].value)))),
         ("second assigned", lambda g, l: setattr(l[1], "value", b"\x01" * len(l[1].value))), ("third assigned", lambda g, l: setattr(l[2], "value", b"\x02" * len(l[2].value))),
         ("first bytes changed", lambda g, l: l[0].value.__setitem__(-1, 7)), ("second bytes changed", lambda g, l: l[1].value.__setitem__(-1, 8)), ("third bytes changed", lambda g, l: l[2].value.__setitem__(-1, 9)),
         ("fourth assigned", lambda g, l: setattr(l[3], "value", b"\x03" * len(l[3].value))), ("fourth bytes changed", lambda g, l: l[3].value.__setitem__(-1, 4))]
WHOSE = {"given": (), "first": (0,), "second": (1,), "third": (2,), "fourth": (3,)}


@family
def copies(case):
    """[kind, touches]: values made from one another, or from the same bytes, keep their own"""
    cls, kw, n = VALUES[case[0]]
    g = bytearray(range(1, n + 1))
    a = cls(value=g, **kw)
    l = [a, cls(value=a, **kw), cls(value=a.value, **kw), cls(value=g, **kw)]
    read = [lambda o: o.json(), str, lambda o: bytes(o.value), lambda o: B.enc("riv", o), lambda o: B.enc("sia", o)]
    for i in case[1]:
        name, f = TOUCH[i]
        before = [[answer(r, o) for r in read] for o in l]
        if name.startswith("given") and not g:
            continue
        f(g, l)
        for j, o in enumerate(l):
            if j not in WHOSE[name.split()[0]]:
                same([answer(r, o) for r in read], before[j], "%s %d after %s" % (case[0], j, name))
    return case[0]


@family
def given(case):
    """[spec, route]: bytes handed to a transaction or its parts remain the caller's"""
    t, route = case
    n = 0
    def parts(o):
        yield "transaction", o
        for k in ("coin_inputs", "blockstake_inputs"):
            for i in getattr(o, k)[:2]:
                yield k, i
                yield k + " fulfillment", i.fulfillment
        if t["v"] in (128, 129):
            yield "mint fulfillment", o.mint_fulfillment
    for at in range(len(list(parts(tx_of(t, route, False))))):
        what, p = list(parts(tx_of(t, route, False)))[at]
        for name in dir(type(p)):
            d = inspect.getattr_static(type(p), name)
            if name.startswith("_") or not isinstance(d, property) or d.fset is None:
                continue
            for size in (8, 20, 32, 64, 83):
                o = tx_of(t, route, False)
                p = list(parts(o))[at][1]
                g = bytearray(range(5, 5 + size))
                try:
                    setattr(p, name, g)
                except Exception:
                    continue
                before = [answer(f, o) for _, f in TX]
                n += 1
                for touch in (lambda: g.__setitem__(0, 99), lambda: g.append(1), g.clear):
                    touch()
                    for (r, f), w in zip(TX, before):
                        same(answer(f, o), w, "%s after changing the bytes given as %s of the %s" % (r, name, what))
    return n or None


MAKERS = {1: "new", 128: "mint_definition_new", 129: "mint_coin_creation_new", 144: "threebot_registration_new", 145: "threebot_record_update_new",
          146: "threebot_name_transfer_new", 208: "erc20_convert_new", 209: "erc20_coin_creation_new", 210: "erc20_address_registration_new"}


@family
def blank(case):
    """[spec]: a new object is blank, whatever was made and filled before"""
    t = case[0]
    f = getattr(T, MAKERS[t["v"]], None)
    if f is None:
        return None
    def look(o):
        d = o.json()
        d.get("data", {}).pop("nonce", None)
        return [text(d), [str(x) for x in o.miner_fees], len(o.coin_inputs), len(o.coin_outputs), len(o.blockstake_inputs), len(o.blockstake_outputs), str(o.id), o.height, o.unconfirmed]
    want = look(f())
    o = B.txn(t, "set")
    same(look(f()), want, "a new transaction v%d after another was filled" % t["v"])
    o.id = TS.H[0]
    o.height = 7
    o.unconfirmed = True
    for m in (o.coin_inputs, o.coin_outputs, o.blockstake_inputs, o.blockstake_outputs, o.miner_fees):
        m += []
    same(look(f()), want, "a new transaction v%d after another was marked" % t["v"])
    for mk, fill in ((FT.multi_signature_new, lambda x: x.add_pair(B.pk(TS.K[0]), TS.S[0])), (lambda: CT.multi_signature_new(min_nr_sig=1), lambda x: x.add_unlockhash(B.uh(TS.U[0])))):
        w = text(mk().json())
        fill(mk())
        same(text(mk().json()), w, "a new multi-signature part after another was filled")
    return want


# --- balances and wallets
def scene(n):
    F = O.F
    bals = [[[9 * F, "a", "c"], [7 * F + 1, "a", "l"], [6 * F, "b", "u"], [5 * F, "b", "s"], [4 * F, "m", "c"], [3 * F, "n", "u"], [8 * F, "p", "c"]],
            [[9 * F, "a", "c"]], [[9 * F, "m", "c"], [8 * F + 1, "m", "l"], [3, "m", "w"], [4, "a", "w"]], []]
    return {"bal": bals[n], "bots": O.BOTS, "mint": O.OWN["m"]}


def coins(l):
    return sorted([str(o.id), str(o.value), str(o.condition.unlockhash)] for o in l)


def fund(b, n, source=None):
    if not hasattr(b, "fund"):
        return None
    inputs, remainder, suggested = b.fund(Currency(value=B.dec(n)), source=source)
    return [[str(i.parentid) for i in inputs], str(remainder), text(suggested)]


def drained(b, unconfirmed):
    txs = b.drain(recipient=O.TEXT["x"], miner_fee=Currency(value=B.dec(O.F)), unconfirmed=unconfirmed)
    return sorted(json.dumps(t.json(), sort_keys=True) for t in txs)


def funding(b, n, source=None):
    try:
        return fund(b, n, source)
    except tfchain.errors.InsufficientFunds:
        return "insufficient"


BAL = [("amounts", lambda b: W.amounts(b)), ("outputs", lambda b: {k: sorted(v.items()) for k, v in W.outputs(b).items()}), ("text", str), ("repr", repr), ("chain", lambda b: [b.chain_height, b.chain_time, str(b.chain_blockid)]),
       ("addresses", lambda b: sorted(b.addresses)), ("active", lambda b: b.active), ("drain", lambda b: drained(b, False)), ("drain unconfirmed", lambda b: drained(b, True)),
       ("fund little", lambda b: funding(b, 5)), ("fund much", lambda b: funding(b, 20 * O.F)), ("fund too much", lambda b: funding(b, 10 ** 6 * O.F)), ("fund elsewhere", lambda b: funding(b, O.F, O.TEXT["m"])),
       ("wallets", lambda b: {a: [W.amounts(x), str(x.signature_count), [str(o) for o in x.owners]] for a, x in b.wallets.items()} if hasattr(b, "wallets") else None)]


def member(b, addr):
    return b.wallets.get(addr) if hasattr(b, "wallets") else None


@family
def balance(case):
    """[scene, address or None]: the balance of the wallet, or of one of its multi-signature wallets"""
    n, who = case
    s = O.Scene(scene(n))
    def make():
        b = s.wallet.balance
        return b if who is None else member(b, O.TEXT[who])
    if make() is None:
        return None
    return walk(make, BAL, "balance")


WAL = [("addresses", lambda w: list(w.addresses)), ("address", lambda w: w.address), ("multisig addresses", lambda w: sorted(w.addresses_multisig)), ("seed", lambda w: [str(w.mnemonic), text(w.seed)]),
       ("counts", lambda w: [w.key_count, w.key_scan_count]), ("balance", lambda w: [W.amounts(w.balance), sorted(w.balance.wallets)]), ("transactions", lambda w: [str(t.id) for t in w.transactions]),
       ("network", lambda w: str(w.network_type)), ("key", lambda w: [str(w.key_pair_get(O.TEXT["b"]).public_key), str(w.key_pair_get(O.TEXT["b"]).unlockhash)]),
       ("unknown key", lambda w: [str(w.key_pair_get(O.TEXT["x"]).public_key)]), ("erc20", lambda w: str(w.erc20.address_get(0))), ("erc20 all", lambda w: [str(x) for x in w.erc20.addresses_get()]),
       ("verify", lambda w: str(w.atomicswap.verify(CID[0]).amount) if CID else None), ("mint condition", lambda w: w.client.minter.condition_get().json()),
       ("bot", lambda w: [w.client.threebot.record_get(1).identifier, [str(n) for n in w.client.threebot.record_get(1).names]]), ("info", lambda w: [w.client.blockchain_info_get().height, w.client.blockchain_info_get().blockid])]
CID = []


@family
def wallet(case):
    """[scene]: reading everything of a wallet"""
    s = O.Scene(scene(case[0]))
    CID[:] = [s.l.give([[7 * O.F, ["as", O.U[2], O.U[0], L.secret_hash("5e" * 32), s.l.time + 500]]])[0]]
    n = [0]
    def make():
        return W.TFChainWallet(seed=W.seed(O.ME), key_count=2, key_scan_count=0, client=s.p.client)
    out = walk(make, WAL, "wallet")
    expect(not s.ex.posted, "something was submitted")
    return out


# --- answers of the client
def tear(o):
    """the caller changes what he was given in every way"""
    def do(f):
        try:
            f()
        except (ValueError, TypeError, AttributeError, IndexError, KeyError, NotImplementedError):
            pass
    if isinstance(o, (list, tuple)):
        for x in o:
            tear(x)
        do(lambda: o.clear())
        return
    for n in ("transactions", "coin_outputs", "coin_inputs", "blockstake_inputs", "blockstake_outputs", "miner_fees", "names", "addresses", "unlockhashes", "multisig_addresses", "condition"):
        do(lambda: tear(getattr(o, n)))
    for n, v in (("value", 5), ("condition", CT.nil_new()), ("id", TS.H[0]), ("height", 9), ("unconfirmed", True), ("data", b"x"), ("required_signatures", 1), ("lock", 77), ("mint_condition", CT.nil_new())):
        do(lambda: setattr(o, n, v))


ASK = {"transaction": (lambda c, i: c.transaction_get(i["tx"]), lambda o: [f(o) for f in (lambda t: t.json(), lambda t: str(t.id), lambda t: [t.height, t.unconfirmed], lambda t: [str(x.id) for x in t.coin_outputs], lambda t: [text(x.parent_output) for x in t.coin_inputs])]),
       "unconfirmed": (lambda c, i: c.transaction_get(i["utx"]), lambda o: [o.json(), o.height, o.unconfirmed, [str(x.id) for x in o.coin_outputs]]),
       "block": (lambda c, i: c.block_get(i["height"]), lambda o: text([o.id, o.height, o.timestamp, [[t.json(), str(t.id)] for t in o.transactions]])),
       "block by id": (lambda c, i: c.block_get(i["block"]), lambda o: text([o.id, o.height, o.timestamp, [[t.json(), str(t.id)] for t in o.transactions]])),
       "output": (lambda c, i: c.coin_output_get(i["out"]), lambda o: [o[0].json(), str(o[0].id), o[1].json(), o[2] and o[2].json()]),
       "history": (lambda c, i: c.unlockhash_get(i["address"]), lambda o: [str(o.unlockhash), [[t.json(), str(t.id)] for t in o.transactions], [str(x) for x in o.multisig_addresses], W.amounts(o.balance())]),
       "condition": (lambda c, i: c.minter.condition_get(), lambda o: o.json()), "condition at": (lambda c, i: c.minter.condition_get(0), lambda o: o.json()),
       "record": (lambda c, i: c.threebot.record_get(1), lambda o: [[str(n) for n in o.names], [str(a) for a in o.addresses], str(o.public_key), o.expiration]),
       "info": (lambda c, i: c.blockchain_info_get(), lambda o: [o.height, o.timestamp, str(o.blockid)])}


@family
def answers(case):
    """[question, question, what happens on the network in between]: the caller tears the first answer; the second is what a new client gets"""
    q, q2, move = case
    p = party(0, 1)
    l = p.ex.ledger
    known = [i for i, r in l.txs.items() if r["height"] is not None]
    i = {"tx": known[0], "utx": l.pool()[0], "height": 1, "block": l.blocks[1]["id"], "out": l.txs[known[0]]["ids"][0], "address": O.TEXT["a"]}
    def first(c, q):
        f, look = ASK[q]
        try:
            o = f(c, i)
        except (tfchain.errors.ExplorerError, ValueError) as e:
            return None, ["refused", type(e).__name__]
        return o, text(look(o))
    o, w = first(p.client, q)
    tear(o)
    if move == "mine":
        l.mine()
    elif move == "spend":
        p.wallet.coins_send(O.TEXT["x"], O.money(400 * O.F))
    elif move == "mint":
        l.mints.append((l.height, O.OWN["b"]))
    same(first(p.client, q2)[1], first(W.client(l), q2)[1], "%s asked after %s, whose answer was changed by the caller (%s)" % (q2, q, move or "nothing happened"))
    return [q, q2, w]


# --- two wallets
_alone = {}


def alone(k, seed, script):
    key = (k, seed, tuple(script))
    if key not in _alone:
        p = party(k, seed)
        _alone[key] = [play(p, o) for o in script] + [sorted(repr(X.couts(t)) for t in p.ex.posted)]
    return _alone[key]


@family
def interleaved(case):
    """[seeds, script A, script B, schedule]: the wallets work in turns; each gets what it gets alone"""
    (sa, sb), a, b, order = case
    ps, got, scripts = [party(0, sa), party(1, sb)], [[], []], [list(a), list(b)]
    for k in order:
        got[k].append(play(ps[k], scripts[k][len(got[k])]))
    for k, s in ((0, sa), (1, sb)):
        want = alone(k, s, scripts[k])
        for i, o in enumerate(scripts[k]):
            same(got[k][i], want[i], "%s of wallet %d next to another wallet" % (o, k))
        same(sorted(repr(X.couts(t)) for t in ps[k].ex.posted), want[-1], "what wallet %d submitted" % k)
    return [a, b]


# --- threads: the wallets work at the same time; who goes on is decided at every request
class Run:
    """two operations in threads of their own, of which one at a time runs, up to its next request; switch: after how many steps in all the other one is let on"""
    def __init__(self, explorers, jobs, first, switch):
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.back = threading.Semaphore(0)
        self.who = {}
        self.out = [None, None]
        self.done = [False, False]
        self.steps = 0
        for ex in explorers:
            ex.move = self.pause
        ts = [threading.Thread(target=self.body, args=(i, jobs[i]), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        now = first
        while not all(self.done):
            if self.done[now] or self.steps in switch and not self.done[1 - now]:
                now = 1 - now
            self.go[now].release()
            self.back.acquire()
            self.steps += 1
        for t in ts:
            t.join()
        for ex in explorers:
            del ex.move

    def pause(self):
        i = self.who.get(threading.get_ident())
        if i is not None:
            self.back.release()
            self.go[i].acquire()

    def body(self, i, job):
        self.who[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            self.out[i] = job()
        except BaseException as e:
            self.out[i] = ["raised", type(e).__name__, str(e)[:300]]
        self.done[i] = True
        self.back.release()


def pair(seeds, shared):
    """two parties on networks of their own, or on one network with one client"""
    if not shared:
        return [party(0, seeds[0]), party(1, seeds[1])]
    p = party(0, 1)
    q = object.__new__(W.Party)
    q.ex, q.client, q.n = p.ex, p.client, 3  # 2 is paid by 1
    q.wallet = TFChainWallet(seed=W.seed(3), key_count=2, key_scan_count=0, client=p.client)
    p.ex.ledger.give([[(300 + i) * O.F, ["uh", W.K(3, i % 2).uh]] for i in range(3)])
    return [p, q]


_solo = {}


def solo(seeds, shared, k, op):
    key = json.dumps([seeds, shared, k, op])
    if key not in _solo:
        ps = pair(seeds, shared)
        _solo[key] = play(ps[k], op)
    return _solo[key]


@family
def threads(case):
    """[seeds, shared client, operation, operation, bound]: every schedule with at most that many changes of mind"""
    seeds, shared, a, b, bound = case
    want = [solo(seeds, shared, 0, a), solo(seeds, shared, 1, b)]
    n = 0
    todo = [(f, ()) for f in (0, 1)]
    while todo:
        first, switch = todo.pop()
        ps = pair(seeds, shared)
        r = Run([ps[0].ex] if shared else [p.ex for p in ps], [lambda: play(ps[0], a), lambda: play(ps[1], b)], first, set(switch))
        n += 1
        for k, op in ((0, a), (1, b)):
            if r.out[k] != want[k]:
                bad("{} of wallet {} at the same time as {} of the other, starting with {}, the other one let on after steps {}: got {} want {}", op, k, (b, a)[k], first, switch, str(r.out[k])[:400], str(want[k])[:400])
        if len(switch) < bound:
            todo += [(first, switch + (i,)) for i in range((switch[-1] if switch else 0) + 1, r.steps)]
    return [a, b, n]


def spread(it, n):
    l = list(it)
    return l if len(l) <= n else [l[i * len(l) // n] for i in range(n)]


def run(ctx):
    Th = ctx.thorough
    vs = (0, 1, 128, 129, 144, 145, 146, 208, 209, 210)
    ctx.all(piece, [["cond", c] for c in TS.COND] + [["ff", f, PARENT[f[0]]] for f in (TS.SS, TS.SS_NEW, TS.MS, TS.MS1, TS.MS0, TS.AS, TS.AS_NEW)] + [["ff", f, ["nil"]] for f in (TS.SS, TS.SS_NEW)])
    some = {v: spread((t for t in TS.specs(v) if len(t.get("cin", [])) < 20), 600 if Th else 40) for v in vs}
    ctx.all(transaction, ([t, r, p] for v in vs for t in some[v] for r in ("json", "set") for p in (False, True)), parallel=True, chunk=16)
    ctx.all(document, ([t] for v in vs for t in spread(some[v], 100 if Th else 12)), parallel=True, chunk=4)
    ctx.all(blank, ([t] for v in MAKERS for t in spread(some[v], 100 if Th else 15)))
    ctx.all(copies, ([k, list(x)] for k in VALUES for x in itertools.permutations(range(len(TOUCH)), 3 if Th else 2)), parallel=True, chunk=64)
    ctx.all(given, ([t, r] for v in vs for t in spread(some[v], 12 if Th else 4) for r in ("json", "set")), parallel=True, chunk=2)
    ctx.all(balance, [[n, w] for n in range(4) for w in (None, "m", "n", "p")], parallel=True, chunk=1)
    ctx.all(answers, ([q, q2, m] for q in ASK for q2 in ASK for m in ("", "mine", "spend", "mint")), parallel=True, chunk=8)
    ctx.all(wallet, [[n] for n in range(4)], parallel=True, chunk=1)
    ops = list(MENU)
    seeds = [[1, 1], [1, 2]]
    ctx.all(interleaved, ([s, [a1, a2], [b], [0, 1, 0]] for s in (seeds if Th else seeds[:1]) for a1 in ops for a2 in ops for b in ops), parallel=True, chunk=32)
    ctx.all(interleaved, ([s, [b], [a1, a2], [1, 0, 1]] for s in (seeds if Th else seeds[1:]) for a1 in ops for a2 in ops for b in ops), parallel=True, chunk=32)
    apart = ("bot", "update", "mint")  # one network allows them once
    ctx.all(threads, ([s, False, a, b, 2 if Th else 1] for s in (seeds if Th else seeds[1:]) for a in ops for b in ops), parallel=True, chunk=2)
    ctx.all(threads, ([seeds[1], True, a, b, 2 if Th else 1] for a in ops for b in ops if not (a in apart and b in apart)), parallel=True, chunk=2)
    if Th:
        four = [o for o in ops if o not in ("info", "key", "register", "history")]
        ctx.all(interleaved, ([seeds[0], [a1, a2], [b1, b2], [0, 1, 0, 1]] for a1 in four for a2 in four for b1 in four for b2 in four), parallel=True, chunk=64)
