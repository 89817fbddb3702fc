"""C27: a wallet started again from its words carries on, also after the program died in the middle of an operation."""
import json

from tfchain.errors import ExplorerNoContent
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainWallet import TFChainWallet

from mc import world as W
from mc.core import expect, family, same
from mc.menu import MENU, party, play
from mc import ops as O
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C27"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of crash points: the program dies before or after every single request of every operation, a wallet started again from the seed or words is compared "
             "with one that went on (a second wallet of the same seed that never died), reading by reading and operation by operation")
RULE = ("all operations x death before and after each of their requests x following operations x ways of starting again (seed, words, scanning for used keys); all pairs (thorough: triples) of "
        "operations with an orderly restart between them. Non-trivial: the restarted wallet was compared")
ASSUMPTIONS = ["the restarted wallet is given the number of keys, or the keys in use were seen on the network within the scanned range (unused keys of a wallet are not on the network)",
               "the secret of a swap whose initiation died is lost with the program (the caller can have the swap built first and submitted later)",
               "mint transactions draw a random nonce: they are compared without it and only as the last operation"]


class Died(BaseException):
    pass


def text(v):
    return json.loads(json.dumps(v, default=str))


def registered(w, a):
    try:
        return str(w.erc20.address_get(a))
    except ExplorerNoContent:
        return None


def readings(p, w):
    b = w.balance
    out = {"addresses": list(w.addresses), "address": w.address, "multisig": sorted(w.addresses_multisig), "words": str(w.mnemonic), "keys": w.key_count,
           "amounts": W.amounts(b), "outputs": {k: sorted(v.items()) for k, v in W.outputs(b).items()}, "wallets": {str(a): [W.amounts(x), W.outputs(x)["available"]] for a, x in b.wallets.items()},
           "history": [str(t.id) for t in w.transactions], "chain": [b.chain_height, b.chain_time], "keys of": [[str(w.key_pair_get(a).public_key), str(w.key_pair_get(a).unlockhash)] for a in w.addresses],
           "erc20": [registered(w, a) for a in w.addresses]}
    return text(out)


def lethal(p, k, after):
    """the program dies before (after) request number k"""
    n = [0]
    for name in ("get", "post"):
        real = getattr(p.ex, name)

        def f(*a, real=real, **kw):
            i, n[0] = n[0], n[0] + 1
            if i == k and not after:
                raise Died()
            r = real(*a, **kw)
            if i == k:
                raise Died()
            return r
        setattr(p.ex, name, f)


class Device:
    """another program with a wallet on the same ledger"""
    def __init__(self, p, **kw):
        self.ex = W.Explorer(p.ex.ledger)
        self.client = TFChainClient(explorer_client=self.ex, network_type=p.ex.ledger.network)
        self.wallet = TFChainWallet(client=self.client, **kw)


HOW = {"seed": lambda p, n, k: {"seed": W.seed(n), "key_count": k, "key_scan_count": 0}, "words": lambda p, n, k: {"seed": p.wallet.mnemonic, "key_count": k, "key_scan_count": 0},
       "scan": lambda p, n, k: {"seed": p.wallet.mnemonic}, "scan3": lambda p, n, k: {"seed": W.seed(n), "key_count": 1, "key_scan_count": 3}}


@family
def death(case):
    """[ledger, operation, request, after it?, then, how]"""
    led, op, k, aft, then, how = case
    got = []
    for restarted in (True, False):
        p = party(led, 1)
        l = p.ex.ledger
        second = Device(p, **HOW["seed"](p, 1, 2))
        n0 = len(l.txs)
        lethal(p, k, aft)
        try:
            play(p, op)
            died = False
        except Died:
            died = True
        if not died:
            return None
        expect(len(l.txs) - n0 <= 1 and len(p.ex.posted) <= 1, "more than one document was submitted")
        d = Device(p, **HOW[how](p, 1, 2)) if restarted else second
        r = readings(p, d.wallet)
        r.update(then=[play(d, o) for o in then], posted=[repr(X.couts(t)) for t in d.ex.posted], afterwards=readings(p, d.wallet), n=len(l.txs) - n0)
        got.append(r)
    for key in got[1]:
        same(got[0][key], got[1][key], "%s of the restarted wallet against one that went on" % key)
    return [op, then, got[0]["n"]]


@family
def restart(case):
    """[ledger, operations before, operations after, how, blocks mined between?]"""
    led, a, b, how, mined = case
    got = []
    for restarted in (True, False):
        p = party(led, 1)
        l = p.ex.ledger
        first = [play(p, o) for o in a]
        if mined:
            l.mine()
        d = Device(p, **HOW[how](p, 1, p.wallet.key_count)) if restarted else p
        if how.startswith("scan") and any(o in ("address", "key") for o in a):
            return None
        n = len(p.ex.posted)
        r = readings(d, d.wallet)
        r.update(first=first, then=[play(d, o) for o in b])
        r["posted"] = [repr(X.couts(t)) for t in d.ex.posted[0 if restarted else n:]]
        r["afterwards"] = readings(d, d.wallet)
        got.append(r)
    for key in got[1]:
        same(got[0][key], got[1][key], "%s of the restarted wallet against the one that went on" % key)
    return [a, b]


HAPPENS = {
    "coins": lambda p, l, u: l.give([[5 * O.F, ["uh", u]]], mine=False),
    "locked": lambda p, l, u: l.give([[5 * O.F, ["lt", 10 ** 6, ["uh", u]]]], mine=False),
    "co-owned": lambda p, l, u: l.give([[5 * O.F, ["ms", [u, W.K(9).uh], 1]]], mine=False),
    "reserve": lambda p, l, u: l.give([[5 * O.F, ["ms", [u, W.K(1).uh], 2]]], mine=False),
    "change": lambda p, l, u: p.wallet.coins_send(W.K(9).text, O.money(O.F), refund=R.uh_text(u)),
    "tidied": lambda p, l, u: p.wallet.coins_send(R.uh_text(u), O.money(O.F)),
    "registered": lambda p, l, u: p.wallet.erc20.address_register(R.uh_text(u)),
    "earned": lambda p, l, u: l.mine(payouts=[(7 * O.F, u)]),
    "staked": lambda p, l, u: l.submit({"v": 1, "cin": [], "cout": [], "bin": [], "bout": [[3, ["uh", u]]], "fees": [], "data": "aabb"}),
}


@family
def fresh(case):
    """an address handed out last is used by others or the wallet; then the program stops: [ledger, event, addresses before it, mined, events on it, scan window]"""
    led, event, gap, mined, window = case
    p = party(led, 1)
    l = p.ex.ledger
    for _ in range(gap + 1):
        a = p.wallet.address_new()
    HAPPENS[event](p, l, X.uh_of(str(a)))
    if mined:
        l.mine()
    d = Device(p, seed=p.wallet.mnemonic, key_count=1, key_scan_count=window)
    mine, other = readings(p, p.wallet), readings(p, d.wallet)
    expect(str(a) in other["addresses"], "the wallet started again does not know address {}", a)
    used = {R.uh_text(u) for u in (W.K(1, i).uh for i in range(gap + 3)) if l.touching(u) or l.multisigs(u)} | {W.K(1).text, str(a)}
    for key in ("addresses", "keys of", "erc20"):
        ix = [i for i, x in enumerate(mine["addresses"]) if x in used]
        jx = {x: j for j, x in enumerate(other["addresses"])}
        same([other[key][jx[mine["addresses"][i]]] for i in ix if mine["addresses"][i] in jx], [mine[key][i] for i in ix], key + " of the wallet started again")
    expect(used <= set(other["addresses"]), "the wallet started again does not know {}", used - set(other["addresses"]))
    for key in ("address", "multisig", "words", "amounts", "outputs", "wallets", "history", "chain"):
        same(other[key], mine[key], key + " of the wallet started again against the one that went on")
    return [event, mined]


def run(ctx):
    ctx.all(fresh, [[led, e, g, m, w] for led in (0, 1) for e in HAPPENS for g in range(4) for m in (False, True) for w in range(g + 2, g + 6)], parallel=True, chunk=4)
    Th = ctx.thorough
    ops = list(MENU)
    first = [o for o in ops if o != "mint"]
    died = [o for o in ops if o not in ("mint", "info", "history", "address", "key")]
    hows = list(HOW)
    thens = [[o] for o in ops] if Th else [["send"], ["build", "balance"], ["sendms"], ["update"]]
    ctx.all(death, ([led, op, k, aft, then, hows[(i + k) % 4]] for led in (0, 1) for op in died for k in range(40 if Th else 22) for aft in (False, True) for i, then in enumerate(thens)), parallel=True, chunk=32)
    ctx.all(restart, ([led, [a], [b], how, m] for led in (0, 1) for a in first for b in ops for how in (hows if Th else hows[1:3]) for m in (False, True)), parallel=True, chunk=32)
    if Th:
        ctx.all(restart, ([0, [a], [b, c], "words", m] for a in first for b in first for c in ops for m in (False, True)), parallel=True, chunk=32)
        ctx.all(restart, ([1, [a, b], [c], "scan", m] for a in first for b in first for c in ops for m in (False, True)), parallel=True, chunk=32)
