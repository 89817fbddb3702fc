"""A menu of wallet readings and operations with plain results, for checks that compare what wallets get."""
import json

import tfchain.errors

from mc import build as B
from mc import ops as O
from mc import world as W
from mc.ref import ledger as L
from mc.ref import txn as X

F = O.F
MENU = {
    "balance": lambda w: [W.amounts(w.balance), sorted(W.outputs(w.balance)["available"].values()), {str(a): W.amounts(b) for a, b in w.balance.wallets.items()}],
    "history": lambda w: [str(t.id) for t in w.transactions],
    "address": lambda w: [w.address_new(), list(w.addresses)],
    "key": lambda w: str(w.public_key_new()),
    "send": lambda w: sent(w.coins_send(O.TEXT["x"], O.money(2 * F))),
    "sendms": lambda w: sent(w.coins_send(O.TEXT["x"], O.money(F), source=O.TEXT["m"], refund=O.TEXT["b"])),
    "build": lambda w: sent(builder(w)),
    "swap": lambda w: sent(w.atomicswap.participate(O.TEXT["x"], O.money(2 * F), "3c" * 32, refund_time=L.T0 + 10 ** 7)),
    "bot": lambda w: sent(w.threebot.record_new(months=1, names=["chatbot"], key_index=0)),
    "update": lambda w: sent(w.threebot.record_update(1, months=2, names_to_add=["morebot"])),
    "erc": lambda w: sent(w.erc20.coins_send("0x" + "ab" * 20, O.money(3))),
    "register": lambda w: sent(w.erc20.address_register(1)),
    "mint": lambda w: minted(w.minter.coins_new(O.TEXT["x"], O.money(5))),
    "info": lambda w: [w.client.blockchain_info_get().height, str(w.client.minimum_miner_fee), w.client.minter.condition_get().json(), w.client.threebot.record_get(1).expiration],
}


def builder(w):
    b = w.coin_transaction_builder_new()
    b.output_add(O.TEXT["x"], O.money(F))
    b.output_add(O.TEXT["y"], O.money(2), lock=L.T0 + 10 ** 7)
    return b.send()


def sent(r):
    return [r.transaction.json(), r.submitted, str(r.transaction.id)]


def minted(r):
    d = r.transaction.json()["data"]
    return [d["coinoutputs"], d["minerfees"], r.submitted]


def party(k, seed):
    """k selects the ledger: the two differ in network, outputs, height and time"""
    net = ("devnet", "testnet")[k]
    mint = O.OWN["a"]
    l = L.Ledger(net, mint=mint)
    l.bots[1] = {"names": ["foobar"], "addrs": [], "pk": W.K(seed, 0).pk, "exp": l.time + 10 ** 6 * (k + 1)}
    u = [W.K(seed, i).uh for i in range(2)]
    l.give([[(400 + i + 13 * k) * F, ["uh", u[i % 2]]] for i in range(3 + k)])
    l.give([[(90 + k) * F, O.OWN["m"]], [(7 + k) * F, ["lt", 10 ** 6, ["uh", u[0]]]]])
    l.give([[(11 + k) * F, ["uh", u[0]]]], mine=False)
    if k:
        l.mine([], dh=5)
    p = W.Party(l, seed, keys=2, network=net)
    return p


def play(p, op):
    try:
        return json.loads(json.dumps(MENU[op](p.wallet), default=str))
    except O.CLEAN + (tfchain.errors.ExplorerError,) as e:
        return ["refused", type(e).__name__]


