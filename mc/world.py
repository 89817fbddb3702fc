"""The real client and wallets of /repo on top of a plain ledger: the explorer client handed to TFChainClient answers every
GET from the ledger and gives every POSTed document to a sink."""
import json

import tfchain.errors
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.TFChainWallet import TFChainWallet

from mc.core import bad
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R


class Explorer(TFChainExplorerClient):
    def __init__(self, ledger, order=None, accept=True, tamper=None):
        super().__init__(addresses=["http://explorer.invalid"])
        self.ledger, self.order, self.accept, self.tamper = ledger, order, accept, tamper
        self.gets = []
        self.posted = []      # specs of what was submitted
        self.ids = []
        self.refuse = False   # the network refuses submissions
        self.strict = True    # a submission the network cannot accept is a violation (else it is just refused)
        self.refused = 0
        self.moves = {}       # {number of requests: what happens on the network just before the next one}

    def move(self):
        """something happens on the network between two requests"""
        f = self.moves.pop(len(self.gets) + len(self.posted), None)
        if f:
            f()

    def get(self, endpoint):
        self.move()
        self.gets.append(endpoint)
        a = self.ledger.lookup(endpoint, self.order)
        if self.tamper:
            a = self.tamper(endpoint, a)
        if a is None:
            raise tfchain.errors.ExplorerNoContent("no content", endpoint)
        return json.dumps(a).encode()

    def post(self, endpoint, data):
        self.move()
        if endpoint != "/transactionpool/transactions":
            bad("document posted to {}", endpoint)
        if isinstance(data, dict):
            from tfchain.internal.jsutils import json_dumps
            data = json_dumps(data)
        doc = json.loads(data)
        t = X.of_json(doc)
        self.posted.append(t)
        if self.refuse:
            raise tfchain.errors.ExplorerServerPostError("refused", endpoint, data=data)
        if self.accept:
            why = self.ledger.problems(t)
            if why and not self.strict:
                self.refused += 1
                raise tfchain.errors.ExplorerServerPostError("refused", endpoint, data=data)
            if why:
                bad("a transaction was submitted which the network cannot accept: {} ({})", "; ".join(why), json.dumps(doc))
            self.ids.append(self.ledger.submit(t))
        else:
            self.ids.append(L.hid("tx", json.dumps(doc, sort_keys=True)))
        return json.dumps({"transactionid": self.ids[-1]}).encode()


def client(ledger, network=None, **kw):
    return TFChainClient(explorer_client=Explorer(ledger, **kw), network_type=network or ledger.network)


def seed(n):
    return bytes([n]) * 32


class Party:
    """a wallet with its own connection to the common ledger"""
    def __init__(self, ledger, n, keys=1, scan=0, network=None, **kw):
        self.ex = Explorer(ledger, **kw)
        self.client = TFChainClient(explorer_client=self.ex, network_type=network or ledger.network)
        self.n = n
        self.wallet = TFChainWallet(seed=seed(n), key_count=keys, key_scan_count=scan, client=self.client)

    def key(self, i=0):
        return L.key(seed(self.n), i)


def K(n, i=0):
    return L.key(seed(n), i)


def amounts(balance):
    """the public amounts of a balance object in 10^-9 TFT"""
    nano = lambda c: int(c.json()) if hasattr(c, "json") else c
    return {"available": nano(balance.available), "locked": nano(balance.locked), "unconfirmed": nano(balance.unconfirmed),
            "unconfirmed_locked": nano(balance.unconfirmed_locked)}


def outputs(balance):
    """the public output lists of a balance object: {bucket: {id: value}}"""
    nano = lambda c: int(c.json())
    m = lambda it: {str(o.id): nano(o.value) for o in it}
    lists = {"available": balance.outputs_available, "unconfirmed": balance.outputs_unconfirmed_available,
             "spent": list(balance.outputs_spent.values()), "unconfirmed_spent": list(balance.outputs_unconfirmed_spent.values()),
             "unconfirmed_all": list(balance.outputs_unconfirmed.values())}
    out = {}
    for k, v in lists.items():
        out[k] = m(v)
        if len(out[k]) != len(v):
            bad("output listed twice in {}", k)
    for k, o in list(balance.outputs_spent.items()) + list(balance.outputs_unconfirmed_spent.items()) + list(balance.outputs_unconfirmed.items()):
        if str(k) != str(o.id):
            bad("output {} filed under {}", o.id, k)
    return out
