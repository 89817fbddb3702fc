"""C30: what the network did not answer is never taken for nothing."""
import contextlib
import io
import itertools
import json
import socket

import tfchain.errors as E
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.TFChainWallet import TFChainWallet

from mc import build as B
from mc import menu
from mc import net as N
from mc import ops as O
from mc import world as W
from mc.core import bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C30"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive fault enumeration on the real wallet and client, and on the whole stack down to the sockets: every operation x every request (thorough: every pair of requests) x every kind of failure; "
             "oracle: the same operation undisturbed")
RULE = ("readings and operations of a wallet and of the client, over two ledgers and two scan windows x the request that fails x how; an evaluation is non-trivial when a failure was met: the outcome is the undisturbed one or an error, "
        "with a second explorer that answers always the undisturbed one")
ASSUMPTIONS = ["an explorer that answers does so truthfully: 'no content' where there is some, or a complete answer with other content, is not a failure this property speaks about",
               "mint transactions have a random nonce and are compared without it"]
F = O.F
SECRET = "5c" * 32
HASH = __import__("hashlib").sha256(bytes.fromhex(SECRET)).hexdigest()


def ledger(k):
    p = menu.party(k, 1)
    l = p.ex.ledger
    u = [W.K(1, i).uh for i in range(5)]
    other = W.K(2, 0)
    l.bots[2] = {"names": ["other"], "addrs": [["h", "example.org"]], "pk": other.pk, "exp": l.time + 10 ** 6}
    a = l.give([[30 * F, ["as", other.uh, u[0], HASH, l.time + 10 ** 6]], [40 * F, ["as", u[0], other.uh, HASH, l.time - 10]], [3, ["uh", u[2 + k]]]])
    l.submit({"v": 210, "cin": [[l.give([[50 * F, ["uh", other.uh]]])[0], ["ss", other.pk, O.SIG]]], "pk": W.K(1, 1).pk, "sig": O.SIG, "regfee": L.REG_FEE, "fee": F, "refund": None})
    l.mine()
    l.erc20[W.K(1, 1).text] = 6
    t = {"v": 1, "cin": [[l.give([[70 * F, ["ms", [u[0], other.uh], 2]]])[0], ["ms", []]]], "cout": [[70 * F - l_fee(l), ["uh", other.uh]]], "bin": [], "bout": [], "fees": [l_fee(l)], "data": ""}
    i = t["cin"][0][0]
    t["cin"][0][1] = ["ms", [[other.pk, other.sign(X.digest(t, [["i", 0], ["pk", other.pk]]))]]]
    coin = l.give([[50 * F + l_fee(l), ["uh", u[0]]]] * 2)
    free = ["ss", W.K(1, 0).pk, None]
    rec = {"v": 145, "id": 1, "aadd": [], "arem": [], "nadd": ["somebot"], "nrem": [], "months": 0, "fee": l_fee(l), "cin": [[coin[0], free]], "refund": None, "sig": None}
    trans = {"v": 146, "sid": 1, "ssig": None, "rid": 2, "rsig": None, "names": ["foobar"], "fee": l_fee(l), "cin": [[coin[1], free]], "refund": None}
    return l, {"record": json.dumps(X.js(rec)), "trans": json.dumps(X.js(trans)), "in": a[0], "out": a[1], "half": json.dumps(X.js(t)), "tx": l.outs[i]["by"]}


def l_fee(l):
    return L.MIN_FEE[l.network]


def contract(c):
    return [str(c.outputid), str(c.amount), str(c.sender), str(c.receiver), str(c.secret_hash), c.refund_timestamp, c.unspent]


READ = {
    "addresses": lambda w, c, s: list(w.addresses),
    "multisig": lambda w, c, s: sorted(w.addresses_multisig),
    "erc all": lambda w, c, s: [info(x) for x in w.erc20.addresses_get()],
    "erc one": lambda w, c, s: info(w.erc20.address_get(1)),
    "erc none": lambda w, c, s: info(w.erc20.address_get(0)),
    "verify": lambda w, c, s: contract(w.atomicswap.verify(s["in"], receiver=True)),
    "redeem": lambda w, c, s: posted(w.atomicswap.redeem(s["in"], SECRET)),
    "refund": lambda w, c, s: posted(w.atomicswap.refund(s["out"])),
    "sign": lambda w, c, s: done(w.transaction_sign(s["half"])),
    "sign record": lambda w, c, s: done(w.transaction_sign(s["record"])),
    "sign transfer": lambda w, c, s: done(w.transaction_sign(s["trans"])),
    "open": lambda w, c, s: list(TFChainWallet(seed=W.seed(1), key_count=1, key_scan_count=2, client=c).addresses),
    "open wide": lambda w, c, s: opened(TFChainWallet(seed=W.seed(1), key_start_index=1, key_scan_count=4, client=c)),
    "transfer": lambda w, c, s: menu.sent(w.threebot.name_transfer(1, 2, ["foobar"])),
    "define": lambda w, c, s: ["made", w.minter.definition_set(O.TEXT["x"]).submitted],
    "initiate": lambda w, c, s: ["made", w.atomicswap.initiate(O.TEXT["x"], O.money(2 * F), refund_time="+2h").submitted],
    "timed": lambda w, c, s: menu.sent(w.coins_send(O.TEXT["x"], O.money(F), lock=L.T0 + 10 ** 7)),
    "drain": lambda w, c, s: [t.json() for t in w.balance.drain(O.TEXT["x"], c.minimum_miner_fee)],
    "newbot": lambda w, c, s: menu.sent(w.threebot.record_new(months=2, names=["chatbot"])),
    "spend ms": lambda w, c, s: menu.sent(w.coins_send(O.TEXT["x"], O.money(91 * F), source=[O.TEXT["a"], O.TEXT["b"]])),
    # the client
    "tip": lambda w, c, s: chain(c.blockchain_info_get()),
    "block": lambda w, c, s: block(c.block_get(2)),
    "block id": lambda w, c, s: block(c.block_get(str(c.block_get(1).id))),
    "tx": lambda w, c, s: tx(c.transaction_get(s["tx"])),
    "output": lambda w, c, s: [tx(t) for t in c.coin_output_get(s["in"])[1:] if t] + [c.coin_output_get(s["in"])[0].json()],
    "uses": lambda w, c, s: hashes(c.unlockhash_get(O.TEXT["a"])),
    "co-owned": lambda w, c, s: hashes(c.unlockhash_get(O.TEXT["m"])),
    "nobody": lambda w, c, s: hashes(c.unlockhash_get(W.K(9, 9).text)),
    "condition": lambda w, c, s: [c.minter.condition_get().json(), c.minter.condition_get(1).json()],
    "records": lambda w, c, s: [record(c.threebot.record_get(1)), record(c.threebot.record_get("other"))],
    "no bot": lambda w, c, s: record(c.threebot.record_get(77)),
    "no tx": lambda w, c, s: tx(c.transaction_get("7b" * 32)),
    "erc client": lambda w, c, s: info(c.erc20.address_get(W.K(1, 1).text)),
}
for _k, _f in menu.MENU.items():
    READ[_k] = lambda w, c, s, f=_f: f(w)


def opened(w):
    return [list(w.addresses), w.key_count, w.address_new(), w.address_new()]


def chain(i):
    return [i.height, i.timestamp, str(i.blockid)]


def info(x):
    return [str(x.address_tft), str(x.address_erc20), x.confirmations]


def record(r):
    return [int(r.identifier), sorted(map(str, r.names)), sorted(map(str, r.addresses)), str(r.public_key), int(r.expiration)]


def posted(r):
    return [r.json(), str(r.id)]


def done(r):
    return [r.transaction.json(), r.signed, r.submitted]


def tx(t):
    return [t.json(), str(t.id), t.height, t.unconfirmed, [str(i.parent_output.id if i.parent_output else None) for i in t.coin_inputs]]


def block(b):
    return [str(b.id), b.height, b.timestamp, [tx(t) for t in b.transactions], [[str(p.id), str(p.value), str(p.unlockhash)] for p in b.miner_payouts]]


def hashes(r):
    return [str(r.unlockhash), [tx(t) for t in r.transactions], sorted(map(str, r.multisig_addresses)), [str(b.id) for b in getattr(r, "blocks", None) or []]]


def outcome(f, w, c, s):
    """(value or None, error or None)"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return json.loads(json.dumps(f(w, c, s), default=str)), None
    except Exception as e:  # whatever: it is an error and no answer
        if type(e).__name__ == "Bad":
            raise
        return None, e


_want = {}


def undisturbed(case):
    """value, type of error, number of requests, documents submitted"""
    k = json.dumps(case)
    if k not in _want:
        led, op, scan = case
        l, s = ledger(led)
        ex = W.Explorer(l)
        c = TFChainClient(explorer_client=ex, network_type=l.network)
        w = TFChainWallet(seed=W.seed(1), key_count=2, key_scan_count=scan, client=c)
        n0 = len(ex.gets)
        v, e = outcome(READ[op], w, c, s)
        _want[k] = [v, e and type(e), len(ex.gets) + len(ex.posted) - n0, posts(ex, op)]
    return _want[k]


BODIES = {"empty": b"", "cut": None, "null": b"null", "{}": b"{}", "[]": b"[]", "text": b'"ok"', "number": b"0", "html": b"<html>busy</html>", "true": b"true"}
KINDS = ("server", "away", "odd", "connection", "timeout") + tuple(BODIES)


def failure(kind):
    return {"server": lambda: E.ExplorerServerError("broken", "/"), "away": lambda: E.ExplorerNotAvailable("away", "/", ["x"]), "odd": lambda: E.ExplorerInvalidResponse("odd", "/", {}),
            "connection": lambda: ConnectionResetError(104, "reset"), "timeout": lambda: socket.timeout("timed out")}[kind]()


class Faulty(W.Explorer):
    """answers, except for the given requests"""
    def __init__(self, l, faults):
        super().__init__(l)
        self.faults, self.n, self.met = faults, None, []

    def _ask(self, real, *a):
        if self.n is None:
            return real(*a)
        i, self.n = self.n, self.n + 1
        kind = self.faults.get(i)
        if kind is None:
            return real(*a)
        self.met.append(kind)
        if kind not in BODIES:
            raise failure(kind)
        try:
            r = real(*a)
        except E.ExplorerNoContent:
            r = b'{"message": 1}'
        return r[:len(r) // 2] if kind == "cut" else BODIES[kind]

    def get(self, endpoint):
        return self._ask(super().get, endpoint)

    def post(self, endpoint, data):
        return self._ask(super().post, endpoint, data)


def posts(ex, op):
    # the same document offered to the next explorer is no other submission
    p = list(dict.fromkeys(json.dumps(x) for x in ex.posted))
    return p if op not in ("mint", "define", "initiate") else len(p)


@family
def asking(case):
    """[ledger, operation, scan window, [request, kind]...]: these requests are not answered"""
    led, op, scan, faults = case[0], case[1], case[2], case[3:]
    value, error, n, want = undisturbed([led, op, scan])
    l, s = ledger(led)
    ex = Faulty(l, {k: f for k, f in faults})
    c = TFChainClient(explorer_client=ex, network_type=l.network)
    w = TFChainWallet(seed=W.seed(1), key_count=2, key_scan_count=scan, client=c)
    ex.n = 0
    v, e = outcome(READ[op], w, c, s)
    if not ex.met:
        return None
    judge("%s with request %s" % (op, ", ".join("%d answered %s" % tuple(f) for f in faults)), v, e, value, error)
    p = posts(ex, op)
    expect(p in (want, [], 0), "{}: submitted {} instead of {}", op, p, want)
    return [op, e is None, type(e).__name__]


def judge(what, v, e, value, error):
    if e is None:
        if error:
            bad("{}: answered {} although undisturbed it is an error ({})", what, json.dumps(v)[:200], error.__name__)
        if v != value:
            a, b = json.dumps(v, sort_keys=True), json.dumps(value, sort_keys=True)
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            bad("{}: answered ..{} instead of ..{}", what, a[max(0, i - 60):i + 100], b[max(0, i - 60):i + 100])
    elif isinstance(e, (E.ExplorerNoContent, E.ThreeBotNotFound, E.AtomicSwapContractNotFound, E.InsufficientFunds, E.AddressNotInWallet)):
        # these say that there is nothing
        expect(error and issubclass(type(e), error), "{}: {} says that there is nothing ({})", what, type(e).__name__, e)


# --- the whole stack
class LazySock(N.Sock):
    """a server that reads the request before it answers"""
    def makefile(self, *a, **k):
        self.net.log.append((self.host, self.sent))
        data, fault = self.data(self.sent)
        return io.BufferedReader(N.Body(data, fault), 1)


class Server(N.Net):
    """explorers of a ledger; faults: {number of the connection: kind}"""
    def __init__(self, l, faults):
        super().__init__(self.reply)
        self.ex, self.faults, self.met, self.on = W.Explorer(l), faults, [], False
        self.count = 0

    def reply(self, host, nth):
        kind = None
        if self.on:
            kind = self.faults.get(self.count)
            self.count += 1
        if kind:
            self.met.append(kind)
        if kind in CONNECT:
            return ("connect", CONNECT[kind]())
        return ("send", lambda raw: self.serve(raw, kind), None)

    def serve(self, raw, kind):
        m, target, h, body = N.request_of(raw)
        if kind in HTTP and kind not in AFTER:
            return HTTP[kind](b"")
        try:
            if m == "GET":
                r = self.ex.get(target)
            else:
                r = self.ex.post(target, body.decode("utf-8"))
        except E.ExplorerNoContent:
            return N.http_response(204, b""), None
        return HTTP[kind](r) if kind else (N.http_response(200, r), None)


CONNECT = {"refused": lambda: ConnectionRefusedError(111, "refused"), "dns": lambda: socket.gaierror(-2, "unknown"), "timeout": lambda: socket.timeout("timed out")}
HTTP = {"500": lambda r: (N.http_response(500, b"backend not found"), None), "404": lambda r: (N.http_response(404, b"404 page not found"), None), "closed": lambda r: (b"", None), "reset": lambda r: (b"HTTP/1.1 2", ConnectionResetError(104, "reset")),
        "garbage": lambda r: (b"hello\r\n\r\n", None), "cut": lambda r: (N.http_response(200, r[:len(r) // 2], length=len(r)), None), "body-reset": lambda r: (N.http_response(200, r[:len(r) // 2], length=len(r)), ConnectionResetError(104, "reset"))}
AFTER = ("cut", "body-reset")
NEXT = ("refused", "dns", "timeout", "closed", "reset", "garbage")  # no answer at all: the next explorer is asked


@family
def stack(case):
    """[ledger, operation, scan window, explorers, [connection, kind]...]: the wallet over the real HTTP client"""
    led, op, scan, n, faults = case[0], case[1], case[2], case[3], case[4:]
    value, error, _, want = undisturbed([led, op, scan])
    l, s = ledger(led)
    net = Server(l, {k: f for k, f in faults})
    saved = N.Sock
    N.Sock = LazySock
    try:
        with net.installed():
            c = TFChainClient(explorer_client=TFChainExplorerClient(["http://e%d.example" % i for i in range(n)]), network_type=l.network)
            w = TFChainWallet(seed=W.seed(1), key_count=2, key_scan_count=scan, client=c)
            net.on = True
            v, e = outcome(READ[op], w, c, s)
    finally:
        N.Sock = saved
    if not net.met and faults:
        return None
    what = "%s over %d explorers with connection %s" % (op, n, ", ".join("%d %s" % tuple(f) for f in faults))
    judge(what, v, e, value, error)
    p = posts(net.ex, op)
    if all(k in NEXT for k in net.met) and len(net.met) < n:
        # there is always one that answers
        if error:
            expect(e is not None and isinstance(e, error), "{}: {} instead of {}", what, e or v, error.__name__)
        else:
            expect(e is None, "{}: failed with {!r} although an explorer answers", what, e)
        same(p, want, what + ": documents submitted")
    expect(p in (want, [], 0), "{}: submitted {} instead of {}", what, p, want)
    return [op, n, e is None, type(e).__name__, net.met]


def run(ctx):
    Th = ctx.thorough
    ops = list(READ)
    scans = {op: (0, 2) if op in ("addresses", "balance", "erc all", "address", "history", "multisig", "send", "newbot") or Th else (0,) for op in ops}
    for led in (0, 1):
        for op in ops:
            for sc in scans[op]:
                undisturbed([led, op, sc])
    size = lambda *a: undisturbed(list(a))[2]
    ctx.all(stack, ([led, op, sc, n] for led in (0, 1) for op in ops for sc in scans[op] for n in (1, 2)), parallel=True, chunk=8)
    ctx.all(asking, ([led, op, sc, [k, kind]] for led in (0, 1) for op in ops for sc in scans[op] for k in range(size(led, op, sc)) for kind in KINDS), parallel=True, chunk=32)
    kinds = tuple(CONNECT) + tuple(HTTP)
    few = ("server", "odd", "timeout", "empty", "null", "{}") if Th else ("server", "away")
    ctx.all(stack, ([led, op, sc, n, [k, kind]] for led in (0, 1) for op in ops for sc in scans[op][:2 if Th else 1] for k in range(size(led, op, sc)) for kind in (kinds if Th else kinds[(k + led) % 2::2]) for n in (1, 2)), parallel=True, chunk=16)
    ctx.all(asking, ([0, op, 0, [i, a], [j, b]] for op in ops for i in range(size(0, op, 0)) for j in range(i + 1, size(0, op, 0) if Th else i + 3) for a in few for b in (few if Th else ("away", "{}"))), parallel=True, chunk=32)
    pairs = list(itertools.product(("refused", "closed", "reset", "500", "cut"), repeat=2)) if Th else (("refused", "closed"), ("reset", "500"), ("timeout", "timeout"))
    ctx.all(stack, ([0, op, 0, n, [k, a], [k + d, b]] for op in ops for k in range(size(0, op, 0)) for d in ((1, 2, 3) if Th else (1,)) for a, b in pairs for n in (2, 3)), parallel=True, chunk=16)
