"""C26: what only the wallet may know stays with it."""
import base64
import contextlib
import io
import itertools
import json
import logging
import random
import re
import warnings

import tfchain.errors
from tfchain.TFChainWallet import TFChainWallet
from tfchain.types.ConditionTypes import AtomicSwapSecret

from mc import build as B
from mc import ops as O
from mc import world as W
from mc.core import Bad, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import types as R

PROPERTY = "C26"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive enumeration of operations x ledgers x points of failure, of pairs of operations and of swap histories, with everything that leaves the wallet "
             "(requests, documents, errors, results as text, printed and logged output) searched for every window of every secret in hex, base64, word and number notation")
RULE = ("every wallet operation x sources x a failure at every request x kinds of failure; all pairs of operations; all histories of a swap between two wallets up to the stated length; "
        "every pair of secrets created around every reset of the program's random generator. Non-trivial: something left the wallet")
ASSUMPTIONS = ["a secret leaks when 12 consecutive bytes of it, or three consecutive words of the mnemonic, are found in hex, base64, Python bytes or list notation; encrypted or otherwise encoded leaks are not searched",
               "the secret of a swap is public from the first redeem document handed out with it",
               "text of the wallet object and of the result that carries the secret to its initiator is the caller's"]
N = 12


class Watch:
    """the secrets of the wallets in every notation, and everything that left them"""
    def __init__(self):
        self.hex, self.b64, self.words, self.raw = {}, {}, {}, {}

    def add(self, name, b):
        h = b.hex()
        for i in range(0, len(b) - N + 1):
            self.hex[h[2 * i:2 * (i + N)]] = name
            self.raw[repr(b[i:i + N])[2:-1].lower()] = name
            self.raw[", ".join(map(str, b[i:i + N]))] = name
        for k in range(3):
            e = base64.b64encode(b[k:]).decode().rstrip("=")
            for i in range(0, len(e) - 16 + 1):
                self.b64[e[i:i + 16]] = name

    def forget(self, name):
        for d in (self.hex, self.b64, self.raw):
            for k in [k for k, v in d.items() if v == name]:
                del d[k]

    def add_words(self, name, text):
        w = text.split()
        for i in range(len(w) - 2):
            self.words[" ".join(w[i:i + 3]).lower()] = name

    def search(self, where, text):
        if isinstance(text, (bytes, bytearray)):
            text = bytes(text).decode("utf-8", "backslashreplace")
        for run in re.findall("[0-9a-f]{%d,}" % (2 * N), text.lower()):
            for i in range(len(run) - 2 * N + 1):
                if run[i:i + 2 * N] in self.hex:
                    bad("{} contains {}", where, self.hex[run[i:i + 2 * N]])
        for run in re.findall("[0-9A-Za-z+/_-]{16,}", text):
            run = run.replace("-", "+").replace("_", "/")
            for i in range(len(run) - 15):
                if run[i:i + 16] in self.b64:
                    bad("{} contains {} (base64)", where, self.b64[run[i:i + 16]])
        low = text.lower()
        if self.words:
            w = re.findall("[a-z]+", low)
            for i in range(len(w) - 2):
                if " ".join(w[i:i + 3]) in self.words:
                    bad("{} contains {}", where, self.words[" ".join(w[i:i + 3])])
        if "\\x" in low or ", " in low:
            for k, v in self.raw.items():
                if k in low:
                    bad("{} contains {} (as numbers)", where, v)

    def own(self, n, keys=5):
        b = W.seed(n)
        self.add("the seed of a wallet", b)
        self.add_words("the mnemonic of a wallet", TFChainWallet(seed=b, key_count=1, key_scan_count=0, client=W.client(L.Ledger("devnet"))).mnemonic)
        for i in range(keys):
            k = L.key(b, i).sk
            self.add("a private key of a wallet", k.to_seed())
            self.add("a private key of a wallet", k.to_bytes()[:32])

    def tap(self, p):
        """everything party p sends is searched"""
        get, post = p.ex.get, p.ex.post

        def get_(endpoint, *a, **k):
            self.search("a request", str(endpoint))
            return get(endpoint, *a, **k)

        def post_(endpoint, data, *a, **k):
            self.search("a request", str(endpoint))
            self.search("a submitted document", data if isinstance(data, (str, bytes)) else json.dumps(data, default=str))
            return post(endpoint, data, *a, **k)
        p.ex.get, p.ex.post = get_, post_

    def during(self, f):
        """f() with its output, log, warnings and error searched; the result or None"""
        out, log = io.StringIO(), io.StringIO()
        h = logging.StreamHandler(log)
        root = logging.getLogger()
        level = root.level
        root.addHandler(h)
        root.setLevel(logging.DEBUG)
        res = err = None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    res = f()
                except Bad:
                    raise
                except Exception as e:
                    err = e
        finally:
            root.removeHandler(h)
            root.setLevel(level)
        self.search("printed output", out.getvalue())
        self.search("the log", log.getvalue())
        for w in ws:
            self.search("a warning", str(w.message))
        e = err
        while e is not None:
            self.search("an error", "%s %r" % (e, e))
            self.search("an error", " ".join("%s=%s" % (k, v) for k, v in vars(e).items() if isinstance(v, (str, bytes, int, list, tuple, dict))))
            e = e.__cause__ or e.__context__
        return res, err


_watch = []


def watch():
    if not _watch:
        _watch.append(Watch())
        for n in (O.ME, O.YOU):
            _watch[0].own(n)
    w = Watch()
    for k in ("hex", "b64", "words", "raw"):
        setattr(w, k, dict(getattr(_watch[0], k)))
    return w


def look(w, res):
    """what the caller gets, as text"""
    t = getattr(res, "transaction", None)
    if t is None:
        return
    w.search("the transaction", str(t) + repr(t) + json.dumps(t.json()))
    w.search("the binary transaction", bytes(t.binary_encode()).hex() if t.version != 0 else "")
    for r in t.signature_requests_new():
        w.search("a signature request", "%s %r %s" % (r, r, r.wallet_address))


KINDS = {"down": lambda: tfchain.errors.ExplorerNotAvailable("no explorer was available", endpoint="", addresses=[]), "error": lambda: tfchain.errors.ExplorerServerError("error (code: 500)", ""),
         "none": lambda: tfchain.errors.ExplorerNoContent("no content", "")}


def secrets_seen(w):
    """swap secrets are watched from their creation on, before they are known to the caller"""
    real = AtomicSwapSecret.random.__func__

    def random_(cls, *a, **k):
        v = real(cls, *a, **k)
        w.add("the secret of a swap", bytes.fromhex(str(v)))
        return v
    return real, classmethod(random_)


@contextlib.contextmanager
def watching(w):
    real, tapped = secrets_seen(w)
    AtomicSwapSecret.random = tapped
    try:
        yield
    finally:
        AtomicSwapSecret.random = classmethod(real)


@family
def operation(case):
    """[scene and operation, number of the failing request or None, kind, then]"""
    c, k, kind, then = case
    w = watch()
    s = O.Scene(c)
    w.tap(s.p)
    if k is not None:
        def fail():
            raise KINDS[kind]()
        s.ex.moves[k] = fail
    call = O.PLAN[c["op"]](s, c["a"])[0]
    with watching(w):
        res, err = w.during(call)
        if c["op"] not in ("init",):
            look(w, res)
        elif res is not None:
            w.search("the transaction", json.dumps(res.transaction.json()) + str(res.transaction.id))
            w.search("the contract", "%s %s %s %s" % (res.contract.outputid, res.contract.sender, res.contract.receiver, res.contract.secret_hash))
        if res is not None and res.transaction is not None:
            w.during(lambda: s.wallet.transaction_sign(json.loads(json.dumps(res.transaction.json()))))
        for c2 in then:
            s.case = c2
            res2, _ = w.during(O.PLAN[c2["op"]](s, c2["a"])[0])
            if c2["op"] != "init":
                look(w, res2)
        w.during(lambda: [W.amounts(s.wallet.balance), [str(t.id) for t in s.wallet.transactions], str(s.wallet.balance), repr(s.wallet.balance)])
    return [c["op"], type(err).__name__ if err is not None else bool(res and res.submitted), len(s.ex.gets), len(s.ex.posted)]


SW = {"iA": ("init", 0), "pB": ("part", 1), "iB": ("init", 1), "vB": ("verify", 1, "I"), "vA": ("verify", 0, "P"), "rP": ("redeem", 0, "P", "right"), "rI": ("redeem", 1, "I", "right"),
      "fI": ("redeem", 0, "I", "right"), "wI": ("redeem", 1, "I", "wrong"), "wP": ("redeem", 0, "P", "half"), "uI": ("refund", 0, "I"), "uP": ("refund", 1, "P"), "late": ("time", L.T0 + 10 ** 6),
      "send": ("send", 0), "bal": ("bal", 0), "off": ("refuse", 0)}


@family
def swaps(h):
    """a history of a swap between two wallets: the secret is in no request, document or error before a redemption with it"""
    w = watch()
    l = L.Ledger("devnet")
    l.give([[100 * L.UNIT, ["uh", W.K(n).uh]] for n in (1, 2) for _ in range(3)])
    ps = [W.Party(l, n, keys=2, network="devnet") for n in (1, 2)]
    for p in ps:
        w.tap(p)
    secret, cs, public, out = None, {}, set(), []
    with watching(w):
        for name in h:
            e = SW[name]
            op, wl, p = e[0], ps[e[1] if e[1] in (0, 1) else 0].wallet, ps[e[1] if e[1] in (0, 1) else 0]
            if op == "init":
                r, err = w.during(lambda: wl.atomicswap.initiate(W.K(2 - e[1]).text, B.dec(5 * L.UNIT), refund_time=L.T0 + 1000))
                if r is not None and e[1] == 0:
                    secret = str(r.secret)
                    cs["I"] = str(r.contract.outputid)
                    if public:
                        expect(secret not in public, "a public secret is used for a new swap")
            elif op == "part":
                if "I" not in cs:
                    return None
                r, err = w.during(lambda: wl.atomicswap.participate(W.K(1).text, B.dec(6 * L.UNIT), L.secret_hash(secret), refund_time=L.T0 + 500))
                if r is not None:
                    cs["P"] = str(r.contract.outputid)
            elif op == "verify":
                r, err = w.during(lambda: wl.atomicswap.verify(cs.get(e[2], "7b" * 32), secret_hash=L.secret_hash(secret) if secret else None))
            elif op == "redeem":
                if secret is None or e[2] not in cs:
                    return None
                # a redemption that spends the contract on the network makes its secret public; others must keep it
                right = e[3] == "right"
                due = l.outs[cs[e[2]]]["spent"] is None if cs[e[2]] in l.outs else False
                allowed = right and due and name in ("rP", "rI")
                if allowed and secret not in public:
                    w.forget("the secret of a swap")
                    public.add(secret)
                given = secret if right else "5b" * 32 if e[3] == "wrong" else secret[:32]
                r, err = w.during(lambda: wl.atomicswap.redeem(cs[e[2]], given))
            elif op == "refund":
                if e[2] not in cs:
                    return None
                r, err = w.during(lambda: wl.atomicswap.refund(cs[e[2]]))
            elif op == "time":
                if l.time >= e[1]:
                    return None
                l.mine(dt=e[1] - l.time)
                r = err = None
            elif op == "refuse":
                for p_ in ps:
                    p_.ex.refuse = True
                r = err = None
            elif op == "send":
                r, err = w.during(lambda: wl.coins_send(W.K(3).text, B.dec(L.UNIT)))
                look(w, r)
            else:
                r, err = w.during(lambda: [W.amounts(wl.balance), [json.dumps(t.json()) + str(t) for t in wl.transactions]])
                w.search("the history", json.dumps(r))
            out.append(type(err).__name__ if err is not None else "-")
    return out


@family
def fresh(case):
    """[what, state of the program's random generator before the first, before the second]: no two are the same"""
    what, a, b = case
    made = []
    for st in (a, b):
        keep = random.getstate()
        try:
            if st is not None:
                random.seed(st)
            if what == "wallet":
                wl = TFChainWallet(key_count=1, key_scan_count=0, client=W.client(L.Ledger("devnet")))
                m = wl.mnemonic
                same(len(m.split()), 24, "words of a new wallet")
                same(TFChainWallet(seed=m, key_count=1, key_scan_count=0, client=W.client(L.Ledger("devnet"))).address, wl.address, "wallet from the words")
            elif what == "secret":
                m = str(AtomicSwapSecret.random())
                same(len(m), 64, "size of a secret")
            else:
                s = O.Scene({"bal": [[90 * O.F, "a", "c"]], "mint": O.OWN["a"]})
                if what == "swap":
                    m = str(s.wallet.atomicswap.initiate(O.TEXT["x"], O.money(5 * O.F), refund_time=L.T0 + 10 ** 4).secret)
                    expect(any(bytes.fromhex(m)), "secret {}", m)
                else:
                    m = s.wallet.minter.coins_new(O.TEXT["x"], O.money(5 * O.F)).transaction.json()["data"]["nonce"]
        finally:
            random.setstate(keep)
        made.append(m)
    expect(made[0] != made[1], "{} created twice: {}", {"wallet": "the same wallet was", "nonce": "the same nonce was"}.get(what, "the same secret was"), made[0])
    return [what]


def run(ctx):
    Th = ctx.thorough
    F = O.F
    bal = [[900 * F, "a", "c"], [800 * F, "b", "c"], [700 * F, "m", "c"], [650 * F, "p", "c"], [600 * F, "a", "u"], [7 * F, "a", "l"]]
    ops = [list(x) for x in O.base_ops(50 * F)] + [["mint", {"amount": 5 * F, "to": O.TO}], ["def", {"to": O.TO}], ["send", {"amount": 10 ** 6 * F, "to": O.TO}], ["new", {"months": 99, "names": ["chatbot"], "key": 0}],
                                                   ["init", {"amount": 5 * F, "to": O.U[2], "time": L.T0 + 1000, "submit": False}], ["init", {"amount": 1, "to": O.U[2], "time": L.T0 + 1000}],
                                                   ["reg", {"key": None}], ["upd", {"id": 4, "months": 1}], ["upd", {"id": 3, "months": 1}]]

    def case(op, a, src=None, **kw):
        return dict({"bal": bal, "bots": O.BOTS, "mint": O.OWN["p"] if op in ("mint", "def") else None, "op": op, "a": a, "src": src}, **kw)
    srcs = (None, "a", "m", "p", "ma") if Th else (None, "m")
    ctx.all(operation, ([case(op, a, src, **kw), None, "", []] for op, a in ops for src in srcs for kw in ({}, {"refuse": True}, {"data": "hello"}, {"ref": O.OWN["b"]}, {"scan": 2})), parallel=True, chunk=8)
    ctx.all(operation, ([case(op, a, src), k, kind, []] for op, a in ops for src in srcs for k in range(24 if Th else 14) for kind in KINDS), parallel=True, chunk=16)
    ctx.all(operation, ([case(op, a), None, "", [case(op2, a2)]] for op, a in ops for op2, a2 in ops), parallel=True, chunk=16)
    names = list(SW)
    ctx.all(swaps, ([["iA"] + list(x) for n in range(0, 4) for x in itertools.product(names, repeat=n)]), parallel=True, chunk=64)
    if Th:
        ctx.all(swaps, (["iA", "pB"] + list(x) for x in itertools.product(names, repeat=4)), parallel=True, chunk=128)
    states = [None] + list(range(12 if Th else 4))
    ctx.all(fresh, ([what, a, b] for what in ("wallet", "secret", "swap", "nonce") for a in states for b in states))
