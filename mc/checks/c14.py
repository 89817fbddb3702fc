"""C14: wallet operations conserve value and submit only complete transactions."""
import itertools

import tfchain.errors
from mc import ops as O
from mc import world as W
from mc.core import Succ, expect, family, same
from mc.ref import ledger as L
from mc.ref import types as R
from mc.ref import txn as X

PROPERTY = "C14"
LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of wallet operations on the real wallet over a reference ledger, and breadth-first search over "
             "sequences of operations and blocks; every submitted document is validated by the ledger's own rules")
RULE = ("all wallet operations (send, builder, atomic swap initiation and participation, ERC20 sending and registration, 3Bot registration, update and transfer, coin creation and mint "
        "definition) over balances whose outputs make the exact, a short and a generous sum, amounts around every attainable sum, recipient notations, locks, data, networks, "
        "sources, refunds, refusing networks; all sequences of operations and blocks up to a depth; all sequences of calls on one transaction builder up to a depth. Non-trivial always")
ASSUMPTIONS = ["the network accepts exactly what the reference ledger's rules accept", "a data argument of None and empty data mean the same",
               "whether enough can be funded is judged by C13, the tariff itself by C17"]
U, F, OWN = O.U, O.F, O.OWN
TO = O.TO


@family
def op(case):
    return O.run(case, judge="value")


EVENTS = [
    ["send", {"amount": 2 * F + 5, "to": TO}, None, None], ["send", {"amount": 7 * F, "to": ["uh", U[1]]}, "a", None],
    ["send", {"amount": 3 * F, "to": OWN["p"], "lock": 30}, None, ["uh", U[1]]], ["send", {"amount": F, "to": OWN["n"]}, "p", None],
    ["send", {"amount": F, "to": TO}, "m", None], ["send", {"amount": F + 1, "to": TO}, "np", OWN["p"]],
    ["build", {"outs": [[F, TO, None], [2 * F, ["uh", U[0]], 30], [5, OWN["m"], None]]}, "b", None],
    ["init", {"amount": 2 * F, "to": U[2], "time": L.T0 + 100}, None, None], ["erc", {"amount": 3, "addr": "ab" * 20}, None, None],
    ["reg", {"key": 1}, None, None], ["new", {"months": 1, "names": ["chatbot"], "key": 0}, None, None], ["xfer", {"sid": 1, "rid": 2, "names": ["foobar"]}, "ab", None],
]
START = {"bal": [[130 * F, "a", "c"], [9 * F + 1, "a", "c"], [9 * F, "b", "u"], [8 * F, "b", "l"], [4 * F, "p", "c"], [4 * F, "n", "c"], [5 * F, "m", "c"]], "bots": O.BOTS}


@family
def history(case):
    """a sequence of operations and blocks on one ledger"""
    s = O.Scene(START)
    o = "start"
    for e in case:
        if e == "mine":
            o = "mined" if s.l.pool() else None
            s.l.mine()
        elif e == "forward":
            s.l.mine([], dh=max(1, O.LOCK_H - s.l.height))
            o = "forward"
        else:
            op, a, src, ref = EVENTS[e]
            o = O.step(s, {"op": op, "a": a, "src": src, "ref": ref, "bal": START["bal"], "bots": O.BOTS}, "value")
    total = sum(x["value"] for x in s.l.outs.values() if x["spent"] is None)
    state = [s.l.height >= O.LOCK_H, sorted([x["value"], repr(x["cond"][0:1] if x["cond"][0] == "as" else x["cond"]), s.l.confirmed(x["by"])]
                                            for x in s.l.outs.values() if x["spent"] is None), total]
    if o is None:
        return Succ(["stuck"], [], None)
    return Succ(state, list(range(len(EVENTS))) + ["mine", "forward"], o)


ADDS = {"ok": (2 * F, TO, None), "own": (3, OWN["b"], 40), "ms": (F, OWN["m"], None)}
NOT = {"zero": (0, O.TEXT["x"], None), "zeros": ("0 TFT", O.TEXT["x"], None), "less": (-1, O.TEXT["x"], None), "text": ("1.0000000001", O.TEXT["x"], None), "to": ("1 TFT", O.TEXT["x"][:-1], None),
       "lock": ("1 TFT", O.TEXT["x"], "soon"), "none": (None, O.TEXT["x"], None)}


@family
def builder(case):
    """calls on one builder: what was refused is not part of it, and what it has sent is not sent again"""
    s = O.Scene({"bal": [[20 * F, "a", "c"], [9 * F, "b", "c"], [5 * F, "a", "u"]]})
    b = s.wallet.coin_transaction_builder_new()
    outs, sent, o = [], None, "start"
    for e in case:
        n0 = len(s.ex.posted)
        if e in ADDS and not sent:
            n, c, k = ADDS[e]
            b.output_add(O.recipient(c), O.money(n), lock=k)
            outs.append([n, O.lockit(c, k)])
            o = "added"
        elif e == "send" and not sent and outs:
            r = b.send()
            same([r.submitted, len(s.ex.posted) - n0], [True, 1], "submitted")
            sent = s.ex.posted[-1]
            co = X.couts(sent)
            same(co[:len(outs)], outs, "outputs")
            expect(len(co) <= len(outs) + 1, "more outputs than requested")
            for x in co[len(outs):]:
                same(x[1], s.change_cond(), "condition of the change")
            same(sum(s.l.outs[p]["value"] for p, _ in sent["cin"]), sum(x[0] for x in co) + sum(L.fees_of(sent)), "value of the inputs against outputs and fees")
            o = "sent"
        else:
            try:
                if e == "send":
                    b.send()
                elif e in ADDS:
                    b.output_add(O.recipient(ADDS[e][1]), O.money(ADDS[e][0]))
                else:
                    b.output_add(NOT[e][1], NOT[e][0], lock=NOT[e][2])
            except Exception:
                o = "refused"
            else:
                expect(False, "{} was not refused", e)
            same(len(s.ex.posted), n0, "submissions of a refused call")
    # a builder without any output is not sent here
    return Succ([outs, bool(sent)], list(ADDS) + list(NOT) + (["send"] if outs else []), o)


@family
def fault2(case):
    """[operation, scan, request]: the same for claiming a swap and for co-signing"""
    op_, scan, k = case
    s = O.Scene({"bal": [[9 * F, "a", "c"], [9 * F, "m", "c"], [9 * F, "n", "u"]], "scan": scan, "mint": OWN["m"], "bots": O.BOTS})
    w = s.wallet
    if op_ in ("redeem", "refund"):
        secret = "5e" * 32
        ends = (U[2], U[0]) if op_ == "redeem" else (U[1], U[3])
        cid = s.l.give([[7 * F, ["as", ends[0], ends[1], L.secret_hash(secret), s.l.time - 5]]])[0]
        call = (lambda: w.atomicswap.redeem(cid, secret)) if op_ == "redeem" else (lambda: w.atomicswap.refund(cid))
    else:
        other = W.Party(s.l, O.YOU, keys=2).wallet
        if op_ == "sign":
            t = other.coins_send(O.TEXT["x"], O.money(3 * F), source=O.TEXT["m"]).transaction
        elif op_ == "mint":
            t = other.minter.coins_new(O.TEXT["a"], O.money(3 * F)).transaction
        else:
            s.l.give([[200 * F, OWN["m"]]])
            t = other.threebot.record_update(3, months=2, source=O.TEXT["m"]).transaction
        doc = t.json()
        call = lambda: w.transaction_sign(doc).submitted
    n0 = len(s.ex.gets)
    def down():
        raise tfchain.errors.ExplorerServerError("no explorer answers", "/")
    s.ex.moves[n0 + k] = down
    try:
        r = call()
    except tfchain.errors.ExplorerServerError:
        expect(not s.ex.posted, "the operation failed although its transaction has been submitted")
        return "failed"
    same(bool(r), bool(s.ex.posted), "reported as submitted")
    expect(s.ex.posted, "a complete transaction was not submitted")
    return "done"


MOVES = {
    "mine": lambda s: s.l.mine(),
    "receive": lambda s: s.l.give([[50 * F, OWN["a"]], [60 * F, OWN["m"]]], mine=False),
    "received": lambda s: s.l.give([[50 * F, OWN["b"]]]),
    "forward": lambda s: s.l.mine([], dh=max(1, O.LOCK_H - s.l.height), dt=max(1, O.LOCK_T - s.l.time)),
    "spend": lambda s: elsewhere(s, "a"), "spendms": lambda s: elsewhere(s, "m"),
    "expire": lambda s: [r.update(exp=s.l.time) for r in s.l.bots.values()],
}


def elsewhere(s, w):
    """the owner spends everything of an address with another device"""
    own = [i for i, o in s.l.outs.items() if o["spent"] is None and R.cond_uh(o["cond"]) == R.cond_uh(OWN[w])]
    if own:
        s.l.submit({"v": 1, "cin": [[p, ["ss", W.K(1).pk, O.SIG]] for p in own], "cout": [[1, ["nil"]]], "bin": [], "bout": [], "fees": [1], "data": "ee" * 4})


@family
def meanwhile(case):
    """[scene, [[move, request]..]]: the network moves on just before the given requests of an operation"""
    c, moves = case
    s = O.Scene(c)
    s.ex.strict = False
    n0 = len(s.ex.gets)
    for m, k in moves:
        s.ex.moves[n0 + k] = lambda m=m: MOVES[m](s)
    o = O.step(s, c, "value")
    if s.ex.moves:
        return None
    return [o, bool(s.ex.refused)]


@family
def fault(case):
    """[scene, request]: no explorer answers the given request of an operation; an operation that fails has not submitted anything"""
    c, k = case
    s = O.Scene(c)
    n0 = len(s.ex.gets)
    def down():
        raise tfchain.errors.ExplorerServerError("no explorer answers", "/")
    s.ex.moves[n0 + k] = down
    try:
        o = O.step(s, c, "value")
    except tfchain.errors.ExplorerServerError:
        expect(not s.ex.posted, "the operation failed although its transaction has been submitted")
        return "failed"
    if s.ex.moves:
        return None
    return o


def run(ctx):
    ctx.bfs(history, [[]], 4 if ctx.thorough else 3, parallel=True, chunk=10)
    ctx.bfs(builder, [[]], 4 if ctx.thorough else 3, parallel=True, chunk=10)
    ctx.all(fault2, [[o, n, k] for o in ("redeem", "refund", "sign", "mint", "bot") for n in (0, 1, 2, 3) for k in range(0, 50)], parallel=True, chunk=25)
    def sums():
        """balances and amounts around every attainable sum"""
        vals = (1, F // 2, F, F + 1, 3 * F)
        kinds = [[v, w, s] for w, s in (("a", "c"), ("b", "c"), ("b", "u")) for v in vals] + [[3 * F, "a", "l"], [3 * F, "m", "c"]]
        for n in range(0, 4 if ctx.thorough else 3):
            for bal in itertools.combinations_with_replacement(kinds, n):
                can = [b[0] for b in bal if b[1] in "ab" and b[2] in "cu"]
                marks = {sum(c) for k in range(1, len(can) + 1) for c in itertools.combinations(can, k)}
                for need in sorted({m + d for m in marks for d in (-1, 0, 1)} | {0, 1, 5 * F}):
                    m = need - F
                    if m < 0:
                        continue
                    for o, a in O.base_ops(m):
                        if o in ("new", "upd", "xfer", "reg") or (o == "build" and m < 2):
                            continue
                        yield {"bal": list(bal), "op": o, "a": a}
    ctx.all(op, sums(), parallel=True, chunk=50)

    def protocol():
        """operations with a given cost around the balance, every source and refund"""
        refs = [None, ["uh", U[1]], TO, OWN["m"], ["ms", [U[0], U[1], U[2]], 1]]
        for o, a in O.base_ops(3 * F):
            need = O.cost(o, a) + F
            for d in (-1, 0, 1, F):
                for bal in ([[need + d, w, "c"] for w in "abmnpq"], [[need // 2, w, "c"] for w in "abmnpq"] + [[need - need // 2 + d, w, "u"] for w in "abmnpq"]):
                    for src in (None, "a", "b", "m", "n", "p", "q", "ab", "am", "np", "bmq"):
                        for ref in refs:
                            yield {"bal": bal, "op": o, "a": a, "src": src, "ref": ref, "bots": O.BOTS}
    ctx.all(op, protocol(), parallel=True, chunk=50)

    def variety():
        """recipients, locks, data, networks, refusing network"""
        tos = [["nil"], ["uh", U[0]], TO, OWN["m"], OWN["n"], ["ms", [U[0], U[1], U[2]], 2]]
        locks = [None, 1, 499999999, 500000000, L.T0 + 5]
        datas = [None, "", "x", " a b\n", {"hex": "00616200"}, "a text \u00e9\u20ac", {"hex": "00ff"}, {"hex": "ab" * 83}, {"hex": "ab" * 84}, "z" * 84]
        bal = [[9 * F + 7, "a", "c"], [5 * F, "b", "u"], [3 * F, "m", "c"]]
        for net in ("standard", "testnet", "devnet"):
            for refuse in (False, True):
                base = {"bal": bal, "net": net, "refuse": refuse, "bots": O.BOTS}
                for to in tos:
                    for lock in locks:
                        for data in datas:
                            for form in (0, 1, 2):
                                if form == 0 or data in (None, "x"):
                                    if form == 1 and to[0] == "nil":
                                        continue
                                    f = 1 if form == 1 else 0
                                    yield dict(base, op="send", a={"amount": 2 * F + form, "to": to, "lock": lock, "form": f}, data=data)
                    for lock2 in locks:
                        yield dict(base, op="build", a={"outs": [[F, to, lock2], [2 * F, TO, None], [3, to, 77]]}, data="x")
                for z in range(3):
                    yield dict(base, op="build", a={"outs": [[0 if i == z else F, TO, None] for i in range(3)]})
                for data in datas:
                    yield dict(base, op="build", a={"outs": [[F, TO, None]]}, data=data)
                    for o in ("init", "part"):
                        for sub in (True, False):
                            a = {"amount": 2 * F, "to": U[2], "time": L.T0 + 1000, "submit": sub}
                            if o == "part":
                                a["hash"] = "3c" * 32
                            for src, ref in ((None, None), ("a", None), ("m", None), (None, ["uh", U[1]]), ("a", OWN["m"])):
                                yield dict(base, op=o, a=a, data=data, src=src, ref=ref)
                for o, a in O.base_ops(0):
                    if o not in ("new", "upd", "xfer", "reg", "build"):
                        yield dict(base, op=o, a=a)
                for a in ({"amount": 1, "addr": "0a" * 20, "via": "send"}, {"amount": 3 * F + 1, "addr": "0a" * 20, "form": 1}, {"amount": 9 * F + 7 - F, "addr": "0a" * 20, "form": 2}):
                    yield dict(base, op="erc", a=a)
                big = [[500 * F, "a", "c"], [5 * F, "b", "u"]]
                for k in (None, 0, 1, "t0", "t1", "u1"):
                    yield dict(base, op="reg", a={"key": k}, bal=big)
                for k in (None, 0, 1):
                    yield dict(base, op="new", a={"months": 2, "addrs": [["h", "example.org"], ["4", "7f000001"]], "names": ["chatbot", "foobar2"], "key": k}, bal=big)
                for s, r in itertools.product((1, 2, 3), repeat=2):
                    if s != r:
                        yield dict(base, op="xfer", a={"sid": s, "rid": r, "names": ["foobar"]}, bal=big)
                for i in (1, 2, 3):
                    for a in ({"months": 1}, {"nadd": ["chatbot"], "nrem": ["foobar"]}, {"aadd": [["6", "00" * 15 + "01"]], "months": 12}):
                        yield dict(base, op="upd", a=dict(a, id=i), bal=big)
                for mint in (["uh", U[0]], ["uh", U[2]], OWN["m"], OWN["n"], OWN["p"], OWN["q"], ["lt", 0, ["uh", U[1]]]):
                    for to in tos:
                        for data in (None, "x", {"hex": "ab" * 83}, {"hex": "ab" * 84}):
                            for lock in (None, 44):
                                yield dict(base, op="mint", a={"amount": 5, "to": to, "lock": lock}, mint=mint, data=data)
                            yield dict(base, op="def", a={"to": to}, mint=mint, data=data)
                    yield dict(base, op="mint", a={"amount": 0, "to": TO}, mint=mint)
    ctx.all(op, variety(), parallel=True, chunk=50)

    def crossed():
        """lock, recipient, source, refund and data together, in sending, building and swaps"""
        tos = [["nil"], TO, OWN["m"], ["ms", [U[0], U[1], U[2]], 2]]
        bal = [[9 * F + 7, w, "c"] for w in "abmnp"] + [[2 * F, w, s] for w in "abm" for s in "ul"]
        srcs = [None, "a", "b", "m", "n", "p", "ab", "bn"] if ctx.thorough else [None, "b", "m", "n", "ab"]
        refs = [None, ["uh", U[0]], ["uh", U[1]], TO, OWN["m"], OWN["n"], ["ms", [U[0], U[1], U[2]], 1]]
        locks = (None, 7, L.T0 + 10 ** 7)
        for src in srcs:
            for ref in refs:
                for data in (None, "x", {"hex": "00ff"}) if ctx.thorough else (None, "x"):
                    base = {"bal": bal, "src": src, "ref": ref, "data": data}
                    for to in tos:
                        for lock in locks:
                            for n in (2 * F, 8 * F + 6, 8 * F + 7, 8 * F + 8):
                                yield dict(base, op="send", a={"amount": n, "to": to, "lock": lock, "form": n % 3 if to[0] != "nil" else 0})
                            for lock2 in locks:
                                yield dict(base, op="build", a={"outs": [[F, to, lock], [2 * F, ref or TO, lock2]]})
                                yield dict(base, op="build", a={"outs": [[F, to, lock], [F, to, lock2], [3, OWN["a"], lock]]})
    ctx.all(op, crossed(), parallel=True, chunk=50)
    def meanwhiles():
        for o, a in O.base_ops(3 * F):
            need = O.cost(o, a) + F
            for bal in ([[need + 1, "a", "c"], [need, "m", "c"]], [[need // 2, "a", "c"], [need, "b", "u"], [need, "a", "l"], [need // 2 + 5, "m", "c"], [need, "m", "k"]]):
                for src in (None, "m", "ab"):
                    c = {"bal": bal, "op": o, "a": a, "src": src, "bots": O.BOTS, "maybe": 1}
                    for m in MOVES:
                        for k in range(0, 14):
                            yield [c, [[m, k]]]
                            if ctx.thorough:
                                for m2 in MOVES:
                                    for k2 in range(k + 1, 14):
                                        yield [c, [[m, k], [m2, k2]]]
    ctx.all(meanwhile, meanwhiles(), parallel=True, chunk=25)

    def faults():
        ops = [(o, a, O.cost(o, a) + F, None) for o, a in O.base_ops(3 * F)] + [("mint", {"amount": 5, "to": OWN["a"]}, 0, OWN["a"]), ("def", {"to": OWN["b"]}, 0, OWN["n"])]
        for o, a, need, mint in ops:
            for bal in ([[need + 7, "a", "c"], [need + 7, "m", "c"], [need + 5, "n", "c"]], [[need // 2 + 1, "a", "c"], [need, "b", "u"], [need // 2 + 5, "n", "c"], [need, "n", "u"]]):
                for src in (None, "n", "ab", "m"):
                    for scan in (0, 2):
                        for k in range(0, 40 if scan else 14):
                            yield [{"bal": bal, "op": o, "a": a, "src": src, "bots": O.BOTS, "scan": scan, "mint": mint}, k]
    ctx.all(fault, faults(), parallel=True, chunk=25)
