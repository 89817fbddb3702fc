"""C17: fees, limits and activity rules of 3Bot transactions.

tariff: the required fee of every transaction, for every count of months, names and addresses, however the transaction was made.
limits: filling transactions beyond their limits. pays: the wallet operations, whose payment is read from the posted document.
active: expiration times around the chain time, for every role and owner. history: breadth-first search over what two wallets can do
with the bots of one chain, with records that expire."""
import itertools
import json

import tfchain.errors as E
from tfchain.types import transactions as T

from mc import build as B
from mc import ops as O
from mc import world as W
from mc.core import Bad, Succ, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive products of counts and times on the real transactions and wallets + explicit-state search over the histories of two wallets"
RULE = "an evaluation judges one transaction, one operation or one history; all are non-trivial (a fee, a refusal or a payment is compared)"
ASSUMPTIONS = [
    "explorers report the records truthfully",
    "a change of network addresses is charged for additions and removals alike, as the chain does",
    "every 3Bot has a key of its own",
    "whether the names of a transfer belong to the sender and whether a name is listed twice is decided by the chain, not judged here",
]
UNIT = L.UNIT
NM = ["name%d" % i for i in range(8)]
AD = [["4", "0a0000%02x" % i] for i in range(1, 13)]
HOST = ["h", "bot.threefold.me"]
PK = W.K(7).pk
CLEAN = (ValueError, TypeError)


def tariff(v, months=0, names=0, addresses=0):
    """the chain's tariff; names: registered, added or transferred; addresses: added or removed"""
    n = {144: 90, 145: 0, 146: 0}[v]
    n += 10 * months * (10 if months < 12 else 7 if months < 24 else 5) / 10
    assert n == int(n)
    n = int(n)
    if v == 144:
        n += 50 * max(0, names - 1)
    else:
        n += 50 * names
        if v == 145 and addresses:
            n += 20
    return n * UNIT


def blank(v):
    b = {"v": v, "fee": 10 ** 8, "cin": [], "refund": None}
    b.update({144: {"months": 1, "names": [], "addrs": [], "pk": PK, "sig": "ab" * 64},
              145: {"id": 3, "months": 0, "nadd": [], "nrem": [], "aadd": [], "arem": [], "sig": "ab" * 64},
              146: {"sid": 3, "rid": 4, "names": [], "ssig": "ab" * 64, "rsig": "cd" * 64}}[v])
    return b


LISTS = {144: (("names", "names", "name_add", 5), ("addrs", "addresses", "address_add", 10)),
         145: (("nadd", "names_to_add", "name_add", 5), ("nrem", "names_to_remove", "name_remove", 5), ("aadd", "addresses_to_add", "address_add", 10),
               ("arem", "addresses_to_remove", "address_remove", 10)),
         146: (("names", "names", "name_add", 5),)}


def make(s, route):
    if route in ("json", "set"):
        return B.txn(s, route)
    v = s["v"]
    o = {144: T.threebot_registration_new, 145: T.threebot_record_update_new, 146: T.threebot_name_transfer_new}[v]()
    o.transaction_fee = B.cur(s["fee"])
    if "months" in s and s["months"]:
        o.number_of_months = s["months"]
    if v == 144:
        o.public_key = B.pk(s["pk"])
        o.signature = s["sig"]
    elif v == 145:
        o.botid = s["id"]
        o.signature = s["sig"]
    else:
        o.sender_botid, o.receiver_botid = s["sid"], s["rid"]
        o.sender_signature, o.receiver_signature = s["ssig"], s["rsig"]
    for k, _, add, _ in LISTS[v]:
        for x in s[k]:
            getattr(o, add)(x if isinstance(x, str) else X.netaddr_js(x))
    return o


@family
def tariff_of(case):
    """[version, months, counts per list, route]"""
    v, months, counts, route = case
    s = blank(v)
    if "months" in s:
        s["months"] = months
    for (k, _, _, _), n in zip(LISTS[v], counts):
        s[k] = (NM[:n] if k[0] == "n" else ([HOST] + AD)[:n])
    o = make(s, route)
    names = counts[0]
    addresses = counts[2] + counts[3] if v == 145 else 0
    want = tariff(v, months, names, addresses)
    same(B.nano(o.required_bot_fees), want, "required fee")
    same(B.nano(o.required_bot_fees), want, "required fee, asked again")
    same(X.of_json(json.loads(json.dumps(o.json()))), s, "document")
    same([B.nano(f) for f in o.miner_fees], [s["fee"]], "miner fees")
    return [v, want]


def tariff_cases(ctx):
    for route in ("json", "set", "add"):
        for m in range(1, 25):
            for n in range(6):
                for a in range(11) if ctx.thorough else (0, 1, 10):
                    yield [144, m, [n, a], route]
        for m in range(25):
            for na, nr in itertools.product(range(6), range(6) if ctx.thorough else (0, 1, 5)):
                for aa, ar in itertools.product((0, 1, 2, 9, 10), (0, 1, 2, 9, 10)) if ctx.thorough else itertools.product((0, 1, 10), (0, 1, 10)):
                    yield [145, m, [na, nr, aa, ar], route]
        for n in range(6):
            yield [146, 0, [n], route]


# --- limits
@family
def limits(case):
    """[version, list index or "months", first count, second count, route]: assigning a list replaces it, adding extends it"""
    v, what, a, b, route = case
    o = make(blank(v), "set")
    if what == "months":
        for n in (a, b):
            ok = (1 if v == 144 else 0) <= n <= 24
            before = o.number_of_months
            try:
                o.number_of_months = n
            except CLEAN:
                expect(not ok, "{} months are refused", n)
                same(o.number_of_months, before, "months after a refusal")
            else:
                expect(ok, "{} months are accepted", n)
                same(o.number_of_months, n, "months")
        return [v, ok]
    k, attr, add, top = LISTS[v][what]
    items = lambda n, off: (NM * 3)[off:off + n] if k[0] == "n" else [X.netaddr_js(x) for x in AD[off:off + n]]
    have = 0
    for n, off in ((a, 0), (b, 1)):
        try:
            if route == "set":
                setattr(o, attr, items(n, off))
                have = n
            else:
                for x in items(n, off):
                    have += 1
                    getattr(o, add)(x)
        except Bad:
            raise
        except Exception as x:
            expect((n if route == "set" else have) > top, "{} {} are refused: {}", n, attr, repr(x))
            expect(len(getattr(o, attr)) <= top, "{} of {}", len(getattr(o, attr)), attr)
            return [v, attr, "refused"]
        expect(have <= top, "{} {} are accepted", have, attr)
        same(len(getattr(o, attr)), have, "number of " + attr)
    return [v, attr, have]


def limit_cases(ctx):
    for v in (144, 145):
        for a, b in itertools.product((-2, -1, 0, 1, 2, 11, 12, 23, 24, 25, 26, 48, 256, 2 ** 31), repeat=2):
            yield [v, "months", a, b, ""]
    for v in LISTS:
        for i, (k, _, _, top) in enumerate(LISTS[v]):
            for a in range(top + 2):
                for b in range(top + 2):
                    for route in ("set", "add"):
                        if a + b or route == "set":
                            yield [v, i, a, b, route]


# --- the wallet
BIG = 4000 * UNIT


def with_bots(case):
    return dict(case, bots=case.get("bots") or O.BOTS)


@family
def pays(case):
    return O.run(with_bots(case), "value")


def pay_cases(ctx):
    def both(op, a, v, **kw):
        need = tariff(v, **kw) + L.MIN_FEE["devnet"]
        yield {"bal": [[need, "a", "c"]], "op": op, "a": a}
        yield {"bal": [[need + 1, "b", "c"], [BIG, "a", "c"]] if need % 3 else [[need - 1, "a", "c"], [1, "b", "c"]], "op": op, "a": a}
    for m in range(1, 25):
        for n in range(6):
            for a in (0, 1, 10):
                if n + a:
                    yield from both("new", {"months": m, "names": NM[:n] or None, "addrs": AD[:a] or None, "key": [None, 0, 1][(m + n) % 3]}, 144, months=m, names=n)
    for m in range(25):
        for n in range(6):
            for r in (0, 5) if not ctx.thorough else (0, 1, 5):
                for a, b in ((0, 0), (1, 0), (0, 1), (10, 0), (0, 10), (10, 10)):
                    if m + n + r + a + b:
                        yield from both("upd", {"id": 1, "months": m, "nadd": NM[:n] or None, "nrem": NM[3:3 + r] if r < 5 and r else (["other%d" % i for i in range(r)] or None),
                                                "aadd": AD[:a] or None, "arem": AD[2:2 + b] or None}, 145, months=m, names=n, addresses=a + b)
    for n in range(1, 6):
        for s, r in ((1, 2), (2, 1), (1, 3), (3, 1)):
            yield from both("xfer", {"sid": s, "rid": r, "names": NM[:n]}, 146, names=n)
    for m in (0, 25, -1, 100):
        yield {"bal": [[BIG, "a", "c"]], "op": "new", "a": {"months": m, "names": NM[:1], "bad": True}}
    for m in (25, -1, 48):
        for n in (None, NM[:1]):
            yield {"bal": [[BIG, "a", "c"]], "op": "upd", "a": {"id": 1, "months": m, "nadd": n, "bad": True}}
    # a key which is none
    for k in (-1, -2, 2, 50):
        yield {"bal": [[BIG, "a", "c"]], "op": "new", "a": {"months": 1, "names": NM[:1], "key": k, "bad": True}}
    # nothing to register, change or transfer
    for n, a in itertools.product((None, []), repeat=2):
        for m in (1, 12):
            yield {"bal": [[BIG, "a", "c"]], "op": "new", "a": {"months": m, "names": n, "addrs": a, "bad": True}}
    for l in itertools.product((None, []), repeat=4):
        yield {"bal": [[BIG, "a", "c"]], "op": "upd", "a": dict(zip(("nadd", "nrem", "aadd", "arem"), l), id=1, months=0, bad=True)}
    yield {"bal": [[BIG, "a", "c"]], "op": "xfer", "a": {"sid": 1, "rid": 2, "names": [], "bad": True}}


@family
def beyond(case):
    """[op, arguments]: more names or addresses than a transaction may carry"""
    op, a = case
    s = O.Scene(with_bots({"bal": [[BIG, "a", "c"]], "op": op, "a": a}))
    call = O.PLAN[op](s, a)[0]
    try:
        call()
    except Bad:
        raise
    except Exception:
        same(s.ex.posted, [], "documents submitted")
        return "refused"
    bad("accepted")


def beyond_cases():
    hosts = [["h", "host%d.threefold.me" % i] for i in range(12)]
    for n in (6, 7):
        yield ["new", {"months": 1, "names": NM[:n]}]
        yield ["xfer", {"sid": 1, "rid": 2, "names": NM[:n]}]
        for k in ("nadd", "nrem"):
            for m in (0, 3):
                yield ["upd", {"id": 1, "months": m, k: NM[:n]}]
    for n in (11, 12):
        for l in (AD, hosts):
            yield ["new", {"months": 1, "names": NM[:1], "addrs": l[:n]}]
            for k in ("aadd", "arem"):
                yield ["upd", {"id": 1, "months": 1, k: l[:n]}]


# --- active and inactive bots
CHANGES = {"nothing": {}, "nadd": {"nadd": NM[:1]}, "nrem": {"nrem": ["foobar"]}, "aadd": {"aadd": AD[:1]}, "arem": {"arem": AD[:1]}}


@family
def active(case):
    """{op, exp: expiration - chain time per bot, key: [who, index] per bot, dt, a}"""
    c = case
    bots = {str(i + 1): {"key": k, "exp": e, "names": ["foobar"] if i == 0 else []} for i, (k, e) in enumerate(zip(c["key"], c["exp"]))}
    case = {"bal": [[BIG, "a", "c"]], "op": c["op"], "a": c["a"], "bots": bots}
    s = O.Scene(case)
    for i in s.l.bots:
        s.l.bots[i]["exp"] = s.l.time + c["exp"][i - 1]
    if c["op"] == "upd":
        dead = c["a"]["id"] == 1 and c["exp"][0] <= 0 and not c["a"].get("months")
    else:
        dead = c["exp"][0] <= 0 or c["exp"][1] <= 0
    unknown = any(i > len(bots) for i in ([c["a"]["id"]] if c["op"] == "upd" else [c["a"]["sid"], c["a"]["rid"]]))
    if dead or unknown:
        try:
            O.PLAN[c["op"]](s, c["a"])[0]()
        except E.ThreeBotInactive as x:
            expect(dead, "refused as inactive")
            who = [c["a"].get("id", c["a"].get("sid")), c["a"].get("rid")]
            expect(x.identifier in [i for i in who if i and i <= len(bots) and c["exp"][i - 1] <= 0], "the bot named as inactive is {}", x.identifier)
            same(x.expiration, s.l.bots[x.identifier]["exp"], "expiration named")
        except E.ThreeBotNotFound as x:
            expect(unknown, "refused as unknown")
            expect(str(x.identifier) == "9", "the bot named as unknown is {}", x.identifier)
        else:
            bad("carried out although the bot is {}", "inactive" if dead else "unknown")
        same(s.ex.posted, [], "documents submitted")
        return [c["op"], "refused", dead, unknown]
    return [c["op"], O.step(s, case, "value")]


def active_cases(ctx):
    E_ = (-2 ** 30, -3600, -1, 0, 1, 3600, 2 ** 30)
    KEYS = ([O.ME, 0], [O.ME, 1], [O.YOU, 0])
    for e in E_:
        for k in KEYS:
            for m in (0, 1, 12, 24):
                for ch in CHANGES:
                    if m or ch != "nothing":
                        yield {"op": "upd", "exp": [e], "key": [k], "a": dict(CHANGES[ch], id=1, months=m)}
                        if k == KEYS[0]:
                            yield {"op": "upd", "exp": [e], "key": [k], "a": dict(CHANGES[ch], id=9, months=m)}
    for e, f in itertools.product(E_, E_):
        for k, q in itertools.product(KEYS, KEYS):
            for n in (1, 5) if ctx.thorough or k == q else (1,):
                if k != q:
                    yield {"op": "xfer", "exp": [e, f], "key": [k, q], "a": {"sid": 1, "rid": 2, "names": (["foobar"] + NM)[:n]}}
    for sid, rid in ((1, 9), (9, 2), (9, 9)):
        yield {"op": "xfer", "exp": [5, 5], "key": [KEYS[0], KEYS[1]], "a": {"sid": sid, "rid": rid, "names": ["foobar"]}}


# --- histories
MONTH = 30 * 24 * 3600
PARTY = {"A": 1, "B": 2}


def apply(l, spec, now):
    """what a mined 3Bot transaction does to the records"""
    v = spec["v"]
    if v == 144:
        l.bots[len(l.bots) + 1] = {"names": sorted(spec["names"]), "addrs": sorted(spec["addrs"]), "pk": spec["pk"], "exp": now + MONTH * spec["months"]}
    elif v == 145:
        b = l.bots[spec["id"]]
        b["names"] = sorted((set(b["names"]) | set(spec["nadd"])) - set(spec["nrem"]))
        b["addrs"] = [x for x in sorted(b["addrs"] + [y for y in spec["aadd"] if y not in b["addrs"]]) if x not in spec["arem"]]
        if spec["months"]:
            b["exp"] = max(now, b["exp"]) + MONTH * spec["months"]
    else:
        s, r = l.bots[spec["sid"]], l.bots[spec["rid"]]
        s["names"] = [n for n in s["names"] if n not in spec["names"]]
        r["names"] = sorted(r["names"] + spec["names"])


@family
def history(h):
    l = L.Ledger("devnet")
    l.give([[5000 * UNIT, ["uh", W.K(n, i).uh]] for n in PARTY.values() for i in (0, 1, 0, 1)])
    ps = {k: W.Party(l, n, keys=2, network="devnet") for k, n in PARTY.items()}
    keyof = {k: {W.K(n, i).pk for i in range(4)} for k, n in PARTY.items()}
    count = {"A": 2, "B": 2}
    drafts = []       # [document, spec, signers missing]
    applied = set()
    verdict = None

    def check(p, res, who, n, v, want, fields, missing):
        spec = X.of_json(json.loads(json.dumps(res.transaction.json())))
        same(bool(res.submitted), not missing, "reported as submitted")
        same(p.ex.posted[n:], [] if missing else [spec], "submitted documents")
        same(spec["v"], v, "version")
        for f, x in fields.items():
            same(spec[f], x, "field " + f)
        ins = sum(l.outs[i]["value"] for i, _ in spec["cin"])
        outs = sum(o[0] for o in X.couts(spec))
        same(ins - outs - spec["fee"], want, "fee paid to the chain")
        same(spec["fee"], L.MIN_FEE["devnet"], "miner fee")
        same(B.nano(res.transaction.required_bot_fees), want, "required fee")
        sigs = {}
        for lab, ex, pk, sig in X.signatures(spec):
            if sig:
                expect(L.verifies(pk, X.digest(spec, ex), sig), "a signature does not verify")
        if v == 144:
            expect(L.verifies(spec["pk"], X.digest(spec, [["raw", X.SENDER.hex()]]), spec["sig"]), "the registration is not signed by its own key")
        if v == 145:
            expect(bool(spec["sig"]) == (not missing), "signature of the bot: {}", spec["sig"])
        return spec

    for e in h[1:]:
        op, who = e[0], e[1]
        p = ps.get(who)
        n = len(p.ex.posted) if p else 0
        verdict = None
        if op == "mine":
            now = l.time + 100
            todo = [l.txs[i]["t"] for i in l.pool()]
            l.mine(dt=100)
            for t in todo:
                if t["v"] in (144, 145, 146):
                    apply(l, t, now)
        elif op == "time":
            l.mine(txids=[], dt=e[2])
        elif op == "new":
            months, names, key = e[2], e[3], e[4]
            res = p.wallet.threebot.record_new(months=months, names=names, key_index=key)
            if key is None:
                count[who] += 1
            fields = {"months": months, "names": names, "addrs": [], "pk": W.K(PARTY[who], count[who] - 1 if key is None else key).pk}
            check(p, res, who, n, 144, tariff(144, months, len(names)), fields, [])
            verdict = "registered"
        elif op == "upd":
            bid, kw = e[2], e[3]
            b = l.bots.get(bid)
            want = (E.ThreeBotNotFound,) if not b else (E.ThreeBotInactive,) if b["exp"] <= l.time and not kw.get("months") else ()
            try:
                res = p.wallet.threebot.record_update(bid, **kw)
            except want as x:
                same(p.ex.posted[n:], [], "submitted documents")
                verdict = type(x).__name__
                continue
            except (E.ThreeBotNotFound, E.ThreeBotInactive) as x:
                bad("refused: {}", repr(x))
            expect(not want, "the update is not refused")
            missing = [] if b["pk"] in keyof[who] else ["?"]
            fields = {"id": bid, "months": kw.get("months", 0), "nadd": kw.get("names_to_add", []), "nrem": kw.get("names_to_remove", []),
                      "aadd": [["4", "0a000001"]] if "addresses_to_add" in kw else [], "arem": [["4", "0a000001"]] if "addresses_to_remove" in kw else []}
            t = check(p, res, who, n, 145, tariff(145, fields["months"], len(fields["nadd"]), len(fields["aadd"]) + len(fields["arem"])), fields, missing)
            verdict = "updated" if not missing else "draft"
            if missing:
                drafts.append([res.transaction.json(), {b["pk"]}])
        elif op == "xfer":
            s, r = e[2], e[3]
            bs = [l.bots.get(s), l.bots.get(r)]
            want = ()
            if any(b and b["exp"] <= l.time for b in bs):
                want += (E.ThreeBotInactive,)
            if not all(bs):
                want += (E.ThreeBotNotFound,)
            names = (bs[0]["names"] if bs[0] else [])[:1] or ["foobar"]
            try:
                res = p.wallet.threebot.name_transfer(s, r, names)
            except want as x:
                same(p.ex.posted[n:], [], "submitted documents")
                verdict = type(x).__name__
                continue
            except (E.ThreeBotNotFound, E.ThreeBotInactive) as x:
                bad("refused: {}", repr(x))
            expect(not want, "the transfer is not refused")
            missing = {b["pk"] for b in bs} - keyof[who]
            t = check(p, res, who, n, 146, tariff(146, 0, 1), {"sid": s, "rid": r, "names": names}, missing)
            for b, k in zip(bs, ("ssig", "rsig")):
                expect(bool(t[k]) == (b["pk"] in keyof[who]), "{} of the transfer: {}", k, t[k])
            verdict = "transferred" if not missing else "draft"
            if missing:
                drafts.append([res.transaction.json(), missing])
        elif op == "sign":
            doc, missing = drafts.pop(0)
            left = missing - keyof[who]
            res = p.wallet.transaction_sign(doc)
            spec = X.of_json(json.loads(json.dumps(res.transaction.json())))
            for i, k in ([spec["id"], "sig"],) if spec["v"] == 145 else ([spec["sid"], "ssig"], [spec["rid"], "rsig"]):
                expect(bool(spec[k]) == (l.bots[i]["pk"] not in left), "signature of 3Bot {}: {}", i, spec[k])
            expect(not (res.submitted and left), "reported as submitted")
            if not left and not res.submitted and not any(l.outs[i]["spent"] for i, _ in spec["cin"]):
                # the signer does not know the inputs of the creator: the explorer judges the complete transaction
                p.client.transaction_put(res.transaction)
            verdict = "signed"
    pool = [l.txs[i]["t"] for i in l.pool()]
    # the wallets read the records as they are
    for i, b in l.bots.items():
        rec = ps["A"].client.threebot.record_get(i)
        same([rec.identifier, sorted(str(x) for x in rec.names), rec.expiration, str(rec.public_key)],
             [i, b["names"], b["exp"], R.pk_text(b["pk"])], "record")
    rel = lambda b: [b["names"], b["addrs"], [k for k in keyof if b["pk"] in keyof[k]], -1 if b["exp"] <= l.time else (b["exp"] - l.time + MONTH // 2) // MONTH]
    state = json.dumps([h[0], {i: rel(b) for i, b in l.bots.items()}, [[t["v"], t.get("id"), t.get("sid"), t.get("rid"), t.get("months"), t.get("names"), t.get("nadd")] for t in pool],
                        [sorted(d[1]) for d in drafts], verdict in ("ThreeBotInactive", "ThreeBotNotFound"), count], sort_keys=True)
    en = []
    if pool:
        en.append(["mine", ""])
    if l.bots:
        en.append(["time", "", MONTH])
    if drafts:
        en += [["sign", "A"], ["sign", "B"]]
    if len(pool) < 2 and len(drafts) < 2:
        if len(l.bots) + sum(t["v"] == 144 for t in pool) < 3:
            en += [["new", "A", 1, ["foobar"], 0], ["new", "B", 2, ["chatbot", "barfoo"], None], ["new", "A", 12, ["tester"], None]]
        known = list(l.bots) + ([len(l.bots) + 1] if len(l.bots) < 2 else [])
        for who in PARTY:
            for i in known:
                for kw in ({"months": 1}, {"names_to_add": ["extra"]}, {"months": 2, "names_to_remove": ["foobar"]}, {"addresses_to_add": ["10.0.0.1"]},
                           {"addresses_to_remove": ["10.0.0.1"]}):
                    en.append(["upd", who, i, kw])
            for i, j in itertools.permutations(known, 2):
                en.append(["xfer", who, i, j])
    taken = [b["pk"] for b in l.bots.values()] + [t["pk"] for t in pool if t["v"] == 144]
    en = [e for e in en if e[0] != "new" or e[4] is None or W.K(PARTY[e[1]], e[4]).pk not in taken]
    return Succ(state, en, [verdict])


ROOT = [["start", ["new", "A", 1, ["foobar"], 0], ["new", "B", 2, ["chatbot", "barfoo"], None], ["mine", ""]],
        ["start", ["new", "A", 1, ["foobar"], 0], ["new", "A", 2, ["chatbot"], 1], ["mine", ""]],
        ["start"]]


def run(ctx):
    ctx.all(tariff_of, tariff_cases(ctx), parallel=True, chunk=64)
    ctx.all(limits, limit_cases(ctx), parallel=True, chunk=64)
    ctx.all(beyond, beyond_cases())
    ctx.all(pays, pay_cases(ctx), parallel=True, chunk=32)
    ctx.all(active, active_cases(ctx), parallel=True, chunk=32)
    ctx.bfs(history, ROOT, 4 if ctx.thorough else 3, parallel=True, chunk=8)
