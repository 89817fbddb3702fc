"""C21: coin creation and mint conditions.

single: one operation of one wallet, the product of the mint condition, the recipient, the amount and the attachments. history:
breadth-first search over what three wallets do with coin creations, new mint conditions, half signed documents and passing time; the
condition active at the tip decides what may be submitted. signers: every order and subset of co-signers. heights: look-ups of the
condition at every height of chains with several definitions."""
import itertools
import json

import tfchain.errors as E
from tfchain.types.ConditionTypes import UnlockHash

from mc import build as B
from mc import world as W
from mc.core import Succ, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C21"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over the histories of three wallets and a ledger (real wallets replayed for every history) + exhaustive products of conditions, signers and arguments"
RULE = ("an evaluation judges one operation, one order of signers, one history or one look-up; non-trivial when a document, a submission or a condition was compared")
ASSUMPTIONS = [
    "explorers report the mint condition truthfully",
    "a mint condition with a lock that is not reached yet, which the chain does not allow, is not judged",
    "a half signed document whose mint condition was replaced meanwhile only must not be submitted",
    "wallets are honest: signatures of strangers in a document are not judged",
]
UNIT = L.UNIT
PARTY = {"A": 1, "B": 2, "C": 3}
KEYS = 2
U = {p + str(i): W.K(n, i).uh for p, n in PARTY.items() for i in range(KEYS)}
NAME = {tuple(u): k for k, u in U.items()}
MS = lambda m, *o: ["ms", [U[x] for x in o], m]
FUTURE, PAST = L.T0 + 5000, L.T0 - 5
C = {"a0": ["uh", U["A0"]], "a1": ["uh", U["A1"]], "b0": ["uh", U["B0"]],
     "1ab": MS(1, "A0", "B0"), "2ab": MS(2, "A0", "B0"), "2ba": MS(2, "B1", "A1"), "2aa": MS(2, "A0", "A1"), "2abc": MS(2, "A0", "B0", "C0"), "3abc": MS(3, "C0", "A1", "B0"),
     "2aab": MS(2, "A0", "A1", "B0"), "3aab": MS(3, "A0", "B0", "A1"), "1abc": MS(1, "C1", "B1", "A1")}
for _n in ("a0", "1ab", "2ab"):
    C["p" + _n] = ["lt", PAST, C[_n]]
    C["g" + _n] = ["lt", 1, C[_n]]
CLEAN = (ValueError, TypeError, E.CurrencyNegativeValue, E.CurrencyPrecisionOverflow)


def keys_of(who):
    return {W.K(PARTY[who], i).pk: W.K(PARTY[who], i).uh for i in range(KEYS)}


def recipient(c, form=0):
    if c[0] == "nil":
        return None
    if c[0] == "uh":
        return R.uh_text(c[1]) if form == 0 else UnlockHash.from_json(R.uh_text(c[1]))
    o = [R.uh_text(u) if form == 0 else B.uh(u) for u in c[1]]
    return o if c[2] == len(o) and form == 0 else (o, c[2])


def start(cond, heights=0):
    l = L.Ledger("devnet", mint=cond)
    l.give([[9 * UNIT, ["uh", U["A0"]]], [9 * UNIT, ["uh", U["B0"]]]])
    for _ in range(heights):
        l.mine([], dt=10)
    return l, {k: W.Party(l, n, keys=KEYS, network="devnet") for k, n in PARTY.items()}


def spec_of(txn):
    return X.of_json(json.loads(json.dumps(txn.json())))


def sigs(t):
    """{public key: signature} of the mint fulfillment; all of them verify"""
    f = t["mf"]
    if f[0] == "ms":
        expect(len({p for p, _ in f[1]}) == len(f[1]), "a key is named twice")
        out = {p: s for p, s in f[1] if s}
        for p, s in out.items():
            expect(L.verifies(p, X.digest(t, [["pk", p]]), s), "a signature does not verify")
    else:
        out = {f[1]: f[2]} if f[2] else {}
        for p, s in out.items():
            expect(L.verifies(p, X.digest(t, []), s), "the signature does not verify")
    return out


def owners(c):
    c = R.unwrap(c)
    return [tuple(u) for u in c[1]] if c[0] == "ms" else [tuple(c[1])]


def need(c):
    c = R.unwrap(c)
    return c[2] if c[0] == "ms" else 1


def check_signed(l, p, who, t, before, n):
    """the document after who signed it; before: public keys that had signed. Gives True when it has to be submitted"""
    c = l.mint_condition()
    mine = {pk for pk, u in keys_of(who).items() if tuple(u) in owners(c)}
    got = set(sigs(t))
    expect(before <= got, "a signature was removed")
    expect(got <= before | mine, "signed by a key that is not the wallet's or not asked for")
    expect(len(got) >= min(need(c), len(before | mine)), "only {} signatures", len(got))
    why = L.fulfilled(c, t["mf"], lambda x: X.digest(t, x), l.height, l.time)
    done = why is None
    same(p.ex.posted[n:], [t] if done else [], "submitted documents (condition: %s)" % (why or "satisfied"))
    return done


def check_content(l, t, want):
    same(t["v"], want["v"], "version")
    same(t["fees"], [L.MIN_FEE["devnet"]], "miner fees")
    same(t["data"], want.get("data", ""), "data")
    expect(len(t["nonce"]) == 16 and any(bytes.fromhex(t["nonce"])), "nonce {}", t["nonce"])
    if want["v"] == 129:
        same(t["cout"], want["cout"], "created coins")
    else:
        same(t["mc"], want["mc"], "new mint condition")


def operate(l, p, who, op, to, amount=None, lock=None, form=0, data=None):
    """gives (spec, JSON document, submitted)"""
    n = len(p.ex.posted)
    kw = {} if data is None else {"data": data}
    hexed = (data.encode() if isinstance(data, str) else data or b"").hex()
    if op == "mint":
        am = [B.dec(amount) + " TFT", B.cur(amount), B.dec(amount)][form % 3] if amount >= 0 else B.dec(amount)
        if lock is not None:
            kw["lock"] = lock
        res = p.wallet.minter.coins_new(recipient(to, form % 2), am, **kw)
        want = {"v": 129, "cout": [[amount, to if lock is None else ["lt", lock, to]]], "data": hexed}
    else:
        res = p.wallet.minter.definition_set(recipient(to, form % 2), **kw)
        want = {"v": 128, "mc": to, "data": hexed}
    t = spec_of(res.transaction)
    check_content(l, t, want)
    done = check_signed(l, p, who, t, set(), n)
    same(bool(res.submitted), done, "reported as submitted")
    if done:
        same(str(res.transaction.id), p.ex.ids[-1], "transaction identifier")
    return t, res.transaction.json(), done


@family
def single(case):
    """{c, who, op, to, amount, lock, form, data, heights}"""
    c = case
    l, ps = start(C[c["c"]], c.get("heights", 0))
    p = ps[c["who"]]
    refuse = (c["op"] == "mint" and c["amount"] <= 0) or (c["op"] == "def" and (c["to"][0] == "nil" or c["to"][0] == "uh" and c["to"][1][0] == 2))
    data = c.get("data")
    if isinstance(data, list):
        data = bytes(data)
    if data is not None and len(data.encode() if isinstance(data, str) else data) > 83:
        refuse = True
    before = {k: dict(o) for k, o in l.outs.items()}
    try:
        t, _, done = operate(l, p, c["who"], c["op"], c["to"], c.get("amount"), c.get("lock"), c.get("form", 0), data)
    except CLEAN as x:
        expect(refuse, "refused: {}", repr(x))
        same(p.ex.posted, [], "submitted documents")
        return ["refused", c["op"]]
    expect(not refuse, "an operation was carried out that has to be refused")
    for k, o in before.items():
        same(l.outs[k], o, "an output that existed before")
    if done and c["op"] == "mint":
        # the coins arrive
        l.mine()
        i = X.coin_id(t, 0)
        same([l.outs[i]["value"], l.outs[i]["cond"]], t["cout"][0], "created output")
    if c["op"] == "def" and done:
        l.mine()
        same(X.cond_of(p.client.minter.condition_get().json()), c["to"], "mint condition afterwards")
    return [done, c["op"], len(sigs(t))]


def single_cases(ctx):
    TO = [["uh", U["B1"]], ["nil"], MS(2, "A0", "C0"), MS(1, "A0", "C0"), MS(2, "C0", "B0", "A1")]
    for c in C:
        for h in (1, 3):
            for who in PARTY:
                for to in TO:
                    for f in range(3):
                        for am in (1, 7 * UNIT + 5, 10 ** 18):
                            yield {"c": c, "who": who, "op": "mint", "to": to, "amount": am, "form": f, "heights": h}
                    yield {"c": c, "who": who, "op": "def", "to": to, "form": 0, "heights": h}
                    if h == 1 and to[0] == "nil":
                        yield {"c": c, "who": who, "op": "def", "to": ["uh", [2, U["B1"][1]]], "form": 0, "heights": h}
                    yield {"c": c, "who": who, "op": "def", "to": to, "form": 1, "heights": h}
        if c in ("a0", "2ab", "1ab", "pa0") or ctx.thorough:
            for to in TO:
                for lock in (None, 1, 300, 499999999, 500000000, FUTURE, PAST):
                    for data in (None, "", "text", "\u00e9t\u00e9", [0, 1, 255], "x" * 83, "x" * 84, [9] * 84):
                        yield {"c": c, "who": "A", "op": "mint", "to": to, "amount": 5, "lock": lock, "data": data}
                        if lock is None:
                            yield {"c": c, "who": "A", "op": "def", "to": to, "data": data}
            for am in (0, -1, -UNIT):
                yield {"c": c, "who": "A", "op": "mint", "to": TO[0], "amount": am}


# --- co-signing
@family
def signers(case):
    """[condition, op, heights, first, next...]: every wallet signs in turn, the document travels as JSON"""
    c, op, heights, first, rest = case[0], case[1], case[2], case[3], case[4:]
    l, ps = start(C[c], heights)
    t, doc, done = operate(l, ps[first], first, op, C["2abc"], 5 * UNIT)
    out = [done]
    for who in rest:
        if done:
            break
        p, n = ps[who], len(ps[who].ex.posted)
        had = set(sigs(t))
        res = p.wallet.transaction_sign(json.loads(json.dumps(doc)))
        t2 = spec_of(res.transaction)
        same({k: v for k, v in t2.items() if k != "mf"}, {k: v for k, v in t.items() if k != "mf"}, "what is not a signature")
        done = check_signed(l, p, who, t2, had, n)
        same(bool(res.submitted), done, "reported as submitted")
        t, doc = t2, res.transaction.json()
        out.append(done)
    return out


def signer_cases(ctx):
    for c in C:
        for op in ("mint", "def"):
            for h in (1, 3):
                for n in range(1, 5 if ctx.thorough else 4):
                    for order in itertools.product(PARTY, repeat=n):
                        yield [c, op, h] + list(order)


# --- histories
ROOTS = ("a0", "2ab", "1abc", "2abc", "pa0", "2aab")
NEXT = ["b0", "2ab", "1ab", "3abc"]


@family
def history(h):
    l, ps = start(C[h[0]])
    drafts = []        # [document, spec, condition it was made for]
    note = None
    made = 0
    for e in h[1:]:
        op, note = e[0], None
        if op == "mine":
            l.mine(dt=10)
        elif op == "env":  # others replace the condition
            l.submit({"v": 128, "nonce": "%016x" % (l.height + 1), "mf": ["ss", W.K(1).pk, "ab" * 64], "mc": C[e[1]], "fees": [5], "data": ""})
            l.mine()
        elif op in ("mint", "def"):
            who = e[1]
            made += 1
            t, doc, done = operate(l, ps[who], who, op, C[e[2]], made * UNIT, form=made)
            if not done:
                drafts.append([doc, t, l.mint_condition()])
            note = [op, done]
        elif op == "sign":
            who = e[1]
            p, n = ps[who], len(ps[who].ex.posted)
            doc, t, c = drafts.pop(0)
            if c != l.mint_condition():
                # made for another condition: it must not be submitted unless the network accepts it, which the explorer decides
                try:
                    p.wallet.transaction_sign(doc)
                except (TypeError, ValueError):
                    same(p.ex.posted[n:], [], "submitted documents")
                note = "stale"
                continue
            had = set(sigs(t))
            res = p.wallet.transaction_sign(doc)
            t2 = spec_of(res.transaction)
            same({k: v for k, v in t2.items() if k != "mf"}, {k: v for k, v in t.items() if k != "mf"}, "what is not a signature")
            done = check_signed(l, p, who, t2, had, n)
            same(bool(res.submitted), done, "reported as submitted")
            if not done:
                drafts.append([res.transaction.json(), t2, c])
            note = ["sign", done]
    look(l, ps["C"].client)
    c = l.mint_condition()
    pool = sorted([l.txs[i]["t"]["v"], l.txs[i]["t"].get("mc")] for i in l.pool())
    name = {pk: u for p in PARTY for pk, u in keys_of(p).items()}
    state = json.dumps([c, pool, [[t["v"], t.get("mc"), sorted(NAME[tuple(name[k])] for k in sigs(t)), d == c] for _, t, d in drafts],
                        len(l.mints), note == "stale", made], sort_keys=True)
    en = []
    if l.pool():
        en.append(["mine"])
    if drafts:
        en += [["sign", w] for w in PARTY]
    if len(drafts) < 2 and made < 4:
        for w in PARTY:
            en.append(["mint", w, "b0"])
            en += [["def", w, k] for k in NEXT]
    return Succ(state, en, [note, len(l.mints), len(drafts)])


def look(l, client):
    for x in list(range(l.height + 1)) + [None]:
        for y in (x, str(x)) if x is not None else (None,):
            got = client.minter.condition_get(y) if y is not None else client.minter.condition_get()
            same(X.cond_of(got.json()), l.mint_condition(x), "mint condition at height %s" % (y,))


@family
def heights(case):
    """[condition or None per block]"""
    l = L.Ledger("devnet", mint=C["a0"])
    for k in case:
        if k:
            l.submit({"v": 128, "nonce": "%016x" % (l.height + 1), "mf": ["ss", W.K(1).pk, "ab" * 64], "mc": C[k], "fees": [5], "data": ""})
        l.mine()
    look(l, W.client(l))
    return ["ok", len(set(case))]


def run(ctx):
    ctx.all(heights, itertools.product((None, "b0", "2ab", "pa0"), repeat=5 if ctx.thorough else 4), parallel=True, chunk=32)
    # somebody has a mint transaction half signed while the condition is about to be replaced
    for r in (["2abc", ["def", "A", "2ab"], ["sign", "B"]], ["2abc", ["def", "A", "b0"], ["sign", "B"]]):
        ctx.bfs(history, [r], 4 if ctx.thorough else 3, parallel=True, chunk=8)
    # and while others replace it, also by one with a lock that is reached
    ctx.bfs(history, [[r, ["mint", w, "b0"], ["env", k]] for r in ("2abc", "3abc") for w in PARTY for k in ("p1ab", "p2ab", "g1ab", "1ab", "pa0")], 1, parallel=True, chunk=8)
    ctx.all(single, single_cases(ctx), parallel=True, chunk=32)
    ctx.all(signers, signer_cases(ctx), parallel=True, chunk=32)
    for r in ROOTS if ctx.thorough else ("2ab", "a0"):
        ctx.bfs(history, [[r]], 5 if ctx.thorough else 4, parallel=True, chunk=8)
