"""C09: any order of co-signers completes a transaction, and only the right keys can."""
import itertools
import json

from mc import build as B
from mc import world as W
from mc.core import Succ, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

from tfchain.types import transactions as T

PROPERTY = "C09"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state breadth-first search to closure over all orders in which the real wallets of three parties and an outsider sign one travelling transaction, "
             "with a JSON hop after every step; every state is checked against a reference that verifies each signature")
RULE = ("transactions of every version with inputs owned by one party, by 1-of-2, 2-of-2, 2-of-3 and 3-of-3 multi-signatures (with a party owning two keys, time locked variants), mint "
        "conditions of the same kinds, and 3Bot and registration roles of another party than the funder; from unsigned and from the wallet operations of one party; all sequences "
        "of signing steps (as text, dictionary or object, submitting or not) up to a depth, merged when the documents are equal; spent coins are confirmed or still in the pool. Non-trivial when a signature is placed or refused")
ASSUMPTIONS = ["all parties are honest wallets: signatures of strangers in a document are not judged", "a wallet knows the parents of its own and co-owned inputs only, so that completeness is "
               "judged by an observer that knows all parents; a wallet has to submit when it places the last signature and knows all parents",
               "submitting a transaction that was complete before is not judged", "two 3Bots never share a public key (they are identified by it)"]

KEYS = {1: 2, 2: 1, 3: 1, 4: 1}
U = {(n, i): W.K(n, i).uh for n in KEYS for i in range(KEYS[n])}
CONDS = {"p1": ["uh", U[1, 0]], "p1b": ["uh", U[1, 1]], "p2": ["uh", U[2, 0]], "p3": ["uh", U[3, 0]],
         "m22": ["ms", [U[1, 0], U[2, 0]], 2], "m12": ["ms", [U[2, 0], U[1, 1]], 1], "m23": ["ms", [U[3, 0], U[1, 0], U[2, 0]], 2],
         "m33": ["ms", [U[1, 0], U[2, 0], U[3, 0]], 3], "m2s": ["ms", [U[1, 1], U[2, 0], U[1, 0]], 2], "m3s": ["ms", [U[1, 1], U[2, 0], U[1, 0]], 3]}
for k, n in (("p1", 5), ("m22", 5), ("m23", L.T0 - 5)):
    CONDS["l" + k] = ["lt", n, CONDS[k]]
F = L.MIN_FEE["devnet"]
BOTS = {1: (1, 0), 2: (2, 0), 3: (3, 0)}
VAL = 1000 * F


def start(case):
    l = L.Ledger("devnet", mint=CONDS[case.get("mint", "p1")])
    ids = l.give([[VAL + i, CONDS[k]] for i, k in enumerate(case.get("ins", []))], mine=not case.get("pool"))
    l.mine([], dh=10)
    for b, k in BOTS.items():
        l.bots[b] = {"names": ["bot%dname" % b], "addrs": [], "pk": W.K(*k).pk, "exp": L.T0 + 10 ** 7}
    return l, ids


def empty(c):
    return ["ms", []] if R.unwrap(c)[0] == "ms" else ["ss", None, None]


def document(case):
    """the unsigned spec"""
    l, ids = start(case)
    v = case["v"]
    ins = [[p, empty(CONDS[k])] for p, k in zip(ids, case.get("ins", []))]
    tot = sum(l.outs[p]["value"] for p in ids)
    t = {"v": v}
    if v in (128, 129):
        t.update(nonce="01" * 8, mf=empty(CONDS[case["mint"]]), fees=[F], data="c0ffee")
        t.update({"mc": CONDS["m12"]} if v == 128 else {"cout": [[5, CONDS["p2"]], [7, CONDS["m22"]]]})
        return t
    t["cin"] = ins
    if v == 1:
        t.update(cout=[[tot - F - 5, CONDS["p3"]], [5, CONDS["m23"]]], bin=[], bout=[], fees=[F], data="c0ffee")
        return t
    t.update(fee=F, refund=None)
    t.update({144: {"addrs": [["h", "example.org"]], "names": ["chatbot"], "months": 1, "pk": W.K(2, 0).pk, "sig": ""},
              145: {"id": 2, "aadd": [], "arem": [], "nadd": ["chatbot"], "nrem": [], "months": 2, "sig": ""},
              146: {"sid": 2, "ssig": "", "rid": 1, "rsig": "", "names": ["bot2name"]}, 208: {"addr": "ab" * 20, "value": 3},
              210: {"pk": W.K(2, 0).pk, "sig": "", "regfee": L.REG_FEE}}[v])
    t["refund"] = [tot - F - L.burned(t), CONDS["p3"]]
    return t


def auths(t, l, case):
    """[(name, condition or None, public key or None, extras)] of everything that has to be signed"""
    out = [(("cin", i), l.outs[p]["cond"], None, [["i", i]]) for i, (p, _) in enumerate(t.get("cin", []))]
    v = t["v"]
    if v in (128, 129):
        out.append((("mint", 0), l.mints[0][1], None, []))
    role = lambda n, pk, r: out.append(((n, 0), None, pk, [["raw", r.hex()]]))
    if v == 144:
        role("sig", t["pk"], X.SENDER)
    elif v == 145:
        role("sig", l.bots[t["id"]]["pk"], X.SENDER)
    elif v == 146:
        role("ssig", l.bots[t["sid"]]["pk"], X.SENDER)
        role("rsig", l.bots[t["rid"]]["pk"], X.RECEIVER)
    elif v == 210:
        role("sig", t["pk"], X.REGISTRATION)
    return out


def signed(t, a):
    """{public key: signature} present for an authorisation, verified"""
    (n, i), c, pk, ex = a
    d = lambda x: X.digest(t, ex + x)
    if c is None:
        s = {pk: t[n]} if t[n] else {}
        for p, g in s.items():
            expect(L.verifies(p, d([]), g), "the {} signature does not verify", n)
        return s
    f = t["cin"][i][1] if n == "cin" else t["mf"]
    if f[0] == "ms":
        expect(len({p for p, _ in f[1]}) == len(f[1]), "a key is named twice in the fulfillment of {} {}", n, i)
        s = {p: g for p, g in f[1] if g}
        for p, g in f[1]:
            expect(not g or L.verifies(p, d([["pk", p]]), g), "a signature of {} {} does not verify", n, i)
    else:
        s = {f[1]: f[2]} if f[2] else {}
        for p, g in s.items():
            expect(L.verifies(p, d([]), g), "the signature of {} {} does not verify", n, i)
    owners = [tuple(u) for u in R.unwrap(c)[1]] if R.unwrap(c)[0] == "ms" else [tuple(R.cond_uh(c))]
    for p in s:
        expect(tuple(R.pk_uh(p)) in owners, "signed by a key which {} {} does not ask for", n, i)
    return s


def required(a):
    c = R.unwrap(a[1]) if a[1] else None
    return c[2] if c and c[0] == "ms" else 1


def stripped(t):
    t = json.loads(json.dumps(t))
    for i in t.get("cin", []):
        i[1] = i[1][0]
    if "mf" in t:
        t["mf"] = t["mf"][0]
    for k in ("sig", "ssig", "rsig"):
        t.pop(k, None)
    return t


def observe(doc, t, l):
    """the verdict of the code with all parents known"""
    o = T.from_json(json.loads(doc))
    for ci, (p, _) in zip(o.coin_inputs, t.get("cin", [])):
        ci.parent_output = B.cout([l.outs[p]["value"], l.outs[p]["cond"]], id=p)
    if t["v"] in (128, 129):
        o.parent_mint_condition = B.cond(l.mints[0][1])
    elif t["v"] == 145:
        o.parent_public_key = B.pk(l.bots[t["id"]]["pk"])
    elif t["v"] == 146:
        o.sender_parent_public_key = B.pk(l.bots[t["sid"]]["pk"])
        o.receiver_parent_public_key = B.pk(l.bots[t["rid"]]["pk"])
    return bool(o.is_fulfilled())


def own(n, a):
    """public keys of party n which the authorisation asks for"""
    c = R.unwrap(a[1]) if a[1] else None
    us = [tuple(R.pk_uh(a[2]))] if c is None else [tuple(u) for u in c[1]] if c[0] == "ms" else [tuple(R.cond_uh(c))]
    return [W.K(n, i).pk for i in range(KEYS[n]) if tuple(U[n, i]) in us]


def first(case):
    """(ledger, document, who has signed already)"""
    if "doc" in case:
        return start(case)[0], case["doc"]
    if not case.get("by"):
        l, _ = start(case)
        return l, json.dumps(X.js(document(case)))
    # the operation of a wallet
    l, ids = start(case)
    p = W.Party(l, case["by"], keys=KEYS[case["by"]])
    w = p.wallet
    src = [R.uh_text(R.cond_uh(CONDS[k])) for k in case.get("ins", [])]
    kw = {"source": src} if src else {}
    op = case["op"]
    m = {"send": lambda: w.coins_send(R.uh_text(U[3, 0]), "3 TFT", data="hello", **kw), "new": lambda: w.threebot.record_new(names=["chatbot"], key_index=0, **kw),
         "upd": lambda: w.threebot.record_update(2, months=1, **kw), "xfer": lambda: w.threebot.name_transfer(2, 1, ["bot2name"], **kw),
         "erc": lambda: w.erc20.coins_send("0x" + "ab" * 20, "3 TFT", **kw), "reg": lambda: w.erc20.address_register(0, **kw),
         "mint": lambda: w.minter.coins_new(R.uh_text(U[3, 0]), "3 TFT"), "def": lambda: w.minter.definition_set([R.uh_text(U[3, 0]), R.uh_text(U[1, 0])])}[op]
    r = m()
    if r.submitted:
        return None, None
    return l, json.dumps(r.transaction.json())


@family
def orders(case):
    """[transaction, signing steps...]: a step is [party, form]"""
    tx, steps = case[0], case[1:]
    l, doc = first(tx)
    if l is None:
        return Succ(["submitted at once"], [], None)
    t = X.of_json(json.loads(doc))
    au = auths(t, l, tx)
    prev = [signed(t, a) for a in au]
    same(observe(doc, t, l), all(len(s) >= required(a) for a, s in zip(au, prev)), "complete at the start")
    out = "start"
    done = False
    for n, form in steps:
        p = W.Party(l, n, keys=KEYS[n])
        before = all(len(s) >= required(a) for a, s in zip(au, prev))
        arg = doc if form in ("text", "submit") else json.loads(doc) if form == "dict" else T.from_json(json.loads(doc))
        r = p.wallet.transaction_sign(arg, submit=(form == "submit"))
        doc2 = json.dumps(r.transaction.json())
        t2 = X.of_json(json.loads(doc2))
        same(stripped(t2), stripped(t), "content of the transaction after signing")
        now = [signed(t2, a) for a in au]
        added = 0
        knows = True
        for a, old, new in zip(au, prev, now):
            mine = own(n, a)
            for pk, s in old.items():
                same(new.get(pk), s, "a signature placed before")
            more = set(new) - set(old)
            expect(more <= set(mine), "a key was used which is not of party {}", n)
            added += len(more)
            lack = required(a) - len(old)
            want = min(lack, len([k for k in mine if k not in old]))
            expect(len(more) >= want, "party {} did not sign {} although it can", n, a[0])
            if a[0][0] == "cin" and not mine:
                knows = False
        same(bool(r.signed), added > 0, "reported as signed")
        if n == 4:
            same(doc2, json.dumps(json.loads(doc2)), "document")
            same(added, 0, "signatures by an outsider")
        complete = all(len(s) >= required(a) for a, s in zip(au, now))
        same(observe(doc2, t2, l), complete, "complete for an observer who knows all parents")
        expect(bool(r.submitted) == bool(p.ex.posted), "reported as submitted {} but posted {}", r.submitted, len(p.ex.posted))
        if p.ex.posted:
            expect(form == "submit" and complete, "submitted although not asked for or not complete")
            same(p.ex.posted, [t2], "submitted document")
            same(str(r.transaction.id), p.ex.ids[0], "transaction identifier")
            done = True
        elif form == "submit" and complete and not before and knows:
            bad("party {} has placed the last signature but did not submit", n)
        t, doc, prev = t2, doc2, now
        out = [added, complete, done]
    if done:
        return Succ(["done"], [], out)
    ev = [[n, f] for n in KEYS for f in ("text", "submit")] + [[n, f] for n in (1, 2) for f in ("dict", "obj")]
    return Succ([tx, doc], ev, out if steps else None)


def run(ctx):
    txs = []
    singles = list(CONDS)
    for k in singles:
        txs.append({"v": 1, "ins": [k]})
    for k in (["p1", "p2"], ["p1", "m22"], ["m22", "m23"], ["p1", "p1b"], ["m12", "p3"], ["p2", "p2", "p1"], ["m2s", "lm22"], ["m33", "m22"], ["p1", "p2", "p3"]):
        txs.append({"v": 1, "ins": k})
    if ctx.thorough:
        txs += [{"v": 1, "ins": [a, b]} for a, b in itertools.combinations_with_replacement(singles, 2)]
    for k in singles:
        for v in (128, 129):
            txs.append({"v": v, "mint": k})
    for v in (144, 145, 146, 208, 210):
        for ins in (["p1"], ["p2"], ["p3"], ["m22"], ["m23"], ["p1", "m22"]) + ((["m33"], ["m3s", "p2"], ["lm23"]) if ctx.thorough else ()):
            txs.append({"v": v, "ins": ins})
    for by in (1, 2):
        for op in ("send", "new", "upd", "xfer", "erc", "reg"):
            for ins in (["m22"], ["m23"], ["m33"], ["p%d" % by], ["p%d" % by, "m22"]):
                txs.append({"v": {"send": 1, "new": 144, "upd": 145, "xfer": 146, "erc": 208, "reg": 210}[op], "ins": ins, "by": by, "op": op})
        for op in ("mint", "def"):
            for k in ("m22", "m23", "m33", "lm22", "m3s", "p3"):
                txs.append({"v": {"mint": 129, "def": 128}[op], "mint": k, "by": by, "op": op})
    # coins which are still in the transaction pool
    for ins in [[k] for k in singles] + [["p1", "m22"], ["m22", "m23"]]:
        txs.append({"v": 1, "ins": ins, "pool": True})
    for op in ("send", "erc"):
        for ins in (["m22"], ["p1"], ["p1", "m22"]):
            txs.append({"v": {"send": 1, "erc": 208}[op], "ins": ins, "by": 1, "op": op, "pool": True})
    # a mint transaction has a random nonce: it is made once, so that histories can be merged
    for t in txs:
        if "mint" in t and "by" in t:
            try:
                doc = first(t)[1]
            except Exception:  # reported by the search
                doc = None
            if doc:
                t["doc"] = doc
    ctx.bfs(orders, [[t] for t in txs], 6 if ctx.thorough else 4, parallel=True, chunk=8)
