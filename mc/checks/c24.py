"""C24: completeness verdicts and signature requests."""
import itertools
import json

from mc import build as B
from mc import txnspec as TS
from mc.core import expect, family, same
from mc.ref import txn as X
from mc.ref import types as R

from tfchain.types import transactions as T

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("cases: every list of up to 3 (thorough: 4) inputs over all pairs (parent condition incl. unknown, fill state of the fulfillment), at every "
        "split into coin and block stake inputs, for every version with inputs, each combined with every state of the version's own authorisation; "
        "built directly, from JSON, and from outputs; verdict and requests are compared with the reference, and fulfilling the requests one by one "
        "has to make the verdict true exactly at the end, after which signatures are taken away and inputs added and removed. Non-trivial when at least one input or authorisation was judged")
ASSUMPTIONS = ["presence of signatures is judged, not their validity: the code defines completeness by presence (signatures are verified in C09)",
               "a fulfillment of another kind than its parent condition is not judged (it is refused with TypeError)",
               "'missing' signatures of a multi-signature are those of all owners who have not signed"]

K, U, S = TS.K, TS.U, TS.S
UH, NIL = ["uh", U[0]], ["nil"]
LT = ["lt", 1549649728, UH]
MS22, MS12, MS23 = ["ms", [U[0], U[1]], 2], ["ms", [U[0], U[1]], 1], ["lt", 42, ["ms", [U[0], U[1], U[2]], 2]]
AS = ["as", U[0], U[1], TS.H[5], 1549649728]


def P(*ks):
    return ["ms", [[K[i], s] for i, s in ks]]


# (parent condition, fulfillment)
SINGLE = [(c, f) for c in (UH, LT, NIL) for f in (["ss", None, None], ["ss", K[0], None], ["ss", K[0], S[0]])]
MULTI = ([(c, P(*x)) for c in (MS22, MS12) for x in ((), ((0, S[0]),), ((1, S[1]),), ((0, S[0]), (1, S[1])), ((1, S[1]), (0, S[0])), ((0, None),), ((0, None), (1, S[1])),
                                                     ((0, S[0]), (1, None)), ((0, None), (1, None)))]
         + [(MS23, P(*x)) for x in ((), ((2, S[2]),), ((0, S[0]), (2, S[2])), ((0, S[0]), (1, None)), ((0, None), (1, S[1]), (2, S[2])),
                                    ((0, S[0]), (1, S[1]), (2, S[2])))])
SWAP = [(AS, ["as", k, s, x]) for k, s in ((None, None), (K[0], None), (K[1], S[1])) for x in (None, TS.H[0], "00" * 32)]
UNKNOWN = [(None, f) for f in (["ss", None, None], ["ss", K[0], S[0]], P(), P((0, S[0]), (1, S[1])), ["as", K[0], S[0], TS.H[0]])]
ALL = [list(x) for x in SINGLE + MULTI + SWAP + UNKNOWN]
SHORT = [list(x) for x in ((UH, ["ss", None, None]), (UH, ["ss", K[0], S[0]]), (NIL, ["ss", None, None]), (MS22, P((0, S[0]))), (MS22, P((1, S[1]), (0, S[0]))),
                           (AS, ["as", None, None, TS.H[0]]), (AS, ["as", K[1], S[1], TS.H[0]]), (None, ["ss", K[0], S[0]]))]


def complete(c, f):
    if c is None:
        return False
    c = R.unwrap(c)
    if f[0] == "ms":
        return sum(1 for _, s in f[1] if s) >= c[2]
    return bool(f[2])


def missing(c, f):
    """addresses asked for"""
    if c is None:
        return []
    c = R.unwrap(c)
    if f[0] == "ms":
        signed = [R.pk_uh(k) for k, s in f[1] if s]
        return [u for u in c[1] if u not in signed]
    if f[2]:
        return []
    if c[0] == "as":
        return [c[2] if f[3] and any(bytes.fromhex(f[3])) else c[1]]
    return [R.cond_uh(c)]


def auths(v):
    """states of the version's own authorisation: (spec changes, parent data, complete?, asked addresses)"""
    if v in (128, 129):
        for c, f in ALL:
            yield {"mf": f}, {"mint": c}, complete(c, f), missing(c, f)
    elif v == 144 or v == 210:
        for pk, sig in ((None, None), (K[3], None), (K[3], S[3])):
            yield {"pk": pk, "sig": sig}, {}, bool(sig), [R.pk_uh(pk)] if pk and not sig else []
    elif v == 145:
        for pk, sig in itertools.product((None, K[3]), (None, S[3])):
            yield {"sig": sig}, {"parent": pk}, bool(sig), [R.pk_uh(pk)] if pk and not sig else []
    elif v == 146:
        for a, sa, b, sb in itertools.product((None, K[3]), (None, S[3]), (None, K[2]), (None, S[2])):
            yield {"ssig": sa, "rsig": sb}, {"sender": a, "receiver": b}, bool(sa and sb), \
                ([R.pk_uh(a)] if a and not sa else []) + ([R.pk_uh(b)] if b and not sb else [])
    else:
        yield {}, {}, True, []


BASE = {1: {"cout": [[1, UH]], "bout": [], "bin": [], "fees": [5], "data": ""},
        128: {"nonce": "01" * 8, "mc": UH, "fees": [5], "data": ""}, 129: {"nonce": "01" * 8, "cout": [[1, UH]], "fees": [5], "data": ""},
        144: {"addrs": [], "names": ["foobar"], "months": 1, "fee": 5, "refund": None},
        145: {"id": 3, "aadd": [], "arem": [], "nadd": ["foobar"], "nrem": [], "months": 0, "fee": 5, "refund": None},
        146: {"sid": 1, "rid": 2, "names": ["foobar"], "fee": 5, "refund": None},
        208: {"addr": "ab" * 20, "value": 7, "fee": 5, "refund": None}, 210: {"regfee": 10 ** 10, "fee": 5, "refund": None}}


def attach(o, t, ins, bins, par):
    for l, sp, mk in ((o.coin_inputs, ins, B.cout), (o.blockstake_inputs, bins, B.bout)):
        same(len(l), len(sp), "number of inputs")
        for i, (c, _) in zip(l, sp):
            if c is not None:
                i.parent_output = mk([5, c], id=TS.H[7])
    if par.get("mint"):
        o.parent_mint_condition = B.cond(par["mint"])
    for k, a in (("parent", "parent_public_key"), ("sender", "sender_parent_public_key"), ("receiver", "receiver_parent_public_key")):
        if par.get(k):
            setattr(o, a, B.pk(par[k]))


def judge(o, want, asked, what):
    for n in range(2):
        v = o.is_fulfilled()
        same(bool(v), want, "verdict (%s%s)" % (what, ", asked again" if n else ""))
        r = o.signature_requests_new()
        same(sorted(x.wallet_address for x in r), sorted(R.uh_text(u) for u in asked), "requests (%s%s)" % (what, ", asked again" if n else ""))
        expect(not any(x.fulfilled for x in r), "a fresh request is fulfilled")
    return r


@family
def verdict(case):
    """[version, coin inputs, block stake inputs, index of the authorisation state]"""
    v, ins, bins, n = case
    ch, par, ok, asked = list(auths(v))[n]
    t = dict(BASE[v], v=v, **ch)
    if v not in (128, 129):
        t["cin"] = [[TS.H[i] if i < 3 else "%064x" % i, f] for i, (_, f) in enumerate(ins)]
        if v == 1:
            t["bin"] = [[TS.H[i + 3] if i < 3 else "%064x" % (1000 + i), f] for i, (_, f) in enumerate(bins)]
    want = ok and all(complete(c, f) for c, f in ins + bins)
    ask = list(asked)
    for c, f in ins + bins:
        ask += missing(c, f)
    for route in ("set", "json", "text"):
        o = B.txn(t, "set" if route == "set" else "json")
        attach(o, t, ins, bins, par)
        judge(o, want, ask, route)
        if route == "text":
            o = T.from_json(json.dumps(o.json()))
            attach(o, t, ins, bins, par)
            judge(o, want, ask, "after a round trip")
        if route == "set":
            # assigning the inputs keeps them what they are
            if v == 1:
                o.blockstake_inputs = list(o.blockstake_inputs)
            if v not in (128, 129):
                o.coin_inputs = list(o.coin_inputs)
            judge(o, want, ask, "inputs assigned again")
    # sign everything that is asked for, one by one: complete exactly when nothing is missing (or enough owners signed)
    signer = {R.uh_text(R.pk_uh(k)): k for k in K}
    unknown = any(c is None for c, _ in ins + bins) or not ok and not asked
    for order in (1, -1):
        o = B.txn(t, "json")
        attach(o, t, ins, bins, par)
        todo = o.signature_requests_new()[::order]
        before = want
        for i, r in enumerate(todo):
            k = signer.get(r.wallet_address, K[2])
            r.signature_fulfill(B.pk(k), bytes.fromhex(S[4]))
            expect(r.fulfilled, "a fulfilled request says it is not")
            now = o.is_fulfilled()
            expect(now or not before, "a signature makes a complete transaction incomplete")
            before = bool(now)
            same(len(o.signature_requests_new()), len(todo) - i - 1, "requests left")
        same(bool(o.is_fulfilled()), not unknown and authorised(v, par, ch), "verdict after all requested signatures")
        # the verdict follows every later change: signatures taken away again, an unsigned input more, that input gone
        if v in (128, 129):
            o.mint_fulfillment = B.ff(t["mf"])
        else:
            for l, sp in ((o.coin_inputs, ins), (o.blockstake_inputs, bins)):
                for i, (_, f) in zip(l, sp):
                    i.fulfillment = B.ff(f)
        for a, k in (("signature", "sig"), ("sender_signature", "ssig"), ("receiver_signature", "rsig")):
            if k in t:
                setattr(o, a, t[k])
        judge(o, want, ask, "signatures taken away")
        if v not in (128, 129):
            o.coin_input_add(TS.H[6], B.ff(TS.SS_NEW), B.cout([5, UH], id=TS.H[6]))
            judge(o, False, ask + [U[0]], "an unsigned input added")
            o.coin_inputs[-1].fulfillment = B.ff(TS.SS)
            judge(o, want, ask, "the added input signed")
            o.coin_inputs[-1].fulfillment = B.ff(TS.SS_NEW)
            o.coin_inputs = list(o.coin_inputs)[:-1]
            judge(o, want, ask, "the added input removed")
    return (v, want, len(ask))


def authorised(v, par, ch):
    """can the version's own authorisation be completed by the requests it issues?"""
    if v in (128, 129):
        return par["mint"] is not None
    if v in (144, 210):
        return ch["pk"] is not None
    if v == 145:
        return bool(par["parent"] or ch["sig"])
    if v == 146:
        return bool(par["sender"] or ch["ssig"]) and bool(par["receiver"] or ch["rsig"])
    return True


@family
def from_output(case):
    """[condition, coin or stake]: an input made from an output knows its parent, and is unsigned"""
    c, kind = case
    if kind == "coin":
        from tfchain.types.IO import CoinInput
        i = CoinInput.from_coin_output(B.cout([5, c], id=TS.H[0]))
    else:
        from tfchain.types.IO import BlockstakeInput
        i = BlockstakeInput.from_blockstake_output(B.bout([5, c], id=TS.H[0]))
    same(str(i.parentid), TS.H[0], "parent id")
    expect(not i.is_fulfilled(), "a fresh input is fulfilled")
    o = T.new()
    if kind == "coin":
        o.coin_inputs = [i]
    else:
        o.blockstake_inputs = [i]
    f = {"ms": P(), "as": ["as", None, None, None]}.get(R.unwrap(c)[0], ["ss", None, None])
    judge(o, False, missing(c, f), "made from an output")
    return repr(c)


def cases(deep):
    ni = {v: len(list(auths(v))) for v in BASE}
    for v in (128, 129):
        for n in range(ni[v]):
            yield [v, [], [], n]
    for v in (1, 144, 145, 146, 208, 210):
        for n in range(ni[v]):
            yield [v, [], [], n]
            for a in ALL:
                yield [v, [a], [], n]
            for a, b in itertools.product(SHORT if not deep else ALL, SHORT):
                yield [v, [a, b], [], n]
    for a in ALL:
        yield [1, [], [a], 0]
    for a, b in itertools.product(ALL, ALL):
        yield [1, [a], [b], 0]
        yield [1, [a, b], [], 0]
        if deep:
            yield [1, [], [a, b], 0]
    for l in itertools.product(SHORT, repeat=3):
        for k in range(4):
            yield [1, list(l[:k]), list(l[k:]), 0]
    # many inputs, one of another kind among them
    done = next(a for a in ALL if complete(*a))
    for a in SHORT:
        for n in (4, 5, 6, 7, 9, 17, 33):
            for at in range(n) if n < 10 or deep else (0, 8, n - 2, n - 1):
                for d in (done, a):
                    l = [d] * n
                    l[at] = a if d is done else done
                    for k in (0, 2, n):
                        yield [1, l[:k], l[k:], 0]
    if deep:
        for l in itertools.product(SHORT, repeat=4):
            yield [1, list(l[:2]), list(l[2:]), 0]


def run(ctx):
    conds = [UH, NIL, LT, MS22, MS12, MS23, AS, ["lt", 5, NIL]]
    ctx.all(from_output, [[c, k] for c in conds for k in ("coin", "stake")])
    ctx.all(verdict, cases(ctx.thorough), parallel=True)
