"""C04: what a signature commits to."""
import copy
import itertools
import json
import os

import ed25519

from mc import build as B
from mc import txnspec as TS
from mc.changes import BASES, mutated_cases
from mc.core import VERIF, expect, family, same
from mc.ref import txn as X
from mc.ref import types as R

from tfchain.types import transactions as T

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("cases: digests of every transaction of the bounded space of C03 for every input position, key, secret and role, compared with the reference; "
        "all single-field mutations of base transactions (every signer's digest has to change) and all signature mutations (no digest may change); "
        "the digests handed out by the transaction's own signature requests for all combinations of parent conditions; recorded chain signatures; every single change applied to one object that was asked before. "
        "Non-trivial when at least one digest was compared")
ASSUMPTIONS = ["the reference digest is bound to the chain by 92 recorded ed25519 signatures, which have to verify against it",
               "collision freedom of blake2b: equal digests of different transactions are reported",
               "version 209 has no signer and therefore no digest; a coin input and a block stake input of one transaction may share a digest, as on the chain"]
V = [v for v in X.VERSIONS if v != 209]


def extras_of(t):
    out = []
    if t["v"] not in (128, 129):
        for i in range(max(len(t["cin"]), len(t.get("bin", [])), 1)):
            out += [[["i", i]], [["i", i], ["pk", TS.K[0]]], [["i", i], ["pk", TS.K[1]]], [["i", i], ["pk", TS.K[0]], ["raw", TS.H[7]]]]
    else:
        out += [[], [["pk", TS.K[0]]], [["pk", TS.K[1]]]]
    if t["v"] in (144, 145, 146):
        out += [[["raw", X.SENDER.hex()]], [["raw", X.RECEIVER.hex()]]]
    if t["v"] == 210:
        out.append([["raw", X.REGISTRATION.hex()]])
    return out


def dig(o, ex):
    return bytes(o.signature_hash_get(*[B.extra(e) for e in ex])).hex()


@family
def digest(t):
    for route in ("set", "json"):
        o = B.txn(t, route)
        seen = {}
        for ex in extras_of(t):
            d = dig(o, ex)
            same(d, X.digest(t, ex), "digest (%s) with %s" % (route, ex))
            expect(d not in seen, "digest of {} is also that of {}", ex, seen.get(d))
            seen[d] = ex
    return json.dumps(t)


@family
def mutated(case):
    """[base, label, committed, changed]: every signer's digest changes (or does not)"""
    t, label, committed, n = case
    for route in ("json", "set"):
        a, b = B.txn(t, route), B.txn(n, route)
        for ex in extras_of(t):
            if not committed and ex not in extras_of(n):
                continue
            da, db = dig(a, ex), dig(b, ex)
            if committed:
                expect(da != db, "{}: the digest with {} stays {}", label, ex, da)
            else:
                same(db, da, "%s: digest with %s" % (label, ex))
    return json.dumps(case[1:])


@family
def changed(case):
    """[base, label, committed, changed]: one object, asked for its digests, changed through its setters, asked again, changed back"""
    t, label, _, n = case
    done = False
    for way in ("set", "inside"):
        for route in ("set", "json"):
            o = B.txn(t, route)
            for ex in extras_of(t):
                dig(o, ex)
            if not B.assign(o, t, n, way):
                break
            done = True
            for ex in extras_of(n):
                same(dig(o, ex), X.digest(n, ex), "%s: digest of the changed transaction with %s" % (label, ex))
            if B.assign(o, n, t, way):
                for ex in extras_of(t):
                    same(dig(o, ex), X.digest(t, ex), "%s: digest with %s once changed back" % (label, ex))
    return json.dumps(case[1:]) if done else None


# --- digests as the transaction hands them out with its signature requests
PARENTS = [["uh", TS.U[0]], ["ms", [TS.U[0], TS.U[1]], 2], ["as", TS.U[0], TS.U[1], TS.H[5], 1549649728], ["lt", 500, ["uh", TS.U[1]]],
           ["lt", 5, ["ms", [TS.U[1], TS.U[2], TS.U[0]], 2]]]
KEY = {R.uh_text(u): k for u, k in zip(TS.U, TS.K)}


def fresh(parent, secret):
    i = R.unwrap(parent)
    return {"uh": ["ss", None, None], "ms": ["ms", []], "as": ["as", None, None, secret]}[i[0]]


def wanted(pos, parent, secret):
    """[(address, extras)] of the signatures an unsigned input needs"""
    i = R.unwrap(parent)
    if i[0] == "uh":
        return [(R.uh_text(i[1]), [["i", pos]])]
    if i[0] == "ms":
        return [(R.uh_text(u), [["i", pos], ["pk", KEY[R.uh_text(u)]]]) for u in i[1]]
    if secret:
        return [(R.uh_text(i[2]), [["i", pos], ["pk", KEY[R.uh_text(i[2])]], ["raw", secret]])]
    return [(R.uh_text(i[1]), [["i", pos], ["pk", KEY[R.uh_text(i[1])]]])]


@family
def requests(case):
    """[version, coin parents, stake parents, secret]: an unsigned transaction with known parents"""
    v, cp, bp, secret = case
    t = copy.deepcopy({0: BASES[1][0], 1: BASES[1][0]}.get(v, BASES[v][0]))
    want = []
    if v not in (128, 129):
        t["cin"] = [[TS.H[i], fresh(p, secret)] for i, p in enumerate(cp)]
        for i, p in enumerate(cp):
            want += wanted(i, p, secret)
    if v == 1:
        t["bin"] = [[TS.H[4 + i], fresh(p, secret)] for i, p in enumerate(bp)]
        for i, p in enumerate(bp):
            want += wanted(i, p, secret)
    for k in ("sig", "ssig", "rsig"):
        if k in t:
            t[k] = None
    if v in (128, 129):
        t["mf"] = fresh(cp[0], None)
    o = B.txn(t, "set")
    for i, p in enumerate(cp if v not in (128, 129) else []):
        o.coin_inputs[i].parent_output = B.cout([5, p], id=TS.H[i])
    for i, p in enumerate(bp if v == 1 else []):
        o.blockstake_inputs[i].parent_output = B.bout([5, p], id=TS.H[4 + i])
    S, Rc, G = [["raw", x.hex()] for x in (X.SENDER, X.RECEIVER, X.REGISTRATION)]
    if v in (128, 129):
        o.parent_mint_condition = B.cond(cp[0])
        i = R.unwrap(cp[0])
        want = [(R.uh_text(i[1]), [])] if i[0] == "uh" else [(R.uh_text(u), [["pk", KEY[R.uh_text(u)]]]) for u in i[1]]
    elif v == 144:
        want.append((R.uh_text(R.pk_uh(t["pk"])), [S]))
    elif v == 145:
        o.parent_public_key = B.pk(TS.K[2])
        want.append((R.uh_text(TS.U[2]), [S]))
    elif v == 146:
        o.sender_parent_public_key = B.pk(TS.K[2])
        o.receiver_parent_public_key = B.pk(TS.K[3])
        want += [(R.uh_text(TS.U[2]), [S]), (R.uh_text(TS.U[3]), [Rc])]
    elif v == 210:
        want.append((R.uh_text(R.pk_uh(t["pk"])), [G]))
    got = [(r.wallet_address, r.input_hash_new(B.pk(KEY[r.wallet_address])).value.hex()) for r in o.signature_requests_new()]
    same(sorted(got), sorted((a, X.digest(t, ex)) for a, ex in want), "signature requests (address, digest)")
    return json.dumps(case)


def request_cases(deep):
    P = itertools.product
    sets = [list(x) for n in (1, 2) for x in P(PARENTS, repeat=n)] + ([list(x) for x in P(PARENTS, repeat=3)] if deep else [])
    for v in V:
        if v == 0:
            continue
        if v in (128, 129):
            for p in PARENTS:
                if p[0] != "as":
                    yield [v, [p], [], None]
            continue
        for cp in sets + [[]]:
            for bp in ([[], [PARENTS[0]], [PARENTS[1], PARENTS[3]]] if v == 1 else [[]]):
                for secret in (None, TS.H[7]) if any(p[0] == "as" for p in cp) else (None,):
                    yield [v, cp, bp, secret]


@family
def recorded(n):
    r = CHAIN[n]
    t = X.of_json(r["raw"])
    o = T.from_json(json.dumps(r["raw"]))
    c = 0
    todo = X.signatures(t)
    if t["v"] == 144:
        todo.append(("role", [["raw", X.SENDER.hex()]], t["pk"], t["sig"]))
    elif t["v"] == 210:
        todo.append(("role", [["raw", X.REGISTRATION.hex()]], t["pk"], t["sig"]))
    elif t["v"] == 145:
        todo.append(("role", [["raw", X.SENDER.hex()]], t["cin"][0][1][1], t["sig"]))
    for what, ex, k, s in todo:
        d = dig(o, ex)
        same(d, X.digest(t, ex), "%s digest" % what)
        try:
            ed25519.VerifyingKey(bytes.fromhex(k)).verify(bytes.fromhex(s), bytes.fromhex(d))
        except ed25519.BadSignatureError:
            expect(False, "the recorded {} signature of {} does not verify against the digest", what, k)
        c += 1
    return r["id"] if c else None


CHAIN = [json.loads(l) for l in open(os.path.join(VERIF, "data", "chain.jsonl"))]


def run(ctx):
    ctx.all(recorded, range(len(CHAIN)))
    ctx.all(requests, request_cases(ctx.thorough), parallel=True)
    for v in V:
        ctx.all(digest, TS.specs(v, ctx.thorough), parallel=True)
    for v in V:
        ctx.all(mutated, mutated_cases(v, ctx.thorough), parallel=True)
    for v in V:
        if v:
            ctx.all(changed, mutated_cases(v, ctx.thorough), parallel=True)
