"""C20: explorer answers are taken over faithfully or refused.

One ledger with every kind of object; every lookup of the client is asked, and its well formed answer is then mutated at every
place: deletions, type changes, substitutions, dropped / repeated / reordered list elements, the answer of any other lookup, bodies
which are no JSON object. An independent strict reader says what the answer means: a value, an answer which has to be refused
(ExplorerInvalidResponse), or an answer which may be refused but is not judged further."""
import copy
import itertools
import json
import re

import tfchain.errors as E

from mc import build as B
from mc import txnspec as S
from mc.core import Succ, bad, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R
from mc.world import K, client

from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.PrimitiveTypes import Hash
from tfchain.types.ThreeBot import BotName

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("an evaluation asks one lookup with one (mutated) answer, or one client everything after each event of a history of the ledger; it is non-trivial when the answer was judged: read with a value that was "
        "compared, or one that had to be refused")
ASSUMPTIONS = [
    "an explorer reports confirmed / unconfirmed as a JSON boolean; answers without that field, digit strings or integral floats for numbers "
    "and negative numbers are not judged",
    "the inner form of raw transactions, conditions and fulfillments is judged by C04: here only missing fields and well formed "
    "substitutions are",
    "the order of the transactions of an address is not judged",
]
HEX64 = re.compile(r"\A[0-9a-f]{64}\Z")


# --- the world
def U(n):
    return K(n).uh


def build():
    l = L.Ledger("devnet", mint=["ms", [U(1), U(2)], 1])
    one = lambda n: ["uh", U(n)]
    ms = ["ms", [U(1), U(2)], 2]
    v1 = lambda cin=(), cout=(), bin=(), bout=(), fees=(5,), data="": {"v": 1, "cin": [[p, S.SS] for p in cin], "cout": list(cout),
                                                                       "bin": [[p, S.SS] for p in bin], "bout": list(bout), "fees": list(fees), "data": data}
    n = {}
    g = l.give([[1000, one(1)], [2000, ["lt", 500, one(1)]], [3000, ms], [4000, ["nil"]], [5000, ["as", U(1), U(2), S.H[5], 1549649728]],
                [6000, one(1)], [7000, one(1)], [8000, one(2)], [9000, one(2)]], tag=1)
    n["g"] = l.mine() and list(l.txs)[0]
    n["stake"] = l.submit(v1(bout=[[30, one(1)], [40, ms]], data="c3a9"))
    s0, s1 = X.stake_id(l.txs[n["stake"]]["t"], 0), X.stake_id(l.txs[n["stake"]]["t"], 1)
    l.mine(payouts=[(10, U(1)), (20, U(3))])
    # confirmed spend with two inputs, a spend of coins and stakes
    n["two"] = l.submit(v1(cin=[g[0], g[3]], cout=[[4000, one(2)], [995, one(1)]], bin=[s0], bout=[[30, one(2)]]))
    l.mine(payouts=[(11, U(2))])
    # creation and spend in the same block
    n["same1"] = l.submit(v1(cin=[g[5]], cout=[[5995, one(1)]]))
    same1 = l.txs[n["same1"]]["ids"][0]
    n["same2"] = l.submit(v1(cin=[same1], cout=[[5990, ms]], fees=(2, 3)))
    l.mine()
    # the other kinds
    n["msp"] = l.submit({"v": 1, "cin": [[g[2], ["ms", [[S.K[0], S.S[0]], [S.K[1], S.S[1]]]]]], "cout": [[2995, ms]], "bin": [], "bout": [], "fees": [5], "data": ""})
    n["mint"] = l.submit({"v": 129, "nonce": S.NONCE[1], "mf": S.MS, "cout": [[77, one(1)]], "fees": [1], "data": ""})
    n["mdef"] = l.submit({"v": 128, "nonce": S.NONCE[1], "mf": S.MS, "mc": ["ms", [U(1), U(3)], 2], "fees": [1], "data": "00"})
    n["reg"] = l.submit({"v": 144, "addrs": [["h", "example.org"]], "names": ["foobar"], "months": 1, "fee": 1, "cin": [[g[6], S.SS]],
                         "refund": [99, one(1)], "pk": S.K[3], "sig": S.S[4]})
    n["conv"] = l.submit({"v": 208, "addr": "ab" * 20, "value": 12, "fee": 1, "cin": [[g[7], S.SS]], "refund": [100, one(2)]})
    n["cc"] = l.submit({"v": 209, "uh": U(1), "value": 44, "fee": 1, "blockid": S.H[0], "txid": S.H[1]})
    l.mine(payouts=[(12, U(1))])
    # unconfirmed: a spend of a confirmed output, a chain of two
    n["u1"] = l.submit(v1(cin=[g[8]], cout=[[8000, one(1)], [995, one(2)]]))
    u1 = l.txs[n["u1"]]["ids"]
    n["u2"] = l.submit(v1(cin=[u1[0]], cout=[[7995, one(2)]]))
    n["us"] = l.submit(v1(bin=[s1], bout=[[40, one(1)]]))
    l.bots[7] = {"names": ["foobar", "hello.foobar"], "addrs": [["h", "example.org"], ["4", "7f000001"]], "pk": S.K[3], "exp": l.time + 1000}
    l.bots[8] = {"names": [], "addrs": [], "pk": S.K[2], "exp": 5}
    l.erc20[K(1).text] = 30
    l.erc20[K(3).text] = 0
    n.update(g0=g[0], g1=g[1], g2=g[2], g5=g[5], g8=g[8], same1o=same1, u10=u1[0], u11=u1[1], u20=l.txs[n["u2"]]["ids"][0], s0=s0, s1=s1,
             sx=X.stake_id(l.txs[n["us"]]["t"], 0), ccout=l.txs[n["cc"]]["ids"][0], msuh=ms)
    return l, n


_world = []


def world():
    if not _world:
        _world.extend(build())
    return _world


# --- lookups: name -> (endpoints asked, kind, argument)
def lookups():
    l, n = world()
    out = {}
    for h in (0, 1, 3, 4, 5, l.height):
        b = l.blocks[h]
        out["block#%d" % h] = (["/explorer/blocks/%d" % h], "height", h)
        out["block@%d" % h] = (["/explorer/hashes/" + b["id"]], "block", b["id"])
    for k in ("g", "stake", "two", "same2", "msp", "mint", "mdef", "reg", "conv", "cc", "u1", "u2", "us"):
        out["tx:" + k] = (["/explorer/hashes/" + n[k]], "tx", n[k])
    for k in ("g0", "g1", "g2", "g5", "g8", "same1o", "u10", "u11", "u20", "ccout"):
        out["coin:" + k] = (["/explorer/hashes/" + n[k]], "coin", n[k])
    for k in ("s0", "s1", "sx"):
        out["stake:" + k] = (["/explorer/hashes/" + n[k]], "stake", n[k])
    for k, t in (("1", K(1).text), ("2", K(2).text), ("3", K(3).text), ("ms", R.uh_text(R.cond_uh(n["msuh"])))):
        out["uh:" + k] = (["/explorer/hashes/" + t], "uh", t)
    for k in (1, 2, 3):
        out["erc:%d" % k] = (["/explorer/hashes/" + K(k).text], "erc", K(k).text)
    for w in (7, 8):
        out["bot#%d" % w] = (["/explorer/3bot/%d" % w], "botid", w)
        p = R.pk_text(l.bots[w]["pk"])
        out["bot=%d" % w] = (["/explorer/3bot/" + p], "botkey", p)
    for w in ("foobar", "hello.foobar"):
        out["bot@" + w] = (["/explorer/whois/3bot/" + w], "botname", w)
    for h in (None, 0, 4, 5):
        out["mint%s" % h] = (["/explorer/mintcondition" + ("" if h is None else "/%d" % h)], "mintc", h)
    out["info"] = (["/explorer", "/explorer/hashes/" + l.tip()["id"]], "info", None)
    out["post"] = (["/transactionpool/transactions"], "post", None)
    return out


def answer(endpoint):
    l, n = world()
    if endpoint.startswith("/transactionpool"):
        return {"transactionid": n["two"]}
    return l.lookup(endpoint)


# --- the strict reader
class Refuse(Exception):
    pass


class Soft(Exception):
    """not judged: the answer may be refused, or read somehow"""


def need(d, k):
    if not isinstance(d, dict):
        raise Refuse("no object")
    if k not in d:
        raise Refuse("%s is missing" % k)
    return d[k]


def hexid(v):
    if isinstance(v, str) and HEX64.match(v):
        return v
    raise Refuse("no identifier: %r" % (v,))


def number(v):
    if isinstance(v, bool):
        raise Soft("bool")
    if isinstance(v, int):
        if v < 0:
            raise Soft("negative")
        return v
    if isinstance(v, str) and v.isdigit():
        raise Soft("digits")
    raise Refuse("no number: %r" % (v,))


def lst(d, k):
    v = d.get(k)
    if v is None or v == []:
        return []
    if not isinstance(v, list):
        if not v:
            raise Soft("falsy list")
        raise Refuse("%s is no list" % k)
    return v


def amount(v):
    if v is None or v == "":
        raise Soft("null amount")
    if isinstance(v, str) and v.isdigit():
        return int(v)
    if isinstance(v, (int, float)):
        raise Soft("number for an amount")
    raise Refuse("no amount")


def uhash(v):
    if isinstance(v, str) and len(v) == 78:
        u = X.uh_of(v)
        if u[0] > 3:
            raise Refuse("unlock hash of an unknown type")
        if R.uh_text(u) != v:
            raise Refuse("checksum")
        return v
    if v in (None, ""):
        raise Soft("empty unlock hash")
    raise Refuse("no unlock hash")


def cond(v):
    if not isinstance(v, dict):
        if v is None:
            raise Soft("null condition")
        raise Refuse("no condition")
    return X.cond_of(v)


def out(o):
    return [amount(need(o, "value")), cond(need(o, "condition"))]


def tx(e):
    raw = need(e, "rawtransaction")
    if not isinstance(raw, dict):
        raise Refuse("rawtransaction")
    for k in ("version", "data"):
        need(raw, k)
    t = X.of_json(raw)
    r = {"id": hexid(need(e, "id")), "t": t}
    cin, cout, bins, bout = t.get("cin", []), X.couts(t), t.get("bin", []), t.get("bout", [])
    for key, items, ids in (("coin", cin, cout), ("blockstake", bins, bout)):
        ps, os = lst(e, key + "inputoutputs"), lst(e, key + "outputids")
        if len(ps) != len(items) or len(os) != len(ids):
            raise Refuse("numbers of %s inputs and outputs" % key)
        r[key + "in"] = [[i[0]] + out(p) for i, p in zip(items, ps)]
        r[key + "out"] = [[hexid(i)] + list(o) for i, o in zip(os, ids)]
    u = e.get("unconfirmed")
    if not isinstance(u, bool):
        raise Soft("unconfirmed")
    r["unconfirmed"] = u
    r["height"] = None if u else number(need(e, "height"))
    return r


def block(b):
    need(b, "transactions")
    if not (b["transactions"] is None or isinstance(b["transactions"], list)) and not b["transactions"]:
        raise Soft("falsy list")
    raw = need(b, "rawblock")
    r = {"transactions": [tx(e) for e in lst(b, "transactions")]}
    r.update(id=hexid(need(b, "blockid")), height=number(need(b, "height")), parent=hexid(need(raw, "parentid")), time=number(need(raw, "timestamp")))
    ids, pays = lst(b, "minerpayoutids"), lst(raw, "minerpayouts")
    if len(ids) != len(pays):
        raise Refuse("miner payouts")
    r["payouts"] = [[hexid(i), amount(need(p, "value")), uhash(need(p, "unlockhash"))] for i, p in zip(ids, pays)]
    return r


def erc(info, asked):
    if info is None:
        raise Soft("null erc20info")
    if not isinstance(info, dict):
        raise Refuse("erc20info")
    a = need(info, "erc20address")
    c = need(info, "confirmations")
    if not isinstance(a, str) or not re.match(r"\A0x[0-9a-f]{40}\Z", a):
        if a in (None, ""):
            raise Soft("empty erc20 address")
        raise Refuse("erc20address")
    if uhash(need(info, "tftaddress")) != asked:
        raise Refuse("about another address")
    return {"tft": asked, "erc20": a, "confirmations": number(c)}


def kindof(d, want):
    if need(d, "hashtype") != want:
        raise Refuse("hash type")


def read(kind, arg, d):
    if not isinstance(d, dict):
        raise Refuse("no object")
    if kind == "height":
        if "hashtype" in d:
            raise Soft("another kind of answer")
        b = block(need(d, "block"))
        if b["height"] != arg:
            raise Refuse("another block")
        return b
    if kind == "block":
        kindof(d, "blockid")
        b = block(need(d, "block"))
        if b["id"] != arg:
            raise Refuse("another block")
        return b
    if kind == "tx":
        kindof(d, "transactionid")
        t = tx(need(d, "transaction"))
        if t["id"] != arg:
            raise Refuse("another transaction")
        return t
    if kind in ("coin", "stake"):
        kindof(d, "coinoutputid" if kind == "coin" else "blockstakeoutputid")
        key = "coin" if kind == "coin" else "blockstake"
        ts = need(d, "transactions")
        if not isinstance(ts, list) or len(ts) not in (1, 2):
            raise Refuse("one or two transactions")
        ts = [tx(t) for t in ts]
        made = [i for i, t in enumerate(ts) if arg in [o[0] for o in t[key + "out"]]]
        used = [i for i, t in enumerate(ts) if arg in [o[0] for o in t[key + "in"]]]
        if len(made) == 2:
            raise Refuse("created twice") if len(used) == 0 else Soft("created twice")
        if not made:
            raise Refuse("not created")
        if len(ts) == 2 and (len(used) == 0 or used == made):
            raise Refuse("the other transaction has nothing to do with it")
        if len(ts) == 1 and used or len(used) > 1:
            raise Soft("spent by its creator")
        c = ts[made[0]]
        if len([o for o in c[key + "out"] if o[0] == arg]) > 1:
            raise Soft("identifier given twice")
        return {"out": [o for o in c[key + "out"] if o[0] == arg][0], "creation": c, "spend": ts[used[0]] if used else None}
    if kind == "uh":
        kindof(d, "unlockhash")
        need(d, "transactions")
        if isinstance(d["transactions"], (str, dict, int, float, bool)) and not d["transactions"]:
            raise Soft("falsy list")
        r = {"uh": arg, "transactions": sorted((tx(t) for t in lst(d, "transactions")), key=lambda t: json.dumps(t, sort_keys=True)),
             "ms": [uhash(u) for u in lst(d, "multisigaddresses")], "erc": None}
        if any(u[:2] != "03" for u in r["ms"]):
            raise Refuse("no multi-signature address")
        if "erc20info" in d:
            r["erc"] = erc(d["erc20info"], arg)
        return r
    if kind == "erc":
        kindof(d, "unlockhash")
        if "erc20info" not in d:
            return "no content"
        return erc(d["erc20info"], arg)
    if kind in ("botid", "botkey", "botname"):
        b = need(d, "record")
        r = {"id": number(need(b, "id")), "pk": need(b, "publickey"), "exp": number(need(b, "expiration")), "names": lst(b, "names"), "addrs": lst(b, "addresses")}
        if not r["pk"]:
            raise Soft("empty key")
        if not isinstance(r["pk"], str) or not re.match(r"\Aed25519:[0-9a-f]{64}\Z", r["pk"]):
            raise Refuse("no key")
        for n in r["names"]:
            if n in ("", None):
                raise Soft("empty name")
            if not isinstance(n, str) or len(n) < 5:
                raise Refuse("no name")
        for a in r["addrs"]:
            if not isinstance(a, str) or a in ("", "x"):
                raise Soft("address")
        if (kind == "botid" and r["id"] != arg) or (kind == "botkey" and r["pk"] != arg) or (kind == "botname" and arg not in r["names"]):
            raise Refuse("another 3Bot")
        return r
    if kind == "mintc":
        c = need(d, "mintcondition")
        if c == {}:
            raise Soft("empty condition")
        return cond(c)
    if kind == "post":
        return hexid(need(d, "transactionid"))
    raise AssertionError(kind)


# --- what the client says
def oid(o):
    return str(o.id)


def seen_out(o):
    c = X.cond_of(o.condition.json())
    v = int(o.value.json()) if hasattr(o.value, "json") else int(o.value)
    return [v, c]


def seen_tx(t):
    r = {"id": str(t.id), "t": X.of_json(t.json())}
    for key, ins, outs in (("coin", t.coin_inputs, t.coin_outputs), ("blockstake", t.blockstake_inputs, t.blockstake_outputs)):
        r[key + "in"] = [[str(i.parentid)] + seen_out(i.parent_output) for i in ins]
        for i in ins:
            same(oid(i.parent_output), str(i.parentid), "identifier of a spent output")
        r[key + "out"] = [[oid(o)] + seen_out(o) for o in outs]
    r["unconfirmed"] = bool(t.unconfirmed)
    if t.unconfirmed:
        if t.height >= 0:
            bad("an unconfirmed transaction with height {}", t.height)
        r["height"] = None
    else:
        r["height"] = t.height
    return r


def seen_block(b):
    return {"transactions": [seen_tx(t) for t in b.transactions], "id": str(b.id), "height": b.height, "parent": str(b.parentid), "time": b.timestamp,
            "payouts": [[str(p.id), int(p.value.json()), str(p.unlockhash)] for p in b.miner_payouts]}


def seen_erc(i):
    return None if i is None else {"tft": str(i.address_tft), "erc20": str(i.address_erc20), "confirmations": i.confirmations}


def ask(c, kind, arg):
    if kind in ("height", "block"):
        return seen_block(c.block_get(arg))
    if kind == "tx":
        return seen_tx(c.transaction_get(arg))
    if kind in ("coin", "stake"):
        o, made, used = (c.coin_output_get if kind == "coin" else c.blockstake_output_get)(arg)
        return {"out": [oid(o)] + seen_out(o), "creation": seen_tx(made), "spend": None if used is None else seen_tx(used)}
    if kind == "uh":
        l, n = world()
        if isinstance(arg, str) and arg[:2] == "03":
            arg = ([R.uh_text(u) for u in n["msuh"][1]], n["msuh"][2])
        r = c.unlockhash_get(arg)
        return {"uh": str(r.unlockhash), "transactions": sorted((seen_tx(t) for t in r.transactions), key=lambda t: json.dumps(t, sort_keys=True)),
                "ms": [str(u) for u in r.multisig_addresses], "erc": seen_erc(r.erc20_info)}
    if kind == "erc":
        return seen_erc(c.erc20.address_get(arg))
    if kind in ("botid", "botkey", "botname"):
        r = c.threebot.record_get(arg)
        return {"id": r.identifier, "pk": str(r.public_key), "exp": r.expiration, "names": [str(x) for x in r.names], "addrs": [str(x) for x in r.addresses]}
    if kind == "mintc":
        return X.cond_of(c.minter.condition_get(arg).json())
    if kind == "info":
        i = c.blockchain_info_get()
        return {"id": i.blockid, "height": i.height, "time": i.timestamp, "block": seen_block(i.last_block)}
    return c.transaction_put(X.js(world()[0].txs[world()[1]["two"]]["t"]))


# --- mutations
TYPES = [None, 0, 5, -1, "", "x", [], {}, True, 1.5, [None], {"a": 1}]
OTHER_UH = R.uh_text([1, "7b" * 32])
OTHER_KINDS = [R.uh_text([k, "7c" * 32]) for k in (1, 2, 3)]


def paths(d, at=()):
    yield at, d
    if isinstance(d, dict):
        for k in d:
            yield from paths(d[k], at + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from paths(v, at + (i,))


NIBBLES = (0, 31, 32, 63)   # where another identifier differs, besides everywhere


def flips(v, at):
    return [v[:i] + "%x" % (int(v[i], 16) ^ 1) + v[i + 1:] for i in at]


def other(v, p=()):
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, int):
        return [v + 1] + ([v * 10, v + 256, v + (1 << 32)] if v > 0 else [])
    if isinstance(v, str):
        if "names" in p and v:
            l = ["other" + v] + [v[:i] + ("b" if c == "a" else "a") + v[i + 1:] for i, c in enumerate(v) if c != "."]
            return l + ["a" + v, v + "a"] + ([v.replace(".", "")] if "." in v else [])
        if HEX64.match(v):
            return ["7b" * 32] + flips(v, NIBBLES)
        if len(v) == 78:
            return [OTHER_UH] + OTHER_KINDS + ([R.uh_text([int(v[:2], 16), h]) for h in flips(v[2:66], NIBBLES)] if v[2:66].strip("0") else [])
        if v.isdigit():
            return [str(int(v) + 1)]
        if v.startswith("ed25519:"):
            return ["ed25519:" + "7b" * 32] + ["ed25519:" + k for k in flips(v[8:], NIBBLES)]
        if re.match(r"\A0x[0-9a-f]{40}\Z", v):
            return ["0x" + "7b" * 20] + ["0x" + k for k in flips(v[2:], (0, 19, 39))]
    return []


def mutations(d, only=None):
    for p, v in paths(d):
        if p and ("target" in p[:-1]):
            continue
        if p:
            if isinstance(p[-1], str):
                yield ["del", list(p)]
            for t in TYPES:
                if t != v or type(t) is not type(v):
                    yield ["set", list(p), t]
            for o in other(v, p):
                if o not in OTHER_KINDS[1:] or p[-1] not in ("sender", "receiver"):     # the network has no contracts of such parties
                    yield ["other", list(p), o]
        if isinstance(v, list):
            for i in range(len(v)):
                yield ["drop", list(p), i]
                yield ["dup", list(p), i]
            if len(v) > 1:
                yield ["rev", list(p)]


def apply(d, m):
    d = copy.deepcopy(d)
    op, p = m[0], m[1]
    at = d
    for k in p[:-1] if op in ("del", "set", "other") else p:
        at = at[k]
    if op == "del":
        del at[p[-1]]
    elif op in ("set", "other"):
        at[p[-1]] = m[2]
    elif op == "drop":
        del at[m[2]]
    elif op == "dup":
        at.insert(m[2], at[m[2]])
    else:
        at.reverse()
    return d


INNER = ("rawtransaction", "condition", "mintcondition")
NEEDED = ("version", "data", "value", "condition", "parentid", "fulfillment")
LISTS = ("coininputs", "coinoutputs", "minerfees", "blockstakeinputs", "blockstakeoutputs")


def consulted(kind, p):
    """is this part of the answer one the lookup is about?"""
    if kind in ("height", "block", "info"):
        return p[0] == "block" and p[1:3] != ["rawblock", "transactions"]
    return p[0] == {"tx": "transaction", "coin": "transactions", "stake": "transactions", "uh": "transactions", "mintc": "mintcondition"}.get(kind)


def inner(kind, m):
    """is the mutation one of the inside of a raw transaction or condition, and not a well formed substitution?"""
    op, p = m[0], m[1]
    if not p or not consulted(kind, p):
        return None
    at = [i for i, k in enumerate(p) if k in INNER]
    if not at or (at[0] == len(p) - 1 and op in ("del",)):
        return None
    if at[0] == len(p) - 1 and op == "set":
        return None if p[-1] == "rawtransaction" and not isinstance(m[2], dict) else "soft"
    if op == "other" and p[-1] not in ("version", "type", "minimumsignaturecount", "nrofmonths", "id", "hashedsecret", "regfee", "registrationfee"):
        return None
    if op in ("drop", "dup", "rev"):
        return None if p[-1] in LISTS and op != "rev" else "soft"
    if op == "del" and p[-1] == "data" and p[-2] == "rawtransaction":
        return "no data"
    if op == "del" and p[-1] in NEEDED and (p[-2] != "data" or p[-1] == "condition"):
        return "refuse"
    return "soft"


def expected(kind, arg, d, muts):
    ins = [inner(kind, m) for m in muts]
    if "soft" in ins or ("no data" in ins and any(isinstance(v, dict) and v.get("version") == 209 for p, v in paths(d))):
        return "soft", None
    if "refuse" in ins or "no data" in ins:
        return "refuse", "a required field inside is missing"
    try:
        return "value", read(kind, arg, d)
    except Refuse as e:
        return "refuse", str(e)
    except Soft as e:
        return "soft", str(e)
    except (KeyError, ValueError, TypeError, AttributeError, IndexError) as e:
        if any(m[0] == "whole" for m in muts):
            return "refuse", repr(e)
        return "soft", repr(e)


def given(name, bodies, form=None):
    """ask the client; ('value', v) / ('refuse',) / ('absent',)"""
    ends, kind, arg = lookups()[name]

    from mc.world import Explorer
    from tfchain.TFChainClient import TFChainClient

    class Ex(Explorer):
        def get(self, endpoint):
            if endpoint not in bodies:
                raise E.ExplorerNoContent("no content", endpoint)
            b = bodies[endpoint]
            if b is None:
                raise E.ExplorerNoContent("no content", endpoint)
            return b

        def post(self, endpoint, data):
            return bodies[endpoint]
    c = TFChainClient(explorer_client=Ex(world()[0]), network_type="devnet")
    try:
        return ("value", ask(c, kind, arg if form is None else FORMS[form](arg)))
    except E.ExplorerInvalidResponse as e:
        return ("refuse", "")
    except (E.ExplorerNoContent, E.ThreeBotNotFound) as e:
        return ("absent", type(e).__name__)


def judge(name, want, got, what):
    w, v = want
    if w == "soft":
        return None
    if w == "refuse":
        if got[0] != "refuse":
            bad("{}: {}: the answer has to be refused ({}) but gave {}", name, what, v, json.dumps(got[1], default=str)[:300])
        return ["refused", name]
    if v == "no content":
        same(got, ("absent", "ExplorerNoContent"), name + ": " + str(what))
        return ["absent", name]
    if got[0] != "value":
        bad("{}: {}: a well formed answer gave {}", name, what, got)
    if got[1] != v:
        for k in v if isinstance(v, dict) else ():
            same(got[1].get(k), v[k], "%s: %s: %s" % (name, what, k))
        bad("{}: {}: read as {} instead of {}", name, what, json.dumps(got[1], default=str)[:300], json.dumps(v, default=str)[:300])
    return ["read", name, json.dumps(v, sort_keys=True)]


def info_expected(muts1, d1, muts2, d2):
    """/explorer names the last block, which is looked up next"""
    tip = world()[0].tip()["id"]
    try:
        if not isinstance(d1, dict):
            raise Refuse("no object")
        i = hexid(need(d1, "blockid"))
    except Refuse as e:
        return "refuse", str(e)
    if i != tip:
        return "absent", None
    w, v = expected("block", tip, d2, muts2)
    return (w, {"id": v["id"], "height": v["height"], "time": v["time"], "block": v}) if w == "value" else (w, v)


@family
def mutated(case):
    """[lookup, which answer, mutations]"""
    name, which, muts = case
    ends, kind, arg = lookups()[name]
    ds = [answer(e) for e in ends]
    d = ds[which]
    for m in muts:
        try:
            d = apply(d, m)
        except (KeyError, IndexError, TypeError, AttributeError):
            return None   # the first mutation removed the place of the second
    ds[which] = d
    if kind == "info":
        want = info_expected(None, ds[0], muts if which else [], ds[1])
        got = given(name, {e: json.dumps(x).encode() for e, x in zip(ends, ds)})
        if want[0] == "absent":
            if got[0] == "value":
                bad("info: the last block could not be found but gave {}", got[1])
            return ["absent", name]
        return judge(name, want, got, muts)
    want = expected(kind, arg, d, muts)
    return judge(name, want, given(name, {ends[0]: json.dumps(d).encode()}), muts)


@family
def swapped(case):
    """[lookup, lookup whose answer is given instead]"""
    name, src = case
    ends, kind, arg = lookups()[name]
    d = answer(lookups()[src][0][0])
    if d is None:
        return None
    want = expected(kind, arg, d, [["whole", []]])
    return judge(name, want, given(name, {ends[0]: json.dumps(d).encode()}), "answer of " + src)


BODIES = ["", "{", "null", "[]", "5", '"x"', "true", "1.5", '["hashtype"]', "{}", "nonsense", "\x00", '{"hashtype":', "[{}]"]


@family
def bodies(case):
    """[lookup, which, body as latin-1 text]"""
    name, which, text = case
    ends, kind, arg = lookups()[name]
    bs = {e: json.dumps(answer(e)).encode() for e in ends}
    bs[ends[which]] = text.encode("latin-1")
    return judge(name, ("refuse", "no JSON object with the required data"), given(name, bs), text)


# every notation of the thing asked for
FORMS = {"bytes": bytes.fromhex, "bytearray": lambda h: bytearray(bytes.fromhex(h)), "hash": lambda h: Hash(value=h), "address": lambda u: UnlockHash.from_json(u),
         "key": lambda k: PublicKey.from_json(k), "name": lambda n: BotName(value=n)}


@family
def notations(case):
    """[lookup, form]: the answer is that of the plain text"""
    name, form = case
    ends, kind, arg = lookups()[name]
    bs = {e: json.dumps(answer(e)).encode() for e in ends if answer(e) is not None}
    same(given(name, bs, form), given(name, bs), "%s asked for as %s" % (name, form))
    return ["notation", name, form]


def notation_cases():
    for name, (ends, kind, arg) in lookups().items():
        for f in {"block": ("bytes", "bytearray", "hash"), "tx": ("bytes", "bytearray", "hash"), "coin": ("bytes", "bytearray", "hash"), "stake": ("bytes", "bytearray", "hash"),
                  "uh": ("address",), "erc": ("address",), "botkey": ("key",), "botname": ("name",)}.get(kind, ()):
            if not (kind == "uh" and arg[:2] == "03"):
                yield [name, f]


@family
def unusable(case):
    """[kind, text]: something that names nothing is refused without asking an explorer (an explorer that answers with any object)"""
    kind, text = case
    from mc.world import Explorer
    from tfchain.TFChainClient import TFChainClient
    asked = []

    class Ex(Explorer):
        def get(self, endpoint):
            asked.append(endpoint)
            raise E.ExplorerNoContent("no content", endpoint)
    c = TFChainClient(explorer_client=Ex(world()[0]), network_type="devnet")
    try:
        ask(c, kind, text)
    except (ValueError, TypeError, AttributeError):
        pass
    except (E.ExplorerNoContent, E.ThreeBotNotFound):
        bad("{} lookup of {!r} asked the explorer for {}", kind, text, asked)
    else:
        bad("{} lookup of {!r} gave an answer", kind, text)
    same(asked, [], "requests")
    return ["unusable", kind]


def unusable_cases():
    h = "7b" * 32
    for k in ("block", "tx", "coin", "stake"):
        for t in ("x", h[:-2], h + "00", h[:-1], "zz" + h[2:], "../" + h, [h], {"id": h}):
            yield [k, t]
    u = K(1).text
    for k in ("uh", "erc"):
        for t in ("x", u[:-1], u + "0", u[:-1] + ("0" if u[-1] != "0" else "1"), u + "/"):
            yield [k, t]
    yield ["erc", R.uh_text(R.cond_uh(world()[1]["msuh"]))]
    for t in ("a", "foo", "foobar/", "foobar.", "foo bar", "ed25519:" + h[:-2], "ed25519:" + h + "00", "foobar?x=1"):
        yield ["botname", t]
    for t in (1.5, [1], {"id": 1}):
        yield ["botid", t]


@family
def absent(case):
    name, which = case
    ends, kind, arg = lookups()[name]
    bs = {e: json.dumps(answer(e)).encode() for e in ends}
    bs[ends[which]] = None
    got = given(name, bs)
    same(got, ("absent", "ThreeBotNotFound" if kind.startswith("bot") else "ExplorerNoContent"), name + ": no content")
    return ["absent", name]


@family
def networks(case):
    """a client without network type asks the explorer: [what /explorer/constants gives, network or None]"""
    body, want = case
    from mc.world import Explorer
    from tfchain.TFChainClient import TFChainClient

    class Ex(Explorer):
        def get(self, endpoint):
            same(endpoint, "/explorer/constants", "endpoint asked")
            return body.encode("latin-1")
    try:
        c = TFChainClient(explorer_client=Ex(world()[0]))
    except E.ExplorerInvalidResponse:
        if want is not None:
            bad("the network {} is refused", want)
        return ["refused"]
    if want is None:
        bad("a client is made for the network of {}", body)
    same(c.minimum_miner_fee.json(), {"standard": "100000000", "testnet": "100000000", "devnet": "1000000000"}[want], "minimum fee on " + want)
    return ["network", want]


# --- an evolving ledger, one client
V1 = lambda cin=(), cout=(), bin=(), bout=(), fees=(5,), data="": {"v": 1, "cin": [[p, S.SS] for p in cin], "cout": list(cout),
                                                                    "bin": [[p, S.SS] for p in bin], "bout": list(bout), "fees": list(fees), "data": data}


class Evolving:
    """a copy of the ledger that moves on, and back"""
    def __init__(self):
        l, n = world()
        self.l, self.n = copy.deepcopy(l), n
        self.erc = {}

    def free(self, uh):
        return [i for i, o in self.l.outs.items() if o["spent"] is None and o["cond"] == ["uh", uh]]

    def do(self, e):
        l = self.l
        if e == "mine" or e == "mineone":
            if not l.pool():
                return False
            l.mine(l.pool()[:1] if e == "mineone" else None, payouts=[(13, U(3))])
        elif e == "undo":
            if l.height < 3:
                return False
            l.undo(dt=61)
        elif e == "undopay":
            if l.height < 3:
                return False
            l.undo(dt=62)
            l.tip()["payouts"] = [[L.hid("p", l.height), 14, U(1)]]
        elif e in ("dropfirst", "droplast"):
            if not l.pool():
                return False
            l.drop(l.pool()[0 if e == "dropfirst" else -1])
        elif e == "spend":
            own = self.free(U(1)) + self.free(U(2))
            if not own or l.outs[own[0]]["value"] < 7:
                return False
            l.submit(V1([own[0]], [[l.outs[own[0]]["value"] - 6, ["uh", U(3)]], [1, self.n["msuh"]]], data="%04x" % len(l.txs)))
        elif e == "give":
            l.submit(V1([], [[21, ["uh", U(3)]]], fees=(), data="%04x" % len(l.txs)))
        elif e == "ms":
            l.submit(V1([], [[22, ["ms", [U(1), U(2), U(3)], 2]]], fees=(), data="%04x" % len(l.txs)))
        elif e == "mintdef":
            l.submit({"v": 128, "nonce": "%016x" % len(l.txs), "mf": S.MS, "mc": ["ms", [U(2), U(3)], 1], "fees": [1], "data": ""})
        elif e == "bot":
            l.bots[7].update(exp=l.bots[7]["exp"] + 1000, names=["foobar"] if len(l.bots[7]["names"]) > 1 else ["foobar", "hello.foobar"], addrs=[["h", "example%d.org" % len(l.bots[7]["addrs"])]])
        elif e == "transfer":
            a, b = (7, 8) if "foobar" in l.bots[7]["names"] else (8, 7)
            l.bots[a]["names"] = [x for x in l.bots[a]["names"] if x != "foobar"]
            l.bots[b]["names"] = l.bots[b]["names"] + ["foobar"]
        elif e == "erc":
            l.erc20[K(1).text] += 1
            l.erc20[K(2).text] = l.erc20.get(K(2).text, -1) + 1
        return True

    def can(self, e):
        return copy.deepcopy(self).do(e)

    def canon(self):
        l = self.l
        return [sorted([repr(r["t"])[:300], repr(r["height"])] for r in l.txs.values()), sorted(map(repr, l.blocks.values())), repr(l.bots), sorted(l.erc20.items())]


LATER = ["mine", "mineone", "undo", "undopay", "dropfirst", "droplast", "spend", "give", "ms", "mintdef", "bot", "transfer", "erc"]


def survey(c, ev, what):
    """everything that was ever known, asked of the same client"""
    l = ev.l
    out = {}
    for name, (ends, kind, arg) in lookups().items():
        if kind == "post":
            continue
        try:
            got = ("value", ask(c, kind, arg))
        except (E.ExplorerNoContent, E.ThreeBotNotFound) as e:
            got = ("absent", type(e).__name__)
        if kind == "info":
            b = read("height", l.height, l.lookup("/explorer/blocks/%d" % l.height))
            want = ("value", {"id": b["id"], "height": b["height"], "time": b["time"], "block": b})
        else:
            d = l.lookup(ends[0])
            if d is None:
                want = ("absent", "ThreeBotNotFound" if kind.startswith("bot") else "ExplorerNoContent")
            else:
                v = read(kind, arg, json.loads(json.dumps(d)))
                want = ("absent", "ExplorerNoContent") if v == "no content" else ("value", v)
        if got != want:
            if got[0] == want[0] and isinstance(want[1], dict):
                for k in want[1]:
                    same(got[1].get(k), want[1][k], "%s: %s: %s" % (what, name, k))
            bad("{}: {}: read as {} instead of {}", what, name, json.dumps(got, default=str)[:300], json.dumps(want, default=str)[:300])
        out[name] = want[0]
    return sorted(out.items())


@family
def later(case):
    """events on the network between the questions of one client: [event...]"""
    ev = Evolving()
    c = client(ev.l)
    survey(c, ev, "at first")
    o = None
    for i, e in enumerate(case):
        assert ev.do(e)
        if i >= len(case) - 2:
            o = survey(c, ev, "after " + e)
    return Succ(ev.canon(), [e for e in LATER if ev.can(e)], o)


def net_cases():
    for w in ("standard", "testnet", "devnet"):
        yield [json.dumps({"chaininfo": {"Name": "tfchain", "NetworkName": w}}), w]
    for w in ("x", "", 5, None, [], {}, True, 1.5):
        yield [json.dumps({"chaininfo": {"NetworkName": w}}), None]
    for b in ("", "{", "null", "[]", "5", '"x"', '{"chaininfo": 5}', '{"chaininfo": "x"}', '{"chaininfo": [1]}'):
        yield [b, None]


def cases(ctx):
    for name, (ends, kind, arg) in lookups().items():
        for which, e in enumerate(ends):
            yield [name, which, []]
    for name, (ends, kind, arg) in lookups().items():
        for which, e in enumerate(ends):
            for m in mutations(answer(e)) if answer(e) is not None else ():
                yield [name, which, [m]]


def outer(d):
    first = set()
    for m in mutations(d):
        if m[0] == "other":     # one other value for every place
            if tuple(m[1]) in first:
                continue
            first.add(tuple(m[1]))
        if not any(k in INNER for k in m[1][:-1]) and (m[0] in ("del", "drop", "dup", "other") or (m[0] == "set" and m[2] in (None, "", 5) and m[2] is not True)):
            yield m


def pairs():
    for name, (ends, kind, arg) in lookups().items():
        if name in ("block@0", "block@1", "block#5", "block@5", "block@4", "block#4", "block#0", "block#1", "tx:g", "tx:two", "uh:2", "uh:3"):
            continue
        for which, e in enumerate(ends):
            d = answer(e)
            ms = list(outer(d)) if d is not None else []
            if len(ms) > 300:
                ms = [m for m in ms if m[0] in ("del", "drop") or (m[0] == "set" and m[2] is None)]
            if len(ms) > 300:
                continue    # the big answers: single mutations only
            for a, b in itertools.combinations(ms, 2):
                if a[1] != b[1]:
                    yield [name, which, [a, b]]


def run(ctx):
    ctx.all(networks, net_cases())
    ls = lookups()
    ctx.all(absent, [[n, i] for n, (ends, _, _) in ls.items() if n != "post" for i in range(len(ends))])
    ctx.all(notations, notation_cases())
    ctx.all(unusable, unusable_cases())
    ctx.bfs(later, [[]], 4 if ctx.thorough else 3, parallel=True, chunk=8)
    ctx.all(bodies, [[n, i, b] for n, (ends, _, _) in ls.items() for i in range(len(ends)) for b in BODIES])
    ctx.all(swapped, [[a, b] for a in ls for b in ls if a != b and a != "info"], parallel=True)
    ctx.all(mutated, cases(ctx), parallel=True, chunk=200)
    if ctx.thorough:
        ctx.all(mutated, pairs(), parallel=True, chunk=400)
