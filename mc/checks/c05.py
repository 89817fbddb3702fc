"""C05: JSON round trips, at every stage of filling and signing."""
import copy
import itertools
import json

from mc import build as B
from mc import txnspec as TS
from mc.changes import mutated_cases
from mc.core import Succ, bad, expect, family, raises, same
from mc.ref import txn as X
from mc.ref import types as R

from tfchain.types import ConditionTypes as CT
from tfchain.types import FulfillmentTypes as FT
from tfchain.types import transactions as T
from tfchain.types.PrimitiveTypes import BinaryData

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = ("cases: every transaction of the bounded space of C03 (all versions but 0; every fill state of every fulfillment), three JSON text round trips each, "
        "made from JSON and through the setters, with every observable compared before and after and with the reference JSON; breadth-first search over the "
        "steps that fill a fresh transaction (every subset and order class of steps up to the depth, a round trip possible after every step); "
        "every single-node damage of the JSON documents; every single change applied to one object that was written before; non-trivial when a round trip was compared or a document judged")
ASSUMPTIONS = ["JSON text is Python's json.dumps/json.loads without extensions (no default hook)",
               "parents of inputs, identifiers and heights are not part of the JSON form: they are set again after reading",
               "version 0 is written as version 1 by design and left out"]


def text_of(o):
    j = o.json()
    s = json.dumps(j)
    same(json.loads(s), json.loads(json.dumps(j, sort_keys=True)), "JSON")
    return s


def attach(o, parents):
    """sets what JSON does not carry: the parents the signatures are checked against"""
    for k, l in (("cin", o.coin_inputs), ("bin", o.blockstake_inputs)):
        for i, p in zip(l, parents.get(k, [])):
            if p is not None:
                i.parent_output = (B.cout if k == "cin" else B.bout)([5, p], id=TS.H[7])
    v = int(o.version)
    if v in (128, 129) and parents.get("mint"):
        o.parent_mint_condition = B.cond(parents["mint"])
    if v == 145:
        o.parent_public_key = B.pk(TS.K[0])
    if v == 146:
        o.sender_parent_public_key = B.pk(TS.K[0])
        o.receiver_parent_public_key = B.pk(TS.K[1])


def parent_of(ff):
    if ff[0] == "ss":
        return ["uh", R.pk_uh(ff[1] or TS.K[0])]
    if ff[0] == "as":
        return TS.COND[3]
    return ["ms", [TS.U[0], TS.U[1], TS.U[2]], 2]


def parents_of(t):
    p = {k: [parent_of(i[1]) for i in t.get(k, [])] for k in ("cin", "bin")}
    if "mf" in t:
        p["mint"] = parent_of(t["mf"])
    return p


def view(o, parents):
    """everything that has to survive"""
    out = {"json": json.loads(text_of(o)), "enc": bytes(o.binary_encode()).hex()}
    out["coinids"] = [str(o.coin_outputid_new(i)) for i in range(len(o.coin_outputs))]
    out["stakeids"] = [str(o.blockstake_outputid_new(i)) for i in range(len(o.blockstake_outputs))]
    if int(o.version) != 209:
        out["digests"] = [bytes(o.signature_hash_get(*[B.extra(e) for e in ex])).hex() for ex in ([["i", 0]], [["i", 1], ["pk", TS.K[0]]], [])]
    out["inputs"] = [(str(i.parentid), i.fulfillment.json()) for i in list(o.coin_inputs) + list(o.blockstake_inputs)]
    out["outputs"] = [(B.nano(i.value), i.condition.json()) for i in o.coin_outputs] + [(str(i.value), i.condition.json()) for i in o.blockstake_outputs]
    out["fees"] = sum(B.nano(f) for f in o.miner_fees)
    out["data"] = bytes(o.data.value if hasattr(o.data, "value") else o.data).hex()
    attach(o, parents)
    out["verdict"] = o.is_fulfilled()
    out["requests"] = sorted((r.wallet_address, bytes(r.input_hash_new(B.pk(TS.K[0])).value).hex()) for r in o.signature_requests_new())
    return out


def compare(a, b, what):
    for k in a:
        same(b.get(k), a[k], "%s %s" % (k, what))


@family
def roundtrip(t):
    for route in ("set", "json"):
        o = B.txn(t, route)
        s = text_of(o)
        same(json.loads(s), X.js(t), "JSON (%s)" % route)
        p = parents_of(t)
        a = view(o, p)
        same(a["enc"], X.enc(t).hex(), "binary encoding")
        for n in range(3):
            o = T.from_json(s if n != 1 else json.loads(s))
            compare(a, view(o, p), "after %d round trips (%s)" % (n + 1, route))
            s = text_of(o)
    return json.dumps(t)


@family
def changed(case):
    """[base, label, -, changed]: one object, written, changed through its setters, written and read again"""
    t, label, _, n = case
    done = False
    for way in ("set", "inside"):
        for route in ("set", "json"):
            o = B.txn(t, route)
            view(o, parents_of(t))
            if not B.assign(o, t, n, way):
                break
            done = True
            s = text_of(o)
            same(json.loads(s), X.js(n), "JSON of a changed transaction")
            p = parents_of(n)
            compare(view(o, p), view(T.from_json(s), p), "of a changed transaction after a round trip (%s)" % label)
    return json.dumps(case[1:]) if done else None


TEXTS = ["", " ", " x", "x ", " x y ", "\n", "x\n", "\t", "\0", "0", "00", "ff", "0x00", "null", "None", "==", "YQ==", "a" * 82, "a" * 83, " " * 83, "\u00e9" * 41, "\u00e9", "e\u0301", "\u2003x", "\U0001f600" * 20, "\ufeffx", "A", "\\", '"']
RAWS = ["", "00", "0000", "ff", "20", "0a20", "00" * 83, "ff" * 83, "c328", "efbbbf", "61" * 83, "e9", "0d0a"]


@family
def data(case):
    """[version, kind, data]: the data of a transaction, given in any form, is in the document and in what is read from it"""
    v, kind, d = case
    raw = d.encode("utf-8") if kind == "str" else bytes.fromhex(d)
    give = {"str": lambda: d, "bytes": lambda: raw, "bytearray": lambda: bytearray(raw), "hex": lambda: BinaryData(value=d), "b64": lambda: BinaryData(value=raw, strencoding="base64")}[kind]()
    t = dict(next(s for s in TS.specs(v) if s.get("fees")), data=raw.hex())
    if v == 1:
        t["cout"] = t["cout"] or [[5, TS.COND[0]]]
    o = B.txn(dict(t, data=""), "set")
    o.data = give
    if kind == "bytearray":
        give[:] = b"\x01" * len(give)  # the caller's own
    s = text_of(o)
    same(json.loads(s), X.js(t), "JSON of a transaction with data")
    same(bytes(o.binary_encode()).hex(), X.enc(t).hex(), "encoding of a transaction with data")
    p = parents_of(t)
    compare(view(o, p), view(T.from_json(s), p), "of a transaction with data after a round trip")
    for long in (raw + b"\0" * (84 - len(raw)), raw + b"y" * 200):
        for g in (long, bytearray(long), BinaryData(value=long.hex()), BinaryData(value=long, strencoding="base64"), "y" * len(long), "\u00e9" * (len(long) // 2)):
            raises(Exception, setattr, o, "data", g)
            same(json.loads(text_of(o)), X.js(t), "JSON after refused data")
    return (v, d)


@family
def condition(c):
    for fmt in ("sia", "riv"):
        o = B.cond(c)
        for n in range(3):
            s = json.dumps(o.json())
            same(json.loads(s), R.cond_js(c), "condition JSON")
            same(B.enc(fmt, o).hex(), R.cond_enc(fmt, c).hex(), "condition encoding")
            same(str(o.unlockhash), R.uh_text(R.cond_uh(c)), "condition address")
            o2 = CT.from_json(json.loads(s))
            expect(type(o2) is type(o), "condition kind after round trip")
            same(o2.lock.value, o.lock.value, "lock value")
            o = o2
    return json.dumps(c)


@family
def fulfillment(f):
    for fmt in ("sia", "riv"):
        o = B.ff(f)
        for n in range(3):
            s = json.dumps(o.json())
            same(json.loads(s), R.ff_js(f), "fulfillment JSON")
            same(B.enc(fmt, o).hex(), R.ff_enc(fmt, f).hex(), "fulfillment encoding")
            o2 = FT.from_json(json.loads(s))
            expect(type(o2) is type(o), "fulfillment kind after round trip")
            same(o2.is_fulfilled(B.cond(parent_of(f))), o.is_fulfilled(B.cond(parent_of(f))), "completeness")
            o = o2
    return json.dumps(f)


# --- filling a fresh transaction step by step
NEW = {1: T.new, 128: T.mint_definition_new, 129: T.mint_coin_creation_new, 144: T.threebot_registration_new, 145: T.threebot_record_update_new,
       146: T.threebot_name_transfer_new, 208: T.erc20_convert_new, 209: T.erc20_coin_creation_new, 210: T.erc20_address_registration_new}


def steps(v):
    s = {}
    if v not in (128, 129, 209):
        s["in"] = lambda o: o.coin_input_add(TS.H[0], B.ff(TS.SS_NEW))
        s["msin"] = lambda o: o.coin_input_add(TS.H[1], B.ff(TS.MS1))
    if v in (1, 129):
        s["out"] = lambda o: o.coin_output_add(B.cur(7), B.cond(TS.COND[4]))
    if v == 1:
        s["asin"] = lambda o: o.coin_input_add(TS.H[2], B.ff(TS.AS_NEW))
        s["bin"] = lambda o: o.blockstake_input_add(TS.H[3], B.ff(TS.SS_NEW))
        s["bout"] = lambda o: o.blockstake_output_add(5, B.cond(TS.COND[0]))
    if v in (1, 128, 129):
        s["fee"] = lambda o: o.miner_fee_add(B.cur(10 ** 8))
        s["data"] = lambda o: setattr(o, "data", b"\x00\xff")
    if v in (128, 129):
        s["mf"] = lambda o: setattr(o, "mint_fulfillment", B.ff(TS.MS1))
        s["mfnew"] = lambda o: setattr(o, "mint_fulfillment", B.ff(TS.SS_NEW))
    if v == 128:
        s["mc"] = lambda o: setattr(o, "mint_condition", B.cond(TS.COND[2]))
    if v > 129:
        s["txfee"] = lambda o: setattr(o, "transaction_fee", B.cur(10 ** 9))
        if v != 209:
            s["refund"] = lambda o: o.refund_coin_output_set(B.cur(3), B.cond(TS.COND[2]))
    if v in (144, 145, 210):
        s["sig"] = lambda o: setattr(o, "signature", TS.S[0])
    if v in (144, 210):
        s["pk"] = lambda o: setattr(o, "public_key", B.pk(TS.K[0]))
    if v in (144, 145):
        s["months"] = lambda o: setattr(o, "number_of_months", 12)
    if v == 144:
        s["names"] = lambda o: setattr(o, "names", ["foobar"])
        s["addrs"] = lambda o: setattr(o, "addresses", ["example.org", "::1"])
    if v == 145:
        s["id"] = lambda o: setattr(o, "botid", 5)
        s["nadd"] = lambda o: setattr(o, "names_to_add", ["foobar"])
        s["nrem"] = lambda o: setattr(o, "names_to_remove", ["foobaz"])
        s["aadd"] = lambda o: setattr(o, "addresses_to_add", ["127.0.0.1"])
        s["arem"] = lambda o: setattr(o, "addresses_to_remove", ["example.org"])
    if v == 146:
        s["sid"] = lambda o: setattr(o, "sender_botid", 1)
        s["rid"] = lambda o: setattr(o, "receiver_botid", 2)
        s["names"] = lambda o: setattr(o, "names", ["foobar", "foobaz"])
        s["ssig"] = lambda o: setattr(o, "sender_signature", TS.S[0])
        s["rsig"] = lambda o: setattr(o, "receiver_signature", TS.S[1])
    if v == 208:
        s["addr"] = lambda o: setattr(o, "address", "0x" + "ab" * 20)
        s["value"] = lambda o: setattr(o, "value", B.cur(9))
    if v == 209:
        s["addr"] = lambda o: setattr(o, "address", B.uh(TS.U[0]))
        s["value"] = lambda o: setattr(o, "value", B.cur(9))
        s["blockid"] = lambda o: setattr(o, "blockid", TS.H[0])
        s["txid"] = lambda o: setattr(o, "transactionid", TS.H[1])
    if v == 210:
        s["regfee"] = lambda o: setattr(o, "registration_fee", B.cur(10 ** 10))
    return s


STEPS = {v: steps(v) for v in NEW}
PARENTS = {"cin": [TS.COND[0], None], "bin": [TS.COND[0]], "mint": None}


@family
def filling(hist):
    """[version, step, step, ..., 'json', ...]: the transaction is compared with a twin that never
    travelled as JSON; both take the same steps."""
    v = hist[0]
    a = NEW[v]()
    b = a
    if v in (128, 129):
        b = T.from_json(text_of(a))     # the random nonce has to be the same
    else:
        b = NEW[v]()
    done = []
    for e in hist[1:]:
        if e == "json":
            b = T.from_json(text_of(b))
        else:
            STEPS[v][e](a)
            STEPS[v][e](b)
            done.append(e)
        expect(type(a) is type(b), "transaction kind")
        ja, jb = json.loads(text_of(a)), json.loads(text_of(b))
        same(jb, ja, "JSON after %s" % hist[1:])
    va, vb = view(a, {}), view(b, {})
    compare(va, vb, "after %s" % hist[1:])
    vc = view(T.from_json(text_of(b)), {})
    compare(va, vc, "after %s and a round trip" % hist[1:])
    travelled = "json" in hist
    left = [e for e in STEPS[v] if e not in done]
    if v in (128, 129):
        va["enc"] = va["coinids"] = va["digests"] = va["json"] = None
    # states: what was done, in which order class, and whether it has travelled since the last step
    return Succ((v, sorted(done), hist[-1] == "json", travelled, hist[1:] if len(done) < 3 else None), left + (["json"] if hist[-1] != "json" else []), (sorted(done), va["enc"]))


# --- damaged documents
def paths(o, pre=()):
    yield pre
    if isinstance(o, dict):
        for k in o:
            yield from paths(o[k], pre + (k,))
    elif isinstance(o, list):
        for i, x in enumerate(o):
            yield from paths(x, pre + (i,))


def at(o, p):
    for k in p:
        o = o[k]
    return o


GONE = "<gone>"
REFUSED = (ValueError, TypeError, KeyError, AttributeError, IndexError, ArithmeticError)


def damage(v):
    """every replacement of one node by a value of another JSON type, one of another kind, or by nothing"""
    if isinstance(v, dict):
        r = [GONE, None, [], 7, "x", True]
    elif isinstance(v, list):
        r = [GONE, None, {}, 7, "x", True]
    elif isinstance(v, bool):
        r = [GONE]
    elif isinstance(v, int):
        r = [GONE, None, {}, [], "x", v + 1000, -1 - v, 1.5]
    else:
        r = [GONE, None, {}, [], {"a": 1}, ["x"], 7, v + "!", "!" + v, v[:-1] + "z!" if v else "!"]
    return r


def put(doc, path, val):
    d = copy.deepcopy(doc)
    if not path:
        return val
    parent = at(d, path[:-1])
    if val == GONE:
        del parent[path[-1]]
    else:
        parent[path[-1]] = val
    return d


REQUIRED = {"version", "parentid", "fulfillment", "value", "condition", "publickey", "unlockhash", "sender", "receiver", "timelock", "locktime",
            "minimumsignaturecount", "unlockhashes", "pairs", "type"}
FIXED = {"parentid", "publickey", "signature", "secret", "hashedsecret", "unlockhash", "unlockhashes", "blockid", "txid", "pubkey"}
DERIVED = ("tftaddress", "erc20address")


def judged(doc, p):
    """the damages of node p that have a definite verdict: [replacement]"""
    v = at(doc, p)
    keys = [k for k in p if isinstance(k, str)]
    if keys and keys[-1] in DERIVED:
        return
    for x in damage(v):
        if x == GONE:
            # the required parts of inputs, outputs, conditions and fulfillments (a 3Bot's sender/receiver parts are optional)
            if keys[-1] in REQUIRED and isinstance(p[-1], str) and not (keys[-1] in ("sender", "receiver") and len(keys) == 2) \
                    and not (keys[-1] == "value" and len(keys) == 2) and not (keys[-1] == "type" and v == 0) and doc["version"] != 0:
                yield x
            continue
        if x is None or x in ({}, []) or (isinstance(x, str) and not x):
            continue        # null and empty stand for absent
        if keys and keys[-1] == "signature" and v == "" and isinstance(x, str):
            pass
        yield x
    if isinstance(v, str) and keys and keys[-1] in FIXED and v:
        yield v[:-1]
        yield v[:-2]
        yield v + "00"
        if keys[-1] in ("unlockhash", "unlockhashes") or (keys[-1] in ("sender", "receiver")):
            yield v[:-1] + ("0" if v[-1] != "0" else "1")
    if isinstance(v, str) and keys and keys[-1] in ("value", "minerfees", "txfee", "regfee"):
        for x in ("-" + v, v + ".5", "0x10", v + " TFT TFT"):
            yield x


@family
def damaged(case):
    """[document, path, replacement]: the document is refused, or means exactly what it says"""
    doc, p, val = case
    d = put(doc, p, val)
    text = json.dumps(d)
    try:
        o = T.from_json(text)
        j = json.loads(json.dumps(o.json()))
    except REFUSED as e:
        return (str(p), type(e).__name__)
    except Exception as e:
        expect(type(e).__module__.startswith("tfchain"), "refused with {!r}", e)
        return (str(p), type(e).__name__)
    if doc["version"] == 0:
        bad("a damaged legacy document is accepted: {} -> {!r}", p, val)
    expect(j == d, "{} = {!r} is read as {!r}", p, val, short_at(j, p))
    return ("faithful", str(p))


def short_at(j, p):
    try:
        return at(j, p)
    except (KeyError, IndexError, TypeError):
        return "nothing"


@family
def unsupported(v):
    """unknown versions and kinds, and texts that are not documents"""
    kind, x = v
    try:
        if kind == "tx":
            r = T.from_json(x)
        elif kind == "cond":
            r = CT.from_json(x)
        else:
            r = FT.from_json(x)
    except REFUSED as e:
        return (kind, type(e).__name__)
    except Exception as e:
        expect(type(e).__module__.startswith("tfchain"), "refused with {!r}", e)
        return (kind, type(e).__name__)
    bad("{!r} is accepted as {!r}", x, r)


def unsupported_cases():
    for n in list(range(2, 128)) + list(range(130, 144)) + [147, 207, 211, 255, 256, -1, 1000, "1", None, [1], {}, 1.5, "x"]:
        if n != 1:
            yield ["tx", {"version": n, "data": {}}]
            yield ["tx", json.dumps({"version": n, "data": {}})]
    for s in ("", "{", "[]", "null", "7", '"x"', "{}", "version: 1", '{"data": {}}'):
        yield ["tx", s]
    for n in (5, 6, 255, -1, "1", "x"):
        yield ["cond", {"type": n, "data": {"unlockhash": R.uh_text(TS.U[0])}}]
    for n in (0, 4, 5, -1, "1", "x"):
        yield ["ff", {"type": n, "data": {"publickey": R.pk_text(TS.K[0]), "signature": TS.S[0]}}]
    for c in TS.COND:
        # the data of one kind under the type number of another
        for k in range(5):
            j = R.cond_js(c)
            if j["type"] != k and j.get("data"):
                yield ["cond", dict(j, type=k)]
    for f in (TS.SS, TS.MS, TS.AS):
        for k in (1, 2, 3):
            j = R.ff_js(f)
            # an atomic swap fulfillment without secret has the shape of a single signature one and the other way around
            if j["type"] != k and (j["type"], k) not in ((1, 2), (2, 1)):
                yield ["ff", dict(j, type=k)]
    for c in (TS.COND[3], ["lt", 500, ["uh", TS.U[0]]]):
        yield ["cond", {"type": 3, "data": {"locktime": 5, "condition": R.cond_js(c)}}]


def bases(deep):
    for v in X.VERSIONS:
        best = {}
        for t in TS.specs(v):
            if len(t.get("cin", [])) > 5:
                continue
            key = tuple(i[1][0] for i in t.get("cin", [])) + (t.get("mf", [""])[0],) if deep else None
            n = len(json.dumps(t))
            if key not in best or n > best[key][0]:
                best[key] = (n, t)
        for n, t in best.values():
            yield X.chain_js(t)


def damaged_cases(deep):
    for doc in bases(deep):
        for p in paths(doc):
            if p:
                for val in judged(doc, p):
                    yield [doc, list(p), val]


def run(ctx):
    ctx.all(condition, TS.COND + [["lt", n, c] for n in (0, 1, 499999999, 500000000, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1) for c in (TS.COND[0], TS.COND[1], TS.COND[2])]
            + [["ms", TS.U[:n], m] for n in range(1, 5) for m in range(1, n + 1)])
    ctx.all(fulfillment, [TS.SS, TS.SS_NEW, ["ss", TS.K[0], None], TS.MS, TS.MS0, TS.MS1, TS.AS, TS.AS_NEW, ["as", TS.K[0], None, TS.H[0]],
                          ["as", TS.K[0], TS.S[0], None], ["as", None, None, TS.H[0]], ["ms", [[TS.K[i], TS.S[i]] for i in range(4)]],
                          ["ms", [[TS.K[i], TS.S[i]] for i in (3, 1, 2)]]])
    ctx.all(unsupported, unsupported_cases())
    ctx.all(data, [[v, k, d] for v in (1, 128, 129) for k in ("str", "bytes", "bytearray", "hex", "b64") for d in (TEXTS if k == "str" else RAWS)])
    ctx.all(roundtrip, [dict(t, fees=f) for v in (1, 128, 129) for t in list(TS.specs(v))[:60:20] for f in ([0], [0, 0], [5, 0], [0, 5], [1], [256, 0, 1])])
    ctx.all(damaged, damaged_cases(ctx.thorough), parallel=True, chunk=16)
    for v in X.VERSIONS:
        if v != 0:
            ctx.all(roundtrip, TS.specs(v, ctx.thorough), parallel=True)
            if v != 209:
                ctx.all(changed, mutated_cases(v, ctx.thorough), parallel=True)
    for v in NEW:
        ctx.bfs(filling, [[v]], 6 if ctx.thorough else 4, parallel=True)
