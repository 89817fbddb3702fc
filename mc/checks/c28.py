"""C28: what is refused changes nothing."""
import inspect
import itertools
import json
from decimal import Decimal

import tfchain.errors
from tfchain.encoders import rivine_encode
from tfchain.types import ConditionTypes as CT
from tfchain.types import FulfillmentTypes as FT
from tfchain.types import transactions as T
from tfchain.types.PrimitiveTypes import BinaryData, Currency, Hash

from mc import build as B
from mc import menu
from mc import ops as O
from mc import txnspec as TS
from mc import world as W
from mc.checks.c25 import BAL, COND, FF, TX, scene, spread, text, tx_of
from mc.core import bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

PROPERTY = "C28"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive enumeration of refused changes (every public setter and adding method x every argument out of a pool of unusable and usable values and lists "
             "of them) and of refused or failing wallet operations, at every request; oracle: the same readings and operations of an object that was left alone")
RULE = ("objects of every kind and fill state x every public setter and adding method, one argument varied over the whole pool; balances and builders x refused calls; all pairs of a refused or failing "
        "wallet operation and a following one. Non-trivial: something was refused and the object was compared")
ASSUMPTIONS = ["every exception is a refusal; which values have to be refused is judged by the properties of the parts",
               "an operation whose submission was answered by the network has not failed (C14)"]


# --- the pool
class Other:
    """something no setter knows"""
    def __repr__(self):
        return "Other()"


U0, U1 = TS.U[0], TS.U[1]
POOL = {
    "none": lambda: None, "0": lambda: 0, "-1": lambda: -1, "1": lambda: 1, "300": lambda: 300, "2^32": lambda: 1 << 32, "2^70": lambda: 1 << 70, "1.5": lambda: 1.5, "nan": lambda: float("nan"),
    "true": lambda: True, "dec": lambda: Decimal("0.0000000001"), "neg": lambda: Decimal(-1), "empty": lambda: "", "x": lambda: "x", "hex32": lambda: "7b" * 32, "hex31": lambda: "7b" * 31, "hex33": lambda: "7b" * 33,
    "hex64": lambda: "7b" * 64, "nothex": lambda: "zz" * 32, "b0": lambda: b"", "b31": lambda: b"\x07" * 31, "b32": lambda: bytearray(b"\x07" * 32), "b64": lambda: b"\x07" * 64, "b84": lambda: b"\x07" * 84,
    "long": lambda: "y" * 200, "other": Other, "dict": dict, "list": list, "tuple": tuple, "uh": lambda: B.uh(U1), "uht": lambda: R.uh_text(U1), "uhx": lambda: R.uh_text(U1)[:-1] + "x", "uh77": lambda: R.uh_text(U1)[:-1],
    "ms": lambda: R.uh_text(R.cond_uh(TS.COND[2])), "pk": lambda: B.pk(TS.K[2]), "pkt": lambda: "ed25519:" + TS.K[2], "pkx": lambda: "ed25519:" + TS.K[2][:-1], "pky": lambda: "rsa:" + TS.K[2],
    "cond": lambda: B.cond(TS.COND[2]), "lock": lambda: B.cond(TS.COND[4]), "ss": lambda: B.ff(TS.SS_NEW), "msf": lambda: B.ff(TS.MS), "ci": lambda: B.cin([TS.H[6], TS.SS]), "co": lambda: B.cout([5, TS.COND[0]]),
    "bi": lambda: B.bin_([TS.H[6], TS.SS]), "bo": lambda: B.bout([5, TS.COND[0]]), "cur": lambda: B.cur(7), "amt": lambda: "1.5 TFT", "amtx": lambda: "1.5 XFT", "hash": lambda: Hash(value=TS.H[6]),
    "name": lambda: "newbot", "badname": lambda: "a..b", "host": lambda: "new.example.org", "badhost": lambda: "-x-", "ip": lambda: "10.1.1.9", "erc": lambda: "0x" + "cd" * 20, "ercx": lambda: "0x" + "cd" * 19,
    "pair": lambda: (B.pk(TS.K[2]), TS.S[2]), "pairx": lambda: (B.pk(TS.K[2]), "x"), "date": lambda: "+1d", "datex": lambda: "+1x", "txn": lambda: T.new(),
}
GOOD = ("uh", "uht", "pk", "ci", "co", "bi", "bo", "cur", "name", "host", "ip", "erc", "pair", "cond", "ss", "1", "amt")
JUNK = ("none", "-1", "x", "other", "nothex", "badname", "badhost", "pairx", "1.5", "list")
KEEP = 80
LISTS = [[g, j] for g in GOOD for j in JUNK] + [[j, g] for g in GOOD for j in ("none", "other", "x")] + [[g, g] for g in GOOD] + [[g] * 120 for g in ("name", "host", "ip", "ci")]


def value(k):
    return POOL[k]() if isinstance(k, str) else [POOL[x]() for x in k]


def settable(o):
    out = []
    for n in dir(type(o)):
        d = inspect.getattr_static(type(o), n)
        if not n.startswith("_") and isinstance(d, property) and d.fset is not None:
            out.append(n)
    return out


METHODS = {
    "coin_input_add": {"parentid": "hash", "fulfillment": "ss", "parent_output": "co"}, "coin_output_add": {"value": "cur", "condition": "cond", "id": "hash"},
    "blockstake_input_add": {"parentid": "hash", "fulfillment": "ss", "parent_output": "bo"}, "blockstake_output_add": {"value": "1", "condition": "cond", "id": "hash"},
    "miner_fee_add": {"value": "cur"}, "address_add": {"address": "host"}, "address_remove": {"address": "host"}, "name_add": {"name": "name"}, "name_remove": {"name": "name"},
    "refund_coin_output_set": {"value": "cur", "condition": "cond", "id": "hash"}, "signature_add": {"public_key": "pk", "signature": "hex64"},
    "add_unlockhash": {"uh": "uh"}, "add_pair": {"public_key": "pk", "signature": "hex64"},
}


def answer(f, o):
    try:
        return text(f(o))
    except Exception as e:
        return ["refused", type(e).__name__]


def seen(o, readings):
    out = [answer(f, o) for _, f in readings]
    for n in settable(o):
        out.append(answer(lambda x: getattr(x, n), o))
    return out


def names(o, readings):
    return [n for n, _ in readings] + settable(o)


def doings(o):
    """every change that can be asked of the object: [kind, name, parameter]"""
    for n in settable(o):
        yield ["set", n, None]
    for n, ps in METHODS.items():
        if callable(getattr(o, n, None)):
            for p in ps:
                yield ["call", n, p]


def attempt(o, doing, k):
    """carries out one change with value k; False when it was refused"""
    kind, n, p = doing
    v = value(k)
    if kind == "set":
        try:
            setattr(o, n, v)
        except Exception:
            return False, [v]
        return True, [v]
    sig = inspect.signature(getattr(o, n))
    args = {q: (v if q == p else value(d)) for q, d in METHODS[n].items() if q in sig.parameters}
    if p not in args:
        return True, []
    try:
        getattr(o, n)(**args)
    except Exception:
        return False, list(args.values())
    return True, []


def pool_for(doing):
    return list(POOL) + (LISTS if doing[0] == "set" else [])


def compare(o, ref, readings, what, doing, ks):
    now = seen(o, readings)
    if now != ref:
        i = next(i for i in range(len(ref)) if now[i] != ref[i])
        bad("{}: {} {} refused {} but {} changed from {} to {}", what, doing[1], doing[2] or "", [k if isinstance(k, str) else k[:3] for k in ks][:5], names(o, readings)[i], str(ref[i])[:200], str(now[i])[:200])


def refused(make, readings, what):
    """all values that the object refuses leave it as it is: first found out one by one, then tried in a row on an object left alone otherwise"""
    ref = seen(make(), readings)
    n = 0
    for doing in doings(make()):
        o = make()
        no = []
        for k in pool_for(doing):
            ok, _ = attempt(o, doing, k)
            if ok:
                o = make()
            else:
                no.append(k)
        o = make()
        done = []
        for k in no:
            if attempt(o, doing, k)[0]:
                # accepted after all, following refusals of others: not left as it was
                compare(o, ref, readings, what, doing, done)
                o, done = make(), []
            else:
                done.append(k)
        try:
            compare(o, ref, readings, what, doing, done)
        except Exception:
            for k in done:  # the shortest way to it
                o = make()
                if not attempt(o, doing, k)[0]:
                    compare(o, ref, readings, what, doing, [k])
            raise
        n += len(no)
    return n or None


@family
def transaction(case):
    """[spec, route, parents known]"""
    t, route, parents = case
    return refused(lambda: tx_of(t, route, parents), TX, "transaction v%d" % t["v"])


@family
def piece(case):
    """[kind, spec]"""
    kind, spec = case
    if kind == "cond":
        return refused(lambda: B.cond(spec), COND, "condition")
    if kind == "ff":
        return refused(lambda: B.ff(spec), FF, "fulfillment")
    mk, rs = {"cin": (lambda: B.cin(spec), [("json", lambda o: o.json()), ("complete", lambda o: o.is_fulfilled())]), "cout": (lambda: B.cout(spec, id=TS.H[1]), [("json", lambda o: o.json())]),
              "bin": (lambda: B.bin_(spec), [("json", lambda o: o.json()), ("complete", lambda o: o.is_fulfilled())]), "bout": (lambda: B.bout(spec, id=TS.H[1]), [("json", lambda o: o.json())]),
              "cur": (lambda: B.cur(spec), [("json", lambda o: o.json()), ("text", str)]), "hash": (lambda: Hash(value=spec), [("text", str)]), "data": (lambda: BinaryData(value=spec), [("text", str)]),
              "uh": (lambda: B.uh(spec), [("text", str)]), "pk": (lambda: B.pk(spec), [("text", str)])}[kind]
    return refused(mk, rs, kind)


# --- balances
CHAINS = ((0, 0), (10, L.T0), (11, L.T0 + 5), (12, L.T0 - 5), (11, 0))


def bal(kind, chain):
    """a balance of the given kind at the given position of the chain"""
    from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance
    c = O.OWN["m" if "m" in kind else "p"]
    b = {"w": WalletBalance, "W": WalletsBalance}[kind[0]]() if kind[0] in "wW" else MultiSigWalletBalance(owners=[B.uh(u) for u in c[1]], signature_count=c[2])
    b.chain_height, b.chain_time = chain
    outs = {"w": "a", "W": "ab" + kind[1:], "M": kind[1:]}[kind[0]]
    for i, w in enumerate(outs):
        o = B.cout([(i + 3) * O.F, O.OWN[w]], id=L.hid("b28", kind + str(chain) + w))
        b.output_add(o, confirmed=i % 2 == 0)
    return b


KINDS = ("w", "W", "Wm", "Wmp", "Mm", "Mp")


def shown(b):
    return seen(b, BAL)


@family
def merge(case):
    """[kind, chain, kind, chain]: a merge that is refused"""
    k1, c1, k2, c2 = case
    a, b = bal(k1, c1), bal(k2, c2)
    wa, wb = shown(a), shown(b)
    try:
        a.balance_add(b)
    except Exception as e:
        same(shown(a), wa, "the balance after a refused merge (%s)" % e)
        same(shown(b), wb, "the balance that could not be merged (%s)" % e)
        return type(e).__name__
    return None


@family
def balance(case):
    """[kind, what]: a call on a balance that is refused"""
    kind, what, k = case
    v = value(k)
    if what in ("out", "outs") and k in ("txn", "lock"):
        return None  # no output, and close to one
    b = bal(kind, CHAINS[1])
    w = shown(b)
    call = {"add": lambda: b.balance_add(v), "out": lambda: b.output_add(v), "outs": lambda: b.output_add(v, confirmed=False, spent=True), "drain": lambda: b.drain(v, B.cur(O.F)), "fee": lambda: b.drain(O.TEXT["x"], v),
            "data": lambda: b.drain(O.TEXT["x"], B.cur(O.F), data=v), "lock": lambda: b.drain(O.TEXT["x"], B.cur(O.F), lock=v), "height": lambda: setattr(b, "chain_height", v), "time": lambda: setattr(b, "chain_time", v),
            "block": lambda: setattr(b, "chain_blockid", v), "fund": lambda: b.fund(v), "source": lambda: b.fund(B.cur(O.F), source=v), "ms": lambda: b.multisig_output_add(O.TEXT["m"], v)}[what]
    if what in ("fund", "source", "ms") and kind[0] != "W":
        return None
    try:
        call()
    except Exception as e:
        same(shown(b), w, "the balance after a refused %s of %s (%s)" % (what, k, e))
        return [what, type(e).__name__]
    return None


# --- wallets
FUT = L.T0 + 10 ** 7
CALLS = {
    "send": (lambda w, **k: w.coins_send(**k), {"recipient": "uhx_", "amount": "amt", "source": "none", "refund": "none", "lock": "none", "data": "none"}),
    "sendms": (lambda w, **k: w.coins_send(source=O.TEXT["m"], **k), {"recipient": "uhx_", "amount": "amt", "lock": "none", "data": "none"}),
    "build": (lambda w, **k: built(w, k), {"recipient": "uhx_", "amount": "amt", "lock": "none"}),
    "buildsend": (lambda w, **k: w.coin_transaction_builder_new().output_add(O.TEXT["x"], O.money(5)).send(**k), {"source": "none", "refund": "none", "data": "none"}),
    "initiate": (lambda w, **k: w.atomicswap.initiate(**k), {"participator": "uhx_", "amount": "big", "refund_time": "fut", "source": "none", "refund": "none", "data": "none"}),
    "participate": (lambda w, **k: w.atomicswap.participate(**k), {"initiator": "uhx_", "amount": "big", "secret_hash": "hex32", "refund_time": "fut", "source": "none", "refund": "none", "data": "none"}),
    "verify": (lambda w, **k: w.atomicswap.verify(**k), {"outputid": "hex32", "amount": "none", "secret_hash": "none", "min_refund_time": "none", "sender": "0", "receiver": "0"}),
    "redeem": (lambda w, **k: w.atomicswap.redeem(**k), {"outputid": "hex32", "secret": "hex32", "data": "none"}),
    "refund": (lambda w, **k: w.atomicswap.refund(**k), {"outputid": "hex32", "data": "none"}),
    "bot": (lambda w, **k: w.threebot.record_new(**k), {"months": "1", "names": "names_", "addresses": "none", "key_index": "0", "source": "none", "refund": "none"}),
    "newbot": (lambda w, **k: w.threebot.record_new(**k), {"months": "1", "names": "names_", "addresses": "none", "source": "none", "refund": "none"}),
    "newbotms": (lambda w, **k: w.threebot.record_new(source=O.TEXT["m"], **k), {"months": "1", "names": "names_", "addresses": "none", "refund": "none"}),
    "update": (lambda w, **k: w.threebot.record_update(**k), {"identifier": "1", "months": "1", "names_to_add": "none", "names_to_remove": "none", "addresses_to_add": "none", "addresses_to_remove": "none", "source": "none", "refund": "none"}),
    "transfer": (lambda w, **k: w.threebot.name_transfer(**k), {"sender": "1", "receiver": "2_", "names": "mine_", "source": "none", "refund": "none"}),
    "erc": (lambda w, **k: w.erc20.coins_send(**k), {"address": "erc", "amount": "big", "source": "none", "refund": "none"}),
    "register": (lambda w, **k: w.erc20.address_register(**k), {"value": "1", "source": "none", "refund": "none"}),
    "registernew": (lambda w, **k: w.erc20.address_register(**k), {"source": "none", "refund": "none"}),
    "ercget": (lambda w, **k: w.erc20.address_get(**k), {"value": "1"}),
    "coins": (lambda w, **k: w.minter.coins_new(**k), {"recipient": "uhx_", "amount": "amt", "lock": "none", "data": "none"}),
    "define": (lambda w, **k: w.minter.definition_set(**k), {"minter": "uhx_", "data": "none"}),
    "sign": (lambda w, **k: w.transaction_sign(**k), {"txn": "txn"}),
    "key": (lambda w, **k: w.key_pair_get(**k), {"unlockhash": "uh"}),
    "drain": (lambda w, **k: w.balance.drain(**k), {"recipient": "uhx_", "miner_fee": "cur", "data": "none", "lock": "none"}),
}
POOL.update({"uhx_": lambda: O.TEXT["x"], "big": lambda: O.money(3 * O.F), "fut": lambda: FUT, "names_": lambda: ["chatbot"], "2_": lambda: 2, "mine_": lambda: ["foobar"], "much": lambda: O.money(10 ** 9 * O.F),
             "own": lambda: O.TEXT["a"], "owns": lambda: [O.TEXT["a"], O.TEXT["x"]], "src_": lambda: [O.TEXT["m"], O.TEXT["n"]], "tup": lambda: ([O.TEXT["a"], O.TEXT["x"]], 5), "doc": lambda: {"version": 1, "data": {}},
             "doc2": lambda: {"version": 1, "data": {"coininputs": [{}]}}, "doc3": lambda: {"version": 255}, "jtext": lambda: "{\"version\": 1"})
FAST = tuple(k for k in POOL if k not in ("2^32", "hex33", "b31", "b64", "bi", "bo", "2_", "fut", "big", "mine_", "names_"))


def built(w, k):
    b = w.coin_transaction_builder_new()
    b.output_add(O.TEXT["x"], O.money(O.F))
    try:
        b.output_add(**k)
    finally:
        k["left"] = b


def scenery(n):
    p = menu.party(n, 1)
    p.ex.ledger.bots[2] = {"names": ["other"], "addrs": [], "pk": W.K(2, 0).pk, "exp": p.ex.ledger.time + 10 ** 6}
    return p


VIEW = [("addresses", lambda w: list(w.addresses)), ("multisig", lambda w: sorted(w.addresses_multisig)), ("balance", lambda w: menu.MENU["balance"](w)), ("outputs", lambda w: {k: sorted(v) for k, v in W.outputs(w.balance).items()}),
        ("history", lambda w: [str(t.id) for t in w.transactions]), ("count", lambda w: w.key_count)]
NEXT = ("send", "sendms", "swap", "bot", "address", "erc", "mint", "update")
_fresh = {}


def fresh(n, then):
    if (n, then) not in _fresh:
        p = scenery(n)
        _fresh[n, then] = [[answer(f, p.wallet) for _, f in VIEW], menu.play(p, then)]
    return _fresh[n, then]


def unchanged(p, n, then, what):
    view, nxt = fresh(n, then)
    for (name, f), w in zip(VIEW, view):
        same(answer(f, p.wallet), w, "%s: %s of the wallet afterwards" % (what, name))
    same(menu.play(p, then), nxt, "%s: %s afterwards" % (what, then))


def plain(v):
    """an argument as plain data, to see whether it was changed"""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return text(v) if not isinstance(v, (float, Decimal, Other)) else repr(v)


@family
def argument(case):
    """[scene, call, parameter, value, following operation]: the call is refused because of one argument"""
    n, call, par, k, then = case
    f, base = CALLS[call]
    p = scenery(n)
    args = {q: value(d) for q, d in base.items() if d != "none" or q == par}
    args[par] = value(k)
    before = {q: plain(v) for q, v in args.items()}
    given = dict(args)
    try:
        f(p.wallet, **args)
    except Exception as e:
        what = "%s with %s %s refused (%s)" % (call, par, k, e)
        expect(not p.ex.ids, what + " but submitted")
        same({q: plain(v) for q, v in given.items()}, before, what + ": the arguments")
        unchanged(p, n, then, what)
        return [call, par, type(e).__name__]
    return None


_asked = {}
NEWKEY = {"newbot": lambda w: w.threebot.record_new(months=1, names=["chatbot"]), "registernew": lambda w: w.erc20.address_register()}


def asked(n, op):
    """number of requests of an undisturbed operation"""
    if (n, op) not in _asked:
        p = scenery(n)
        n0 = len(p.ex.gets) + len(p.ex.posted)
        NEWKEY[op](p.wallet)
        _asked[n, op] = len(p.ex.gets) + len(p.ex.posted) - n0
    return _asked[n, op]


@family
def failing(case):
    """[scene, operation, request, kind of failure, following operation]: the network fails during an operation"""
    n, op, k, kind, then = case
    p = scenery(n)
    n0 = len(p.ex.gets) + len(p.ex.posted)
    def down():
        raise {"server": tfchain.errors.ExplorerServerError("broken", "/"), "away": tfchain.errors.ExplorerNotAvailable("away", "/", ["x"]), "gone": tfchain.errors.ExplorerNoContent("nothing", "/"),
               "odd": tfchain.errors.ExplorerInvalidResponse("odd", "/", {}), "stop": KeyboardInterrupt()}[kind]
    if kind == "refuse":
        p.ex.refuse = True
    else:
        p.ex.moves[n0 + k] = down
    try:
        if op in NEWKEY:
            # a registration with a new key, which is kept once it could have been submitted
            if k >= asked(n, op) - 1:
                return None
            NEWKEY[op](p.wallet)
        else:
            menu.MENU[op](p.wallet)
    except (Exception, KeyboardInterrupt) as e:
        p.ex.refuse = False
        p.ex.moves.clear()
        if p.ex.ids:
            return None
        unchanged(p, n, then, "%s failed at request %d (%s)" % (op, k, kind))
        return [op, type(e).__name__]
    return None


def run(ctx):
    Th = ctx.thorough
    vs = (1, 128, 129, 144, 145, 146, 208, 209, 210)
    some = {v: spread(TS.specs(v), 20 if Th else 5) for v in vs}
    ctx.all(piece, [["cond", c] for c in TS.COND] + [["ff", f] for f in (TS.SS, TS.SS_NEW, TS.MS, TS.MS1, TS.MS0, TS.AS, TS.AS_NEW)] + [["cin", [TS.H[0], f]] for f in (TS.SS, TS.MS)]
            + [["cout", [5, c]] for c in TS.COND[:5]] + [["bin", [TS.H[0], TS.SS]], ["bout", [5, TS.COND[2]]], ["cur", 7], ["hash", TS.H[0]], ["data", "00ff"], ["uh", U0], ["pk", TS.K[0]]], parallel=True, chunk=2)
    ctx.all(transaction, ([t, r, p] for v in vs for t in some[v] for r in ("json", "set") for p in (False, True)), parallel=True, chunk=1)
    ctx.all(merge, ([a, c, b, d] for a in KINDS for c in CHAINS for b in KINDS for d in CHAINS), parallel=True, chunk=32)
    ctx.all(balance, ([k, w, v] for k in KINDS for w in ("add", "out", "outs", "drain", "fee", "data", "lock", "height", "time", "block", "fund", "source", "ms") for v in list(POOL) + LISTS[:60]), parallel=True, chunk=128)
    calls = [(n, c, p) for n in (0, 1) for c, (_, base) in CALLS.items() for p in base]
    ctx.all(argument, ([n, c, p, v, NEXT[(i + j) % len(NEXT)]] for i, (n, c, p) in enumerate(calls) for j, v in enumerate((list(POOL) + LISTS[::3]) if Th else FAST) if Th or not n or (i + j) % 3 == 0), parallel=True, chunk=32)
    ctx.all(failing, ([n, op, k, kind, NEXT[(i + k) % len(NEXT)]] for n in (0, 1) for i, op in enumerate(list(menu.MENU) + list(NEWKEY)) for kind in ("server", "away", "gone", "odd", "stop", "refuse")
                      if not (op in NEWKEY and kind == "refuse") for k in range(1 if kind == "refuse" else 24 if Th else 16)), parallel=True, chunk=16)
