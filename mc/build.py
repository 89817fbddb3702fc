"""Builds real objects of /repo from the specs of mc.ref.types, through the public constructors and setters."""
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types import ConditionTypes as CT
from tfchain.types import FulfillmentTypes as FT
from tfchain.types.ConditionTypes import UnlockHash, UnlockHashType
from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
from tfchain.types.IO import BlockstakeInput, BlockstakeOutput, CoinInput, CoinOutput
from tfchain.types.PrimitiveTypes import Blockstake, Currency, Hash

ENC = {"riv": rivine_encode, "sia": sia_encode}
UNIT = 10 ** 9


def enc(fmt, obj):
    return bytes(ENC[fmt](obj))


def dec(n):
    return ("-" if n < 0 else "") + "%d.%09d" % divmod(abs(n), UNIT)


def cur(n):
    return Currency(value=dec(n))


def nano(c):
    """the amount of a Currency in 10^-9 TFT, through its JSON form"""
    return int(c.json())


def uh(u):
    return UnlockHash(type=UnlockHashType(u[0]), hash=u[1])


def pk(p):
    return PublicKey() if p is None else PublicKey(specifier=PublicKeySpecifier.ED25519, hash=p)


def cond(c):
    t = c[0]
    if t == "nil":
        return CT.nil_new()
    if t == "uh":
        return CT.unlockhash_new(uh(c[1]) if c[1] else None)
    if t == "as":
        return CT.atomic_swap_new(sender=uh(c[1]), receiver=uh(c[2]), hashed_secret=c[3], lock_time=c[4])
    if t == "lt":
        return CT.locktime_new(lock=c[1], condition=cond(c[2]))
    return CT.multi_signature_new(min_nr_sig=c[2], unlockhashes=[uh(u) for u in c[1]])


def ff(f):
    t = f[0]
    if t == "ss":
        return FT.single_signature_new(pub_key=None if f[1] is None else pk(f[1]), signature=f[2])
    if t == "as":
        return FT.atomic_swap_new(pub_key=None if f[1] is None else pk(f[1]), signature=f[2], secret=f[3])
    return FT.multi_signature_new(pairs=[(pk(p), s) for p, s in f[1]])


def cout(o, id=None):
    return CoinOutput(value=cur(o[0]), condition=cond(o[1]), id=id)


def bout(o, id=None):
    return BlockstakeOutput(value=o[0], condition=cond(o[1]), id=id)


def cin(i, parent=None):
    return CoinInput(parentid=i[0], fulfillment=ff(i[1]), parent_output=parent)


def bin_(i, parent=None):
    return BlockstakeInput(parentid=i[0], fulfillment=ff(i[1]), parent_output=parent)


# --- transactions
def na_text(a):
    from mc.ref import txn as X
    return X.netaddr_js(a)


def txn(t, route):
    """route 'json': read from a daemon's JSON; 'set': made fresh and filled through the public setters."""
    from mc.ref import txn as X
    from tfchain.types import transactions as T
    if route == "json" or t["v"] == 0:
        return T.from_json(X.chain_js(t))
    v = t["v"]
    if v in (128, 129):
        # the nonce is random on a fresh transaction: it can only be given through JSON
        blank = dict(t, fees=[], data="", mf=["ss", None, None])
        blank.update({"mc": ["nil"]} if v == 128 else {"cout": []})
        o = T.from_json(X.js(blank))
        o.mint_fulfillment = ff(t["mf"])
        if v == 128:
            o.mint_condition = cond(t["mc"])
        else:
            for n, c in t["cout"]:
                o.coin_output_add(cur(n), cond(c))
        for n in t["fees"]:
            o.miner_fee_add(cur(n))
        o.data = bytes.fromhex(t["data"])
        return o
    if v == 1:
        o = T.new()
        for p, f in t["cin"]:
            o.coin_input_add(parentid=Hash(value=p), fulfillment=ff(f))
        for n, c in t["cout"]:
            o.coin_output_add(value=cur(n), condition=cond(c))
        for p, f in t["bin"]:
            o.blockstake_input_add(parentid=Hash(value=p), fulfillment=ff(f))
        for n, c in t["bout"]:
            o.blockstake_output_add(value=n, condition=cond(c))
        for n in t["fees"]:
            o.miner_fee_add(cur(n))
        o.data = bytes.fromhex(t["data"])
        return o
    o = {144: T.threebot_registration_new, 145: T.threebot_record_update_new, 146: T.threebot_name_transfer_new,
         208: T.erc20_convert_new, 209: T.erc20_coin_creation_new, 210: T.erc20_address_registration_new}[v]()
    o.transaction_fee = cur(t["fee"])
    if v != 209:
        o.coin_inputs = [cin(i) for i in t["cin"]]
        if t["refund"] is not None:
            o.refund_coin_output_set(value=cur(t["refund"][0]), condition=cond(t["refund"][1]))
    if v == 144:
        o.addresses = [na_text(a) for a in t["addrs"]]
        o.names = t["names"]
        if t["months"]:
            o.number_of_months = t["months"]
        o.public_key = None if t["pk"] is None else pk(t["pk"])
        o.signature = t["sig"]
    elif v == 145:
        if t["id"]:
            o.botid = t["id"]
        o.addresses_to_add = [na_text(a) for a in t["aadd"]]
        o.addresses_to_remove = [na_text(a) for a in t["arem"]]
        o.names_to_add = t["nadd"]
        o.names_to_remove = t["nrem"]
        o.number_of_months = t["months"]
        o.signature = t["sig"]
    elif v == 146:
        if t["sid"]:
            o.sender_botid = t["sid"]
        if t["rid"]:
            o.receiver_botid = t["rid"]
        o.names = t["names"]
        o.sender_signature = t["ssig"]
        o.receiver_signature = t["rsig"]
    elif v == 208:
        o.address = t["addr"]
        o.value = cur(t["value"])
    elif v == 209:
        o.address = uh(t["uh"])
        o.value = cur(t["value"])
        o.blockid = t["blockid"]
        o.transactionid = t["txid"]
    else:
        o.public_key = None if t["pk"] is None else pk(t["pk"])
        o.signature = t["sig"]
        o.registration_fee = cur(t["regfee"])
    return o


def extra(e):
    from tfchain.types.ConditionTypes import AtomicSwapSecret
    from tfchain.types.PrimitiveTypes import BinaryData
    if e[0] == "i":
        return e[1]
    if e[0] == "pk":
        return pk(e[1])
    b = bytes.fromhex(e[1])
    return AtomicSwapSecret(value=b) if len(b) == 32 else BinaryData(value=b, fixed_size=0)


def assign(o, t, n, way):
    """changes object o (of spec t) into spec n through the public setters: way 'set' assigns the changed parts as a whole, 'inside' changes the parts
    of the inputs and outputs where they are. Returns False when n can't be reached that way."""
    v = t["v"]
    ch = [k for k in n if n[k] != t[k]]
    named = {"names": "names", "nadd": "names_to_add", "nrem": "names_to_remove", "sig": "signature", "ssig": "sender_signature", "rsig": "receiver_signature",
             "id": "botid", "sid": "sender_botid", "rid": "receiver_botid", "months": "number_of_months", "addr": "address"}
    lists = {"cin": ("coin_inputs", cin), "cout": ("coin_outputs", cout), "bin": ("blockstake_inputs", bin_), "bout": ("blockstake_outputs", bout)}
    if "nonce" in ch or "fees" in ch and n["fees"][:len(t["fees"])] != t["fees"]:
        return False
    if v == 144 and not n["months"] or any(k in ch and not n[k] for k in ("id", "sid", "rid")):
        return False  # refused by the setters
    if way == "inside" and not any(k in lists and len(t[k]) == len(n[k]) or k == "refund" and t[k] and n[k] for k in ch):
        return False
    for k in ch:
        if k in lists:
            name, mk = lists[k]
            if way == "inside" and len(t[k]) == len(n[k]):
                inside(getattr(o, name), k, t[k], n[k])
            else:
                setattr(o, name, [mk(x) for x in n[k]])
        elif k == "refund":
            if way == "inside" and t[k] and n[k]:
                inside(o.coin_outputs, k, [t[k]], [n[k]])
            else:
                o.coin_outputs = [] if n[k] is None else [cout(n[k])]
        elif k == "fees":
            for x in n[k][len(t[k]):]:
                o.miner_fee_add(cur(x))
        elif k == "data":
            o.data = bytes.fromhex(n[k])
        elif k == "fee":
            o.transaction_fee = cur(n[k])
        elif k == "regfee":
            o.registration_fee = cur(n[k])
        elif k == "value":
            o.value = cur(n[k])
        elif k == "pk":
            o.public_key = None if n[k] is None else pk(n[k])
        elif k == "mf":
            o.mint_fulfillment = ff(n[k])
        elif k == "mc":
            o.mint_condition = cond(n[k])
        elif k in ("addrs", "aadd", "arem"):
            setattr(o, {"addrs": "addresses", "aadd": "addresses_to_add", "arem": "addresses_to_remove"}[k], [na_text(a) for a in n[k]])
        elif k in named:
            setattr(o, named[k], n[k])
        else:
            return False
    return True


def inside(objs, k, old, new):
    for x, a, b in zip(objs, old, new):
        if a == b:
            continue
        if k in ("cin", "bin"):
            if a[0] != b[0]:
                x.parentid = Hash(value=b[0])
            if a[1] != b[1]:
                x.fulfillment = ff(b[1])
        else:
            if a[0] != b[0]:
                x.value = b[0] if k == "bout" else cur(b[0])
            if a[1] != b[1]:
                x.condition = cond(b[1])
