"""Independent reference of the chain's value types, written from the Rivine/TFChain formats.
Every value is a JSON-able spec; enc(fmt, spec) gives its bytes ('sia' or 'riv'), js(spec) its JSON form.

 specs
  uh    : [type 0..3, 32-byte hash hex]            address
  pk    : hex of 32 bytes, or None (nil key)        public key
  cond  : ["nil"] | ["uh", uh|None] | ["as", uh, uh, hash hex, time] | ["lt", lock, cond] | ["ms", [uh..], n]
  ff    : ["ss", pk, sig] | ["as", pk, sig, secret|None] | ["ms", [[pk, sig]..]]     sig: hex of 64 bytes or None
  out   : [value, cond]       value in units of 10^-9 TFT (coin) or in block stakes
  in    : [parent id hex, ff]
"""
import hashlib

from mc.ref import enc as E

ZERO32 = "00" * 32
NILUH = [0, ZERO32]


def blake(b):
    return hashlib.blake2b(bytes(b), digest_size=32).digest()


def sl(fmt, b):
    return E.SLICE[fmt](b)


def ln(fmt, n):
    return E.LEN[fmt](n)


def i64(n):
    return E.le(n, 8)


# --- addresses and keys
def uh_enc(fmt, uh):
    return bytes([uh[0]]) + bytes.fromhex(uh[1])


def uh_text(uh):
    if uh[0] == 0:
        return "00" * 39
    return "%02x" % uh[0] + uh[1] + blake(uh_enc("riv", uh)).hex()[:12]


def pk_enc(fmt, pk):
    if fmt == "sia":
        if pk is None:
            return bytes(16) + sl("sia", b"")
        return b"ed25519" + bytes(9) + sl("sia", bytes.fromhex(pk))
    if pk is None:
        return b"\x00"
    return b"\x01" + bytes.fromhex(pk)


def pk_text(pk):
    return ":" + ZERO32 if pk is None else "ed25519:" + pk


def pk_uh(pk):
    return [1, blake(sl("sia", pk_enc("sia", pk))).hex()]


def merkle(leaves):
    if not leaves:
        return blake(b"")
    if len(leaves) == 1:
        return blake(b"\x00" + leaves[0])
    k = 1
    while k * 2 < len(leaves):
        k *= 2
    return blake(b"\x01" + merkle(leaves[:k]) + merkle(leaves[k:]))


def ms_uh(uhs, n):
    s = sorted(uh_enc("sia", u) for u in uhs)
    return [3, merkle([i64(len(s))] + s + [i64(n)]).hex()]


def as_uh(c):
    return [2, blake(sl("sia", cond_data("sia", c))).hex()]


def cond_uh(c):
    t = c[0]
    if t == "nil":
        return NILUH
    if t == "uh":
        return c[1] or NILUH
    if t == "as":
        return as_uh(c)
    if t == "lt":
        return cond_uh(c[2])
    return ms_uh(c[1], c[2])


def unwrap(c):
    return unwrap(c[2]) if c[0] == "lt" else c


# --- amounts
def amount(fmt, n):
    return sl(fmt, E.bigint(n))


# --- conditions
CT = {"nil": 0, "uh": 1, "as": 2, "lt": 3, "ms": 4}


def cond_data(fmt, c):
    t = c[0]
    if t == "nil":
        return b""
    if t == "uh":
        return uh_enc(fmt, c[1] or NILUH)
    if t == "as":
        return uh_enc(fmt, c[1]) + uh_enc(fmt, c[2]) + bytes.fromhex(c[3]) + i64(c[4])
    if t == "lt":
        return i64(c[1]) + bytes([CT[c[2][0]]]) + cond_data(fmt, c[2])
    return i64(c[2]) + ln(fmt, len(c[1])) + b"".join(uh_enc(fmt, u) for u in c[1])


def cond_enc(fmt, c):
    return bytes([CT[c[0]]]) + sl(fmt, cond_data(fmt, c))


def cond_js(c):
    t = c[0]
    if t == "nil":
        return {"type": 0}
    if t == "uh":
        d = {"unlockhash": uh_text(c[1] or NILUH)}
    elif t == "as":
        d = {"sender": uh_text(c[1]), "receiver": uh_text(c[2]), "hashedsecret": c[3], "timelock": c[4]}
    elif t == "lt":
        d = {"locktime": c[1], "condition": cond_js(c[2])}
    else:
        d = {"unlockhashes": [uh_text(u) for u in c[1]], "minimumsignaturecount": c[2]}
    return {"type": CT[t], "data": d}


# --- fulfillments
FT = {"ss": 1, "as": 2, "ms": 3}


def sig_b(sig):
    return bytes.fromhex(sig or "")


def ff_data(fmt, f):
    t = f[0]
    if t == "ms":
        return ln(fmt, len(f[1])) + b"".join(pk_enc(fmt, p) + sl(fmt, sig_b(s)) for p, s in f[1])
    r = pk_enc(fmt, f[1]) + sl(fmt, sig_b(f[2]))
    if t == "as":
        r += bytes.fromhex(f[3] or "")
    return r


def ff_enc(fmt, f):
    return bytes([FT[f[0]]]) + sl(fmt, ff_data(fmt, f))


def ff_js(f):
    t = f[0]
    if t == "ms":
        d = {"pairs": [{"publickey": pk_text(p), "signature": s or ""} for p, s in f[1]]}
    else:
        d = {"publickey": pk_text(f[1]), "signature": f[2] or ""}
        if t == "as" and f[3] is not None:
            d["secret"] = f[3]
    return {"type": FT[t], "data": d}


def out_enc(fmt, o):
    return amount(fmt, o[0]) + cond_enc(fmt, o[1])


def out_js(o):
    return {"value": str(o[0]), "condition": cond_js(o[1])}


def in_enc(fmt, i):
    return bytes.fromhex(i[0]) + ff_enc(fmt, i[1])


def in_js(i):
    return {"parentid": i[0], "fulfillment": ff_js(i[1])}


# --- 3Bot
def netaddr_enc(a):
    """a: ["h", text] | ["4", packed hex] | ["6", packed hex]"""
    b = a[1].encode() if a[0] == "h" else bytes.fromhex(a[1])
    return bytes([{"h": 0, "4": 1, "6": 2}[a[0]] | len(b) << 2]) + b


def erc20_of(uh):
    return blake(uh_enc("sia", uh))[12:].hex()
