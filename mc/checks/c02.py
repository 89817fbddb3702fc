"""C02: binary form, text form and identity of every value type."""
import base64
import hashlib
import itertools

from mc import build as B
from mc.core import bad, expect, family, raises, same
from mc.ref import types as R

from tfchain.types import ConditionTypes as CT
from tfchain.types import FulfillmentTypes as FT
from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash, UnlockHash, UnlockHashType
from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
from tfchain.types.ERC20 import ERC20Address, ERC20Hash
from tfchain.types.FulfillmentTypes import ED25519Signature, PublicKeySignaturePair
from tfchain.types.IO import BlockstakeInput, BlockstakeOutput, CoinInput, CoinOutput
from tfchain.types.PrimitiveTypes import BinaryData, Blockstake, Currency, Hash
from tfchain.types.ThreeBot import BotName, NetworkAddress

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("cases: all combinations of small alphabets of component values (nil, zero, boundary, ordinary) for every value type, nested "
        "conditions up to depth 2, all recipient notations, all length errors and type confusions; a case is non-trivial when the value "
        "was built through every construction route and both encodings plus the JSON form were compared with the reference")
ASSUMPTIONS = ["an absent hashed secret and an absent ERC20 address or hash have no chain encoding and are not part of the property",
               "an atomic swap fulfillment without secret encodes no secret bytes (as recorded by the repository's own tests)"]
FMT = ("sia", "riv")
H = [R.ZERO32, "00" * 31 + "01", "01" + "00" * 31, "ab" * 32, "ff" * 32, hashlib.sha256(b"1").hexdigest()]
PKS = [None, H[0], H[3], H[5]]
SIGS = [None, "cd" * 64, "00" * 64]
UHS = [R.NILUH, [1, H[0]], [1, H[3]], R.pk_uh(H[5]), [2, H[5]], [3, H[4]]]


def forms(obj, spec_enc, js, cls=None, what="value"):
    for f in FMT:
        same(B.enc(f, obj).hex(), spec_enc(f).hex(), "%s %s encoding" % (what, f))
    same(obj.json(), js, what + " JSON")
    if cls is not None:
        o2 = cls(js)
        same(o2.json(), js, what + " JSON after reading it back")
        for f in FMT:
            same(B.enc(f, o2).hex(), spec_enc(f).hex(), "%s %s encoding after reading it back" % (what, f))


@family
def hashes(h):
    b = bytes.fromhex(h)
    for o in (Hash(value=h), Hash(value=b), Hash(value=bytearray(b)), Hash(value=h.upper()), Hash(value=Hash(value=h)), Hash.from_json(h)):
        forms(o, lambda f: b, h, Hash.from_json, "hash")
        same(str(o), h, "hash text")
        same(bytes(o.value), b, "hash value")
        for g in H:
            want = g == h
            for other in (Hash(value=g), g, bytes.fromhex(g)):
                expect((o == other) is want and (o != other) is not want, "hash {} compared with {!r}", h, other)
            if want:
                same(hash(o), hash(Hash(value=g)), "hash of a Hash")
    o = Hash(value=h)
    src = bytearray(b)
    return h


@family
def nilhash(_):
    for o in (Hash(), Hash(value=None), Hash(value=""), Hash(value=b""), Hash.from_json(None), Hash.from_json("")):
        forms(o, lambda f: bytes(32), R.ZERO32, Hash.from_json, "nil hash")
        same(str(o), R.ZERO32, "nil hash text")
        expect(o == Hash(value=R.ZERO32) and Hash(value=R.ZERO32) == o and hash(o) == hash(Hash(value=R.ZERO32)), "nil hash identity")
    return 0


@family
def sizes(case):
    """[kind, size, length]: a fixed-size value accepts its size (or nothing) only"""
    kind, size, n = case
    cls = {"hash": Hash, "secret": AtomicSwapSecret, "secrethash": AtomicSwapSecretHash, "sig": ED25519Signature, "erc20addr": ERC20Address,
           "erc20hash": ERC20Hash}.get(kind)
    mk = cls or (lambda value: BinaryData(value=value, fixed_size=size))
    b = bytes(range(1, n + 1))
    for v in (b, bytearray(b), b.hex()):
        if n in (0, size):
            o = mk(value=v)
            if n:
                same(bytes(o.value), b, kind)
        else:
            raises(ValueError, mk, value=v)
            o = mk(value=bytes(size))
            raises(ValueError, setattr, o, "value", v)
            same(bytes(o.value), bytes(size), "value after a refused assignment")
    if cls:
        if n in (0, size):
            o = cls.from_json(b.hex())
            if n:
                same(bytes(o.value), b, kind + " from JSON")
        else:
            raises(ValueError, cls.from_json, b.hex())
        raises((ValueError, TypeError), cls.from_json, "zz" * size)
        raises(TypeError, cls.from_json, 5)
        raises(TypeError, cls.from_json, [])
        raises(TypeError, mk, value=5)
    return tuple(case)


@family
def bindata(case):
    """[strencoding, fixed, hex]"""
    se, fixed, hx = case
    b = bytes.fromhex(hx)
    txt = {None: b.hex(), "hex": b.hex(), "base64": base64.b64encode(b).decode(), "hexprefix": "0x" + b.hex()}[se]
    kw = dict(strencoding=se)
    if fixed is not None:
        kw["fixed_size"] = fixed if fixed == 0 else len(b)
    for o in (BinaryData(value=b, **kw), BinaryData(value=bytearray(b), **kw), BinaryData(value=txt, **kw),
              BinaryData(value=BinaryData(value=b, **kw), **kw)) + (() if fixed == 0 else (BinaryData.from_json(txt, **kw),)):
        same(bytes(o.value), b, "value")
        same(len(o), len(b), "length")
        same(str(o), txt, "text")
        same(o.json(), txt, "JSON")
        for f in FMT:
            want = R.sl(f, b) if fixed is None else b
            same(B.enc(f, o).hex(), want.hex(), "%s encoding" % f)
        expect(o == BinaryData(value=b, **kw) and not (o != BinaryData(value=b, **kw)), "equal to itself")
        same(hash(o), hash(BinaryData(value=b, **kw)), "hash")
        if fixed is None:
            o2 = BinaryData(value=b + b"\x01", **kw)
            expect(o != o2 and not (o == o2), "different from another value")
            expect(o == b and o == txt and o != b + b"x", "comparison with raw values")
    return (se, hx)


@family
def pubkey(p):
    o = B.pk(p)
    objs = [o, PublicKey.from_json(R.pk_text(p)), PublicKey(specifier=o.specifier, hash=o.hash)]
    if p is None:
        objs += [PublicKey.from_json(None), PublicKey.from_json(""), PublicKey(hash=None)]
    for x in objs:
        forms(x, lambda f: R.pk_enc(f, p), R.pk_text(p), PublicKey.from_json, "public key")
        same(str(x), R.pk_text(p), "public key text")
        same(str(x.unlockhash), R.uh_text(R.pk_uh(p)), "address of the public key")
    return p or "nil"


@family
def pubkey_refused(t):
    raises(Exception, PublicKey.from_json, t)
    return repr(t)


@family
def address(case):
    i, j = case
    a, b = UHS[i], UHS[j]
    for o in (B.uh(a), UnlockHash.from_json(R.uh_text(a))):
        forms(o, lambda f: R.uh_enc(f, a), R.uh_text(a), UnlockHash.from_json, "address")
        same(str(o), R.uh_text(a), "address text")
        same(int(o.type), a[0], "address type")
        for x in (B.uh(b), R.uh_text(b)):
            expect((o == x) is (a == b) and (o != x) is (a != b), "address {} compared with {}", o, x)
        if a == b:
            same(hash(o), hash(B.uh(b)), "hash of equal addresses")
    if i == 0:
        for o in (UnlockHash(), UnlockHash(type=UnlockHashType.NIL), UnlockHash(type=None, hash=None)):
            forms(o, lambda f: bytes(33), R.uh_text(R.NILUH), UnlockHash.from_json, "nil address")
            expect(o == B.uh(R.NILUH), "nil addresses are equal")
    return tuple(case)


CLS = {"nil": CT.ConditionNil, "uh": CT.ConditionUnlockHash, "as": CT.ConditionAtomicSwap, "lt": CT.ConditionLockTime, "ms": CT.ConditionMultiSignature}
FCLS = {"ss": FT.FulfillmentSingleSignature, "as": FT.FulfillmentAtomicSwap, "ms": FT.FulfillmentMultiSignature}


def cond_forms(o, c, what):
    forms(o, lambda f: R.cond_enc(f, c), R.cond_js(c), CT.from_json, what)
    forms(o, lambda f: R.cond_enc(f, c), R.cond_js(c), CLS[c[0]].from_json, what)
    same(int(o.type), R.CT[c[0]], "condition type")
    same(str(o.unlockhash), R.uh_text(R.cond_uh(c)), "unlock hash of the condition")
    same(int(o.lock), c[1] if c[0] == "lt" else 0, "lock of the condition")
    same(o.unwrap().json(), R.cond_js(c[2] if c[0] == "lt" else c), "inner condition")


@family
def condition(c):
    o = B.cond(c)
    cond_forms(o, c, "condition")
    t = c[0]
    # built by assigning the parts of a fresh condition, or from texts
    x = CLS[t]()
    if t == "uh":
        x.unlockhash = B.uh(c[1]) if c[1] else None
        if c[1]:
            cond_forms(CT.ConditionUnlockHash(unlockhash=R.uh_text(c[1])), c, "condition from text")
    elif t == "as":
        x.sender, x.receiver, x.hashed_secret, x.lock_time = R.uh_text(c[1]), R.uh_text(c[2]), bytes.fromhex(c[3]), c[4]
    elif t == "lt":
        x.lock, x.condition = c[1], B.cond(c[2])
    elif t == "ms":
        for u in c[1]:
            x.add_unlockhash(R.uh_text(u) if u != R.NILUH else None)
        x.required_signatures = c[2]
    cond_forms(x, c, "assigned condition")
    # read by another condition's reader
    js = R.cond_js(c)
    for t2, cl in CLS.items():
        if t2 != t:
            raises(Exception, cl.from_json, js)
    for missing in list(js.get("data", {})):
        d = {"type": js["type"], "data": {k: v for k, v in js["data"].items() if k != missing}}
        raises(Exception, CT.from_json, d)
    for ty in (5, 99, -1, "x"):
        raises(Exception, CT.from_json, dict(js, type=ty))
    ff = FT.from_condition(o)
    same(int(ff.type), {"nil": 1, "uh": 1, "as": 2, "ms": 3}[R.unwrap(c)[0] if t != "as" else "as"], "fulfillment made for the condition")
    same(ff.json(), R.ff_js({1: ["ss", None, None], 2: ["as", None, None, None], 3: ["ms", []]}[int(ff.type)]), "fresh fulfillment")
    return repr(c)


@family
def condition_refused(case):
    """[kind, spec]: parts that a condition must not accept"""
    kind, v = case
    if kind == "as_party":
        u = B.uh(v)
        raises(ValueError, CT.ConditionAtomicSwap, sender=u)
        raises(ValueError, CT.ConditionAtomicSwap, receiver=u)
        x = CT.ConditionAtomicSwap(sender=B.uh(UHS[1]), receiver=B.uh(UHS[2]))
        raises(ValueError, setattr, x, "sender", u)
        raises(ValueError, setattr, x, "receiver", R.uh_text(v))
        same([str(x.sender), str(x.receiver)], [R.uh_text(UHS[1]), R.uh_text(UHS[2])], "parties after a refusal")
    elif kind == "as_lock":
        raises(Exception, CT.ConditionAtomicSwap, lock_time=v)
    elif kind == "lt_inner":
        js = {"type": 3, "data": {"locktime": 5, "condition": R.cond_js(v)}}
        raises(Exception, CT.from_json, js)
    elif kind == "lt_type":
        raises(TypeError, CT.ConditionLockTime, condition=v)
        raises(TypeError, setattr, CoinOutput(), "condition", v)
        raises(TypeError, setattr, BlockstakeOutput(), "condition", v)
    elif kind == "ms":
        raises(Exception, CT.ConditionMultiSignature, unlockhashes=[v])
    elif kind == "uh":
        raises(Exception, CT.ConditionUnlockHash, unlockhash=v)
    return repr(case)


def ff_forms(o, f_, what):
    forms(o, lambda f: R.ff_enc(f, f_), R.ff_js(f_), FT.from_json, what)
    forms(o, lambda f: R.ff_enc(f, f_), R.ff_js(f_), FCLS[f_[0]].from_json, what)
    same(int(o.type), R.FT[f_[0]], "fulfillment type")


@family
def fulfillment(f_):
    o = B.ff(f_)
    ff_forms(o, f_, "fulfillment")
    t = f_[0]
    x = FCLS[t]()
    if t == "ms":
        x.pairs = [PublicKeySignaturePair(public_key=B.pk(p), signature=s) for p, s in f_[1]]
        ff_forms(x, f_, "assigned fulfillment")
        same(len(o.pairs), len(f_[1]), "number of pairs")
        for p, s in f_[1]:
            if s:
                raises(ValueError, o.add_pair, B.pk(p), s)
        ff_forms(o, f_, "fulfillment after refused duplicates")
        for pr, (p, s) in zip(o.pairs, f_[1]):
            forms(pr, lambda f: R.pk_enc(f, p) + R.sl(f, R.sig_b(s)), {"publickey": R.pk_text(p), "signature": s or ""}, PublicKeySignaturePair.from_json, "pair")
    else:
        x.public_key = B.pk(f_[1])
        x.signature = f_[2]
        if t == "as":
            x.secret = f_[3]
        ff_forms(x, f_, "assigned fulfillment")
        if f_[2] is not None and f_[1] is not None:
            x = FCLS[t]() if t == "ss" else FCLS[t](secret=f_[3])
            x.signature_add(B.pk(f_[1]), f_[2])
            ff_forms(x, f_, "signed fulfillment")
    js = R.ff_js(f_)
    for t2, cl in FCLS.items():
        if t2 != t:
            raises(Exception, cl.from_json, js)
    for missing in [k for k in js["data"] if k != "secret"]:
        raises(Exception, FT.from_json, {"type": js["type"], "data": {k: v for k, v in js["data"].items() if k != missing}})
    for ty in (0, 4, 99, "x"):
        raises(Exception, FT.from_json, dict(js, type=ty))
    return repr(f_)


@family
def io(case):
    """[kind, value or parent, condition or fulfillment]"""
    kind, a, b = case
    if kind == "cout":
        for o in (B.cout([a, b]), CoinOutput.from_json(R.out_js([a, b]))):
            forms(o, lambda f: R.out_enc(f, [a, b]), R.out_js([a, b]), CoinOutput.from_json, "coin output")
        o = CoinOutput()
        o.value, o.condition = B.cur(a), B.cond(b)
        forms(o, lambda f: R.out_enc(f, [a, b]), R.out_js([a, b]), None, "assigned coin output")
        o = CoinOutput(value=B.dec(a), condition=B.cond(b), id=H[5])
        forms(o, lambda f: R.out_enc(f, [a, b]), R.out_js([a, b]), None, "identified coin output")
        same(str(o.id), H[5], "output id")
    elif kind == "bout":
        for o in (B.bout([a, b]), BlockstakeOutput.from_json(R.out_js([a, b]))):
            forms(o, lambda f: R.out_enc(f, [a, b]), R.out_js([a, b]), BlockstakeOutput.from_json, "block stake output")
    elif kind == "from_out":
        for cls, mk, out in ((CoinInput, CoinInput.from_coin_output, B.cout), (BlockstakeInput, BlockstakeInput.from_blockstake_output, B.bout)):
            po = out([a, b], id=H[5])
            i = mk(po)
            fresh = {"nil": ["ss", None, None], "uh": ["ss", None, None], "as": ["as", None, None, None], "ms": ["ms", []]}[b[0] if b[0] == "as" else R.unwrap(b)[0]]
            forms(i, lambda f: R.in_enc(f, [H[5], fresh]), R.in_js([H[5], fresh]), cls.from_json, "input made of an output")
            expect(i.parent_output is po or i.parent_output.json() == po.json(), "parent of the input")
            raises(TypeError, mk, 5)
            raises(TypeError, mk, None)
    else:
        cls, mk = (CoinInput, B.cin) if kind == "cin" else (BlockstakeInput, B.bin_)
        for o in (mk([a, b]), cls.from_json(R.in_js([a, b]))):
            forms(o, lambda f: R.in_enc(f, [a, b]), R.in_js([a, b]), cls.from_json, kind)
            same(str(o.parentid), a, "parent id")
    return repr(case)


@family
def emptyio(_):
    nilcond = ["nil"]
    for o, v in ((CoinOutput(), 0), (BlockstakeOutput(), 0), (CoinOutput(value=None, condition=None, id=None), 0), (BlockstakeOutput(value=None, condition=None), 0)):
        forms(o, lambda f: R.out_enc(f, [0, nilcond]), R.out_js([0, nilcond]), None, "empty output")
    for o in (CoinInput(), BlockstakeInput(), CoinInput(parentid=None, fulfillment=None), BlockstakeInput(parentid=None, fulfillment=None)):
        forms(o, lambda f: R.in_enc(f, [R.ZERO32, ["ss", None, None]]), R.in_js([R.ZERO32, ["ss", None, None]]), None, "empty input")
    # a block stake amount may come from a currency, when it is a whole number
    for n in (0, 1, 7, 256, 10 ** 6):
        for v in (n, str(n), Currency(n)):
            forms(BlockstakeOutput(value=Blockstake(v), condition=None), lambda f: R.out_enc(f, [n, nilcond]), R.out_js([n, nilcond]), BlockstakeOutput.from_json, "block stake amount of %s" % type(v).__name__)
    return 0


@family
def erc20(hx):
    for n, cls in ((20, ERC20Address), (32, ERC20Hash)):
        b = bytes.fromhex(hx)[:n]
        for v in (b, b.hex(), "0x" + b.hex(), "0X" + b.hex().upper(), bytearray(b)):
            o = cls(value=v)
            forms(o, lambda f: b, "0x" + b.hex(), cls.from_json, cls.__name__)
            same(str(o), "0x" + b.hex(), "text")
    return hx


@family
def secrets(hx):
    b = bytes.fromhex(hx)
    s = AtomicSwapSecret(value=hx)
    forms(s, lambda f: b, hx, AtomicSwapSecret.from_json, "secret")
    h = AtomicSwapSecretHash.from_secret(s)
    forms(h, lambda f: hashlib.sha256(b).digest(), hashlib.sha256(b).hexdigest(), AtomicSwapSecretHash.from_json, "secret hash")
    raises(TypeError, AtomicSwapSecretHash.from_secret, hx)
    r = {str(AtomicSwapSecret.random()) for _ in range(8)}
    expect(len(r) == 8 and all(len(x) == 64 for x in r), "random secrets are full-size and differ")
    return hx


@family
def bot(case):
    kind, t, spec = case
    if kind == "name":
        o = BotName(value=t)
        forms(o, lambda f: R.sl(f, t.encode()), t, BotName.from_json, "3Bot name")
        same(str(o), t, "3Bot name text")
    else:
        o = NetworkAddress(address=t)
        forms(o, lambda f: R.netaddr_enc(spec), o.json(), NetworkAddress.from_json, "network address")
    return t


@family
def recipient(case):
    """[notation, spec, lock]"""
    notation, v, lock = case
    if notation == "none":
        r, c = None, ["nil"]
    elif notation == "cond":
        r, c = B.cond(v), v
    elif notation in ("uh", "str", "bytes", "bytearray", "upper"):
        c = ["uh", v]
        t = R.uh_text(v)
        r = {"uh": lambda: B.uh(v), "str": lambda: t, "upper": lambda: t.upper(), "bytes": lambda: bytes.fromhex(t), "bytearray": lambda: bytearray.fromhex(t)}[notation]()
    else:
        uhs, n, styles = v
        objs = [B.uh(u) if s == "o" else R.uh_text(u) for u, s in zip(uhs, styles)]
        c = ["ms", uhs, n]
        r = {"list": lambda: objs, "nh": lambda: (n, objs), "hn": lambda: (objs, n)}[notation]()
    want = ["lt", lock, c] if lock is not None else c
    cond_forms(CT.from_recipient(r) if lock is None else CT.from_recipient(r, lock=lock), want, "condition of the recipient")
    return repr(case)


@family
def recipient_refused(i):
    bads = [5, 1.5, True, {}, (), (1,), (1, 2, 3), object(), "", "abc", "00", b"", b"12", ["x"], (1, ["x"]), "0" * 77, "g" * 78, [5], ("x", [])]
    raises(Exception, CT.from_recipient, bads[i])
    raises(Exception, CT.from_recipient, bads[i], lock=5)
    return i


NEAR = {
    "hash": lambda h: Hash(value=h),
    "data": lambda h: BinaryData(value=h),
    "secret": lambda h: AtomicSwapSecret(value=h),
    "secrethash": lambda h: AtomicSwapSecretHash(value=h),
    "uh": lambda h: UnlockHash(type=UnlockHashType.PUBLIC_KEY, hash=h),
    "uhtext": lambda h: UnlockHash.from_json(R.uh_text([1, h])),
    "pk": lambda h: PublicKey(specifier=PublicKeySpecifier.ED25519, hash=h),
    "pktext": lambda h: PublicKey.from_json("ed25519:" + h),
    "sig": lambda h: ED25519Signature(value=h + h[::-1]),
    "erc20addr": lambda h: ERC20Address(value=h[:40]),
    "erc20hash": lambda h: ERC20Hash(value=h),
}


@family
def near(case):
    """two values of a type which differ in one digit only: [type, digit, other digit]"""
    kind, i, d = case
    mk = NEAR[kind]
    h = H[5]
    if kind == "erc20addr" and i >= 40:
        return None
    g = h[:i] + "%x" % ((int(h[i], 16) + d) % 16) + h[i + 1:]
    a, a2, b = mk(h), mk(h), mk(g)
    for x, y in ((a, b), (b, a)):
        expect(not (x == y) and x != y, "{} and {} are equal", x, y)
        expect(str(x) != str(y), "two values, one text: {}", x)
        expect(x.json() != y.json(), "two values, one JSON form: {}", x.json())
        for f in FMT:
            expect(B.enc(f, x) != B.enc(f, y), "two values, one encoding: {}", x)
    if kind not in ("pk", "pktext"):  # public key objects are told apart by what they are, not by what they say
        expect(a == a2 and not (a != a2), "{} and {} are unequal", a, a2)
        try:
            n = len({a, a2, b})
        except TypeError:
            return [kind, "no hash"]
        same(n, 2, "number of different values in a set")
    return kind


LOCKS = [0, 1, 499999999, 500000000, 1549649728]


def conds(T):
    inner = [["nil"]] + [["uh", u] for u in UHS] + [["ms", list(u), n] for k in range(3) for u in itertools.combinations([UHS[0], UHS[2], UHS[3]], k) for n in range(0, 4)]
    inner += [["ms", list(u), 2] for u in itertools.permutations([UHS[1], UHS[2], UHS[3]])] + [["ms", [UHS[2]] * k, k] for k in (2, 130)]
    out = list(inner) + [["uh", None]]
    out += [["lt", l, c] for l in (LOCKS if T else LOCKS[:2] + LOCKS[3:]) for c in inner]
    out += [["as", a, b, h, t] for a in UHS[:4] for b in UHS[:4] for h in H for t in (500000000, 1549649728, 2 ** 40)]
    return out


def ffs():
    out = [["ss", p, s] for p in PKS for s in SIGS]
    out += [["as", p, s, x] for p in PKS for s in SIGS for x in (None, H[0], H[5])]
    out += [["ms", [[p, s] for p, s in zip(ps, ss)]] for k in range(0, 4) for ps in itertools.permutations(PKS, k) for ss in itertools.product(SIGS, repeat=k)]
    return out


def run(ctx):
    T = ctx.thorough
    ctx.all(hashes, H)
    ctx.all(nilhash, [0])
    ctx.all(near, ([k, i, d] for k in NEAR for i in range(64) for d in ((1, 8) if not T else range(1, 16))))
    ctx.all(sizes, ([k, s, n] for k, s in (("hash", 32), ("secret", 32), ("secrethash", 32), ("sig", 64), ("erc20addr", 20), ("erc20hash", 32), ("data", 1), ("data", 8))
                    for n in range(0, 2 * s + 2)))
    ctx.all(bindata, ([se, fx, bytes((7 * i + n) % 256 for i in range(n)).hex()] for se in (None, "hex", "base64", "hexprefix") for n in list(range(0, 70)) + [127, 128, 255, 256]
                      for fx in (None, 0, 1) if not (fx is not None and n == 0)))
    ctx.all(pubkey, PKS + H)
    hx = H[3]
    ctx.all(pubkey_refused, ["ed25519", "ed25519:" + hx + ":", "ed25519:" + hx[:-2], "ed25519:" + hx + "00", "foo:" + hx, "ED25519:" + hx, "ed25519:zz" + hx[2:], hx, 5, [1], {"a": 1},
                             "ed25519;" + hx, "ed25519:" + hx + ":x"])
    ctx.all(address, ([i, j] for i in range(len(UHS)) for j in range(len(UHS))))
    cs = conds(T)
    ctx.all(condition, cs, parallel=True)
    ref = [["as_party", u] for u in UHS if u[0] > 1] + [["as_lock", v] for v in (0, 1, 499999999, -1, "xx", [])]
    ref += [["lt_inner", c] for c in cs if c[0] in ("lt", "as")][:40] + [["lt_type", v] for v in (5, "x", {}, [])]
    ref += [["ms", v] for v in (5, "x", {}, [], 1.5, True)] + [["uh", v] for v in (5, "x", {}, [], 1.5, "")]
    ctx.all(condition_refused, ref)
    ctx.all(fulfillment, ffs(), parallel=True)
    vals = [0, 1, 255, 256, 10 ** 9, 2 ** 64, 10 ** 18 + 1]
    small = [["nil"], ["uh", UHS[2]], ["lt", 5, ["uh", UHS[2]]], ["ms", [UHS[2], UHS[3]], 1], ["as", UHS[2], UHS[3], H[5], 1549649728]]
    ctx.all(io, ([k, v, c] for k in ("cout", "bout", "from_out") for v in vals for c in (cs if T else small)), parallel=True)
    ctx.all(io, ([k, h, f] for k in ("cin", "bin") for h in H for f in (ffs() if T else ffs()[:24])), parallel=True)
    ctx.all(emptyio, [0])
    ctx.all(erc20, H[1:])
    ctx.all(secrets, H)
    names = ["aaaaa", "threefold.token", "a" * 63, "AbC-9", "aaaaa.bbbbb.ccccc"]
    ctx.all(bot, [["name", n, None] for n in names] + [["addr", "example.com", ["h", "example.com"]], ["addr", "127.0.0.1", ["4", "7f000001"]],
            ["addr", "0.0.0.0", ["4", "00000000"]], ["addr", "255.255.255.255", ["4", "ffffffff"]], ["addr", "::1", ["6", "00" * 15 + "01"]],
            ["addr", "::", ["6", "00" * 16]], ["addr", "2001:db8:85a3::8a2e:370:7334", ["6", "20010db885a3000000008a2e03707334"]],
            ["addr", "::ffff:1.2.3.4", ["4", "01020304"]], ["addr", "a" * 56 + ".example"[:7], ["h", "a" * 56 + ".exampl"]]])
    L = [None] + LOCKS
    rec = [["none", None, l] for l in L] + [["cond", c, l] for c in small for l in (L if c[0] not in ("lt", "as") else [None])]
    rec += [[n, u, l] for n in ("uh", "str", "bytes", "bytearray") for u in UHS for l in L]
    for k in range(0, 4):
        for us in itertools.permutations(UHS[1:5], k):
            for st in itertools.product("ot", repeat=k):
                rec += [["list", [list(us), k, st], l] for l in L[:3]]
                rec += [[n, [list(us), m, st], None] for n in ("nh", "hn") for m in range(0, k + 1)]
    ctx.all(recipient, rec, parallel=True)
    ctx.all(recipient_refused, range(19))
