"""C06: address derivation and rejection of corrupted address texts."""
import itertools

from mc import build as B
from mc.core import bad, expect, family, raises, same
from mc.ref import types as R

from tfchain.types import ConditionTypes as CT
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.PrimitiveTypes import Hash

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("cases: every single-character substitution (16 hex digits plus foreign characters), deletion, insertion and adjacent transposition, "
        "and every length 0..160, of address texts of every type; every permutation of every owner set up to size 4 (5 thorough) with every "
        "required count; grids of keys and atomic swap parties; all pairs of changes of keys, conditions and address texts between readings; compared with an independent derivation")
ASSUMPTIONS = ["hexadecimal digits may be written in either case by the user where the code accepts both; upper case variants are not judged",
               "a 6-byte checksum cannot rule out deliberately forged texts, only corruptions are enumerated"]
H = ["%064x" % i for i in (1, 2, 255)] + ["ab" * 32, "ff" * 32, R.blake(b"k1").hex(), R.blake(b"k2").hex(), R.blake(b"k3").hex(), R.blake(b"k4").hex()]
UHS = [R.NILUH] + [R.pk_uh(h) for h in H] + [[2, H[5]], [3, H[5]], [1, R.ZERO32]]


def accepts(t):
    """what the format says about a lower case text"""
    if len(t) != 78 or any(c not in "0123456789abcdef" for c in t):
        return False
    ty = int(t[:2], 16)
    if ty == 0:
        return t == "00" * 39
    return R.blake(bytes.fromhex(t[:66])).hex()[:12] == t[66:]


@family
def text(t):
    if accepts(t):
        if t[:2] not in ("00", "01", "02", "03"):
            return None
        u = UnlockHash.from_json(t)
        same(str(u), t, "address text")
        same(u.json(), t, "address JSON")
        same(B.enc("sia", u).hex(), t[:66], "sia encoding")
        same(B.enc("riv", u).hex(), t[:66], "rivine encoding")
        same(str(CT.ConditionUnlockHash(unlockhash=t).unlockhash), t, "address in a condition")
        same(str(CT.from_recipient(t).unlockhash), t, "address of a recipient")
        return "ok"
    raises(Exception, UnlockHash.from_json, t)
    raises(Exception, CT.ConditionUnlockHash, unlockhash=t)
    raises(Exception, CT.from_recipient, t)
    raises(Exception, CT.from_json, {"type": 1, "data": {"unlockhash": t}})
    raises(Exception, CT.from_json, {"type": 4, "data": {"unlockhashes": [t], "minimumsignaturecount": 1}})
    raises(Exception, CT.atomic_swap_new, sender=t)
    raises(Exception, CT.atomic_swap_new, receiver=t)
    raises(Exception, CT.multi_signature_new, min_nr_sig=1, unlockhashes=[t])
    return "refused"


@family
def valid(i):
    return text(R.uh_text(UHS[i]))


@family
def notext(v):
    raises(Exception, UnlockHash.from_json, v)
    return repr(v)


@family
def key(h):
    p = PublicKey.from_json("ed25519:" + h)
    for _ in range(2):
        same(str(p.unlockhash), R.uh_text(R.pk_uh(h)), "address of the key")
    same(str(p), "ed25519:" + h, "key afterwards")
    same(str(B.pk(h).unlockhash), R.uh_text(R.pk_uh(h)), "address of the key")
    return h


@family
def multisig(case):
    """[owner indices, min]: every order gives the reference address"""
    idx, n = case
    uhs = [UHS[i] for i in idx]
    want = R.uh_text(R.ms_uh(uhs, n))
    for perm in itertools.permutations(uhs) if len(uhs) <= 5 else (uhs, uhs[::-1]):
        c = CT.multi_signature_new(min_nr_sig=n, unlockhashes=[B.uh(u) for u in perm])
        same(str(c.unlockhash), want, "multi-signature address, owners %s" % (perm,))
        same([str(u) for u in c.unlockhashes], [R.uh_text(u) for u in perm], "owners afterwards")
        j = CT.from_json(c.json())
        same(str(j.unlockhash), want, "multi-signature address from JSON")
        same(str(CT.locktime_new(lock=5, condition=c).unlockhash), want, "locked multi-signature address")
        c.add_unlockhash(B.uh(UHS[8]))
        same(str(c.unlockhash), R.uh_text(R.ms_uh(uhs + [UHS[8]], n)), "address after adding an owner")
        c.required_signatures = n + 1
        same(str(c.unlockhash), R.uh_text(R.ms_uh(uhs + [UHS[8]], n + 1)), "address after raising the required count")
    return want


@family
def near(case):
    """owners whose addresses differ in one byte only: [byte position, value, with a third owner]"""
    i, x, third = case
    h = H[1]
    g = h[:2 * i] + "%02x" % (int(h[2 * i:2 * i + 2], 16) ^ x) + h[2 * i + 2:]
    uhs = [[1, h], [1, g]] + ([[1, H[2]]] if third else [])
    want = R.uh_text(R.ms_uh(uhs, 2))
    for perm in itertools.permutations(uhs):
        same(str(CT.multi_signature_new(min_nr_sig=2, unlockhashes=[B.uh(u) for u in perm]).unlockhash), want, "address of owners %s" % (perm,))
    return want


@family
def distinct(_):
    """addresses of different owner sets, counts or contracts differ"""
    seen = {}
    for k in range(0, 4):
        for idx in itertools.combinations(range(1, 6), k):
            for n in range(0, 4):
                a = str(CT.multi_signature_new(min_nr_sig=n, unlockhashes=[B.uh(UHS[i]) for i in idx]).unlockhash)
                expect(a not in seen, "multi-signature {} and {} share an address", seen.get(a), (idx, n))
                seen[a] = (idx, n)
    return len(seen)


@family
def swap(case):
    s, r, h, t = case
    c = ["as", UHS[s], UHS[r], H[h], t]
    for o in (B.cond(c), CT.from_json(R.cond_js(c))):
        same(str(o.unlockhash), R.uh_text(R.as_uh(c)), "atomic swap address")
    return tuple(case)


@family
def other(case):
    c = case
    same(str(B.cond(c).unlockhash), R.uh_text(R.cond_uh(c)), "address of the condition")
    return repr(c)


# --- addresses of objects that are changed between two readings
def uh_of(t):
    return [int(t[:2], 16), t[2:66]]


def told(o):
    """the address that belongs to what the object says it is"""
    if isinstance(o, PublicKey):
        return R.uh_text(R.pk_uh(str(o).split(":")[1]))
    if isinstance(o, UnlockHash):
        return str(o)
    j = o.json()
    if not j or j.get("type", 0) == 0:
        return R.uh_text(R.NILUH)
    d = j["data"]
    if j["type"] == 1:
        return d["unlockhash"]
    if j["type"] == 2:
        return R.uh_text(R.as_uh(["as", uh_of(d["sender"]), uh_of(d["receiver"]), d["hashedsecret"], d["timelock"]]))
    if j["type"] == 3:
        return told(CT.from_json(d["condition"]))
    return R.uh_text(R.ms_uh([uh_of(t) for t in d["unlockhashes"]], d["minimumsignaturecount"]))


def ms_made():
    return CT.multi_signature_new(min_nr_sig=2, unlockhashes=[B.uh(UHS[i]) for i in (1, 4, 2)])


def as_made():
    return B.cond(["as", UHS[1], UHS[2], H[3], 1549649728])


def put(l, i, v):
    l[i] = v


MS_MOVES = [lambda c: put(c.unlockhashes, 0, B.uh(UHS[5])), lambda c: put(c.unlockhashes, 2, B.uh(UHS[6])), lambda c: c.unlockhashes.pop(), lambda c: c.add_unlockhash(B.uh(UHS[7])), lambda c: c.unlockhashes.reverse(),
            lambda c: setattr(c.unlockhashes[0], "hash", H[6]), lambda c: setattr(c.unlockhashes[0].hash, "value", H[7]), lambda c: setattr(c, "required_signatures", 1), lambda c: setattr(c, "required_signatures", 2),
            lambda c: put(c.unlockhashes, 0, B.uh(UHS[1]))]
AS_MOVES = [lambda c: setattr(c, "sender", B.uh(UHS[3])), lambda c: setattr(c, "receiver", B.uh(UHS[4])), lambda c: setattr(c, "hashed_secret", H[5]), lambda c: setattr(c, "lock_time", 1549649729), lambda c: setattr(c, "sender", B.uh(UHS[1])),
            lambda c: setattr(c.sender, "hash", H[6]), lambda c: setattr(c.receiver.hash, "value", H[7]), lambda c: setattr(c.hashed_secret, "value", H[8]), lambda c: setattr(c, "lock_time", 1549649728)]
MOVES = {
    "key": (lambda: PublicKey.from_json("ed25519:" + H[3]), [lambda p: setattr(p, "hash", H[4]), lambda p: setattr(p, "hash", Hash(value=H[5])), lambda p: setattr(p.hash, "value", H[6]), lambda p: setattr(p, "hash", H[3]),
                                                               lambda p: p.hash.value.__setitem__(31, 9)]),
    "text": (lambda: B.uh(UHS[1]), [lambda u: setattr(u, "hash", H[4]), lambda u: setattr(u.hash, "value", H[5]), lambda u: setattr(u, "type", CT.UnlockHashType(3)), lambda u: setattr(u, "type", CT.UnlockHashType(1)), lambda u: setattr(u, "hash", H[0])]),
    "ms": (ms_made, MS_MOVES), "as": (as_made, AS_MOVES),
    "uh": (lambda: B.cond(["uh", UHS[1]]), [lambda c: setattr(c, "unlockhash", B.uh(UHS[2])), lambda c: setattr(c, "unlockhash", R.uh_text(UHS[3])), lambda c: setattr(c.unlockhash, "hash", H[6]), lambda c: setattr(c, "unlockhash", B.uh(UHS[1]))]),
    "locked ms": (lambda: CT.locktime_new(lock=5, condition=ms_made()), [lambda c, m=m: m(c.condition) for m in MS_MOVES] + [lambda c: setattr(c, "condition", ms_made()), lambda c: setattr(c, "lock", 9), lambda c: setattr(c, "condition", B.cond(["uh", UHS[4]]))]),
}


@family
def moved(case):
    """[kind, changes]: the address read between changes is always the one of what the object is"""
    make, moves = MOVES[case[0]]
    o = make()
    out = []
    for i in [None] + case[1]:
        if i is not None:
            try:
                moves[i](o)
            except (IndexError, AttributeError):
                return None  # nothing to change there any more
        a = o if isinstance(o, UnlockHash) else o.unlockhash
        want = told(o)
        same(str(a), want, "address of the %s after changes %s" % (case[0], case[1]))
        if isinstance(o, UnlockHash):
            same(str(a), R.uh_text(uh_of(B.enc("sia", o).hex())), "address text after changes %s" % case[1])
        elif case[0] in ("key", "ms", "as"):
            a.hash = H[0]   # the reader's own
            same(str(o.unlockhash), want, "address of the %s after the one given away was changed" % case[0])
        out.append(want)
    return out


def corruptions(t, subs):
    n = len(t)
    for i in range(n):
        for c in subs:
            if c != t[i]:
                yield t[:i] + c + t[i + 1:]
        yield t[:i] + t[i + 1:]
        if i + 1 < n and t[i] != t[i + 1]:
            yield t[:i] + t[i + 1] + t[i] + t[i + 2:]
    for i in range(n + 1):
        for c in "0f +":
            yield t[:i] + c + t[i:]
    for k in range(n):
        yield t[:k]
    yield t + t
    yield " " + t
    yield t + "\n"
    yield "0x" + t
    yield "0x" + t[2:]


def run(ctx):
    T = ctx.thorough
    ctx.all(valid, range(len(UHS)))
    subs = "0123456789abcdef" + "+-_ .gx\n\u0661"
    pick = [0, 1, 6, 10, 11, 12] if not T else range(len(UHS))
    ctx.all(text, (c for i in pick for c in corruptions(R.uh_text(UHS[i]), subs)), parallel=True, chunk=256)
    if T:
        # every double substitution confined to the type and checksum characters
        t = R.uh_text(UHS[6])
        pos = [0, 1] + list(range(66, 78))
        ctx.all(text, ("".join(c if k not in (i, j) else (a if k == i else b) for k, c in enumerate(t))
                       for i in pos for j in pos if i < j for a in "0123456789abcdef" for b in "0123456789abcdef" if a != t[i] and b != t[j]), parallel=True, chunk=512)
    ctx.all(text, ["0" * k for k in range(0, 161)] + ["f" * k for k in (0, 1, 2, 76, 77, 78, 79)])
    ctx.all(notext, [None, 5, 1.0, [], {}, True])
    ctx.all(key, ["%064x" % i for i in range(1, 65)] + H + ["%02x" % i + "00" * 31 for i in range(1, 256)])
    ms = [[list(idx), n] for k in range(0, (6 if T else 5)) for idx in itertools.combinations([0, 1, 4, 6, 7, 10] if not T else [0, 1, 2, 4, 6, 7, 10], k) for n in range(0, k + 2)]
    ms += [[[i % 8 for i in range(k)], m] for k in (6, 7, 8, 9, 15, 16, 17, 33) for m in (1, k)]
    ctx.all(multisig, ms, parallel=True, chunk=8)
    ctx.all(near, ([i, x, t] for i in range(32) for x in (1, 0x10, 0x80, 0xff) for t in (0, 1)), parallel=True)
    ctx.all(distinct, [0])
    ctx.all(swap, ([s, r, h, t] for s in range(0, 5) for r in range(0, 5) for h in (0, 3, 5) for t in (500000000, 1549649728, 2 ** 33)))
    ctx.all(moved, ([k, list(x)] for k, (_, m) in MOVES.items() for x in itertools.product(range(len(m)), repeat=3 if T else 2)), parallel=True, chunk=64)
    ctx.all(other, [["nil"]] + [["uh", u] for u in UHS] + [["lt", l, ["uh", u]] for u in UHS for l in (0, 5, 1549649728)] + [["lt", 5, ["nil"]], ["uh", None]])
