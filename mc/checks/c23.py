"""C23: 3Bot names and network addresses."""
import ipaddress
import itertools

from mc import build as B
from mc.core import bad, expect, family, raises, same
from mc.ref import types as R

from tfchain.types.ThreeBot import BotName, NetworkAddress

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("cases: all strings up to a length over an alphabet of significant characters, every label-length combination around the limits, every "
        "single-position substitution of valid values by every ASCII and some other characters; each judged by an independent recogniser, and every "
        "accepted value checked through copy, text, JSON, both encodings and the network type argument")
ASSUMPTIONS = ["the published grammars are those of the Rivine/TFChain documentation as implemented by the tagged release (labels of 5..63, further labels of "
               "5..57 characters; host label rules; at most 63 bytes)", "IP texts are those of the standard ipaddress module"]
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
NUM = "0123456789"


def botname_ok(s):
    if len(s) > 63:
        return False
    for k, l in enumerate(s.split(".")):
        if len(l) < 5 or len(l) > (63 if k == 0 else 57):
            return False
        if l[0] not in ALPHA or l[-1] not in ALPHA + NUM:
            return False
        if any(c not in ALPHA + NUM + "-" for c in l):
            return False
    return True


def host_ok(s):
    if len(s) > 63:
        return False
    p = s.split(".")
    if len(p) not in (2, 3):
        return False
    h = p[0]
    if len(h) == 1:
        if h not in ALPHA:
            return False
    elif len(h) == 2:
        if any(c not in ALPHA + NUM for c in h) or (h[0] in NUM and h[1] in NUM):
            return False
    else:
        if not 3 <= len(h) <= 63 or h[0] not in ALPHA + NUM or h[-1] not in ALPHA + NUM or any(c not in ALPHA + NUM + "-_" for c in h):
            return False
    if len(p) == 2:
        return 2 <= len(p[1]) <= 6 and all(c in ALPHA for c in p[1])
    return (2 <= len(p[1]) <= 30 and all(c in ALPHA + NUM + "-" for c in p[1]) and 2 <= len(p[2]) <= 3 and all(c in ALPHA for c in p[2]))


def classify(s):
    """None or [kind, payload] as mc.ref.types.netaddr_enc expects"""
    if host_ok(s):
        return ["h", s]
    try:
        a = ipaddress.ip_address(s)
    except ValueError:
        return None
    if a.version == 4:
        return ["4", a.packed.hex()]
    if a.packed[:12] == bytes(10) + b"\xff\xff":
        return ["4", a.packed[12:].hex()]
    return ["6", a.packed.hex()]


@family
def name(s):
    if not botname_ok(s):
        if s != "":
            raises(ValueError, BotName.from_json, s)
        raises(ValueError, BotName, value=s)
        o = BotName(value="aaaaa")
        raises(ValueError, setattr, o, "value", s)
        same(o.value, "aaaaa", "name after a refused assignment")
        return "refused"
    for o in (BotName(value=s), BotName.from_json(s), BotName(value=BotName(value=s))):
        same([o.value, str(o), repr(o), o.json()], [s] * 4, "name")
        same(B.enc("riv", o).hex(), R.sl("riv", s.encode()).hex(), "rivine encoding")
        same(B.enc("sia", o).hex(), R.sl("sia", s.encode()).hex(), "sia encoding")
    o = BotName(value="aaaaa")
    o.value = s
    same(o.value, s, "assigned name")
    p = BotName(value=o)
    o.value = "bbbbb"
    same(p.value, s, "copied name after changing the original")
    return "ok"


KIND = {"h": NetworkAddress.Type.HOSTNAME, "4": NetworkAddress.Type.IPV4, "6": NetworkAddress.Type.IPV6}


@family
def address(s):
    k = classify(s)
    if k is None:
        if s != "":
            raises(ValueError, NetworkAddress.from_json, s)
        raises(ValueError, NetworkAddress, address=s)
        o = NetworkAddress(address="a.example.org")
        raises(ValueError, setattr, o, "value", s)
        same(o.value, "a.example.org", "address after a refused assignment")
        return "refused"
    want = s if k[0] == "h" else str(ipaddress.ip_address(bytes.fromhex(k[1])))
    for o in (NetworkAddress(address=s), NetworkAddress.from_json(s), NetworkAddress(address=NetworkAddress(address=s)), NetworkAddress(address=want)):
        same([o.value, str(o), repr(o), o.json()], [want] * 4, "address")
        same(B.enc("riv", o).hex(), R.netaddr_enc(k).hex(), "rivine encoding")
        same(B.enc("sia", o).hex(), R.netaddr_enc(k).hex(), "sia encoding")
    for kk, t in KIND.items():
        if kk == k[0]:
            same(NetworkAddress(address=s, network_type=t).value, want, "address with its type")
        else:
            raises(ValueError, NetworkAddress, address=s, network_type=t)
    o = NetworkAddress(address="1.2.3.4")
    o.value = s
    same(o.value, want, "assigned address")
    p = NetworkAddress(address=o)
    o.value = "::1"
    same(p.value, want, "copied address after changing the original")
    same(B.enc("riv", p).hex(), R.netaddr_enc(k).hex(), "copied address after changing the original")
    return k[0]


@family
def integer(n):
    a = ipaddress.ip_address(n)
    k = classify(str(a))
    o = NetworkAddress(address=n)
    same(B.enc("riv", o).hex(), R.netaddr_enc(k).hex(), "rivine encoding of a numeric address")
    return k[0]


@family
def nil(_):
    o = BotName()
    same([o.value, str(o), o.json()], [""] * 3, "nil name")
    same(BotName.from_json("").json() + BotName.from_json(None).json(), "", "nil name")
    same(B.enc("riv", o).hex(), "00", "nil name encoding")
    o = NetworkAddress()
    same([o.value, str(o), o.json()], [""] * 3, "nil address")
    same(B.enc("riv", NetworkAddress.from_json("")).hex() + B.enc("riv", NetworkAddress.from_json(None)).hex(), "0000", "nil address encoding")
    for v in (5, 1.5, [], {}, b"aaaaa", True):
        raises(TypeError, BotName.from_json, v)
        raises(TypeError, NetworkAddress.from_json, v)
        raises(TypeError, BotName, value=v)
    for v in (1.5, [], {}, b"a.example.org"):
        raises((TypeError, ValueError), NetworkAddress, address=v)
    for v in (-1, 2 ** 128):
        raises(ValueError, NetworkAddress, address=v)
    raises(TypeError, NetworkAddress, address="a.example.org", network_type=0)
    return 0


CHARS = [chr(i) for i in range(0, 128)] + ["\u00e9", "\u0660", "\u212a", "\uff0e", "\U0001f600", "\u2028"]


def mutate(s):
    for i in range(len(s) + 1):
        for c in CHARS:
            if i < len(s):
                yield s[:i] + c + s[i + 1:]
            yield s[:i] + c + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]


def run(ctx):
    T = ctx.thorough
    ctx.all(nil, [0])
    ctx.all(name, ("".join(t) for n in range(0, 8 if T else 7) for t in itertools.product("aZ0-." if n > 5 else "aZ0-._", repeat=n)), parallel=True, chunk=512)
    ctx.all(address, ("".join(t) for n in range(0, 7 if T else 6) for t in itertools.product("aZ0-._:" if n > 5 else "aZ0-._:12f", repeat=n)), parallel=True, chunk=512)
    lens = list(range(0, 8)) + list(range(54, 67))
    ctx.all(name, ["a" * i + tail for i in range(0, 70) for tail in ("", "\n", ".", "-", "0")] +
            ["a" * i + "." + "b" * j for i in range(0, 66) for j in range(0, 66)] +
            [".".join("a" * k for k in ks) for ks in itertools.product((4, 5, 6), repeat=3)] + [".".join(["aaaaa"] * k) for k in range(1, 13)], parallel=True, chunk=256)
    ctx.all(address, ["a" * i + "." + "b" * j for i in range(0, 66) for j in range(0, 9)] +
            ["a" * i + "." + "b" * j + "." + "c" * k for i in (0, 1, 2, 3, 4, 26, 27, 28, 29, 30, 31, 57, 58, 59, 60, 61, 62, 63) for j in range(0, 33) for k in range(0, 5)] +
            [a + "." + b for a in ("a", "aa", "a1", "1a", "11", "1", "-", "a-", "-a", "a-b", "a_b", "_ab", "ab_", "a--b") for b in ("com", "co", "c", "museum", "abcdefg", "co.uk", "c1", "1c.uk", "a-b.uk", "-a.uk", "a.uk", "co.u1", "ab.cdef")],
            parallel=True, chunk=256)
    for s in ["aaaaa", "Ab-9z.threefold"]:
        ctx.all(name, mutate(s), parallel=True, chunk=512)
    for s in ["a.example.org", "host-1.com", "127.0.0.1", "255.255.255.255", "2001:db8::8a2e:370:7334", "::1", "::ffff:1.2.3.4"]:
        ctx.all(address, mutate(s), parallel=True, chunk=512)
    octs = ["0", "1", "9", "10", "255", "256", "01", "", "-1", "a"]
    ctx.all(address, (".".join(t) for n in range(1, 6) for t in itertools.product(octs if n < 5 else ["0", "255"], repeat=n)), parallel=True, chunk=512)
    groups = ["", "0", "1", "ffff", "0001", "10000", "g"]
    ctx.all(address, (":".join(t) for n in range(2, 6 if T else 5) for t in itertools.product(groups, repeat=n)), parallel=True, chunk=512)
    ctx.all(address, [":".join(["1"] * k) for k in range(1, 11)] + [":".join(["1"] * a) + "::" + ":".join(["1"] * b) for a in range(9) for b in range(9)] +
            ["::ffff:" + x for x in ("0.0.0.0", "255.255.255.255", "1.2.3", "1.2.3.256")] + ["::fffe:1.2.3.4", "::1.2.3.4", "fe80::1%eth0", "[::1]"])
    ctx.all(integer, [0, 1, 2 ** 24, 2 ** 32 - 1, 2 ** 32, 2 ** 64, 2 ** 128 - 1, 0xffff00000000, 0xffff01020304, 0xfffeffffffff])
