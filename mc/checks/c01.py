"""C01: rivbin / siabin encoders against an independent reference."""
import itertools
from mc.core import family, bad, expect, same, raises
from mc.ref import enc as R
import tfchain.TFChainClient
from tfchain.encoders import (encoder_rivine_get, encoder_sia_get, rivine_encode, sia_encode,
                              BaseRivineObjectEncoder, BaseSiaObjectEncoder)
from tfchain.encoders.exceptions import IntegerOutOfRange, SliceLengthOutOfRange

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("cases: complete integer ranges for the narrow widths and every boundary +-2 of the wide ones; all strings up to "
        "length 3 over an alphabet with 1-4 byte characters; all length-class boundaries of byte strings and element "
        "sequences; all value trees up to a node bound; all operation sequences up to a depth on one encoder, failing "
        "operations included. Non-trivial: the encoder produced bytes or refused a value.")
ASSUMPTIONS = ["the reference in mc/ref/enc.py states the rivbin and siabin specifications",
               "sequences are Python lists and tuples (one-shot iterators are outside the statement)"]

ENC = {"riv": encoder_rivine_get, "sia": encoder_sia_get}
FN = {"riv": rivine_encode, "sia": sia_encode}
REFUSED = (IntegerOutOfRange, SliceLengthOutOfRange, TypeError, ValueError)


class Obj(BaseRivineObjectEncoder, BaseSiaObjectEncoder):
    def __init__(self, parts):
        self.parts = parts

    def rivine_binary_encode(self, encoder):
        for p in self.parts:
            encoder.add(p)

    sia_binary_encode = rivine_binary_encode


def py(v):
    tag, x = v[0], v[1]
    if tag == "x":
        return (bytes if len(v) < 3 else bytearray)(bytes.fromhex(x))
    if tag == "l":
        return [py(e) for e in x]
    if tag == "t":
        return tuple(py(e) for e in x)
    if tag == "o":
        return Obj([py(e) for e in x])
    return x


@family
def ints(case):
    """[width, lo, hi): every integer of the range at that width; width 0 is the automatic add, -8 is siabin"""
    width, lo, hi = case
    n = 0
    for v in range(lo, hi):
        fmt = "sia" if width == -8 else "riv"
        e = ENC[fmt]()
        e.add_byte(7)
        ops = {1: "add_int8", 2: "add_int16", 3: "add_int24", 4: "add_int32", 8: "add_int64", 0: "add", -8: "add_int"}
        f = getattr(e, ops[width])
        w = abs(width) or 8
        if 0 <= v < 1 << (8 * w):
            f(v)
            same(bytes(e.data), b"\x07" + R.le(v, w), "%s(%d)" % (ops[width], v))
            if width == -8:
                e2 = ENC[fmt]()
                e2.add(v)
                same(bytes(e2.data), R.le(v, 8), "siabin add(%d)" % v)
        else:
            raises(IntegerOutOfRange, f, v)
            same(bytes(e.data), b"\x07", "output after refusing %s(%d)" % (ops[width], v))
            if width == -8:
                raises(IntegerOutOfRange, e.add, v)
                same(bytes(e.data), b"\x07", "output after refusing add(%d)" % v)
        n += 1
    return (width, lo, hi, n)


@family
def one_byte(case):
    fmt, lo, hi = case
    for v in range(lo, hi):
        e = ENC[fmt]()
        e.add_byte(9)
        if 0 <= v < 256:
            e.add_byte(v)
            same(bytes(e.data), bytes([9, v]), "add_byte(%d)" % v)
            e.add_byte(bytes([v]))
            e.add_byte(bytearray([v]))
            same(bytes(e.data), bytes([9, v, v, v]), "add_byte(bytes %d)" % v)
        else:
            raises((IntegerOutOfRange, ValueError), e.add_byte, v)
            same(bytes(e.data), b"\x09", "output after refusing byte %d" % v)
    for s in ("a", "\x00", "\x7f"):
        e = ENC[fmt]()
        e.add_byte(s)
        same(bytes(e.data), s.encode(), "add_byte(%r)" % s)
    for s in ("", "ab", "\u00e9", b"", b"ab", bytearray(b"abc"), None, [1], {}):
        e = ENC[fmt]()
        raises((ValueError, TypeError), e.add_byte, s)
        same(bytes(e.data), b"", "output after refusing a byte")
    return (fmt, lo, hi)


@family
def value(case):
    """[fmt, tagged value]: add, add_slice/add_array, bulk helpers"""
    fmt, v = case
    p = py(v)
    e = ENC[fmt]()
    try:
        want = R.enc(fmt, v)
    except R.Unencodable:
        raises((IntegerOutOfRange, SliceLengthOutOfRange), e.add, p)
        return "refused"
    e.add(p)
    same(bytes(e.data), want, "%s add(%r)" % (fmt, v))
    same(bytes(FN[fmt](p)), want, "%s_encode(%r)" % (fmt, v))
    e.add(p)
    same(bytes(e.data), want + want, "%s add twice(%r)" % (fmt, v))
    if v[0] in "sxlt":
        e = ENC[fmt]()
        e.add_slice(p)
        same(bytes(e.data), want, "%s add_slice(%r)" % (fmt, v))
        e = ENC[fmt]()
        e.add_array(p)
        arr = (v[1].encode("utf-8") if v[0] == "s" else bytes.fromhex(v[1]) if v[0] == "x"
               else b"".join(R.enc(fmt, x) for x in v[1]))
        same(bytes(e.data), arr, "%s add_array(%r)" % (fmt, v))
        if v[0] in "lt":
            e = ENC[fmt]()
            e.add_all(*p)
            same(bytes(e.data), arr, "%s add_all(%r)" % (fmt, v))
            same(bytes(FN[fmt](*p)), arr, "%s_encode(*%r)" % (fmt, v))
    e.reset()
    same(bytes(e.data), b"", "data after reset")
    return (fmt, want)


@family
def length(case):
    """[fmt, kind, n]: byte strings, text and element sequences of n elements"""
    fmt, kind, n = case
    e = ENC[fmt]()
    if kind == "bytes":
        p, body = bytes(n), None
    elif kind == "bytearray":
        p, body = bytearray(n), None
    elif kind == "text":
        p, body = "z" * n, b"z" * n
    elif kind == "utf8":
        p = "\u20ac" * n
        body = p.encode("utf-8")
    else:
        p, body = [True] * n, b"\x01" * n
    try:
        pre = R.LEN[fmt](n if kind != "utf8" else len(body))
    except R.Unencodable:
        raises(SliceLengthOutOfRange, e.add_slice, p)
        same(bytes(e.data), b"", "output after refusing the length")
        return "refused"
    e.add_slice(p)
    d = e.data
    total = len(pre) + (n if body is None else len(body))
    expect(len(d) == total, "{} slice of {} {}: {} bytes, want {}", fmt, n, kind, len(d), total)
    same(bytes(d[:len(pre)]), pre, "%s length prefix of %d %s" % (fmt, n, kind))
    if body is not None:
        expect(bytes(d[len(pre):]) == body, "{} body of {} {}", fmt, n, kind)
    elif n < 1 << 22:
        expect(bytes(d[len(pre):]) == bytes(n), "{} body of {} {}", fmt, n, kind)
    return (fmt, kind, n, pre)


# operation sequences on one encoder
OPS = {
    "i0": ("add", 0, ("i", 0)), "imax": ("add", 2 ** 64 - 1, ("i", 2 ** 64 - 1)), "ineg": ("add", -1, None), "iover": ("add", 2 ** 64, None),
    "bt": ("add", True, ("b", True)), "bf": ("add", False, ("b", False)),
    "s0": ("add", "", ("s", "")), "sx": ("add", "x\u00e9", ("s", "x\u00e9")),
    "x": ("add", b"\x00\xff", ("x", "00ff")), "ba": ("add", bytearray(b"q"), ("x", "71")),
    "l": ("add", [1, [True], "y"], ("l", [("i", 1), ("l", [("b", True)]), ("s", "y")])),
    "t0": ("add", (), ("l", [])), "none": ("add", None, None), "obj": ("add", object(), None),
    "o": ("add", "OBJ", ("o", [("i", 5), ("s", "k")])),
    "all": ("add_all", (1, "a"), ("o", [("i", 1), ("s", "a")])), "byte": ("add_byte", 3, "03"), "byteover": ("add_byte", 256, None),
    "arr": ("add_array", "a\u20ac", "61e282ac"), "sl": ("add_slice", b"ab", ("x", "6162")),
    "reset": ("reset", None, None), "read": ("data", None, None),
}
RIVOPS = {"i8": ("add_int8", 255, "ff"), "i8o": ("add_int8", 256, None), "i16": ("add_int16", 258, "0201"), "i24": ("add_int24", 66051, "030201"),
          "i24o": ("add_int24", 1 << 24, None), "i32": ("add_int32", 1 << 31, "00000080"), "i16n": ("add_int16", -1, None), "i32o": ("add_int32", 1 << 32, None)}


@family
def sequence(case):
    fmt, names = case
    e = ENC[fmt]()
    want = b""
    refused = 0
    for n in names:
        op, arg, ref = OPS.get(n) or RIVOPS[n]
        if op == "reset":
            e.reset()
            want = b""
        elif op == "data":
            bytes(e.data)
        elif ref is None:
            raises(REFUSED, getattr(e, op), arg)
            refused += 1
        else:
            if arg == "OBJ":
                arg = Obj([5, "k"])
            getattr(e, op)(*(arg if op == "add_all" else (arg,)))
            want += bytes.fromhex(ref) if isinstance(ref, str) else R.enc(fmt, ref)
        same(bytes(e.data), want, "%s data after %s" % (fmt, names))
    fresh = ENC[fmt]()
    same(bytes(fresh.data), b"", "a new encoder starts empty")
    return (fmt, want, refused)


LEAVES = [("i", 0), ("i", 300), ("b", True), ("s", ""), ("s", "\u00e9"), ("x", "00"), ("o", [("i", 7)])]


def trees(nodes, leaves):
    """all lists-of-trees with exactly `nodes` nodes in total"""
    if nodes == 1:
        for l in leaves:
            yield l
        yield ("l", [])
        yield ("t", [])
        return
    for kids in forests(nodes - 1, leaves):
        yield ("l", list(kids))


def forests(nodes, leaves):
    if nodes == 0:
        yield ()
        return
    for first in range(1, nodes + 1):
        for t in trees(first, leaves):
            for rest in forests(nodes - first, leaves):
                yield (t,) + rest


def run(ctx):
    T = ctx.thorough
    ctx.all(ints, [[1, -3, 260]] + [[w, lo, lo + 4096] for w in (2, 0, 8, -8, 3, 4) for lo in range(-4096, 69632, 4096)], parallel=True, chunk=4)
    wide = []
    for w in (1, 2, 3, 4, 8, 0, -8):
        top = 8 * (abs(w) or 8)
        for k in list(range(0, top + 1)) + [top + 1, top + 8, 128]:
            wide.append([w, (1 << k) - 2, (1 << k) + 3])
            wide.append([w, -(1 << k) - 2, -(1 << k) + 3])
    if T:
        wide += [[3, lo, lo + 65536] for lo in range(0, 1 << 24, 65536)]
    ctx.all(ints, wide, parallel=True, chunk=2 if T else 16)
    ctx.all(one_byte, [[f, -300, 600] for f in ENC])
    alpha = ["a", "\x00", "\u00e9", "\u20ac", "\U0001f600", "Z"]
    ctx.all(value, ([f, ["s", "".join(s)]] for n in range(5 if T else 4) for s in itertools.product(alpha, repeat=n) for f in ENC))
    ctx.all(value, ([f, ["x", bytes(b).hex()] + k] for n in range(4 if T else 3) for b in itertools.product([0, 1, 127, 128, 255], repeat=n)
                    for f in ENC for k in ([], ["array"])))
    for n in range(1, 6 if T else 5):
        ctx.all(value, ([f, list(t)] for t in trees(n, LEAVES) for f in ENC), parallel=n > 3, chunk=256)
    ctx.all(value, [[f, ["l", [["i", 1], ["i", v]]]] for f in ENC for v in (-1, 1 << 64)])
    ns = sorted({0, 1, 2, 3, 63, 64, 65} | {(1 << k) + d for k in (7, 8, 14, 16) for d in (-1, 0, 1)})
    big = [(1 << 21) + d for d in (-1, 0, 1)]
    ctx.all(length, [[f, k, n] for n in ns for k in ("bytes", "bytearray", "text", "utf8", "list") for f in ENC])
    ctx.all(length, [[f, k, n] for n in big for k in ("bytes", "text") for f in ENC])
    ctx.all(length, [["riv", "list", n] for n in big])
    ctx.all(length, [["riv", "bytes", n] for n in (1 << 29, (1 << 29) + 1)] + ([["riv", "bytes", (1 << 29) - 1]] if T else []))
    ctx.all(length, ([f, k, n] for n in range(0, 1200 if T else 400) for k in ("bytes", "list", "utf8") for f in ENC))
    for d in range(1, 4):
        ctx.all(sequence, ([f, list(s)] for f in ENC for s in itertools.product(list(OPS) + (list(RIVOPS) if f == "riv" else []), repeat=d)),
                parallel=d > 2, chunk=512)
    if T:
        core = ["i0", "ineg", "bt", "sx", "x", "l", "o", "arr", "reset", "none", "byte", "all"]
        ctx.all(sequence, ([f, list(s)] for f in ENC for s in itertools.product(core, repeat=5)), parallel=True, chunk=2048)
