"""Independent reference of the rivbin and siabin encodings.
Values are tagged trees: ("i", n) 8-byte integer, ("b", bool), ("s", str), ("x", hex), ("l", [..]) slice, ("o", [..]) object
(an object encodes as the concatenation of its parts)."""


class Unencodable(Exception):
    pass


def le(n, width):
    if n < 0 or n >= 1 << (8 * width):
        raise Unencodable(n)
    return n.to_bytes(width, "little")


def riv_len(n):
    if n < 0:
        raise Unencodable(n)
    if n < 128:
        return le(n * 2, 1)
    if n < 16384:
        return le(n * 4 + 1, 2)
    if n < 2097152:
        return le(n * 8 + 3, 3)
    if n < 536870912:
        return le(n * 8 + 7, 4)
    raise Unencodable(n)


def sia_len(n):
    return le(n, 8)


def riv_slice(b):
    return riv_len(len(b)) + bytes(b)


def sia_slice(b):
    return sia_len(len(b)) + bytes(b)


LEN = {"riv": riv_len, "sia": sia_len}
SLICE = {"riv": riv_slice, "sia": sia_slice}


def enc(fmt, v):
    tag, x = v[0], v[1]
    if tag == "i":
        return le(x, 8)
    if tag == "b":
        return b"\x01" if x else b"\x00"
    if tag == "s":
        return SLICE[fmt](x.encode("utf-8"))
    if tag == "x":
        return SLICE[fmt](bytes.fromhex(x))
    if tag in ("l", "t"):
        return LEN[fmt](len(x)) + b"".join(enc(fmt, e) for e in x)
    if tag == "o":
        return b"".join(enc(fmt, e) for e in x)
    raise AssertionError(tag)


def bigint(n):
    """minimal big-endian bytes"""
    if n < 0:
        raise AssertionError("negative amount in a case")
    out = b""
    while n:
        out = bytes([n % 256]) + out
        n //= 256
    return out
