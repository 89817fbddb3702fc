"""C07: Currency against exact integer arithmetic in units of 10^-9 TFT."""
import itertools
import json
import operator
from decimal import Decimal
from fractions import Fraction
from mc.core import family, bad, expect, same, raises, Succ
from mc.ref import enc as R
import tfchain.TFChainClient
import tfchain.errors as errors
from tfchain.types.PrimitiveTypes import Currency, Blockstake

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("cases: all pairs of boundary and ordinary amounts (in 10^-9 TFT, up to 10^60) under every operator, both operand orders and "
        "every operand type; every accepted notation of every amount; all short strings over a notation alphabet; all sequences of "
        "in-place operations (refused ones included) up to a depth. Non-trivial: a value was produced and compared, or refused.")
ASSUMPTIONS = ["amounts of at most 61 significant digits, far above the token supply"]

UNIT = 10 ** 9
AMOUNTS = [0, 1, 2, 9, 10, 99, 100, 10 ** 8, UNIT - 1, UNIT, UNIT + 1, 15 * 10 ** 8, 123456789, 123456789123456789, 10 * UNIT, 11 * UNIT, 12344 * UNIT,
           100 * UNIT, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 18, 695099000 * UNIT, 695099000 * UNIT + 1, 10 ** 26 + 1, 10 ** 28 - 1, 10 ** 28 + 1, 123456789 * 10 ** 21 + 987654321, 10 ** 40 - 1, 3 * 10 ** 60 + 7]
NEG = errors.CurrencyNegativeValue
PREC = errors.CurrencyPrecisionOverflow


def dec(n):
    """plain decimal text of n nano units, without exponent"""
    sign = "-" if n < 0 else ""
    n = abs(n)
    return "%s%d.%09d" % (sign, n // UNIT, n % UNIT)


def minimal(n):
    s = dec(n).rstrip("0")
    return s[:-1] if s.endswith(".") else s


def nano(c):
    v = Fraction(c.value) * UNIT
    expect(v.denominator == 1, "amount {} has more than nine decimals", c.value)
    return int(v)


def cur(n):
    return Currency(value=Decimal(dec(n)))


def check_forms(c, n):
    same(nano(c), n, "value")
    same(int(c), n, "int()")
    same(str(c), minimal(n), "str()")
    same(c.str(), minimal(n), ".str()")
    same(c.str(with_unit=True), minimal(n) + " TFT", ".str(with_unit)")
    same(repr(c), minimal(n) + " TFT", "repr()")
    same(c.json(), str(n), "json()")
    same(nano(Currency(value=str(c))), n, "text read back")
    same(nano(Currency(value=c.str(with_unit=True))), n, "text with unit read back")
    same(nano(Currency.from_json(json.loads(json.dumps(c.json())))), n, "JSON read back")
    same(nano(Currency(value=c)), n, "copy")
    b = R.bigint(n)
    from tfchain.encoders import rivine_encode, sia_encode
    same(bytes(rivine_encode(c)), R.riv_slice(b), "rivine encoding")
    same(bytes(sia_encode(c)), R.sia_slice(b), "sia encoding")


def notations(n):
    full, mini = dec(n), minimal(n)
    out = [full, mini, full.rstrip("0") if "." in full else full]
    for s in (full, mini):
        out += [s + " TFT", s + "TFT", s + " tft", s + "  Tft", " " + s, s + " ", "\t" + s + " TFT "]
    out.append("00" + mini)
    if n % UNIT == 0:
        out += [mini + ".", mini + ".0", mini + ".000000000 TFT"]
    return sorted(set(out))


@family
def parse(case):
    """[notation, nano]"""
    s, n = case
    check_forms(Currency(value=s), n)
    c = Currency()
    c.value = s
    same(nano(c), n, "assigned %r" % s)
    expect(c == s and not c != s, "{!r} equals its own text", s)
    return n


@family
def forms(case):
    n = case
    for c in (cur(n), Currency(value=Decimal("%de-9" % n)), Currency.from_json(str(n))):
        check_forms(c, n)
    if n % UNIT == 0:
        check_forms(Currency(value=n // UNIT), n)
    return n


@family
def refused(case):
    """[kind, text, error]: construction, assignment and in-place use are refused, the amount stays"""
    kind, s, err = case
    E = {"neg": NEG, "prec": PREC, "any": Exception}[err]
    v = {"str": lambda: s, "dec": lambda: Decimal(s), "int": lambda: int(s), "none": lambda: object()}[kind]()
    e = raises(E, Currency, value=v)
    if err in ("neg", "prec"):
        expect(type(e) is E, "raised {}", type(e))
        same(e.value, Decimal(s), "value of the error")
    if err == "prec":
        same(e.precision, -Decimal(s).as_tuple().exponent, "precision of the error")
        str(e)
    c = Currency(value=7)
    raises(E, setattr, c, "value", v)
    same(nano(c), 7 * UNIT, "amount after a refused assignment")
    return (err, s)


@family
def json_refused(case):
    obj, err = case
    E = {"neg": NEG, "prec": PREC, "type": (TypeError, ValueError), "any": Exception}[err]
    raises(E, Currency.from_json, obj)
    return repr(obj)


@family
def nil(case):
    for c in (Currency(), Currency(value=None), Currency.from_json(None), Currency.from_json(""), Currency.from_json("0")):
        check_forms(c, 0)
    a = Currency()
    a += 1
    same(nano(Currency()), 0, "a new amount after changing another one")
    return 0


OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul}
IOPS = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul}
CMP = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "gt": operator.gt, "ge": operator.ge}


def operand(kind, n):
    """the operand as kind, or None if n has no such form"""
    if kind == "cur":
        return cur(n)
    if kind == "str":
        return minimal(n)
    if kind == "unit":
        return minimal(n) + " TFT"
    if kind == "int":
        return n // UNIT if n % UNIT == 0 else None
    if kind == "float":
        f = float(n) / 1e9
        return f if n < 2 ** 52 and "e" not in str(f) and Fraction(str(f)) * UNIT == n else None


def exact(op, a, b):
    """exact result in nano units, as a Fraction"""
    return Fraction({"add": a + b, "sub": a - b}[op]) if op != "mul" else Fraction(a * b, UNIT)


def verdict(fr):
    prec = fr.denominator != 1
    if prec and fr < 0:
        return "either"
    return "prec" if prec else "neg" if fr < 0 else int(fr)


@family
def binop(case):
    """[op, a, b, kind, reflected]"""
    op, a, b, kind, refl = case
    o = operand(kind, b)
    if o is None:
        return None
    fr = exact(op, b, a) if refl else exact(op, a, b)
    want = verdict(fr)
    c = cur(a)
    fn = (lambda: OPS[op](o, c)) if refl else (lambda: OPS[op](c, o))
    if isinstance(want, int):
        r = fn()
        expect(isinstance(r, Currency), "result type {}", type(r))
        same(nano(r), want, "%s %s %s" % (case[0], a, b))
        check_forms(r, want)
        expect(r is not c and r is not o, "the result is one of the operands")
        r += 1
    else:
        raises({"neg": NEG, "prec": PREC, "either": (NEG, PREC)}[want], fn)
    same(nano(c), a, "left operand afterwards")
    if kind == "cur":
        same(nano(o), b, "right operand afterwards")
    if not refl:
        c = cur(a)
        alias = c
        if isinstance(want, int):
            r = IOPS[op](c, o)
            same(nano(r), want, "in-place %s" % (case,))
            expect(r is alias, "in-place operation keeps the object")
        else:
            raises({"neg": NEG, "prec": PREC, "either": (NEG, PREC)}[want], IOPS[op], c, o)
            same(nano(c), a, "amount after a refused in-place %s" % op)
        if kind == "cur":
            same(nano(o), b, "right operand after in-place")
    return (op, want, refl)


@family
def operand_refused(case):
    """[op, amount, kind, text, why]: an operand that is no amount is refused and the amount keeps its value"""
    op, a, kind, text, why = case
    o = {"float": float, "int": int, "str": str}[kind](text)
    for f in (OPS[op], lambda x, y: OPS[op](y, x), IOPS[op]):
        if f is not IOPS[op] and f is not OPS[op] and kind == "str":
            continue
        c = cur(a)
        raises({"neg": NEG, "prec": PREC, "either": (NEG, PREC)}[why], f, c, o)
        same(nano(c), a, "amount after a refused operand")
    return (op, kind, why)


@family
def compare(case):
    a, b, kind = case
    o = operand(kind, b)
    if o is None:
        return None
    c = cur(a)
    for name, f in CMP.items():
        expect(f(c, o) is f(a, b), "{} {} {} is {}", c, name, o, f(c, o))
        if kind != "unit":
            expect(f(o, c) is f(b, a), "{} {} {} is {}", o, name, c, f(o, c))
    same(nano(c), a, "operand after comparing")
    return (a, b)


SEQ = [("add", 1), ("add", UNIT), ("sub", 1), ("sub", UNIT), ("sub", 3 * UNIT), ("mul", 2 * UNIT), ("mul", UNIT // 2), ("mul", 0), ("set", -1), ("set", 5)]


@family
def history(case):
    """sequence of operations on one amount, with an alias and a snapshot"""
    c = Currency(value=1)
    alias, n = c, UNIT
    bystander = Currency(value=c)
    for i in case:
        op, v = SEQ[i]
        if op == "set":
            if v < 0:
                raises(NEG, setattr, c, "value", v)
            else:
                c.value = v
                n = v * UNIT
        else:
            want = verdict(exact(op, n, v))
            arg = cur(v)
            if isinstance(want, int):
                c = IOPS[op](c, arg)
                n = want
            else:
                raises((NEG, PREC), IOPS[op], c, arg)
            same(nano(arg), v, "argument")
        same(nano(c), n, "amount after %s" % (case,))
        expect(c is alias, "still the same object")
    same(nano(bystander), UNIT, "copied amount")
    return Succ(n, range(len(SEQ)))


@family
def sums(case):
    """sum() of lists, as used for balances"""
    l = [cur(n) for n in case]
    t = sum(l) if l else Currency()
    same(nano(t), sum(case), "sum")
    for c, n in zip(l, case):
        same(nano(c), n, "summed amount")
    return tuple(case)


@family
def text(case):
    """any short string either denotes its exact amount or is refused"""
    s = case
    import re
    t = s.upper().strip()
    if len(t) >= 4 and t.endswith("TFT"):
        t = t[:-3].rstrip()
    m = re.match(r"^([+-]?)(\d+\.?\d*|\.\d+)$", t)
    if m:
        fr = Fraction(("-" if m.group(1) == "-" else "") + (m.group(2) if m.group(2)[-1] != "." else m.group(2)[:-1])) * UNIT
        if fr == 0 and m.group(1) == "-":
            return None
        dec_places = len(m.group(2).split(".")[1]) if "." in m.group(2) else 0
        if dec_places > 9:
            return None
        if fr < 0:
            raises(NEG, Currency, value=s)
            return "negative"
        same(nano(Currency(value=s)), int(fr), "amount of %r" % s)
        return int(fr)
    if re.match(r"^[+-]?[\d_.]+(E[+-]?\d+)?$", t):
        return None
    raises(Exception, Currency, value=s)
    return "refused"


@family
def blockstake(case):
    n = case
    from tfchain.encoders import rivine_encode, sia_encode
    for b in (Blockstake(value=n), Blockstake(value=str(n)), Blockstake.from_json(str(n))):
        same(int(b), n, "block stakes")
        same(str(b), str(n), "block stake text")
        same(b.json(), str(n), "block stake JSON")
        same(bytes(rivine_encode(b)), R.riv_slice(R.bigint(n)), "block stake rivine")
        same(bytes(sia_encode(b)), R.sia_slice(R.bigint(n)), "block stake sia")
    same(int(Blockstake.from_json("")) + int(Blockstake.from_json(None)) + int(Blockstake()), 0, "no block stakes")
    if n:
        b = Blockstake(value=3)
        raises((TypeError, ValueError), setattr, b, "value", -n)
        raises((TypeError, ValueError), Blockstake, value=-n)
        raises((TypeError, ValueError), Blockstake, value="-%d" % n)
        same(int(b), 3, "block stakes after refusal")
    return n


def run(ctx):
    T = ctx.thorough
    ctx.all(nil, [0])
    am = sorted(set(AMOUNTS + ([10 ** k + d for k in range(27) for d in (-1, 0, 1)] if T else [10 ** k for k in range(20)])))
    ctx.all(forms, am)
    ctx.all(parse, ([s, n] for n in am for s in notations(n)))
    ref = []
    for n in am:
        if n:
            ref += [["str", dec(-n), "neg"], ["dec", dec(-n), "neg"], ["str", minimal(-n), "neg"]]
            if n % UNIT == 0:
                ref.append(["int", str(-(n // UNIT)), "neg"])
        ref += [[k, dec(n) + t, "prec"] for k in ("str", "dec") for t in ("1", "01", "5", "9", "0000001")]
    ref += [["str", s, "any"] for s in ("", " ", "TFT", " TFT", "abc", "1 BTC", "1,5", "1.2.3", "0x10", "--1", "1 TFT TFT", "TFT 1", "1e", "NaN", "inf", "-inf", "sNaN", "Infinity TFT")]
    ref += [["none", "", "any"]]
    ctx.all(refused, ref)
    ctx.all(json_refused, [["-1", "neg"], ["-1000000000", "neg"], ["0.5", "prec"], ["1.1", "prec"], ["abc", "any"], ["1 TFT", "any"], [5, "type"],
                           [1.5, "type"], [[], "type"], [{}, "type"], [True, "type"]])
    kinds = ["cur", "str", "unit", "int", "float"]
    ctx.all(binop, ([op, a, b, k, r] for a in am for b in am for op in OPS for k in kinds for r in ((False, True) if k in ("cur", "int", "float") or op == "add" and k == "zz" else (False,))),
            parallel=True, chunk=512)
    bad_operands = [["float", t, w] for t, w in (("0.0000000001", "prec"), ("1e-10", "prec"), ("0.00000000049", "prec"), ("0.1234567891", "prec"), ("1.00000000005", "prec"),
                                                 ("123.4567890123", "prec"), ("-1.0", "neg"), ("-0.5", "neg"), ("-1e-9", "neg"), ("-0.0000000001", "either"))]
    bad_operands += [["int", "-1", "neg"], ["int", str(-10 ** 9), "neg"]]
    bad_operands += [["str", t, w] for t, w in (("-1", "neg"), ("-0.000000001", "neg"), ("0.0000000001", "prec"), ("1.0000000001 TFT", "prec"), ("-3 TFT", "neg"))]
    ctx.all(operand_refused, ([op, a] + b for op in OPS for a in am for b in bad_operands))
    ctx.all(compare, ([a, b, k] for a in am for b in am for k in kinds), parallel=True, chunk=512)
    ctx.bfs(history, [[]], 7 if T else 5)
    ctx.all(sums, (list(s) for n in range(4) for s in itertools.product([0, 1, UNIT - 1, UNIT, 123456789123], repeat=n)))
    alpha = "01.-+ 9T" if not T else "012.-+ 9TFe"
    ctx.all(text, ("".join(t) + tail for n in range(5) for t in itertools.product(alpha, repeat=n) for tail in ("", " TFT")), parallel=True, chunk=1024)
    ctx.all(blockstake, am)
