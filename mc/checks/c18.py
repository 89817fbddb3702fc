"""C18: locks mean what they say, and nothing locked counts as spendable."""
import calendar
import itertools
import json
import os
import re
import time
from datetime import datetime, timedelta, timezone

from mc import build as B
from mc import ops as O
from mc import world as W
from mc.core import Succ, bad, expect, family, same
from mc.ref import ledger as L
from mc.ref import txn as X
from mc.ref import types as R

import tfchain.errors
from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance
from tfchain.types import ConditionTypes as CT
from tfchain.types.ConditionTypes import OutputLock

PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state breadth-first search over block arrivals and spending attempts on the real wallet with locked outputs against a ledger that knows when a lock opens, "
             "and bounded-exhaustive enumeration of lock values, positions and notations against an independent reading of the notation")
RULE = ("all lock values around 0, 500000000, 2^32 and the chain position with all positions around them; all texts over a notation alphabet up to a length, all combinations of "
        "duration components, all dates of a grid in every documented order and time notation under five time zones, datetimes and timedeltas of any sign; every operation that "
        "takes a lock with every kind of notation and recipient; all sequences of blocks and spendings up to a depth. Non-trivial when a lock results or has to be refused")
ASSUMPTIONS = ["hours that a change to summer time skips or repeats are not judged", "a fraction of a second in a duration, spaces inside a notation and digits-only text are judged by "
               "not being misread only (refused or the plain value)", "offsets without a given current time are compared with the clock before and after the call"]

BORDER = 500000000
NOW = 1555555555


def refused(fn, what):
    try:
        r = fn()
    except Exception:  # any refusal
        return
    bad("{} is accepted as {}", what, r)


def lk(v, **kw):
    return OutputLock(value=v, **kw).value


# --- numbers and when they open
@family
def number(case):
    v, ph, pt = case
    for o in (OutputLock(value=v), CT.output_lock_new(v), OutputLock(value=OutputLock(value=v)), CT.locktime_new(lock=v, condition=CT.nil_new()).lock,
              CT.from_json({"type": 3, "data": {"locktime": v, "condition": {"type": 1, "data": {"unlockhash": R.uh_text(O.U[0])}}}}).lock):
        same(o.value, v, "value")
        same(int(o), v, "integer")
        same(o.is_timestamp, v >= BORDER, "is a timestamp")
        same(o.locked_check(ph, pt), not L.reached(v, ph, pt), "locked at height %d, time %d" % (ph, pt))
    return [v >= BORDER, L.reached(v, ph, pt)]


KINDS = {"a": WalletBalance, "m": lambda: MultiSigWalletBalance(owners=[B.uh(u) for u in O.OWN["m"][1]], signature_count=2), "*": WalletsBalance}


@family
def position(case):
    """[kind of balance, inner condition, lock, height, time, confirmed]: which bucket, and can it be funded from"""
    kind, w, lock, h, t, conf = case
    if kind == "m" and w != "m" or kind == "a" and w == "m":
        return None
    b = KINDS[kind]()
    b.chain_height, b.chain_time = h, t
    c = ["lt", lock, O.OWN[w]]
    b.output_add(B.cout([7 * L.UNIT, c], id="11" * 32), confirmed=conf)
    b.output_add(B.cout([2 * L.UNIT, O.OWN[w]], id="22" * 32), confirmed=conf)
    open_ = L.reached(lock, h, t)
    src = b.wallets[R.uh_text(R.cond_uh(O.OWN["m"]))] if kind == "*" and w == "m" else b
    got = W.amounts(src)
    want = [9 if open_ else 2, 0 if open_ else 7]
    same([got["available"], got["locked"], got["unconfirmed"], got["unconfirmed_locked"]], [x * L.UNIT for x in (want + [0, 0] if conf else [0, 0] + want)], "amounts")
    ids = sorted(str(o.id) for o in (src.outputs_available if conf else src.outputs_unconfirmed_available))
    same(ids, sorted((["11" * 32] if open_ else []) + ["22" * 32]), "available outputs")
    txns = src.drain(R.uh_text(O.U[3]), B.cur(L.UNIT), unconfirmed=True)
    same(sorted(str(i.parentid) for x in txns for i in x.coin_inputs), ids, "drained outputs")
    if hasattr(src, "fund"):
        kw = {"source": O.TEXT["m"]} if kind == "*" and w == "m" else {}
        try:
            ins, rest, _ = b.fund(B.cur(3 * L.UNIT), **kw)
            got = sorted(str(i.parentid) for i in ins)
            expect(open_, "a locked output has been used: {}", got)
        except tfchain.errors.InsufficientFunds:
            expect(not open_, "an output of which the lock has been reached is not used")
    return [open_, conf]


# --- text
DUR = re.compile(r"(?:(\d+(?:\.\d+)?)d)?(?:(\d+(?:\.\d+)?)h)?(?:(\d+(?:\.\d+)?)m)?(?:(\d+(?:\.\d+)?)s)?\Z")
BACK = re.compile(r"-(\d+)([smhdwMY])\Z")
UNITS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800, "M": 365 * 86400 // 12, "Y": 365 * 86400}


def meaning(s, now):
    """value, "refuse", ("maybe", value): the value or refused, or None (not judged)"""
    t = s.strip()
    if not t.strip("'\""):
        return "refuse"
    if "'" in t or '"' in t:
        return None
    if t[0] == "+":
        r = t[1:].strip()
        if not r:
            return "refuse"
        if r.isdigit():
            return now + int(r)
        m = DUR.match(r)
        if not m:
            return None if " " in r or re.search(r"(^|\D)\.\d|\d\.(\D|$)", r) else "refuse"
        n = 0
        for x, u in zip(m.groups(), (86400, 3600, 60, 1)):
            if x:
                a, _, f = x.partition(".")
                num, den = int(a + f) * u, 10 ** len(f)
                if num % den:
                    return None
                n += num // den
        return now + n
    if t[0] == "-":
        m = BACK.match(t)
        if m:
            v = now - int(m.group(1)) * UNITS[m.group(2)]
            return v if v >= 0 else "refuse"
        return None if " " in t or "." in t or "_" in t else "refuse"
    if t.isdigit():
        return ("maybe", int(t))
    if re.fullmatch(r"[0-9/: ]*", t):
        return None
    return "refuse"


@family
def text(case):
    s, now = case
    m = meaning(s, now)
    try:
        v = lk(s, current_timestamp=now)
    except Exception as e:  # any refusal
        expect(m == "refuse" or m is None or isinstance(m, tuple), "{!r} is refused ({!r}) but means {}", s, e, m)
        return "refused" if m else None
    if m is None:
        expect(isinstance(v, int) and v >= 0, "{!r} gives the lock {}", s, v)
        return None
    expect(m != "refuse", "{!r} is accepted as {}", s, v)
    same(v, m[1] if isinstance(m, tuple) else m, "lock of %r" % s)
    return "read"


@family
def texts(case):
    """all continuations of a prefix up to a length"""
    pre, alphabet, n, now = case
    k = 0
    for l in range(n + 1):
        for x in itertools.product(alphabet, repeat=l):
            k += text([pre + "".join(x), now]) is not None
    return k


# --- dates
ZONES = {"UTC0": (0, 0), "CET-1CEST,M3.5.0,M10.5.0/3": (3600, 7200), "EST5EDT,M3.2.0,M11.1.0": (-18000, -14400), "IST-5:30": (19800, 19800), "XXX-14": (50400, 50400)}


def at(zone, y, mo, d, hms=(0, 0, 0)):
    """epoch of a local time (January to February: winter, June to August: summer)"""
    off = ZONES[zone][1 if 6 <= mo <= 8 else 0]
    return calendar.timegm((y, mo, d) + tuple(hms)) - off


class zone:
    def __init__(self, z):
        self.z = z

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.z
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.old
        time.tzset()


HMS = {"": (0, 0, 0), " 0:00": (0, 0, 0), " 22:50": (22, 50, 0), " 09:05": (9, 5, 0), " 9:5": (9, 5, 0), " 23:59:59": (23, 59, 59), " 12:00:10": (12, 0, 10),
       " 10am:50": (10, 50, 0), " 10pm:50": (22, 50, 0), " 12am:01:02": (0, 1, 2), " 12pm:01:02": (12, 1, 2), " 1PM:30": (13, 30, 0)}
DATES = {"Y/m/d": "{y:04d}/{m:02d}/{d:02d}", "Y/M/D": "{y:04d}/{m}/{d}", "d/m/Y": "{d:02d}/{m:02d}/{y:04d}", "D/M/Y": "{d}/{m}/{y:04d}", "y/m/d": "{y2:02d}/{m:02d}/{d:02d}",
         "m/d": "{m:02d}/{d:02d}", "M/D": "{m}/{d}"}


@family
def date(case):
    z, form, y, m, d, hms, lead = case
    with zone(z):
        for _ in range(3):
            year = time.localtime().tm_year
            yy = year if form in ("m/d", "M/D") else y
            s = lead + DATES[form].format(y=yy, y2=yy % 100, m=m, d=d) + hms
            if form == "y/m/d":
                yy = 2000 + yy % 100 if yy % 100 <= 68 else 1900 + yy % 100
            want = at(z, yy, m, d, HMS[hms])
            valid = d <= calendar.monthrange(yy, m)[1]
            now = NOW
            try:
                v = lk(s, current_timestamp=now)
            except Exception as e:
                expect(not valid or want < 0, "{!r} is refused: {!r}", s, e)
                return "refused"
            if time.localtime().tm_year == year:
                break
        expect(valid, "{!r} is accepted as {} although there is no such day", s, v)
        expect(want >= 0, "{!r} is accepted as {} although it is negative", s, v)
        same(v, want, "lock of %r in zone %s" % (s, z))
    return "read"


@family
def today(case):
    """a time without date is one of today"""
    z, t, hms = case
    with zone(z):
        off = -time.timezone
        for _ in range(3):
            a = time.localtime()
            v = lk(t, current_timestamp=NOW)
            b = time.localtime()
            if a[:3] == b[:3]:
                break
        if a.tm_isdst:
            off = -time.altzone
        same(v, calendar.timegm(a[:3] + tuple(hms)) - off, "lock of %r in zone %s" % (t, z))
    return "read"


@family
def nodate(case):
    with zone("UTC0"):
        refused(lambda: lk(case, current_timestamp=NOW), "%r" % case)
    return "refused"


@family
def objects(case):
    """datetime and timedelta values"""
    k, n, us, off = case
    if k == "delta":
        v, want = timedelta(seconds=n, microseconds=us), NOW + n
    elif k == "aware":
        v, want = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=n, microseconds=us), n
        v = v.astimezone(timezone(timedelta(seconds=off)))
    else:
        with zone("XXX-14"):
            v, want = datetime(1970, 1, 1) + timedelta(seconds=n + 50400, microseconds=us), n
            return obj(v, want)
    return obj(v, want)


def obj(v, want):
    if want < 0:
        refused(lambda: lk(v, current_timestamp=NOW), "lock %r" % (v,))
        return "refused"
    same(lk(v, current_timestamp=NOW), want, "lock of %r" % (v,))
    return "read"


@family
def refuse(case):
    v = {"neg": -1, "neg2": -10 ** 12, "float": 1.5, "bytes": b"5", "list": [1], "dict": {}, "tuple": (1, 2), "negdelta": timedelta(days=-10 ** 6), "negdate": datetime(1905, 1, 1),
         "negaware": datetime(1969, 12, 31, 23, 59, 58, tzinfo=timezone.utc), "negstr": "-100Y", "old": "1905/01/01", "word": "tomorrow", "empty": "", "space": "  ", "quotes": "''",
         "plus": "+", "minus": "-"}[case]
    refused(lambda: OutputLock(value=v), "lock %r" % (v,))
    refused(lambda: CT.locktime_new(lock=v, condition=CT.nil_new()), "condition with lock %r" % (v,))
    refused(lambda: CT.from_recipient(O.TEXT["x"], lock=v), "recipient with lock %r" % (v,))
    refused(lambda: CT.atomic_swap_new(sender=O.TEXT["a"], receiver=O.TEXT["x"], hashed_secret="ab" * 32, lock_time=v), "swap with lock %r" % (v,))
    return "refused"


# --- the lock is put on what it was requested for
LOCKS = {"h1": (1, 1), "h": (1000, 1000), "hb": (BORDER - 1, BORDER - 1), "tb": (BORDER, BORDER), "t": (1700000000, 1700000000), "zero": (0, 0), "lock": (OutputLock(value=1700000001), 1700000001),
         "date": ("2030/01/31 22:50", None), "date2": ("31/01/2030", None), "aware": (datetime(2030, 1, 1, tzinfo=timezone.utc), 1893456000), "rel": ("+7d12h5s", 648005), "rel2": ("+ 2h", 7200),
         "delta": (timedelta(days=3), 259200)}
TO = {"x": ["uh", O.U[3]], "a": ["uh", O.U[0]], "nil": ["nil"], "ms": ["ms", [O.U[0], O.U[2]], 2], "ms1": ["ms", [O.U[3], O.U[2]], 1]}
RELATIVE = ("rel", "rel2", "delta")


def put(scene, how, to, lock):
    if how == "cond":
        c = CT.from_recipient(to, lock=lock)
        return [[3, c]]
    if how == "lt":
        return [[3, CT.locktime_new(lock=lock, condition=CT.from_recipient(to))]]
    if how == "set":
        c = CT.locktime_new(condition=CT.from_recipient(to))
        c.lock = lock
        return [[3, c]]
    w = scene.wallet
    if how == "send":
        return w.coins_send(to, "3 TFT", lock=lock).transaction
    if how == "build":
        b = w.coin_transaction_builder_new()
        b.output_add(O.TEXT["x"], "2 TFT", lock=None)
        b.output_add(to, "3 TFT", lock=lock)
        b.output_add(O.TEXT["b"], "1 TFT", lock=77)
        return b.send().transaction
    if how == "mint":
        return w.minter.coins_new(to, "3 TFT", lock=lock).transaction
    return w.balance.drain(to, B.cur(L.UNIT), lock=lock)[0]


@family
def placed(case):
    how, tk, key = case
    s = O.Scene({"bal": [[50 * L.UNIT, "a", "c"]], "mint": ["uh", O.U[0]]})
    with zone("UTC0"):
        v, n = LOCKS[key]
        want = {"date": calendar.timegm((2030, 1, 31, 22, 50, 0)), "date2": calendar.timegm((2030, 1, 31, 0, 0, 0))}.get(key, n)
        t0 = int(time.time())
        r = put(s, how, O.recipient(TO[tk]), v)
        t1 = int(time.time())
    if isinstance(r, list):
        cond = X_cond(r[0][1])
    else:
        outs = X.couts(O.spec_of(r))
        hit = [c for a, c in outs if c[0] == "lt" and c[1] != 77]
        same(len(hit), 1, "outputs with the lock")
        cond = hit[0]
        if how == "build":
            same([c for _, c in outs[:1] + outs[2:3]], [["uh", O.U[3]], ["lt", 77, ["uh", O.U[1]]]], "other outputs")
    same(cond[2], TO[tk], "locked condition")
    if key in RELATIVE:
        expect(want + t0 <= cond[1] <= want + t1, "lock {} but asked for {} seconds from {}", cond[1], want, t0)
    else:
        same(cond[1], want, "lock")
    if s.ex.posted:
        same(X.couts(s.ex.posted[0]), X.couts(O.spec_of(r)), "submitted outputs")
    return key


def X_cond(c):
    return X.cond_of(json.loads(json.dumps(c.json())))


@family
def nested(case):
    """a lock around a lock or a swap does not exist on the chain; the inner one would be overlooked"""
    inner, how = case
    c = {"lt": lambda: CT.locktime_new(lock=10 ** 9, condition=CT.unlockhash_new(O.TEXT["a"])), "ltms": lambda: CT.locktime_new(lock=5, condition=CT.multi_signature_new(1, [O.TEXT["a"], O.TEXT["x"]])),
         "as": lambda: CT.atomic_swap_new(sender=O.TEXT["a"], receiver=O.TEXT["x"], hashed_secret="ab" * 32, lock_time=10 ** 9)}[inner]()
    if how == "set":
        o = CT.locktime_new(lock=5)
        def f():
            o.condition = c
    elif how == "json":
        f = lambda: CT.from_json({"type": 3, "data": {"locktime": 5, "condition": c.json()}})
    elif how == "new":
        f = lambda: CT.locktime_new(lock=5, condition=c)
    elif how == "cond":
        f = lambda: CT.from_recipient(c, lock=5)
    else:
        s = O.Scene({"bal": [[50 * L.UNIT, "a", "c"]], "mint": ["uh", O.U[0]]})
        f = lambda: put(s, how, c, 5)
    refused(f, "a lock around " + inner)
    # without a second lock the condition is taken as it is
    if how in ("cond", "send", "build", "mint", "drain") and inner != "as":
        s = O.Scene({"bal": [[50 * L.UNIT, "a", "c"]], "mint": ["uh", O.U[0]]})
        r = put(s, how, c, None)
        cond = X_cond(r[0][1]) if isinstance(r, list) else [x for _, x in X.couts(O.spec_of(r)) if x[0] == "lt" and x[1] != 77][0]
        same(cond, X_cond(c), "condition of the recipient")
    return "refused"


# --- blocks arrive, the wallet spends
H0 = 10
SPOTS = {"h0": H0, "h1": H0 + 1, "h2": H0 + 2, "t0": L.T0 + 120 * 1, "t1": L.T0 + 121, "t2": L.T0 + 240, "t3": L.T0 + 241, "far": BORDER - 1, "past": BORDER, "z": 0}


@family
def chain(case):
    """[[[lock, owner, unconfirmed?]..], events...]: an event is ["mine", seconds] or ["spend", owner, off]"""
    outs, events = case[0], case[1:]
    l = L.Ledger("devnet", time=L.T0 - 120, height=H0 - 1)
    for pooled in (0, 1):
        g = [[(i + 2) * 3 * L.UNIT + i, ["lt", SPOTS[k], O.OWN[w]] if k else O.OWN[w]] for i, (k, w, q) in enumerate(outs) if q == pooled]
        if g or not pooled:
            l.give(g, mine=not pooled)
    # the block at height H0 has time T0
    p = W.Party(l, O.ME, keys=O.KEYS)
    p.ex.ledger = l
    out = None
    owners = sorted({o[1] for o in outs})
    for e in events:
        if e[0] == "mine":
            l.mine(dt=e[1])
            continue
        _, w, off = e
        v = l.view(R.cond_uh(O.OWN[w]))
        have = sum(v["available"].values())
        amount = have - L.UNIT + off
        if amount <= 0:
            amount = L.UNIT
        if off == 0 and have > L.UNIT:
            r = p.wallet.coins_send(O.TEXT["x"], O.money(amount), source=O.TEXT[w])
            used = sorted(i for i, _ in O.spec_of(r.transaction)["cin"])
            same(used, sorted(v["available"]), "spent outputs")
            out = "spent"
        else:
            try:
                r = p.wallet.coins_send(O.TEXT["x"], O.money(amount), source=O.TEXT[w])
                used = [i for i, _ in O.spec_of(r.transaction)["cin"]]
                bad_ = [i for i in used if i in v["locked"] or i in v["unconfirmed_locked"]]
                expect(not bad_, "a locked output is spent")
                expect(sum(v["available"].values()) + sum(v["unconfirmed"].values()) >= amount + L.UNIT, "more was spent than is available")
                out = "spent unconfirmed"
            except tfchain.errors.InsufficientFunds:
                expect(have + sum(v["unconfirmed"].values()) < amount + L.UNIT, "insufficient funds although {} is available", have)
                out = "insufficient"
    b = p.wallet.balance
    for w in owners:
        v = l.view(R.cond_uh(O.OWN[w]))
        src = b.wallets.get(O.TEXT[w]) if O.OWN[w][0] == "ms" else b
        if src is None:
            expect(not any(v.values()), "no balance of {}", w)
            continue
        check(src, v, src is not b)
    tot = {k: sum(sum(l.view(R.cond_uh(O.OWN[w]))[k].values()) for w in owners) for k in ("available", "locked", "unconfirmed", "unconfirmed_locked")}
    state = [outs, l.height, l.time, sorted(map(repr, (l.view(R.cond_uh(O.OWN[w])) for w in owners))), tot]
    ev = [["mine", dt] for dt in (1, 119, 120, 121)] + [["spend", w, off] for w in owners for off in (0, 1)]
    return Succ(state, ev, [out, tot["available"] > 0, tot["locked"] > 0])


def check(src, v, amounts):
    g = W.amounts(src)
    for k in ("available", "locked", "unconfirmed", "unconfirmed_locked") if amounts else ():
        same(g[k], sum(v[k].values()), k)
    same(sorted(str(o.id) for o in src.outputs_available), sorted(v["available"]), "available outputs")
    same(sorted(str(o.id) for o in src.outputs_unconfirmed_available), sorted(v["unconfirmed"]), "available unconfirmed outputs")


def run(ctx):
    vals = sorted({0, 1, 2, 10, 252, 253, 65535, 65536, 10 ** 6, BORDER - 2, BORDER - 1, BORDER, BORDER + 1, 2 ** 29, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 62, L.T0})
    def nums():
        for v in vals:
            for ph in sorted({0, 1, max(0, v - 1), v, v + 1, BORDER, 2 ** 40}):
                for pt in sorted({0, 1, max(0, v - 1), v, v + 1, BORDER, 2 ** 40}):
                    yield [v, ph, pt]
    ctx.all(number, nums())
    def spots():
        for kind in KINDS:
            for w in ("a", "m"):
                for conf in (True, False):
                    for d in (-1, 0, 1):
                        for h, t in ((20, L.T0), (BORDER - 1, BORDER), (1, BORDER + 1)):
                            for lock in (max(h + d, 0), t + d):
                                yield [kind, w, lock, h, t, conf]
    ctx.all(position, spots())
    # texts
    nums_ = ("", "0", "1", "7", "24", "100", "99999", "1.5", "0.5")
    def durs():
        for d, h, m, s in itertools.product(nums_, repeat=4):
            t = "".join(n + u for n, u in zip((d, h, m, s), "dhms") if n)
            for pre in ("+", "+ "):
                for now in (0, 1, NOW):
                    yield [pre + t, now]
        for a, b in itertools.product("dhmswMYx", repeat=2):
            for pre in "+-":
                yield [pre + "2" + a + "3" + b, NOW]
                yield [pre + "2" + a, NOW]
        for now in (0, 1, 3600, 86400, NOW, BORDER, 2 ** 33):
            for n in (0, 1, 2, 60, 100, 10 ** 6):
                for u in "smhdwMY":
                    yield ["-%d%s" % (n, u), now]
                    yield [" -%d%s " % (n, u), now]
                yield ["+%d" % n, now]
                yield ["%d" % n, now]
    ctx.all(text, durs())
    alpha = "+-10dhs./: x'" if not ctx.thorough else "+-10dhms./: x'"
    n = 5 if not ctx.thorough else 6
    pres = ["".join(x) for x in itertools.product(alpha, repeat=2)]
    ctx.all(text, [[c, NOW] for k in (0, 1) for c in map("".join, itertools.product(alpha, repeat=k))])
    ctx.all(texts, [[p, alpha, n - 2, NOW] for p in pres], parallel=True, chunk=2)
    # dates
    def dates():
        for z in ZONES:
            for form in DATES:
                for y in (1969, 1970, 1986, 1999, 2000, 2019, 2020, 2038, 2068) + ((2100, 2024, 2399) if ctx.thorough else ()):
                    if form in ("m/d", "M/D", "y/m/d") and y in (1969, 1970, 2100, 2399) and form != "y/m/d":
                        continue
                    for m, d in ((1, 1), (1, 31), (2, 28), (2, 29), (6, 15), (6, 31), (7, 1), (8, 9), (12, 31), (12, 5)):
                        for i, t in enumerate(HMS):
                            if not ctx.thorough and (i + d + m + y) % 4:
                                continue
                            yield [z, form, y, m, d, t, " " if i % 5 == 0 else ""]
    ctx.all(date, dates(), parallel=True, chunk=200)
    ctx.all(today, [[z, t.strip(), h] for z in ("UTC0", "IST-5:30", "XXX-14") for t, h in HMS.items() if t])
    ctx.all(nodate, ["2020/13/01", "2020/00/10", "2020/10/00", "2020/10/32", "32/10/2020", "10/32/2020", "2020/10/10 24:00", "2020/10/10 10:60", "2020/10/10 10:10:62", "2020/10/10 1:2:3:4",
                     "2020/10", "2020/10/10/10", "202/10/10", "20201/10/10", "2020/1O/10", "2020/10/10x", "x2020/10/10", "2020/10/10 10:10x", "2020-10-10", "2020/10/10 13am:10", "10.10.2020",
                     "2020/10/10T10:10", "2020/10/10 +4h", "2020/10/10-", "13/32", "tomorrow", "now", "1 day", "a/b", "//", "1//1", "/1/1", ":", "25:00", "10:61", "0x10", "1e9", "inf", "nan", "+inf", "+nans",
                     "+1x", "+x", "++1h", "+-1h", "-+1h", "--1h", "+1h1d", "+1d1d", "+h", "+1.2.3h", "-1.2.3h", "-h", "-1", "-x", "- ", "1h", "1d", "+1h+1h", "+1h,", "None", "True"])
    ctx.all(objects, [[k, n, us, off] for k in ("delta", "aware", "local") for n in (-10 ** 10, -NOW - 2, -NOW - 1, -NOW, -2, 0, 1, 59, 86400, BORDER - 1, BORDER, NOW, 2 ** 31, 2 ** 32, 4 * 10 ** 9)
                      for us in (0, 1, 500000, 999999) for off in (0, 3600, -18000, 19800) if not (k == "local" and off) and not (us and n < 0) and not (k != "delta" and n < -2 * NOW)])
    ctx.all(refuse, ["neg", "neg2", "float", "bytes", "list", "dict", "tuple", "negdelta", "negdate", "negaware", "negstr", "old", "word", "empty", "space", "quotes", "plus", "minus"])
    ctx.all(placed, [[h, t, k] for h in ("cond", "lt", "set", "send", "build", "mint", "drain") for t in TO for k in LOCKS], parallel=True, chunk=10)
    ctx.all(nested, [[i, h] for i in ("lt", "ltms", "as") for h in ("set", "json", "new", "cond", "send", "build", "mint", "drain")])
    items = [[k, w, 0] for k in SPOTS for w in ("a", "m", "n")]
    pooled = [[k, w, 1] for k, w, _ in items]
    ctx.bfs(chain, [[[i]] for i in items + pooled] + [[[a, [None, a[1], q]]] for a in items for q in (0, 1)] + [[[a, [None, a[1], 1]]] for a in pooled], 5 if ctx.thorough else 4, parallel=True, chunk=16)
    if ctx.thorough:
        ctx.bfs(chain, [[[a, b]] for a, b in itertools.combinations(items, 2) if (items.index(a) + items.index(b)) % 2 == 0], 4, parallel=True, chunk=16)
