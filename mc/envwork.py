"""A fixed amount of work with plain results, for C29: what it yields must not depend on the surroundings.
As a program: reads a JSON list of steps from stdin, prints {step: digest of result} (or the result with "full")."""
import hashlib
import json
import re
import sys

TIME = re.compile(r"\d{4}/\d\d/\d\d \d\d:\d\d:\d\d")  # texts of points in time follow the zone of the machine


def spread(it, n):
    l = list(it)
    return l if len(l) <= n else [l[i * len(l) // n] for i in range(n)]


def steps(deep=False):
    """all steps, as [kind, arguments..]"""
    from mc import menu
    from mc import txnspec as TS
    out = []
    for v in (1, 128, 129, 144, 145, 146, 208, 209, 210):
        out += [["txn", t, r] for t in spread(TS.specs(v), 40 if deep else 6) for r in ("json", "set")]
    out += [["cond", c] for c in TS.COND]
    out += [["ff", f] for f in (TS.SS, TS.MS, TS.AS, TS.AS_NEW)]
    out += [["amount", a, b] for a in AMOUNTS for b in AMOUNTS]
    out += [["play", k, a, b] for k in (0, 1) for a in menu.MENU for b in (menu.MENU if deep else ("balance", "send"))]
    out += [["refusals", t, r] for v in (1, 128, 129, 144, 145, 146, 208, 209, 210) for t in spread(TS.specs(v), 6 if deep else 2) for r in ("json", "set")]
    out += [["parts", c] for c in range(14)] + [["documents", n] for n in range(8)]
    out += [["spend", list(x), n] for x in (["m"], ["p"], ["m", "p"], ["p", "m"], ["a", "b"], ["b", "a"], ["m", "a"], ["a", "b", "p", "m"]) for n in (0, 1, 2, 3)]
    out += [["update", n] for n in range(5)]
    out += [["key", w] for w in range(3)] + [["lock", n] for n in range(len(LOCKS))] + [["tree", n] for n in range(10)] + [["recipient", n] for n in range(6)] + [["secrets"]]
    return out


AMOUNTS = ["0", "1", "0.000000001", "123456789.123456789", "99999999999999999999.999999999", "12345678901234567890123456789012345", "1.5 TFT", "1000000000", "0.1", "695099000.000000001"]
LOCKS = [600, 499999999, 500000000, 1550000000, "2031/03/28", "2030/10/31 02:30:15", "+7d", "3h"]


def get(f):
    try:
        return f()
    except Exception:
        return "refused"


def work(step):
    from mc import build as B
    from mc import menu
    from mc import txnspec as TS
    from mc import world as W
    from mc.checks.c25 import COND, FF, TX, text, tx_of
    from mc.ref import types as R
    kind, a = step[0], step[1:]
    if kind == "txn":
        o = tx_of(a[0], a[1], True)
        return [get(lambda: text(f(o))) for _, f in TX]
    if kind in ("cond", "ff"):
        o = (B.cond if kind == "cond" else B.ff)(a[0])
        return [get(lambda: text(f(o))) for n, f in (COND if kind == "cond" else FF) if n != "lock"]
    if kind == "amount":
        from tfchain.types.PrimitiveTypes import Currency
        x, y = Currency(value=a[0]), Currency(value=a[1])
        def inplace(op):
            z = Currency(value=x)
            if op == "+":
                z += y
            elif op == "-":
                z -= y
            else:
                z *= y
            return z.json()
        return [get(f) for f in (lambda: (x + y).json(), lambda: (x - y).json(), lambda: (x * y).json(), lambda: [x < y, x <= y, x == y, x > y, x >= y, x != y], lambda: str(x), lambda: x.str(with_unit=True), lambda: repr(x), lambda: int(x),
                                 lambda: Currency.from_json(x.json()).json(), lambda: B.enc("riv", x).hex(), lambda: B.enc("sia", x).hex(), lambda: (1 + x).json(), lambda: (2.5 + x).json(), lambda: ("7 TFT" + x).json() if False else (x + "7 TFT").json(),
                                 lambda: (3 - x).json(), lambda: sum([x, y, x]).json(), lambda: inplace("+"), lambda: inplace("-"), lambda: inplace("*"), lambda: Currency(value=a[1] + "0").json())]
    if kind == "play":
        k, one, two = a
        p = menu.party(k, 1)
        return [menu.play(p, one), menu.play(p, two), menu.play(p, "balance"), menu.play(p, "history")]
    if kind == "refusals":
        return verdicts(lambda: tx_of(a[0], a[1], True))
    if kind == "parts":
        from tfchain.types.PrimitiveTypes import Currency, Hash, BinaryData
        return verdicts([lambda: B.cond(TS.COND[0]), lambda: B.cond(TS.COND[2]), lambda: B.cond(TS.COND[4]), lambda: B.cond(TS.COND[-1]), lambda: B.ff(TS.SS), lambda: B.ff(TS.MS), lambda: B.ff(TS.AS), lambda: B.cin([TS.H[0], TS.SS]),
                         lambda: B.cout([5, TS.COND[0]]), lambda: B.bout([5, TS.COND[0]]), lambda: B.cur(7), lambda: Hash(value=TS.H[0]), lambda: B.uh(TS.U[0]), lambda: B.pk(TS.K[0])][a[0]])
    if kind == "documents":
        from mc.checks import c05
        from tfchain.types import ConditionTypes as CT
        from tfchain.types import FulfillmentTypes as FT
        from tfchain.types import transactions as T
        read = {"tx": T.from_json, "cond": CT.from_json, "ff": FT.from_json}
        l = [x for x in c05.unsupported_cases()][a[0]::8] + spread(c05.damaged_cases(False), 800)[a[0]::8]
        return [get(lambda: text(read[x[0]](x[1])) if x[0] in read else None) for x in l]
    if kind == "spend":
        o, p = rich()
        src = [o.TEXT[x] for x in a[0]]
        return get(lambda: menu.sent(p.wallet.coins_send(o.TEXT["x"], o.money((1, 90, 130, 190)[a[1]] * o.F), source=src if len(src) > 1 else src[0])))
    if kind == "update":
        o, p = rich()
        u = [dict(names_to_add=["gamma", "alpha", "betas"]), dict(names_to_remove=["foobar"], names_to_add=["zulus", "yankee"]), dict(addresses_to_add=["b.example.org", "a.example.org", "10.0.0.1", "2001:db8::1"]),
             dict(months=3, addresses_to_remove=["old.example.org", "10.1.1.1"], addresses_to_add=["c.example.org"]), dict(months=24, names_to_add=["one12", "two12", "three12", "four12", "five12"])][a[0]]
        return get(lambda: menu.sent(p.wallet.threebot.record_update(1, **u)))
    if kind == "key":
        from tfchain.TFChainWallet import TFChainWallet
        l = W.L.Ledger("devnet")
        p = W.Party(l, a[0] + 1, keys=3)
        w = p.wallet
        return [w.mnemonic, list(w.addresses), w.public_key_new().json(), list(w.addresses)]
    if kind == "lock":
        from tfchain.types.ConditionTypes import OutputLock
        v = LOCKS[a[0]]
        def lock():
            o = OutputLock(value=v)
            return [o.is_timestamp, int(o)] if isinstance(v, int) else [o.is_timestamp]
        return get(lock)
    if kind == "tree":
        from tfchain.crypto.merkletree import Tree
        import hashlib
        t = Tree(hash_func=lambda x: hashlib.blake2b(x, digest_size=32).digest())
        for i in range(a[0]):
            t.push(bytes([i]) * (i + 1))
        return get(lambda: bytes(t.root()).hex())
    if kind == "recipient":
        from tfchain.types import ConditionTypes as CT
        r = [None, R.uh_text(TS.U[0]), [R.uh_text(u) for u in TS.U[:3]], ([R.uh_text(u) for u in TS.U[:3]], 2), B.uh(TS.U[1]), {"x"}][a[0]]
        return get(lambda: CT.from_recipient(r).json())
    if kind == "secrets":
        from tfchain.types.ConditionTypes import AtomicSwapSecret
        s = [AtomicSwapSecret.random() for _ in range(4)]
        return [len(set(map(str, s))), [len(bytes(x.value)) for x in s]]
    raise ValueError(kind)


def verdicts(make):
    """which of the values of the pool are refused where"""
    from mc.checks import c28
    o = make()
    out = []
    for doing in c28.doings(o):
        for k in list(c28.POOL) + c28.LISTS[::9]:
            ok = c28.attempt(o, doing, k)[0]
            out.append(ok)
            if ok:
                o = make()
    return "".join("ny"[x] for x in out)


def rich():
    """a wallet with several personal and multi-signature addresses and a 3Bot"""
    from mc import ops as o
    from mc import world as W
    l = W.L.Ledger("devnet", mint=o.OWN["a"])
    l.bots[1] = {"names": ["foobar"], "addrs": [["h", "old.example.org"], ["4", "0a010101"]], "pk": W.K(1, 0).pk, "exp": l.time + 10 ** 6}
    for n, w in enumerate("abmpabmpmnp"):
        l.give([[(100 + n) * o.F, o.OWN[w]]])
    return o, W.Party(l, 1, keys=2)


def plain(step):
    return TIME.sub("TIME", json.dumps(get(lambda: work(step)), default=str, sort_keys=True))


def digests(l):
    return {json.dumps(s): hashlib.blake2b(plain(s).encode(), digest_size=10).hexdigest() for s in l}


def main():
    job = json.loads(sys.stdin.read())
    if job.get("first"):
        import importlib
        importlib.import_module(job["first"])
    if job.get("prepare"):
        exec(job["prepare"], {})
    todo = job["steps"] if job.get("steps") is not None else steps(job.get("deep", False))
    if job.get("thread"):
        import threading
        box = {}
        t = threading.Thread(target=lambda: box.update(digests(todo) if not job.get("full") else {json.dumps(s): plain(s) for s in todo}))
        t.start()
        t.join()
    else:
        box = digests(todo) if not job.get("full") else {json.dumps(s): plain(s) for s in todo}
    sys.stdout.write(json.dumps(box))


if __name__ == "__main__":
    main()
