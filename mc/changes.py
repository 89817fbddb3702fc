"""All single changes of a transaction spec, shared by C03, C04 and C05."""
import copy

from mc import txnspec as TS


def mutations(t):
    """every single-field change of a spec: [(label, committed?, changed spec)]"""
    v = t["v"]

    def m(label, committed, **kw):
        n = copy.deepcopy(t)
        n.update(kw)
        return (label, committed, n)
    for k in ("cin", "bin"):
        for i, (p, ff) in enumerate(t.get(k, [])):
            for q in (TS.H[7], p[:-1] + ("0" if p[-1] != "0" else "1"), ("0" if p[0] != "0" else "1") + p[1:]):
                l = copy.deepcopy(t[k])
                l[i][0] = q
                yield m("%s parent" % k, True, **{k: l})
            for f2 in signature_mutations(ff, v == 0):
                l = copy.deepcopy(t[k])
                l[i][1] = f2
                yield m("%s signature" % k, False, **{k: l})
        if k in t:
            yield m(k + " added", True, **{k: t[k] + [[TS.H[6], TS.SS]]})
            if t[k]:
                yield m(k + " removed", True, **{k: t[k][:-1]})
            if len(t[k]) > 1:
                yield m(k + " swapped", True, **{k: [t[k][1], t[k][0]] + t[k][2:]})
    for k in ("cout", "bout"):
        if k not in t:
            continue
        for i, (n, c) in enumerate(t[k]):
            for o2 in output_mutations(n, c, v == 0):
                l = copy.deepcopy(t[k])
                l[i] = o2
                yield m(k + " changed", True, **{k: l})
        yield m(k + " added", True, **{k: t[k] + [[1, TS.COND[0]]]})
        if t[k]:
            yield m(k + " removed", True, **{k: t[k][:-1]})
        if len(t[k]) > 1 and t[k][0] != t[k][1]:
            yield m(k + " swapped", True, **{k: [t[k][1], t[k][0]] + t[k][2:]})
    if "cout" in t and "bout" in t and t["cout"] and not t["bout"]:
        yield m("output kind", True, cout=t["cout"][:-1], bout=[t["cout"][-1]])
    if "refund" in t:
        r = t["refund"]
        yield m("refund", True, refund=None if r is not None else [1, ["nil"]])
        if r is not None:
            for o2 in output_mutations(r[0], r[1], False):
                yield m("refund changed", True, refund=o2)
    if "fees" in t:
        f = t["fees"]
        yield m("fees", True, fees=f + [1])
        if f:
            yield m("fees", True, fees=f[:-1])
            yield m("fees", True, fees=[f[0] + 1] + f[1:])
            yield m("fees", True, fees=[f[0] * 256] + f[1:])
    if "fee" in t:
        for n in (t["fee"] + 1, (t["fee"] or 1) * 256):
            yield m("fee", True, fee=n)
    if "data" in t:
        d = t["data"]
        for x in (d + "00", d[:-2], "01" + d, "aa"):
            if x != d and len(x) <= 166:
                yield m("data", True, data=x)
    if "nonce" in t:
        n = t["nonce"]
        for i in range(8):
            yield m("nonce", True, nonce=n[:2 * i] + "%02x" % (int(n[2 * i:2 * i + 2], 16) ^ 1) + n[2 * i + 2:])
    if "mf" in t:
        for f2 in signature_mutations(t["mf"], False):
            yield m("mint signature", False, mf=f2)
    if "mc" in t:
        for _, c in output_mutations(0, t["mc"], False)[2:]:
            yield m("mint condition", True, mc=c)
    for k in ("sig", "ssig", "rsig"):
        if k in t:
            for s in (None, TS.S[0], TS.S[1]):
                if s != t[k]:
                    yield m("signature", False, **{k: s})
    if "months" in t:
        for n in (1, 2, 24):
            if n != t["months"]:
                yield m("months", True, months=n)
    for k in ("id", "sid", "rid"):
        if k in t:
            for n in (t[k] ^ 3, (t[k] ^ 256)):
                if n:
                    yield m(k, True, **{k: n})
    if v == 146 and t["sid"] != t["rid"] and t["sid"] and t["rid"]:
        yield m("bots swapped", True, sid=t["rid"], rid=t["sid"])
    for a, b, pool in (("names", None, ["aaaaa"]), ("addrs", None, [["h", "bot.threefold.me"]]), ("nadd", "nrem", ["aaaaa"]), ("aadd", "arem", [["h", "bot.threefold.me"]])):
        for k, other in ((a, b), (b, a)):
            if k is None or k not in t:
                continue
            l = t[k]
            if len(l) < (5 if k[0] == "n" else 10):
                yield m(k, True, **{k: l + pool})
            if l:
                yield m(k, True, **{k: l[1:]})
                yield m(k, True, **{k: pool + l[1:]})
                if other and len(t[other]) < 5:
                    yield m(k + " moved", True, **{k: l[1:], other: t[other] + l[:1]})
                if len(l) > 1 and l[0] != l[1]:
                    yield m(k + " swapped", True, **{k: [l[1], l[0]] + l[2:]})
    if v == 208:
        yield m("address", True, addr="cd" * 20)
        yield m("value", True, value=t["value"] + 1)
        if t["value"] != t["fee"]:
            yield m("value and fee swapped", True, value=t["fee"], fee=t["value"])
    if "pk" in t and t["pk"]:
        yield m("public key", True, pk=TS.K[1])


def signature_mutations(ff, legacy):
    """other fill states of the same fulfillment"""
    if ff[0] == "ms":
        out = [["ms", []], ["ms", [[TS.K[2], TS.S[5]]]], ["ms", ff[1] + [[TS.K[3], TS.S[5]]]], ["ms", ff[1][::-1]]]
        if ff[1]:
            out.append(["ms", [[ff[1][0][0], TS.S[5]]] + ff[1][1:]])
    elif ff[0] == "ss":
        out = [["ss", ff[1], TS.S[5]], ["ss", ff[1], None]] if legacy else [["ss", ff[1], TS.S[5]], ["ss", None, None], ["ss", TS.K[3], TS.S[5]]]
    else:
        out = [["as", ff[1], TS.S[5], ff[3]], ["as", None, None, ff[3]], ["as", TS.K[3], TS.S[5], ff[3]]]
    return [f for f in out if f != ff]


def output_mutations(n, c, legacy):
    out = [[n + 1, c], [n + 256 ** 2, c]]
    cs = [["uh", TS.U[2]], ["uh", [1, TS.U[0][1][:-1] + ("0" if TS.U[0][1][-1] != "0" else "1")]]]
    if not legacy:
        cs += [["lt", 500, c] if c[0] != "lt" else ["lt", c[1] + 1, c[2]], ["nil"]]
        if c[0] == "lt":
            cs += [["lt", c[1] + 10 ** 9, c[2]], c[2]]
        if c[0] == "ms":
            cs += [["ms", c[1], c[2] - 1 or 3], ["ms", c[1][1:], c[2]], ["ms", c[1] + [TS.U[3]], c[2]]]
        if c[0] == "as":
            cs += [["as", c[2], c[1], c[3], c[4]], ["as", c[1], c[2], TS.H[6], c[4]], ["as", c[1], c[2], c[3], c[4] + 1], ["as", TS.U[3], c[2], c[3], c[4]],
                   ["as", c[1], TS.U[3], c[3], c[4]]]
        cs = [x for x in cs if not (x[0] == "lt" and x[2][0] in ("as", "lt"))]
        if c[0] == "nil":
            cs = [x for x in cs if x != ["uh", None]]
    return out + [[n, x] for x in cs if x != c and not (x == ["nil"] and c == ["nil"])]


BASES = {
    1: [{"v": 1, "cin": TS.CINS[5], "cout": TS.COUTS[2], "bin": TS.BINS[2], "bout": TS.BOUTS[2], "fees": TS.FEES[2], "data": "c3a9"},
        {"v": 1, "cin": TS.CINS[6], "cout": TS.COUTS[3], "bin": [], "bout": [], "fees": [10 ** 8], "data": ""},
        {"v": 1, "cin": TS.CINS[3], "cout": TS.COUTS[4], "bin": TS.BINS[1], "bout": TS.BOUTS[1], "fees": [], "data": "ff" * 83}],
    0: [{"v": 0, "cin": TS.LCIN[2], "cout": TS.LOUT[2], "bin": TS.LCIN[1], "bout": TS.LOUT[1], "fees": [10 ** 9], "data": "00"}],
    128: [{"v": 128, "nonce": TS.NONCE[1], "mf": f, "mc": c, "fees": TS.FEES[2], "data": "aabb"} for f, c in zip(TS.MF, TS.COND)],
    129: [{"v": 129, "nonce": TS.NONCE[1], "mf": f, "cout": c, "fees": TS.FEES[2], "data": "aabb"} for f, c in zip(TS.MF, TS.COUTS)],
    144: [{"v": 144, "addrs": a, "names": n, "months": 5, "fee": 10 ** 8, "cin": TS.RCINS[2], "refund": r, "pk": TS.K[3], "sig": TS.S[4]}
          for a, n, r in zip(TS.ADDRS, TS.NAMES, TS.REFUND + [None])],
    145: [{"v": 145, "id": 5, "aadd": a, "arem": b, "nadd": n, "nrem": o, "months": 5, "fee": 10 ** 8, "cin": TS.RCINS[2], "refund": r, "sig": TS.S[4]}
          for a, b, n, o, r in zip(TS.ADDRS[:3], TS.ADDRS[2::-1], TS.NAMES[:3], TS.NAMES[2::-1], TS.REFUND)],
    146: [{"v": 146, "sid": 5, "ssig": TS.S[4], "rid": 9, "rsig": None, "names": n, "fee": 10 ** 8, "cin": TS.RCINS[2], "refund": r}
          for n, r in zip(TS.NAMES[1:], TS.REFUND)],
    208: [{"v": 208, "addr": "ab" * 20, "value": 10 ** 12, "fee": 10 ** 8, "cin": c, "refund": r} for c, r in zip(TS.CINS[4:], TS.REFUND)],
    210: [{"v": 210, "pk": TS.K[0], "sig": s, "regfee": 10 ** 10, "fee": 10 ** 8, "cin": c, "refund": r} for s, c, r in zip([None] + TS.S, TS.CINS[4:], TS.REFUND)],
}


def mutated_cases(v, deep):
    if deep:
        bases = list(TS.specs(v))
        bases = BASES[v] + bases[::max(1, len(bases) // 150)]
    else:
        bases = BASES[v]
    for t in bases:
        if any(len(t.get(k, [])) > 50 for k in ("cin", "cout")) or any(c[0] == "as" and False for _, c in t.get("cout", [])):
            continue
        if v == 0 and any(ff[2] is None for k in ("cin", "bin") for _, ff in t[k]):
            continue
        for label, committed, n in mutations(t):
            yield [t, label, committed, n]
