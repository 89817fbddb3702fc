"""Bounded space of transaction specs, shared by C03, C04, C05 and C24."""
import hashlib
import itertools

from mc.ref import types as R

H = [hashlib.sha256(bytes([i])).hexdigest() for i in range(8)]
K = [hashlib.sha256(b"k%d" % i).hexdigest() for i in range(4)]
S = ["%02x" % (0xa0 + i) * 64 for i in range(6)]
U = [R.pk_uh(k) for k in K]
SS = ["ss", K[0], S[0]]
SS_NEW = ["ss", None, None]
MS = ["ms", [[K[0], S[0]], [K[1], S[1]]]]
MS1 = ["ms", [[K[1], S[1]]]]
MS0 = ["ms", []]
AS = ["as", K[2], S[2], "5a" * 32]
AS_NEW = ["as", None, None, None]
COND = [["uh", U[0]], ["nil"], ["ms", [U[0], U[1]], 2], ["as", U[0], U[1], H[5], 1549649728], ["lt", 500, ["uh", U[1]]],
        ["lt", 1549649728, ["ms", [U[0], U[1], U[2]], 2]], ["lt", 5, ["nil"]], ["uh", None]]
CINS = [[], [[H[0], SS]], [[H[0], SS_NEW]], [[H[0], MS]], [[H[1], AS]], [[H[0], SS], [H[1], MS1]], [[H[1], AS_NEW], [H[0], SS], [H[2], MS0]]]
COUTS = [[], [[1, COND[0]]], [[10 ** 9, COND[2]], [255, COND[3]]], [[256, COND[4]], [0, COND[1]], [10 ** 17 + 1, COND[5]]], [[7, COND[6]], [7, COND[6]]]]
BINS = [[], [[H[3], SS]], [[H[3], SS_NEW], [H[0], MS]]]
BOUTS = [[], [[3000, COND[0]]], [[1, COND[2]], [300, COND[4]]]]
FEES = [[], [10 ** 8], [1, 2 * 10 ** 9]]
DATA = ["", "00", "ff" * 83, "c3a9"]
LCIN = [[], [[H[0], SS]], [[H[1], ["ss", K[1], S[1]]], [H[0], SS]], [[H[0], ["ss", K[0], None]]]]
LOUT = [[], [[1, COND[0]]], [[10 ** 9, ["uh", U[1]]], [256, ["uh", [3, H[6]]]]]]
NAMES = [[], ["foobar"], ["chatbot.example", "thisis.justan.example"], ["name%d" % i for i in range(5)]]
ADDRS = [[], [["h", "example.org"]], [["4", "7f000001"], ["6", "20010db8" + "00" * 11 + "68"]], [["4", "0a0000%02x" % i] for i in range(1, 11)]]
MONTHS = [0, 1, 12, 24]
RCINS = [[], [[H[0], SS]], [[H[0], SS_NEW], [H[1], MS1]]]
REFUND = [None, [99 * 10 ** 9, COND[0]], [1, COND[5]]]
FEE = [0, 10 ** 8]
SIG = [None, S[4]]
PK = [None, K[3]]
NONCE = ["0000000000000000", "4dd0e7a3a2a99c8b"]
MF = [SS_NEW, SS, MS0, MS1, MS]


def _many(n):
    return [[hashlib.sha256(b"i%d" % i).hexdigest(), SS] for i in range(n)]


def specs(v, deep=False):
    P = itertools.product
    if v == 1:
        for a, b, c, d, e, f in P(CINS, COUTS, BINS, BOUTS, FEES, DATA if deep else DATA[:3]):
            yield {"v": 1, "cin": a, "cout": b, "bin": c, "bout": d, "fees": e, "data": f}
        for c in COND:
            yield {"v": 1, "cin": [], "cout": [[5, c]], "bin": [], "bout": [[6, c]], "fees": [], "data": ""}
        for n in (99, 130):
            yield {"v": 1, "cin": _many(n), "cout": [[i + 1, COND[0]] for i in range(n)], "bin": [], "bout": [], "fees": [5], "data": ""}
    elif v == 0:
        for a, b, c, d, e, f in P(LCIN, LOUT, LCIN[:3], LOUT, FEES, DATA[:3]):
            yield {"v": 0, "cin": a, "cout": b, "bin": c, "bout": d, "fees": e, "data": f}
    elif v == 128:
        for n, m, c, f, d in P(NONCE, MF, COND[:6], FEES, DATA[:3]):
            yield {"v": 128, "nonce": n, "mf": m, "mc": c, "fees": f, "data": d}
    elif v == 129:
        for n, m, c, f, d in P(NONCE, MF, COUTS, FEES, DATA[:3]):
            yield {"v": 129, "nonce": n, "mf": m, "cout": c, "fees": f, "data": d}
    elif v == 144:
        for a, n, m, fee, i, r, (k, s) in P(ADDRS, NAMES, MONTHS, FEE, RCINS, REFUND, [(None, None), (K[3], None), (K[3], S[4])]):
            yield {"v": 144, "addrs": a, "names": n, "months": m, "fee": fee, "cin": i, "refund": r, "pk": k, "sig": s}
        yield {"v": 144, "addrs": [], "names": [], "months": 1, "fee": 1, "cin": _many(130), "refund": None, "pk": K[0], "sig": S[0]}
    elif v == 145:
        A2 = list(P(ADDRS, [ADDRS[0], ADDRS[1], ADDRS[3]])) if deep else [(ADDRS[0], ADDRS[0]), (ADDRS[1], ADDRS[0]), (ADDRS[0], ADDRS[2]), (ADDRS[2], ADDRS[1]), (ADDRS[3], ADDRS[3])]
        N2 = list(P(NAMES, [NAMES[0], NAMES[1], NAMES[3]])) if deep else [(NAMES[0], NAMES[0]), (NAMES[1], NAMES[0]), (NAMES[0], NAMES[2]), (NAMES[2], NAMES[1]), (NAMES[3], NAMES[3])]
        for b, (aa, ar), (na, nr), m, fee, i, r, s in P([1, 2 ** 32 - 1], A2, N2, [0, 24], FEE, RCINS, REFUND[:2], SIG):
            yield {"v": 145, "id": b, "aadd": aa, "arem": ar, "nadd": na, "nrem": nr, "months": m, "fee": fee, "cin": i, "refund": r, "sig": s}
        yield {"v": 145, "id": 0, "aadd": [], "arem": [], "nadd": [], "nrem": [], "months": 0, "fee": 0, "cin": [], "refund": None, "sig": None}
    elif v == 146:
        for a, b, ss, rs, n, fee, i, r in P([0, 1, 258], [0, 2, 2 ** 32 - 1], SIG, [None, S[5]], NAMES, FEE, RCINS, REFUND):
            yield {"v": 146, "sid": a, "ssig": ss, "rid": b, "rsig": rs, "names": n, "fee": fee, "cin": i, "refund": r}
    elif v == 208:
        for a, val, fee, i, r in P(["00" * 20, "ab" * 20, H[3][:40]], [0, 1, 10 ** 12 + 7], FEE, CINS, REFUND + [[5, COND[3]]]):
            yield {"v": 208, "addr": a, "value": val, "fee": fee, "cin": i, "refund": r}
        yield {"v": 208, "addr": "ab" * 20, "value": 1, "fee": 1, "cin": _many(130), "refund": None}
    elif v == 209:
        for a, val, fee, b, t in P([U[0], R.NILUH, [3, H[1]]], [0, 1, 10 ** 12 + 7], FEE, [H[0], "00" * 32], [H[1], "ff" * 32]):
            yield {"v": 209, "uh": a, "value": val, "fee": fee, "blockid": b, "txid": t}
    else:
        for k, s, fee, i, r in P([K[0], K[3], "00" * 32], SIG, FEE, CINS, REFUND + [[5, COND[3]]]):
            yield {"v": 210, "pk": k, "sig": s, "regfee": 10 ** 10, "fee": fee, "cin": i, "refund": r}
        yield {"v": 210, "pk": K[0], "sig": S[0], "regfee": 10 ** 10, "fee": 1, "cin": _many(130), "refund": None}
