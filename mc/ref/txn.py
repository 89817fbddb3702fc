"""Independent reference of the TFChain transactions: binary encoding, signature digests, identifiers, JSON.

A transaction spec is a dict with "v" (version; 0 is legacy) and, per version,
  0,1 : cin, cout, bin, bout, fees, data
  128 : nonce, mf (fulfillment), mc (new condition), fees, data
  129 : nonce, mf, cout, fees, data
  144 : addrs, names, months, fee, cin, refund, pk, sig
  145 : id, aadd, arem, nadd, nrem, months, fee, cin, refund, sig
  146 : sid, ssig, rid, rsig, names, fee, cin, refund
  208 : addr, value, fee, cin, refund
  209 : uh, value, fee, blockid, txid
  210 : pk, sig, regfee, fee, cin, refund
(all parts as in mc.ref.types; fee is a number, refund an output or None, nonce/data/addr/blockid/txid hex, sig hex or None).
extras of a digest: ["i", n] position, ["pk", hex] public key, ["raw", hex] secret or role.
"""
import base64

from mc.ref import types as R

SPEC = {128: b"minter defin tx\0", 129: b"coin mint tx\0\0\0\0", 144: b"bot register tx\0", 145: b"bot recupdate tx", 146: b"bot nametrans tx",
        208: b"erc20 convert tx", 209: b"erc20 coingen tx", 210: b"erc20 addrreg tx"}
SENDER, RECEIVER, REGISTRATION = b"sender", b"receiver", b"registration"
FMT = {0: "sia", 1: "sia", 128: "sia", 129: "sia", 144: "riv", 145: "riv", 146: "riv", 208: "riv", 209: "riv", 210: "riv"}
VERSIONS = sorted(FMT)


def hx(s):
    return bytes.fromhex(s or "")


def lst(fmt, items):
    return R.ln(fmt, len(items)) + b"".join(items)


def fees_enc(fmt, fees):
    return lst(fmt, [R.amount(fmt, n) for n in fees])


def name_enc(n):
    return R.sl("riv", n.encode())


def opt(refund):
    return b"\x00" if refund is None else b"\x01" + R.out_enc("riv", refund)


def ins(fmt, t, k="cin"):
    return lst(fmt, [R.in_enc(fmt, i) for i in t[k]])


def parents(fmt, t, k="cin"):
    return i64s(fmt, len(t[k])) + b"".join(hx(i[0]) for i in t[k])


def i64s(fmt, n):
    # "encode the length" as a plain integer: 8 bytes in both encodings
    return R.i64(n)


def data_enc(t):
    """the part of a transaction after its version byte"""
    v = t["v"]
    f = FMT[v]
    if v == 1:
        return (ins(f, t) + lst(f, [R.out_enc(f, o) for o in t["cout"]]) + ins(f, t, "bin") + lst(f, [R.out_enc(f, o) for o in t["bout"]])
                + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"])))
    if v == 0:
        r = b""
        for ik, ok in (("cin", "cout"), ("bin", "bout")):
            r += R.i64(len(t[ik]))
            for p, ff in t[ik]:
                r += hx(p) + b"\x01" + R.sl(f, R.pk_enc(f, ff[1])) + R.sl(f, R.sig_b(ff[2]))
            r += R.i64(len(t[ok]))
            for n, c in t[ok]:
                r += R.amount(f, n) + R.uh_enc(f, R.cond_uh(c))
        return r + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"]))
    if v == 128:
        return hx(t["nonce"]) + R.ff_enc(f, t["mf"]) + R.cond_enc(f, t["mc"]) + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"]))
    if v == 129:
        return hx(t["nonce"]) + R.ff_enc(f, t["mf"]) + lst(f, [R.out_enc(f, o) for o in t["cout"]]) + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"]))
    fee = R.amount(f, t["fee"])
    if v == 144:
        flag = t["months"] | (32 if t["addrs"] else 0) | (64 if t["names"] else 0) | (128 if t["refund"] is not None else 0)
        return (bytes([flag, len(t["addrs"]) | len(t["names"]) << 4]) + b"".join(map(R.netaddr_enc, t["addrs"])) + b"".join(map(name_enc, t["names"]))
                + fee + ins(f, t) + (R.out_enc(f, t["refund"]) if t["refund"] is not None else b"") + R.pk_enc(f, t["pk"]) + R.sig_b(t["sig"]))
    if v == 145:
        ha, hn = bool(t["aadd"] or t["arem"]), bool(t["nadd"] or t["nrem"])
        flag = t["months"] | (32 if ha else 0) | (64 if hn else 0) | (128 if t["refund"] is not None else 0)
        r = t["id"].to_bytes(4, "little") + bytes([flag])
        if ha:
            r += bytes([len(t["aadd"]) | len(t["arem"]) << 4]) + b"".join(map(R.netaddr_enc, t["aadd"] + t["arem"]))
        if hn:
            r += bytes([len(t["nadd"]) | len(t["nrem"]) << 4]) + b"".join(map(name_enc, t["nadd"] + t["nrem"]))
        return r + fee + ins(f, t) + (R.out_enc(f, t["refund"]) if t["refund"] is not None else b"") + R.sl(f, R.sig_b(t["sig"]))
    if v == 146:
        return (t["sid"].to_bytes(4, "little") + R.sl(f, R.sig_b(t["ssig"])) + t["rid"].to_bytes(4, "little") + R.sl(f, R.sig_b(t["rsig"]))
                + bytes([len(t["names"]) | (16 if t["refund"] is not None else 0)]) + b"".join(map(name_enc, t["names"]))
                + fee + ins(f, t) + (R.out_enc(f, t["refund"]) if t["refund"] is not None else b""))
    if v == 208:
        return hx(t["addr"]) + R.amount(f, t["value"]) + fee + ins(f, t) + opt(t["refund"])
    if v == 209:
        return R.uh_enc(f, t["uh"]) + R.amount(f, t["value"]) + fee + hx(t["blockid"]) + hx(t["txid"])
    return R.pk_enc(f, t["pk"]) + R.sl(f, R.sig_b(t["sig"])) + R.amount(f, t["regfee"]) + fee + ins(f, t) + opt(t["refund"])


def enc(t):
    if t["v"] == 1:
        return b"\x01" + R.sl("sia", data_enc(t))
    return bytes([t["v"]]) + data_enc(t)


def _id(t, spec, i):
    core = SPEC[t["v"]] + data_enc(t) if t["v"] in SPEC else enc(t)
    return R.blake(spec + core + R.i64(i)).hex()


def couts(t):
    v = t["v"]
    if v in (0, 1, 129):
        return t["cout"]
    if v in (128,):
        return []
    if v == 209:
        return [[t["value"], ["uh", t["uh"]]]]
    return [] if t["refund"] is None else [t["refund"]]


def coin_id(t, i):
    return _id(t, b"coin output\0\0\0\0" + (b"" if t["v"] == 0 else b"\0"), i)


def coin_ids(t):
    core = SPEC[t["v"]] + data_enc(t) if t["v"] in SPEC else enc(t)
    pre = b"coin output\0\0\0\0" + (b"" if t["v"] == 0 else b"\0") + core
    return [R.blake(pre + R.i64(i)).hex() for i in range(len(couts(t)))]


def stake_id(t, i):
    return _id(t, b"blstake output\0" + (b"" if t["v"] == 0 else b"\0"), i)


def extra_enc(fmt, e):
    if e[0] == "i":
        return R.i64(e[1])
    if e[0] == "pk":
        return R.pk_enc(fmt, e[1])
    return hx(e[1])


def digest_input(t, extras=()):
    v = t["v"]
    f = FMT[v]
    x = b"".join(extra_enc(f, e) for e in extras)
    if v == 0:
        r = x
        for ik, ok in (("cin", "cout"), ("bin", "bout")):
            for p, ff in t[ik]:
                r += hx(p) + R.uh_enc(f, R.pk_uh(ff[1]))
            r += R.i64(len(t[ok]))
            for n, c in t[ok]:
                r += R.amount(f, n) + R.uh_enc(f, R.cond_uh(c))
        return r + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"]))
    if v == 1:
        return (b"\x01" + x + parents(f, t) + lst(f, [R.out_enc(f, o) for o in t["cout"]]) + parents(f, t, "bin")
                + lst(f, [R.out_enc(f, o) for o in t["bout"]]) + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"])))
    h = bytes([v]) + SPEC[v]
    if v == 128:
        return h + hx(t["nonce"]) + x + R.cond_enc(f, t["mc"]) + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"]))
    if v == 129:
        return h + hx(t["nonce"]) + x + lst(f, [R.out_enc(f, o) for o in t["cout"]]) + fees_enc(f, t["fees"]) + R.sl(f, hx(t["data"]))
    fee = R.amount(f, t["fee"])
    if v == 209:
        return None     # nobody signs it
    tail = parents(f, t) + fee + opt(t["refund"])
    if v == 144:
        return (h + x + lst(f, list(map(R.netaddr_enc, t["addrs"]))) + lst(f, list(map(name_enc, t["names"]))) + bytes([t["months"]]) + tail
                + R.pk_enc(f, t["pk"]))
    if v == 145:
        return (h + t["id"].to_bytes(4, "little") + x + lst(f, list(map(R.netaddr_enc, t["aadd"]))) + lst(f, list(map(R.netaddr_enc, t["arem"])))
                + lst(f, list(map(name_enc, t["nadd"]))) + lst(f, list(map(name_enc, t["nrem"]))) + bytes([t["months"]]) + tail)
    if v == 146:
        return h + t["sid"].to_bytes(4, "little") + t["rid"].to_bytes(4, "little") + x + lst(f, list(map(name_enc, t["names"]))) + tail
    if v == 208:
        return h + hx(t["addr"]) + R.amount(f, t["value"]) + x + tail
    return h + R.pk_enc(f, t["pk"]) + x + parents(f, t) + R.amount(f, t["regfee"]) + fee + opt(t["refund"])


def digest(t, extras=()):
    return R.blake(digest_input(t, extras)).hex()


# --- JSON
def b64(h):
    return base64.b64encode(hx(h)).decode()


def netaddr_js(a):
    import ipaddress
    if a[0] == "h":
        return a[1]
    return str(ipaddress.ip_address(hx(a[1])))


def js(t):
    """The JSON form the code writes (version 0 has none of its own)."""
    v = t["v"]
    if v == 1:
        d = {"coininputs": [R.in_js(i) for i in t["cin"]], "coinoutputs": [R.out_js(o) for o in t["cout"]],
             "blockstakeinputs": [R.in_js(i) for i in t["bin"]], "blockstakeoutputs": [R.out_js(o) for o in t["bout"]],
             "minerfees": [str(n) for n in t["fees"]], "arbitrarydata": b64(t["data"])}
        d = {k: x for k, x in d.items() if x}
    elif v in (128, 129):
        d = {"nonce": b64(t["nonce"]), "mintfulfillment": R.ff_js(t["mf"]), "minerfees": [str(n) for n in t["fees"]], "arbitrarydata": b64(t["data"])}
        if v == 128:
            d["mintcondition"] = R.cond_js(t["mc"])
        else:
            d["coinoutputs"] = [R.out_js(o) for o in t["cout"]]
    else:
        d = {"txfee": str(t["fee"])}
        if v != 209:
            d["coininputs"] = [R.in_js(i) for i in t["cin"]]
            if t["refund"] is not None:
                d["refundcoinoutput"] = R.out_js(t["refund"])
        if v == 144:
            d.update(nrofmonths=t["months"], identification={"publickey": R.pk_text(t["pk"]), "signature": t["sig"] or ""})
            if t["addrs"]:
                d["addresses"] = [netaddr_js(a) for a in t["addrs"]]
            if t["names"]:
                d["names"] = list(t["names"])
        elif v == 145:
            d.update(id=t["id"], nrofmonths=t["months"], signature=t["sig"] or "")
            for k, ks in (("addresses", (("add", "aadd"), ("remove", "arem"))), ("names", (("add", "nadd"), ("remove", "nrem")))):
                o = {jk: ([netaddr_js(a) for a in t[sk]] if k == "addresses" else list(t[sk])) for jk, sk in ks if t[sk]}
                if o:
                    d[k] = o
        elif v == 146:
            d.update(sender={"id": t["sid"], "signature": t["ssig"] or ""}, receiver={"id": t["rid"], "signature": t["rsig"] or ""}, names=list(t["names"]))
        elif v == 208:
            d.update(address="0x" + t["addr"], value=str(t["value"]))
        elif v == 209:
            d.update(address=R.uh_text(t["uh"]), value=str(t["value"]), blockid="0x" + t["blockid"], txid="0x" + t["txid"])
        else:
            u = R.pk_uh(t["pk"])
            d.update(pubkey=R.pk_text(t["pk"]), tftaddress=R.uh_text(u), erc20address="0x" + R.erc20_of(u), signature=t["sig"] or "", regfee=str(t["regfee"]))
    o = {"version": v}
    if d:
        o["data"] = d
    return o


def chain_js(t):
    """The JSON a TFChain daemon gives for the transaction (version 0 in its own form)."""
    if t["v"] != 0:
        return js(t)
    def inp(i):
        return {"parentid": i[0], "unlocker": {"type": 1, "condition": {"publickey": R.pk_text(i[1][1])}, "fulfillment": {"signature": i[1][2] or ""}}}
    def out(o):
        return {"value": str(o[0]), "unlockhash": R.uh_text(R.cond_uh(o[1]))}
    return {"version": 0, "data": {"coininputs": [inp(i) for i in t["cin"]], "coinoutputs": [out(o) for o in t["cout"]],
                                   "blockstakeinputs": [inp(i) for i in t["bin"]], "blockstakeoutputs": [out(o) for o in t["bout"]],
                                   "minerfees": [str(n) for n in t["fees"]], "arbitrarydata": b64(t["data"])}}


# --- reading a daemon's JSON back into a spec (for the recorded transactions)
def uh_of(text):
    b = bytes.fromhex(text)
    return [b[0], b[1:33].hex()]


def pk_of(text):
    h = text.split(":", 1)[1]
    return h


def cond_of(o):
    ty = o.get("type", 0)
    d = o.get("data", {})
    if ty == 0:
        return ["nil"]
    if ty == 1:
        return ["uh", uh_of(d["unlockhash"])]
    if ty == 2:
        return ["as", uh_of(d["sender"]), uh_of(d["receiver"]), d["hashedsecret"], d["timelock"]]
    if ty == 3:
        return ["lt", d["locktime"], cond_of(d["condition"])]
    return ["ms", [uh_of(u) for u in d["unlockhashes"]], d["minimumsignaturecount"]]


def ff_of(o):
    d = o["data"]
    if o["type"] == 3:
        return ["ms", [[pk_of(p["publickey"]), p["signature"] or None] for p in d["pairs"]]]
    r = [pk_of(d["publickey"]), d["signature"] or None]
    return ["ss"] + r if o["type"] == 1 else ["as"] + r + [d.get("secret")]


def of_json(o):
    v, d = o["version"], o.get("data") or {}
    g = lambda k: d.get(k) or []
    t = {"v": v}
    if v == 0:
        for k, s in (("coininputs", "cin"), ("blockstakeinputs", "bin")):
            t[s] = [[i["parentid"], ["ss", pk_of(i["unlocker"]["condition"]["publickey"]), i["unlocker"]["fulfillment"]["signature"]]] for i in g(k)]
        for k, s in (("coinoutputs", "cout"), ("blockstakeoutputs", "bout")):
            t[s] = [[int(i["value"]), ["uh", uh_of(i["unlockhash"])]] for i in g(k)]
    elif v in (1, 129):
        t["cout"] = [[int(i["value"]), cond_of(i["condition"])] for i in g("coinoutputs")]
        if v == 1:
            t["cin"] = [[i["parentid"], ff_of(i["fulfillment"])] for i in g("coininputs")]
            t["bin"] = [[i["parentid"], ff_of(i["fulfillment"])] for i in g("blockstakeinputs")]
            t["bout"] = [[int(i["value"]), cond_of(i["condition"])] for i in g("blockstakeoutputs")]
    if v in (0, 1, 128, 129):
        t["fees"] = [int(n) for n in g("minerfees")]
        t["data"] = base64.b64decode(d.get("arbitrarydata") or "").hex()
        if v in (128, 129):
            t["nonce"] = base64.b64decode(d["nonce"]).hex()
            t["mf"] = ff_of(d["mintfulfillment"])
            if v == 128:
                t["mc"] = cond_of(d["mintcondition"])
        return t
    t["fee"] = int(d["txfee"])
    if v != 209:
        t["cin"] = [[i["parentid"], ff_of(i["fulfillment"])] for i in g("coininputs")]
        r = d.get("refundcoinoutput")
        t["refund"] = None if r is None else [int(r["value"]), cond_of(r["condition"])]

    def na(s):
        import ipaddress
        try:
            p = ipaddress.ip_address(s).packed
        except ValueError:
            return ["h", s]
        return ["4" if len(p) == 4 else "6", p.hex()]
    if v == 144:
        i = d["identification"]
        t.update(addrs=[na(a) for a in g("addresses")], names=g("names"), months=d["nrofmonths"], pk=pk_of(i["publickey"]), sig=i["signature"])
    elif v == 145:
        a, n = d.get("addresses") or {}, d.get("names") or {}
        t.update(id=d["id"], aadd=[na(x) for x in a.get("add") or []], arem=[na(x) for x in a.get("remove") or []], nadd=n.get("add") or [],
                 nrem=n.get("remove") or [], months=d["nrofmonths"], sig=d["signature"])
    elif v == 146:
        t.update(sid=d["sender"]["id"], ssig=d["sender"]["signature"], rid=d["receiver"]["id"], rsig=d["receiver"]["signature"], names=g("names"))
    elif v == 208:
        t.update(addr=d["address"][2:], value=int(d["value"]))
    elif v == 209:
        t.update(uh=uh_of(d["address"]), value=int(d["value"]), blockid=d["blockid"][2:], txid=d["txid"][2:])
    else:
        t.update(pk=pk_of(d["pubkey"]), sig=d["signature"], regfee=int(d["regfee"]))
    return t


# --- who signs what: list of (label, extras, public key, signature) of every signature present
def signatures(t):
    out = []
    for k in ("cin", "bin"):
        for i, (_, ff) in enumerate(t.get(k, [])):
            if ff[0] == "ms":
                out += [(k, [["i", i], ["pk", p]], p, s) for p, s in ff[1]]
            elif ff[0] == "ss":
                out.append((k, [["i", i]], ff[1], ff[2]))
            else:
                sec = [["raw", ff[3]]] if ff[3] and any(hx(ff[3])) else []
                out.append((k, [["i", i], ["pk", ff[1]]] + sec, ff[1], ff[2]))
    if "mf" in t:
        ff = t["mf"]
        if ff[0] == "ms":
            out += [("mint", [["pk", p]], p, s) for p, s in ff[1]]
        else:
            out.append(("mint", [], ff[1], ff[2]))
    return out
