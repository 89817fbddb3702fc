"""A plain unspent-output ledger with the explorer's JSON answers and the chain's validity rules.
Pure: built on the reference types only, it never touches the code under test."""
import copy
import hashlib

import ed25519

from mc.ref import txn as X
from mc.ref import types as R

UNIT = 10 ** 9
T0 = 1600000000
LOCK_TIME_MIN = 500000000
ZERO = R.ZERO32
MIN_FEE = {"standard": UNIT // 10, "testnet": UNIT // 10, "devnet": UNIT}


def hid(*parts):
    return R.blake(repr(parts).encode()).hex()


def reached(lock, height, time):
    return (height if lock < LOCK_TIME_MIN else time) >= lock


def locked(cond, height, time):
    while cond[0] == "lt":
        if not reached(cond[1], height, time):
            return True
        cond = cond[2]
    return False


# --- keys: private key i of a seed
class Key:
    def __init__(self, seed, i):
        self.sk = ed25519.SigningKey(R.blake(bytes(seed) + i.to_bytes(8, "little")))
        self.pk = self.sk.get_verifying_key().to_bytes().hex()
        self.uh = R.pk_uh(self.pk)
        self.text = R.uh_text(self.uh)

    def sign(self, digest_hex):
        return self.sk.sign(bytes.fromhex(digest_hex)).hex()


_keys = {}


def key(seed, i):
    k = (bytes(seed), i)
    if k not in _keys:
        _keys[k] = Key(seed, i)
    return _keys[k]


def verifies(pk, digest_hex, sig):
    if not sig or pk is None:
        return False
    try:
        ed25519.VerifyingKey(bytes.fromhex(pk)).verify(bytes.fromhex(sig), bytes.fromhex(digest_hex))
        return True
    except (ed25519.BadSignatureError, ValueError, AssertionError):
        return False


def secret_hash(secret_hex):
    return hashlib.sha256(bytes.fromhex(secret_hex)).hexdigest()


# --- 3Bot tariff
def month_fee(n):
    f = 10 * UNIT * n
    return f if n < 12 else (f * 7 // 10 if n < 24 else f // 2)


def bot_fee(t):
    if t["v"] == 144:
        return 90 * UNIT + month_fee(t["months"]) + 50 * UNIT * max(0, len(t["names"]) - 1)
    if t["v"] == 145:
        return month_fee(t["months"]) + 50 * UNIT * len(t["nadd"]) + (20 * UNIT if t["aadd"] or t["arem"] else 0)
    return 50 * UNIT * len(t["names"])


REG_FEE = 10 * UNIT


def fees_of(t):
    return list(t["fees"]) if "fees" in t else [t["fee"]]


def burned(t):
    """what a transaction pays besides outputs and miner fees"""
    v = t["v"]
    if v in (144, 145, 146):
        return bot_fee(t)
    if v == 208:
        return t["value"]
    return t["regfee"] if v == 210 else 0


def fulfilled(cond, ff, digest, height, time):
    """is the fulfillment valid for the condition? digest(extras) gives the hash to verify against. Returns None or a reason"""
    if cond[0] == "lt":
        if not reached(cond[1], height, time):
            return "locked until %d" % cond[1]
        return fulfilled(cond[2], ff, digest, height, time)
    if cond[0] == "ms":
        if ff[0] != "ms":
            return "no multi-signature fulfillment"
        left = [tuple(u) for u in cond[1]]
        for p, s in ff[1]:
            u = tuple(R.pk_uh(p)) if p else None
            if u not in left:
                return "signed by a key that is no (remaining) owner"
            left.remove(u)
            if not verifies(p, digest([["pk", p]]), s):
                return "a signature does not verify"
        if len(ff[1]) < cond[2]:
            return "%d of %d signatures" % (len(ff[1]), cond[2])
        return None
    if cond[0] == "as":
        if ff[0] != "as":
            return "no atomic swap fulfillment"
        if not ff[1]:
            return "unsigned"
        u = R.pk_uh(ff[1])
        sec = ff[3] if ff[3] and any(bytes.fromhex(ff[3])) else None
        x = [["pk", ff[1]]] + ([["raw", sec]] if sec else [])
        if not verifies(ff[1], digest(x), ff[2]):
            return "the signature does not verify"
        if sec:
            if u != cond[2]:
                return "redeemed by somebody else than the receiver"
            if secret_hash(sec) != cond[3]:
                return "wrong secret"
            return None
        if u != cond[1]:
            return "refunded by somebody else than the sender"
        if time < cond[4]:
            return "refunded too early"
        return None
    if ff[0] != "ss":
        return "no single signature fulfillment"
    if not ff[1] or not verifies(ff[1], digest([]), ff[2]):
        return "the signature is missing or does not verify"
    u = R.cond_uh(cond)
    if u != R.NILUH and R.pk_uh(ff[1]) != u:
        return "signed by a key that does not own the input"
    return None


class Ledger:
    def __init__(self, network="devnet", mint=None, time=T0, height=0):
        """the ledger starts with one empty block at the given height"""
        self.network = network
        self.blocks = {}
        self.txs = {}          # id -> {"t": spec, "height": None or n, "seq": k}
        self.outs = {}         # coin output id -> {"value", "cond", "by": txid, "i": index, "spent": None or txid}
        self.stakes = {}
        self.mints = [(0, mint or ["uh", R.NILUH])]
        self.bots = {}         # id -> {"names", "addrs", "pk", "exp"}
        self.erc20 = {}        # address text -> confirmations
        self.height = None
        self._block(height, time, [], [])

    # -- growth
    def _block(self, height, time, txids, payouts):
        prev = self.blocks.get(self.height)
        self.height, self.time = height, time
        self.blocks[height] = {"height": height, "time": time, "id": hid("block", height, time, txids), "parent": prev["id"] if prev else ZERO,
                               "txs": list(txids), "payouts": [[hid("payout", height, i), v, u] for i, (v, u) in enumerate(payouts)]}

    def tip(self):
        return self.blocks[self.height]

    def pool(self):
        return [i for i, r in self.txs.items() if r["height"] is None]

    def submit(self, t):
        """an unconfirmed transaction (assumed valid); returns its identifier"""
        txid = hid("tx", X.enc(t).hex())
        if txid in self.txs:
            return txid
        self.txs[txid] = {"t": copy.deepcopy(t), "height": None, "seq": len(self.txs), "ids": X.coin_ids(t)}
        for p, _ in t.get("cin", []):
            self.outs[p]["spent"] = txid
        for p, _ in t.get("bin", []):
            self.stakes[p]["spent"] = txid
        for i, o in enumerate(X.couts(t)):
            self.outs[self.txs[txid]["ids"][i]] = {"value": o[0], "cond": o[1], "by": txid, "i": i, "spent": None}
        for i, o in enumerate(t.get("bout", [])):
            self.stakes[X.stake_id(t, i)] = {"value": o[0], "cond": o[1], "by": txid, "i": i, "spent": None}
        return txid

    def mine(self, txids=None, dt=120, payouts=(), dh=1):
        """a new block with the given (default: all) pool transactions"""
        txids = self.pool() if txids is None else txids
        h = self.height + dh
        for i in txids:
            self.txs[i]["height"] = h
            t = self.txs[i]["t"]
            if t["v"] == 128:
                self.mints.append((h, t["mc"]))
        self._block(h, self.time + dt, txids, payouts)
        return self.height

    # -- shrinking: a chain reorganisation, a transaction that leaves the pool
    def undo(self, dt=60):
        """the last block is replaced by an empty one: its transactions are unconfirmed again (those without inputs from the pool stay so)"""
        b = self.tip()
        for i in b["txs"]:
            self.txs[i]["height"] = None
        self.mints = [m for m in self.mints if m[0] < b["height"] or m[0] == 0]
        del self.blocks[b["height"]]
        self.height, self.time = max(self.blocks), self.blocks[max(self.blocks)]["time"]
        self._block(b["height"], self.time + dt, [], [])
        return self.height

    def drop(self, txid):
        """an unconfirmed transaction disappears, together with those that build on it"""
        r = self.txs[txid]
        assert r["height"] is None
        t = r["t"]
        for i in list(r["ids"]):
            o = self.outs.get(i)
            if o and o["spent"]:
                self.drop(o["spent"])
        sids = [X.stake_id(t, i) for i in range(len(t.get("bout", [])))]
        for i in sids:
            o = self.stakes.get(i)
            if o and o["spent"]:
                self.drop(o["spent"])
        for p, _ in t.get("cin", []):
            self.outs[p]["spent"] = None
        for p, _ in t.get("bin", []):
            self.stakes[p]["spent"] = None
        for i in r["ids"]:
            del self.outs[i]
        for i in sids:
            del self.stakes[i]
        del self.txs[txid]

    def give(self, outs, mine=True, tag=0):
        """coins from nowhere, as in a genesis block: a transaction without inputs"""
        t = {"v": 1, "cin": [], "cout": [list(o) for o in outs], "bin": [], "bout": [], "fees": [], "data": "%08x" % (tag or len(self.txs) + 1)}
        i = self.submit(t)
        if mine:
            self.mine()
        return list(self.txs[i]["ids"])

    def mint_condition(self, height=None):
        c = None
        for h, m in self.mints:
            if height is None or h <= height:
                c = m
        return c

    # -- the plain view of an address
    def confirmed(self, txid):
        return self.txs[txid]["height"] is not None

    def view(self, uh, height=None, time=None):
        """buckets of an address: {bucket: {output id: value}}"""
        height = self.height if height is None else height
        time = self.time if time is None else time
        v = {k: {} for k in ("available", "locked", "unconfirmed", "unconfirmed_locked", "spent", "unconfirmed_spent")}
        for i, o in self.outs.items():
            if R.cond_uh(o["cond"]) != uh:
                continue
            if o["spent"] is not None:
                b = "spent" if self.confirmed(o["spent"]) else "unconfirmed_spent"
            else:
                l = locked(o["cond"], height, time)
                b = ("locked" if l else "available") if self.confirmed(o["by"]) else ("unconfirmed_locked" if l else "unconfirmed")
            v[b][i] = o["value"]
        return v

    # -- validity of a document posted to the network
    def problems(self, t, min_fee=None):
        """why the network would not accept the transaction, or what is wrong about its amounts"""
        out = []
        v = t["v"]
        h, tm = self.height, self.time
        min_fee = MIN_FEE[self.network] if min_fee is None else min_fee
        if v not in X.FMT or v in (0, 209):
            return ["version %s is not for users" % v]
        total = 0
        seen = set()
        for i, (p, ff) in enumerate(t.get("cin", [])):
            o = self.outs.get(p)
            if o is None:
                out.append("input %d: unknown output" % i)
                continue
            if p in seen:
                out.append("input %d: spent twice by the same transaction" % i)
            seen.add(p)
            if o["spent"] is not None:
                out.append("input %d: already spent" % i)
            total += o["value"]
            why = fulfilled(o["cond"], ff, lambda x, i=i: X.digest(t, [["i", i]] + x), h, tm)
            if why:
                out.append("input %d: %s" % (i, why))
        if t.get("bin"):
            out.append("block stakes")
        if len(t.get("cin", [])) > 99:
            out.append("more than 99 inputs")
        fees = fees_of(t)
        if sum(fees) < min_fee:
            out.append("miner fee %d below the minimum" % sum(fees))
        if any(f <= 0 for f in fees):
            out.append("miner fee without value")
        co = X.couts(t)
        if any(o[0] <= 0 for o in co):
            out.append("an output without value")
        if v not in (128, 129):
            if not t["cin"]:
                out.append("no inputs")
            want = sum(o[0] for o in co) + sum(fees) + burned(t)
            if total != want:
                out.append("inputs %d but outputs and fees %d" % (total, want))
        else:
            why = fulfilled(self.mint_condition(), t["mf"], lambda x: X.digest(t, x), h, tm)
            if why:
                out.append("mint condition: " + why)
            if v == 129 and not co:
                out.append("no coins are created")
        if len(bytes.fromhex(t.get("data", ""))) > 83:
            out.append("too much data")
        if v == 144 and not verifies(t["pk"], X.digest(t, [["raw", X.SENDER.hex()]]), t["sig"]):
            out.append("the registration is not signed by its key")
        if v == 145 and (t["id"] not in self.bots or not verifies(self.bots[t["id"]]["pk"], X.digest(t, [["raw", X.SENDER.hex()]]), t["sig"])):
            out.append("the update is not signed by the 3Bot")
        if v == 146:
            for b, role, s, who in ((t["sid"], X.SENDER, t["ssig"], "sender"), (t["rid"], X.RECEIVER, t["rsig"], "receiver")):
                if b not in self.bots or not verifies(self.bots[b]["pk"], X.digest(t, [["raw", role.hex()]]), s):
                    out.append("the transfer is not signed by the " + who)
        if v == 208 and t["value"] <= 0:
            out.append("nothing is sent")
        if v == 210:
            if t["regfee"] != REG_FEE:
                out.append("registration fee %d" % t["regfee"])
            if not verifies(t["pk"], X.digest(t, [["raw", X.REGISTRATION.hex()]]), t["sig"]):
                out.append("the registration is not signed by its key")
        return out

    # -- explorer answers
    def etx(self, txid):
        r = self.txs[txid]
        t = r["t"]
        conf = r["height"] is not None
        co = X.couts(t)
        def parents(k, store):
            ps = []
            for p, _ in t.get(k, []):
                o = store[p]
                ps.append(dict(R.out_js([o["value"], o["cond"]]), unlockhash=R.uh_text(R.cond_uh(o["cond"]))))
            return ps or None
        n = None
        return {"id": txid, "height": r["height"] if conf else 0, "parent": self.blocks[r["height"]]["id"] if conf else ZERO,
                "rawtransaction": X.chain_js(t), "timestamp": self.blocks[r["height"]]["time"] if conf else 0, "order": 0,
                "coininputoutputs": parents("cin", self.outs),
                "coinoutputids": list(r["ids"]) or n,
                "coinoutputunlockhashes": [R.uh_text(R.cond_uh(o[1])) for o in co] or n,
                "blockstakeinputoutputs": parents("bin", self.stakes),
                "blockstakeoutputids": [X.stake_id(t, i) for i in range(len(t.get("bout", [])))] or n,
                "blockstakeunlockhashes": [R.uh_text(R.cond_uh(o[1])) for o in t.get("bout", [])] or n,
                "unconfirmed": not conf}

    def eblock(self, b):
        return {"minerpayoutids": [p[0] for p in b["payouts"]] or None, "transactions": [self.etx(i) for i in b["txs"]],
                "rawblock": {"parentid": b["parent"], "timestamp": b["time"], "pobsindexes": {"BlockHeight": 0, "TransactionIndex": 0, "OutputIndex": 0},
                             "minerpayouts": [{"value": str(p[1]), "unlockhash": R.uh_text(p[2])} for p in b["payouts"]] or None,
                             "transactions": [X.chain_js(self.txs[i]["t"]) for i in b["txs"]]},
                "blockid": b["id"], "height": b["height"], "difficulty": "1", "estimatedactivebs": "1", "maturitytimestamp": 0, "target": [0] * 32,
                "totalcoins": "0", "arbitrarydatatotalsize": 0, "minerpayoutcount": len(b["payouts"]), "transactioncount": len(b["txs"])}

    EMPTY_TX = {"id": ZERO, "height": 0, "parent": ZERO, "rawtransaction": {"version": 0, "data": {"coininputs": [], "minerfees": None}},
                "coininputoutputs": None, "coinoutputids": None, "coinoutputunlockhashes": None, "blockstakeinputoutputs": None,
                "blockstakeoutputids": None, "blockstakeunlockhashes": None, "unconfirmed": False}
    EMPTY_BLOCK = {"minerpayoutids": None, "transactions": None, "rawblock": {"parentid": ZERO, "timestamp": 0, "minerpayouts": None, "transactions": None},
                   "blockid": ZERO, "height": 0}

    def answer(self, hashtype, **kw):
        d = {"hashtype": hashtype, "block": self.EMPTY_BLOCK, "blocks": None, "transaction": self.EMPTY_TX, "transactions": None,
             "multisigaddresses": None, "unconfirmed": False}
        d.update(kw)
        return d

    def touching(self, uh):
        out = []
        for txid, r in self.txs.items():
            t = r["t"]
            us = [R.cond_uh(o[1]) for o in X.couts(t)] + [R.cond_uh(self.outs[p]["cond"]) for p, _ in t.get("cin", [])]
            us += [R.cond_uh(o[1]) for o in t.get("bout", [])] + [R.cond_uh(self.stakes[p]["cond"]) for p, _ in t.get("bin", [])]
            if t["v"] == 128:
                us.append(R.cond_uh(t["mc"]))
            if t["v"] == 209:
                us.append(t["uh"])
            if t["v"] == 210:
                us.append(R.pk_uh(t["pk"]))
            if uh in us:
                out.append(txid)
        return out

    def multisigs(self, uh):
        """multi-signature addresses the address co-owns"""
        out = []
        for txid, r in self.txs.items():
            t = r["t"]
            cs = [o[1] for o in X.couts(t)] + [o[1] for o in t.get("bout", [])] + ([t["mc"]] if t["v"] == 128 else [])
            for c in cs:
                c = R.unwrap(c)
                if c[0] == "ms" and uh in c[1]:
                    u = R.uh_text(R.cond_uh(c))
                    if u not in out:
                        out.append(u)
        return out

    def lookup(self, endpoint, order=None):
        """answer for a GET, or None when there is no content; order: permutation key of transaction lists"""
        parts = endpoint.strip("/").split("/")
        if parts == ["explorer"]:
            b = self.tip()
            return {"blockid": b["id"], "height": b["height"], "difficulty": "1"}
        if parts == ["explorer", "constants"]:
            return {"chaininfo": {"Name": "tfchain", "NetworkName": self.network, "CoinUnit": "TFT", "ChainVersion": "1.3.0", "DefaultTransactionVersion": 1}}
        if parts[:2] == ["explorer", "blocks"]:
            b = self.blocks.get(int(parts[2]))
            return None if b is None else {"block": self.eblock(b)}
        if parts[:2] == ["explorer", "mintcondition"]:
            return {"mintcondition": R.cond_js(self.mint_condition(int(parts[2]) if len(parts) > 2 else None))}
        if parts[:2] == ["explorer", "3bot"] or parts[:3] == ["explorer", "whois", "3bot"]:
            k = parts[-1]
            for i, b in self.bots.items():
                hit = k in b["names"] if parts[1] == "whois" else k in (str(i), R.pk_text(b["pk"]))
                if hit:
                    return {"record": {"id": i, "addresses": [X.netaddr_js(a) for a in b["addrs"]] or None, "names": list(b["names"]) or None,
                                       "publickey": R.pk_text(b["pk"]), "expiration": b["exp"]}}
            return None
        if parts[:2] == ["explorer", "hashes"]:
            h = parts[2]
            if len(h) == 78:
                u = X.uh_of(h)
                txs = self.touching(u)
                ms = self.multisigs(u)
                pays = [self.eblock(b) for b in self.blocks.values() if any(p[2] == u for p in b["payouts"])]
                if not txs and not ms and not pays and h not in self.erc20:
                    return None
                txs = order(txs) if order else txs
                a = self.answer("unlockhash", blocks=pays or None, transactions=[self.etx(i) for i in txs] or None, multisigaddresses=ms or None,
                                unconfirmed=any(not self.confirmed(i) for i in txs))
                if h in self.erc20:
                    a["erc20info"] = {"tftaddress": h, "erc20address": "0x" + R.erc20_of(u), "confirmations": self.erc20[h]}
                return a
            for b in self.blocks.values():
                if b["id"] == h:
                    return self.answer("blockid", block=self.eblock(b))
            if h in self.txs:
                return self.answer("transactionid", transaction=self.etx(h), unconfirmed=not self.confirmed(h))
            for kind, store in (("coinoutputid", self.outs), ("blockstakeoutputid", self.stakes)):
                if h in store:
                    ids = [store[h]["by"]] + ([store[h]["spent"]] if store[h]["spent"] else [])
                    ids = order(ids) if order else ids
                    return self.answer(kind, transactions=[self.etx(i) for i in ids], unconfirmed=any(not self.confirmed(i) for i in ids))
            return None
        raise AssertionError("endpoint %s is not known" % endpoint)
