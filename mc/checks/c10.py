"""C10: the seed determines the keys, and no key is ever skipped or repeated."""
import hashlib
import itertools

from mc import build as B
from mc import world as W
from mc.core import Succ, bad, expect, family, raises, same
from mc.ref import ledger as L
from mc.ref import types as R

import tfchain.errors
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainWallet import TFChainWallet

PROPERTY = "C10"
LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of used/unused patterns of the first keys, and breadth-first search over histories of generating addresses, observing, "
             "use by others and loading, with the real wallet on a reference ledger")
RULE = ("all used/unused patterns of the first keys (as recipient, as spender, as co-owner of a multi-signature only) for scan windows 0-4 and the default and initial key counts 1-3; "
        "all histories of address generation, observation, use of a key by others and reloading up to a depth; seeds as bytes, bytearray and mnemonic; mnemonics with "
        "replaced words. Non-trivial always")
ASSUMPTIONS = ["the key window is judged when a wallet is loaded (while unused keys are in reserve no rescan is done, documented in the code)",
               "a key counts as used when the explorer has any content for its address"]
N = 40
SEED = W.seed(7)
KEYS = [L.key(SEED, i) for i in range(N)]
INDEX = {k.text: i for i, k in enumerate(KEYS)}
X = W.K(3, 0)


def ledger(used):
    l = L.Ledger("devnet")
    outs = []
    for i, kind in used:
        k = KEYS[i]
        if kind == "r":
            outs.append([5 + i, ["uh", k.uh]])
        elif kind == "m":
            outs.append([5 + i, ["ms", [k.uh, X.uh], 2]])
        elif kind == "l":
            outs.append([5 + i, ["lt", 99, ["uh", k.uh]]])
    if outs:
        l.give(outs)
    return l


def use(l, i, mine):
    l.give([[5, ["uh", KEYS[i].uh]]], mine=mine)


def used_of(l):
    return {i for i in range(N) if l.touching(KEYS[i].uh) or l.multisigs(KEYS[i].uh)}


def load(l, count, scan, seed=SEED):
    return TFChainWallet(seed=seed, key_count=count, key_scan_count=scan, client=W.client(l))


def must(used, count, scan):
    """indices a freshly loaded wallet has to expose, initial ones included"""
    window = 3 if scan == -1 else scan
    exposed, last = set(range(max(1, count))), max(1, count) - 1
    while True:
        nxt = [i for i in used if last < i <= last + window]
        if not nxt:
            return exposed
        exposed |= set(nxt)
        last = max(nxt)


def indices(addrs):
    out = []
    for a in addrs:
        a = str(a)
        expect(a in INDEX, "an address which is not of the sequence: {}", a)
        out.append(INDEX[a])
    expect(len(set(out)) == len(out), "an address is listed twice")
    expect(0 in out, "the first key is missing")
    return out


def keys_ok(w, idx):
    h = hashlib.sha256(b"c10").hexdigest()
    for i in idx:
        for arg in (KEYS[i].text, B.uh(KEYS[i].uh)):
            p = w.key_pair_get(arg)
            same(str(p.public_key), R.pk_text(KEYS[i].pk), "public key %d" % i)
            same(str(p.unlockhash), KEYS[i].text, "address of key %d" % i)
        from tfchain.types.PrimitiveTypes import Hash
        s = p.sign(Hash(value=h) if i % 2 else h)
        expect(L.verifies(KEYS[i].pk, h, bytes(s).hex() if not isinstance(s, str) else s), "signature of key {} does not verify", i)
    same(str(w.address), KEYS[0].text, "primary address")
    for k in (X.text, KEYS[N - 1].text, R.uh_text(R.cond_uh(["ms", [KEYS[0].uh, X.uh], 2]))):
        raises(KeyError, w.key_pair_get, k)


@family
def loading(case):
    """load a wallet with the given used keys, then generate addresses"""
    used, count, scan, fresh = case
    l = ledger(used)
    u = used_of(l)
    w = load(l, count, scan)
    same(bytes(w.seed), SEED, "seed")
    n = w.key_count
    want = must(u, count, scan)
    exposed = indices(w.addresses)
    miss = want - set(exposed)
    expect(not miss, "used keys {} are not found, exposed {}", sorted(miss), exposed)
    more = set(exposed) - want
    expect(more <= u, "keys {} are exposed although unused", sorted(more - u))
    same(indices(w.addresses), exposed, "addresses when asked again")
    keys_ok(w, exposed)
    if fresh:
        for j in range(fresh):
            known = set(exposed)
            a = str(w.address_new()) if j % 2 == 0 else str(w.public_key_new().unlockhash)
            i = indices([KEYS[0].text, a] if a != KEYS[0].text else [a, a])[1]
            expect(i not in known, "address {} handed out again", i)
            skipped = set(range(i)) - known
            expect(skipped <= u - want, "fresh address {} but {} not yet exposed", i, sorted(skipped))
            exposed = indices(w.addresses)
            expect(i in exposed and known <= set(exposed), "addresses were lost")
            expect(set(exposed) - known - {i} <= u, "unused keys exposed")
        keys_ok(w, exposed[-3:])
    bal = w.balance
    have = sum(o["value"] for o in l.outs.values() for i in exposed if R.cond_uh(o["cond"]) == KEYS[i].uh)
    same(B.nano(bal.available) + B.nano(bal.locked), have, "balance of the exposed addresses")
    return [sorted(exposed)[-1] + 1 - len(exposed), len(want), n]


@family
def history(case):
    """[count, scan, actions...]: new / addresses / balance / use / reload"""
    count, scan, acts = case[0], case[1], case[2:]
    l = ledger([[0, "r"]])
    w = load(l, count, scan)
    known = set(range(max(1, count)))         # certainly exposed
    seen = None
    for n, a in enumerate(acts):
        u = used_of(l)
        if a == "new" or a == "pk":
            t = str(w.address_new()) if a == "new" else str(w.public_key_new().unlockhash)
            expect(t in INDEX, "an address which is not of the sequence")
            i = INDEX[t]
            expect(i not in known, "address {} handed out again", i)
            expect(set(range(i)) - known <= u, "fresh address {} skips {}", i, sorted(set(range(i)) - known - u))
            known.add(i)
            seen = None
        elif a == "addresses":
            e = indices(w.addresses)
            expect(known <= set(e), "addresses were lost: {} of {}", e, sorted(known))
            expect(set(e) - known <= u, "unused keys exposed: {}", sorted(set(e) - known - u))
            known = set(e)
            if n == len(acts) - 1:
                keys_ok(w, e)
        elif a == "balance":
            b = w.balance
            e = indices(w.addresses)
            expect(known <= set(e) and set(e) - known <= u, "addresses lost or unused ones exposed")
            known = set(e)
            same(B.nano(b.available) + B.nano(b.unconfirmed), sum(o["value"] for o in l.outs.values() for i in e if R.cond_uh(o["cond"]) == KEYS[i].uh), "balance")
        elif a == "reload":
            w = load(l, count, scan)
            e = indices(w.addresses)
            want = must(u, count, scan)
            expect(want <= set(e), "used keys {} are not found", sorted(want - set(e)))
            expect(set(e) - want <= u, "unused keys exposed")
            known = set(e)
        else:
            use(l, int(a[1:]), mine=a[0] == "u")
    u = used_of(l)
    top = max(known | {0})
    state = [count, scan, sorted(known), sorted(u), w.key_count, acts.count("reload") > 0]
    nxt = ["new", "pk", "addresses", "balance", "reload"] + ["%s%d" % ("uv"[i % 2], i) for i in range(1, 7) if i not in u]
    return Succ(state, nxt, [len(known), a if acts else ""])


@family
def unanswered(case):
    """[used when loaded, used later, initial keys, window, observation, request]: the network does not answer one request; asked again, everything is as if it always had"""
    first, later, count, scan, what, k = case
    l = ledger([[i, "r"] for i in first])
    ws = []
    for _ in (0, 1):
        ex = W.Explorer(l)
        ws.append((ex, TFChainWallet(seed=SEED, key_count=count, key_scan_count=scan, client=TFChainClient(explorer_client=ex, network_type="devnet"))))
    for i in later:
        use(l, i, True)
    see = {"addresses": lambda w: w.addresses, "balance": lambda w: w.balance, "transactions": lambda w: w.transactions}[what]
    (_, a), (ex, b) = ws
    def down():
        raise tfchain.errors.ExplorerServerError("no explorer answers", "/")
    ex.moves[len(ex.gets) + k] = down
    try:
        see(b)
        if ex.moves:
            return None
        o = "overcome"
    except tfchain.errors.ExplorerServerError:
        o = "failed"
    see(a)
    x, y = indices(a.addresses), indices(b.addresses)
    same(y, x, "addresses after a request that was not answered")
    for _ in range(3):
        same(str(b.address_new()), str(a.address_new()), "fresh address after a request that was not answered")
    same(indices(b.addresses), indices(a.addresses), "addresses in the end")
    return [o, len(x)]


def words(entropy):
    """BIP39"""
    import mnemonic
    wl = mnemonic.Mnemonic("english").wordlist
    h = hashlib.sha256(entropy).digest()
    bits = bin(int.from_bytes(entropy + h, "big"))[2:].zfill(len(entropy) * 8 + 256)[:len(entropy) * 8 * 33 // 32]
    return [wl[int(bits[i:i + 11], 2)] for i in range(0, len(bits), 11)], wl


@family
def seeds(case):
    """a seed in every notation gives the same wallet"""
    n, fill = case
    e = bytes((fill + i * 37 + (i * i if fill else 0)) % 256 for i in range(n)) if fill >= 0 else b"\xff" * n
    ws, _ = words(e)
    text = " ".join(ws)
    l = L.Ledger("devnet")
    want = [L.key(e, i).text for i in range(4)]
    arr = bytearray(e)
    for what, s in (("bytes", e), ("bytearray", arr), ("mnemonic", text)):
        w = load(l, 2, 0, s)
        same(list(map(str, w.addresses)), want[:2], what + ": addresses")
        same(bytes(w.seed), e, what + ": seed")
        same(w.mnemonic, text, what + ": mnemonic")
        if what == "bytearray":
            for i in range(len(arr)):
                arr[i] ^= 255
        same([str(w.address_new()), str(w.address_new())], want[2:], what + ": further addresses")
        same(bytes(w.seed), e, what + ": seed afterwards")
        same(list(map(str, w.addresses)), want, what + ": addresses afterwards")
    return n


@family
def replaced(case):
    """a mnemonic with one word replaced: taken when its checksum is right, otherwise refused"""
    pos, start, step = case
    e = bytes(range(7, 39))
    ws, wl = words(e)
    l = L.Ledger("devnet")
    ok = 0
    for w in wl[start::step]:
        x = list(ws)
        x[pos] = w
        bits = "".join(bin(wl.index(y))[2:].zfill(11) for y in x)
        ent = int(bits[:256], 2).to_bytes(32, "big")
        good = bits[256:] == bin(hashlib.sha256(ent).digest()[0])[2:].zfill(8)
        if good:
            ok += 1
            same(str(load(l, 1, 0, " ".join(x)).address), L.key(ent, 0).text, "address")
        else:
            raises((ValueError, LookupError), load, l, 1, 0, " ".join(x))
    return ok


@family
def fresh(case):
    """a wallet without a seed gets its own"""
    l = L.Ledger("devnet")
    a, b = (TFChainWallet(client=W.client(l)) for _ in range(2))
    expect(len(a.seed) == 32 and bytes(a.seed) != bytes(b.seed), "seeds {} {}", a.seed, b.seed)
    for w in (a, b):
        same([str(w.address), str(w.address_new())], [L.key(bytes(w.seed), i).text for i in (0, 1)], "addresses")
        c = TFChainWallet(seed=w.mnemonic, client=W.client(l))
        same(str(c.address), str(w.address), "address of the recovered wallet")
    for s in (5, 1.5, ["a"]):
        raises(TypeError, TFChainWallet, seed=s, client=W.client(l))
    for s in ("", "hello", "carbon boss", " ".join(words(bytes(32))[0][:-1])):
        raises((ValueError, LookupError), TFChainWallet, seed=s, client=W.client(l))
    return "ok"


def run(ctx):
    ctx.all(seeds, [[k, f] for k in (16, 20, 24, 28, 32) for f in (-1, 0, 1, 5, 200)])
    ctx.all(replaced, [[p, s, st] for p in range(24) for st in ((1,) if ctx.thorough else (16,)) for s in range(1 if ctx.thorough else 1)], parallel=True)
    ctx.all(fresh, [0])
    ctx.bfs(history, [[c, s] for c in (1, 3) for s in (0, 1, 2, 3)], 5 if ctx.thorough else 4, parallel=True, chunk=20)
    n = 10 if ctx.thorough else 8
    def patterns():
        for bits in itertools.product((0, 1), repeat=n):
            used = [[i, "rml"[i % 3]] for i, b in enumerate(bits) if b]
            for scan in (0, 1, 2, 3, 4, -1):
                for count in (1, 2, 3):
                    if ctx.thorough or scan != -1 or count == 1:
                        yield [used, count, scan, 3 if count != 2 else 0]
        for far in range(n, n + 8):
            for mid in range(0, n + 2):
                for scan in (3, 5, 8):
                    yield [[[mid, "r"], [far, "r"]], 1, scan, far + 2]
        for bits in itertools.product((0, 1), repeat=5):
            for scan in (0, 1, 2, 3):
                for count in (0, -1):
                    yield [[[i, "rml"[i % 3]] for i, b in enumerate(bits) if b], count, scan, 3]
    ctx.all(loading, patterns(), parallel=True, chunk=50)
    def silent():
        m = 7 if ctx.thorough else 5
        for bits in itertools.product((0, 1, 2), repeat=m):
            first, later = [i for i, x in enumerate(bits) if x == 1], [i for i, x in enumerate(bits) if x == 2]
            if not later or len(first) > 2:
                continue
            for scan in (1, 2, 3, 4):
                for what in ("addresses", "balance", "transactions") if ctx.thorough or sum(bits) % 3 == 0 else ("addresses",):
                    for k in range(0, 3 * scan + (8 if what != "addresses" else 0)):
                        yield [first, later, 1, scan, what, k]
    ctx.all(unanswered, silent(), parallel=True, chunk=50)
