"""C32: several threads may use the program at the same time, wherever one of them is interrupted."""
import contextlib
import http.client
import io
import json
import os
import random
import sys
import threading

from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.TFChainWallet import TFChainWallet
from tfchain.types import ConditionTypes as CT
from tfchain.types import FulfillmentTypes as FT
from tfchain.types import transactions as T
from tfchain.types.AtomicSwap import AtomicSwapContract
from tfchain.types.ERC20 import ERC20Address
from tfchain.types.PrimitiveTypes import BinaryData, Currency, Hash
from tfchain.types.ThreeBot import BotName, NetworkAddress
from tfchain.types.CryptoTypes import PublicKey
import tfchain.errors

from mc import build as B
from mc.checks import c25
from mc.menu import MENU, play
from mc import net as N
from mc import ops as O
from mc import txnspec as TS
from mc import world as W
from mc.core import REPO, bad, expect, family, same
from mc.ref import txn as X

PROPERTY = "C32"
LEVEL = "exploration"
TECHNIQUE = ("stateless exploration of the real code under a controlled scheduler: one thread is suspended in front of every line of the program it ever reaches, another thread does its "
             "complete job there, the first one goes on (one preemption; thorough: more occurrences of a line); or the other one is suspended as well in the middle of the same job and goes on last (two preemptions); oracle: what each job gives when it is done alone")
RULE = ("jobs: encoding, identifying, signing, reading and writing of transactions, amounts, conditions, addresses, names and balances; every wallet operation (quick: balance, sending, a registration and chain data at every line, the others at the lines only they reach); requests to explorers of which one is down or refuses; every reading of one shared object x what "
        "the other thread does meanwhile x every line reached, at its first (thorough: first three) arrival. Non-trivial: the other job was done in between and both results were compared")
ASSUMPTIONS = ["threads are switched in front of lines of the program, not inside of one", "each of two threads is interrupted once at most",
               "changing one object from two threads is not judged", "a thread that waits for the suspended one (a lock) is let wait: the suspended one goes on first"]

ROOT = os.path.join(os.path.realpath(REPO), "tfchain") + os.sep
TOOL = 4
M = sys.monitoring
PATIENCE = 2.0


def mine(code):
    f = code.co_filename
    return f.startswith(ROOT) or os.path.realpath(f).startswith(ROOT)


def guarded(job):
    try:
        return job()
    except BaseException as e:
        return ["raised", type(e).__name__, str(e)[:300]]


class Steps:
    """runs a job in a thread; in front of the n-th line (only the first `often` arrivals at each line count) `visit` is called"""
    def __init__(self, job, visit=None, at=None, often=1):
        self.job, self.visit, self.at, self.often = job, visit, at, often
        self.n, self.where, self.seen, self.out, self.me, self.lines = 0, None, {}, None, None, []
        try:
            M.use_tool_id(TOOL, "c32")
        except ValueError:
            pass
        M.register_callback(TOOL, M.events.LINE, self.line)
        M.restart_events()
        M.set_events(TOOL, M.events.LINE)
        t = threading.Thread(target=self.body, daemon=True)
        t.start()
        t.join()
        M.set_events(TOOL, 0)
        M.register_callback(TOOL, M.events.LINE, None)

    def body(self):
        self.me = threading.get_ident()
        self.out = guarded(self.job)

    def line(self, code, no):
        if not mine(code):
            return M.DISABLE
        if threading.get_ident() != self.me:
            return None
        k = (code, no)
        c = self.seen[k] = self.seen.get(k, 0) + 1
        if c > self.often:
            return M.DISABLE
        self.lines.append(k)
        if self.n == self.at:
            self.where = "%s:%d" % (os.path.relpath(os.path.realpath(code.co_filename), os.path.dirname(ROOT[:-1])), no)
            M.set_events(TOOL, 0)
            self.visit()
        self.n += 1
        return M.DISABLE if c == self.often else None


class Other:
    """the other thread: it does all of its job, unless it has to wait for the suspended one"""
    def __init__(self, job):
        self.out, self.job, self.t = None, job, None

    def body(self):
        self.out = guarded(self.job)

    def visit(self):
        self.t = threading.Thread(target=self.body, daemon=True)
        self.t.start()
        self.t.join(PATIENCE)

    def end(self):
        if self.t is None:
            return False
        self.t.join(30)
        expect(not self.t.is_alive(), "the other thread does not come to an end")
        return True


def met(a, b, at, often, wa, wb, what):
    o = Other(b)
    s = Steps(a, o.visit, at, often)
    if not o.end():
        return None  # not that many lines this time
    if s.out != wa or o.out != wb:
        got, want, who = (s.out, wa, "the suspended thread") if s.out != wa else (o.out, wb, "the other thread")
        bad("{}, suspended at {}: {} got {} want {}", what, s.where, who, str(got)[:300], str(want)[:300])
    return [what, at]


class Both:
    """a is suspended in front of its line number i, then b in front of its line number j; a goes on to its end, then b"""
    def __init__(self, a, b, i, j):
        self.jobs, self.at, self.out, self.n = (a, b), (i, j), [None, None], [0, 0]
        self.seen, self.where, self.over, self.who = (set(), set()), [None, None], [False, False], {}
        self.held, self.go = threading.Event(), threading.Event()
        self.b = threading.Thread(target=self.body, args=(1,), daemon=True)
        self.started = False
        try:
            M.use_tool_id(TOOL, "c32")
        except ValueError:
            pass
        M.register_callback(TOOL, M.events.LINE, self.line)
        M.restart_events()
        M.set_events(TOOL, M.events.LINE)
        t = threading.Thread(target=self.body, args=(0,), daemon=True)
        t.start()
        t.join()
        M.set_events(TOOL, 0)
        M.register_callback(TOOL, M.events.LINE, None)
        self.go.set()
        if self.started:
            self.b.join(30)
            expect(not self.b.is_alive(), "the other thread does not come to an end")

    def body(self, k):
        self.who[threading.get_ident()] = k
        self.out[k] = guarded(self.jobs[k])
        if k:
            self.held.set()

    def line(self, code, no):
        if not mine(code):
            return M.DISABLE
        k = self.who.get(threading.get_ident())
        if k is None or self.over[k] or (code, no) in self.seen[k]:
            return None
        self.seen[k].add((code, no))
        if self.n[k] == self.at[k]:
            self.over[k] = True
            self.where[k] = "%s:%d" % (os.path.basename(code.co_filename), no)
            if k:
                self.held.set()
                self.go.wait(30)
            else:
                self.started = True
                self.b.start()
                self.held.wait(PATIENCE)
        self.n[k] += 1


def overlap(a, b, i, j, wa, wb, what):
    x = Both(a, b, i, j)
    if not x.started:
        return None
    for k, w in ((0, wa), (1, wb)):
        if x.out[k] != w:
            bad("{}: the threads are suspended at {} and {}, then go on: the {} one got {} want {}", what, x.where[0], x.where[1], ("first", "second")[k], str(x.out[k])[:300], str(w)[:300])
    return [what, i, j]


# --- jobs on objects: the two sides s have different ones
def refused(f):
    try:
        return c25.text(f())
    except (ValueError, TypeError, IndexError, KeyError) as e:
        return ["refused", type(e).__name__]


VS = (0, 1, 128, 129, 144, 145, 146, 208, 209, 210)
PICK = {}


def pick(v, s):
    if v not in PICK:
        l = [t for t in TS.specs(v) if len(t.get("cin", [])) < 5]
        PICK[v] = [l[len(l) // 3], l[len(l) // 2 + 1]]
    return PICK[v][s]


def ids(v, s):
    t = B.txn(pick(v, s), "set")
    return [refused(lambda: f(t)) for f in (lambda o: o.json(), lambda o: o.binary_encode(), lambda o: o.signature_hash_get(s), lambda o: o.coin_outputid_new(s).value, lambda o: o.blockstake_outputid_new(s).value, str)]


def reading(v, s):
    o = T.from_json(X.chain_js(pick(v, s)))
    return [refused(lambda: f(o)) for f in (lambda o: o.json(), lambda o: [str(i.parentid) for i in o.coin_inputs], lambda o: [str(x.condition.unlockhash) for x in o.coin_outputs], lambda o: o.is_fulfilled())]


def signing(s):
    t = T.new()
    ks = [W.K(5 + s, i) for i in range(3)]
    ms = ["ms", [k.uh for k in ks], 2]
    for i in range(2):
        t.coin_input_add(parentid=TS.H[i + 3 * s], fulfillment=[FT.single_signature_new(pub_key=B.pk(ks[0].pk)), FT.multi_signature_new()][i], parent_output=B.cout([5, [["uh", ks[0].uh], ms][i]], id=TS.H[i + 3 * s]))
    t.coin_output_add(value=Currency(value=B.dec(3 + s)), condition=B.cond(["uh", ks[1].uh]))
    out = []
    for r in t.signature_requests_new():
        for k in ks:
            a = str(B.uh(k.uh))
            if str(r.wallet_address) == a:
                pk = B.pk(k.pk)
                r.signature_fulfill(signature=k.sign(bytes(r.input_hash_new(pk).value).hex()), public_key=pk)
                out.append(a)
    return [out, t.json(), t.is_fulfilled(), c25.text(t.signature_hash_get(1))]


def amounts(s):
    a, b = Currency(value=B.dec(10 ** 9 * (3 + s) + 7 * s + 1)), Currency(value="%d.%d TFT" % (2 + s, 5 + s))
    c = Currency(value=a)
    c += b
    return [str(a + b), str(a - b) if a > b else str(b - a), str(c), str(a * (2 + s)), a.str(with_unit=True), a.json(), B.enc("riv", b).hex(), B.enc("sia", c).hex(), a > b, a == c, int(a)]


def pieces(s):
    out = []
    for c in TS.COND[s::2]:
        o = B.cond(c)
        out.append([o.json(), str(o.unlockhash), B.enc("riv", o).hex(), B.enc("sia", o).hex(), o.lock.locked_check(600 + s, 10 ** 9) , CT.from_json(o.json()).json()])
    for f in (TS.SS, TS.MS, TS.AS, TS.MS1)[s::2]:
        o = B.ff(f)
        out.append([o.json(), B.enc("riv", o).hex(), FT.from_json(o.json()).json()])
    return out


def words(s):
    return [refused(f) for f in (
        lambda: str(CT.UnlockHash.from_json(str(B.uh(TS.U[s])))) if hasattr(CT, "UnlockHash") else None, lambda: str(B.pk(TS.K[s])), lambda: str(PublicKey.from_json(str(B.pk(TS.K[s])))), lambda: B.pk(TS.K[s]).unlockhash.json(),
        lambda: BotName(value="foobar%d.name" % s).json() if s else BotName(value="chatbot").json(), lambda: BotName(value="x" if s else "abcd"), lambda: NetworkAddress.from_json("192.168.0.%d" % s if s else "example.org").json(), lambda: NetworkAddress.from_json("..%d" % s),
        lambda: str(ERC20Address(value=("0x" + "ab" * 20) if s else "cd" * 20)), lambda: ERC20Address.from_unlockhash(B.uh(TS.U[s])), lambda: str(Hash(value=TS.H[s])), lambda: Hash(value="zz%d" % s),
        lambda: str(BinaryData(value=bytes([s] * 20), strencoding="base64")), lambda: CT.from_recipient([[str(B.uh(TS.U[s])), str(B.uh(TS.U[s + 1]))], 1 + s]).json(), lambda: CT.from_recipient(str(B.uh(TS.U[s])), lock=500 + s).json())]


def swaps(s):
    o = B.cout([7 + s, ["as", TS.U[s], TS.U[s + 2], TS.H[5], 1549649728 + s]], id=TS.H[s])
    c = AtomicSwapContract(coinoutput=o, unspent=not s, current_timestamp=1549649700 + 100 * s)
    return [str(c), c.json() if hasattr(c, "json") else None, str(c.amount), str(c.sender), str(c.receiver), str(c.secret_hash), c.refund_timestamp]


def bots(s):
    t = B.txn(pick(145, s), "set")
    r = B.txn(pick(144, s), "set")
    return [str(t.required_bot_fees), str(r.required_bot_fees), refused(lambda: str(B.txn(pick(146, s), "set").required_bot_fees))]


def jobs():
    out = {}
    for v in VS:
        out["ids %d" % v] = lambda s, v=v: ids(v, s)
        out["reading %d" % v] = lambda s, v=v: reading(v, s)
    for f in (signing, amounts, pieces, words, swaps, bots):
        out[f.__name__] = f
    return out


JOBS = jobs()


def do(name, s):
    return json.loads(json.dumps(JOBS[name](s), default=str))


def everything(s):
    return [do(n, s) for n in JOBS]


_solo = {}


def solo(key, f):
    if key not in _solo:
        f()
        _solo[key] = f()
    return _solo[key]


@family
def objects(case):
    """[job, side, which line, how often]: the other thread does all jobs of the other side meanwhile"""
    name, s, at, often = case
    return met(lambda: do(name, s), lambda: everything(1 - s), at, often, solo(("o", name, s), lambda: do(name, s)), solo(("o", s), lambda: everything(1 - s)), "%s of thread %d" % (name, s))


@family
def objects_both(case):
    """[job, line of the first, line of the second]: both are in the middle of the same job, the one suspended first goes on first"""
    name, i, j = case
    return overlap(lambda: do(name, 0), lambda: do(name, 1), i, j, solo(("o", name, 0), lambda: do(name, 0)), solo(("o", name, 1), lambda: do(name, 1)), name)


# --- one object read by two threads
def balance_of(n):
    return O.Scene(c25.scene(n)).wallet.balance


def wallet_of(n):
    s = O.Scene(c25.scene(n))
    return TFChainWallet(seed=W.seed(O.ME), key_count=2, key_scan_count=0, client=s.p.client)


SHARED = {"tx %d" % v: (lambda v=v: c25.tx_of(pick(v, 0), "set", True), c25.TX) for v in VS}
SHARED.update({"cond %d" % i: (lambda c=c: B.cond(c), c25.COND) for i, c in enumerate([c for c in TS.COND if c[0] in ("ms", "as", "lt")][::3])})
SHARED.update({"ff %d" % i: (lambda f=f: B.ff(f), c25.FF) for i, f in enumerate((TS.SS, TS.MS, TS.AS))})
SHARED.update({"balance %d" % n: (lambda n=n: balance_of(n), c25.BAL) for n in (0, 2)})
SHARED["multisig balance"] = (lambda: balance_of(0).wallets[O.TEXT["m"]], c25.BAL)
SHARED["wallet"] = (lambda: wallet_of(0), [r for r in c25.WAL if r[0] != "verify"])


def look(name, o, i):
    return c25.answer(SHARED[name][1][i][1], o)


def looks(name, o):
    return [look(name, o, i) for i in range(len(SHARED[name][1]))]


@family
def shared(case):
    """[object, reading, which line, how often]: the other thread does all readings of the same object meanwhile"""
    name, i, at, often = case
    o = SHARED[name][0]()
    return met(lambda: look(name, o, i), lambda: looks(name, o), at, often, solo(("s", name, i), lambda: look(name, SHARED[name][0](), i)), solo(("s", name), lambda: looks(name, SHARED[name][0]())),
               "%s of %s read by two threads" % (SHARED[name][1][i][0], name))


@family
def shared_both(case):
    """[object, reading, line of the first, line of the second]"""
    name, r, i, j = case
    o = SHARED[name][0]()
    w = solo(("s", name, r), lambda: look(name, SHARED[name][0](), r))
    return overlap(lambda: look(name, o, r), lambda: look(name, o, r), i, j, w, w, "%s of %s" % (SHARED[name][1][r][0], name))


# --- wallets
@family
def wallets_both(case):
    """[shared client, operation, line of the first, line of the second]"""
    sh, op, i, j = case
    for x in (0, 1):
        c25.solo([1, 2], sh, x, op)
    ps = c25.pair([1, 2], sh)
    return overlap(lambda: play(ps[0], op), lambda: play(ps[1], op), i, j, c25.solo([1, 2], sh, 0, op), c25.solo([1, 2], sh, 1, op), op)


@family
def wallets(case):
    """[shared client, side, operation, operation of the other, which line, how often]"""
    sh, s, a, b, at, often = case
    seeds = [1, 2]
    for x in (0, 1):
        c25.solo(seeds, sh, x, (a, b)[x != s])
    ps = c25.pair(seeds, sh)
    return met(lambda: play(ps[s], a), lambda: play(ps[1 - s], b), at, often, c25.solo(seeds, sh, s, a), c25.solo(seeds, sh, 1 - s, b), "%s of wallet %d (%s)" % (a, s, "one client" if sh else "apart"))


# --- the connection to the explorers
class Sock(N.Sock):
    """answers what was asked, by the last part of the address"""
    def makefile(self, *a, **k):
        method, target, headers, body = N.request_of(self.sent)
        kind = target.rsplit("/", 1)[-1]
        code = {"missing": 400, "empty": 204, "broken": 500}.get(kind, 200)
        text = b"unrecognized hash " if code == 400 else b""
        self.data = N.http_response(code, text + json.dumps([method, target, headers.get("user-agent"), headers.get("content-type"), body.decode()]).encode() if code != 204 else b"")
        return super().makefile(*a, **k)


class Net(N.Net):
    @contextlib.contextmanager
    def installed(self):
        net = self
        with super().installed():
            def connect(conn):
                net.tried.append(conn.host)
                if conn.host.startswith("down"):
                    raise ConnectionRefusedError(111, "Connection refused")
                conn.sock = Sock(net, conn.host, b"", None)
            for c in (http.client.HTTPConnection, http.client.HTTPSConnection):
                c.connect = connect
            yield self


REQUESTS = [["get", "fine"], ["get", "missing"], ["get", "empty"], ["get", "broken"], ["post", "fine"], ["post", "broken"], ["post", "missing"]]


def asked(c, s, kind):
    how, end = kind
    try:
        if how == "get":
            r = c.get("/explorer/%d/%s" % (s, end))
        else:
            r = c.post("/transactionpool/%d/%s" % (s, end), [{"side": s}, '{"text": %d}' % s][s])
        return ["answer", r.decode() if isinstance(r, bytes) else str(r)]
    except tfchain.errors.ExplorerError as e:
        return [type(e).__name__, str(e).replace("down", "").replace("up", "")[:300], getattr(e, "endpoint", None)]


def clients(one):
    c = lambda s: TFChainExplorerClient(["http://down%d.example:23110" % s, "http://up%d.example" % s])
    a = c(0)
    return [a, a if one else c(1)]


@family
def network(case):
    """[one client, request, request of the other, which line, how often]"""
    one, a, b, at, often = case
    with contextlib.redirect_stdout(io.StringIO()), Net(None).installed():
        random.seed(at)
        l = clients(one)
        wa, wb = asked(clients(one)[0], 0, a), asked(clients(one)[1], 1, b)
        return met(lambda: asked(l[0], 0, a), lambda: asked(l[1], 1, b), at, often, wa, wb, "%s next to %s (%s)" % (" ".join(a), " ".join(b), "one client" if one else "apart"))


def points(f, often):
    f()
    return Steps(f, None, None, often).n


def run(ctx):
    Th = ctx.thorough
    often = 3 if Th else 1
    sides = (0, 1) if Th else (0,)
    n_of = {}
    def n_objects():
        for n in JOBS:
            for s in sides:
                n_of[n] = points(lambda: do(n, s), often)
                for at in range(n_of[n]):
                    yield [n, s, at, often]
    ctx.all(objects, list(n_objects()), parallel=True, chunk=16)
    ops = list(MENU)
    apart = ("bot", "update", "mint")
    n_ops, known = {}, set()
    whole = ("balance", "send", "bot", "info")
    def n_wallets():
        for sh in (False, True):
            for x, a in enumerate(ops if Th or not sh else whole):
                for s in sides:
                    ps = c25.pair([1, 2], sh)
                    l = Steps(lambda: play(ps[s], a), None, None, often).lines
                    n_ops[sh, a] = len(l)
                    # quick: the other operations only where they come to lines not reached by one before
                    ats = [at for at, k in enumerate(l) if Th or a in whole or k not in known]
                    known.update(l)
                    for b in (ops if Th else [a] if not sh else ["send", "info", "balance", "update"][x:x + 1]):
                        if not (sh and a in apart and b in apart):
                            for at in ats:
                                yield [sh, s, a, b, at, often]
    ctx.all(wallets, list(n_wallets()), parallel=True, chunk=16)
    first = {n: max(points(lambda: do(n, s), 1) for s in (0, 1)) for n in JOBS}
    ctx.all(objects_both, ([n, i, i + d] for n in JOBS for i in range(first[n]) for d in ((-3, -2, -1, 0, 1, 2, 3) if Th else (0,)) if i + d >= 0), parallel=True, chunk=64)
    ctx.all(objects_both, ([n, i, j] for n in JOBS if first[n] < (300 if Th else 110) for i in range(first[n]) for j in range(first[n])), parallel=True, chunk=64)
    n_read = {}
    def n_shared():
        for name, (make, readings) in SHARED.items():
            for i in range(len(readings)):
                make_o = make()
                n_read[name, i] = Steps(lambda: look(name, make_o, i), None, None, often).n
                for at in range(n_read[name, i]):
                    yield [name, i, at, often]
    ctx.all(shared, list(n_shared()), parallel=True, chunk=16)
    ctx.all(shared_both, ([name, r, i, j] for (name, r), n in n_read.items() for i in range(n) for j in (range(n) if Th and n < 120 else (i,))), parallel=True, chunk=32)
    def n_network():
        with contextlib.redirect_stdout(io.StringIO()), Net(None).installed():
            for one in (True, False):
                for a in REQUESTS:
                    n = max(Steps(lambda: asked(clients(one)[0], 0, a), None, None, often).n for _ in range(6))  # which explorer is asked first is drawn
                    for b in REQUESTS:
                        for at in range(n):
                            yield [one, a, b, at, often]
    ctx.all(network, list(n_network()), parallel=True, chunk=16)
    ctx.all(wallets_both, ([sh, a, i, i] for (sh, a), n in n_ops.items() if (Th or a in ("balance", "history", "key", "info")) and not (sh and a in apart) for i in range(n)), parallel=True, chunk=16)
