"""C19: failover of explorer requests under every mix and order of network faults."""
import contextlib
import io
import itertools
import json
import socket

from mc import net as N
from mc.core import Succ, bad, expect, family, same

import tfchain.TFChainClient
from tfchain import errors as E
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.types import transactions as TX

PROPERTY = "C19"
LEVEL = "model_checking"
RULE = ("every assignment of a fault (or an answer) to each of up to 3 (thorough: 4) explorer addresses, for GET and POST, and every sequence of up to 3 "
        "such requests on one client, run on the real client over a faked socket layer; the order the client chooses is observed, not "
        "assumed, and the outcome has to be the one the observed order gives; all assignments cover all orders by symmetry. Non-trivial: a request was made")
ASSUMPTIONS = ["the addresses are distinct http addresses in text form (a misconfigured list is not judged)",
               "a server error of a reachable explorer is a definite answer, as the code defines it",
               "an acceptance of which the text cannot be read completely may be reported as an error or be tried elsewhere, not as success"]

OKBODY = b'{"hashtype":"transactionid","n":%d}\n'
MULTI = b'{\n "hashtype": "transactionid",\n "n": %d\n}\n'
RESET = ConnectionResetError(104, "reset")
TEXT_MISSING = b'{"message":"unrecognized hash used as input to /explorer/hash"}\n'
TEXT_NOTFOUND = b'{"message":"3Bot not found"}\n'

# name -> (answer of the server given its number, meaning for GET, meaning for POST)
# meanings: ok, none (no content), err (server error), next (no definite answer), soft (error or next)
FAULTS = {
    "ok": (lambda n: ("send", N.http_response(200, OKBODY % n), None), "ok", "ok"),
    "ok-lines": (lambda n: ("send", N.http_response(200, MULTI % n), None), "ok", "ok"),
    "ok-chunked": (lambda n: ("send", N.http_response(200, OKBODY % n, chunked=True), None), "ok", "ok"),
    "204": (lambda n: ("send", N.http_response(204, b""), None), "none", "err"),
    "400-missing": (lambda n: ("send", N.http_response(400, TEXT_MISSING), None), "none", "err"),
    "400-notfound": (lambda n: ("send", N.http_response(400, TEXT_NOTFOUND), None), "none", "err"),
    "400-long": (lambda n: ("send", N.http_response(400, b'{"message":"the record of the requested address could not be retrieved: the address was not found in the registry"}\n'), None), "none", "err"),
    "400": (lambda n: ("send", N.http_response(400, b'{"message":"bad hash"}\n'), None), "err", "err"),
    "400-binary": (lambda n: ("send", N.http_response(400, b"\xff\xfe\x80 bad"), None), "err", "err"),
    "404": (lambda n: ("send", N.http_response(404, b"no such page"), None), "err", "err"),
    "404-page": (lambda n: ("send", N.http_response(404, b"404 page not found\n"), None), "err", "err"),
    "502-page": (lambda n: ("send", N.http_response(502, b"<html>upstream not found</html>"), None), "err", "err"),
    "500": (lambda n: ("send", N.http_response(500, b"oops"), None), "err", "err"),
    "500-missing": (lambda n: ("send", N.http_response(500, b"internal: database error"), None), "err", "err"),
    "503": (lambda n: ("send", N.http_response(503, b""), None), "err", "err"),
    "202": (lambda n: ("send", N.http_response(202, b'{"status":"queued"}'), None), "err", "err"),
    "refused": (lambda n: ("connect", ConnectionRefusedError(111, "refused")), "next", "next"),
    "dns": (lambda n: ("connect", socket.gaierror(-2, "unknown name")), "next", "next"),
    "timeout": (lambda n: ("connect", socket.timeout("timed out")), "next", "next"),
    "read-timeout": (lambda n: ("send", b"", socket.timeout("timed out")), "next", "next"),
    "closed": (lambda n: ("send", b"", None), "next", "next"),
    "reset": (lambda n: ("send", b"HTTP/1.1 2", RESET), "next", "next"),
    "garbage": (lambda n: ("send", b"hello there\r\n\r\n", None), "next", "next"),
    "cut": (lambda n: ("send", N.http_response(200, (OKBODY % n)[:9], length=200), None), "next", "soft"),
    "body-reset": (lambda n: ("send", N.http_response(200, (OKBODY % n)[:9], length=200), RESET), "next", "soft"),
    "error-reset": (lambda n: ("send", N.http_response(500, b"oo", length=200), RESET), "soft", "soft"),
    "error-cut": (lambda n: ("send", N.http_response(400, b"oo", length=200), None), "soft", "soft"),
}
NAMES = list(FAULTS)
DOC = {"version": 1, "data": {"minerfees": ["1"], "coininputs": [], "arbitrarydata": "w6k=", "t": "caf\u00e9 \"<&"}}
DOCS = {"dict": DOC, "str": json.dumps(DOC, ensure_ascii=False), "bytes": json.dumps(DOC).encode(), "ascii": "{}", "list-text": "[1,2]"}


def addresses(n):
    return ["http://e%d.example" % i if i != 1 else "http://e1.example:23110" for i in range(n)]


def request(client, n, faults, kind, doc="dict", endpoint="/explorer/hashes/" + "ab" * 32):
    """one request with every address' behaviour fixed; returns what happened after judging it"""
    net = N.Net(lambda host, nth: FAULTS[faults[int(host[1])]][0](int(host[1])))
    out = io.StringIO()
    err = val = None
    with net.installed(), contextlib.redirect_stdout(out):
        try:
            if kind == "get":
                val = client.get(endpoint)
            else:
                val = client.post(endpoint, DOCS[doc])
        except E.ExplorerError as e:
            err = e
    tried = [int(h[1]) for h in net.tried]
    expect(len(set(tried)) == len(tried), "an address was tried more than once: {}", tried)
    expect(tried, "no explorer was asked")
    for host, raw in net.log:
        m, target, headers, body = N.request_of(raw)
        same((m, target), (kind.upper(), endpoint), "request line")
        same(headers.get("user-agent"), "Rivine-Agent", "user agent")
        if kind == "post":
            d = DOCS[doc]
            if isinstance(d, dict):
                same(json.loads(body.decode("utf-8")), d, "document delivered")
            else:
                same(body, d if isinstance(d, bytes) else d.encode("utf-8"), "document delivered")
            same(headers.get("content-type"), "application/json", "content type")
    for k, i in enumerate(tried):
        meaning = FAULTS[faults[i]][1 if kind == "get" else 2]
        last = k == len(tried) - 1
        if meaning == "next":
            if last:
                expect(len(tried) == n, "gave up after {} of {} addresses ({})", len(tried), n, [faults[j] for j in tried])
                expect(type(err) is E.ExplorerNotAvailable, "all addresses failed ({}) but the outcome is {!r}", [faults[j] for j in tried], err or val)
                same(list(err.addresses), addresses(n), "addresses of the error")
            continue
        if meaning == "soft":
            if last:
                expect(err is not None, "an unreadable answer was reported as {!r}", val)
                expect(type(err) in (E.ExplorerServerError, E.ExplorerServerPostError) or len(tried) == n, "gave up: {!r}", err)
            continue
        expect(last, "{} gave a definite answer ({}) but {} was asked as well", i, faults[i], tried[k + 1:])
        if meaning == "ok":
            expect(err is None, "explorer {} answered ({}) but the outcome is {!r}", i, faults[i], err)
            b = val if isinstance(val, (bytes, bytearray)) else val.encode()
            want = (MULTI if faults[i] == "ok-lines" else OKBODY) % i
            same(json.loads(b.decode()), json.loads(want.decode()), "the answer")
        elif meaning == "none":
            expect(type(err) is E.ExplorerNoContent, "no content ({}) was reported as {!r}", faults[i], err or val)
        else:
            expect(type(err) is (E.ExplorerServerError if kind == "get" else E.ExplorerServerPostError),
                   "a server error ({}) was reported as {!r}", faults[i], err or val)
            if kind == "post":
                d = err.data if isinstance(err.data, dict) else json.loads(err.data if isinstance(err.data, str) else bytes(err.data).decode())
                same(d, DOCS[doc] if isinstance(DOCS[doc], dict) else json.loads(DOCS[doc]), "document of the error")
    same(list(client.addresses), addresses(n), "configured addresses afterwards")
    return (type(err).__name__ if err else "ok", len(tried))


@family
def single(case):
    kind, faults, doc = case
    c = TFChainExplorerClient(addresses=addresses(len(faults)))
    return request(c, len(faults), faults, kind, doc)


@family
def history(case):
    """[n, (kind, faults)...]: requests on one client, what is reachable changes in between"""
    n, reqs = case[0], case[1:]
    c = TFChainExplorerClient(addresses=addresses(n))
    out = [request(c, n, f, kind) for kind, f in reqs]
    # the client keeps no state: its state is the configured list
    return Succ((n, len(reqs), out[-1:]), [[k, list(f)] for k in ("get", "post") for f in itertools.product(HF, repeat=n)], out)


HF = ["ok", "refused", "500", "400-missing"]


@family
def through_client(case):
    """a submission or lookup through the full client"""
    kind, faults = case
    n = len(faults)
    ex = TFChainExplorerClient(addresses=addresses(n))
    c = TFChainClient(explorer_client=ex, network_type="testnet")
    txid = "cd" * 32

    def answer(host, nth):
        f = faults[int(host[1])]
        if f == "ok":
            return ("send", N.http_response(200, json.dumps({"transactionid": txid}).encode()), None)
        return FAULTS[f][0](int(host[1]))
    net = N.Net(answer)
    t = TX.new()
    t.coin_output_add(value=5, condition=tfchain.types.ConditionTypes.nil_new())
    t.data = "caf\u00e9"
    want = json.loads(json.dumps(t.json()))
    err = val = None
    with net.installed(), contextlib.redirect_stdout(io.StringIO()):
        try:
            val = c.transaction_put(t if kind == "txn" else t.json())
        except E.ExplorerError as e:
            err = e
    tried = [int(h[1]) for h in net.tried]
    accepted = [i for i in tried if faults[i] == "ok"]
    if accepted:
        expect(err is None and len(accepted) == 1, "accepted by {} but {!r}", accepted, err)
        same(val, txid, "identifier")
    else:
        expect(err is not None, "no explorer accepted it but {!r} was returned", val)
    for host, raw in net.log:
        m, target, headers, body = N.request_of(raw)
        same((m, target), ("POST", "/transactionpool/transactions"), "request line")
        same(json.loads(body.decode("utf-8")), want, "transaction delivered")
    same(json.loads(json.dumps(t.json())), want, "transaction afterwards")
    return (kind, val is None, len(tried))


def run(ctx):
    T = ctx.thorough
    ctx.all(single, ([k, list(f), "dict"] for n in (1, 2) for k in ("get", "post") for f in itertools.product(NAMES, repeat=n)), parallel=True)
    ctx.all(single, (["post", [f], d] for f in NAMES for d in DOCS), parallel=True)
    few = ["ok", "204", "400-missing", "500", "refused", "cut", "timeout"]
    ctx.all(single, ([k, list(f), "dict"] for k in ("get", "post") for f in itertools.product(NAMES if T else few, repeat=3)), parallel=True)
    # four addresses: every position of an answer among every mix of other faults
    ctx.all(single, ([k, list(f), "dict"] for k in ("get", "post") for f in itertools.product(few if T else ["ok", "500", "refused", "closed"], repeat=4)), parallel=True)
    # many addresses: none or one of them answers
    ctx.all(single, ([k, [f] * i + [a] + [f] * (n - 1 - i), "dict"] for k in ("get", "post") for n in range(5, 11) for f in ("refused", "closed", "timeout") for a in ("ok", "500", f) for i in range(n)), parallel=True)
    ctx.bfs(history, [[n] for n in ((2, 3) if T else (2,))], 3, parallel=True)
    ctx.all(through_client, ([k, list(f)] for k in ("txn", "json") for n in (1, 2, 3) for f in itertools.product(["ok", "204", "400", "500", "refused", "body-reset"], repeat=n)), parallel=True)
