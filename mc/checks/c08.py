"""C08: Merkle tree against the recursive definition."""
import hashlib
import itertools
from mc.core import family, bad, expect, same, Succ
import tfchain.TFChainClient
from tfchain.crypto.merkletree import Tree
from tfchain.crypto import MerkleTree
from tfchain.internal.jsutils import blake2_string

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = ("breadth-first search over all push/root histories on real trees, compared after every root() with the recursive definition; "
        "every leaf count up to a bound, and the counts around powers of two far beyond it; all leaf sizes up to a bound and around powers of two; all leaf sequences over an alphabet of significant byte strings up to a length, with a global "
        "comparison of their roots. Non-trivial: a root was compared.")
ASSUMPTIONS = ["blake2b-256, sha256 and an identity-like (injective) hash stand for any hash function"]


def h_blake(b):
    return hashlib.blake2b(bytes(b), digest_size=32).digest()


HASHES = {
    "blake2": (h_blake, lambda d: bytes.fromhex(blake2_string(d))),
    "obj": (lambda b: hashlib.sha256(bytes(b)).digest(), lambda d: hashlib.sha256(bytes(d))),
    # structural "hash": injective, so equal roots mean equal trees
    "inj": (lambda b: b"(" + bytes(b) + b")", lambda d: b"(" + bytes(d) + b")"),
}


def ref_root(h, leaves):
    if not leaves:
        return h(b"")
    if len(leaves) == 1:
        return h(b"\x00" + leaves[0])
    k = 1
    while k * 2 < len(leaves):
        k *= 2
    return h(b"\x01" + ref_root(h, leaves[:k]) + ref_root(h, leaves[k:]))


ALPHA = [b"", b"\x00", b"\x01", b"a", b"\x00a", b"\x01" + b"q" * 64]


@family
def history(case):
    """[hash, event...]: event -1 = root(), k >= 0 = push(ALPHA[k])"""
    name, events = case[0], case[1:]
    h, real = HASHES[name]
    t = Tree(hash_func=real)
    leaves = []
    for e in events:
        if e < 0:
            same(bytes(t.root()), ref_root(h, leaves), "root of %r" % (events,))
        else:
            data = bytearray(ALPHA[e])
            t.push(data)
            same(bytes(data), ALPHA[e], "pushed data afterwards")
            leaves.append(ALPHA[e])
    want = ref_root(h, leaves)
    same(bytes(t.root()), want, "root of %r" % (events,))
    same(bytes(t.root()), want, "root asked twice of %r" % (events,))
    # the state is the leaf sequence plus whether a root was asked since each push (bounded memory of the last 2 events)
    return Succ((name, leaves, events[-2:]), [-1] + list(range(N)))


N = 3


@family
def count(case):
    name, n, asked = case
    h, real = HASHES[name]
    t = Tree(hash_func=real)
    leaves = []
    for i in range(n):
        if asked and i % asked == 0:
            same(bytes(t.root()), ref_root(h, leaves), "root after %d leaves" % i)
        d = b"%d" % i if i % 3 else (b"%d" % i) * 9
        t.push(d)
        leaves.append(d)
    same(bytes(t.root()), ref_root(h, leaves), "root of %d leaves" % n)
    same(bytes(t.root()), ref_root(h, leaves), "root of %d leaves, again" % n)
    return (name, n)


@family
def large(case):
    """[hash, counts]: one tree grown through all the counts, its root taken at each of them"""
    name, counts = case
    h, real = HASHES[name]
    t, stack = Tree(hash_func=real), []   # reference: complete subtrees (size, sum), largest first
    n = 0
    for k in counts:
        while n < k:
            d = b"%d" % n
            t.push(d)
            stack.append((1, h(b"\x00" + d)))
            while len(stack) > 1 and stack[-1][0] == stack[-2][0]:
                (s, a), (_, b) = stack[-2], stack[-1]
                stack[-2:] = [(2 * s, h(b"\x01" + a + b))]
            n += 1
        want = stack[-1][1]
        for _, a in reversed(stack[:-1]):
            want = h(b"\x01" + a + want)
        if k <= 600:
            same(want, ref_root(h, [b"%d" % i for i in range(k)]), "the reference itself, %d leaves" % k)
        same(bytes(t.root()), want, "root of %d leaves" % k)
    return (name, counts[-1])


@family
def sizes(case):
    """[hash, sizes]: leaves of these lengths, in this order, as bytes and as bytearray"""
    name, lens = case
    h, real = HASHES[name]
    ds = [bytes((i * 7 + j) % 251 for j in range(n)) for i, n in enumerate(lens)]
    t = Tree(hash_func=real)
    for i, d in enumerate(ds):
        t.push(bytearray(d) if i % 2 else d)
    same(bytes(t.root()), ref_root(h, ds), "root of leaves of %r bytes" % (lens,))
    return (name, lens)


@family
def sequence(case):
    name, idx = case
    h, real = HASHES[name]
    t = Tree(hash_func=real)
    for i in idx:
        t.push(ALPHA[i])
    r = bytes(t.root())
    same(r, ref_root(h, [ALPHA[i] for i in idx]), "root of %r" % (idx,))
    return (name, r)


@family
def distinct(case):
    """all roots of all leaf sequences up to the length are pairwise different"""
    name, alpha, maxlen = case
    h, real = HASHES[name]
    seen = {}
    for n in range(maxlen + 1):
        for idx in itertools.product(range(alpha), repeat=n):
            t = Tree(hash_func=real)
            for i in idx:
                t.push(ALPHA[i])
            r = bytes(t.root())
            if r in seen:
                bad("sequences {} and {} have the same root", seen[r], idx)
            seen[r] = idx
    return len(seen)


def run(ctx):
    global N
    T = ctx.thorough
    expect(MerkleTree is not None, "exported")
    ctx.bfs(history, [[n] for n in HASHES], 8 if T else 6, parallel=True)
    ctx.all(count, ([n, k, a] for n in HASHES for k in range(0, 300 if T else 140) for a in (0, 1, 3)), parallel=True)
    near = sorted({1 << k for k in range(7, 14 if T else 12)} | {(1 << k) + d for k in range(7, 14 if T else 12) for d in (-1, 1)})
    ctx.all(large, [[n, c] for n in ("blake2", "obj") for c in (list(range(1, 2100 if T else 600)), near)], parallel=True, chunk=1)
    edge = [1 << k for k in range(0, 18)]
    ctx.all(sizes, ([n, ls] for n in ("blake2", "obj") for ls in
                    [[k] for k in range(0, 400 if T else 200)] + [[e + d] for e in edge for d in (-1, 0, 1)] + [[e, 1] for e in edge] + [[1, e] for e in edge] + [[e, e] for e in edge]),
            parallel=True)
    ctx.all(sequence, ([n, list(s)] for n in HASHES for k in range(6 if T else 5) for s in itertools.product(range(len(ALPHA)), repeat=k)), parallel=True)
    ctx.all(distinct, [["blake2", 4, 6 if T else 5], ["inj", 2, 9 if T else 7]])
