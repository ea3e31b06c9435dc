#!/usr/bin/env python3
"""A second, independent model of SSZ on hashlib, checking the harness's reference (harness/ref.cpp):
    build/ssz-rel-minimal.* dump --seed 1 --iters 5 | tools/sszmodel.py
Each line holds a type, an encoding and a root; the encoding has to decode, encode to itself and have that root."""
import ast, hashlib, sys

sha = lambda b: hashlib.sha256(b).digest()
ZERO = [bytes(32)]
for _ in range(64):
    ZERO.append(sha(ZERO[-1] * 2))


def fixed(t):
    k = t[0]
    return k in ("u64", "bool", "bytes", "bitvec") or k == "vector" and fixed(t[1]) or k == "container" and all(map(fixed, t[1]))


def length(t):
    return {"u64": lambda: 8, "bool": lambda: 1, "bytes": lambda: t[1], "bitvec": lambda: -(-t[1] // 8), "vector": lambda: t[2] * length(t[1]), "container": lambda: sum(map(length, t[1]))}[t[0]]()


def split(ts, b):
    """The parts of a heterogeneous sequence; ts may be endless for lists of variable parts."""
    out, at, offs = [], 0, []
    for i, t in enumerate(ts):
        if fixed(t):
            out.append(b[at:at + length(t)]); at += length(t)
        else:
            out.append(None); offs.append((i, int.from_bytes(b[at:at + 4], "little"))); at += 4
    assert not offs or offs[0][1] == at
    assert offs or at == len(b)
    for (i, o), e in zip(offs, [o for _, o in offs[1:]] + [len(b)]):
        assert o <= e <= len(b)
        out[i] = b[o:e]
    return out


def decode(t, b):
    k = t[0]
    if k == "u64": assert len(b) == 8; return int.from_bytes(b, "little")
    if k == "bool": assert b in (b"\0", b"\1"); return b == b"\1"
    if k == "bytes": assert len(b) == t[1]; return b
    if k in ("bitvec", "bitlist"):
        n = int.from_bytes(b, "little")
        if k == "bitvec": assert len(b) == length(t) and n >> t[1] == 0; size = t[1]
        else: assert b and b[-1]; size = n.bit_length() - 1; assert size <= t[1]
        return [n >> i & 1 for i in range(size)]
    if k == "container": return [decode(x, y) for x, y in zip(t[1], split(t[1], b))]
    e = t[1]
    if fixed(e): s = length(e); assert len(b) % s == 0; parts = [b[i:i + s] for i in range(0, len(b), s)]
    else: parts = split([e] * (int.from_bytes(b[:4], "little") // 4), b)
    assert len(parts) == t[2] if k == "vector" else len(parts) <= t[2]
    return [decode(e, p) for p in parts]


def bits(v, delimiter):
    n = sum(x << i for i, x in enumerate(v)) | (1 << len(v) if delimiter else 0)
    return n.to_bytes(len(v) // 8 + 1 if delimiter else -(-len(v) // 8), "little")


def encode(t, v):
    k = t[0]
    if k == "u64": return v.to_bytes(8, "little")
    if k == "bool": return bytes([v])
    if k == "bytes": return v
    if k == "bitvec": return bits(v, False)
    if k == "bitlist": return bits(v, True)
    ts = t[1] if k == "container" else [t[1]] * len(v)
    enc = [encode(x, y) for x, y in zip(ts, v)]
    at = sum(len(e) if fixed(x) else 4 for x, e in zip(ts, enc))
    head, tail = b"", b""
    for x, e in zip(ts, enc):
        if fixed(x): head += e
        else: head += (at + len(tail)).to_bytes(4, "little"); tail += e
    return head + tail


def merkle(chunks, limit):
    """The root of the binary tree with limit leaves, from the top down."""
    def node(lo, depth):
        if lo >= len(chunks): return ZERO[depth]
        if depth == 0: return chunks[lo]
        return sha(node(lo, depth - 1) + node(lo + (1 << depth - 1), depth - 1))
    return node(0, max(limit - 1, 0).bit_length())


def pack(b):
    return [b[i:i + 32].ljust(32, b"\0") for i in range(0, len(b), 32)]


def mixed(r, n):
    return sha(r + n.to_bytes(32, "little"))


def root(t, v):
    k = t[0]
    if k in ("u64", "bool", "bytes", "bitvec"):
        b = encode(t, v)
        return merkle(pack(b), -(-len(b) // 32))
    if k == "bitlist": return mixed(merkle(pack(bits(v, False)), -(-t[1] // 256)), len(v))
    if k == "container": return merkle([root(x, y) for x, y in zip(t[1], v)], len(v))
    e = t[1]
    if e[0] in ("u64", "bool"): r = merkle(pack(encode(t, v)), -(-t[2] * length(e) // 32))
    else: r = merkle([root(e, x) for x in v], t[2])
    return r if k == "vector" else mixed(r, len(v))


n, types = 0, set()
for l in sys.stdin:
    if not l.startswith("D "): continue
    d, e, r = l[2:].rstrip("\n").split("\t")
    t, e = ast.literal_eval(d), bytes.fromhex(e)
    v = decode(t, e)
    if encode(t, v) != e or root(t, v).hex() != r:
        print("DIFFERENT:", d, e.hex(), r); sys.exit(1)
    n += 1; types.add(d)
print("%d values of %d types agree" % (n, len(types)))
