#!/usr/bin/env python3
"""Writes sim/kat.txt: known answers for the reference models, from Python's
hashlib (the BLAKE2 authors' C code; b and s, all parameters) and from the
published vectors for bp and sp (tests/blake2-kat.json in the repository)."""
import hashlib, json, os, random
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(2)
ramp = bytes(range(255))
out = ["# variant inlen outlen key salt personal fanout depth leaf offset ndepth inner last digest"]
hx = lambda b: b.hex() or "-"
def line(v, n, o, key=b"", salt=b"", pers=b"", fan=1, dep=1, leaf=0, off=0, nd=0, inner=0, last=0, digest=None):
    inp = (ramp * (n // 255 + 1))[:n]
    if digest is None:
        f = hashlib.blake2b if v == "b" else hashlib.blake2s
        digest = f(inp, digest_size=o, key=key, salt=salt, person=pers, fanout=fan, depth=dep, leaf_size=leaf,
                   node_offset=off, node_depth=nd, inner_size=inner, last_node=bool(last)).hexdigest()
    out.append(" ".join(map(str, (v, n, o, hx(key), hx(salt), hx(pers), fan, dep, leaf, off, nd, inner, last, digest))))
for v, blk in (("b", 128), ("s", 64)):
    mx = blk // 2
    for n in (0, 1, blk - 1, blk, blk + 1, 2 * blk, 2 * blk + 1, 1000):
        line(v, n, mx)
        line(v, n, mx, key=ramp[:mx])
    for _ in range(24):
        rb = lambda k: bytes(rnd.randrange(256) for _ in range(rnd.randrange(k + 1)))
        line(v, rnd.randrange(700), rnd.randrange(1, mx + 1), rb(mx), rb(blk // 8), rb(blk // 8), rnd.randrange(256),
             rnd.randrange(1, 256), rnd.randrange(1 << 32), rnd.randrange(1 << (64 if v == "b" else 48)),
             rnd.randrange(256), rnd.randrange(mx + 1), rnd.randrange(2))
for c in json.load(open("/repo/tests/blake2-kat.json")):
    if c["hash"] in ("blake2bp", "blake2sp"):
        n = len(c["in"]) // 2
        assert c["in"] == ramp[:n].hex()
        if n % 16 in (0, 1, 15) or n > 250:
            v = c["hash"][6:]
            line(v, n, len(c["out"]) // 2, key=bytes.fromhex(c["key"]), digest=c["out"])
open(os.path.join(root, "sim/kat.txt"), "w").write("\n".join(out) + "\n")
