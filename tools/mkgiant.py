#!/usr/bin/env python3
"""Writes lib/giants.json: runs with inputs longer than 4 GiB and their
expected digests, computed with hashlib (the parallel functions by dealing the
blocks to hashlib leaves)."""
import hashlib, json, os, struct, sys
from concurrent.futures import ThreadPoolExecutor
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from clirun import PERIOD, Scenario, pattern_bytes

M = (1 << 64) - 1


def lcg_pattern():
    x, out = 0x123456789ABCDEF0, []
    for _ in range(PERIOD // 8):
        x = (x * 6364136223846793005 + 1442695040888963407) & M
        out.append(struct.pack("<Q", x ^ x >> 29))
    return b"".join(out)


def chunks(pat, segs):
    """segs: (pos, n): bytes pat[(pos + k) % PERIOD]"""
    for pos, n in segs:
        o = pos % PERIOD
        turned = pat[o:] + pat[:o]
        big = turned * 8
        while n >= len(big):
            yield big
            n -= len(big)
        while n >= PERIOD:
            yield turned
            n -= PERIOD
        yield turned[:n]


def digest(small, parallel, out, key, pat, segs, pool):
    f = hashlib.blake2s if small else hashlib.blake2b
    if not parallel:
        h = f(digest_size=out, key=key)
        for c in chunks(pat, segs):
            h.update(c)
        return h.digest()
    full = 32 if small else 64
    assert out == full
    ways, block = (8, 64) if small else (4, 128)
    leaves = [f(digest_size=full, key=key, fanout=ways, depth=2, inner_size=full, node_offset=i, node_depth=0,
                last_node=i == ways - 1) for i in range(ways)]
    carry = b""
    row = ways * block
    for c in chunks(pat, segs):
        c = carry + c
        n = len(c) // row * row
        a = np.frombuffer(c[:n], dtype=np.uint8).reshape(-1, ways, block)
        parts = [np.ascontiguousarray(a[:, i, :]) for i in range(ways)]
        list(pool.map(lambda i: leaves[i].update(parts[i]), range(ways)))
        carry = c[n:]
    for i in range(ways):
        leaves[i].update(carry[i * block:(i + 1) * block])
    # hashlib would hash a key given to the root, so the key length is set in
    # the parameters through the initial state: only unkeyed roots here.
    assert not key
    root = f(digest_size=full, fanout=ways, depth=2, inner_size=full, node_depth=1, last_node=True)
    for l in leaves:
        root.update(l.digest())
    return root.digest()


def main():
    out = {"world": {"quick": [], "thorough": []}, "cli": {"C09": [], "C11": []}, "digests": {}}
    pool = ThreadPoolExecutor(8)
    pat = lcg_pattern()
    G = 1 << 32
    jobs = []
    for func in (0, 1):
        jobs += [("quick", func, 0, G + 127, 0, 0, 2), ("quick", func, 1, G + 127, 77, 1, 2),
                 ("quick", func, 2, G + 127, 77, 1, 2), ("quick", func, 3, G + 127, 0, 1, 2),
                 ("quick", func, 4, G + 127, 77, 0, 2), ("thorough", func, 1, G + 1, 127, 0, 0),
                 ("thorough", func, 1, G, 0, 1, 1), ("thorough", func, 3, 2 * G + 5, 0, 0, 2)]
    for func in (2, 3):
        jobs += [("quick", func, 0, G + 127, 0, 0, 2), ("quick", func, 1, G + 5127, 77, 0, 2),
                 ("quick", func, 1, G + 127, 77, 0, 0), ("thorough", func, 1, G + 127, 77, 0, 1)]
    jobs += [("quick", 3, 1, 8 * G + 700, 77, 0, 2), ("thorough", 2, 1, 4 * G + 700, 77, 0, 2),
             ("thorough", 3, 0, 8 * G + 511, 0, 0, 2)]
    memo = {}
    for tier, func, mode, size, head, keyed, cpu in jobs:
        k = (func, size, head, keyed)
        if k not in memo:
            small, par = func & 1, func >> 1
            memo[k] = digest(small, par, 32 if small else 64, b"\x42" * 11 if keyed else b"", pat,
                             [(0, head), (0, size)], pool)
            print(k, memo[k].hex()[:32], flush=True)
        d = memo[k]
        out["world"][tier].append("big %d %d %d %d %d %d %d %d" % (
            func, mode, size, head, keyed, cpu, int.from_bytes(d[:8], "big"), int.from_bytes(d[8:16], "big")))
    pat = pattern_bytes()[:PERIOD]
    cli = []
    for func, size in ((0, G + 127), (1, G + 127), (2, G + 129), (3, G + 4096), (0, G + 1), (1, G), (3, G + 1), (0, 3 * G >> 1)):
        small, par = func & 1, func >> 1
        opts = (["opt 13"] if small else []) + (["opt 14"] if par else [])
        text = ["b2sim 1", "property C11", "seed 0"] + opts + [
            "opt 11", "arg 1 0", "arg 2 0", "arg 3 0", "file 1 1000 5", "file 2 %d 8192" % size, "file 3 4096 77"]
        out["cli"]["C11"].append(text)
        if func != 2 and size > G + 1:
            out["cli"]["C09"].append(["b2sim 1", "property C09", "seed 0"] + opts + ["file 0 %d 8192" % size])
        sc = Scenario("\n".join(text))
        d = digest(small, par, 32 if small else 64, b"", pat, [(8192, size)], pool)
        print(func, size, d.hex()[:32], flush=True)
        out["digests"][repr((sorted(sc.params.items()), [(0, size, 8192)]))] = d.hex()
    with open(os.path.join(ROOT, "lib", "giants.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
