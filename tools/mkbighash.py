#!/usr/bin/env python3
"""Digests of long zero strings by OpenSSL (not by the code under test)."""
import hashlib, json, os
BIG = (1 << 32) + 17; r = {}
z = bytes(1 << 20)
def feed(h):
    for _ in range(BIG >> 20): h.update(z)
    h.update(z[:BIG & ((1 << 20) - 1)]); return h
r["sha3_256"] = feed(hashlib.sha3_256()).hexdigest(); r["sha3_512"] = feed(hashlib.sha3_512()).hexdigest()
r["shake128"] = feed(hashlib.shake_128()).hexdigest(64); r["shake256"] = feed(hashlib.shake_256()).hexdigest(64)
W = 64 << 20; n2 = (BIG // 168 + 1) * 168; s = hashlib.shake_128(b"").digest(n2)
def window(n):
    a = n // W * W; t = n - a; return s[a:n] + s[a - W + t:a]
r["squeeze"] = hashlib.sha256(window(BIG)).hexdigest(); r["blocks"] = hashlib.sha256(window(n2)).hexdigest()
json.dump(r, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "big_hash.json"), "w"), indent=1)
