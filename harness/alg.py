"""Scenario-building arithmetic (numpy).  Only used to construct inputs that drive
the code into chosen places; what is right or wrong is decided by the TLA+ spec."""
import numpy as np
Q = 3329
def brv(i): return int('{:07b}'.format(i)[::-1], 2)
ZETA = [pow(17, brv(i), Q) for i in range(128)]
GAMMA = [pow(17, 2 * brv(i) + 1, Q) for i in range(128)]
def ntt(a):
    a = np.array(a, dtype=np.int64) % Q; k = 1; n = 128
    while n >= 2:
        for s in range(0, 256, 2 * n):
            t = ZETA[k] * a[s+n:s+2*n] % Q; k += 1
            a[s+n:s+2*n] = (a[s:s+n] - t) % Q; a[s:s+n] = (a[s:s+n] + t) % Q
        n //= 2
    return a
def invntt(a):
    a = np.array(a, dtype=np.int64) % Q; k = 127; n = 2
    while n <= 128:
        for s in range(0, 256, 2 * n):
            t = a[s:s+n].copy(); a[s:s+n] = (t + a[s+n:s+2*n]) % Q
            a[s+n:s+2*n] = ZETA[k] * (a[s+n:s+2*n] - t) % Q; k -= 1
        n *= 2
    return a * 3303 % Q
G_ = np.array(GAMMA)
def basemul(a, b):
    a = np.array(a, dtype=np.int64); b = np.array(b, dtype=np.int64); r = np.zeros(256, dtype=np.int64)
    r[0::2] = (a[0::2] * b[0::2] + a[1::2] * b[1::2] % Q * G_) % Q
    r[1::2] = (a[0::2] * b[1::2] + a[1::2] * b[0::2]) % Q
    return r
ETA1 = {2: 3, 3: 2, 4: 2}
DU = {2: 10, 3: 10, 4: 11}
DV = {2: 4, 3: 4, 4: 5}
def bits(a, d):
    a = np.asarray(a, dtype=np.int64)
    return ((a[:, None] >> np.arange(d)) & 1).astype(np.uint8).reshape(-1)
def pack(a, d): return np.packbits(bits(a, d), bitorder="little").tobytes()
def unpack(b, d):
    x = np.unpackbits(np.frombuffer(bytes(b), dtype=np.uint8), bitorder="little").reshape(-1, d).astype(np.int64)
    return (x << np.arange(d)).sum(axis=1)
def xof_stream(vals):
    """Stream bytes whose successive 12-bit candidates are vals (padded to whole triples)."""
    v = list(vals) + ([0] if len(vals) % 2 else [])
    return pack(v, 12)
def cbd_stream(coefs, eta):
    """A PRF output whose centred binomial is coefs (each in -eta..eta)."""
    v = []
    for c in coefs:
        c = int(c); a, b = (c, 0) if c >= 0 else (0, -c)
        v.append(((1 << a) - 1) | (((1 << b) - 1) << eta))
    return pack(v, 2 * eta)
def cbd_stream_rnd(coefs, eta, rnd):
    """Same with a random representative of each coefficient."""
    reps = {}
    for x in range(1 << (2 * eta)):
        reps.setdefault(bin(x & ((1 << eta) - 1)).count("1") - bin(x >> eta).count("1"), []).append(x)
    return pack([rnd.choice(reps[int(c)]) for c in coefs], 2 * eta)
def compress(x, d): return ((2 * (1 << d) * np.asarray(x, dtype=np.int64) + Q) // (2 * Q)) % (1 << d)
def decompress(y, d): return (2 * Q * np.asarray(y, dtype=np.int64) + (1 << d)) >> (d + 1)
