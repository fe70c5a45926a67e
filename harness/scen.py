"""Scenario families: each drives the real code (through kyb) and records events
for KemTrace.  R = random.Random; 'b' a kyb.Lib."""
import os, pickle, random, sys, traceback
import numpy as np
import alg, kyb
from alg import Q, ETA1, DU, DV
from kyb import PK, SK, CT
IMPLS = ("ref", "avx2"); KS = (2, 3, 4)
L = list

# ---------------------------------------------------------------- recording
def rec(b, note, **kw):
    e = {a: (L(v) if isinstance(v, (bytes, bytearray)) else v) for a, v in kw.items()}
    e["k"] = b.k; e["impl"] = b.impl; e["note"] = note
    if b.mode == "orc":
        e["tbl"] = b.log()
        e["foreign"] = int(b.foreign())
    return e
def keypair(b, coins, note=""):
    if b.mode == "orc": b.clearlog()
    st, pk, sk = b.keypair_derand(coins)
    return pk, sk, rec(b, note, op="keypair_derand", coins=coins, st=st, pk=pk, sk=sk)
def enc(b, pk, m, note=""):
    if b.mode == "orc": b.clearlog()
    st, ct, ss = b.enc_derand(pk, m)
    return ct, ss, rec(b, note, op="enc_derand", coins=m, pk=pk, ct=ct, ss=ss, st=st)
def dec(b, sk, ct, note=""):
    if b.mode == "orc": b.clearlog()
    st, ss = b.dec(ct, sk)
    return ss, rec(b, note, op="dec", sk=sk, ct=ct, st=st, ss=ss)

# --------------------------------------------------------- oracle-world ops
def orc_keypair(b, R, note, xof=None, noise=None, coins=None, H=None):
    """Key generation with chosen matrix streams {(j,i): bytes} and noise streams {n: bytes}."""
    coins = coins or R.randbytes(64)
    b.reset()
    rho, sigma = R.randbytes(32), R.randbytes(32)
    b.program(72, 6, coins[:32] + bytes([b.k]), rho + sigma)
    for (x, y), s in (xof or {}).items(): b.program(168, 31, rho + bytes([x, y]), s)
    for n, s in (noise or {}).items(): b.program(136, 31, sigma + bytes([n]), s)
    return keypair(b, coins, note)
def orc_enc(b, R, note, t=None, xof=None, noise=None, m=None, rho=None, pk=None, reset=True):
    """Encapsulation to a crafted public key (t: k arrays of 12-bit values)."""
    m = m if m is not None else R.randbytes(32)
    if reset: b.reset()
    if pk is None:
        rho = rho or R.randbytes(32)
        t = t if t is not None else [[R.randrange(Q) for _ in range(256)] for _ in range(b.k)]
        pk = b"".join(alg.pack(x, 12) for x in t) + rho
    rho = pk[-32:]
    h, r = R.randbytes(32), R.randbytes(32)
    b.program(136, 6, pk, h)
    b.program(72, 6, m + h, R.randbytes(32) + r)
    for (x, y), s in (xof or {}).items(): b.program(168, 31, rho + bytes([x, y]), s)
    for n, s in (noise or {}).items(): b.program(136, 31, r + bytes([n]), s)
    return enc(b, pk, m, note)
def mksk(R, s, pk, h=None, z=None):
    return b"".join(alg.pack(x, 12) for x in s) + pk + (h or R.randbytes(32)) + (z or R.randbytes(32))
def rndpoly(R, top=Q): return [R.randrange(top) for _ in range(256)]

# ------------------------------------------------------------ real-world families
def edge_bytes(R, n):
    """Byte strings with structure: constants, ramps, single bits, random."""
    c = R.randrange(8)
    if c == 0: return bytes([R.choice([0, 255, 1, 128, 0x55, 0xAA])]) * n
    if c == 1: return bytes((R.randrange(256) + i) & 255 for i in range(n))
    if c == 2:
        x = bytearray(n); x[R.randrange(n)] = 1 << R.randrange(8); return bytes(x)
    if c == 3:
        x = bytearray(b"\xff" * n); x[R.randrange(n)] ^= 1 << R.randrange(8); return bytes(x)
    return R.randbytes(n)
def real_ops(b, R, kinds=("kg", "enc", "dec", "rej")):
    """One honest key pair and what is done with it, real hashing."""
    out = []
    pk, sk, e = keypair(b, edge_bytes(R, 32) + edge_bytes(R, 32), "honest"); 
    if "kg" in kinds: out.append(e)
    ct, ss, e = enc(b, pk, edge_bytes(R, 32), "honest")
    if "enc" in kinds: out.append(e)
    if "dec" in kinds: out.append(dec(b, sk, ct, "honest")[1])
    if "rej" in kinds: out.append(dec(b, sk, mutate(R, ct), "altered")[1])
    return out

def mutate(R, ct):
    """An altered ciphertext: single bits, cancelling pairs, blocks, anything."""
    x = bytearray(ct); n = len(x); c = R.randrange(9)
    if c == 0: x[R.randrange(n)] ^= 1 << R.randrange(8)
    elif c == 1: x[R.randrange(n)] ^= R.randrange(1, 256)
    elif c == 2:                                      # equal xor differences at two places
        i, j = R.sample(range(n), 2); d = R.randrange(1, 256); x[i] ^= d; x[j] ^= d
    elif c == 3:                                      # at a vector distance
        d = 1 << R.randrange(8); s = R.choice([4, 8, 16, 32, 64, 128]); i = R.randrange(n - s); x[i] ^= d; x[i+s] ^= d
    elif c == 4:                                      # additive cancellation
        i, j = R.sample(range(n), 2); d = R.randrange(1, 256); x[i] = (x[i] + d) & 255; x[j] = (x[j] - d) & 255
    elif c == 5: x[-1 - R.randrange(32)] ^= 1 << R.randrange(8)
    elif c == 6:
        for i in range(n): x[i] ^= 0x80
    elif c == 7: x = bytearray(R.randbytes(n))
    else:
        i, j = R.sample(range(n), 2); x[i], x[j] = x[j], x[i]
        if bytes(x) == ct: x[0] ^= 1
    return bytes(x)

# ------------------------------------------------------------------ matrix
EDGE12 = [0, 1, 2047, 2048, 3327, 3328, 3329, 3330, 3584, 3839, 3840, 4094, 4095, 255, 256, 16, 15]
def acc_val(R): return R.choice([0, 1, 3328, 3327, 2048, 255, 256]) if R.random() < .25 else R.randrange(Q)
def rej_val(R): return R.choice([3329, 3330, 4095, 4094, 3584, 3840]) if R.random() < .5 else R.randrange(Q, 4096)
def stream_from_counts(R, counts, layout):
    """counts[i] accepted candidates among the 112 of block i; layout places them."""
    vals = []
    for n in counts:
        n = max(0, min(112, n))
        if layout == "front": pos = set(range(n))
        elif layout == "back": pos = set(range(112 - n, 112))
        elif layout == "even": pos = set((i * 112) // n for i in range(n)) if n else set()
        elif layout == "odd2": pos = set(L(range(1, 112, 2))[:n]) | set(L(range(0, 112, 2))[:max(0, n - 56)])
        else: pos = set(R.sample(range(112), n))
        vals += [acc_val(R) if i in pos else rej_val(R) for i in range(112)]
    return vals
def finish(R, vals):
    """Continue at random density until 256 accepted values are in, then add edge values."""
    need = 256 - sum(v < Q for v in vals)
    while need > 0:
        v = acc_val(R) if R.random() < R.choice([.2, .8, .9]) else rej_val(R); vals.append(v); need -= v < Q
    while len(vals) % 112: vals.append(R.choice([rej_val(R), acc_val(R)]))
    return vals
def random_stream(R):
    c = R.randrange(10)
    if c == 0: vals = [R.choice(EDGE12) for _ in range(336)]
    elif c == 1: vals = [3328 if R.random() < .76 else 3329 for _ in range(336)]
    elif c == 2: vals = [rej_val(R)] * 112 * R.randrange(1, 6)
    elif c == 3:                                              # 256th value exactly at a chosen place
        p = R.choice([255, 256, 257, 258, 271, 272, 303, 304, 319, 320, 327, 328, 333, 334, 335, 336, 337, 338, 339, 343, 344, 351, 352, 446, 447, 448])
        pos = set(R.sample(range(p), 255)) | {p}
        vals = [acc_val(R) if i in pos else rej_val(R) for i in range(p + 1)]
    elif c == 4: vals = stream_from_counts(R, [R.choice([0, 1, 56, 85, 86, 111, 112]) for _ in range(3)] + [R.randrange(113) for _ in range(2)], R.choice(["front", "back", "even", "odd2", "rnd"]))
    elif c == 5: vals = [acc_val(R) for _ in range(336)]
    elif c == 6:
        p = R.choice([.05, .3, .5, .7, .95]); vals = [acc_val(R) if R.random() < p else rej_val(R) for _ in range(336)]
    elif c == 7: vals = [(i * 13) % 4096 for i in range(R.randrange(4096), 10 ** 6)][:336]
    else: vals = [R.randrange(4096) for _ in range(336)]
    return alg.xof_stream(finish(R, vals))
def matrix_streams(R, k, gen=random_stream): return {(x, y): gen(R) for x in range(k) for y in range(k)}

# ------------------------------------------------------------------- noise
def noise_bytes(R, n):
    c = R.randrange(7)
    if c == 0: return bytes([R.choice([0, 255, 0x55, 0xAA, 0x33, 0xCC, 0x0F, 0xF0, 0x11, 0x88])]) * n
    if c == 1: return bytes((R.randrange(256) + i) & 255 for i in range(n))
    if c == 2: return bytes(R.choice([0x00, 0xFF, 0x0F, 0xF0, 0x33, 0xCC, 0x3F, 0xC0]) for _ in range(n))
    return R.randbytes(n)

# ----------------------------------------------- exact control of u and v
def exact_enc(b, R, note, u, v, e1=None, e2=None, m=None, c=1, p=0):
    """Crafted so that u_i = u[i] + e1[i], v = v + e2 + 1665 m before compression.
    The one non-zero secret is c X^p."""
    k = b.k
    r0 = np.zeros(256, dtype=np.int64); r0[p] = c
    inv = np.zeros(256, dtype=np.int64)                # (c X^p)^-1 = -c^-1 X^(256-p)
    ci = pow(c % Q, -1, Q)
    if p == 0: inv[0] = ci
    else: inv[256 - p] = -ci
    invh = alg.ntt(inv)
    xof = {}
    for i in range(k):
        xof[(i, 0)] = alg.xof_stream(L(alg.basemul(alg.ntt(u[i]), invh)) + [4095] * 80)
    t = [alg.basemul(alg.ntt(v), invh)] + [rndpoly(R) for _ in range(k - 1)]
    noise = {0: alg.cbd_stream_rnd(r0, ETA1[k], R)}
    zero = np.zeros(256, dtype=np.int64)
    for i in range(1, k): noise[i] = alg.cbd_stream_rnd(zero, ETA1[k], R)
    for i in range(k): noise[k + i] = alg.cbd_stream_rnd(e1[i] if e1 is not None else zero, 2, R)
    noise[2 * k] = alg.cbd_stream_rnd(e2 if e2 is not None else zero, 2, R)
    return orc_enc(b, R, note, t=t, xof=xof, noise=noise, m=m if m is not None else bytes(32))

# ------------------------------------------------------------- arithmetic extremes
EXT = [0, 1, 1664, 1665, 3327, 3328]
EXT12 = EXT + [3329, 3330, 4095, 4094, 4993 - 1000, 2048, 4000]
def extreme_poly(R, top=Q):
    """Polynomials that push lazily reduced intermediates to their limits."""
    vals = [x for x in EXT12 if x < top]
    c = R.randrange(8)
    if c == 0: return [R.choice(vals)] * 256
    if c == 1:
        a, d, n = R.choice(vals), R.choice(vals), R.choice([1, 2, 4, 8, 16, 32, 64, 128]); return [a if (i // n) % 2 else d for i in range(256)]
    if c == 2: return [R.choice(vals) for _ in range(256)]
    if c == 3:                     # aligned in the transform domain: inverse transform of an extreme vector
        return L(alg.invntt([R.choice([1664, 1665, 3328, 1]) if R.random() < .5 else 1664 for _ in range(256)]))
    if c == 4: return L(alg.ntt([R.choice([2, 3327, 1664, 1665])] * 256))
    if c == 5:                     # greedy sign alignment of the butterflies with their twiddles
        a = [0] * 256; s = R.choice([1, -1])
        for i in range(256): a[i] = (s * (1664 if i < 128 else 1664 * pow(alg.ZETA[1], -1, Q))) % Q
        return a
    if c == 6: x = [0] * 256; x[R.randrange(256)] = R.choice(vals); return x
    return rndpoly(R, top)
def extreme_noise(R, eta):
    c = R.randrange(5)
    if c == 0: return [R.choice([eta, -eta])] * 256
    if c == 1: return [R.choice([eta, -eta]) for _ in range(256)]
    if c == 2:
        n = R.choice([1, 2, 4, 8, 16, 32, 64, 128]); return [eta if (i // n) % 2 else -eta for i in range(256)]
    if c == 3:
        z = alg.ZETA[R.randrange(128)]; return [eta if (pow(z, i, Q) > Q // 2) else -eta for i in range(256)]
    return [R.randrange(-eta, eta + 1) for _ in range(256)]
def xs(poly): return alg.xof_stream(L(poly) + [4095] * 80)

def arith_ops(b, R):
    k, out = b.k, []
    cb = lambda n, eta: alg.cbd_stream(extreme_noise(R, eta), eta)
    out.append(orc_keypair(b, R, "extreme", xof={(x, y): xs(extreme_poly(R)) for x in range(k) for y in range(k)},
                           noise={n: cb(n, ETA1[k]) for n in range(2 * k)})[2])
    t = [extreme_poly(R, 4096) for _ in range(k)]
    ns = {n: cb(n, ETA1[k] if n < k else 2) for n in range(2 * k + 1)}
    ct, ss, e = orc_enc(b, R, "extreme", t=t, xof={(x, y): xs(extreme_poly(R)) for x in range(k) for y in range(k)}, noise=ns, m=edge_bytes(R, 32))
    out.append(e)
    s = [extreme_poly(R, 4096) for _ in range(k)]
    u = [[R.choice([0, (1 << DU[k]) - 1, 1 << (DU[k] - 1)])] * 256 if R.random() < .5 else L(alg.compress(extreme_poly(R), DU[k])) for _ in range(k)]
    v = [R.randrange(1 << DV[k]) for _ in range(256)]
    ct = b"".join(alg.pack(x, DU[k]) for x in u) + alg.pack(v, DV[k])
    b.reset()
    out.append(dec(b, mksk(R, s, b"".join(alg.pack(x, 12) for x in t) + R.randbytes(32)), ct, "extreme")[1])
    return out

# ----------------------------------------------------------- decryption edges
def dec_edge(b, R, note, w_target=None):
    """Decapsulation steering v - s u onto the rounding edges of the message bits:
    s = (c0 const, 1 const, 0...), u1 and v chosen so that w hits edge values."""
    k = b.k; du, dv = DU[k], DV[k]
    Du_ = alg.decompress(np.arange(1 << du), du); Dv_ = alg.decompress(np.arange(1 << dv), dv)
    inv = {}
    for y in range(1 << du): inv.setdefault(int(Du_[y]), y)
    c0 = R.choice([1, 1, 1, 3328, 2, 17, R.randrange(Q)])
    s = [[0] * 256 for _ in range(k)]
    i0, i1 = R.sample(range(k), 2)
    cst = lambda c: L(alg.ntt([c] + [0] * 255))
    s[i0], s[i1] = cst(c0), cst(1)
    u0 = [R.randrange(1 << du) for _ in range(256)]; u1 = [0] * 256; v = [0] * 256
    edges = [832, 833, 831, 2496, 2497, 2495, 0, 1, 3328, 1664, 1665]
    order = L(range(1 << dv))
    for i in range(256):
        tgt = R.choice(edges) if w_target is None else w_target
        R.shuffle(order); best = None
        for vv in order:
            need = (int(Dv_[vv]) - c0 * int(Du_[u0[i]]) - tgt) % Q
            if need in inv: u1[i], v[i] = inv[need], vv; best = 1; break
        if best is None: u1[i], v[i] = R.randrange(1 << du), R.randrange(1 << dv)
    u = [[R.randrange(1 << du) for _ in range(256)] for _ in range(k)]; u[i0], u[i1] = u0, u1
    ct = b"".join(alg.pack(x, du) for x in u) + alg.pack(v, dv)
    pk = b"".join(alg.pack(rndpoly(R, 4096), 12) for _ in range(k)) + R.randbytes(32)
    b.reset()
    return dec(b, mksk(R, s, pk), ct, note)[1]

# -------------------------------------------------- malformed keys and ciphertexts
def malformed_pk(R, k):
    c = R.randrange(5)
    if c == 0: p = R.randbytes(384 * k)
    elif c == 1: p = b"".join(alg.pack([R.randrange(Q, 4096) for _ in range(256)], 12) for _ in range(k))
    elif c == 2: p = b"".join(alg.pack([R.choice(EDGE12) for _ in range(256)], 12) for _ in range(k))
    elif c == 3: p = bytes([R.choice([0, 255])]) * (384 * k)
    else: p = b"".join(alg.pack(rndpoly(R, 4096), 12) for _ in range(k))
    return p + (edge_bytes(R, 32))
def malformed_sk(R, k):
    c = R.randrange(4)
    if c == 0: return R.randbytes(SK[k])
    s = malformed_pk(R, k)[:-32]
    return s + malformed_pk(R, k) + edge_bytes(R, 32) + edge_bytes(R, 32)

# ------------------------------------------------------------- isolation
def isolated(fn, *a):
    """Runs fn in a child process; a crash of the code under test is data, not an error."""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try: res = ("ok", fn(*a))
            except BaseException: res = ("exc", traceback.format_exc())
            with os.fdopen(w, "wb") as f: pickle.dump(res, f, protocol=4)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f: data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status): return ("crash", os.WTERMSIG(status))
    if not data: return ("crash", status)
    return pickle.loads(data)
