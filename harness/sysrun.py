"""Performs KemSystem behaviours on the library and records SystemTrace events."""
import random
import alg, kyb
from kyb import PK, SK, CT
Q = 3329

def raise12(b, k):
    """The same key material with every coefficient below 767 encoded as c + q."""
    out = b""
    for i in range(k):
        a = alg.unpack(b[384*i:384*(i+1)], 12); a = [int(c) + Q if c < 4096 - Q else int(c) for c in a]
        out += alg.pack(a, 12)
    return out

def related(R, n, size=32):
    """n different strings, independent or closely related."""
    c = R.randrange(6)
    if c < 2: xs = [R.randbytes(size) for _ in range(n)]
    else:
        base = bytearray(R.randbytes(size)); xs = []
        for i in range(n):
            x = bytearray(base)
            if c == 2: x[R.randrange(size)] ^= 1 << R.randrange(8)
            elif c == 3: x[size//2:] = R.randbytes(size//2)
            elif c == 4: x[:size//2] = R.randbytes(size//2)
            else: x[-1] ^= i + 1
            xs.append(bytes(x))
    return xs if len(set(xs)) == n else [R.randbytes(size) for _ in range(n)]

def mask(R, n):
    x = bytearray(n); c = R.randrange(8)
    if c == 0: x[R.randrange(n)] = 1 << R.randrange(8)
    elif c == 1: x[R.randrange(n)] = R.randrange(1, 256)
    elif c == 2:
        i, j = R.sample(range(n), 2); x[i] = x[j] = R.randrange(1, 256)
    elif c == 3:
        s = R.choice([1, 2, 4, 8, 16, 32, 64, 128, 256]); i = R.randrange(n - s); x[i] = x[i+s] = 1 << R.randrange(8)
    elif c == 4: x[n - 1 - R.randrange(32)] = 1 << R.randrange(8)
    elif c == 5:
        for i in range(R.choice([0, n - 128, n // 2]), n): x[i] = R.choice([0x80, 1, 255])
    elif c == 6: x = bytearray(R.randbytes(n))
    else:
        for i in R.sample(range(n), R.choice([2, 3, 4, 8, 16, 256])): x[i] = R.randrange(1, 256)
    return bytes(x)
def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))

class Runner:
    NCOIN = 3
    def __init__(self, R, impls=("ref", "avx2"), mode="real", choose=None, getlib=None):
        self.R, self.impls, self.mode = R, impls, mode
        self.choose = choose or (lambda op, k: R.choice(self.impls))
        self.getlib = getlib or (lambda impl, k: kyb.get(impl, k, mode))
    def lib(self, op, k): return self.getlib(self.choose(op, k), k)
    def reset(self):
        self.ids = {}; self.pks, self.sks, self.cts = [], [], []; self.pos = 0
        self.coins = related(self.R, self.NCOIN); self.masks = {}
        self.tape = b"".join(self.coins[j % self.NCOIN] for j in range(40))
    def id(self, b): return self.ids.setdefault(bytes(b), len(self.ids) + 1)
    def sk_ids(self, k, sk): return [self.id(x) for x in self.parts(k, sk)]
    @staticmethod
    def parts(k, sk): return [sk[:384*k], sk[384*k:768*k+32], sk[768*k+32:768*k+64], sk[768*k+64:]]
    def step(self, e):
        op = e["op"]; R = self.R; I = self.id; st = 0; d0 = 0
        if op in ("kgd", "kg"):
            k = e["k"]; b = self.lib(op, k); b.tape(self.tape[32*self.pos:])
            if op == "kgd":
                d, z = self.coins[e["d"]-1], self.coins[e["z"]-1]; st, pk, sk = b.keypair_derand(d + z)
            else:
                d, z = self.tape[32*self.pos:][:32], self.tape[32*self.pos+32:][:32]; st, pk, sk = b.keypair(); self.pos += 2
            d0 = b.tape_pos(); self.pks.append((k, pk)); self.sks.append((k, sk))
            ids = [I(d), I(z), I(pk)] + self.sk_ids(k, sk)
        elif op in ("encd", "enc"):
            k, pk = self.pks[e["p"]-1]; b = self.lib(op, k); b.tape(self.tape[32*self.pos:])
            if op == "encd":
                m = self.coins[e["m"]-1]; st, ct, ss = b.enc_derand(pk, m)
            else:
                m = self.tape[32*self.pos:][:32]; st, ct, ss = b.enc(pk); self.pos += 1
            d0 = b.tape_pos(); self.cts.append((k, ct)); ids = [I(m), I(pk), I(ct), I(ss)]
        elif op == "dec":
            k, sk = self.sks[e["s"]-1]; k2, ct = self.cts[e["c"]-1]; b = self.lib(op, k); b.tape(self.tape[32*self.pos:])
            st, ss = b.dec(ct, sk); d0 = b.tape_pos(); ids = [I(ct), I(ss)]
        elif op == "alt":
            k, ct = self.cts[e["c"]-1]; ct = xor(ct, self.mask(k, e["a"])); self.cts.append((k, ct)); ids = [I(ct)]
        elif op == "npk":
            k, pk = self.pks[e["p"]-1]; pk = raise12(pk, k) + pk[-32:]; self.pks.append((k, pk)); ids = [I(pk)]
        elif op == "nsk":
            k, sk = self.sks[e["s"]-1]; sk = raise12(sk, k) + sk[384*k:]; self.sks.append((k, sk)); ids = self.sk_ids(k, sk)[:1]
        elif op == "mix":
            k, a = self.sks[e["s"]-1]; _, b2 = self.sks[e["t"]-1]; p, q = self.parts(k, a), self.parts(k, b2)
            p[e["part"]-1] = q[e["part"]-1]; sk = b"".join(p); self.sks.append((k, sk)); ids = self.sk_ids(k, sk)
        elif op == "setp":
            import hashlib
            k, sk = self.sks[e["s"]-1]; _, pk = self.pks[e["p"]-1]; p = self.parts(k, sk); p[1], p[2] = pk, hashlib.sha3_256(pk).digest()
            sk = b"".join(p); self.sks.append((k, sk)); ids = [I(pk)]
        elif op == "rewind": self.pos = 0; ids = []
        return dict(e, ids=ids, st=st, draw=d0)
    def mask(self, k, a):
        if (k, 1) not in self.masks:
            while True:
                m = [mask(self.R, CT[k]) for _ in range(3)]; z = bytes(CT[k])
                if len(set(m)) == 3 and z not in m and xor(m[0], m[1]) != m[2]: break
            for i in range(3): self.masks[k, i+1] = m[i]
        return self.masks[k, a]
    def perform(self, beh):
        self.reset()
        out = [dict(op="reset")]
        for e in beh: out.append(self.step(e))
        return out

def run_batch(behs, seed, impls=("ref", "avx2"), mode="real"):
    R = random.Random(seed); r = Runner(R, impls, mode)
    return [e for b in behs for e in r.perform(b)]
