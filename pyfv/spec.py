"""FrodoKEM specification functions, written over an abstract arithmetic so that the same text is
evaluated symbolically (terms, uninterpreted primitives) and concretely (ints, hashlib and the
primitives given in `P`).  Byte strings are lists."""
from terms import *
PAR = {
 640: dict(D=15, B=2, ls=16, lse=16, lk=16, T=[4643, 13363, 20579, 25843, 29227, 31145, 32103, 32525, 32689, 32745, 32762, 32766, 32767], sh=128),
 976: dict(D=16, B=3, ls=24, lse=24, lk=24, T=[5638, 15915, 23689, 28571, 31116, 32217, 32613, 32731, 32760, 32766, 32767], sh=256),
 1344: dict(D=16, B=4, ls=32, lse=32, lk=32, T=[9142, 23462, 30338, 32361, 32725, 32765, 32767], sh=256)}
NB = 8
class Spec:
    def __init__(self, n, gen, prim):
        self.n = n; self.gen = gen; self.P = prim; self.__dict__.update(PAR[n]); self.q = 1 << self.D; self.lmu = self.B * 8
    def shake(self, data, L): return self.P.shake(self.sh, data, L)
    def sample(self, r):
        """-1^(r0) * #{z : T(z) < r >> 1} over all but the last entry"""
        def f(r):
            e = sum(1 for t in self.T[:-1] if (r >> 1) > t); return -e if r & 1 else e
        return app(r, f, ('sample', self.n))
    def sample_matrix(self, r, n1, n2): return [[self.sample(r[i * n2 + j]) for j in range(n2)] for i in range(n1)]
    def words(self, b): return [w16(b[2 * i], b[2 * i + 1]) for i in range(len(b) // 2)]
    def encode(self, mu):
        """entry e holds bits B*e .. B*e+B-1 of mu in its top B bits"""
        kb = [bit(mu[i // 8], i % 8) for i in range(64 * self.B)]; r = []
        for e in range(64):
            v = 0
            for l in range(self.B): v = add(v, mul(kb[self.B * e + l], 1 << (self.D - self.B + l)))
            r.append(simp(v))
        return [r[8 * i:8 * i + 8] for i in range(8)]
    def decode(self, M):
        kb = []
        for row in M:
            for x in row:
                d = app(x, lambda v: (((v << self.B) + (self.q >> 1)) // self.q) % (1 << self.B), ('dc', self.n)); kb += [bit(d, l) for l in range(self.B)]
        r = []
        for i in range(len(kb) // 8):
            v = 0
            for j in range(8): v = add(v, mul(kb[8 * i + j], 1 << j))
            r.append(simp(v))
        return r
    def pack(self, C):
        bits = [bit(x, self.D - 1 - l) for row in C for x in row for l in range(self.D)]; r = []
        for i in range(len(bits) // 8):
            v = 0
            for j in range(8): v = add(v, mul(bits[8 * i + j], 128 >> j))
            r.append(simp(v))
        return r
    def unpack(self, b, n1, n2):
        C = []
        for i in range(n1):
            row = []
            for j in range(n2):
                v = 0
                for l in range(self.D):
                    p = (i * n2 + j) * self.D + l; v = add(v, mul(bit(b[p // 8], 7 - p % 8), 1 << (self.D - 1 - l)))
                row.append(simp(v))
            C.append(row)
        return C
    def genA(self, seed):
        A = []; n = self.n
        for i in range(n):
            row = []
            if self.gen == 'AES':
                for j in range(0, n, 8): row += [mod(x, self.q) for x in self.words(self.P.aes(seed, [i & 255, i >> 8, j & 255, j >> 8] + [0] * 12))]
            else: row = [mod(x, self.q) for x in self.words(self.P.shake(128, [i & 255, i >> 8] + list(seed), 2 * n))]
            A.append(row)
        return A
    def A(self, seed): return self.P.genA(self, seed)
    def mm(self, X, Y): return self.P.mm(self, X, Y)
    def mul(self, X, Y):
        """exact product modulo q, as one sum of products per entry"""
        YT = [list(c) for c in zip(*Y)]
        return [[sumprod(x, y, self.q) for y in YT] for x in X]
    def madd(self, X, Y): return [[mod(add(a, b), self.q) for a, b in zip(x, y)] for x, y in zip(X, Y)]
    def msub(self, X, Y): return [[mod(add(a, neg(b)), self.q) for a, b in zip(x, y)] for x, y in zip(X, Y)]
    def keygen(self, rnd):
        s, se, z = rnd[:self.ls], rnd[self.ls:self.ls + self.lse], rnd[self.ls + self.lse:self.ls + self.lse + 16]; n = self.n
        seedA = self.shake(z, 16); A = self.A(seedA); r = self.words(self.shake([0x5F] + se, 32 * n))
        ST = self.sample_matrix(r[:8 * n], 8, n); E = self.sample_matrix(r[8 * n:16 * n], n, 8); S = [list(c) for c in zip(*ST)]
        B = self.madd(self.mm(A, S), E); b = self.pack(B); pk = seedA + b; pkh = self.shake(pk, self.lk)
        st = []
        for row in ST:
            for x in row: y = mod(x, 65536); st += [byte_of(y, 0), byte_of(y, 1)]
        return pk, s + pk + st + pkh
    def enc(self, pkh, mu, seedA, b):
        n = self.n; sk = self.shake(pkh + mu, self.lse + self.lk); se, k = sk[:self.lse], sk[self.lse:]
        r = self.words(self.shake([0x96] + se, 2 * (16 * n + 64)))
        S = self.sample_matrix(r[:8 * n], 8, n); E1 = self.sample_matrix(r[8 * n:16 * n], 8, n); E2 = self.sample_matrix(r[16 * n:], 8, 8)
        B1 = self.madd(self.mm(S, self.A(seedA)), E1); B = self.unpack(b, n, 8)
        C = self.madd(self.madd(self.mm(S, B), E2), self.encode(mu))
        return B1, C, k
    def encaps(self, pk, mu):
        B1, C, k = self.enc(self.shake(pk, self.lk), mu, pk[:16], pk[16:]); ct = self.pack(B1) + self.pack(C)
        return ct, self.shake(ct + k, self.lk)
    def decaps(self, sk, ct):
        n = self.n; lb = self.D * n; c1 = ct[:lb]; c2 = ct[lb:]; o = self.ls; s = sk[:o]; seedA = sk[o:o + 16]; b = sk[o + 16:o + 16 + lb]; o += 16 + lb
        ST = [[app(x, lambda v: v - 65536 if v >= 32768 else v, 's16') for x in self.words(sk[o + 2 * n * i:o + 2 * n * (i + 1)])] for i in range(8)]; pkh = sk[o + 16 * n:]
        S = [list(c) for c in zip(*ST)]; B1 = self.unpack(c1, 8, n); C = self.unpack(c2, 8, 8)
        mu = self.decode(self.msub(C, self.mm(B1, S))); B2, C2, k = self.enc(pkh, mu, seedA, b)
        ok = conjunction([eq(x, y) for X, Y in ((B1, B2), (C, C2)) for u, v in zip(X, Y) for x, y in zip(u, v)])
        return self.shake(ct + [ite(ok, a, c) for a, c in zip(k, s)], self.lk)
def w16(lo, hi): return simp(add(lo, mul(hi, 256)))
def byte_of(x, i):
    v = 0
    for j in range(8): v = add(v, mul(bit(x, 8 * i + j), 1 << j))
    return simp(v)
