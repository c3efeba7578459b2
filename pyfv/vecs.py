"""vecs.py OUT.json SEED KIND:n:gen...   test vectors (inputs and specified outputs) for a concrete
comparison on the real interpreter and libraries.  Used to confirm a failed obligation with a failing
input, and as the bounded stand-in for a function the verifier could not read."""
import sys, os, json, random, hashlib, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import spec
class Conc:
    def shake(self, b, d, L): return list((hashlib.shake_128 if b == 128 else hashlib.shake_256)(bytes(d)).digest(L))
    def genA(self, S, seed):
        if S.gen == 'SHAKE': return S.genA(seed)
        n = S.n; a = np.zeros((n, n // 8, 8), dtype='<u2'); a[:, :, 0] = np.arange(n)[:, None]; a[:, :, 1] = 8 * np.arange(n // 8)[None, :]
        o = subprocess.run(['openssl', 'enc', '-aes-128-ecb', '-nopad', '-K', bytes(seed).hex()], input=a.tobytes(), capture_output=True, check=True).stdout
        return (np.frombuffer(o, dtype='<u2').reshape(n, n).astype(int) % S.q).tolist()
    def mm(self, S, X, Y): return (np.array(X, dtype=np.int64) @ np.array(Y, dtype=np.int64) % S.q).tolist()
def vectors(kind, n, gen, R):
    S = spec.Spec(n, gen, Conc()); q = S.q; D = S.D; rb = lambda k: [R.randrange(256) for _ in range(k)]; r = []
    hx = lambda l: bytes(l).hex(); edge = [0, 1, q - 1, q // 2, q // 2 - 1, (q >> S.B) // 2, (q >> S.B) // 2 - 1, (q >> S.B), 255, 256]
    mats = lambda a, b: [[[q - 1] * b for _ in range(a)], [[0] * b for _ in range(a)], [[(i * b + j) * 31 % q for j in range(b)] for i in range(a)]] + [[[R.choice(edge) if R.random() < .3 else R.randrange(q) for j in range(b)] for i in range(a)] for _ in range(3)]
    if kind == 'encode':
        for k in [[0] * S.lmu, [255] * S.lmu] + [[1 << (i & 7) if j == i >> 3 else 0 for j in range(S.lmu)] for i in range(8 * S.lmu)] + [rb(S.lmu) for _ in range(200)]: r.append((dict(k=hx(k)), S.encode(k)))
    elif kind == 'decode':
        vals = list(range(q)); R.shuffle(vals)
        for p in range(0, q, 64): K = [vals[p + 8 * i:p + 8 * i + 8] for i in range(8)]; r.append((dict(K=K), hx(S.decode(K))))
        for K in mats(8, 8) + [[[e] * 8 for _ in range(8)] for e in edge] + [[[(2 * k + 1) * (q >> S.B) // 2 % q] * 8 for _ in range(8)] for k in range(1 << S.B)]: r.append((dict(K=K), hx(S.decode(K))))
    elif kind == 'pack':
        for a, b in ((n, 8), (8, n), (8, 8)):
            for C in mats(a, b): r.append((dict(C=C), hx(S.pack(C))))
    elif kind == 'unpack':
        for a, b in ((n, 8), (8, n), (8, 8)):
            for B in [[255] * (D * a * b // 8), [0] * (D * a * b // 8)] + [rb(D * a * b // 8) for _ in range(3)]: r.append((dict(b=hx(B), n1=a, n2=b), S.unpack(B, a, b)))
    elif kind == 'sample': r = [(dict(r=v), S.sample(v)) for v in range(65536)]
    elif kind == 'smat':
        for a, b in ((n, 8), (8, n), (8, 8)):
            w = [R.randrange(65536) for _ in range(a * b)]; r.append((dict(r=w, n1=a, n2=b), S.sample_matrix(w, a, b)))
    elif kind == 'gen':
        for sd in ([0] * 16, rb(16)): r.append((dict(seed=hx(sd)), S.P.genA(S, sd)))
    elif kind == 'keygen':
        for _ in range(2): x = rb(S.ls + S.lse + 16); pk, sk = S.keygen(x); r.append((dict(rnd=hx(x)), [hx(pk), hx(sk)]))
    elif kind == 'encaps':
        for t in range(2):
            pk = S.keygen(rb(S.ls + S.lse + 16))[0] if t else rb(16 + D * n); mu = rb(S.lmu); ct, ss = S.encaps(pk, mu); r.append((dict(pk=hx(pk), rnd=hx(mu)), [hx(ct), hx(ss)]))
    elif kind == 'decaps':
        pk, sk = S.keygen(rb(S.ls + S.lse + 16)); ct, ss = S.encaps(pk, rb(S.lmu)); l = [ct]
        for p in (0, D * n - 1, D * n, D * n + 8 * D - 1): c = list(ct); c[p] ^= 1 << R.randrange(8); l.append(c)
        for c in l: r.append((dict(sk=hx(sk), ct=hx(c)), hx(S.decaps(sk, c))))
        x = rb(len(sk)); c = rb(len(ct)); r.append((dict(sk=hx(x), ct=hx(c)), hx(S.decaps(x, c))))
    return r
if __name__ == '__main__':
    R = random.Random(int(sys.argv[2])); out = []
    for j in sys.argv[3:]:
        k, n, g = j.split(':')[:3]; out.append({'job': '%s:%s:%s' % (k, n, g), 'vectors': vectors(k, int(n), g, R)})
    json.dump(out, open(sys.argv[1], 'w'))
