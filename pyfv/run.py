"""run.py FILE JOB...   verify one job of the Python implementation; prints one JSON line per job.
JOB = kind:n:gen[:arg]"""
import sys, json, time, resource, inspect, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms, stubs, load, spec
from terms import *
from stubs import SBytes, SByteArray, words, blist
class Prim:
    """symbolic primitives; genA and mm are the contracts of gen and matrix_mul (or their definitions when inlined)"""
    def __init__(self, modular): self.modular = modular
    def shake(self, b, d, L): return stubs.shake(b, SBytes.mk(d), L).l
    def aes(self, k, d): return stubs.aes(SBytes.mk(k), SBytes.mk(d)).l
    def genA(self, S, seed):
        if 'gen' not in self.modular: return S.genA(seed)
        i = stubs.uf('gen%s%d' % (S.gen, S.n), seed)
        return [[F(atom('uf', (i, r * S.n + c), S.q), ident(S.q)) for c in range(S.n)] for r in range(S.n)]
    def mm(self, S, X, Y):
        if 'mm' not in self.modular: return S.mul(X, Y)
        key = tuple(ckey(mod(x, S.q)) for M in (X, Y) for r in M for x in r); i = stubs.uf('mm%d.%d.%d.%d' % (S.q, len(X), len(Y), len(Y[0])), key)
        return [[F(atom('uf', (i, r * len(Y[0]) + c), S.q), ident(S.q)) for c in range(len(Y[0]))] for r in range(len(X))]
def uf(name, data):
    k = (name, tuple(v if not isinstance(v, T) else ckey(v) for v in data)); return stubs.UFI.setdefault(k, len(stubs.UFI))
stubs.uf = uf
class Mismatch(Exception): pass
def flat(x):
    if isinstance(x, (list, tuple)): return [z for y in x for z in flat(y)]
    if isinstance(x, stubs.SeqBase) or isinstance(x, (bytes, bytearray)): return blist(x)
    return [x]
def shape(x):
    if isinstance(x, list): return [shape(y) for y in x]
    if isinstance(x, tuple): return ('t',) + tuple(shape(y) for y in x)
    if isinstance(x, (SBytes, bytes)): return ('bytes', len(x))
    if isinstance(x, (T, int)): return 'int'
    return type(x).__name__
nobl = [0]
def check(got, want, what, modq=0):
    """obligation: got equals want, entry by entry"""
    if shape(got) != shape(want): raise Mismatch('%s: wrong shape or type of the result' % what)
    for i, (a, b) in enumerate(zip(flat(got), flat(want))):
        nobl[0] += 1
        if modq: a, b = mod(a, modq), mod(b, modq)
        if not same(a, b): raise Mismatch('%s: entry %d differs from the specification%s' % (what, i, wit(a, b)))
def wit(a, b):
    a = simp(a); b = simp(b)
    if isinstance(a, (F, int)) and isinstance(b, (F, int)) and (isinstance(a, F) or isinstance(b, F)):
        at = (a if isinstance(a, F) else b).atom
        if all(not isinstance(v, F) or v.atom is at for v in (a, b)):
            g = lambda v, i: int(v.tab.a[i]) if isinstance(v, F) else v
            for i in range(at.dom):
                if g(a, i) != g(b, i): return ' when unknown %s has value %d: %d instead of %d' % (at.name if at.name else at.kind, i, g(a, i), g(b, i))
    return ''
def inb(name, n): return SBytes.mk(words('in', name, n))
def inm(name, n1, n2, dom): return [[var('in', (name, i * n2 + j), dom) for j in range(n2)] for i in range(n1)]
def frame(args, fn, what):
    """run fn and check that it left its arguments alone"""
    before = [(a, [ckey(v) for v in flat(a)]) for a in args]; r = fn()
    for a, k in before:
        if [ckey(v) for v in flat(a)] != k: raise Mismatch(what + ': an argument is modified')
    return r
def find(cls, suffix):
    l = [k for k in vars(cls) if k.lower().endswith(suffix)]
    return l[0] if len(l) == 1 else None
def nargs(f): return len(inspect.signature(f).parameters)
def job(path, spec_, modular):
    kind, n, gen, *rest = spec_.split(':'); n = int(n); g = load.load(path); cls = g['FrodoKEM']; S = spec.Spec(n, gen, Prim(modular))
    o = cls('FrodoKEM-%d-%s' % (n, gen)); q = S.q; D = S.D
    shapes = {'n8': (n, 8), '8n': (8, n), '88': (8, 8)}
    if kind == 'encode': k = inb('mu', S.lmu); check(frame([k], lambda: o.encode(k), 'encode'), S.encode(k.l), 'encode')
    elif kind == 'decode': K = inm('K', 8, 8, q); check(frame([K], lambda: o.decode(K), 'decode'), SBytes.mk(S.decode(K)), 'decode')
    elif kind == 'pack':
        for a, b in shapes.values(): C = inm('C', a, b, q); check(frame([C], lambda: o.pack(C), 'pack'), SBytes.mk(S.pack(C)), 'pack %dx%d' % (a, b))
    elif kind == 'unpack':
        for a, b in shapes.values(): B = inb('b', D * a * b // 8); check(frame([B], lambda: o.unpack(B, a, b), 'unpack'), S.unpack(B.l, a, b), 'unpack %dx%d' % (a, b))
    elif kind == 'sample': r = var('in', 'r', 65536); check(o.sample(r), S.sample(r), 'sample')
    elif kind == 'smat':
        for a, b in shapes.values(): r = [var('in', ('r', i), 65536) for i in range(a * b)]; check(frame([r], lambda: o.sample_matrix(r, a, b), 'sample_matrix'), S.sample_matrix(r, a, b), 'sample_matrix %dx%d' % (a, b))
    elif kind == 'gen':
        sd = inb('seedA', 16); f = o.genAES128 if gen == 'AES' else o.genSHAKE128
        w = S.genA(sd.l); check(frame([sd], lambda: f(sd), 'gen'), w, 'gen' + gen)
        if o.gen != f: check(o.gen(sd), w, 'gen' + gen + ' (as selected by the variant)')
    elif kind == 'rnd':
        stubs.RND[0] = 0; stubs.RNDMODE[0] = 'fresh'
        for k in (16, 48, 7): 
            b0 = stubs.RND[0]; r = o.randombytes(k); check(r, SBytes.mk([var('in', ('fresh', b0 + i), 256) for i in range(k)]), 'randombytes')
    elif kind == 'mm':
        m = find(cls, 'matrix_mul')
        if not m or nargs(getattr(o, m)) != 2: return 'absent'
        a, b, c = {'as': (n, n, 8), 'sa': (8, n, n), 'sb': (8, n, 8)}[rest[0]]
        lo = int(rest[1]) if len(rest) > 1 else 0
        X = inm('X', a, b, q); Y = inm('Y', b, c, q)
        check(frame([X, Y], lambda: getattr(o, m)(X, Y), 'matrix_mul'), S.mul(X, Y), 'matrix_mul %dx%dx%d' % (a, b, c))
    elif kind in ('keygen', 'encaps', 'decaps'):
        if 'mm' in modular:
            m = find(cls, 'matrix_mul')
            if not m or nargs(getattr(o, m)) != 2: return 'absent'
            def ct_mm(X, Y):
                if not (len(X) and len(Y) and len(X[0]) == len(Y)): raise Mismatch('matrix_mul: precondition (dimensions)')
                return S.P.mm(S, X, Y)
            setattr(cls, m, staticmethod(ct_mm))
        if 'gen' in modular:
            def ct_gen(seed):
                if len(seed) != 16: raise Mismatch('gen: precondition (16-byte seed)')
                return S.P.genA(S, blist(seed))
            o.gen = ct_gen
        if kind == 'keygen':
            draws = []
            o.randombytes = lambda k: (draws.append(k), stubs.rndbytes(k))[1]
            r = o.kem_keygen(); stubs.RND[0] = 0; rb = stubs.rndbytes(sum(draws)).l
            if sum(draws) != S.ls + S.lse + 16: raise Mismatch('keygen: draws %d random bytes' % sum(draws))
            pk, sk = S.keygen(rb); check(r, (SBytes.mk(pk), SBytes.mk(sk)), 'kem_keygen (pk, sk)')
        elif kind == 'encaps':
            pk = inb('pk', 16 + D * n); draws = []
            o.randombytes = lambda k: (draws.append(k), stubs.rndbytes(k))[1]
            r = frame([pk], lambda: o.kem_encaps(pk), 'kem_encaps'); stubs.RND[0] = 0
            if sum(draws) != S.lmu: raise Mismatch('encaps: draws %d random bytes' % sum(draws))
            ct, ss = S.encaps(pk.l, stubs.rndbytes(S.lmu).l); check(r, (SBytes.mk(ct), SBytes.mk(ss)), 'kem_encaps (ct, ss)')
        else:
            sk = inb('sk', S.ls + 16 + D * n + 16 * n + S.lk); ct = inb('ct', D * n + D * 8)
            r = frame([sk, ct], lambda: o.kem_decaps(sk, ct), 'kem_decaps'); check(r, SBytes.mk(S.decaps(sk.l, ct.l)), 'kem_decaps ss')
    else: raise SystemExit('job ' + spec_)
    return 'ok'
def main():
    path = sys.argv[1]; mod_ = [x for x in sys.argv[2].split(',') if x]; r = {'job': sys.argv[3], 'modular': mod_}; t = time.time(); nobl[0] = 0
    sys.setrecursionlimit(100000)
    try: r['status'] = job(path, sys.argv[3], mod_)
    except Mismatch as e: r['status'] = 'fail'; r['what'] = str(e)
    except Unsupported as e: r['status'] = 'unsupported'; r['what'] = str(e)
    except Exception as e:
        import traceback
        r['status'] = 'unsupported'; r['what'] = '%s: %s' % (type(e).__name__, e); r['trace'] = traceback.format_exc()[-1500:]
    r.update(obligations=nobl[0], seconds=round(time.time() - t, 2), mb=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss >> 10, atoms=len(ATOMS), tables=len(TABS)); print(json.dumps(r))
main()
