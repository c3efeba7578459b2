"""Symbolic stand-ins for the builtins and libraries the Python implementation uses.  These are the
assumed contracts of the dependencies: bitstring, struct, cryptography (AES-128 ECB, SHAKE as
uninterpreted functions of their whole input), secrets.  Anything not listed raises Unsupported."""
import builtins, types, operator
from terms import *
import terms
JOURNAL = []
def log(undo, loc, new=None):
    if JOURNAL: JOURNAL[-1].append((undo, loc))
def byte(x):
    x = simp(x)
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
        if not 0 <= x <= 255: raise ValueError('byte')
        return x
    if not isinstance(x, T): raise TypeError('byte')
    lo, hi = rng(x)
    if lo < 0 or hi > 255: raise Unsupported('byte range')
    return x
class SeqBase:
    __hash__ = None
    def __init__(self, l): self.l = l
    def __len__(self): return len(self.l)
    def __iter__(self): return iter(list(self.l))
    def __getitem__(self, i):
        if isinstance(i, slice): return type(self).mk(self.l[i])
        return self.l[operator.index(i)]
    @classmethod
    def mk(cls, l): o = object.__new__(cls); o.l = list(l); return o
    def __add__(self, o): return type(self).mk(self.l + blist(o))
    def __radd__(self, o):
        if not isinstance(o, (builtins.bytes, builtins.bytearray)): return NotImplemented
        return SBytes.mk(list(o) + self.l)
    def __mul__(self, n): return type(self).mk(self.l * n)
    def hex(self): return '<sym>'
    def __bool__(self): return len(self.l) > 0
def blist(x):
    if isinstance(x, SeqBase): return list(x.l)
    if isinstance(x, (builtins.bytes, builtins.bytearray)): return list(x)
    raise TypeError('bytes expected')
class Meta(type):
    def __instancecheck__(cls, o): return type.__instancecheck__(cls, o) or cls.__name__ == 'SBytes' and type(o) is builtins.bytes or cls.__name__ == 'SByteArray' and type(o) is builtins.bytearray
def binit(a):
    if not a: return []
    x = a[0]
    if isinstance(x, str): return list(x.encode(*a[1:]))
    if isinstance(x, int): return [0] * x
    if isinstance(x, T): raise Unsupported('symbolic length')
    if isinstance(x, Bits): return blist(x.bytes)
    if isinstance(x, (SeqBase, builtins.bytes, builtins.bytearray)): return blist(x)
    return [byte(v) for v in x]
class SBytes(SeqBase, metaclass=Meta):
    def __new__(cls, *a): return cls.mk(binit(a))
    def __init__(self, *a): pass
    @staticmethod
    def fromhex(s): return SBytes.mk(builtins.bytes.fromhex(s))
    def join(self, it):
        r = []; first = True
        for x in it:
            if not first: r += self.l
            r += blist(x); first = False
        return SBytes.mk(r)
class SByteArray(SeqBase, metaclass=Meta):
    def __new__(cls, *a): return cls.mk(binit(a))
    def __init__(self, *a): pass
    def __setitem__(self, i, v):
        if JOURNAL and isinstance(i, slice): raise Unsupported('slice store under a symbolic condition')
        if isinstance(i, slice): self.l[i] = blist(v); return
        i = operator.index(i); v = byte(v); i = i + len(self.l) if i < 0 else i
        if not 0 <= i < len(self.l): raise IndexError(i)
        setloc(self.l, i, v)
    def append(self, v): nojournal(); self.l.append(byte(v))
    def extend(self, x): nojournal(); self.l += [byte(v) for v in x]
    def __iadd__(self, x): nojournal(); self.l += blist(x); return self
    def __radd__(self, o): return SByteArray.mk(list(o) + self.l) if isinstance(o, builtins.bytearray) else SBytes.mk(blist(o) + self.l)
def nojournal():
    if JOURNAL: raise Unsupported('mutation under a symbolic condition')
class Missing:
    pass
MISSING = Missing()
def getloc(c, i):
    if isinstance(c, dict): return c.get(i, MISSING)
    return c[i]
def setloc(c, i, v):
    if JOURNAL: JOURNAL[-1].append((c, i, c[i]))
    c[i] = v
# ---- bitstring
class Bits:
    __hash__ = None
    mutable = False
    def __init__(self, auto=None, length=None, offset=None, **k):
        if offset: raise Unsupported('bitstring offset')
        self.pos = 0; self.b = self.init(auto, length, k)
    @staticmethod
    def init(auto, length, k):
        if auto is not None:
            if k or length is not None: raise Unsupported('bitstring arguments')
            if isinstance(auto, T): raise Unsupported('symbolic length')
            if isinstance(auto, bool): raise TypeError('bool')
            if isinstance(auto, int): return [0] * auto
            return tobits(auto)
        if not k: return [0] * (length or 0)
        if len(k) > 1: raise Unsupported('bitstring arguments')
        (n, v), = k.items()
        if n == 'bytes':
            r = bits_of(blist(v)); return r if length is None else r[:length]
        if n in ('uint', 'int', 'uintbe', 'intbe', 'uintle', 'intle'):
            if length is None: raise Unsupported('bitstring length')
            sg = n.startswith('int'); lo, hi = rng(simp(v))
            if lo < (-(1 << length - 1) if sg else 0) or hi >= (1 << length - 1 if sg else 1 << length): raise ValueError('bitstring value out of range') if not isinstance(v, T) else Unsupported('bitstring value range')
            r = [bit(v, length - 1 - i) for i in range(length)]
            if n.endswith('le'): 
                if length % 8: raise ValueError('length')
                r = sum([r[i:i + 8] for i in range(length - 8, -1, -8)], [])
            return r
        if n == 'bin': return [int(c) for c in v.replace('0b', '')]
        if n == 'hex': return bits_of(builtins.bytes.fromhex(v.replace('0x', '')))
        raise Unsupported('bitstring initialiser ' + n)
    def __len__(self): return len(self.b)
    @property
    def len(self): return len(self.b)
    length = len
    def __iter__(self): return iter(list(self.b))
    def __bool__(self): return len(self.b) > 0
    def __getitem__(self, i):
        if isinstance(i, slice): r = type(self)(); r.b = self.b[i]; return r
        return self.b[operator.index(i)]
    @property
    def bytes(self):
        if len(self.b) % 8: raise ValueError('bits')
        return SBytes.mk([pbyte(self.b[i:i + 8]) for i in range(0, len(self.b), 8)])
    def tobytes(self):
        b = self.b + [0] * (-len(self.b) % 8); return SBytes.mk([pbyte(b[i:i + 8]) for i in range(0, len(b), 8)])
    def __add__(self, o): r = type(self)(); r.b = self.b + tobits(o); return r
    def num(self, kind):
        b = self.b; n = builtins.len(b)
        if kind.endswith('le'): b = sum([b[i:i + 8] for i in range(n - 8, -1, -8)], [])
        r = 0
        for i in range(n): r = add(r, mul(b[i], 1 << n - 1 - i if i or not kind.startswith('int') else -(1 << n - 1)))
        return simp(r)
    uint = property(lambda s: s.num('uint')); int = property(lambda s: s.num('int')); uintle = property(lambda s: s.num('uintle')); intle = property(lambda s: s.num('intle')); uintbe = uint; intbe = int
    def read(self, fmt):
        if isinstance(fmt, builtins.int): k, n = 'bits', fmt
        else: k, n = fmt.split(':') if ':' in fmt else (fmt.rstrip('0123456789'), fmt[len(fmt.rstrip('0123456789')):]); n = builtins.int(n)
        if k == 'bytes': n *= 8
        if self.pos + n > builtins.len(self.b): raise IndexError('read')
        r = type(self)(); r.b = self.b[self.pos:self.pos + n]; nojournal(); self.pos += n
        if k == 'bits': return r
        if k == 'bytes': return r.bytes
        if k in ('uint', 'int', 'uintle', 'intle', 'uintbe', 'intbe'): return r.num(k)
        raise Unsupported('bitstring format ' + fmt)
    def readlist(self, fmt): return [self.read(f.strip()) for f in (fmt.split(',') if isinstance(fmt, str) else fmt)]
    def unpack(self, fmt):
        p = self.pos; self.pos = 0; r = self.readlist(fmt); self.pos = p; return r
class BitArray(Bits):
    def set(self, v, pos=None):
        v = truthy(v); v = builtins.int(v) if isinstance(v, bool) else v
        for p in (range(len(self.b)) if pos is None else pos if not isinstance(pos, (builtins.int, T)) else [pos]):
            p = operator.index(p); p = p + builtins.len(self.b) if p < 0 else p
            if not 0 <= p < builtins.len(self.b): raise IndexError(p)
            setloc(self.b, p, v)
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            nojournal()
            if isinstance(v, (builtins.int, T)): raise Unsupported('bitstring slice store')
            self.b[i] = tobits(v); return
        i = operator.index(i)
        if isinstance(v, (builtins.int, T)) :
            v = simp(v)
            if not one(v): raise ValueError('bit') if not isinstance(v, T) else Unsupported('bit range')
            if not -builtins.len(self.b) <= i < builtins.len(self.b): raise IndexError(i)
            setloc(self.b, i % builtins.len(self.b), builtins.int(v) if isinstance(v, bool) else v)
        else: raise Unsupported('bitstring store')
    def append(self, x): nojournal(); self.b += tobits(x)
    def prepend(self, x): nojournal(); self.b[:0] = tobits(x)
    def __iadd__(self, x): self.append(x); return self
    def reverse(self): nojournal(); self.b.reverse()
    def byteswap(self, *a):
        if a: raise Unsupported('byteswap')
        nojournal(); self.b = sum([self.b[i:i + 8] for i in range(builtins.len(self.b) - 8, -1, -8)], [])
class ConstBitStream(Bits): pass
class BitStream(BitArray): pass
def bits_of(l): return [bit(v, 7 - i) for v in l for i in range(8)]
def pbyte(b):
    r = 0
    for i in range(8): r = add(r, mul(b[i], 128 >> i))
    return simp(r)
def tobits(x):
    if isinstance(x, Bits): return list(x.b)
    if isinstance(x, (SeqBase, builtins.bytes, builtins.bytearray)): return bits_of(blist(x))
    if isinstance(x, str):
        if x.startswith('0b'): return [int(c) for c in x[2:]]
        if x.startswith('0x'): return bits_of(builtins.bytes.fromhex(x[2:]))
        raise Unsupported('bitstring auto string')
    if isinstance(x, (list, tuple)): return [truthy(v) if isinstance(v, T) else builtins.int(bool(v)) for v in x]
    raise Unsupported('bitstring auto')
# ---- integers and bytes
def from_bytes(b, byteorder='big', *, signed=False):
    l = blist(b) if isinstance(b, (SeqBase, builtins.bytes, builtins.bytearray)) else [byte(v) for v in b]
    if byteorder == 'big': l = l[::-1]
    r = 0
    for i, v in enumerate(l): r = add(r, mul(v, 1 << 8 * i))
    r = simp(r)
    if signed and l: r = simp(add(r, mul(bit(l[-1], 7), -(1 << 8 * len(l)))))
    return r
def to_bytes(x, n, order, signed):
    lo, hi = rng(simp(x))
    if lo < (-(1 << 8 * n - 1) if signed else 0) or hi >= (1 << 8 * n - (1 if signed else 0)): raise Unsupported('to_bytes range')
    l = []
    for i in range(n):
        r = 0
        for j in range(8): r = add(r, mul(bit(x, 8 * i + j), 1 << j))
        l.append(simp(r))
    return SBytes.mk(l if order == 'little' else l[::-1])
terms.to_bytes = to_bytes
class IntMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, builtins.int) or isinstance(o, T)
    def __call__(cls, x=0, *a):
        if isinstance(x, T): return trunc(x)
        return builtins.int(x, *a)
class SInt(metaclass=IntMeta):
    from_bytes = staticmethod(from_bytes)
    to_bytes = staticmethod(lambda x, *a, **k: x.to_bytes(*a, **k) if isinstance(x, T) else SBytes.mk(x.to_bytes(*a, **k)))
    def bit_length(x): return x.bit_length()
class BoolMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, builtins.bool)
    def __call__(cls, x=False): return truthy(x)
class SBool(metaclass=BoolMeta): pass
def s_round(x, n=None): return rnd(x) if isinstance(x, T) and n is None else builtins.round(x, n)
def s_any(it):
    r = [truthy(v) for v in it]; return lnot(conjunction([lnot(v) for v in r]))
def s_all(it): return conjunction([truthy(v) for v in it])
def s_max(*a, **k):
    l = list(a[0]) if len(a) == 1 else a
    if k or any(isinstance(v, T) for v in l): raise Unsupported('max')
    return builtins.max(l)
def s_min(*a, **k):
    l = list(a[0]) if len(a) == 1 else a
    if k or any(isinstance(v, T) for v in l): raise Unsupported('min')
    return builtins.min(l)
def s_pow(a, b, m=None): return a ** b if m is None else (a ** b) % m
# ---- struct
def fmt(f):
    import struct as st
    if isinstance(f, builtins.bytes): f = f.decode()
    o = f[0] if f[0] in '<>=!@' else '@'; g = f.lstrip('<>=!@').replace(' ', ''); items = []; n = ''
    for c in g:
        if c.isdigit(): n += c; continue
        k = int(n) if n else 1; n = ''
        if c == 's': items.append(('s', k)); continue
        if c == 'x': items.append(('x', k)); continue
        if c not in 'bBhHiIqQ': raise Unsupported('struct format ' + f)
        items += [(c, 1 if c in 'bB' else 2 if c in 'hH' else 4 if c in 'iI' else 8)] * k
    if o == '@' and any(c in 'hHiIqQ' for c, _ in items) and len(set(items)) > 1: raise Unsupported('native struct alignment')
    return o in '>!', items
def s_calcsize(f): return sum(k for _, k in fmt(f)[1])
def s_pack(f, *v):
    be, items = fmt(f); v = list(v); r = []
    for c, k in items:
        if c == 'x': r += [0] * k; continue
        x = v.pop(0)
        if c == 's': b = blist(x)[:k]; r += b + [0] * (k - len(b)); continue
        if not isinstance(x, T):
            import struct as st
            r += list(st.pack(('>' if be else '<') + c, x)); continue
        r += to_bytes(x, k, 'big' if be else 'little', c.islower()).l
    if v: raise TypeError('struct arguments')
    return SBytes.mk(r)
def s_pack_into(f, buf, off, *v):
    b = s_pack(f, *v); nojournal()
    if not isinstance(buf, SByteArray): raise TypeError('buffer')
    if off < 0: off += len(buf)
    if off < 0 or off + len(b) > len(buf): raise ValueError('pack_into')
    buf.l[off:off + len(b)] = b.l
def s_unpack_from(f, buf, offset=0):
    be, items = fmt(f); l = blist(buf); r = []; p = offset
    if p < 0: p += len(l)
    if p < 0 or p + sum(k for _, k in items) > len(l): raise ValueError('unpack_from requires a larger buffer')
    for c, k in items:
        b = l[p:p + k]; p += k
        if c == 's': r.append(SBytes.mk(b))
        elif c != 'x': r.append(from_bytes(SBytes.mk(b), 'big' if be else 'little', signed=c.islower()))
    return tuple(r)
def s_unpack(f, buf):
    if len(buf) != s_calcsize(f): raise ValueError('unpack')
    return s_unpack_from(f, buf)
def s_iter_unpack(f, buf):
    n = s_calcsize(f)
    if len(buf) % n: raise ValueError('iter_unpack')
    return iter([s_unpack_from(f, buf, i) for i in range(0, len(buf), n)])
# ---- primitives: uninterpreted functions
UFI = {}
def uf(name, data):
    k = (name, tuple(ckey(v) for v in data)); i = UFI.get(k)
    if i is None: i = UFI[k] = len(UFI)
    return i
BL = {}
def words(kind, key, nbytes):
    """nbytes bytes of a stream of 16-bit unknowns"""
    if not BL: BL[0] = tab(np.arange(65536, dtype=np.int64) & 255); BL[1] = tab(np.arange(65536, dtype=np.int64) >> 8)
    r = []
    for i in range((nbytes + 1) // 2):
        a = atom(kind, (key, i), 65536); r.append(F(a, BL[0])); r.append(F(a, BL[1]))
    return r[:nbytes]
def shake(bits, data, n):
    if isinstance(n, T): raise Unsupported('symbolic length')
    return SBytes.mk(words('uf', uf('shake%d' % bits, blist(data)), operator.index(n)))
def aes(key, data):
    k = blist(key); d = blist(data); r = []
    if len(k) not in (16, 24, 32): raise ValueError('key size')
    if len(d) % 16: raise ValueError('block size')
    for i in range(0, len(d), 16): r += words('uf', uf('aes', k + d[i:i + 16]), 16)
    return SBytes.mk(r)
RND = [0]; RNDMODE = ['rnd']
def rndbytes(n):
    r = [var('in', (RNDMODE[0], RND[0] + i), 256) for i in range(n)]; RND[0] += n; return SBytes.mk(r)
def randbits(k):
    if k % 8: raise Unsupported('randbits')
    return from_bytes(rndbytes(k // 8), 'little')
class HAlg:
    def __init__(self, bits): self.bits = bits
    def __call__(self, n): return (self.bits, n)
class Hash:
    def __init__(self, alg, backend=None): self.alg = alg; self.d = []; self.done = False
    def update(self, b):
        if self.done: raise ValueError('finalized')
        nojournal(); self.d += blist(b)
    def copy(self): h = Hash(self.alg); h.d = list(self.d); return h
    def finalize(self):
        if self.done: raise ValueError('finalized')
        self.done = True
        return shake(self.alg[0], SBytes.mk(self.d), self.alg[1])
class HL:
    def __init__(self, bits, d=b''): self.bits = bits; self.d = blist(d)
    def update(self, b): nojournal(); self.d += blist(b)
    def copy(self): return HL(self.bits, SBytes.mk(self.d))
    def digest(self, n): return shake(self.bits, SBytes.mk(self.d), n)
class Cipher:
    def __init__(self, alg, mode, backend=None):
        if alg[0] != 'AES' or mode != 'ECB': raise Unsupported('cipher')
        self.key = alg[1]
    def encryptor(self): return Enc(self.key)
class Enc:
    def __init__(self, k): self.k = k; self.buf = []
    def update(self, b):
        nojournal(); self.buf += blist(b); n = len(self.buf) // 16 * 16; r = aes(self.k, SBytes.mk(self.buf[:n])); self.buf = self.buf[n:]; return r
    def finalize(self):
        if self.buf: raise ValueError('block length')
        return SBytes()
def ns(name, **k):
    m = types.ModuleType(name); m.__dict__.update(k); return m
def modules():
    import math
    hz = ns('cryptography.hazmat.primitives.hashes', Hash=Hash, SHAKE128=HAlg(128), SHAKE256=HAlg(256))
    alg = ns('algorithms', AES=lambda k: ('AES', k)); modes = ns('modes', ECB=lambda: 'ECB')
    ci = ns('cryptography.hazmat.primitives.ciphers', Cipher=Cipher, algorithms=alg, modes=modes)
    pr = ns('cryptography.hazmat.primitives', hashes=hz, ciphers=ci); be = ns('cryptography.hazmat.backends', default_backend=lambda: None)
    hm = ns('cryptography.hazmat', primitives=pr, backends=be); cr = ns('cryptography', hazmat=hm)
    sec = ns('secrets', randbits=randbits, token_bytes=rndbytes, randbelow=lambda n: randbits(n.bit_length() - 1) if n & (n - 1) == 0 else un('randbelow'))
    return {'bitstring': ns('bitstring', BitArray=BitArray, Bits=Bits, ConstBitStream=ConstBitStream, BitStream=BitStream, ConstBitArray=Bits),
            'struct': ns('struct', pack=s_pack, pack_into=s_pack_into, unpack=s_unpack, unpack_from=s_unpack_from, calcsize=s_calcsize, iter_unpack=s_iter_unpack),
            'secrets': sec, 'os': ns('os', urandom=rndbytes), 'warnings': ns('warnings', warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None),
            'cryptography': cr, 'cryptography.hazmat': hm, 'cryptography.hazmat.primitives': pr, 'cryptography.hazmat.primitives.hashes': hz, 'cryptography.hazmat.primitives.ciphers': ci, 'cryptography.hazmat.backends': be,
            'hashlib': ns('hashlib', shake_128=lambda d=b'': HL(128, d), shake_256=lambda d=b'': HL(256, d)),
            'math': ns('math', floor=lambda x: floor(x) if isinstance(x, T) else math.floor(x), trunc=lambda x: trunc(x), ceil=lambda x: neg(floor(neg(x))) if isinstance(x, T) else math.ceil(x), log2=math.log2, sqrt=math.sqrt, prod=math.prod, gcd=math.gcd)}
def un(w): raise Unsupported(w)
