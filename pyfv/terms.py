"""Terms of the Python verifier: exact integer (and bool/float) functions of symbolic atoms.

An atom is an arbitrary value of range(dom): an input or hash-output word, the value of a polynomial
modulo q, or the truth of a conjunction.  A term is
  int/float/bool    a constant
  F(atom, table)    a function of one atom, given by its complete table over range(dom)
  L                 a lazy sum/product of terms; normal form: constant + sum of one-atom functions
                    that vanish at 0 (unique) + sum of coefficient * product of one-atom functions
  X                 a lazy bitwise combination
Everything computed here is exact for every value of every atom; nothing is sampled."""
import numpy as np
class Unsupported(Exception): pass
class Tab:
    __slots__ = ('id', 'a', 'lo', 'hi', 'flt', 'cache', 'const')
TABS = []; TIDX = {}
def tab(a):
    if a.dtype == np.bool_: a = a.astype(np.int64)
    if a.dtype not in (np.int64, np.float64): raise Unsupported('table type')
    a = np.ascontiguousarray(a); k = (a.dtype.char, len(a), hash(a.tobytes())); l = TIDX.setdefault(k, [])
    for t in l:
        if np.array_equal(t.a, a): return t
    t = Tab(); t.id = len(TABS); t.a = a; t.lo = a.min().item(); t.hi = a.max().item(); t.flt = a.dtype == np.float64; t.cache = {}; t.const = t.lo == t.hi; TABS.append(t); l.append(t)
    if not t.flt and (t.lo < -2**60 or t.hi > 2**60): raise Unsupported('value range')
    return t
class Atom:
    __slots__ = ('id', 'dom', 'kind', 'info', 'name')
ATOMS = []; AIDX = {}
def atom(kind, key, dom, info=None):
    k = (kind, key, dom); a = AIDX.get(k)
    if a is None: a = Atom(); a.id = len(ATOMS); a.dom = dom; a.kind = kind; a.info = info; a.name = key if kind in ('in', 'uf') else None; AIDX[k] = a; ATOMS.append(a)
    return a
IDT = {}
def ident(n):
    if n not in IDT: IDT[n] = tab(np.arange(n, dtype=np.int64))
    return IDT[n]
def var(kind, key, dom): return F(atom(kind, key, dom), ident(dom))
def mkF(a, t):
    if t.const: return t.lo
    return F(a, t)
BIN = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y,
       '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}
def arr_op(op, x, y):
    """x, y: numpy arrays or Python scalars; exact Python semantics"""
    def rng(v): return (v.min().item(), v.max().item()) if isinstance(v, np.ndarray) else (v, v)
    (a, b), (c, d) = rng(x), rng(y); fl = lambda v: v.dtype == np.float64 if isinstance(v, np.ndarray) else isinstance(v, float)
    isf = fl(x) or fl(y)
    if not isf:
        for v in (a, b, c, d):
            if abs(v) > 2**60: raise Unsupported('value range')
    if op in '+-' and max(abs(a), abs(b)) + max(abs(c), abs(d)) > 2**60: raise Unsupported('value range')
    if op == '*' and max(abs(a), abs(b)) * max(abs(c), abs(d)) > 2**60: raise Unsupported('value range')
    if op in BIN: return BIN[op](x, y)
    if op in ('%', '//', '/'):
        if c <= 0 <= d and np.any(np.asarray(y) == 0): raise Unsupported('division by zero')
        if op == '%': return np.mod(x, y)
        if op == '//': return np.floor_divide(x, y)
        if not isf and max(abs(a), abs(b), abs(c), abs(d)) > 2**52: raise Unsupported('value range')
        return np.true_divide(x, y)
    if op == '<<':
        if c < 0 or d > 60 or max(abs(a), abs(b)) << d > 2**60: raise Unsupported('shift')
        return np.left_shift(x, y)
    if op == '>>':
        if c < 0: raise Unsupported('shift')
        return np.right_shift(x, np.minimum(y, 63))
    if op == '**':
        if c < 0 or isf: raise Unsupported('power')
        if d > 0 and max(abs(a), abs(b)) ** d > 2**60: raise Unsupported('value range')
        return np.power(np.asarray(x, dtype=np.int64), np.asarray(y, dtype=np.int64))
    raise Unsupported('operator ' + op)
def t_op(op, x, y):
    """x, y: Tab or scalar (one at least a Tab)"""
    if isinstance(x, Tab): c = x.cache; k = (op, 0, 't%d' % y.id if isinstance(y, Tab) else (type(y), y))
    else: c = y.cache; k = (op, 1, (type(x), x))
    r = c.get(k)
    if r is None: r = c[k] = tab(np.asarray(arr_op(op, x.a if isinstance(x, Tab) else x, y.a if isinstance(y, Tab) else y)))
    return r
def t_fn(name, t, f):
    r = t.cache.get(name)
    if r is None: r = t.cache[name] = tab(f(t.a))
    return r
NUM = (int, float)
def num(x): return int(x) if isinstance(x, bool) else x
POISON = None
class T:
    __slots__ = ()
    __hash__ = None
    def __bool__(self): raise Unsupported('branch on a symbolic value')
    def __index__(self): raise Unsupported('symbolic index')
    def __int__(self): raise Unsupported('int() of a symbolic value')
    def __float__(self): raise Unsupported('float() of a symbolic value')
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, neg(o))
    def __rsub__(self, o): return add(o, neg(self))
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __invert__(self): return add(-1, neg(self))
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return fop('%', o, self)
    def __floordiv__(self, o): return shr(self, o, True)
    def __rfloordiv__(self, o): return fop('//', o, self)
    def __truediv__(self, o): return fop('/', self, o)
    def __rtruediv__(self, o): return fop('/', o, self)
    def __rshift__(self, o): return shr(self, o, False)
    def __rrshift__(self, o): return fop('>>', o, self)
    def __lshift__(self, o): return mul(self, 1 << o) if isinstance(o, int) else fop('<<', self, o)
    def __rlshift__(self, o): return fop('<<', o, self)
    def __pow__(self, o, m=None):
        if m is not None: raise Unsupported('pow')
        return fop('**', self, o)
    def __rpow__(self, o): return fop('**', o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __and__(self, o): return bitop('&', self, o)
    def __rand__(self, o): return bitop('&', o, self)
    def __or__(self, o): return bitop('|', self, o)
    def __ror__(self, o): return bitop('|', o, self)
    def __xor__(self, o): return bitop('^', self, o)
    def __rxor__(self, o): return bitop('^', o, self)
    def __lt__(self, o): return fop('<', self, o)
    def __le__(self, o): return fop('<=', self, o)
    def __gt__(self, o): return fop('>', self, o)
    def __ge__(self, o): return fop('>=', self, o)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return lnot(eq(self, o))
    def __abs__(self): return ite(fop('<', self, 0), neg(self), self)
    def __round__(self, n=None):
        if n is not None: raise Unsupported('round')
        return rnd(self)
    def to_bytes(self, length=1, byteorder='big', *, signed=False): return to_bytes(self, length, byteorder, signed)
    def bit_length(self): raise Unsupported('bit_length')
    def __format__(self, s): return '<sym>'
    def __repr__(self): return '<sym>'
class F(T):
    __slots__ = ('atom', 'tab', 'q', 'k')
    def __init__(self, a, t): self.atom = a; self.tab = t; self.q = -1
    def code(self, q):
        if self.q != q: self.q = q; self.k = self.atom.id << 24 | (red(self.tab, q) if q else self.tab).id
        return self.k
    def __mul__(self, o):
        if type(o) is F and o.atom is not self.atom: return L('*', self, o)
        return mul(self, o)
class L(T):
    __slots__ = ('op', 'l', 'r', 'nf')
    def __init__(self, op, l, r): self.op = op; self.l = l; self.r = r; self.nf = None
    def __radd__(self, o): return self if type(o) is int and o == 0 else add(o, self)
    def __add__(self, o): return L('+', self, o) if type(o) is L else add(self, o)
class X(T):
    __slots__ = ('op', 'l', 'r', 'm')
    def __init__(self, op, l, r): self.op = op; self.l = l; self.r = r; self.m = None
def chk(*xs):
    for x in xs:
        if not isinstance(x, (T, int, float)): raise Unsupported('operand %r' % type(x).__name__)
def fop(op, x, y):
    """operator on functions of at most one common atom"""
    chk(x, y); x = simp(x); y = simp(y)
    if isinstance(x, F):
        if isinstance(y, F):
            if x.atom is not y.atom: raise Unsupported('operator %s on two unknowns' % op)
            return mkF(x.atom, t_op(op, x.tab, y.tab))
        if isinstance(y, NUM): return mkF(x.atom, t_op(op, x.tab, num(y)))
    elif isinstance(y, F) and isinstance(x, NUM): return mkF(y.atom, t_op(op, num(x), y.tab))
    elif isinstance(x, NUM) and isinstance(y, NUM):
        return {'%': lambda: x % y, '//': lambda: x // y, '/': lambda: x / y, '>>': lambda: x >> y, '<<': lambda: x << y, '**': lambda: x ** y}[op]() if op not in BIN else BIN[op](x, y)
    raise Unsupported('operator %s on several unknowns' % op)
def neg(x):
    if isinstance(x, F): return mkF(x.atom, t_op('-', 0, x.tab))
    if isinstance(x, L): return L('*', x, -1)
    if isinstance(x, X): return neg(mat(x))
    chk(x); return -x
def add(x, y):
    if isinstance(x, X): x = mat(x)
    if isinstance(y, X): y = mat(y)
    if isinstance(x, NUM) and x == 0 and not isinstance(x, float) and not isinstance(y, bool): return y
    if isinstance(y, NUM) and y == 0 and not isinstance(y, float) and not isinstance(x, bool): return x
    if isinstance(x, F) and (not isinstance(y, T) or type(y) is F and y.atom is x.atom) or isinstance(y, F) and not isinstance(x, T): return fop('+', x, y)
    chk(x, y)
    if isinstance(x, F) and x.tab.flt or isinstance(y, F) and y.tab.flt or isinstance(x, float) or isinstance(y, float): return fop('+', x, y)
    if not isinstance(x, T) and not isinstance(y, T): return x + y
    return L('+', x, y)
def mul(x, y):
    if isinstance(x, X): x = mat(x)
    if isinstance(y, X): y = mat(y)
    if isinstance(x, F) and (not isinstance(y, T) or type(y) is F and y.atom is x.atom) or isinstance(y, F) and not isinstance(x, T): return fop('*', x, y)
    chk(x, y)
    if isinstance(x, float) or isinstance(y, float): return fop('*', x, y)
    if not isinstance(x, T) and not isinstance(y, T): return x * y
    if type(x) is int and x == 0 or type(y) is int and y == 0: return 0
    return L('*', x, y)
# ---- normal forms of sums.  NF = (const, {atom id: Tab with t(0)=0}, {monomial: coefficient}); monomial = sorted tuple of factors atom id << 24 | tab id
class NF:
    __slots__ = ('c', 'u', 'm', 'k')
    def __init__(self): self.c = 0; self.u = {}; self.m = {}; self.k = None
def red(t, q):
    return t_op('%', t, q) if q else t
def nf_addF(n, a, t, k, q):
    if k != 1: t = t_op('*', t, k)
    t = red(t, q)
    if t.flt: raise Unsupported('float in a sum')
    if a.kind == 'mod' and q and a.info[0] % q == 0:
        z = t.cache.get(('lin', q))
        if z is None:
            c0 = int(t.a[0]); c1 = int(t.a[1]) - c0
            z = t.cache[('lin', q)] = (c0, c1) if np.array_equal(t.a, (c0 + c1 * np.arange(len(t.a), dtype=np.int64)) % q) else 0
        if z:
            n.c += z[0]; p = a.info[1]; n.c += z[1] * p.c
            for i, s in p.u.items(): nf_u(n, i, t_op('*', s, z[1]) if z[1] != 1 else s, q)
            for m, c in mono_of(p).items(): n.m[m] = n.m.get(m, 0) + z[1] * c
            return
    z = t.a[0].item()
    if z: n.c += z; t = red(t_op('-', t, z), q)
    nf_u(n, a.id, t, q)
def nf_u(n, i, t, q):
    o = n.u.get(i)
    if o is not None: t = t_op('+', o, t)
    t = red(t, q)
    if t.const and t.lo == 0: n.u.pop(i, None)
    else: n.u[i] = t
def nf_mul(a, b, q):
    n = NF(); n.c = a.c * b.c
    for i, t in a.u.items():
        if b.c: nf_u(n, i, red(t_op('*', t, b.c), q), q)
    for i, t in b.u.items():
        if a.c: nf_u(n, i, red(t_op('*', t, a.c), q), q)
    A = [((i << 24 | t.id,), 1) for i, t in a.u.items()] + list(a.m.items()); B = [((i << 24 | t.id,), 1) for i, t in b.u.items()] + list(b.m.items())
    if len(A) * len(B) > 100000: raise Unsupported('product of large sums')
    for m, c in A:
        for m2, c2 in B: mono(n, m + m2, c * c2, q)
    for m, c in a.m.items():
        if b.c: n.m[m] = n.m.get(m, 0) + c * b.c
    for m, c in b.m.items():
        if a.c: n.m[m] = n.m.get(m, 0) + c * a.c
    return n
def mono(n, m, c, q):
    d = {}
    for f in m: i = f >> 24; t = f & 0xffffff; d[i] = red(t_op('*', TABS[d[i]], TABS[t]), q).id if i in d else t
    if len(d) == 1:
        (i, t), = d.items(); nf_addF(n, ATOMS[i], TABS[t], c, q)
    elif len(d) > 4: raise Unsupported('degree')
    else:
        k = tuple(sorted(i << 24 | t for i, t in d.items())); n.m[k] = n.m.get(k, 0) + c
def nf_key(n):
    if n.k is None:
        n.k = (n.c, tuple(sorted((i, t.id) for i, t in n.u.items())), pack_m(n.m))
        if isinstance(n.k[2], bytes): n.m = None
    return n.k
def pack_m(m):
    """monomials as a canonical key (a packed sorted array when there are many)"""
    if len(m) < 32 or any(len(x) != 2 for x in m) or any(abs(c) >> 60 for c in m.values()): return tuple(sorted(m.items()))
    a = np.empty((len(m), 3), dtype=np.int64); a[:, :2] = np.array(list(m), dtype=np.int64); a[:, 2] = list(m.values())
    return a[np.lexsort((a[:, 1], a[:, 0]))].tobytes()
def mono_of(n):
    if n.m is not None: return n.m
    return {(a, b): c for a, b, c in np.frombuffer(n.k[2], dtype=np.int64).reshape(-1, 3).tolist()}
def simp(x):
    """collapse a sum or bitwise term to F or a constant when it is one"""
    if isinstance(x, X): x = mat(x)
    if isinstance(x, L):
        n = nf(x)
        if n.m is not None and not n.m:
            if not n.u: return n.c
            if len(n.u) == 1:
                (i, t), = n.u.items(); return F(ATOMS[i], t_op('+', t, n.c) if n.c else t)
    return x
def nf(x):
    if isinstance(x, X): x = mat(x)
    if isinstance(x, L):
        if x.nf is None: x.nf = nf_of(x, 0); x.op = 'nf'; x.l = x.r = None
        return x.nf
    return nf_of(x, 0)
def nf_of(x, q):
    """normal form of x modulo q (q = 0: over the integers); 'nf' nodes are already normalised over the integers"""
    n = NF(); st = [(x, 1)]; mm = n.m
    while st:
        e, k = st.pop(); ty = type(e)
        if ty is L:
            op = e.op
            if op == '+': st.append((e.r, k)); st.append((e.l, k)); continue
            if op == 'nf':
                p = e.nf; n.c += k * p.c
                for i, t in p.u.items(): nf_addF(n, ATOMS[i], t, k, q)
                for m, c in mono_of(p).items():
                    if q: mono(n, tuple((i >> 24) << 24 | red(TABS[i & 0xffffff], q).id for i in m), k * c, q)
                    else: mm[m] = mm.get(m, 0) + k * c
                continue
            l = e.l; r = e.r
            if type(l) is F and type(r) is F and l.atom is not r.atom:
                a = l.code(q); b = r.code(q)
                m = (a, b) if a < b else (b, a); mm[m] = mm.get(m, 0) + k; continue
            if not isinstance(r, T): st.append((l, k * num(r))); continue
            if not isinstance(l, T): st.append((r, k * num(l))); continue
            p = nf_mul(nf_of(l, q), nf_of(r, q), q); n.c += k * p.c
            for i, t in p.u.items(): nf_addF(n, ATOMS[i], t, k, q)
            for m, c in p.m.items(): mm[m] = mm.get(m, 0) + k * c
        elif ty is F: nf_addF(n, e.atom, e.tab, k, q)
        elif isinstance(e, X): st.append((mat(e), k))
        elif isinstance(e, float): raise Unsupported('float in a sum')
        else: n.c += k * num(e)
    if q: n.c %= q; n.m = {m: c % q for m, c in mm.items() if c % q}
    else: n.m = {m: c for m, c in mm.items() if c}
    return n
def mod(x, q):
    if isinstance(x, X): x = mat(x)
    if type(x) is F or not isinstance(x, T) or not isinstance(q, int): return fop('%', x, q)
    if q <= 0: raise Unsupported('modulus')
    if q & (q - 1) == 0:
        p = pieces(x)
        if p is not None: return psum([(a, t_op('%', t, q) if isinstance(t, Tab) else t % q) for a, t in p])
    n = nf_of(x, q)
    if not n.m:
        if not n.u: return n.c
        if len(n.u) == 1:
            (i, t), = n.u.items(); return mkF(ATOMS[i], red(t_op('+', t, n.c), q) if n.c else t)
    if q > 1 << 17: raise Unsupported('modulus')
    return F(atom('mod', (q, nf_key(n)), q, (q, n)), ident(q))
def pieces(x):
    """x as a sum of nonnegative one-atom functions occupying disjoint bit positions, or None"""
    n = nf(x)
    if n.m is None or n.m or n.c < 0: return None
    used = n.c; r = []
    for i, t in n.u.items():
        if t.lo < 0: return None
        m = mask(t)
        if m & used: return None
        used |= m; r.append((ATOMS[i], t))
    return r + ([(None, n.c)] if n.c else [])
def mask(t):
    r = t.cache.get('mask')
    if r is None: r = t.cache['mask'] = int(np.bitwise_or.reduce(t.a))
    return r
def psum(l):
    r = 0
    for a, t in l: r = add(r, mkF(a, t) if isinstance(t, Tab) else t)
    return r
def papp(op, l, c):
    return psum([(a, t_op(op, t, c)) if isinstance(t, Tab) else (None, BIN[op](t, c) if op in BIN else (t >> c)) for a, t in l])
def shr(x, c, div):
    if isinstance(x, X): x = mat(x)
    if isinstance(x, L): x = simp(x)
    if isinstance(x, L) and isinstance(c, int) and (not div or c > 0 and c & (c - 1) == 0):
        k = c.bit_length() - 1 if div else c; p = pieces(x)
        if k < 0 or p is None: raise Unsupported('shift of a sum')
        return papp('>>', p, k)
    return fop('//' if div else '>>', x, c)
def bitop(op, x, y):
    chk(x, y)
    if isinstance(x, (F, int)) and isinstance(y, (F, int)) and (not isinstance(x, F) or not isinstance(y, F) or x.atom is y.atom): return fop(op, x, y)
    if isinstance(y, int) and not isinstance(x, int): x, y = y, x
    if isinstance(x, int):
        if op in '|^' and x == 0: return y
        if op == '&' and x == 0: return 0
        if op == '&' and x == -1: return y
        if op == '&' and isinstance(y, L) and x > 0 and x & (x + 1) == 0: return mod(y, x + 1)
    return X(op, x, y)
# ---- bits
def one(x): return isinstance(x, F) and x.tab.lo >= 0 and x.tab.hi <= 1 or isinstance(x, int) and 0 <= x <= 1
def rng(x):
    if isinstance(x, F): return x.tab.lo, x.tab.hi
    if isinstance(x, L):
        n = nf(x); lo = hi = n.c
        for t in n.u.values(): lo += t.lo; hi += t.hi
        for m, c in mono_of(n).items():
            a = b = c
            for f in m: t = TABS[f & 0xffffff]; v = [a * t.lo, a * t.hi, b * t.lo, b * t.hi]; a, b = min(v), max(v)
            lo += a; hi += b
        return lo, hi
    if isinstance(x, X):
        (a, b), (c, d) = rng(x.l), rng(x.r)
        if x.op == '&' and (a >= 0 or c >= 0): return 0, min([v for v, u in ((b, a), (d, c)) if u >= 0])
        w = max(abs(v).bit_length() for v in (a, b, c, d)); return (0 if a >= 0 and c >= 0 else -(1 << w)), (1 << w) - 1
    return x, x
def width(x):
    lo, hi = rng(x); return max(int(lo).bit_length() if lo >= 0 else (-1 - lo).bit_length(), int(hi).bit_length() if hi >= 0 else (-1 - hi).bit_length())
def bit(x, i):
    """bit i of the two's complement representation"""
    if isinstance(x, F):
        if x.tab.flt: raise Unsupported('bits of a float')
        t = x.tab; r = t.cache.get(('bit', i))
        if r is None: r = t.cache[('bit', i)] = tab((t.a >> min(i, 62)) & 1)
        return mkF(x.atom, r)
    if isinstance(x, int): return x >> i & 1
    if isinstance(x, X): return bf(x.op, bit(x.l, i), bit(x.r, i))
    x = simp(x)
    if not isinstance(x, L): return bit(x, i)
    p = pieces(x)
    if p is None: raise Unsupported('bits of a sum')
    for a, t in p:
        if isinstance(t, Tab):
            if mask(t) >> i & 1: return bit(F(a, t), i)
        elif t >> i & 1: return 1
    return 0
def leaf(x):
    """boolean F -> (leaves, truth table as tuple)"""
    a = x.atom
    if a.kind == 'bf':
        lv, tt = a.info
        return (lv, tt) if x.tab.a[1] else (lv, tuple(1 - v for v in tt))
    t = x.tab
    if t.a[0]: return ((x.atom.id, t_op('-', 1, t).id),), (1, 0)
    return ((x.atom.id, t.id),), (0, 1)
OPS = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b}
BFC = {}
def bf(op, x, y):
    if isinstance(x, int) or isinstance(y, int):
        if isinstance(x, int) and isinstance(y, int): return OPS[op](x, y)
        if isinstance(x, int): x, y = y, x
        if op == '&': return x if y else 0
        if op == '|': return 1 if y else x
        return mkF(x.atom, t_op('-', 1, x.tab)) if y else x
    if x.atom is y.atom: return mkF(x.atom, t_op(op, x.tab, y.tab))
    la, ta = leaf(x); lb, tb = leaf(y); lv = tuple(sorted(set(la) | set(lb))); n = len(lv)
    if n > 8: raise Unsupported('boolean function of many unknowns')
    key = (op, ta, tb, tuple(lv.index(v) for v in la), tuple(lv.index(v) for v in lb)); r = BFC.get(key)
    if r is None:
        pa, pb = key[3], key[4]; tt = []
        for v in range(1 << n):
            ia = sum((v >> p & 1) << i for i, p in enumerate(pa)); ib = sum((v >> p & 1) << i for i, p in enumerate(pb)); tt.append(OPS[op](ta[ia], tb[ib]))
        keep = [i for i in range(n) if any(tt[v] != tt[v ^ 1 << i] for v in range(1 << n))]
        if len(keep) < n: tt = [tt[sum((v >> j & 1) << keep[j] for j in range(len(keep)))] for v in range(1 << len(keep))]
        r = BFC[key] = (keep, tuple(tt))
    keep, tt = r; lv = tuple(lv[i] for i in keep)
    return mkbf(lv, tt)
def mkbf(lv, tt):
    if not lv: return tt[0]
    if len(lv) == 1:
        i, t = lv[0]; f = F(ATOMS[i], TABS[t]); return f if tt == (0, 1) else mkF(f.atom, t_op('-', 1, f.tab))
    ng = tt[0] == 1
    if ng: tt = tuple(1 - v for v in tt)
    f = F(atom('bf', (lv, tt), 2, (lv, tt)), ident(2))
    return mkF(f.atom, t_op('-', 1, f.tab)) if ng else f
def mat(x):
    """a bitwise combination as a sum of its bits"""
    if x.m is None:
        d = 0; e = x
        while isinstance(e, X): e = e.l; d += 1
        if d > 200: raise Unsupported('large bitwise combination used as a number')
        w = width(x); neg_ = rng(x)[0] < 0; r = 0
        for i in range(w + (1 if neg_ else 0)):
            b = bit(x, i); r = add(r, mul(b, (1 << i) if i < w else -(1 << i)))
        x.m = simp(r)
    return x.m
# ---- booleans
def lits(x, want, out):
    """add to out the (atom id, tab id) literals whose conjunction says x == want, bit by bit; False if impossible"""
    x = simp(x) if isinstance(x, L) else x
    w = max(width(x), width(want)) + 1
    for i in range(w):
        b = bf('^', bf('^', bit(x, i), bit(want, i)), 1)
        if isinstance(b, int):
            if not b: return False
            continue
        blits(b, out)
    return True
def blits(b, out):
    a = b.atom
    if a.kind == 'conj' and b.tab.a[1]: out |= a.info; return
    if a.kind == 'bf':
        lv, tt = leaf(b)
        # conjunctions of literals are split
        ones = [v for v in range(len(tt)) if tt[v]]
        if len(ones) == 1:
            for j, (i, t) in enumerate(lv): f = F(ATOMS[i], TABS[t]); blits(f if ones[0] >> j & 1 else mkF(f.atom, t_op('-', 1, f.tab)), out)
            return
    out.add((a.id, b.tab.id))
def conj(s):
    if not s: return True
    if len(s) == 1:
        (i, t), = s; return F(ATOMS[i], TABS[t])
    byatom = {}
    for i, t in s: byatom.setdefault(i, []).append(t)
    s2 = set()
    for i, l in byatom.items():
        t = TABS[l[0]]
        for u in l[1:]: t = t_op('*', t, TABS[u])
        if t.const:
            if t.lo == 0: return False
            continue
        s2.add((i, t.id))
    s = frozenset(s2)
    if len(s) == 1:
        (i, t), = s; return F(ATOMS[i], TABS[t])
    if not s: return True
    return F(atom('conj', s, 2, s), ident(2))
def truthy(x):
    """the truth value of x as a bool or a 0/1 term"""
    if not isinstance(x, T): return bool(x)
    if isinstance(x, X): return lnot(eq(x, 0))
    x = simp(x)
    if one(x): return x
    return fop('!=', x, 0) if not isinstance(x, L) else lnot(eq(x, 0))
def lnot(x):
    x = truthy(x)
    if isinstance(x, bool): return not x
    return mkb(mkF(x.atom, t_op('-', 1, x.tab)))
def mkb(x): return bool(x) if isinstance(x, int) else x
def zero(x, out):
    """literals of x == 0"""
    st = [x]
    while st:
        x = st.pop()
        if isinstance(x, X) and x.op == '|': st += [x.l, x.r]
        elif isinstance(x, X) and x.op == '^':
            if not lits(x.l, x.r, out): return False
        elif isinstance(x, X): 
            if not lits(x, 0, out): return False
        elif not isinstance(x, T):
            if x: return False
        elif not lits(x, 0, out): return False
    return True
def eq(x, y):
    if not isinstance(y, (T, int, float)): return False
    if not isinstance(x, T): x, y = y, x
    if isinstance(y, int) and y == 0 and isinstance(x, X):
        s = set(); return conj(s) if zero(x, s) else False
    x = simp(x); y = simp(y)
    if not isinstance(x, T) and not isinstance(y, T): return x == y
    if same(x, y): return True
    if isinstance(x, F) and (not isinstance(y, T) or isinstance(y, F) and y.atom is x.atom): return mkb(fop('==', x, y))
    if isinstance(y, F) and not isinstance(x, T): return mkb(fop('==', x, y))
    s = set(); return conj(s) if lits(x, y, s) else False
def conjunction(l):
    s = set()
    for b in l:
        b = truthy(b)
        if isinstance(b, bool):
            if not b: return False
            continue
        blits(b, s)
    return conj(s)
def ite(c, x, y):
    """c: 0/1 term"""
    if isinstance(c, (bool, int)): return x if c else y
    chk(x, y)
    if isinstance(x, T) or isinstance(y, T):
        if x is y: return x
    elif x == y and type(x) is type(y): return x
    if isinstance(x, X): x = mat(x)
    if isinstance(y, X): y = mat(y)
    d = simp(add(x, neg(y)))
    if not isinstance(d, T) or isinstance(d, F) and d.atom is c.atom: return add(y, mul(c, d))
    if rng(x)[0] >= 0 and rng(y)[0] >= 0:
        try:
            r = 0
            for i in range(max(width(x), width(y))): r = add(r, mul(bf('|', bf('&', c, bit(x, i)), bf('&', bf('^', c, 1), bit(y, i))), 1 << i))
            return simp(r)
        except Unsupported: pass
    return add(y, mul(c, d))
def rnd(x):
    x = simp(x)
    if isinstance(x, F): return mkF(x.atom, t_fn('round', x.tab, lambda a: np.rint(a).astype(np.int64)))
    raise Unsupported('round')
def trunc(x):
    x = simp(x)
    if isinstance(x, F): return mkF(x.atom, t_fn('trunc', x.tab, lambda a: np.trunc(a).astype(np.int64)) if x.tab.flt else x.tab)
    return x
def floor(x):
    x = simp(x)
    if isinstance(x, F): return mkF(x.atom, t_fn('floor', x.tab, lambda a: np.floor(a).astype(np.int64)) if x.tab.flt else x.tab)
    return x
def ckey(x):
    """canonical key: equal keys denote equal functions"""
    x = simp(x)
    if isinstance(x, F): return ('F', x.atom.id, x.tab.id)
    if isinstance(x, L): return ('L', nf_key(nf(x)))
    return x
def same(x, y):
    if x is y: return True
    a = ckey(x); b = ckey(y)
    if type(a) is tuple or type(b) is tuple: return a == b
    return a == b
def app(x, f, name):
    """apply a total function, given on integers, to a one-atom term or constant"""
    x = simp(x)
    if isinstance(x, int): return f(x)
    if not isinstance(x, F): raise Unsupported('function of several unknowns')
    return mkF(x.atom, t_fn(('app', name), x.tab, lambda a: np.array([f(int(v)) for v in a], dtype=np.int64)))

def sumprod(xs, ys, q):
    """sum of xs[k]*ys[k] modulo q; direct construction of the normal form when all factors are functions of distinct unknowns"""
    if len(xs) >= 32 and all(type(v) is F for v in xs) and all(type(v) is F for v in ys) and len({v.atom.id for v in xs} | {v.atom.id for v in ys}) == 2 * len(xs):
        a = np.empty((len(xs), 3), dtype=np.int64); x = np.array([v.code(q) for v in xs], dtype=np.int64); y = np.array([v.code(q) for v in ys], dtype=np.int64)
        a[:, 0] = np.minimum(x, y); a[:, 1] = np.maximum(x, y); a[:, 2] = 1; n = NF(); n.m = None; n.k = (0, (), a[np.lexsort((a[:, 1], a[:, 0]))].tobytes())
        if not any(v.tab.flt or red(v.tab, q).const for v in list(xs) + list(ys)): return F(atom('mod', (q, n.k), q, (q, n)), ident(q))
    s = 0
    for a, b in zip(xs, ys): s = s + a * b
    return mod(s, q)
