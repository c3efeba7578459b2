"""Mechanical extraction of the Python implementation: the source is parsed, conditionals, boolean
operators, comparisons and conditional stores are rewritten so that they accept symbolic operands,
and the result is executed by CPython.  Nothing is dropped."""
import ast, builtins
import terms, stubs
from terms import *
from stubs import *
REAL = {'functools', 'itertools', 'operator', 'typing', 'collections', 'dataclasses', 'abc', 'enum', 'copy', '__future__', 'sys'}
class Tr(ast.NodeTransformer):
    def __init__(self): self.n = 0; self.inif = 0
    def fresh(self): self.n += 1; return '_fv_%d' % self.n
    def call(self, f, *a): return ast.Call(ast.Attribute(ast.Name('_fv', ast.Load()), f, ast.Load()), list(a), [])
    def lam(self, e): return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
    def visit_Constant(self, n): return self.call('lit', n) if isinstance(n.value, builtins.bytes) else n
    def visit_BoolOp(self, n):
        self.generic_visit(n); return self.call('all' if isinstance(n.op, ast.And) else 'any', *[self.lam(v) for v in n.values]) if not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)) else n
    def visit_UnaryOp(self, n):
        self.generic_visit(n); return self.call('lnot', n.operand) if isinstance(n.op, ast.Not) else n
    def visit_IfExp(self, n):
        self.generic_visit(n); return self.call('ifexp', n.test, self.lam(n.body), self.lam(n.orelse))
    def visit_Compare(self, n):
        self.generic_visit(n)
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops): return n
        names = [type(o).__name__ for o in n.ops]
        return self.call('cmp', ast.Tuple([ast.Constant(x) for x in names], ast.Load()), n.left, *n.comparators)
    def visit_Call(self, n):
        # sum(e for x in s if c) is sum(e if c else 0 for x in s)
        if isinstance(n.func, ast.Name) and n.func.id == 'sum' and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1 and n.args[0].generators[0].ifs:
            g = n.args[0]; t = g.generators[0].ifs; g.elt = ast.IfExp(t[0] if len(t) == 1 else ast.BoolOp(ast.And(), t), g.elt, ast.Constant(0)); g.generators[0].ifs = []
        self.generic_visit(n); return n
    def visit_If(self, n):
        names = sorted({x.id for s in n.body + n.orelse for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))})
        bad = None
        for s in n.body + n.orelse:
            for x in ast.walk(s):
                if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Lambda, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.Assert)): bad = type(x).__name__
                if isinstance(x, ast.Call):
                    f = x.func
                    if not (isinstance(f, ast.Name) and f.id in ('range', 'len', 'int', 'bytes', 'abs', 'round', 'bool', 'min', 'max', 'sum', 'pow') or isinstance(f, ast.Attribute) and f.attr in ('set',)): bad = 'call'
        self.inif += 1; self.generic_visit(n); self.inif -= 1
        c = self.fresh(); cn = ast.Name(c, ast.Load()); assign = lambda t, v: ast.Assign([ast.Name(t, ast.Store())], v)
        sym = []
        if bad: sym = [ast.Expr(self.call('unsupported', ast.Constant('symbolic condition around ' + bad)))]
        else:
            o, b, e = self.fresh(), self.fresh(), self.fresh(); ld = lambda v, i: ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(i), ast.Load())
            sv = lambda: self.call('save', ast.Call(ast.Name('_fv_locals', ast.Load()), [], []), ast.Tuple([ast.Constant(x) for x in names], ast.Load()))
            ex = lambda v: ast.Expr(v); import copy
            sym = [assign(o, sv()), ex(self.call('begin'))] + copy.deepcopy(n.body) + [assign(b, sv()), ex(self.call('flip'))] + [assign(x, ld(o, i)) for i, x in enumerate(names)] + copy.deepcopy(n.orelse) + [assign(e, sv()), ex(self.call('end', cn))] + [assign(x, self.call('merge', cn, ld(b, i), ld(e, i))) for i, x in enumerate(names)]
        true = n.body; false = n.orelse or [ast.Pass()]
        return [assign(c, self.call('truth', n.test)), ast.If(ast.Compare(cn, [ast.Is()], [ast.Constant(True)]), true, [ast.If(ast.Compare(cn, [ast.Is()], [ast.Constant(False)]), false, sym)])]
    def visit_stmts(self, l):
        # "if c: return a" followed by "return b" is "return a if c else b"
        r = []; i = 0
        while i < len(l):
            s = l[i]
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
                if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Return) and s.orelse[0].value is not None: r.append(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))); i += 1; continue
                if not s.orelse and i + 1 < len(l) and isinstance(l[i + 1], ast.Return) and l[i + 1].value is not None: r.append(ast.Return(ast.IfExp(s.test, s.body[0].value, l[i + 1].value))); i += 2; continue
            r.append(s); i += 1
        return r
    def visit_FunctionDef(self, n): n.body = self.visit_stmts(n.body); self.generic_visit(n); return n
    def store(self, t, v):
        if isinstance(t, ast.Subscript): return ast.Expr(self.call('store', t.value, t.slice, v))
        return None
    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.inif and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice): return self.store(n.targets[0], n.value)
        if self.inif and any(isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)): return [ast.Expr(self.call('nojournal')), n]
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if self.inif and isinstance(n.target, ast.Subscript) and not isinstance(n.target.slice, ast.Slice):
            op = type(n.op).__name__; return ast.Expr(self.call('augstore', n.target.value, n.target.slice, ast.Constant(op), n.value))
        if self.inif and not isinstance(n.target, ast.Name): return [ast.Expr(self.call('nojournal')), n]
        return n
AUG = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift, 'Mod': operator.mod, 'FloorDiv': operator.floordiv}
SEQ = (list, tuple, SeqBase, builtins.bytes, builtins.bytearray)
def seq(x): return x.l if isinstance(x, SeqBase) else list(x)
class RT:
    lit = staticmethod(lambda b: SBytes.mk(b))
    nojournal = staticmethod(nojournal)
    @staticmethod
    def unsupported(w): raise Unsupported(w)
    @staticmethod
    def truth(x): return truthy(x) if isinstance(x, T) else builtins.bool(x)
    @staticmethod
    def lnot(x): return lnot(x) if isinstance(x, T) else not x
    @staticmethod
    def all(*l):
        for i, f in enumerate(l):
            v = f()
            if isinstance(v, T): return conjunction([v] + [g() for g in l[i + 1:]]) if len(l) > i + 1 else v
            if not v: return v
        return v
    @staticmethod
    def any(*l):
        for i, f in enumerate(l):
            v = f()
            if isinstance(v, T): return lnot(conjunction([lnot(v)] + [lnot(g()) for g in l[i + 1:]])) if len(l) > i + 1 else v
            if v: return v
        return v
    @staticmethod
    def ifexp(c, a, b):
        c = truthy(c) if isinstance(c, T) else builtins.bool(c)
        if c is True: return a()
        if c is False: return b()
        return RT.merge(c, a(), b())
    @staticmethod
    def eq(a, b):
        if isinstance(a, Bits) and isinstance(b, Bits): a, b = list(a.b), list(b.b)
        if isinstance(a, SEQ) and isinstance(b, SEQ):
            kinds = [0 if isinstance(x, list) else 1 if isinstance(x, tuple) else 2 for x in (a, b)]
            if kinds[0] != kinds[1]: return False
            a, b = seq(a), seq(b)
            return conjunction([RT.eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
        if isinstance(a, T) or isinstance(b, T): return eq(a, b)
        return a == b
    @staticmethod
    def cmp(ops, *v):
        r = []
        for i, o in enumerate(ops):
            a, b = v[i], v[i + 1]
            if o == 'Eq': x = RT.eq(a, b)
            elif o == 'NotEq': x = RT.eq(a, b); x = lnot(x) if isinstance(x, T) else not x
            elif o in ('In', 'NotIn'):
                if isinstance(a, T): x = lnot(conjunction([lnot(RT.eq(a, y)) for y in b]))
                else: x = a in b
                if o == 'NotIn': x = lnot(x) if isinstance(x, T) else not x
            elif o in ('Is', 'IsNot'): x = (a is b) == (o == 'Is')
            else: x = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[o](a, b)
            if not isinstance(x, T) and not x: return x
            r.append(x)
        if len(r) == 1: return r[0]
        return conjunction(r)
    @staticmethod
    def save(loc, names): return [loc.get(x, MISSING) for x in names]
    @staticmethod
    def begin(): JOURNAL.append([])
    @staticmethod
    def undo(j):
        new = {}; keep = {}
        for c, i, old in reversed(j):
            if (id(c), i) not in new: new[(id(c), i)] = c[i]; keep[(id(c), i)] = c
            c[i] = old
        return new, keep
    @staticmethod
    def flip():
        j = JOURNAL.pop(); JOURNAL.append([]); RT.first.append(RT.undo(j))
    first = []
    @staticmethod
    def end(c):
        j = JOURNAL.pop(); n2, k2 = RT.undo(j); n1, k1 = RT.first.pop(); k2.update(k1)
        for k, cont in k2.items():
            old = cont[k[1]]; setloc(cont, k[1], RT.merge(c, n1.get(k, old), n2.get(k, old)))
    @staticmethod
    def merge(c, a, b):
        if a is b: return a
        if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)): return ite(c, a, b)
        if isinstance(a, (SBytes, builtins.bytes)) and isinstance(b, (SBytes, builtins.bytes)) and len(a) == len(b): return SBytes.mk([ite(c, x, y) for x, y in zip(blist(a), blist(b))])
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return tuple(RT.merge(c, x, y) for x, y in zip(a, b))
        if a is MISSING or b is MISSING: return MISSING
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    @staticmethod
    def store(c, i, v):
        if JOURNAL:
            if isinstance(c, list):
                if isinstance(i, slice): raise Unsupported('slice store')
                i = operator.index(i); i = i + len(c) if i < 0 else i
                JOURNAL[-1].append((c, i, c[i]))
            elif not isinstance(c, (SByteArray, BitArray)): raise Unsupported('store')
        c[i] = v
    @staticmethod
    def augstore(c, i, op, v):
        if op not in AUG: raise Unsupported('augmented store')
        o = c[i]
        if isinstance(o, (list, SByteArray, BitArray)): raise Unsupported('in-place operator on a container')
        RT.store(c, i, AUG[op](o, v))
def load(path):
    src = open(path).read(); tree = ast.parse(src, path); tree = ast.fix_missing_locations(Tr().visit(tree))
    mods = modules()
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level: raise Unsupported('relative import')
        if name in mods: return mods[name] if fromlist else mods[name.split('.')[0]]
        if name.split('.')[0] in REAL: return builtins.__import__(name, globals, locals, fromlist, level)
        raise Unsupported('import of ' + name)
    b = dict(vars(builtins)); b.update(bytes=SBytes, bytearray=SByteArray, int=SInt, bool=SBool, round=s_round, any=s_any, all=s_all, max=s_max, min=s_min, pow=s_pow, print=lambda *a, **k: None, __import__=imp, memoryview=lambda x: x)
    for k in ('open', 'exec', 'eval', 'compile', 'input', 'divmod', 'hash', 'sorted', 'reversed', 'float', 'bin', 'hex', 'format'):
        if k in ('reversed',): continue
        b[k] = (lambda k: lambda *a, **kw: un(k) if any(isinstance(x, T) for x in a) or k in ('open', 'exec', 'eval', 'input', 'compile') else getattr(builtins, k)(*a, **kw))(k)
    g = {'__builtins__': b, '__name__': 'frodokem', '_fv': RT, '_fv_locals': builtins.locals}
    code = compile(tree, path, 'exec'); exec(code, g)
    return g
