#include "term.h"
TermDB DB;

// The "boundary" view: segments of a term, LSB first.
static void segs(Term *t, std::vector<Term *> &out) { if (t->k == CONCAT) for (u32 i = 0; i < t->n; i++) out.push_back(t->a(i)); else out.push_back(t); }

Term *mkExtract(Term *t, unsigned lo, unsigned w) {
  if (lo == 0 && w == t->w) return t;
  switch (t->k) {
  case CONST: return mkC(w, t->c() >> lo);
  case EXTRACT: return mkExtract(t->a(0), t->p[1] + lo, w);
  case CONCAT: {
    std::vector<Term *> ps; unsigned s = 0, hi = lo + w;
    for (u32 i = 0; i < t->n && s < hi; i++) { Term *x = t->a(i); unsigned e = s + x->w; if (e > lo) { unsigned l = std::max(s, lo), h = std::min(e, hi); ps.push_back(mkExtract(x, l - s, h - l)); } s = e; }
    return mkConcat(ps); }
  case SEXT: { Term *x = t->a(0); if (lo + w <= x->w) return mkExtract(x, lo, w); if (lo >= x->w - 1u) return mkSext(mkExtract(x, x->w - 1, 1), w); return mkSext(mkExtract(x, lo, x->w - lo), w); }
  case ADD: case MUL:
    if (lo == 0 && t->dep > 16) { // deep: memoise the pushed truncation
      static std::unordered_map<u64, Term *> memo; u64 key = (u64)t->id << 8 | w; auto it = memo.find(key); if (it != memo.end()) return it->second;
      Term *a = mkExtract(t->a(0), 0, w), *b = mkExtract(t->a(1), 0, w); Term *r = t->k == ADD ? mkAdd(a, b) : mkMul(a, b); memo[key] = r; return r; }
    if (lo == 0) { Term *a = mkExtract(t->a(0), 0, w), *b = mkExtract(t->a(1), 0, w); return t->k == ADD ? mkAdd(a, b) : mkMul(a, b); }
    if (lo + w < t->w) return mkExtract(mkExtract(t, 0, lo + w), lo, w);
    break;
  case AND: if (t->dep > 6 && !t->a(0)->isc()) break; return mkAnd(mkExtract(t->a(0), lo, w), mkExtract(t->a(1), lo, w));
  case OR: if (t->dep > 6 && !t->a(0)->isc()) break; return mkOr(mkExtract(t->a(0), lo, w), mkExtract(t->a(1), lo, w));
  case XOR: if (t->dep > 6 && !t->a(0)->isc()) break; return mkXor(mkExtract(t->a(0), lo, w), mkExtract(t->a(1), lo, w));
  case ITE: if (t->dep > 12) break; return mkIte(t->a(0), mkExtract(t->a(1), lo, w), mkExtract(t->a(2), lo, w));
  case ANY: { u64 m = nzmask(t) >> lo & maskw(w); if (!m) return mkC(w, 0); if (m >> (w - 1) & 1) return mkAnyFull(w, t->lab); return mkAny(w, t->lab, 0, (i64)m); }
  case LOOKUP: { Table &T = DB.tables[t->p[0]]; if (T.v.size() <= 256) { std::vector<u64> v(T.v); for (auto &x : v) x = x >> lo & maskw(w); return mkLookup(w, v, t->a(1)); } break; }
  default: break;
  }
  u64 m = nzmask(t); if (!((m >> lo) & maskw(w))) return mkC(w, 0);
  u64 p[2] = {(u64)t, lo}; return DB.mk(EXTRACT, w, t->lab, p, 2);
}

Term *mkConcat(const std::vector<Term *> &in) {
  if (in.size() == 1) return in[0];
  Term *buf[160]; u32 n = 0; unsigned w = 0;
  auto push = [&](Term *x) {
    w += x->w;
    while (n) {
      Term *l = buf[n - 1];
      if (l->isc() && x->isc()) { if (l->w + x->w > 64) { fprintf(stderr, "concat>64\n"); abort(); } x = mkC(l->w + x->w, l->c() | x->c() << l->w); n--; continue; }
      Term *lb = l->k == EXTRACT ? l->a(0) : l; u64 ll = l->k == EXTRACT ? l->p[1] : 0;
      Term *xb = x->k == EXTRACT ? x->a(0) : x; u64 xl = x->k == EXTRACT ? x->p[1] : 0;
      if (lb == xb && x->k == EXTRACT && ll + l->w == xl) { n--; u64 p[2] = {(u64)lb, ll}; if (ll == 0 && l->w + x->w == lb->w) x = lb; else x = DB.mk(EXTRACT, l->w + x->w, lb->lab, p, 2);
        if (x == lb && x->k == CONCAT) { fprintf(stderr, "concat norm\n"); abort(); } continue; }
      // partial lookups over the same index merge back
      if (l->k == LOOKUP && x->k == LOOKUP && l->a(1) == x->a(1) && l->w + x->w <= 64) {
        Table &A = DB.tables[l->p[0]], &B = DB.tables[x->p[0]];
        if (A.v.size() == B.v.size()) { std::vector<u64> v(A.v); for (size_t i = 0; i < v.size(); i++) v[i] |= B.v[i] << l->w; n--; x = mkLookup(l->w + x->w, v, l->a(1)); continue; } }
      break;
    }
    buf[n++] = x;
  };
  for (Term *t : in) { if (t->k == CONCAT) for (u32 i = 0; i < t->n; i++) push(t->a(i)); else push(t); }
  if (n == 1) return buf[0];
  // re-merge XOR/AND/OR of contiguous extracts of identical operands (no recursion)
  if (n == 2 && buf[0]->k == buf[1]->k && (buf[0]->k == XOR || buf[0]->k == AND || buf[0]->k == OR)) {
    Term *l = buf[0], *h = buf[1];
    auto join = [](Term *x, Term *y) -> Term * {
      if (x->isc() && y->isc()) return mkC(x->w + y->w, x->c() | y->c() << x->w);
      if (y->k != EXTRACT) return nullptr; Term *xb = x->k == EXTRACT ? x->a(0) : x; u64 xl = x->k == EXTRACT ? x->p[1] : 0;
      if (xb != y->a(0) || xl + x->w != y->p[1]) return nullptr; return mkExtract(xb, xl, x->w + y->w); };
    for (int sw = 0; sw < 2; sw++) {
      Term *p0 = join(l->a(0), h->a(sw)), *p1 = p0 ? join(l->a(1), h->a(1 - sw)) : nullptr;
      if (p0 && p1) return l->k == XOR ? mkXor(p0, p1) : l->k == AND ? mkAnd(p0, p1) : mkOr(p0, p1);
    }
  }
  u64 p[160]; u8 lab = 0; for (u32 i = 0; i < n; i++) { p[i] = (u64)buf[i]; lab |= buf[i]->lab; }
  if (w > 64) { fprintf(stderr, "concat width %u\n", w); abort(); }
  return DB.mk(CONCAT, w, lab, p, n);
}

static bool hasConstSeg(Term *t) { if (t->k != CONCAT) return false; for (u32 i = 0; i < t->n; i++) if (t->a(i)->isc()) return true; return false; }
static bool sameBounds(Term *a, Term *b) { if (a->k != CONCAT || b->k != CONCAT || a->n != b->n) return false; for (u32 i = 0; i < a->n; i++) if (a->a(i)->w != b->a(i)->w) return false; return true; }

// split two terms on the union of their boundaries and apply f
template <class F> static Term *splitOp(Term *a, Term *b, F f) {
  std::vector<unsigned> cut; unsigned s = 0; std::vector<Term *> sa, sb; segs(a, sa); segs(b, sb);
  for (auto x : sa) { s += x->w; cut.push_back(s); } s = 0; for (auto x : sb) { s += x->w; cut.push_back(s); }
  std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
  std::vector<Term *> out; unsigned lo = 0;
  for (unsigned c : cut) { out.push_back(f(mkExtract(a, lo, c - lo), mkExtract(b, lo, c - lo))); lo = c; }
  return mkConcat(out);
}
static int runs(u64 m, unsigned w) { int r = 1; for (unsigned i = 1; i < w; i++) if ((m >> i & 1) != (m >> (i - 1) & 1)) r++; return r; }
static Term *splitConst(u64 m, unsigned w) { // constant as concat view handled by caller
  return mkC(w, m); }

Term *mkAnd(Term *a, Term *b) {
  unsigned w = a->w;
  if (a->isc() && b->isc()) return mkC(w, a->c() & b->c());
  if (b->isc()) std::swap(a, b);
  if (a == b) return a;
  if (a->isc()) {
    u64 m = a->c(); if (m == 0) return mkC(w, 0); if (m == maskw(w)) return b;
    if (runs(m, w) <= 8) { std::vector<Term *> out; unsigned lo = 0; while (lo < w) { bool bit = m >> lo & 1; unsigned hi = lo; while (hi < w && (m >> hi & 1) == bit) hi++; out.push_back(bit ? mkExtract(b, lo, hi - lo) : mkC(hi - lo, 0)); lo = hi; } return mkConcat(out); }
    u64 nz = nzmask(b); if ((m & nz) == 0) return mkC(w, 0); if ((m & nz) == nz) return b;
  }
  if (hasConstSeg(a) || hasConstSeg(b) || sameBounds(a, b)) return splitOp(a, b, mkAnd);
  if (a->k == SEXT && a->a(0)->w == 1 && b->k == SEXT && b->a(0)->w == 1) return mkSext(mkAnd(a->a(0), b->a(0)), w);
  if (DB.abstract && !a->isc()) { u64 m = nzmask(a) & nzmask(b); u8 l = a->lab | b->lab; return (m >> (w - 1) & 1) ? mkAnyFull(w, l) : mkAny(w, l, 0, (i64)m); }
  if (b->k == AND && (b->a(0) == a || b->a(1) == a)) return b;
  if (a->k == AND && (a->a(0) == b || a->a(1) == b)) return a;
  if ((a->k == XOR && a->a(0)->isc() && a->a(0)->c() == maskw(w) && a->a(1) == b) || (b->k == XOR && b->a(0)->isc() && b->a(0)->c() == maskw(w) && b->a(1) == a)) return mkC(w, 0);
  if (!a->isc() && (b->isc() || a->id > b->id)) std::swap(a, b);
  return mk2(AND, w, a, b);
}
Term *mkOr(Term *a, Term *b) {
  unsigned w = a->w;
  if (a->isc() && b->isc()) return mkC(w, a->c() | b->c());
  if (b->isc()) std::swap(a, b);
  if (a == b) return a;
  if (a->isc()) {
    u64 m = a->c(); if (m == 0) return b; if (m == maskw(w)) return a;
    if (runs(m, w) <= 8) { std::vector<Term *> out; unsigned lo = 0; while (lo < w) { bool bit = m >> lo & 1; unsigned hi = lo; while (hi < w && (m >> hi & 1) == bit) hi++; out.push_back(!bit ? mkExtract(b, lo, hi - lo) : mkC(hi - lo, ~0ull)); lo = hi; } return mkConcat(out); }
  }
  if (hasConstSeg(a) || hasConstSeg(b) || sameBounds(a, b)) return splitOp(a, b, mkOr);
  if (a->k == SEXT && a->a(0)->w == 1 && b->k == SEXT && b->a(0)->w == 1) return mkSext(mkOr(a->a(0), b->a(0)), w);
  if (DB.abstract && !a->isc()) { u64 m = nzmask(a) | nzmask(b); u8 l = a->lab | b->lab; return (m >> (w - 1) & 1) ? mkAnyFull(w, l) : mkAny(w, l, 0, (i64)m); }
  if (b->k == OR && (b->a(0) == a || b->a(1) == a)) return b;
  if (a->k == OR && (a->a(0) == b || a->a(1) == b)) return a;
  if (!a->isc() && (b->isc() || a->id > b->id)) std::swap(a, b);
  return mk2(OR, w, a, b);
}
Term *mkXor(Term *a, Term *b) {
  unsigned w = a->w;
  if (a->isc() && b->isc()) return mkC(w, a->c() ^ b->c());
  if (b->isc()) std::swap(a, b);
  if (a == b) return mkC(w, 0);
  if (a->isc()) {
    if (a->c() == 0) return b;
    if (b->k == XOR && b->a(0)->isc()) return mkXor(mkC(w, a->c() ^ b->a(0)->c()), b->a(1));
    if (b->k == CONCAT && hasConstSeg(b)) return splitOp(a, b, mkXor);
    if (DB.abstract) return mkAnyFull(w, b->lab);
    return mk2(XOR, w, a, b);
  }
  if (hasConstSeg(a) || hasConstSeg(b) || sameBounds(a, b)) return splitOp(a, b, mkXor);
  if (a->k == SEXT && a->a(0)->w == 1 && b->k == SEXT && b->a(0)->w == 1) return mkSext(mkXor(a->a(0), b->a(0)), w);
  if (DB.abstract) { u64 m = nzmask(a) | nzmask(b); u8 l = a->lab | b->lab; return (m >> (w - 1) & 1) ? mkAnyFull(w, l) : mkAny(w, l, 0, (i64)m); }
  if (a->k == XOR && a->a(0)->isc()) return mkXor(a->a(0), mkXor(a->a(1), b));
  if (b->k == XOR && b->a(0)->isc()) return mkXor(b->a(0), mkXor(a, b->a(1)));
  if (b->k == XOR) { if (b->a(0) == a) return b->a(1); if (b->a(1) == a) return b->a(0); }
  if (a->k == XOR) { if (a->a(0) == b) return a->a(1); if (a->a(1) == b) return a->a(0); }
  if (a->id > b->id) std::swap(a, b);
  return mk2(XOR, w, a, b);
}
Term *mkAdd(Term *a, Term *b) {
  unsigned w = a->w;
  if (a->isc() && b->isc()) return mkC(w, a->c() + b->c());
  if (b->isc()) std::swap(a, b);
  if (w == 1) return mkXor(a, b);
  if (a->isc()) { if (a->c() == 0) return b; if (b->k == ADD && b->a(0)->isc()) return mkAdd(mkC(w, a->c() + b->a(0)->c()), b->a(1)); }
  if ((a->isc() || a->k == CONCAT || b->k == CONCAT) && (nzmask(a) & nzmask(b)) == 0) return mkOr(a, b);
  if (DB.abstract) { Rng x = rngS(a), y = rngS(b), F = fullS(w); u8 l = a->lab | b->lab; i128 lo = x.lo + y.lo, hi = x.hi + y.hi; if (lo < F.lo || hi > F.hi) return mkAnyFull(w, l); return mkAny(w, l, (i64)lo, (i64)hi); }
  if (b->k == MUL && b->a(0)->isc() && b->a(0)->c() == maskw(w) && b->a(1) == a) return mkC(w, 0);
  if (a->k == MUL && a->a(0)->isc() && a->a(0)->c() == maskw(w) && a->a(1) == b) return mkC(w, 0);
  // common low zero bits: keep as is.  canonical arg order
  if (!a->isc() && a->id > b->id) std::swap(a, b);
  return mk2(ADD, w, a, b);
}
Term *mkMul(Term *a, Term *b) {
  unsigned w = a->w;
  if (a->isc() && b->isc()) return mkC(w, a->c() * b->c());
  if (b->isc()) std::swap(a, b);
  if (a->isc()) {
    u64 c = a->c(); if (c == 0) return a; if (c == 1) return b;
    if (w == 1) return b;
    u64 nz = nzmask(b);
    if (nz == 1) { Term *bit = mkExtract(b, 0, 1); std::vector<Term *> out; unsigned lo = 0; // bit * c
      if (c == maskw(w)) return mkSext(bit, w);
      while (lo < w) { if (c >> lo & 1) { unsigned hi = lo; while (hi < w && (c >> hi & 1)) hi++; out.push_back(mkSext(bit, hi - lo)); lo = hi; } else { unsigned hi = lo; while (hi < w && !(c >> hi & 1)) hi++; out.push_back(mkC(hi - lo, 0)); lo = hi; } }
      return mkConcat(out); }
    if ((c & (c - 1)) == 0) { unsigned k = __builtin_ctzll(c); return mkConcat({mkC(k, 0), mkExtract(b, 0, w - k)}); }
    if (b->k == MUL && b->a(0)->isc()) return mkMul(mkC(w, c * b->a(0)->c()), b->a(1));
  } else if (w == 1) return mkAnd(a, b);
  if (DB.abstract) { Rng x = rngS(a), y = rngS(b), F = fullS(w); u8 l = a->lab | b->lab;
    if (w <= 62) { i128 v[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; i128 lo = *std::min_element(v, v + 4), hi = *std::max_element(v, v + 4); if (lo >= F.lo && hi <= F.hi) return mkAny(w, l, (i64)lo, (i64)hi); }
    return mkAnyFull(w, l); }
  if (!a->isc() && a->id > b->id) std::swap(a, b);
  return mk2(MUL, w, a, b);
}
Term *mkSext(Term *t, unsigned w) {
  if (w == t->w) return t;
  if (t->isc()) return mkC(w, (u64)sx(t->c(), t->w));
  if (!(nzmask(t) >> (t->w - 1) & 1)) return mkZext(t, w);
  if (t->k == SEXT) return mkSext(t->a(0), w);
  if (DB.abstract && t->k == ANY) return mkAny(w, t->lab, (i64)t->p[0], (i64)t->p[1]);
  // sext of a concat: only the top part matters
  if (t->k == CONCAT) { std::vector<Term *> ps; for (u32 i = 0; i + 1 < t->n; i++) ps.push_back(t->a(i)); Term *top = t->a(t->n - 1); ps.push_back(mkSext(top, w - (t->w - top->w))); return mkConcat(ps); }
  u64 p[1] = {(u64)t}; return DB.mk(SEXT, w, t->lab, p, 1);
}
Term *mkIte(Term *c, Term *a, Term *b) {
  if (c->isc()) return c->c() ? a : b;
  if (a == b) return a;
  if (c->k == XOR && c->a(0)->isc()) return mkIte(c->a(1), b, a);
  unsigned w = a->w;
  if (w == 1) {
    if (a->isc() && b->isc()) return a->c() ? c : mkNot(c);
    if (a->isc()) return a->c() ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isc()) return b->c() ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->isc() && b->isc() && a->c() == maskw(w) && b->c() == 0) return mkSext(c, w);
  if (a->isc() && b->isc() && b->c() == maskw(w) && a->c() == 0) return mkSext(mkNot(c), w);
  if (a->isc() && b->isc() && a->c() == 1 && b->c() == 0) return mkZext(c, w);
  if (a->isc() && b->isc() && b->c() == 1 && a->c() == 0) return mkZext(mkNot(c), w);
  if (DB.abstract) { Rng x = rngS(a), y = rngS(b); return mkAny(w, a->lab | b->lab | c->lab, (i64)std::min(x.lo, y.lo), (i64)std::max(x.hi, y.hi)); }
  u64 p[3] = {(u64)c, (u64)a, (u64)b}; return DB.mk(ITE, w, c->lab | a->lab | b->lab, p, 3);
}
Term *mkEq(Term *a, Term *b) {
  if (a == b) return mkC(1, 1);
  if (a->isc() && b->isc()) return mkC(1, a->c() == b->c());
  if (b->isc()) std::swap(a, b);
  if (a->isc()) {
    if (a->c() & ~nzmask(b)) return mkC(1, 0);
    if (a->w == 1) return a->c() ? b : mkNot(b);
    Rng r = rngU(b); if ((i128)a->c() < r.lo || (i128)a->c() > r.hi) return mkC(1, 0);
    if (b->k == CONCAT && hasConstSeg(b)) { // drop constant segments
      std::vector<Term *> xs, cs; unsigned s = 0; for (u32 i = 0; i < b->n; i++) { Term *x = b->a(i); Term *cc = mkExtract(a, s, x->w); s += x->w; if (x->isc()) { if (x->c() != cc->c()) return mkC(1, 0); } else { xs.push_back(x); cs.push_back(cc); } }
      return mkEq(mkConcat(cs), mkConcat(xs)); }
    if (b->k == XOR && b->a(0)->isc()) return mkEq(mkC(a->w, a->c() ^ b->a(0)->c()), b->a(1));
    if (b->k == ADD && b->a(0)->isc()) return mkEq(mkC(a->w, a->c() - b->a(0)->c()), b->a(1));
    if (b->k == XOR && a->c() == 0) return mkEq(b->a(0), b->a(1));
    if (b->k == SEXT) { Term *x = b->a(0); Term *cl = mkExtract(a, 0, x->w); if ((u64)(sx(cl->c(), x->w) & maskw(a->w)) != a->c()) return mkC(1, 0); return mkEq(cl, x); }
    if (b->k == ITE && b->a(1)->isc() && b->a(2)->isc()) { bool e1 = b->a(1)->c() == a->c(), e2 = b->a(2)->c() == a->c(); if (e1 && e2) return mkC(1, 1); if (!e1 && !e2) return mkC(1, 0); return e1 ? b->a(0) : mkNot(b->a(0)); }
  } else {
    if (a->w == 1) return mkNot(mkXor(a, b));
    if (sameBounds(a, b)) { std::vector<Term *> xs, ys; for (u32 i = 0; i < a->n; i++) { if (a->a(i) == b->a(i)) continue; if (a->a(i)->isc() && b->a(i)->isc()) return mkC(1, 0); xs.push_back(a->a(i)); ys.push_back(b->a(i)); }
      if (xs.size() < a->n) return mkEq(mkConcat(xs), mkConcat(ys)); }
  }
  if (DB.abstract) return mkAny(1, a->lab | b->lab, -1, 0);
  if (!a->isc() && a->id > b->id) std::swap(a, b);
  return mk2(EQ, 1, a, b);
}
Term *mkUlt(Term *a, Term *b) {
  if (a == b) return mkC(1, 0);
  if (a->isc() && b->isc()) return mkC(1, a->c() < b->c());
  Rng x = rngU(a), y = rngU(b); if (x.hi < y.lo) return mkC(1, 1); if (x.lo >= y.hi) return mkC(1, 0);
  if (a->w == 1) return mkAnd(mkNot(a), b);
  // strip common zero top
  u64 m = nzmask(a) | nzmask(b); unsigned tw = m ? 64 - __builtin_clzll(m) : 1; if (tw < a->w) return mkUlt(mkExtract(a, 0, tw), mkExtract(b, 0, tw));
  if (b->isc() && b->c() == 1) return mkEq(mkC(a->w, 0), a);
  if (DB.abstract) return mkAny(1, a->lab | b->lab, -1, 0);
  return mk2(ULT, 1, a, b);
}
Term *mkSlt(Term *a, Term *b) {
  if (a == b) return mkC(1, 0);
  if (a->isc() && b->isc()) return mkC(1, sx(a->c(), a->w) < sx(b->c(), b->w));
  Rng x = rngS(a), y = rngS(b); if (x.hi < y.lo) return mkC(1, 1); if (x.lo >= y.hi) return mkC(1, 0);
  unsigned w = a->w;
  if (x.lo >= 0 && y.lo >= 0) return mkUlt(a, b);
  if (b->isc() && b->c() == 0) return mkExtract(a, w - 1, 1);
  if (DB.abstract) return mkAny(1, a->lab | b->lab, -1, 0);
  return mk2(SLT, 1, a, b);
}
Term *mkShl(Term *a, Term *b) {
  unsigned w = a->w;
  if (b->isc()) { u64 k = b->c(); if (k >= w) return mkC(w, 0); if (!k) return a; return mkConcat({mkC(k, 0), mkExtract(a, 0, w - k)}); }
  if (a->isc() && a->c() == 0) return a;
  if (DB.abstract) { Rng x = rngU(a), y = rngU(b); u8 l = a->lab | b->lab; if (y.hi < 64 && x.hi < ((i128)1 << 60) && (x.hi << (int)y.hi) <= fullS(w).hi) return mkAny(w, l, 0, (i64)(x.hi << (int)y.hi)); return mkAnyFull(w, l); }
  return mk2(SHL, w, a, b);
}
Term *mkLshr(Term *a, Term *b) {
  unsigned w = a->w;
  if (b->isc()) { u64 k = b->c(); if (k >= w) return mkC(w, 0); if (!k) return a; return mkConcat({mkExtract(a, k, w - k), mkC(k, 0)}); }
  if (a->isc() && a->c() == 0) return a;
  if (DB.abstract) { Rng x = rngU(a); u8 l = a->lab | b->lab; if (x.hi <= fullS(w).hi) return mkAny(w, l, 0, (i64)x.hi); return mkAnyFull(w, l); }
  return mk2(LSHR, w, a, b);
}
Term *mkAshr(Term *a, Term *b) {
  unsigned w = a->w;
  if (b->isc()) { u64 k = b->c(); if (k >= w) k = w - 1; if (!k) return a; return mkSext(mkExtract(a, k, w - k), w); }
  if (a->isc() && a->c() == 0) return a;
  if (DB.abstract) return mkAnyFull(w, a->lab | b->lab);
  return mk2(ASHR, w, a, b);
}
Term *mkUdiv(Term *a, Term *b) {
  if (a->isc() && b->isc() && b->c()) return mkC(a->w, a->c() / b->c());
  if (b->isc() && b->c() && (b->c() & (b->c() - 1)) == 0) return mkLshr(a, mkC(a->w, __builtin_ctzll(b->c())));
  if (DB.abstract) { Rng x = rngU(a); if (x.hi <= fullS(a->w).hi) return mkAny(a->w, a->lab | b->lab, 0, (i64)x.hi); return mkAnyFull(a->w, a->lab | b->lab); }
  return mk2(UDIV, a->w, a, b);
}
Term *mkUrem(Term *a, Term *b) {
  if (a->isc() && b->isc() && b->c()) return mkC(a->w, a->c() % b->c());
  if (b->isc() && b->c() && (b->c() & (b->c() - 1)) == 0) return mkAnd(a, mkC(a->w, b->c() - 1));
  if (DB.abstract) { Rng x = rngU(b); if (x.hi && x.hi - 1 <= fullS(a->w).hi) return mkAny(a->w, a->lab | b->lab, 0, (i64)(x.hi - 1)); return mkAnyFull(a->w, a->lab | b->lab); }
  return mk2(UREM, a->w, a, b);
}
Term *mkLookup(unsigned w, const std::vector<u64> &tab, Term *idx) {
  if (idx->isc()) return mkC(w, tab[std::min<u64>(idx->c(), tab.size() - 1)]);
  bool allsame = true, ident = w == idx->w; for (size_t i = 0; i < tab.size(); i++) { if (tab[i] != tab[0]) allsame = false; if (tab[i] != i) ident = false; }
  if (allsame) return mkC(w, tab[0]);
  if (ident && tab.size() == maskw(idx->w) + 1) return idx;
  auto key = std::make_pair(w, tab); auto it = DB.tabidx.find(key); u64 ti;
  if (it == DB.tabidx.end()) { ti = DB.tables.size(); DB.tables.push_back({w, tab}); DB.tabidx[key] = ti; } else ti = it->second;
  u64 p[2] = {ti, (u64)idx}; return DB.mk(LOOKUP, w, idx->lab, p, 2);
}
u32 ufName(const std::string &s) { for (u32 i = 0; i < DB.ufnames.size(); i++) if (DB.ufnames[i] == s) return i; DB.ufnames.push_back(s); return DB.ufnames.size() - 1; }
Term *mkUFB(u32 app, u64 k) { u64 p[2] = {app, k}; return DB.mk(UFB, 8, DB.apps[app].lab, p, 2); }

std::string show(Term *t, int d) { static int xd = getenv("FVDEPTH") ? atoi(getenv("FVDEPTH")) : 0; if (xd && d > 0 && d < 100) d = 100 + xd; else if (d == 100) d = 0;
  char b[64]; static const char *nm[] = {"const", "var", "uf", "lookup", "concat", "extract", "add", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "eq", "ult", "slt", "ite", "sext", "any", "ptr", "add*", "mul*", "and*", "or*", "xor*"};
  if (t->k == CONST) { snprintf(b, 64, "0x%llx:%u", (unsigned long long)t->c(), t->w); return b; }
  if (t->k == VAR) { auto &v = DB.vars[t->p[0]]; snprintf(b, 64, "[%llu]", (unsigned long long)v.idx); return v.name + b; }
  if (t->k == UFB) { App &A = DB.apps[t->p[0]]; snprintf(b, 64, "#%u.%u", (unsigned)t->p[0], (unsigned)t->p[1]); return DB.ufnames[A.name] + b; }
  if (t->k == ANY) { return "any" + std::to_string(t->w) + (t->lab & 1 ? "S" : ""); }
  if (t->k == PTRV) { snprintf(b, 64, "ptr(%llu,%lld)", (unsigned long long)t->p[0], (long long)t->p[1]); return b; }
  if (d <= 0) return "..";
  std::string s = std::string(nm[t->k]) + std::to_string(t->w) + "(";
  if (t->k == LOOKUP) return s + "T" + std::to_string(t->p[0]) + "," + show(t->a(1), d - 1) + ")";
  if (t->k == EXTRACT) return s + show(t->a(0), d - 1) + "," + std::to_string(t->p[1]) + ")";
  u32 n = t->n; if (t->k == NADD) { for (u32 i = 0; i < std::min(n / 2, 6u); i++) { s += (i ? "," : "") + std::to_string(t->p[2 * i + 1]) + "*" + show((Term *)t->p[2 * i], d - 1); } return s + ")"; }
  for (u32 i = 0; i < std::min(n, 9u); i++) s += (i ? "," : "") + show(t->a(i), d - 1);
  if (n > 9) s += ",...";
  return s + ")";
}
