// fv: hash-consed bit-vector terms (width <= 64) with light normalisation.
#pragma once
#include <sys/mman.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <functional>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
typedef __int128 i128; typedef unsigned __int128 u128;

enum K : u8 { CONST, VAR, UFB, LOOKUP, CONCAT, EXTRACT, ADD, MUL, AND, OR, XOR, SHL, LSHR, ASHR,
              UDIV, UREM, EQ, ULT, SLT, ITE, SEXT, ANY, PTRV,
              NADD, NMUL, NAND, NOR, NXOR };
enum { L_SECRET = 1, L_UNDEF = 2 };

struct alignas(16) Term {
  K k; u8 w; u8 lab; u8 fl; u32 n : 24, dep : 8; u32 hash; u32 id;   // n payload words, saturating depth
  u64 p[];
  Term *a(int i) const { return (Term *)p[i]; }
  bool isc() const { return k == CONST; }
  u64 c() const { return p[0]; }
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct VarInfo { std::string name; u64 idx; unsigned w; };
struct App { u32 name; u8 lab; std::vector<u32> lens; std::vector<Term *> args; u64 hash; u64 sig; bool sigok; };
struct Table { unsigned w; std::vector<u64> v; };

struct TermDB {
  // arena
  std::vector<char *> chunks; size_t used = 0, cap = 0; u64 bytes = 0;
  Term **tab; u64 tabcap, cnt = 0;
  std::vector<VarInfo> vars;
  std::vector<std::string> ufnames;
  std::vector<App> apps;
  std::unordered_multimap<u64, u32> appidx;
  std::vector<Table> tables;
  std::map<std::pair<unsigned, std::vector<u64>>, u32> tabidx;
  std::vector<Term *> byid;      // id -> term
  bool abstract = false;
  static void *big(size_t n) { void *p; if (n < (2u << 20)) return calloc(n, 1); p = mmap(nullptr, n + (2u << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); p = (void *)(((u64)p + (2u << 20) - 1) & ~((2ull << 20) - 1)); madvise(p, n, MADV_HUGEPAGE); return p; }
  TermDB() { tabcap = 1 << 20; tab = (Term **)big(tabcap * 8); }
  Term *alloc(u32 n) {
    size_t sz = sizeof(Term) + 8 * n; sz = (sz + 15) & ~15ull;
    if (used + sz > cap) { size_t ch = std::max<size_t>(1 << 24, sz); char *c = (char *)big(ch); chunks.push_back(c); used = 0; cap = ch; }
    Term *t = (Term *)(chunks.back() + used); used += sz; bytes += sz; return t;
  }
  static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
  void grow() {
    u64 nc = tabcap * 2; Term **nt = (Term **)big(nc * 8);
    for (u64 i = 0; i < tabcap; i++) if (tab[i]) { u64 j = (((Term *)((u64)tab[i] & 0xFFFFFFFFFFFFull))->hash * 0x9E3779B97F4A7C15ull >> 20) & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = tab[i]; }
    munmap(tab, tabcap * 8); tab = nt; tabcap = nc;
  }
  static u32 depthOf(K k, const u64 *p, u32 n) {
    u32 d = 0; u32 a = 0, b = n, st = 1;
    switch (k) { case CONST: case VAR: case UFB: case ANY: case PTRV: return 0; case LOOKUP: a = 1; b = 2; break; case EXTRACT: b = 1; break; case NADD: st = 2; break; default: break; }
    for (u32 i = a; i < b; i += st) d = std::max<u32>(d, ((Term *)p[i])->dep); return d >= 255 ? 255 : d + 1;
  }
  Term *mk(K k, unsigned w, u8 lab, const u64 *p, u32 n) {
    u64 h = mix(mix(k, w), lab);
    for (u32 i = 0; i < n; i++) h = mix(h, p[i]);
    u32 hh = (u32)(h ^ (h >> 32));
    u64 j = (hh * 0x9E3779B97F4A7C15ull >> 20) & (tabcap - 1);
    u64 tag = (u64)(hh & 0xFFFF) << 48;
    while (tab[j]) { if (((u64)tab[j] ^ tag) >> 48) { j = (j + 1) & (tabcap - 1); continue; } Term *t = (Term *)((u64)tab[j] & 0xFFFFFFFFFFFFull); if (t->hash == hh && t->k == k && t->w == w && t->lab == lab && t->n == n && !memcmp(t->p, p, 8 * n)) return t; j = (j + 1) & (tabcap - 1); }
    Term *t = alloc(n); t->k = k; t->w = w; t->lab = lab; t->fl = 0; t->n = n; t->hash = hh; t->dep = depthOf(k, p, n); t->id = byid.size(); memcpy(t->p, p, 8 * n);
    byid.push_back(t); tab[j] = (Term *)((u64)t | tag); if (++cnt * 5 > tabcap * 3) grow(); return t;
  }
};
extern TermDB DB;

// ---- constructors
static Term *small_consts[65][256];
static inline Term *mkC(unsigned w, u64 v) {
  v &= maskw(w);
  if (v < 256) { Term *&t = small_consts[w][v]; if (!t) t = DB.mk(CONST, w, 0, &v, 1); return t; }
  return DB.mk(CONST, w, 0, &v, 1);
}
static inline Term *mkVar(unsigned w, const std::string &name, u64 idx, u8 lab) {
  u64 id = DB.vars.size(); DB.vars.push_back({name, idx, w}); return DB.mk(VAR, w, lab, &id, 1);
}
static inline Term *mk2(K k, unsigned w, Term *a, Term *b) { u64 p[2] = {(u64)a, (u64)b}; return DB.mk(k, w, a->lab | b->lab, p, 2); }
static Term *mkAny(unsigned w, u8 lab, i64 lo, i64 hi) { u64 p[2] = {(u64)lo, (u64)hi}; return DB.mk(ANY, w, lab, p, 2); }
static inline Term *mkAnyFull(unsigned w, u8 lab) { return mkAny(w, lab, w >= 64 ? INT64_MIN : -(1ll << (w - 1)), w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1); }

// mask of bits that may be one (structural)
static u64 nzmask(Term *t, int d = 0) {
  switch (t->k) {
  case CONST: return t->c();
  case CONCAT: { u64 m = 0; unsigned s = 0; for (u32 i = 0; i < t->n; i++) { Term *x = t->a(i); u64 xm = x->isc() ? x->c() : d < 4 ? nzmask(x, d + 1) : maskw(x->w); m |= xm << s; s += x->w; } return m; }
  case ANY: { i64 lo = (i64)t->p[0], hi = (i64)t->p[1]; if (lo < 0) return maskw(t->w); u64 m = (u64)hi; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; return m & maskw(t->w); }
  case LOOKUP: { u64 m = 0; Table &T = DB.tables[t->p[0]]; if (T.v.size() > 512) return maskw(t->w); for (u64 v : T.v) m |= v; return m; }
  case ITE: if (d < 3) return nzmask(t->a(1), d + 1) | nzmask(t->a(2), d + 1); return maskw(t->w);
  case AND: if (d < 3) return nzmask(t->a(0), d + 1) & nzmask(t->a(1), d + 1); return maskw(t->w);
  case OR: case XOR: if (d < 3) return nzmask(t->a(0), d + 1) | nzmask(t->a(1), d + 1); return maskw(t->w);
  case UREM: if (t->a(1)->isc() && t->a(1)->c()) { u64 m = t->a(1)->c() - 1; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; return m; } return maskw(t->w);
  default: return maskw(t->w);
  }
}
struct Rng { i128 lo, hi; };
static Rng fullS(unsigned w) { return {-((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1}; }
static Rng rngU(Term *t, int d = 0);
// signed range
static Rng rngS(Term *t, int d = 0) {
  unsigned w = t->w; Rng F = fullS(w);
  auto clip = [&](Rng r) { return (r.lo < F.lo || r.hi > F.hi) ? F : r; };
  switch (t->k) {
  case CONST: { i64 v = sx(t->c(), w); return {v, v}; }
  case ANY: return {(i64)t->p[0], (i64)t->p[1]};
  case SEXT: if (d < 12) return rngS(t->a(0), d + 1); return fullS(t->a(0)->w);
  case ADD: if (d < 12) { Rng a = rngS(t->a(0), d + 1), b = rngS(t->a(1), d + 1); return clip({a.lo + b.lo, a.hi + b.hi}); } return F;
  case MUL: if (d < 12) { Rng a = rngS(t->a(0), d + 1), b = rngS(t->a(1), d + 1);
      i128 v[4] = {0, 0, 0, 0}; if (w <= 63 || (a.hi < ((i128)1 << 62) && a.lo > -((i128)1 << 62) && b.hi < ((i128)1 << 62) && b.lo > -((i128)1 << 62))) { v[0] = a.lo * b.lo; v[1] = a.lo * b.hi; v[2] = a.hi * b.lo; v[3] = a.hi * b.hi; return clip({*std::min_element(v, v + 4), *std::max_element(v, v + 4)}); } } return F;
  case ITE: if (d < 8) { Rng a = rngS(t->a(1), d + 1), b = rngS(t->a(2), d + 1); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; } return F;
  case CONCAT: { Rng u = rngU(t, d); if (u.hi <= F.hi || d >= 8) return u.hi <= F.hi ? u : F; Term *top = t->a(t->n - 1); unsigned s = w - top->w; Rng a = rngS(top, d + 1); return clip({a.lo * ((i128)1 << s), a.hi * ((i128)1 << s) + (((i128)1 << s) - 1)}); }
  case AND: case OR: case XOR: if (d < 8) { Rng u = rngU(t, d); Rng a = rngS(t->a(0), d + 1), b = rngS(t->a(1), d + 1); i128 m = 0; for (i128 v : {a.lo < 0 ? ~a.lo : a.lo, a.hi < 0 ? ~a.hi : a.hi, b.lo < 0 ? ~b.lo : b.lo, b.hi < 0 ? ~b.hi : b.hi}) m |= v; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; Rng r = {a.lo < 0 || b.lo < 0 ? -m - 1 : 0, m}; if (u.hi <= F.hi) { if (r.lo < u.lo) r.lo = u.lo; if (r.hi > u.hi) r.hi = u.hi; } return clip(r); } return F;
  default: { Rng u = rngU(t, d); if (u.hi <= F.hi) return u; return F; }
  }
}
static Rng rngU(Term *t, int d) {
  unsigned w = t->w; u64 m = nzmask(t); Rng r = {0, (i128)m};
  if (t->k == CONST) return {(i128)t->c(), (i128)t->c()};
  if (t->k == ANY) { if ((i64)t->p[0] >= 0) return {(i64)t->p[0], (i64)t->p[1]}; return r; }
  if ((t->k == ADD) && d < 12) { Rng a = rngU(t->a(0), d + 1), b = rngU(t->a(1), d + 1); if (a.hi + b.hi <= (i128)maskw(w)) return {a.lo + b.lo, std::min(r.hi, a.hi + b.hi)}; }
  if ((t->k == MUL) && d < 12) { Rng a = rngU(t->a(0), d + 1), b = rngU(t->a(1), d + 1); if (a.hi < ((i128)1 << 62) && b.hi < ((i128)1 << 62) && a.hi * b.hi <= (i128)maskw(w)) return {a.lo * b.lo, a.hi * b.hi}; }
  if (t->k == CONCAT && d < 12) { // zext of something with a tighter range
    Term *x = t->a(0); u64 rest = 0; unsigned s = x->w; bool z = true; for (u32 i = 1; i < t->n; i++) { Term *y = t->a(i); if (!y->isc() || y->c()) z = false; s += y->w; } (void)rest;
    if (z) { Rng a = rngU(x, d + 1); return {a.lo, std::min(a.hi, r.hi)}; } }
  if (t->k == ITE && d < 8) { Rng a = rngU(t->a(1), d + 1), b = rngU(t->a(2), d + 1); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
  if (t->k == UDIV && t->a(1)->isc() && t->a(1)->c() && d < 8) { Rng a = rngU(t->a(0), d + 1); return {a.lo / (i128)t->a(1)->c(), a.hi / (i128)t->a(1)->c()}; }
  return r;
}

Term *mkExtract(Term *t, unsigned lo, unsigned w);
Term *mkConcat(const std::vector<Term *> &parts);
Term *mkAdd(Term *a, Term *b); Term *mkMul(Term *a, Term *b);
Term *mkAnd(Term *a, Term *b); Term *mkOr(Term *a, Term *b); Term *mkXor(Term *a, Term *b);
Term *mkIte(Term *c, Term *a, Term *b); Term *mkSext(Term *t, unsigned w);
Term *mkEq(Term *a, Term *b); Term *mkUlt(Term *a, Term *b); Term *mkSlt(Term *a, Term *b);
Term *mkShl(Term *a, Term *b); Term *mkLshr(Term *a, Term *b); Term *mkAshr(Term *a, Term *b);
Term *mkUdiv(Term *a, Term *b); Term *mkUrem(Term *a, Term *b);
Term *mkLookup(unsigned w, const std::vector<u64> &tab, Term *idx);
static inline Term *mkNot(Term *a) { return mkXor(mkC(a->w, ~0ull), a); }
static inline Term *mkNeg(Term *a) { return mkMul(mkC(a->w, ~0ull), a); }
static inline Term *mkSub(Term *a, Term *b) { if (b->isc()) return mkAdd(a, mkC(a->w, -b->c())); if (a == b) return mkC(a->w, 0); return mkAdd(a, mkNeg(b)); }
static inline Term *mkZext(Term *t, unsigned w) { if (w == t->w) return t; if (t->isc()) return mkC(w, t->c()); return mkConcat({t, mkC(w - t->w, 0)}); }
Term *mkUFB(u32 app, u64 k);
u32 ufName(const std::string &s);
std::string show(Term *t, int depth = 4);
