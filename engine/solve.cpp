#include "solve.h"
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
#include <cinttypes>
SolveStats SS; int g_smt_timeout = 20; u64 g_seed = 1; std::string g_z3 = "z3-new";
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static u64 h64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

// ---------- children
static inline int nch(Term *t) { switch (t->k) { case CONST: case VAR: case UFB: case ANY: case PTRV: return 0; case LOOKUP: return 1; case EXTRACT: return 1; case NADD: return t->n / 2; default: return t->n; } }
static inline Term *ch(Term *t, int i) { if (t->k == LOOKUP) return t->a(1); if (t->k == NADD) return (Term *)t->p[2 * i]; return t->a(i); }

// evaluate one node given child values
static inline u64 ev(Term *t, const u64 *c) {
  unsigned w = t->w; u64 m = maskw(w);
  switch (t->k) {
  case CONST: return t->c();
  case LOOKUP: { Table &T = DB.tables[t->p[0]]; return T.v[c[0] < T.v.size() ? c[0] : T.v.size() - 1]; }
  case CONCAT: { u64 r = 0; unsigned s = 0; for (u32 i = 0; i < t->n; i++) { r |= c[i] << s; s += t->a(i)->w; } return r; }
  case EXTRACT: return (c[0] >> t->p[1]) & m;
  case ADD: return (c[0] + c[1]) & m; case MUL: return (c[0] * c[1]) & m;
  case AND: return c[0] & c[1]; case OR: return c[0] | c[1]; case XOR: return c[0] ^ c[1];
  case SHL: return c[1] >= w ? 0 : (c[0] << c[1]) & m; case LSHR: return c[1] >= w ? 0 : c[0] >> c[1];
  case ASHR: return (u64)(sx(c[0], w) >> (c[1] >= w ? w - 1 : c[1])) & m;
  case UDIV: return c[1] ? c[0] / c[1] : m; case UREM: return c[1] ? c[0] % c[1] : c[0];
  case EQ: return c[0] == c[1]; case ULT: return c[0] < c[1]; case SLT: { unsigned cw = t->a(0)->w; return sx(c[0], cw) < sx(c[1], cw); }
  case ITE: return c[0] ? c[1] : c[2]; case SEXT: return (u64)sx(c[0], t->a(0)->w) & m;
  case NADD: { u64 r = 0; for (u32 i = 0; i < t->n / 2; i++) r += c[i] * t->p[2 * i + 1]; return r & m; }
  case NMUL: { u64 r = 1; for (u32 i = 0; i < t->n; i++) r *= c[i]; return r & m; }
  case NAND: { u64 r = m; for (u32 i = 0; i < t->n; i++) r &= c[i]; return r; }
  case NOR: { u64 r = 0; for (u32 i = 0; i < t->n; i++) r |= c[i]; return r; }
  case NXOR: { u64 r = 0; for (u32 i = 0; i < t->n; i++) r ^= c[i]; return r; }
  default: return 0;
  }
}
// ---------- simulation with memo per vector
struct Sim {
  u64 seed; int mode; std::vector<u64> val; std::vector<u8> has; std::unordered_map<u32, u64> apph;
  u64 var(u32 id, unsigned w) {
    u64 r = h64(seed * 0x100000001b3ull + id);
    if (mode == 1) return 0; if (mode == 2) return maskw(w);
    if (mode == 3) { switch (r & 7) { case 0: return 0; case 1: return maskw(w); case 2: return 1; case 3: return maskw(w) >> 1; case 4: return 1ull << (w - 1); default: return (r >> 8) & maskw(w); } }
    if (mode == 4) return h64(seed ^ 77) & maskw(w);             // all variables equal
    return (r >> 8 ^ r << 50) & maskw(w);
  }
  u64 app(u32 id);
  u64 get(Term *t) {
    if (t->k == CONST) return t->c();
    if (t->id >= val.size()) { val.resize(DB.byid.size() + 1024); has.resize(val.size()); }
    if (has[t->id]) return val[t->id];
    u64 r;
    if (t->k == VAR) r = var(t->p[0], t->w);
    else if (t->k == UFB) r = h64(app(t->p[0]) + t->p[1] * 0x9E3779B1ull) & 255;
    else if (t->k == ANY || t->k == PTRV) r = h64(seed ^ (u64)t->id << 20) & maskw(t->w);
    else { int n = nch(t); u64 sm[8]; std::vector<u64> big; u64 *c = sm; if (n > 8) { big.resize(n); c = big.data(); } for (int i = 0; i < n; i++) c[i] = get(ch(t, i)); r = ev(t, c); }
    val[t->id] = r; has[t->id] = 1; return r;
  }
};
u64 Sim::app(u32 id) {
  auto it = apph.find(id); if (it != apph.end()) return it->second;
  u64 h = h64(seed ^ 0xABCDEF); h = h64(h + DB.apps[id].name);
  for (u32 l : DB.apps[id].lens) h = h64(h ^ l);
  size_t n = DB.apps[id].args.size();
  for (size_t i = 0; i < n; i++) h = h64(h * 31 + get(DB.apps[id].args[i]));
  apph[id] = h; return h;
}
static std::vector<Sim *> sims;
static void initSims() { if (!sims.empty()) return; for (int i = 0; i < 24; i++) { Sim *s = new Sim; s->seed = h64(g_seed * 1000 + i); s->mode = i < 4 ? 0 : i == 4 ? 1 : i == 5 ? 2 : i < 12 ? 3 : i == 12 ? 4 : i == 13 ? 4 : 0; sims.push_back(s); } }
u64 simSig(Term *t) { initSims(); u64 h = 0; for (int i = 0; i < 4; i++) h = h64(h ^ sims[i]->get(t)); return h; }

// ---------- UF application interning with semantic unification
static u64 argSig(const std::vector<Term *> &args) { initSims(); u64 h = 7; for (Term *t : args) { if (t->isc()) { u64 c = t->c(); h = h64(h ^ c ^ c << 8 ^ c << 16 ^ c << 24); } else { h = h64(h ^ sims[0]->get(t) ^ sims[1]->get(t) << 8 ^ sims[2]->get(t) << 16 ^ sims[3]->get(t) << 24); } } return h; }
static std::unordered_map<u64, std::vector<u32>> appsig;
u32 mkApp(const std::string &name, u8 lab, const std::vector<u32> &lens, const std::vector<Term *> &args) {
  u32 nm = ufName(name); u64 h = h64(nm * 131 + lab); for (u32 l : lens) h = h64(h ^ l); for (Term *t : args) h = h64(h ^ (u64)t);
  auto r = DB.appidx.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { App &A = DB.apps[it->second]; if (A.name == nm && A.lab == lab && A.lens == lens && A.args == args) return it->second; }
  if (!DB.abstract) {
    u64 sg = argSig(args); sg = h64(sg ^ nm); for (u32 l : lens) sg = h64(sg ^ l); sg = h64(sg + lab);
    for (u32 id : appsig[sg]) {
      if (DB.apps[id].name != nm || DB.apps[id].lab != lab || DB.apps[id].lens != lens) continue;
      bool ok = true; for (size_t i = 0; i < args.size() && ok; i++) { Term *x = DB.apps[id].args[i]; if (x == args[i] || proveEq(x, args[i], {}, nullptr, true) == PROVED) continue; static int full = 400; if (full <= 0) { ok = false; break; } full--; if (proveEq(x, args[i], {}, nullptr, false) != PROVED) { ok = false; full -= 40; } }
      if (ok) { DB.appidx.emplace(h, id); return id; }   // semantically equal arguments: same application
    }
    appsig[sg].push_back(DB.apps.size());
  }
  App A; A.name = nm; A.lab = lab; A.lens = lens; A.args = args; A.hash = h; A.sigok = false;
  DB.apps.push_back(A); DB.appidx.emplace(h, DB.apps.size() - 1); return DB.apps.size() - 1;
}

// ---------- AC / polynomial normal form
static std::unordered_map<Term *, Term *> nfm;
static Term *mkN(K k, unsigned w, std::vector<Term *> &v) { // sorted list
  std::sort(v.begin(), v.end(), [](Term *a, Term *b) { return a->id < b->id; });
  u8 lab = 0; for (Term *t : v) lab |= t->lab; return DB.mk(k, w, lab, (u64 *)v.data(), v.size());
}
typedef std::vector<std::pair<Term *, u64>> Poly; // monomial (nf term) -> coefficient ; constant uses nullptr
static void polyAdd(Term *t, u64 coef, Poly &P);
static void polyLeaf(Term *x, u64 coef, Poly &P) { // x already nf
  if (x->isc()) { P.push_back({nullptr, coef * x->c()}); return; }
  if (x->k == NADD) { for (u32 i = 0; i < x->n / 2; i++) P.push_back({(Term *)x->p[2 * i], coef * x->p[2 * i + 1]}); return; }
  P.push_back({x, coef});
}
static void mulFactors(Term *t, std::vector<Term *> &f) { if (t->k == MUL) { mulFactors(t->a(0), f); mulFactors(t->a(1), f); } else { Term *x = nf(t); if (x->k == NMUL) for (u32 i = 0; i < x->n; i++) f.push_back(x->a(i)); else if (x->k == MUL) { f.push_back(x->a(0)); f.push_back(x->a(1)); } else f.push_back(x); } }
static Term *mkMono(unsigned w, std::vector<Term *> &f) {
  if (f.size() == 1) return f[0];
  std::sort(f.begin(), f.end(), [](Term *a, Term *b) { return a->id < b->id; });
  if (f.size() == 2) return mk2(MUL, w, f[0], f[1]);
  return mkN(NMUL, w, f);
}
static void polyMul(Term *t, u64 coef, Poly &P) {
  std::vector<Term *> f; mulFactors(t, f); unsigned w = t->w;
  std::vector<Term *> plain; std::vector<Term *> sums; u64 c = coef;
  for (Term *x : f) { if (x->isc()) c *= x->c(); else if (x->k == NADD && x->n <= 32) sums.push_back(x);
    else if (x->k == CONCAT && x->a(0)->isc() && x->a(0)->c() == 0 && x->n == 2 && x->a(1)->k == EXTRACT && x->a(1)->p[1] == 0 && x->a(1)->a(0)->w == w) { c <<= x->a(0)->w; Term *y = nf(x->a(1)->a(0)); if (y->k == NADD && y->n <= 32) sums.push_back(y); else plain.push_back(y); }
    else plain.push_back(x); }
  std::vector<std::pair<std::vector<Term *>, u64>> ms = {{plain, c}};
  for (Term *s : sums) {
    if (ms.size() * (s->n / 2) > 256) { for (auto &m : ms) m.first.push_back(s); continue; }
    std::vector<std::pair<std::vector<Term *>, u64>> n2;
    for (auto &m : ms) for (u32 i = 0; i < s->n / 2; i++) { auto g = m; Term *y = (Term *)s->p[2 * i]; g.second *= s->p[2 * i + 1]; if (y) { if (y->k == MUL) { g.first.push_back(y->a(0)); g.first.push_back(y->a(1)); } else if (y->k == NMUL) for (u32 q = 0; q < y->n; q++) g.first.push_back(y->a(q)); else g.first.push_back(y); } n2.push_back(g); }
    ms = n2;
  }
  for (auto &m : ms) { if (!(m.second & maskw(w))) continue; if (m.first.empty()) P.push_back({nullptr, m.second}); else P.push_back({mkMono(w, m.first), m.second}); }
}
static bool nfself(Term *t) {
  if (t->fl & 1) return true; if (t->fl & 2) return false;
  bool r = false;
  switch (t->k) { case CONST: case VAR: case UFB: case ANY: case PTRV: r = true; break;
    case EXTRACT: r = nfself(t->a(0)) && (t->a(0)->k == VAR || t->a(0)->k == UFB); break;
    case LOOKUP: r = nfself(t->a(1)); break;
    case CONCAT: { r = true; for (u32 i = 0; i < t->n; i++) if (!nfself(t->a(i))) { r = false; break; } if (t->a(0)->isc() && t->a(0)->c() == 0) r = false; break; }
    case SEXT: r = nfself(t->a(0)); break;
    case MUL: r = true; for (int i = 0; i < 2; i++) { Term *x = t->a(i); if (!nfself(x) || x->isc() || x->k == MUL || x->k == ADD) r = false; } break;
    default: break; }
  t->fl |= r ? 1 : 2; return r;
}
static void polyAdd(Term *t, u64 coef, Poly &P) {
  unsigned w = t->w;
  std::vector<std::pair<Term *, u64>> st = {{t, coef}};
  while (!st.empty()) {
    auto [x, c] = st.back(); st.pop_back(); c &= maskw(w); if (!c) continue;
    if (x->k == ADD) { st.push_back({x->a(1), c}); st.push_back({x->a(0), c}); continue; }
    if (x->isc()) { P.push_back({nullptr, c * x->c()}); continue; }
    if (nfself(x)) { P.push_back({x, c}); continue; }
    if (x->k == MUL) { if (x->a(0)->isc()) { st.push_back({x->a(1), c * x->a(0)->c()}); continue; } polyMul(x, c, P); continue; }
    if (x->k == CONCAT && x->a(0)->isc() && x->a(0)->c() == 0 && x->n == 2) { // 2^k * y
      Term *y = x->a(1); unsigned k = x->a(0)->w; if (y->k == EXTRACT && y->p[1] == 0 && y->a(0)->w == w) { st.push_back({y->a(0), c << k}); continue; }
      // y has exactly w-k bits: 2^k*zext(y)
      Term *z = mkConcat({y, mkC(k, 0)}); st.push_back({z, c << k}); continue; }
    if (x->k == CONCAT && x->n == 2 && x->a(1)->isc() && x->a(1)->c() == 0) { Term *y = nf(x); if (y == x) { P.push_back({x, c}); continue; } }
    if (x->k == XOR && x->a(0)->isc() && x->a(0)->c() == maskw(w)) { P.push_back({nullptr, c * maskw(w)}); st.push_back({x->a(1), (0 - c)}); continue; } // ~y = -y-1
    Term *y = nf(x); polyLeaf(y, c, P);
  }
}
static void polyNorm(Poly &P, unsigned w) {
  std::sort(P.begin(), P.end(), [](auto &a, auto &b) { return (a.first ? a.first->id + 1ull : 0) < (b.first ? b.first->id + 1ull : 0); });
  size_t o = 0; for (size_t i = 0; i < P.size();) { size_t j = i; u64 c = 0; while (j < P.size() && P[j].first == P[i].first) c += P[j++].second; c &= maskw(w); if (c) { P[o++] = {P[i].first, c}; } i = j; }
  P.resize(o);
}
static Term *polyTerm(Poly &P, unsigned w) {
  if (P.empty()) return mkC(w, 0);
  if (P.size() == 1) { if (!P[0].first) return mkC(w, P[0].second); if (P[0].second == 1) return P[0].first; }
  std::vector<u64> p; u8 lab = 0; for (auto &m : P) { Term *t = m.first ? m.first : mkC(w, 1); lab |= t->lab; p.push_back((u64)t); p.push_back(m.second); }
  return DB.mk(NADD, w, lab, p.data(), p.size());
}
static void acGather(Term *t, K k, std::vector<Term *> &out) { std::vector<Term *> st = {t}; std::unordered_set<Term *> seen; bool idem = k != XOR; while (!st.empty()) { Term *x = st.back(); st.pop_back(); if (x->k == k) { if (idem && !seen.insert(x).second) continue; st.push_back(x->a(0)); st.push_back(x->a(1)); } else out.push_back(x); } }
Term *nf(Term *t) {
  if (nfself(t)) return t;
  auto it = nfm.find(t); if (it != nfm.end()) return it->second;
  unsigned w = t->w; Term *r = t;
  switch (t->k) {
  case ADD: case MUL: { Poly P; polyAdd(t, 1, P); polyNorm(P, w); r = polyTerm(P, w); break; }
  case XOR: case AND: case OR: {
    std::vector<Term *> ls, v; acGather(t, t->k, ls); K nk = t->k == XOR ? NXOR : t->k == AND ? NAND : NOR; u64 c = t->k == AND ? maskw(w) : 0;
    for (Term *x : ls) { Term *y = nf(x); if (y->isc()) { if (t->k == XOR) c ^= y->c(); else if (t->k == AND) c &= y->c(); else c |= y->c(); } else if (y->k == nk) { for (u32 i = 0; i < y->n; i++) { if (y->a(i)->isc()) { u64 z = y->a(i)->c(); if (t->k == XOR) c ^= z; else if (t->k == AND) c &= z; else c |= z; } else v.push_back(y->a(i)); } } else v.push_back(y); }
    std::sort(v.begin(), v.end(), [](Term *a, Term *b) { return a->id < b->id; });
    std::vector<Term *> u; for (size_t i = 0; i < v.size();) { size_t j = i; while (j < v.size() && v[j] == v[i]) j++; if (t->k != XOR || ((j - i) & 1)) u.push_back(v[i]); i = j; }
    if (t->k == AND && c == 0) { r = mkC(w, 0); break; } if (t->k == OR && c == maskw(w)) { r = mkC(w, c); break; }
    if (t->k == AND && w == 1 && u.size() >= 4) { // conjunction of equalities: one equality of the OR of the differences
      std::unordered_map<unsigned, std::vector<Term *>> g; std::vector<Term *> o; for (Term *x : u) if (x->k == EQ) g[x->a(0)->w].push_back(x); else o.push_back(x);
      for (auto &q : g) { if (q.second.size() < 4) { for (Term *x : q.second) o.push_back(x); continue; } Term *acc = nullptr; for (Term *x : q.second) { Term *d = mkXor(x->a(0), x->a(1)); acc = acc ? mkOr(acc, d) : d; } o.push_back(mkEq(nf(acc), mkC(q.first, 0))); }
      if (o.size() != u.size()) { u = o; std::sort(u.begin(), u.end(), [](Term *a, Term *b) { return a->id < b->id; }); } }
    bool addc = t->k == AND ? c != maskw(w) : c != 0; if (addc || u.empty()) u.push_back(mkC(w, c));
    r = u.size() == 1 ? u[0] : mkN(nk, w, u); break; }
  case CONCAT: { std::vector<Term *> v; for (u32 i = 0; i < t->n; i++) v.push_back(nf(t->a(i))); r = mkConcat(v);
      if (r->k == CONCAT && r->a(0)->isc() && r->a(0)->c() == 0 && r->n == 2) { Poly P; polyAdd(r, 1, P); polyNorm(P, w); if (!(P.size() == 1 && P[0].first && P[0].first->k == CONCAT)) r = polyTerm(P, w); } break; }
  case EXTRACT: { Term *x = nf(t->a(0)); if (x != t->a(0)) { if (x->k == CONST || x->k == CONCAT || x->k == EXTRACT) r = mkExtract(x, t->p[1], w); else { u64 p[2] = {(u64)x, t->p[1]}; r = DB.mk(EXTRACT, w, x->lab, p, 2); } } break; }
  case LOOKUP: { Term *x = nf(t->a(1)); if (x->isc()) r = mkC(w, DB.tables[t->p[0]].v[x->c()]); else { u64 p[2] = {t->p[0], (u64)x}; r = DB.mk(LOOKUP, w, x->lab, p, 2); } break; }
  case SEXT: { Term *x = nf(t->a(0)); r = mkSext(x, w); break; }
  case EQ: { Term *a = nf(t->a(0)), *b = nf(t->a(1)); r = mkEq(a, b); break; }
  case ULT: { Term *a = nf(t->a(0)), *b = nf(t->a(1)); r = mkUlt(a, b); break; }
  case SLT: { Term *a = nf(t->a(0)), *b = nf(t->a(1)); r = mkSlt(a, b); break; }
  case ITE: {
      { std::vector<Term *> cs = {t->a(0)}; Term *y = t->a(1), *z = t->a(2); while (y->k == ITE && y->a(2) == z) { cs.push_back(y->a(0)); y = y->a(1); }
        if (cs.size() >= 4) { Term *c = cs[0]; for (size_t i = 1; i < cs.size(); i++) c = mkAnd(c, cs[i]); r = mkIte(nf(c), nf(y), nf(z)); break; } }
      r = mkIte(nf(t->a(0)), nf(t->a(1)), nf(t->a(2))); break; }
  case SHL: r = mkShl(nf(t->a(0)), nf(t->a(1))); break; case LSHR: r = mkLshr(nf(t->a(0)), nf(t->a(1))); break; case ASHR: r = mkAshr(nf(t->a(0)), nf(t->a(1))); break;
  case UDIV: r = mkUdiv(nf(t->a(0)), nf(t->a(1))); break; case UREM: r = mkUrem(nf(t->a(0)), nf(t->a(1))); break;
  default: break;
  }
  nfm[t] = r; if (r != t) nfm.emplace(r, r);
  return r;
}
static Res polyCompare(Term *a, Term *b) { // both arithmetic roots; no interning of the big sum
  Poly P, Q; polyAdd(a, 1, P); polyNorm(P, a->w); polyAdd(b, 1, Q); polyNorm(Q, b->w); return P == Q ? PROVED : UNKNOWN;
}

// ---------- bit level canonical form (XOR sets over atoms)
struct TooBig {};
typedef u32 Bit;   // setid<<1 | neg
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) h = TermDB::mix(h, x); return h; } };
struct BitDB {
  std::vector<std::vector<u32>> sets; std::unordered_map<std::vector<u32>, u32, VecHash> setidx;
  std::unordered_map<std::vector<u32>, u32, VecHash> atoms; std::vector<std::vector<u32>> atomkey; // key: [kind,...]
  std::unordered_map<std::vector<u32>, u32, VecHash> words;
  std::unordered_map<Term *, std::vector<Bit>> memo;
  std::unordered_map<Term *, std::vector<Bit>> over;   // cut terms
  size_t lim = 600; u64 budget = 0;
  BitDB() { sets.push_back({}); setidx[{}] = 0; }
  u32 internSet(std::vector<u32> &&v) { auto it = setidx.find(v); if (it != setidx.end()) return it->second; if (v.size() > lim) throw TooBig(); u32 id = sets.size(); sets.push_back(v); setidx[v] = id; budget += v.size() + 4; if (budget > 60000000) throw TooBig(); return id; }
  u32 atom(std::vector<u32> &&k) { auto it = atoms.find(k); if (it != atoms.end()) return it->second; u32 id = atomkey.size(); atomkey.push_back(k); atoms[k] = id; return id; }
  Bit ofAtom(u32 a) { return internSet({a}) << 1; }
  Bit bxor(Bit a, Bit b) { u32 n = (a ^ b) & 1; u32 x = a >> 1, y = b >> 1; if (!x) return y << 1 | n; if (!y) return x << 1 | n; if (x == y) return n;
    std::vector<u32> r; auto &A = sets[x], &B = sets[y]; r.reserve(A.size() + B.size()); std::set_symmetric_difference(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(r)); return internSet(std::move(r)) << 1 | n; }
  Bit band(Bit a, Bit b) { if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1) return a; if (a == b) return a; if ((a ^ b) == 1) return 0;
    std::vector<u32> f; for (Bit x : {a, b}) { bool fl = false; if (!(x & 1) && sets[x >> 1].size() == 1) { auto &k = atomkey[sets[x >> 1][0]]; if (k[0] == 1000 && k.size() < 40) { f.insert(f.end(), k.begin() + 1, k.end()); fl = true; } } if (!fl) f.push_back(x); }
    std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end()); for (size_t i = 0; i + 1 < f.size(); i++) if ((f[i] ^ 1) == f[i + 1]) return 0;
    if (f.size() == 1) return f[0]; f.insert(f.begin(), 1000u); return ofAtom(atom(std::move(f))); }
  Bit bor(Bit a, Bit b) { return band(a ^ 1, b ^ 1) ^ 1; }
  u32 column(u32 tab, unsigned bit) { // 0/1 for constant columns
    static std::map<std::pair<u32, unsigned>, u32> memo; static std::map<std::string, u32> ids; auto it = memo.find({tab, bit}); if (it != memo.end()) return it->second;
    std::string k; for (u64 v : DB.tables[tab].v) k.push_back('0' + (v >> bit & 1)); u32 r; if (k.find('1') == std::string::npos) r = 0; else if (k.find('0') == std::string::npos) r = 1; else r = ids.emplace(k, 2 + ids.size()).first->second; return memo[{tab, bit}] = r; }
  u32 word(const std::vector<Bit> &v) { auto it = words.find(v); if (it != words.end()) return it->second; u32 id = words.size(); words[v] = id; return id; }
  const std::vector<Bit> &get(Term *t);
};
const std::vector<Bit> &BitDB::get(Term *t) {
  { auto o = over.find(t); if (o != over.end()) return o->second; }
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  unsigned w = t->w; std::vector<Bit> r(w);
  auto atomWord = [&](std::vector<u32> key) { for (unsigned i = 0; i < w; i++) { auto k = key; k.push_back(i); r[i] = ofAtom(atom(std::move(k))); } };
  switch (t->k) {
  case CONST: for (unsigned i = 0; i < w; i++) r[i] = t->c() >> i & 1; break;
  case VAR: case UFB: case ANY: case PTRV: atomWord({1, t->id}); break;
  case LOOKUP: { // one atom per distinct table column, so an extracted sub-table shares its atoms with the whole one
    auto b = get(t->a(1)); u32 wd = word(b); for (unsigned i = 0; i < w; i++) { u32 c = column((u32)t->p[0], i); if (c < 2) r[i] = c; else r[i] = ofAtom(atom({2, c, wd})); } break; }
  case CONCAT: { unsigned s = 0; for (u32 i = 0; i < t->n; i++) { auto &b = get(t->a(i)); for (unsigned j = 0; j < b.size(); j++) r[s + j] = b[j]; s += b.size(); } break; }
  case EXTRACT: { auto &b = get(t->a(0)); for (unsigned i = 0; i < w; i++) r[i] = b[t->p[1] + i]; break; }
  case SEXT: { auto &b = get(t->a(0)); for (unsigned i = 0; i < w; i++) r[i] = i < b.size() ? b[i] : b.back(); break; }
  case XOR: case NXOR: case AND: case NAND: case OR: case NOR: { r = get(t->a(0)); for (u32 q = 1; q < t->n; q++) { auto b = get(t->a(q)); for (unsigned i = 0; i < w; i++) r[i] = (t->k == XOR || t->k == NXOR) ? bxor(r[i], b[i]) : (t->k == AND || t->k == NAND) ? band(r[i], b[i]) : bor(r[i], b[i]); } break; }
  case EQ: { auto a = get(t->a(0)); auto b = get(t->a(1)); Bit e = 1; for (unsigned i = 0; i < a.size(); i++) e = band(e, bxor(a[i], b[i]) ^ 1); r[0] = e; break; }
  case ITE: { Bit c = get(t->a(0))[0]; auto a = get(t->a(1)); auto b = get(t->a(2)); for (unsigned i = 0; i < w; i++) r[i] = bxor(b[i], band(c, bxor(a[i], b[i]))); break; }
  case MUL: case NADD: { // product of a constant and a value with a single live bit is GF(2)-linear
    Term *x = nullptr; u64 c = 0; if (t->k == MUL) { if (t->a(0)->isc()) { c = t->a(0)->c(); x = t->a(1); } else if (t->a(1)->isc()) { c = t->a(1)->c(); x = t->a(0); } } else if (t->n == 2) { x = (Term *)t->p[0]; c = t->p[1]; }
    if (x) { auto b = get(x); int live = -1, nl = 0; for (unsigned i = 0; i < b.size(); i++) if (b[i]) { live = i; nl++; } if (nl == 0) { for (auto &q : r) q = 0; break; } if (nl == 1) { u64 v = c << live; for (unsigned i = 0; i < w; i++) r[i] = v >> i & 1 ? b[live] : 0; break; } } }
    // fallthrough
  default: { // congruence atom
    std::vector<u32> key = {3u + t->k, w}; std::vector<u32> ws; int n = nch(t);
    for (int i = 0; i < n; i++) { auto b = get(ch(t, i)); ws.push_back(word(b)); }
    if (t->k == ADD || t->k == MUL) std::sort(ws.begin(), ws.end());
    if (t->k == NADD) { std::vector<std::pair<u32, u64>> z; for (int i = 0; i < n; i++) z.push_back({ws[i], t->p[2 * i + 1]}); std::sort(z.begin(), z.end()); ws.clear(); for (auto &q : z) { ws.push_back(q.first); ws.push_back((u32)q.second); ws.push_back((u32)(q.second >> 32)); } }
    key.insert(key.end(), ws.begin(), ws.end()); atomWord(key); }
  }
  return memo[t] = std::move(r);
}

// ---------- linear programs for exhaustive evaluation
struct Prog {
  std::vector<Term *> nodes; std::unordered_map<Term *, u32> idx; std::vector<std::vector<u32>> kids; std::vector<u32> leaves;
  std::unordered_set<Term *> *cut = nullptr;
  u32 add(Term *t) {
    auto it = idx.find(t); if (it != idx.end()) return it->second;
    std::vector<u32> ks; bool leaf = t->k == VAR || t->k == UFB || t->k == ANY || t->k == PTRV || (cut && cut->count(t) && !t->isc());
    if (!leaf) for (int i = 0; i < nch(t); i++) ks.push_back(add(ch(t, i)));
    u32 id = nodes.size(); nodes.push_back(t); kids.push_back(ks); idx[t] = id; if (leaf) leaves.push_back(id); return id;
  }
};
// which bits of each leaf matter: collect through EXTRACT-only usage
static void bitsUsed(Prog &P, const std::vector<u32> &roots, std::vector<u64> &used) {
  used.assign(P.nodes.size(), 0); for (u32 r : roots) used[r] = maskw(P.nodes[r]->w);
  for (int i = (int)P.nodes.size() - 1; i >= 0; i--) { Term *t = P.nodes[i]; u64 u = used[i]; if (!u) continue; auto &k = P.kids[i]; if (k.empty()) continue;
    switch (t->k) { case EXTRACT: used[k[0]] |= u << t->p[1]; break;
      case CONCAT: { unsigned s = 0; for (u32 j = 0; j < t->n; j++) { used[k[j]] |= (u >> s) & maskw(t->a(j)->w); s += t->a(j)->w; } break; }
      case AND: case NAND: case OR: case XOR: case NOR: case NXOR: for (u32 j : k) used[j] |= u; break;
      default: for (u32 j : k) used[j] |= maskw(P.nodes[j]->w); } }
}
static void runProg(Prog &P, u64 *val) { u64 c[8]; std::vector<u64> big; for (size_t i = 0; i < P.nodes.size(); i++) { auto &k = P.kids[i]; Term *t = P.nodes[i]; if (k.empty()) { if (t->isc()) val[i] = t->c(); continue; } u64 *cc = c; if (k.size() > 8) { big.resize(k.size()); cc = big.data(); } for (size_t j = 0; j < k.size(); j++) cc[j] = val[k[j]]; val[i] = ev(t, cc); } }

static std::unordered_set<std::string> alphaOK;
static std::string alphaKey(Prog &P, u32 ra, u32 rb) {
  std::string s; auto put = [&](u64 v) { s.append((char *)&v, 8); }; std::unordered_map<u32, u32> ln; u32 c = 0;
  for (size_t i = 0; i < P.nodes.size(); i++) { Term *t = P.nodes[i]; auto &k = P.kids[i]; if (k.empty() && !t->isc()) { put(0xF000 + t->w); put(c++); continue; }
    put((u64)t->k << 8 | t->w); if (t->isc()) put(t->c()); if (t->k == LOOKUP) put(t->p[0]); if (t->k == EXTRACT) put(t->p[1]); if (t->k == NADD) for (u32 q = 0; q < t->n / 2; q++) put(t->p[2 * q + 1]); put(k.size()); for (u32 j : k) put(j); }
  put(ra); put(rb); return s;
}
static void cexFromProg(Prog &P, u64 *val, Cex *cex) { if (!cex) return; cex->vals.clear(); for (u32 l : P.leaves) if (P.nodes[l]->k == VAR) cex->vals.push_back({(u32)P.nodes[l]->p[0], val[l]}); }

static bool frontier(Term *a, Term *b, std::unordered_set<Term *> &cut) { // maximal shared subterms
  std::unordered_set<Term *> A, B; std::function<void(Term *, std::unordered_set<Term *> &)> dfs = [&](Term *t, std::unordered_set<Term *> &S) { if (S.size() > 400000 || !S.insert(t).second) return; for (int i = 0; i < nch(t); i++) dfs(ch(t, i), S); };
  dfs(a, A); dfs(b, B); bool any = false; for (Term *t : A) if (B.count(t) && nch(t) > 0) { cut.insert(t); any = true; } return any;
}

// ---------- SMT
static bool wideCut(Term *a, Term *b, std::unordered_set<Term *> &cut) { // accumulated single bits (a disjunction over a whole array, say) as unknowns
  std::unordered_set<Term *> seen; std::vector<Term *> st = {a, b}; size_t vis = 0;
  while (!st.empty()) { Term *t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; if (++vis > 20000) return false;
    if (t != a && t != b && (t->k == NOR || t->k == NAND || t->k == NXOR) && t->n >= 12) { cut.insert(t); continue; }
    for (int i = 0; i < nch(t); i++) st.push_back(ch(t, i)); }
  return !cut.empty() && cut.size() <= 128;
}
static std::string smtNode(Term *t, const std::vector<std::string> &k) {
  unsigned w = t->w; auto bv = [&](u64 v, unsigned ww) { return "(_ bv" + std::to_string(v) + " " + std::to_string(ww) + ")"; };
  auto bin = [&](const char *o) { return std::string("(") + o + " " + k[0] + " " + k[1] + ")"; };
  auto nary = [&](const char *o) { std::string s = k[0]; for (size_t i = 1; i < k.size(); i++) s = std::string("(") + o + " " + s + " " + k[i] + ")"; return s; };
  auto b1 = [&](std::string s) { return "(ite " + s + " #b1 #b0)"; };
  switch (t->k) {
  case CONST: return bv(t->c(), w);
  case LOOKUP: { Table &T = DB.tables[t->p[0]]; unsigned iw = t->a(1)->w; std::function<std::string(u64, u64)> rec = [&](u64 lo, u64 hi) -> std::string { bool same = true; for (u64 i = lo; i < hi && i < T.v.size(); i++) if (T.v[i] != T.v[std::min<u64>(lo, T.v.size() - 1)]) same = false; if (hi - lo == 1 || same) return bv(T.v[std::min<u64>(lo, T.v.size() - 1)], w); u64 m = (lo + hi) / 2; return "(ite (bvult " + k[0] + " " + bv(m, iw) + ") " + rec(lo, m) + " " + rec(m, hi) + ")"; }; return rec(0, T.v.size()); }
  case CONCAT: { std::string s = k[0]; for (size_t i = 1; i < k.size(); i++) s = "(concat " + k[i] + " " + s + ")"; return s; }
  case EXTRACT: return "((_ extract " + std::to_string(t->p[1] + w - 1) + " " + std::to_string(t->p[1]) + ") " + k[0] + ")";
  case ADD: return bin("bvadd"); case MUL: return bin("bvmul"); case AND: return bin("bvand"); case OR: return bin("bvor"); case XOR: return bin("bvxor");
  case SHL: return bin("bvshl"); case LSHR: return bin("bvlshr"); case ASHR: return bin("bvashr"); case UDIV: return bin("bvudiv"); case UREM: return bin("bvurem");
  case EQ: return b1(bin("=")); case ULT: return b1(bin("bvult")); case SLT: return b1(bin("bvslt"));
  case ITE: return "(ite (= " + k[0] + " #b1) " + k[1] + " " + k[2] + ")";
  case SEXT: return "((_ sign_extend " + std::to_string(w - t->a(0)->w) + ") " + k[0] + ")";
  case NADD: { std::string s; for (u32 i = 0; i < t->n / 2; i++) { u64 c = t->p[2 * i + 1]; std::string m = c == 1 ? k[i] : "(bvmul " + bv(c, w) + " " + k[i] + ")"; s = i ? "(bvadd " + s + " " + m + ")" : m; } return s; }
  case NMUL: return nary("bvmul"); case NAND: return nary("bvand"); case NOR: return nary("bvor"); case NXOR: return nary("bvxor");
  default: return bv(0, w);
  }
}
static int runSmt(Prog &P, u32 ra, u32 rb, const std::vector<u32> &pcs, u64 *model) { // 0 unsat 1 sat 2 unknown
  if (P.nodes.size() > 60000) return 2;
  char fn[] = "/tmp/fvsmtXXXXXX"; int fd = mkstemp(fn); if (fd < 0) return 2; FILE *f = fdopen(fd, "w");
  fprintf(f, "(set-option :produce-models true)\n(set-logic QF_BV)\n");
  for (size_t i = 0; i < P.nodes.size(); i++) { auto &k = P.kids[i]; Term *t = P.nodes[i]; if (k.empty() && !t->isc()) fprintf(f, "(declare-const n%zu (_ BitVec %u))\n", i, t->w); else { std::vector<std::string> ks; for (u32 j : k) ks.push_back("n" + std::to_string(j)); std::string s = smtNode(t, ks); fprintf(f, "(declare-const n%zu (_ BitVec %u))\n(assert (= n%zu %s))\n", i, t->w, i, s.c_str()); } }
  for (u32 p : pcs) fprintf(f, "(assert (= n%u #b1))\n", p);
  fprintf(f, "(assert (not (= n%u n%u)))\n(check-sat)\n", ra, rb);
  for (u32 l : P.leaves) fprintf(f, "(get-value (n%u))\n", l); fclose(f);
  std::string cmd = g_z3 + " -T:" + std::to_string(g_smt_timeout) + " " + fn + " 2>/dev/null"; FILE *p = popen(cmd.c_str(), "r"); int res = 2; char line[4096];
  if (p) { bool first = true; while (fgets(line, sizeof line, p)) { if (first) { first = false; if (!strncmp(line, "unsat", 5)) res = 0; else if (!strncmp(line, "sat", 3)) res = 1; } else if (res == 1) { unsigned id; char v[256]; if (sscanf(line, "((n%u %255[^)])", &id, v) == 2) { u64 x = 0; if (v[0] == '#' && v[1] == 'x') x = strtoull(v + 2, 0, 16); else if (v[0] == '#' && v[1] == 'b') x = strtoull(v + 2, 0, 2); model[id] = x; } } } pclose(p); }
  unlink(fn); return res;
}

static void simCex(Sim *s, Term *a, Term *b, const std::vector<Term *> &pc, Cex *cex) {
  if (!cex) return; cex->vals.clear(); std::unordered_set<Term *> seen; std::unordered_set<u32> apps;
  std::function<void(Term *)> dfs = [&](Term *t) { if (!seen.insert(t).second || seen.size() > 3000000) return; if (t->k == VAR) cex->vals.push_back({(u32)t->p[0], s->get(t)}); if (t->k == UFB && apps.insert(t->p[0]).second) { for (size_t i = 0; i < DB.apps[t->p[0]].args.size(); i++) dfs(DB.apps[t->p[0]].args[i]); } for (int i = 0; i < nch(t); i++) dfs(ch(t, i)); };
  dfs(a); dfs(b); for (Term *p : pc) dfs(p);
}
bool satisfiable_sim(const std::vector<Term *> &pc, Term *c, bool want, Cex *cex) {
  initSims(); for (Sim *s : sims) { bool ok = true; for (Term *p : pc) if (!s->get(p)) { ok = false; break; } if (ok && (s->get(c) & 1) == (want ? 1u : 0u)) { simCex(s, c, c, pc, cex); return true; } } return false;
}
static BitDB *gbits = nullptr;
Res proveEq(Term *a, Term *b, const std::vector<Term *> &pc, Cex *cex, bool quick) {
  if (a == b) { SS.t0++; return PROVED; }
  if (a->w != b->w) return UNKNOWN;
  initSims();
  if ((a->k == ADD || a->k == MUL) && (b->k == ADD || b->k == MUL)) { if (polyCompare(a, b) == PROVED) { SS.nf++; return PROVED; } }
  for (size_t i = 0; i < sims.size(); i++) { Sim *s = sims[i]; if ((quick && i >= 6) || (i >= 3 && DB.byid.size() > 6000000)) break; if (s->get(a) != s->get(b)) { bool ok = true; for (Term *p : pc) if (!s->get(p)) { ok = false; break; } if (ok) { simCex(s, a, b, pc, cex); return REFUTED; } } }
  Term *na = nf(a), *nb = nf(b); if (na == nb) { SS.nf++; return PROVED; }
  // bit level
  try { if (!gbits) gbits = new BitDB; if (gbits->budget > 40000000) { delete gbits; gbits = new BitDB; } auto x = gbits->get(na); auto y = gbits->get(nb); if (x == y) { SS.bits++; return PROVED; } } catch (TooBig &) { if (gbits->budget > 40000000) { delete gbits; gbits = nullptr; } }
  // exhaustive / SMT, first over the cut at shared subterms, then over the true leaves
  for (int rd = 0; rd < 3; rd++) { int round = rd == 2;   // round 1: true leaves; before that, generalisations (proofs only)
    std::unordered_set<Term *> cut; if (rd == 0) { if (!frontier(na, nb, cut)) continue; } if (rd == 1) { if (!wideCut(na, nb, cut)) continue; }
    Prog P; if (!round) P.cut = &cut; u32 ra = P.add(na), rb = P.add(nb); 
    std::vector<u32> roots = {ra, rb};
    std::string key = alphaKey(P, ra, rb); if (alphaOK.count(key)) { SS.memo++; return PROVED; }
    std::vector<u32> pcr; size_t npre = P.leaves.size();
    if (round == 1) { // path condition conjuncts over the same leaves (ignoring the others is sound for proving)
      for (Term *p : pc) { Term *q = nf(p); Prog T; T.add(q); bool rel = false; for (u32 l : T.leaves) if (P.idx.count(T.nodes[l])) rel = true; if (rel && T.nodes.size() < 3000) pcr.push_back(P.add(q)); } }
    std::vector<u64> used; std::vector<u32> rr = roots; rr.insert(rr.end(), pcr.begin(), pcr.end()); bitsUsed(P, rr, used); (void)npre;
    unsigned nb_ = 0; for (u32 l : P.leaves) nb_ += __builtin_popcountll(used[l]);
    std::vector<u64> val(P.nodes.size());
    if (nb_ <= 22 && ((u64)P.nodes.size() << nb_) < 3000000000ull) {
      double t0 = now(); bool bad = false;
      for (u64 x = 0; x < (1ull << nb_) && !bad; x++) { u64 y = x; for (u32 l : P.leaves) { u64 v = 0, u = used[l]; while (u) { u64 b0 = u & -u; if (y & 1) v |= b0; y >>= 1; u &= u - 1; } val[l] = v; } runProg(P, val.data()); bool ok = true; for (u32 p : pcr) if (!val[p]) ok = false; if (ok && val[ra] != val[rb]) bad = true; }
      SS.exh_s += now() - t0;
      if (!bad) { SS.exh++; if (pcr.empty()) alphaOK.insert(key); return PROVED; }
      if (round == 1) { bool allvar = true; for (u32 l : P.leaves) if (P.nodes[l]->k != VAR) allvar = false; cexFromProg(P, val.data(), cex); (void)allvar; return REFUTED; }
      continue;
    }
    if (quick && rd != 1) continue;
    double t0 = now(); int r = runSmt(P, ra, rb, pcr, val.data()); SS.smt_s += now() - t0;
    if (r == 0) { SS.smt++; if (pcr.empty()) alphaOK.insert(key); return PROVED; }
    if (r == 1 && round == 1) { cexFromProg(P, val.data(), cex); return REFUTED; }
  }
  return UNKNOWN;
}

// ---------- joint proof of many pairs with simulation-guided cuts (sweeping)
Res proveMany(const std::vector<std::pair<Term *, Term *>> &v, const std::vector<Term *> &pc, std::vector<Res> &out, std::vector<Cex> &cx) {
  out.assign(v.size(), UNKNOWN); cx.assign(v.size(), Cex()); Res all = PROVED; initSims();
  std::vector<size_t> open; 
  for (size_t i = 0; i < v.size(); i++) {
    Term *a = v[i].first, *b = v[i].second; if (a == b) { SS.t0++; out[i] = PROVED; continue; }
    if (a->w == b->w && (a->k == ADD || a->k == MUL) && (b->k == ADD || b->k == MUL)) { if (polyCompare(a, b) == PROVED) { SS.nf++; out[i] = PROVED; continue; } }
    bool ref = false; int ns = 0; for (Sim *s : sims) if (ns++ >= 3 && DB.byid.size() > 6000000) break; else if (s->get(a) != s->get(b)) { bool ok = true; for (Term *p : pc) if (!s->get(p)) { ok = false; break; } if (ok) { simCex(s, a, b, pc, &cx[i]); out[i] = REFUTED; ref = true; break; } }
    if (!ref) open.push_back(i);
  }
  if (!open.empty()) {
    std::unordered_map<Term *, u8> side; std::vector<Term *> order;
    for (int sd = 1; sd <= 2; sd++) { std::unordered_set<Term *> seen; std::function<void(Term *)> dfs = [&](Term *t) { if (t->isc() || !seen.insert(t).second) return; for (int i = 0; i < nch(t); i++) dfs(ch(t, i)); if (!side.count(t)) order.push_back(t); side[t] |= sd; }; for (size_t i : open) dfs(sd == 1 ? v[i].first : v[i].second); }
    // topological order for the union: ids grow with construction
    std::sort(order.begin(), order.end(), [](Term *a, Term *b) { return a->id < b->id; });
    struct Cls { u8 sides = 0; bool done = false, cut = false; std::vector<Bit> def, atoms; };
    std::unordered_map<u64, Cls> cls; auto sig = [&](Term *t, bool &neg) { u64 v0 = sims[0]->get(t); neg = v0 & 1; u64 h = t->w; for (int i = 0; i < 4; i++) { u64 x = sims[i]->get(t); if (neg) x = ~x & maskw(t->w); h = h64(h * 3 + x); } return h; };
    for (Term *t : order) { bool n; if (nch(t)) cls[sig(t, n)].sides |= side[t]; }
    BitDB B; B.lim = 4000; u32 cid = 0; bool failed = false;
    auto expand = [&](const std::vector<Bit> &d, std::unordered_map<u32, Bit> &defs) { std::vector<Bit> r; for (Bit b : d) { Bit x = b & 1; for (u32 at : std::vector<u32>(B.sets[b >> 1])) { auto it = defs.find(at); x = B.bxor(x, it == defs.end() ? B.ofAtom(at) : it->second); } r.push_back(x); } return r; };
    std::unordered_map<u32, Bit> defs;
    try {
      for (Term *t : order) {
        if (!nch(t)) continue; bool neg; u64 s = sig(t, neg); Cls &c = cls[s]; if (c.sides != 3) continue;
        auto bits = B.get(t); std::vector<Bit> d(bits); if (neg) for (auto &x : d) x ^= 1;
        if (!c.done) { c.done = true; size_t mx = 0; for (Bit x : d) mx = std::max(mx, B.sets[x >> 1].size()); c.def = d; c.cut = mx > 6;
          if (c.cut) { for (unsigned i = 0; i < t->w; i++) { u32 at = B.atom({5000, cid, i}); defs[at] = d[i]; c.atoms.push_back(B.ofAtom(at)); } cid++; } }
        else if (c.cut) { if (d != c.def && d != c.atoms) { if (expand(d, defs) != expand(c.def, defs)) continue; } }
        else continue;
        if (c.cut) { auto r = c.atoms; if (neg) for (auto &x : r) x ^= 1; B.over[t] = r; B.memo.erase(t); }
      }
      for (size_t i : open) { auto x = B.get(v[i].first); auto y = B.get(v[i].second); if (x == y) { out[i] = PROVED; SS.sweep++; } }
    } catch (TooBig &) { failed = true; }
    if (getenv("FVDEBUG")) { u32 s3 = 0, ct = 0; for (auto &q : cls) { if (q.second.sides == 3) s3++; if (q.second.cut) ct++; } fprintf(stderr, "sweep: open=%zu order=%zu classes=%zu both=%u cut=%u toobig=%d sets=%zu atoms=%zu\n", open.size(), order.size(), cls.size(), s3, ct, (int)failed, B.sets.size(), B.atomkey.size()); for (size_t i : open) if (out[i] != PROVED) { auto &x = B.get(v[i].first), &y = B.get(v[i].second); fprintf(stderr, " %zu: %s | %s\n", i, show(v[i].first, 7).c_str(), show(v[i].second, 7).c_str()); for (size_t j = 0; j < x.size(); j++) fprintf(stderr, "  bit %zu %zu %zu\n", j, B.sets[x[j] >> 1].size(), B.sets[y[j] >> 1].size()); break; } }
    for (size_t i : open) if (out[i] != PROVED) { out[i] = proveEq(v[i].first, v[i].second, pc, &cx[i]); }
  }
  for (Res r : out) { if (r == REFUTED) return REFUTED; if (r == UNKNOWN) all = UNKNOWN; }
  return all;
}
