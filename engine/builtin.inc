// Built-in functions: LLVM intrinsics, libc, and the fv_* contract vocabulary.
struct AsCaller { Fn *sf; Op *so; AsCaller(State &S) : sf(curFn), so(curOp) { for (size_t i = S.fr.size(); i-- > 0;) if (!S.fr[i].f->spec) { curFn = S.fr[i].f; curOp = &S.fr[i].f->b[S.fr[i].bb].ops[S.fr[i].pc]; break; } } ~AsCaller() { curFn = sf; curOp = so; } };
static u64 concLen(const Val &v, const char *what) { if (v.conc()) return v.c; if (v.k == V_SYM && (v.t->lab & L_SECRET)) sevent("secret-branch", std::string(what) + " length depends on secret data"); unsup(std::string("symbolic length in ") + what); }
static bool bounds(State &S, const Val &p, u64 n, const char *what, u64 &off) { if (!n) { off = 0; return false; } if (p.k == V_SPTR) { if (p.t->lab & L_SECRET) sevent("secret-addr", std::string(what) + " address depends on secret data"); unsup("symbolic pointer in builtin"); } return chk(S, p, n, 1, what, off); }
static void copyBytes(State &S, const Val &d, const Val &s, u64 n, bool ov) {
  u64 od, os; bool a = bounds(S, d, n, "memcpy destination", od), b = bounds(S, s, n, "memcpy source", os); if (!n) return; if (!a || !b) return;
  gwriteCheck(d, n); if (OI[d.obj].ro) { event("ro-write", "copy into constant object"); return; }
  if (!ov && d.obj == s.obj && od != os && od < os + n && os < od + n) sevent("overlap", "memcpy between overlapping regions");
  Cells tmp(S.mem[s.obj]->begin() + os, S.mem[s.obj]->begin() + os + n); for (u64 i = 0; i < n; i++) if (!tmp[i] && !(d.obj == s.obj && od == os)) { Term *t = uninit(s.obj, os + i); tmp[i] = tcell(t, 0); }
  Cells &m = wr(S, d.obj); std::copy(tmp.begin(), tmp.end(), m.begin() + od);
}
static void setBytes(State &S, const Val &d, Term *v, u64 n) { u64 od; if (!bounds(S, d, n, "memset", od)) return; gwriteCheck(d, n); if (OI[d.obj].ro) { event("ro-write", "memset of constant object"); return; } Cells &m = wr(S, d.obj); for (u64 i = 0; i < n; i++) putTerm(m, od + i, v, 1); }
static Val vmap2(const Val &a, const Val &b, const std::function<Val(const Val &, const Val &)> &f) { if (a.k == V_VEC) { if (a.w == 255) unsup("wide intrinsic"); std::vector<Val> l; for (size_t i = 0; i < a.v->l.size(); i++) l.push_back(f(a.v->l[i], b.v->l[i])); return Val::V(std::move(l)); } return f(a, b); }
static Val vmap1(const Val &a, const std::function<Val(const Val &)> &f) { if (a.k == V_VEC) { if (a.w == 255) unsup("wide intrinsic"); std::vector<Val> l; for (size_t i = 0; i < a.v->l.size(); i++) l.push_back(f(a.v->l[i])); return Val::V(std::move(l)); } return f(a); }
static bool intrinsic(State &S, Frame &f, Op &op, Function *F, std::vector<Val> &a, Val &res) {
  std::string n = F->getName().str(); auto st = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (st("llvm.memcpy") || st("llvm.memmove")) { copyBytes(S, a[0], a[1], concLen(a[2], "memcpy"), st("llvm.memmove")); return true; }
  if (st("llvm.memset")) { setBytes(S, a[0], mkExtract(toT(a[1]), 0, 8), concLen(a[2], "memset")); return true; }
  if (st("llvm.expect")) { res = a[0]; return true; }
  if (st("llvm.stacksave")) { res = Val::P(0, 0); return true; }
  if (st("llvm.objectsize")) { res = Val::I(op.w, ~0ull); return true; }
  if (st("llvm.is.constant")) { res = Val::I(1, a[0].conc()); return true; }
  if (st("llvm.fshl") || st("llvm.fshr")) { bool L = st("llvm.fshl"); auto one = [&](const Val &x, const Val &y, const Val &z) -> Val { unsigned w = x.w; if (!z.conc()) unsup("symbolic funnel shift"); u64 k = z.c % w; Term *hi = toT(x), *lo = toT(y); if (k == 0) return L ? x : y; u64 sl = L ? k : w - k; return Val::T(mkOr(mkShl(hi, mkC(w, sl)), mkLshr(lo, mkC(w, w - sl)))); };
    if (a[0].k == V_VEC) { std::vector<Val> l; for (size_t i = 0; i < a[0].v->l.size(); i++) l.push_back(one(a[0].v->l[i], a[1].v->l[i], a[2].v->l[i])); res = Val::V(std::move(l)); } else res = one(a[0], a[1], a[2]); return true; }
  if (st("llvm.bswap")) { res = vmap1(a[0], [&](const Val &x) { Term *t = toT(x); std::vector<Term *> p; for (int i = t->w / 8 - 1; i >= 0; i--) p.push_back(mkExtract(t, 8 * i, 8)); return Val::T(mkConcat(p)); }); return true; }
  if (st("llvm.bitreverse")) { res = vmap1(a[0], [&](const Val &x) { Term *t = toT(x); std::vector<Term *> p; for (int i = t->w - 1; i >= 0; i--) p.push_back(mkExtract(t, i, 1)); return Val::T(mkConcat(p)); }); return true; }
  if (st("llvm.ctpop")) { res = vmap1(a[0], [&](const Val &x) { Term *t = toT(x), *r = mkC(t->w, 0); for (unsigned i = 0; i < t->w; i++) r = mkAdd(r, mkZext(mkExtract(t, i, 1), t->w)); return Val::T(r); }); return true; }
  auto mm = [&](CmpInst::Predicate p) { res = vmap2(a[0], a[1], [&](const Val &x, const Val &y) { Val c = icmp(p, x, y); if (c.conc()) return c.c ? x : y; return selectv(toT(c), x, y); }); return true; };
  if (st("llvm.umin")) return mm(CmpInst::ICMP_ULT); if (st("llvm.umax")) return mm(CmpInst::ICMP_UGT); if (st("llvm.smin")) return mm(CmpInst::ICMP_SLT); if (st("llvm.smax")) return mm(CmpInst::ICMP_SGT);
  if (st("llvm.abs")) { res = vmap1(a[0], [&](const Val &x) { Term *t = toT(x); return Val::T(mkIte(mkExtract(t, t->w - 1, 1), mkNeg(t), t)); }); return true; }
  if (st("llvm.usub.sat")) { res = vmap2(a[0], a[1], [&](const Val &x, const Val &y) { Term *p = toT(x), *q = toT(y); return Val::T(mkIte(mkUlt(p, q), mkC(p->w, 0), mkSub(p, q))); }); return true; }
  if (st("llvm.uadd.sat")) { res = vmap2(a[0], a[1], [&](const Val &x, const Val &y) { Term *p = toT(x), *q = toT(y); Term *s = mkAdd(p, q); return Val::T(mkIte(mkUlt(s, p), mkC(p->w, ~0ull), s)); }); return true; }
  if (st("llvm.vector.reduce.")) { std::string k = n.substr(19, n.find('.', 19) - 19); Val r = a[0].v->l[0]; for (size_t i = 1; i < a[0].v->l.size(); i++) { unsigned oc; if (k == "add") oc = Instruction::Add; else if (k == "mul") oc = Instruction::Mul; else if (k == "or") oc = Instruction::Or; else if (k == "and") oc = Instruction::And; else if (k == "xor") oc = Instruction::Xor; else unsup(n); r = binop(oc, r, a[0].v->l[i], r.w, nullptr); } res = r; return true; }
  if (st("llvm.trap")) { event("trap", "trap executed"); res.w = 77; return true; }
  auto shi = [&](int kind, unsigned w) { if (!a[1].conc()) unsup("symbolic vector shift"); u64 k = a[1].c; res = vmap1(a[0], [&](const Val &x) { Term *t = toT(x); if (k >= w) return kind == 2 ? Val::T(mkAshr(t, mkC(w, w - 1))) : Val::I(w, 0); Term *c = mkC(w, k); return Val::T(kind == 0 ? mkShl(t, c) : kind == 1 ? mkLshr(t, c) : mkAshr(t, c)); }); return true; };
  for (const char *pf : {"llvm.x86.avx2.", "llvm.x86.sse2."}) if (st(pf)) { std::string s = n.substr(strlen(pf));
      if (s == "pslli.q") return shi(0, 64); if (s == "psrli.q") return shi(1, 64); if (s == "pslli.d") return shi(0, 32); if (s == "psrli.d") return shi(1, 32); if (s == "pslli.w") return shi(0, 16); if (s == "psrli.w") return shi(1, 16); if (s == "psrai.w") return shi(2, 16); if (s == "psrai.d") return shi(2, 32);
      if (s == "pmadd.wd") { std::vector<Val> l; for (size_t i = 0; i + 1 < a[0].v->l.size(); i += 2) { auto m = [&](size_t j) { return mkMul(mkSext(toT(a[0].v->l[j]), 32), mkSext(toT(a[1].v->l[j]), 32)); }; l.push_back(Val::T(mkAdd(m(i), m(i + 1)))); } res = Val::V(std::move(l)); return true; } }
  if (n == "llvm.x86.avx2.pshuf.b" || n == "llvm.x86.ssse3.pshuf.b.128") { std::vector<Val> l; size_t N = a[0].v->l.size(); for (size_t i = 0; i < N; i++) { const Val &m = a[1].v->l[i]; if (!m.conc()) unsup("symbolic pshufb"); if (m.c & 0x80) l.push_back(Val::I(8, 0)); else l.push_back(a[0].v->l[i / 16 * 16 + (m.c & 15)]); } res = Val::V(std::move(l)); return true; }
  if (n == "llvm.x86.aesni.aesenc" || n == "llvm.x86.aesni.aesenclast") { auto s = bytesOf(a[0]), k = bytesOf(a[1]); std::vector<Term *> t(16), o(16); for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[4 * c + r] = subb(s[4 * ((c + r) & 3) + r]);
    if (n == "llvm.x86.aesni.aesenc") { for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { Term *x = t[4 * c + r], *y = t[4 * c + (r + 1) % 4]; o[4 * c + r] = mkXor(mkXor(mkXor(xtime(x), mkXor(xtime(y), y)), t[4 * c + (r + 2) % 4]), t[4 * c + (r + 3) % 4]); } } else o = t;
    for (int i = 0; i < 16; i++) o[i] = mkXor(o[i], k[i]); res = fromBytes(o, 64); return true; }
  if (n == "llvm.x86.aesni.aeskeygenassist") { auto s = bytesOf(a[0]); u64 rc = a[1].c & 255; std::vector<Term *> o(16); for (int h = 0; h < 2; h++) { int w = 2 * h + 1; std::vector<Term *> sw; for (int i = 0; i < 4; i++) sw.push_back(subb(s[4 * w + i])); for (int i = 0; i < 4; i++) o[8 * h + i] = sw[i]; for (int i = 0; i < 4; i++) { Term *x = sw[(i + 1) & 3]; if (i == 0) x = mkXor(x, mkC(8, rc)); o[8 * h + 4 + i] = x; } } res = fromBytes(o, 64); return true; }
  return false;
}
static void reqMem(State &S, const Val &p, u64 n, u64 al, bool rd) {
  if (!n) return; AsCaller ac(S); u64 off; OBLINC("requires"); if (p.k == V_SPTR) unsup("symbolic pointer argument");
  if (!chk(S, p, n, 1, rd ? "callee read" : "callee write", off)) return;
  if (al > 1) { OBLINC("alignment"); if ((OI[p.obj].base + off) % al) sevent("align", "argument pointer to " + OI[p.obj].name + " not aligned to " + std::to_string(al)); }
  if (rd) { Cells &m = *S.mem[p.obj]; for (u64 i = 0; i < n; i++) { u64 c = m[off + i]; if (!c || (!(c & 1) && (((Term *)(c & ~15ull))->lab & L_UNDEF))) { sevent("uninit", "uninitialised bytes of " + OI[p.obj].name + " (offset " + std::to_string(off + i) + ") passed to a callee that reads them"); break; } } }
  else { gwriteCheck(p, n); if (OI[p.obj].ro) event("ro-write", "constant object passed as output"); }
}
static bool builtin(State &S, Frame &f, Op &op, Function *F, std::vector<Val> &a, Val &res) {
  if (F->isIntrinsic()) return intrinsic(S, f, op, F, a, res);
  std::string n = F->getName().str(), s1, s2;
  if (n.compare(0, 3, "fv_")) {
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk") { copyBytes(S, a[0], a[1], concLen(a[2], "memcpy"), n == "memmove"); res = a[0]; return true; }
    if (n == "memset" || n == "__memset_chk") { setBytes(S, a[0], mkExtract(toT(a[1]), 0, 8), concLen(a[2], "memset")); res = a[0]; return true; }
    if (n == "explicit_bzero" || n == "bzero") { setBytes(S, a[0], mkC(8, 0), concLen(a[1], "bzero")); return true; }
    if (n == "memcmp" || n == "bcmp") { u64 len = concLen(a[2], "memcmp"); std::vector<Term *> x, y; getBytes(S, a[0], len, x, "memcmp"); getBytes(S, a[1], len, y, "memcmp"); u8 lab = 0; for (auto t : x) lab |= t->lab; for (auto t : y) lab |= t->lab; if (lab & L_SECRET) sevent("secret-branch", "memcmp on secret data"); if (lab & L_UNDEF) sevent("uninit", "memcmp on uninitialised data");
      Term *r = mkC(32, 0); for (u64 i = len; i-- > 0;) { Term *lt = mkUlt(x[i], y[i]); r = mkIte(mkEq(x[i], y[i]), r, mkIte(lt, mkC(32, ~0ull), mkC(32, 1))); } res = Val::T(r); return true; }
    if (n == "malloc" || n == "calloc" || n == "aligned_alloc" || n == "_mm_malloc") { u64 sz = n == "calloc" ? concLen(a[0], "calloc") * concLen(a[1], "calloc") : n == "aligned_alloc" ? concLen(a[1], "alloc") : concLen(a[0], "malloc"); u64 al = n == "aligned_alloc" ? a[0].c : n == "_mm_malloc" ? a[1].c : 16; u32 o = newObj(S, sz, al, 0, O_HEAP, "heap@" + f.f->name, f.f->spec); if (n == "calloc") setBytes(S, Val::P(o, 0), mkC(8, 0), sz); res = Val::P(o, 0); return true; }
    if (n == "free" || n == "_mm_free") { if (a[0].k == V_PTR && !a[0].obj) return true; if (a[0].k != V_PTR || OI[a[0].obj].kind != O_HEAP || !S.mem[a[0].obj] || a[0].c) { event("uaf", "invalid or double free"); unsup("bad free"); }
      if (!RESIDFN.empty() && repoCode()) { Cells &m = *S.mem[a[0].obj]; u64 bad = 0; OBLINC("residual"); for (u64 c : m) if (c && !(c & 1) && (((Term *)(c & ~15ull))->lab & L_SECRET)) bad++; if (bad) event("residual", "heap storage freed while holding " + std::to_string(bad) + " secret bytes"); }
      S.mem[a[0].obj].reset(); return true; }
    if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n == "__stack_chk_fail") { OBLINC("abort-path"); if (repoCode()) event("abort", "the process is terminated by " + n); res.w = 77; return true; }
    if (n == "printf" || n == "fprintf" || n == "puts" || n == "fputs" || n == "putchar" || n == "fputc" || n == "fwrite" || n == "ERR_print_errors_fp" || n == "perror" || n == "fflush") { for (size_t i = 0; i < a.size(); i++) if (a[i].k == V_SYM && (a[i].t->lab & L_SECRET)) sevent("secret-out", "secret value printed"); res = Val::I(op.w ? op.w : 32, 0); return true; }
    return false;
  }
  auto str = [&](int i, std::string &b) -> std::string { cstrAt(S, a[i], b); return b; };
  if (n == "fv_fresh") { // p, nelem, elsz, name, label
    u64 ne = a[1].c, es = a[2].c; std::string nm = str(3, s1); u8 lab = a[4].c & 1; u64 off; if (!ne) return true; if (!chk(S, a[0], ne * es, 1, "fv_fresh", off)) unsup("fv_fresh"); Cells &m = wr(S, a[0].obj); for (u64 i = 0; i < ne; i++) putTerm(m, off + i * es, DB.abstract ? mkAnyFull(8 * es, lab) : mkVar(8 * es, nm, i, lab), es); return true; }
  if (n == "fv_buf") { u32 o = newObj(S, a[0].c, a[1].c, a[2].c, O_BUF, str(3, s1), true); res = Val::P(o, 0); return true; }
  if (n == "fv_assume") { if (a[0].conc()) { if (!a[0].c) res.w = 77; return true; } if (DB.abstract) return true; Term *t = toT(a[0]); if (t->w != 1) t = mkNot(mkEq(t, mkC(t->w, 0))); S.pc.push_back(t); return true; }
  if (n == "fv_check") { std::string m = str(1, s1); OBLINC("assertion"); Term *t = toT(a[0]); if (t->w != 1) t = mkNot(mkEq(t, mkC(t->w, 0))); if (t->isc()) { if (t->c()) nproved++; else { nfail++; if (FAILS.size() < 8) FAILS.push_back({m, "false on a feasible path", {}, false}); } return true; } if (DB.abstract) return true;
    Cex cx; Res r = proveEq(t, mkC(1, 1), S.pc, &cx); if (r == PROVED) nproved++; else { if (r == REFUTED) nfail++; else nunk++; if (FAILS.size() < 8) FAILS.push_back({m, show(t), cx, r == UNKNOWN}); } return true; }
  if (n == "fv_check_eq") { u64 len = a[2].c; if (!len) return true; std::string m = str(3, s1); if (DB.abstract || NOEQ) return true; u64 o1, o2; if (!chk(S, a[0], len, 1, "fv_check_eq", o1) || !chk(S, a[1], len, 1, "fv_check_eq", o2)) unsup("fv_check_eq"); std::vector<std::pair<Term *, Term *>> prs; std::vector<std::string> nm; auto x = S.mem[a[0].obj], y = S.mem[a[1].obj]; pairCells(S, a[0].obj, o1, *x, a[1].obj, o2, *y, len, m, prs, nm, false); doCheckEq(S, prs, nm); return true; }
  if (n == "fv_uf") { // name, out, outlen, label, nin, (ptr,len)*
    std::string nm = str(0, s1); u64 ol = concLen(a[2], "fv_uf"); unsigned lm = a[3].c, ni = a[4].c; std::vector<u32> lens; std::vector<Term *> args; for (unsigned i = 0; i < ni; i++) { u64 l = concLen(a[6 + 2 * i], "fv_uf"); size_t b = args.size(); getBytes(S, a[5 + 2 * i], l, args, "fv_uf input"); lens.push_back(args.size() - b); }
    u8 lab = 0; if (lm == 1) lab = 1; if (lm == 2) for (auto t : args) lab |= t->lab & L_SECRET; for (auto t : args) lab |= t->lab & L_UNDEF;
    u64 off; if (!ol) return true; if (!chk(S, a[1], ol, 1, "fv_uf output", off)) unsup("fv_uf out"); Cells &m = wr(S, a[1].obj);
    if (DB.abstract) { for (u64 i = 0; i < ol; i++) putTerm(m, off + i, mkAnyFull(8, lab), 1); return true; }
    u32 app = mkApp(nm, lab, lens, args); for (u64 i = 0; i < ol; i++) putTerm(m, off + i, mkUFB(app, i), 1); return true; }
  if (n == "fv_opaque") { res = Val::I(32, OPAQUE.count(str(0, s1)) ? 1 : 0); return true; }
  if (n == "fv_symbolic") { res = Val::I(32, DB.abstract ? 2 : 1); return true; }
  if (n == "fv_havoc") { // p, n, label, name
    u64 len = a[1].c; if (!len) return true; u64 off; if (!chk(S, a[0], len, 1, "fv_havoc", off)) return true; static u64 hc = 0; std::string nm = "__havoc_" + str(3, s1) + "_" + std::to_string(hc++); Cells &m = wr(S, a[0].obj); u8 lab = a[2].c & 1; for (u64 i = 0; i < len; i++) putTerm(m, off + i, DB.abstract ? mkAnyFull(8, lab) : mkVar(8, nm, i, lab), 1); return true; }
  if (n == "fv_anylab") { // p, n -> 1 if any byte is secret
    u64 off; u8 lab = 0; if (a[1].c && chk(S, a[0], a[1].c, 1, "fv_anylab", off)) { Cells &m = *S.mem[a[0].obj]; for (u64 i = 0; i < a[1].c; i++) { u64 c = m[off + i]; if (c && !(c & 1)) lab |= ((Term *)(c & ~15ull))->lab; } } res = Val::I(32, lab & 1); return true; }
  if (n == "fv_req_r" || n == "fv_req_w") { reqMem(S, a[0], concLen(a[1], "contract"), a[2].c, n == "fv_req_r"); return true; }
  if (n == "fv_req_public") { u64 off; u64 len = a[1].c; if (!len || !chk(S, a[0], len, 1, "fv_req_public", off)) return true; AsCaller ac(S); OBLINC("requires"); Cells &m = *S.mem[a[0].obj]; for (u64 i = 0; i < len; i++) { u64 c = m[off + i]; if (c && !(c & 1) && (((Term *)(c & ~15ull))->lab & L_SECRET)) { sevent("secret-arg", "secret data passed where public data is required (" + OI[a[0].obj].name + ")"); break; } } return true; }
  if (n == "fv_used") { std::string k = str(0, s1); for (size_t i = 1; i < a.size(); i++) k += " " + std::to_string(concLen(a[i], "contract instance")); USED.insert(k); return true; }
  if (n == "fv_param") { u64 i = a[0].c; if (i >= PARAMS.size()) unsup("missing harness parameter"); res = Val::I(64, PARAMS[i]); return true; }
  if (n == "fv_overlap") { u64 n1 = concLen(a[1], "overlap"), n2 = concLen(a[3], "overlap"); u64 r = 0; if (a[0].k != V_PTR || a[2].k != V_PTR) unsup("symbolic pointer argument"); if (a[0].obj == a[2].obj && n1 && n2) { if (a[0].c == a[2].c) r = 1; else if (a[0].c < a[2].c + n2 && a[2].c < a[0].c + n1) r = 2; } res = Val::I(32, r); return true; }
  if (n == "fv_declassify") { u64 off; u64 len = a[1].c; if (!len || !DB.abstract || !chk(S, a[0], len, 1, "fv_declassify", off)) return true; Cells &m = wr(S, a[0].obj); for (u64 i = 0; i < len; i++) { u64 c = m[off + i]; if (c && !(c & 1) && (((Term *)(c & ~15ull))->lab & L_SECRET)) putTerm(m, off + i, mkAnyFull(8, 0), 1); } return true; }
  if (n == "fv_choose") { if (NEST > 0) unsup("choice under symbolic branch"); nchoose++; u64 k = a[0].c; u64 h = hashState(S); if (!VISITED.insert(h).second) { npruned++; res.w = 77; return true; } for (u64 i = k; i-- > 1;) { State X = S; Frame &g = X.fr.back(); if (op.dst >= 0) g.r[op.dst] = Val::I(32, i); g.pc++; WORK.push_back(std::move(X)); } res = Val::I(32, 0); return true; }
  if (n == "fv_begin") { auto sn = std::make_shared<Snap>(); sn->m.resize(S.mem.size()); for (u32 o = 1; o < S.mem.size(); o++) if (S.mem[o] && visible(o)) sn->m[o] = S.mem[o]; S.begin = sn; S.real.reset(); return true; }
  if (n == "fv_mid") { if (!S.begin) unsup("fv_mid"); auto sn = std::make_shared<Snap>(); sn->m.resize(S.begin->m.size()); for (u32 o = 1; o < S.begin->m.size(); o++) if (S.begin->m[o]) { sn->m[o] = S.mem[o]; S.mem[o] = S.begin->m[o]; } S.real = sn; return true; }
  if (n == "fv_end") { compareEnd(S); S.begin.reset(); S.real.reset(); S.ignore.clear(); return true; }
  if (n == "fv_ignore") { if (a[0].k != V_PTR) unsup("fv_ignore"); S.ignore.push_back({a[0].obj, {a[0].c, concLen(a[1], "fv_ignore")}}); return true; }
  if (n == "fv_event") { AsCaller ac(S); event(str(0, s1), str(1, s2)); return true; }
  return false;
}
