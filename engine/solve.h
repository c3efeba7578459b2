#pragma once
#include "term.h"
enum Res { PROVED, REFUTED, UNKNOWN };
struct Cex { std::vector<std::pair<u32, u64>> vals; };   // var index -> value
struct SolveStats { u64 t0 = 0, nf = 0, bits = 0, memo = 0, exh = 0, smt = 0, sweep = 0; double smt_s = 0, exh_s = 0; };
extern SolveStats SS;
Res proveEq(Term *a, Term *b, const std::vector<Term *> &pc, Cex *cex, bool quick = false);
Res proveMany(const std::vector<std::pair<Term *, Term *>> &v, const std::vector<Term *> &pc, std::vector<Res> &out, std::vector<Cex> &cx);
Term *nf(Term *t);
u64 simSig(Term *t);            // random simulation signature (4 fixed vectors)
u32 mkApp(const std::string &name, u8 lab, const std::vector<u32> &lens, const std::vector<Term *> &args);
extern int g_smt_timeout; extern u64 g_seed; extern std::string g_z3;
bool satisfiable_sim(const std::vector<Term *> &pc, Term *c, bool want, Cex *cex);
