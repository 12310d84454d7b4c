#include "solver.h"
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  c = Z3_mk_context_rc(cfg); Z3_set_error_handler(c, onErr);
  s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s);
}
static void setTimeout(Z3_context c, Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
  Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
}
static bool hasFp(E e, std::unordered_map<E, bool> &memo) {
  if (e->k >= K_FAdd) return true;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = false; for (int i = 0; i < 3 && !r; i++) if (e->o[i]) r = hasFp(e->o[i], memo);
  return memo[e] = r;
}
static bool heavy(E e, std::unordered_map<E, bool> &memo) {  // symbolic multiply/divide
  if ((e->k == K_Mul || (e->k >= K_UDiv && e->k <= K_SRem))) return true;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = false; for (int i = 0; i < 3 && !r; i++) if (e->o[i]) r = heavy(e->o[i], memo);
  return memo[e] = r;
}
int Solver::raw(const std::vector<E> &cs, std::vector<std::pair<u32, u128>> &vals, const std::vector<u32> &syms) {
  auto t0 = std::chrono::steady_clock::now();
  std::unordered_map<E, bool> memo, memo2; bool fp = false, hv = false;
  for (E e : cs) { fp |= hasFp(e, memo); hv |= heavy(e, memo2); }
  int res = -1;
  for (int attempt = 0; attempt < 2 && res < 0; attempt++) {
    Z3_solver q = s; bool own = false;
    if (attempt == 1 || fp || hv) {
      if (attempt == 1 && (fp)) break;
      Z3_symbol lg = Z3_mk_string_symbol(c, fp ? "QF_FPBV" : "QF_BV");
      q = Z3_mk_solver_for_logic(c, lg); Z3_solver_inc_ref(c, q); own = true;
      if (attempt == 1 && hv) { Z3_solver_dec_ref(c, q); break; }
    } else Z3_solver_reset(c, q);
    setTimeout(c, q, (fp || hv) ? timeoutMs * 2 : attempt ? timeoutMs : timeoutMs / 4);
    for (E e : cs) Z3_solver_assert(c, q, z3bool(c, e));
    Z3_lbool r = Z3_solver_check(c, q);
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(c, q); Z3_model_inc_ref(c, m);
      for (u32 i : syms) {
        E se = P.symexpr[i]; Z3_ast v = nullptr;
        u128 val = 0;
        auto get = [&](Z3_ast a) -> u64 { Z3_ast o; if (!Z3_model_eval(c, m, a, true, &o)) return 0; uint64_t x = 0; Z3_inc_ref(c, o); if (!Z3_get_numeral_uint64(c, o, &x)) return 0; return x; };
        (void)v;
        if (se->w <= 64) val = get(z3bv(c, se));
        else val = ((u128)get(z3bv(c, mkExtract(se, 64, se->w - 64))) << 64) | get(z3bv(c, mkExtract(se, 0, 64)));
        vals.push_back({i, val});
      }
      Z3_model_dec_ref(c, m); res = 1;
    } else if (r == Z3_L_FALSE) res = 0;
    if (own) Z3_solver_dec_ref(c, q);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.solverSec += dt; st.maxQuery = std::max(st.maxQuery, dt); st.queries++;
  if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
  return res;
}
int Solver::check(const std::vector<E> &pc, E cond, const Model &base, Model &out) {
  if (isC(cond)) { if (cond->c) { out = base; return 1; } return 0; }
  if (evalE(cond, base)) { st.modelHits++; out = base; return 1; }
  // independence slice
  std::vector<u32> need(*symsOf(cond)); std::vector<char> taken(pc.size(), 0);
  std::vector<E> cs; bool ch = true;
  std::vector<char> inSet(P.symtab.size(), 0); for (u32 x : need) inSet[x] = 1;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!taken[i]) {
      auto *ss = symsOf(pc[i]); bool hit = false; for (u32 x : *ss) if (inSet[x]) { hit = true; break; }
      if (hit) { taken[i] = 1; cs.push_back(pc[i]); for (u32 x : *ss) if (!inSet[x]) { inSet[x] = 1; need.push_back(x); ch = true; } }
    } }
  cs.push_back(cond);
  std::vector<u32> key; for (E e : cs) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  u64 h = 1469598103934665603ull; for (u32 x : key) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
  auto &bucket = cache[h]; CacheEnt *ce = nullptr;
  for (auto &b : bucket) if (b.first == key) ce = &b.second;
  if (ce) st.cacheHits++;
  else {
    CacheEnt n; n.r = raw(cs, n.m, need);
    bucket.push_back({key, n}); ce = &bucket.back().second;
  }
  if (ce->r == 1) { out = base; for (auto &p : ce->m) { if (out.size() <= p.first) out.resize(p.first + 1); out[p.first] = p.second; } }
  return ce->r;
}
