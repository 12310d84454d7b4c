// Hash-consed bit-vector expressions (width 1..128), simplifier, evaluator, z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <deque>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Kind : u8 {
  K_Const, K_Sym,
  K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem, K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
  K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt,
  // floating point over bit patterns (w of the operand is 32 or 64)
  K_FAdd, K_FSub, K_FMul, K_FDiv, K_FSqrt, K_FCmp /*lo=llvm pred 0..15*/, K_FToSI, K_FToUI, K_SIToF, K_UIToF, K_FToF,
  K_FRint /* lo: 0 floor 1 ceil 2 trunc 3 rne */
};

struct Expr {
  u8 k; uint16_t w; u32 lo; u32 id; u32 hash;
  u128 c;
  const Expr *o[3];
  mutable Z3_ast zv, zb;
  mutable u32 gen; mutable u128 val;
  mutable const std::vector<u32> *syms;
};
typedef const Expr *E;

static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) { if (w >= 128) return (s128)v; return (s128)(v << (128 - w)) >> (128 - w); }

struct SymInfo { std::string name; unsigned w; };

struct ExprHash { size_t operator()(E e) const { return e->hash; } };
struct ExprEq { bool operator()(E a, E b) const {
  return a->k == b->k && a->w == b->w && a->lo == b->lo && a->c == b->c && a->o[0] == b->o[0] && a->o[1] == b->o[1] && a->o[2] == b->o[2]; } };

struct ExprPool {
  std::unordered_set<E, ExprHash, ExprEq> tab;
  std::deque<Expr> arena;
  std::vector<SymInfo> symtab;
  std::vector<E> symexpr;
  u32 gen = 0;
  E intern(Kind k, unsigned w, u32 lo, u128 c, E a, E b, E d) {
    Expr t; t.k = k; t.w = w; t.lo = lo; t.c = c; t.o[0] = a; t.o[1] = b; t.o[2] = d;
    u64 h = k * 0x9E3779B97F4A7C15ull ^ (u64)w << 40 ^ (u64)lo << 20;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((u64)c); mix((u64)(c >> 64)); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
    t.hash = (u32)h; t.zv = t.zb = nullptr; t.gen = 0; t.val = 0; t.syms = nullptr;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    t.id = arena.size();
    arena.push_back(t);
    E e = &arena.back(); tab.insert(e); return e;
  }
};
extern ExprPool P;

static inline E cst(u128 v, unsigned w) { return P.intern(K_Const, w, 0, v & mask(w), 0, 0, 0); }
static inline bool isC(E e) { return e->k == K_Const; }
static inline bool isC(E e, u128 v) { return e->k == K_Const && e->c == (v & mask(e->w)); }
static inline E tru() { static E t = cst(1, 1); return t; }
static inline E fls() { static E t = cst(0, 1); return t; }
static inline E newSym(const std::string &name, unsigned w) {
  u32 i = P.symtab.size(); P.symtab.push_back({name, w});
  E e = P.intern(K_Sym, w, i, 0, 0, 0, 0); P.symexpr.push_back(e); return e;
}

E mkBin(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned lo, unsigned w);
E mkZ(E e, unsigned w);
E mkS(E e, unsigned w);
E mkFp(Kind k, unsigned w, u32 aux, E a, E b = nullptr);
static inline E mkAdd(E a, E b) { return mkBin(K_Add, a, b); }
static inline E mkEq(E a, E b) { return mkBin(K_Eq, a, b); }
static inline E mkNot(E a) { return mkBin(K_Xor, a, tru()); }
static inline E mkAnd(E a, E b) { return mkBin(K_And, a, b); }
static inline E mkOr(E a, E b) { return mkBin(K_Or, a, b); }

typedef std::vector<u128> Model;  // by symbol index; missing = 0
u128 evalE(E e, const Model &m);
const std::vector<u32> *symsOf(E e);
unsigned trailingZeros(E e);

Z3_ast z3bv(Z3_context c, E e);
Z3_ast z3bool(Z3_context c, E e);
std::string strE(E e, int depth = 6);
