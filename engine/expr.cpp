#include "expr.h"
ExprPool P;

static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

static u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = mask(w);
  switch (k) {
    case K_Add: return (a + b) & m;
    case K_Sub: return (a - b) & m;
    case K_Mul: return (a * b) & m;
    case K_UDiv: return b ? a / b : m;
    case K_SDiv: { s128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case K_URem: return b ? a % b : a;
    case K_SRem: { s128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_And: return a & b;
    case K_Or: return a | b;
    case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K_AShr: { s128 x = sx(a, w); return (u128)(x >> (b >= w ? (w - 1) : (unsigned)b)) & m; }
    case K_Eq: return a == b;
    case K_Ult: return a < b;
    case K_Ule: return a <= b;
    case K_Slt: return sx(a, w) < sx(b, w);
    case K_Sle: return sx(a, w) <= sx(b, w);
    default: return 0;
  }
}
static bool fcmpFold(u32 p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  bool eq = !un && a == b, gt = !un && a > b, lt = !un && a < b;
  // llvm FCmp predicates: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
  return ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un);
}
static u128 foldFp(Kind k, unsigned w, u32 aux, E ea, E eb, u128 a, u128 b) {
  unsigned ow = ea->w;
  auto in = [&](u128 v) { return ow == 64 ? asD(v) : (double)asF(v); };
  auto out = [&](double d) { return w == 64 ? fromD(d) : fromF((float)d); };
  switch (k) {
    case K_FAdd: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case K_FSub: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case K_FMul: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case K_FDiv: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case K_FSqrt: return w == 64 ? fromD(std::sqrt(asD(a))) : fromF(std::sqrt(asF(a)));
    case K_FCmp: return fcmpFold(aux, in(a), in(b));
    case K_FToF: return out(in(a));
    case K_FRint: { double d = in(a); return out(aux == 0 ? std::floor(d) : aux == 1 ? std::ceil(d) : aux == 2 ? std::trunc(d) : std::nearbyint(d)); }
    case K_FToSI: { double d = in(a); if (std::isnan(d) || d >= std::ldexp(1.0, w - 1) || d < -std::ldexp(1.0, w - 1)) return ((u128)1 << (w - 1)); return (u128)(s128)d & mask(w); }
    case K_FToUI: { double d = in(a); if (std::isnan(d) || d >= std::ldexp(1.0, w) || d <= -1.0) { return w == 64 ? ((u128)1 << 63) : 0; } return (u128)d & mask(w); }
    case K_SIToF: { s128 v = sx(a, ow); return w == 64 ? fromD((double)v) : fromF((float)v); }
    case K_UIToF: return w == 64 ? fromD((double)a) : fromF((float)a);
    default: return 0;
  }
}

unsigned trailingZeros(E e) {
  switch (e->k) {
    case K_Const: { if (!e->c) return e->w; unsigned n = 0; u128 v = e->c; while (!(v & 1)) { v >>= 1; n++; } return n; }
    case K_Shl: if (isC(e->o[1])) return std::min<unsigned>(e->w, (unsigned)e->o[1]->c + trailingZeros(e->o[0])); return 0;
    case K_Mul: return std::min<unsigned>(e->w, trailingZeros(e->o[0]) + trailingZeros(e->o[1]));
    case K_Add: case K_Sub: case K_Or: case K_Xor: return std::min(trailingZeros(e->o[0]), trailingZeros(e->o[1]));
    case K_And: return std::max(trailingZeros(e->o[0]), trailingZeros(e->o[1]));
    case K_Ite: return std::min(trailingZeros(e->o[1]), trailingZeros(e->o[2]));
    case K_ZExt: { unsigned t = trailingZeros(e->o[0]); return t == e->o[0]->w ? e->w : t; }
    case K_SExt: { unsigned t = trailingZeros(e->o[0]); return t == e->o[0]->w ? e->w : t; }
    case K_Concat: { unsigned t = trailingZeros(e->o[1]); return t == e->o[1]->w ? t + trailingZeros(e->o[0]) : t; }
    default: return 0;
  }
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(a, 1)) return mkOr(c, b);
    if (isC(a, 0)) return mkAnd(mkNot(c), b);
    if (isC(b, 0)) return mkAnd(c, a);
    if (isC(b, 1)) return mkOr(mkNot(c), a);
  }
  if (c->k == K_Xor && isC(c->o[1], 1)) return mkIte(c->o[0], b, a);
  if (b->k == K_Ite && b->o[0] == c) b = b->o[2];
  if (a->k == K_Ite && a->o[0] == c) a = a->o[1];
  if (a == b) return a;
  return P.intern(K_Ite, a->w, 0, 0, c, a, b);
}
E mkExtract(E e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->k) {
    case K_Const: return cst(e->c >> lo, w);
    case K_Extract: return mkExtract(e->o[0], lo + e->lo, w);
    case K_Concat: {
      unsigned lw = e->o[1]->w;
      if (lo + w <= lw) return mkExtract(e->o[1], lo, w);
      if (lo >= lw) return mkExtract(e->o[0], lo - lw, w);
      return mkConcat(mkExtract(e->o[0], 0, lo + w - lw), mkExtract(e->o[1], lo, lw - lo));
    }
    case K_ZExt: {
      unsigned ow = e->o[0]->w;
      if (lo + w <= ow) return mkExtract(e->o[0], lo, w);
      if (lo >= ow) return cst(0, w);
      return mkZ(mkExtract(e->o[0], lo, ow - lo), w);
    }
    case K_SExt: {
      unsigned ow = e->o[0]->w;
      if (lo + w <= ow) return mkExtract(e->o[0], lo, w);
      break;
    }
    case K_Ite:
      if (isC(e->o[1]) || isC(e->o[2])) return mkIte(e->o[0], mkExtract(e->o[1], lo, w), mkExtract(e->o[2], lo, w));
      break;
    case K_And: case K_Or: case K_Xor:
      if (isC(e->o[1]) || isC(e->o[0])) return mkBin((Kind)e->k, mkExtract(e->o[0], lo, w), mkExtract(e->o[1], lo, w));
      break;
    case K_Add: case K_Sub: case K_Mul:
      if (lo == 0) return mkBin((Kind)e->k, mkExtract(e->o[0], 0, w), mkExtract(e->o[1], 0, w));
      break;
    default: break;
  }
  return P.intern(K_Extract, w, lo, 0, e, 0, 0);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
  if (isC(hi, 0)) return mkZ(lo, w);
  if (hi->k == K_Extract && lo->k == K_Extract && hi->o[0] == lo->o[0] && hi->lo == lo->lo + lo->w)
    return mkExtract(hi->o[0], lo->lo, w);
  if (hi->k == K_Extract && lo == hi->o[0] && hi->lo == lo->w) return mkExtract(lo, 0, w);
  // ite(c,a,b) ++ ite(c,x,y)
  if (hi->k == K_Ite && lo->k == K_Ite && hi->o[0] == lo->o[0])
    return mkIte(hi->o[0], mkConcat(hi->o[1], lo->o[1]), mkConcat(hi->o[2], lo->o[2]));
  if (hi->k == K_Concat && hi->o[1]->k == K_Extract && lo->k == K_Extract && hi->o[1]->o[0] == lo->o[0] && hi->o[1]->lo == lo->lo + lo->w)
    return mkConcat(hi->o[0], mkExtract(lo->o[0], lo->lo, lo->w + hi->o[1]->w));
  if (hi->k == K_ZExt && hi->o[0]->k != K_Const) return mkZ(mkConcat(hi->o[0], lo), w);
  return P.intern(K_Concat, w, 0, 0, hi, lo, 0);
}
E mkZ(E e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (isC(e)) return cst(e->c, w);
  if (e->k == K_ZExt) return mkZ(e->o[0], w);
  if (e->k == K_Ite && isC(e->o[1]) && isC(e->o[2])) return mkIte(e->o[0], mkZ(e->o[1], w), mkZ(e->o[2], w));
  return P.intern(K_ZExt, w, 0, 0, e, 0, 0);
}
E mkS(E e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (isC(e)) return cst((u128)sx(e->c, e->w), w);
  if (e->k == K_ZExt) return mkZ(e->o[0], w);
  if (e->k == K_SExt) return mkS(e->o[0], w);
  if (e->k == K_Ite && isC(e->o[1]) && isC(e->o[2])) return mkIte(e->o[0], mkS(e->o[1], w), mkS(e->o[2], w));
  return P.intern(K_SExt, w, 0, 0, e, 0, 0);
}
E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  bool cmp = k >= K_Eq && k <= K_Sle;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return cst(foldBin(k, a->c, b->c, w), rw);
  bool comm = k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  switch (k) {
    case K_Add:
      if (isC(b, 0)) return a;
      if (isC(b) && a->k == K_Add && isC(a->o[1])) return mkBin(K_Add, a->o[0], cst(a->o[1]->c + b->c, w));
      if (isC(b) && a->k == K_Ite && isC(a->o[1]) && isC(a->o[2])) return mkIte(a->o[0], mkBin(k, a->o[1], b), mkBin(k, a->o[2], b));
      if (w == 1) return mkBin(K_Xor, a, b);
      if (!isC(b) && b->k == K_Add && isC(b->o[1])) return mkBin(K_Add, mkBin(K_Add, a, b->o[0]), b->o[1]);
      if (!isC(b) && a->k == K_Add && isC(a->o[1])) return mkBin(K_Add, mkBin(K_Add, a->o[0], b), a->o[1]);
      if (a->k == K_Sub && a->o[1] == b) return a->o[0];
      if (b->k == K_Sub && b->o[1] == a) return b->o[0];
      break;
    case K_Sub:
      if (a == b) return cst(0, w);
      if (isC(b)) return mkBin(K_Add, a, cst(-b->c, w));
      if (a->k == K_Add && a->o[0] == b) return a->o[1];
      if (a->k == K_Add && a->o[1] == b) return a->o[0];
      if (a->k == K_Add && isC(a->o[1]) && b->k == K_Add && isC(b->o[1])) return mkBin(K_Add, mkBin(K_Sub, a->o[0], b->o[0]), cst(a->o[1]->c - b->o[1]->c, w));
      if (a->k == K_Add && isC(a->o[1])) return mkBin(K_Add, mkBin(K_Sub, a->o[0], b), a->o[1]);
      if (b->k == K_Add && isC(b->o[1])) return mkBin(K_Add, mkBin(K_Sub, a, b->o[0]), cst(-b->o[1]->c, w));
      if (w == 1) return mkBin(K_Xor, a, b);
      break;
    case K_Mul:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && (b->c & (b->c - 1)) == 0) { unsigned n = 0; u128 v = b->c; while (!(v & 1)) { v >>= 1; n++; } return mkBin(K_Shl, a, cst(n, w)); }
      break;
    case K_UDiv: if (isC(b, 1)) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned n = 0; u128 v = b->c; while (!(v & 1)) { v >>= 1; n++; } return mkBin(K_LShr, a, cst(n, w)); }
      break;
    case K_SDiv: if (isC(b, 1)) return a; break;
    case K_URem: if (isC(b, 1)) return cst(0, w);
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_And, a, cst(b->c - 1, w));
      break;
    case K_And:
      if (isC(b, 0)) return b;
      if (isC(b) && b->c == mask(w)) return a;
      if (a == b) return a;
      if (w == 1 && ((a->k == K_Xor && isC(a->o[1], 1) && a->o[0] == b) || (b->k == K_Xor && isC(b->o[1], 1) && b->o[0] == a))) return fls();
      if (isC(b) && a->k == K_And && isC(a->o[1])) return mkBin(K_And, a->o[0], cst(a->o[1]->c & b->c, w));
      if (isC(b) && a->k == K_ZExt && (b->c & mask(a->o[0]->w)) == mask(a->o[0]->w)) return a;
      if (isC(b) && w > 1) { u128 v = b->c; unsigned n = 0; while (v & 1) { v >>= 1; n++; } if (v == 0 && n < w) return mkZ(mkExtract(a, 0, n), w); }
      break;
    case K_Or:
      if (isC(b, 0)) return a;
      if (isC(b) && b->c == mask(w)) return b;
      if (a == b) return a;
      if (w == 1 && ((a->k == K_Xor && isC(a->o[1], 1) && a->o[0] == b) || (b->k == K_Xor && isC(b->o[1], 1) && b->o[0] == a))) return tru();
      // zext(lo) | (zext(hi) << n)  -> concat
      { E x = a, y = b; for (int t = 0; t < 2; t++, std::swap(x, y))
          if (x->k == K_Shl && isC(x->o[1]) && y->k == K_ZExt && y->o[0]->w <= x->o[1]->c) {
            unsigned n = (unsigned)x->o[1]->c;
            if (n < w) return mkConcat(mkExtract(x->o[0], 0, w - n), mkZ(y->o[0], n));
          } }
      break;
    case K_Xor:
      if (isC(b, 0)) return a;
      if (a == b) return cst(0, w);
      if (isC(b) && a->k == K_Xor && isC(a->o[1])) return mkBin(K_Xor, a->o[0], cst(a->o[1]->c ^ b->c, w));
      if (w == 1 && isC(b, 1)) {
        if (a->k == K_Ult) return mkBin(K_Ule, a->o[1], a->o[0]);
        if (a->k == K_Ule) return mkBin(K_Ult, a->o[1], a->o[0]);
        if (a->k == K_Slt) return mkBin(K_Sle, a->o[1], a->o[0]);
        if (a->k == K_Sle) return mkBin(K_Slt, a->o[1], a->o[0]);
      }
      break;
    case K_Shl: case K_LShr: case K_AShr:
      if (isC(b, 0)) return a;
      if (isC(b)) {
        unsigned n = b->c >= w ? w : (unsigned)b->c;
        if (k == K_LShr) { if (n == w) return cst(0, w); return mkZ(mkExtract(a, n, w - n), w); }
        if (k == K_Shl && n == w) return cst(0, w);
        if (k == K_Shl && a->k == K_Shl && isC(a->o[1])) return mkBin(K_Shl, a->o[0], cst(std::min<u128>(w, a->o[1]->c + n), w));
      }
      break;
    case K_Eq:
      if (a == b) return tru();
      if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
      if (isC(b)) {
        if (a->k == K_ZExt) { if (b->c >> a->o[0]->w) return fls(); return mkBin(K_Eq, a->o[0], cst(b->c, a->o[0]->w)); }
        if (a->k == K_SExt) { unsigned ow = a->o[0]->w; if (((u128)sx(b->c & mask(ow), ow) & mask(w)) != b->c) return fls(); return mkBin(K_Eq, a->o[0], cst(b->c, ow)); }
        if (a->k == K_Ite) {
          E t = a->o[1], f = a->o[2];
          if (isC(t) || isC(f)) return mkIte(a->o[0], mkBin(K_Eq, t, b), mkBin(K_Eq, f, b));
        }
        if (a->k == K_Add && isC(a->o[1])) return mkBin(K_Eq, a->o[0], cst(b->c - a->o[1]->c, w));
        if (a->k == K_Xor && isC(a->o[1])) return mkBin(K_Eq, a->o[0], cst(b->c ^ a->o[1]->c, w));
        if (a->k == K_Concat) return mkAnd(mkBin(K_Eq, a->o[0], cst(b->c >> a->o[1]->w, a->o[0]->w)), mkBin(K_Eq, a->o[1], cst(b->c, a->o[1]->w)));
      }
      if (a->k == K_ZExt && b->k == K_ZExt && a->o[0]->w == b->o[0]->w) return mkBin(K_Eq, a->o[0], b->o[0]);
      if (a->k == K_Add && isC(a->o[1]) && b == a->o[0]) return fls();
      if (b->k == K_Add && isC(b->o[1]) && a == b->o[0]) return fls();
      if (a->k == K_Add && b->k == K_Add && isC(a->o[1]) && isC(b->o[1]) && a->o[0] == b->o[0]) return fls();
      break;
    case K_Ult:
      if (a == b) return fls();
      if (isC(b, 0)) return fls();
      if (isC(b, 1)) return mkEq(a, cst(0, w));
      if (isC(a, 0)) return mkNot(mkEq(b, cst(0, w)));
      if (isC(a) && a->c == mask(w)) return fls();
      if (isC(b) && a->k == K_ZExt) { unsigned ow = a->o[0]->w; if (b->c >> ow) return tru(); return mkBin(K_Ult, a->o[0], cst(b->c, ow)); }
      if (isC(a) && b->k == K_ZExt) { unsigned ow = b->o[0]->w; if (a->c >> ow) return fls(); return mkBin(K_Ult, cst(a->c, ow), b->o[0]); }
      if (a->k == K_ZExt && b->k == K_ZExt && a->o[0]->w == b->o[0]->w) return mkBin(K_Ult, a->o[0], b->o[0]);
      if (isC(b) && a->k == K_Ite && isC(a->o[1]) && isC(a->o[2])) return mkIte(a->o[0], mkBin(k, a->o[1], b), mkBin(k, a->o[2], b));
      break;
    case K_Ule:
      if (a == b) return tru();
      if (isC(a, 0)) return tru();
      if (isC(b) && b->c == mask(w)) return tru();
      if (isC(b, 0)) return mkEq(a, b);
      if (isC(b) && a->k == K_ZExt) { unsigned ow = a->o[0]->w; if (b->c >> ow) return tru(); return mkBin(K_Ule, a->o[0], cst(b->c, ow)); }
      if (isC(a) && b->k == K_ZExt) { unsigned ow = b->o[0]->w; if (a->c >> ow) return fls(); return mkBin(K_Ule, cst(a->c, ow), b->o[0]); }
      if (a->k == K_ZExt && b->k == K_ZExt && a->o[0]->w == b->o[0]->w) return mkBin(K_Ule, a->o[0], b->o[0]);
      break;
    case K_Slt:
      if (a == b) return fls();
      if (isC(b) && !(b->c >> (w - 1)) && a->k == K_ZExt) return mkBin(K_Ult, a, b);
      if (isC(a) && !(a->c >> (w - 1)) && b->k == K_ZExt) return mkBin(K_Ult, a, b);
      if (isC(b, 0) && a->k == K_ZExt) return fls();
      if (a->k == K_ZExt && b->k == K_ZExt) return mkBin(K_Ult, a, b);
      break;
    case K_Sle:
      if (a == b) return tru();
      if (isC(b) && !(b->c >> (w - 1)) && a->k == K_ZExt) return mkBin(K_Ule, a, b);
      if (isC(a) && !(a->c >> (w - 1)) && b->k == K_ZExt) return mkBin(K_Ule, a, b);
      if (a->k == K_ZExt && b->k == K_ZExt) return mkBin(K_Ule, a, b);
      break;
    default: break;
  }
  return P.intern(k, rw, 0, 0, a, b, 0);
}
E mkFp(Kind k, unsigned w, u32 aux, E a, E b) {
  if (isC(a) && (!b || isC(b))) return cst(foldFp(k, w, aux, a, b, a->c, b ? b->c : 0), w);
  if (k == K_FToF && a->w == w) return a;
  return P.intern(k, w, aux, 0, a, b, 0);
}

static u128 evalRec(E e, const Model &m) {
  if (e->k == K_Const) return e->c;
  if (e->gen == P.gen) return e->val;
  u128 v = 0;
  switch (e->k) {
    case K_Sym: v = e->lo < m.size() ? m[e->lo] & mask(e->w) : 0; break;
    case K_Ite: v = evalRec(e->o[0], m) ? evalRec(e->o[1], m) : evalRec(e->o[2], m); break;
    case K_Concat: v = (evalRec(e->o[0], m) << e->o[1]->w) | evalRec(e->o[1], m); break;
    case K_Extract: v = (evalRec(e->o[0], m) >> e->lo) & mask(e->w); break;
    case K_ZExt: v = evalRec(e->o[0], m); break;
    case K_SExt: v = (u128)sx(evalRec(e->o[0], m), e->o[0]->w) & mask(e->w); break;
    default:
      if (e->k >= K_FAdd) { u128 a = evalRec(e->o[0], m), b = e->o[1] ? evalRec(e->o[1], m) : 0; v = foldFp((Kind)e->k, e->w, e->lo, e->o[0], e->o[1], a, b); }
      else { u128 a = evalRec(e->o[0], m), b = evalRec(e->o[1], m); v = foldBin((Kind)e->k, a, b, e->o[0]->w); }
  }
  e->gen = P.gen; e->val = v; return v;
}
u128 evalE(E e, const Model &m) { if (e->k == K_Const) return e->c; P.gen++; return evalRec(e, m); }

static std::vector<std::vector<u32> *> symPool;
static std::unordered_map<std::string, const std::vector<u32> *> symSets;
const std::vector<u32> *symsOf(E e) {
  if (e->syms) return e->syms;
  std::vector<u32> r;
  if (e->k == K_Sym) r.push_back(e->lo);
  else for (int i = 0; i < 3; i++) if (e->o[i]) {
    auto *s = symsOf(e->o[i]);
    if (r.empty()) r = *s; else if (!s->empty()) { std::vector<u32> t; std::set_union(r.begin(), r.end(), s->begin(), s->end(), std::back_inserter(t)); r.swap(t); }
  }
  std::string key((const char *)r.data(), r.size() * 4);
  auto it = symSets.find(key);
  if (it == symSets.end()) it = symSets.emplace(key, new std::vector<u32>(r)).first;
  return e->syms = it->second;
}

static Z3_ast keep(Z3_context c, Z3_ast a) { Z3_inc_ref(c, a); return a; }
static Z3_sort fpSort(Z3_context c, unsigned w) { static Z3_sort s64 = nullptr, s32 = nullptr; if (!s64) { s64 = Z3_mk_fpa_sort_64(c); Z3_inc_ref(c, Z3_sort_to_ast(c, s64)); s32 = Z3_mk_fpa_sort_32(c); Z3_inc_ref(c, Z3_sort_to_ast(c, s32)); } return w == 64 ? s64 : s32; }
#define KP(x) keep(c, x)
static Z3_sort KS_(Z3_context c, Z3_sort x) { Z3_inc_ref(c, Z3_sort_to_ast(c, x)); return x; }
#define KS(x) KS_(c, x)
static Z3_ast toFp(Z3_context c, E e) { Z3_ast a = z3bv(c, e); return KP(Z3_mk_fpa_to_fp_bv(c, a, fpSort(c, e->w))); }

Z3_ast z3bool(Z3_context c, E e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  auto B = [&](int i) { return z3bv(c, e->o[i]); };
  switch (e->k) {
    case K_Const: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case K_And: { Z3_ast a[2] = {z3bool(c, e->o[0]), z3bool(c, e->o[1])}; r = Z3_mk_and(c, 2, a); break; }
    case K_Or: { Z3_ast a[2] = {z3bool(c, e->o[0]), z3bool(c, e->o[1])}; r = Z3_mk_or(c, 2, a); break; }
    case K_Xor: if (isC(e->o[1], 1)) r = Z3_mk_not(c, z3bool(c, e->o[0])); else r = Z3_mk_xor(c, z3bool(c, e->o[0]), z3bool(c, e->o[1])); break;
    case K_Eq: if (e->o[0]->w == 1) r = Z3_mk_iff(c, z3bool(c, e->o[0]), z3bool(c, e->o[1])); else r = Z3_mk_eq(c, B(0), B(1)); break;
    case K_Ult: r = Z3_mk_bvult(c, B(0), B(1)); break;
    case K_Ule: r = Z3_mk_bvule(c, B(0), B(1)); break;
    case K_Slt: r = Z3_mk_bvslt(c, B(0), B(1)); break;
    case K_Sle: r = Z3_mk_bvsle(c, B(0), B(1)); break;
    case K_Ite: r = Z3_mk_ite(c, z3bool(c, e->o[0]), z3bool(c, e->o[1]), z3bool(c, e->o[2])); break;
    case K_FCmp: {
      Z3_ast a = toFp(c, e->o[0]), b = toFp(c, e->o[1]);
      std::vector<Z3_ast> v;
      if (e->lo & 1) v.push_back(KP(Z3_mk_fpa_eq(c, a, b)));
      if (e->lo & 2) v.push_back(KP(Z3_mk_fpa_gt(c, a, b)));
      if (e->lo & 4) v.push_back(KP(Z3_mk_fpa_lt(c, a, b)));
      if (e->lo & 8) { v.push_back(KP(Z3_mk_fpa_is_nan(c, a))); v.push_back(KP(Z3_mk_fpa_is_nan(c, b))); }
      r = v.empty() ? Z3_mk_false(c) : Z3_mk_or(c, v.size(), v.data());
      break;
    }
    default: r = Z3_mk_eq(c, z3bv(c, e), KP(Z3_mk_int(c, 1, KS(Z3_mk_bv_sort(c, 1)))));
  }
  return e->zb = keep(c, r);
}
Z3_ast z3bv(Z3_context c, E e) {
  if (e->zv) return e->zv;
  Z3_ast r;
  auto B = [&](int i) { return z3bv(c, e->o[i]); };
  switch (e->k) {
    case K_Const: {
      if (e->w <= 64) r = KP(Z3_mk_unsigned_int64(c, (u64)e->c, KS(Z3_mk_bv_sort(c, e->w))));
      else r = Z3_mk_concat(c, KP(Z3_mk_unsigned_int64(c, (u64)(e->c >> 64), KS(Z3_mk_bv_sort(c, e->w - 64)))), KP(Z3_mk_unsigned_int64(c, (u64)e->c, KS(Z3_mk_bv_sort(c, 64)))));
      break;
    }
    case K_Sym: r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("s" + std::to_string(e->lo)).c_str()), KS(Z3_mk_bv_sort(c, e->w))); break;
    case K_Add: r = Z3_mk_bvadd(c, B(0), B(1)); break;
    case K_Sub: r = Z3_mk_bvsub(c, B(0), B(1)); break;
    case K_Mul: r = Z3_mk_bvmul(c, B(0), B(1)); break;
    case K_UDiv: r = Z3_mk_bvudiv(c, B(0), B(1)); break;
    case K_SDiv: r = Z3_mk_bvsdiv(c, B(0), B(1)); break;
    case K_URem: r = Z3_mk_bvurem(c, B(0), B(1)); break;
    case K_SRem: r = Z3_mk_bvsrem(c, B(0), B(1)); break;
    case K_And: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(c, B(0), B(1)); break;
    case K_Or: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(c, B(0), B(1)); break;
    case K_Xor: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(c, B(0), B(1)); break;
    case K_Shl: r = Z3_mk_bvshl(c, B(0), B(1)); break;
    case K_LShr: r = Z3_mk_bvlshr(c, B(0), B(1)); break;
    case K_AShr: r = Z3_mk_bvashr(c, B(0), B(1)); break;
    case K_Ite: r = Z3_mk_ite(c, z3bool(c, e->o[0]), B(1), B(2)); break;
    case K_Concat: r = Z3_mk_concat(c, B(0), B(1)); break;
    case K_Extract: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, B(0)); break;
    case K_ZExt: r = Z3_mk_zero_ext(c, e->w - e->o[0]->w, B(0)); break;
    case K_SExt: r = Z3_mk_sign_ext(c, e->w - e->o[0]->w, B(0)); break;
    case K_FAdd: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_add(c, KP(Z3_mk_fpa_rne(c)), toFp(c, e->o[0]), toFp(c, e->o[1])))); break;
    case K_FSub: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_sub(c, KP(Z3_mk_fpa_rne(c)), toFp(c, e->o[0]), toFp(c, e->o[1])))); break;
    case K_FMul: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_mul(c, KP(Z3_mk_fpa_rne(c)), toFp(c, e->o[0]), toFp(c, e->o[1])))); break;
    case K_FDiv: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_div(c, KP(Z3_mk_fpa_rne(c)), toFp(c, e->o[0]), toFp(c, e->o[1])))); break;
    case K_FSqrt: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_sqrt(c, KP(Z3_mk_fpa_rne(c)), toFp(c, e->o[0])))); break;
    case K_FToF: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_to_fp_float(c, KP(Z3_mk_fpa_rne(c)), toFp(c, e->o[0]), fpSort(c, e->w)))); break;
    case K_FRint: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_round_to_integral(c, e->lo == 0 ? KP(Z3_mk_fpa_rtn(c)) : e->lo == 1 ? KP(Z3_mk_fpa_rtp(c)) : e->lo == 2 ? KP(Z3_mk_fpa_rtz(c)) : KP(Z3_mk_fpa_rne(c)), toFp(c, e->o[0])))); break;
    case K_FToSI: r = Z3_mk_fpa_to_sbv(c, KP(Z3_mk_fpa_rtz(c)), toFp(c, e->o[0]), e->w); break;
    case K_FToUI: r = Z3_mk_fpa_to_ubv(c, KP(Z3_mk_fpa_rtz(c)), toFp(c, e->o[0]), e->w); break;
    case K_SIToF: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_to_fp_signed(c, KP(Z3_mk_fpa_rne(c)), B(0), fpSort(c, e->w)))); break;
    case K_UIToF: r = Z3_mk_fpa_to_ieee_bv(c, KP(Z3_mk_fpa_to_fp_unsigned(c, KP(Z3_mk_fpa_rne(c)), B(0), fpSort(c, e->w)))); break;
    default:
    viaBool:
      r = Z3_mk_ite(c, z3bool(c, e), KP(Z3_mk_int(c, 1, KS(Z3_mk_bv_sort(c, 1)))), KP(Z3_mk_int(c, 0, KS(Z3_mk_bv_sort(c, 1)))));
  }
  return e->zv = keep(c, r);
}

std::string strE(E e, int d) {
  static const char *nm[] = {"c", "s", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "fcmp", "ftosi", "ftoui", "sitof", "uitof", "ftof", "frint"};
  if (e->k == K_Const) { char b[40]; snprintf(b, 40, "0x%llx", (unsigned long long)e->c); return b; }
  if (e->k == K_Sym) return P.symtab[e->lo].name + "#" + std::to_string(e->lo);
  if (!d) return "..";
  std::string r = std::string("(") + nm[e->k];
  if (e->k == K_Extract || e->k == K_FCmp) r += "@" + std::to_string(e->lo);
  for (int i = 0; i < 3; i++) if (e->o[i]) r += " " + strE(e->o[i], d - 1);
  return r + ")";
}
