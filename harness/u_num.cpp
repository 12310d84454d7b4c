// U05: numeric ranges, U06: statistics
//@ flags quick="-DDMAX=5 -DSLEN=3" thorough="-DDMAX=9 -DSLEN=4"
//@ entry u05_int prop=U05 reach=up,down,single,done bound="range over i32, u32, i64: any start value (within 2^15), end point up to DMAX (5/9) away in both directions, steps 1..4"
//@ entry u05_mixed prop=U05 reach=up,down,single,done bound="as u05_int over i16, i32 with i64, and u8 with u64"
//@ entry u05_small prop=U05 reach=up,down,done bound="range over u8, i8, i16 and u16: the three lowest to the three highest values of the type, both directions, steps 1, 2, 100, 127 and 255 (times 128 for the 16 bit types)"
//@ entry u05_fp prop=U05 reach=up,down,single,done bound="range over double and float: start k/4 for every 5-bit k, end point up to DMAX steps of 1/4 away, steps 1/4..1"
//@ entry u06_stream prop=U06 reach=mean,dev,reset,done bound="streamingstat over i32, i64, double and float: 1 or 2 values -8..7 or 4 values out of {-3, 0, 1, 7}, reset in between, queries between updates"
//@ entry u06_mean prop=U06 reach=done bound="mean over containers and arrays of 1..SLEN (3/4) values of i32 (8 bit, signed), double; results i32, i64; double and float values and results -8..7 or (4 values) {-3, 0, 1, 7}"
//@ entry u06_dev prop=U06 reach=done bound="standardDeviation over containers and arrays of 1 or 2 values -8..7 or 4 values out of {-3, 0, 1, 7}, double or float, given mean"
//@ entry u06_scale prop=U06 reach=zero_one,min_max,sigma,range,z,done bound="scalings over containers of 2..SLEN ints (8 bit, signed), not all equal"
//@ entry u06_scale_fp prop=U06 reach=zero_one,min_max,range,done bound="scalings over containers of 2 or 3 double or float values -5..2, not all equal"
#include <limits>
#include "symx.h"
#include <vector>
#include <list>
#include <cstdint>
#include <cmath>
#include <raftutility>
#include <raftstat>
#include <raftinc/stat.tcc>
#ifndef DMAX
#define DMAX 5
#define SLEN 3
#endif
typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
// ---- U05
template <class T, class V> static void isRange(const V &r, T a, T b, T step, unsigned dist, unsigned k) {
  // dist: |b - a| in units, step: k units
  CHECK(r.size() == dist / k + 1, "the documented number of values"); if (r.empty()) return; CHECK(r[0] == a, "the first value first"); bool up = a < b; T x = a; for (unsigned i = 0; i < r.size(); i++) { CHECK(r[i] == x, "values spaced by the step"); CHECK(up ? r[i] <= b : r[i] >= b, "none beyond the end point"); if (i + 1 < r.size()) x = up ? T(x + step) : T(x - step); } symx_reach(a == b ? "single" : up ? "up" : "down"); symx_reach("done");
}
template <class A, class B> static void ints(i64 lo, i64 hi, const char *n) {
  using C = typename std::common_type<A, B>::type; i64 a0 = (i64)sym_range(n, 0, (u64)(hi - lo)) + lo; unsigned d = sym_pick("d", 0, DMAX), k = sym_pick("k", 0, 4); bool down = sym_pick("down", 0, 1); i64 b0 = down ? a0 - d : a0 + d; symx_assume(b0 >= lo); A a = (A)a0; B b = (B)b0;
  if (k == 0) isRange<C>(raft::range(a, b), (C)a, (C)b, (C)1, d, 1); else isRange<C>(raft::range(a, b, (C)k), (C)a, (C)b, (C)k, d, k);
}
SYMX_ENTRY(u05_int) { switch (sym_pick("type", 0, 2)) { case 0: ints<int, int>(-(1 << 15), 1 << 15, "a"); break; case 1: ints<u32, u32>(0, 1u << 15, "a"); break; default: ints<i64, i64>(-(1ll << 15), 1ll << 15, "a"); } }
SYMX_ENTRY(u05_mixed) { switch (sym_pick("type", 0, 2)) { case 0: ints<int16_t, int16_t>(-30000, 30000, "a"); break; case 1: ints<int, i64>(-(1 << 15), 1 << 15, "a"); break; default: ints<unsigned char, u64>(0, 200, "a"); } }
template <class A> static void ends() {
  i64 lo = std::numeric_limits<A>::min() + (i64)sym_pick("lo", 0, 2), hi = std::numeric_limits<A>::max() - (i64)sym_pick("hi", 0, 2); bool down = sym_pick("down", 0, 1); static const unsigned st[] = {1, 2, 100, 127, 255}; unsigned k = st[sym_pick("k", 0, std::is_signed<A>::value ? 3 : 4)] * (sizeof(A) == 1 ? 1 : 128);
  A a = (A)(down ? hi : lo), b = (A)(down ? lo : hi); auto r = raft::range(a, b, (A)k); unsigned n = (unsigned)((hi - lo) / k + 1); CHECK(r.size() == n, "the documented number of values"); for (unsigned i = 0; i < n; i++) CHECK((i64)r[i] == (down ? hi - (i64)i * k : lo + (i64)i * k), "values spaced by the step"); symx_reach(down ? "down" : "up"); symx_reach("done");
}
SYMX_ENTRY(u05_small) { switch (sym_pick("type", 0, 3)) { case 0: ends<unsigned char>(); break; case 1: ends<signed char>(); break; case 2: ends<int16_t>(); break; default: ends<uint16_t>(); } }
template <class T> static void fps() { int a4 = (int)sym_pick("a", 0, 31) - 16; int d = (int)sym_pick("d", 0, DMAX), k = (int)sym_pick("k", 1, 4); bool down = sym_pick("down", 0, 1); T a = (T)a4 / (T)4, b = (T)(down ? a4 - d : a4 + d) / (T)4, s = (T)k / (T)4; isRange<T>(raft::range(a, b, s), a, b, s, d, k); }
SYMX_ENTRY(u05_fp) { if (sym_pick("type", 0, 1)) fps<double>(); else fps<float>(); }
// ---- U06
static int few(unsigned n) { static const int t[4] = {-3, 0, 1, 7}; return n < 4 ? (int)sym_pick("v", 0, 15) - 8 : t[sym_pick("v", 0, 3)]; }
static int small(int bits) { int v = (int)sym_u8("v"); symx_assume(v < (1 << bits)); return v - (1 << (bits - 1)); }
template <class T, class F> static void streaming() {
  raft::streamingstat<T> s; int v[4]; unsigned n = 1u << sym_pick("n", 0, 2); int sum = 0, sq = 0; bool again = sym_pick("again", 0, 1), ask = sym_pick("ask", 0, 1);
  if (again) { s.update((T)5); s.update((T)9); s.reset(); symx_reach("reset"); }
  for (unsigned i = 0; i < n; i++) { v[i] = few(n); s.update((T)v[i]); sum += v[i]; sq += v[i] * v[i]; if (ask && i == 0) CHECK(s.template mean<F>() == (F)v[0], "the mean of one value"); }
  CHECK(s.template mean<F>() == (F)sum / (F)n, "the mean of the values seen"); symx_reach("mean");
  { F a = (F)sq / (F)n, b = (F)sum / (F)n; CHECK(s.template std<F>() == (F)std::sqrt(a - b * b), "the standard deviation of the values seen"); symx_reach("dev"); } CHECK(s.template mean<F>() == (F)sum / (F)n, "asking changes nothing"); symx_reach("done");
}
SYMX_ENTRY(u06_stream) { switch (sym_pick("type", 0, 3)) { case 0: streaming<int, double>(); break; case 1: streaming<i64, float>(); break; case 2: streaming<double, double>(); break; default: streaming<float, float>(); } }
template <class R, class A> static void means() {
  unsigned n = sym_pick("n", 1, SLEN); std::vector<A> c; std::list<A> l; int sum = 0; for (unsigned i = 0; i < n; i++) { int v = std::is_floating_point<R>::value ? few(n) : small(8); sum += v; c.push_back((A)v); l.push_back((A)v); } R e = (R)sum / (R)n;
  CHECK(raft::stat::mean<R>(c) == e, "mean of a container"); CHECK(raft::stat::mean<R>(l) == e, "mean of a container"); CHECK((raft::stat::mean<R, A>(c.data(), n)) == e, "mean of an array"); symx_reach("done");
}
SYMX_ENTRY(u06_mean) { switch (sym_pick("type", 0, 4)) { case 0: means<int, int>(); break; case 1: means<i64, int>(); break; case 2: means<double, int>(); break; case 3: means<double, double>(); break; default: means<float, float>(); } }
template <class T> static void devs() {
  unsigned n = 1u << sym_pick("n", 0, 2); std::vector<T> c; int m = (int)sym_pick("m", 0, 3) - 1, sq = 0; for (unsigned i = 0; i < n; i++) { int v = few(n); sq += (v - m) * (v - m); c.push_back((T)v); } T e = (T)std::sqrt((T)sq / (T)n);
  CHECK(raft::stat::standardDeviation<T>((T)m, c) == e, "standard deviation of a container"); CHECK((raft::stat::standardDeviation<T, T>((T)m, c.data(), n)) == e, "standard deviation of an array"); symx_reach("done");
}
SYMX_ENTRY(u06_dev) { if (sym_pick("type", 0, 1)) devs<double>(); else devs<float>(); }
template <class T> static void scales(unsigned lo, unsigned hi, int bits, bool fp) {
  unsigned n = sym_pick("n", lo, hi); std::vector<T> c; int v[4], mn = 1 << 20, mx = -(1 << 20); for (unsigned i = 0; i < n; i++) { v[i] = fp ? (int)sym_pick("v", 0, 7) - 5 : small(bits); c.push_back((T)v[i]); mn = v[i] < mn ? v[i] : mn; mx = v[i] > mx ? v[i] : mx; } symx_assume(mn != mx); T den = (T)(mx - mn);
  switch (sym_pick("how", 0, fp ? 2 : 4)) {
    case 0: { auto r = raft::stat::zero_one_scale(c); CHECK(r.first == (T)mn && r.second == (T)mx, "the smallest and the largest value"); for (unsigned i = 0; i < n; i++) CHECK(c[i] == (T)(v[i] - mn) / den, "scaled to zero and one"); symx_reach("zero_one"); break; }
    case 1: { auto r = raft::stat::min_max_scale(c); CHECK(r.first == (T)mn && r.second == (T)mx, "the smallest and the largest value"); for (unsigned i = 0; i < n; i++) CHECK(c[i] == (T)v[i] / den, "scaled by the spread"); symx_reach("min_max"); break; }
    case 2: { int a = (int)sym_pick("a", 0, 4) - 2, b = a + (int)sym_pick("w", 1, 4); raft::stat::scale_to_range(c, a, b); for (unsigned i = 0; i < n; i++) CHECK(c[i] == (T)((b - a) * (v[i] - mn)) / den + (T)a, "scaled to the range"); symx_reach("range"); break; }
    case 3: { int s = (int)sym_pick("s", 1, 5); raft::stat::sigma_scale(c, (T)s); for (unsigned i = 0; i < n; i++) CHECK(c[i] == (T)v[i] / (T)s, "scaled by the deviation"); symx_reach("sigma"); break; }
    case 4: { int s = (int)sym_pick("s", 1, 5), m = small(4); raft::stat::z_standardize(c, (T)m, (T)s); for (unsigned i = 0; i < n; i++) CHECK(c[i] == (T)(v[i] - m) / (T)s, "distance from the mean in deviations"); symx_reach("z"); break; }
  }
  CHECK(c.size() == n, "as many values as before"); symx_reach("done");
}
SYMX_ENTRY(u06_scale) { scales<int>(2, SLEN, 8, false); }
SYMX_ENTRY(u06_scale_fp) { if (sym_pick("type", 0, 1)) scales<double>(2, 2, 4, true); else scales<float>(2, 3, 4, true); }
