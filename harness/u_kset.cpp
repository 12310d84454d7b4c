// U01: sets of kernels (generic form, as the repository's own test builds it)
//@ entry u01_set prop=U01 reach=one,five,done bound="sets of 1..5 members of one type, and of derived and base types, arbitrary member values, every way of walking the set, moved sets"
#include "symx.h"
#include <vector>
#include <cstdlib>
#include <cassert>
#define TEST_WO_RAFT 1
#include <raftinc/kset.tcc>
typedef uint32_t u32;
struct Base { u32 v; virtual int kind() { return 0; } virtual ~Base() {} }; struct Der : Base { int kind() override { return 1; } };
template <class S, class T> static void walk(S &s, T *const *m, unsigned n) {
  CHECK(s.size() == n, "as many members as given"); unsigned i = 0;
  for (auto &r : s) { CHECK(i < n && &r.get() == m[i], "the members in the order given"); i++; } CHECK(i == n, "all members"); i = 0;
  for (auto it = s.begin(); it != s.end(); ++it) { CHECK(i < n && &it->get() == m[i], "the members in the order given"); i++; } CHECK(i == n, "all members"); i = 0;
  for (auto it = s.cbegin(); it != s.cend(); ++it) { CHECK(i < n && &it->get() == m[i], "the members in the order given"); i++; } CHECK(i == n, "all members");
}
template <class S, class T> static void both(S s, T *const *m, unsigned n) { walk(s, m, n); S t(std::move(s)); walk(t, m, n); for (auto &r : t) if (n) { } symx_reach("done"); }
SYMX_ENTRY(u01_set) {
  if (sym_pick("type", 0, 1)) { u32 v[5]; u32 *p[5]; for (unsigned i = 0; i < 5; i++) { v[i] = sym_u32("v"); p[i] = &v[i]; } unsigned n = sym_pick("n", 1, 5); u32 w[5]; for (unsigned i = 0; i < 5; i++) w[i] = v[i];
    switch (n) { case 1: both(raft::kset(v[0]), p, 1); symx_reach("one"); break; case 2: both(raft::kset(v[0], v[1]), p, 2); break; case 3: both(raft::kset(v[0], v[1], v[2]), p, 3); break; case 4: both(raft::kset(v[0], v[1], v[2], v[3]), p, 4); break; default: both(raft::kset(v[0], v[1], v[2], v[3], v[4]), p, 5); symx_reach("five"); }
    for (unsigned i = 0; i < 5; i++) CHECK(v[i] == w[i], "the members are untouched"); { auto s = raft::kset(v[2], v[0]); for (auto &r : s) r.get() = 7; CHECK(v[2] == 7 && v[0] == 7 && v[1] == w[1], "the set refers to the members themselves"); } }
  else { Base b; Der d, e; b.v = sym_u32("v"); d.v = sym_u32("v"); e.v = sym_u32("v"); Base *p[3] = {&b, &d, &e}; { auto s = raft::kset(d, e); Der *q[2] = {&d, &e}; walk(s, q, 2); } symx_reach("done"); (void)p; }
}
