// Q04: closing
//@ flags quick="-DNS=5" thorough="-DNS=8"
//@ entry q04_u64 prop=Q04 reach=closed,drained,nomore bound="capacity 1..3, NS steps before and after the close, each read operation"
//@ entry q04_small prop=Q04 reach=closed,drained,nomore bound="as q04_u64"
//@ entry q04_big prop=Q04 reach=closed,drained bound="as q04_u64 without range peek"
#include "stream.h"
template <class T> static bool readThrows(FIFO *f, unsigned r) {
  try {
    T x = Tr<T>::mk(0); raft::signal sg;
    switch (r) {
      case R_POP: f->pop(x); break;
      case R_PEEK: f->template peek<T>(&sg); break;
      case R_POP_S: { auto a = f->template pop_s<T>(); break; }
      case R_POPRANGE: { std::vector<std::pair<T, raft::signal>> v(1); f->pop_range(v, 1); break; }
      case R_PEEKRANGE: if constexpr (!ext_alloc<T>::value) { auto a = f->template peek_range<T>(1); } break;
    }
  } catch (ClosedPortAccessException &e) { return true; }
  return false;
}
template <class T> static void run(unsigned nsteps) {
  unsigned cap = sym_pick("cap", 1, 3); const unsigned rk[] = {R_POP, R_PEEK, R_POP_S, R_POPRANGE, R_PEEKRANGE}; unsigned r = rk[sym_pick("r", 0, ext_alloc<T>::value ? 3 : 4)];
  chkSig = false; Stream<T> s(cap); Ref q; bool closed = false;
  CHECK(!s.f->is_invalid(), "a new stream is open");
  for (unsigned i = 0; i < nsteps && !closed; i++) {
    unsigned c = sym_pick("c", 0, 2);
    if (c == 0) { if (q.size() == cap) symx_end(); writeN<T>(s.f, q, W_PUSH, 1, false); }
    else if (c == 1) { if (!q.size()) symx_end(); readN<T>(s.f, q, r, 1); s.gcr(); }
    else { s.f->invalidate(); closed = true; symx_reach("closed"); }
    CHECK(s.f->is_invalid() == closed, "closed exactly after the close"); CHECK(s.f->size() == q.size(), "closing keeps the elements");
  }
  if (!closed) s.f->invalidate();
  bool twice = sym_pick("twice", 0, 1); if (twice) s.f->invalidate();
  while (q.size()) {
    if constexpr (!ext_alloc<T>::value) if (q.size() < cap) {
      bool nm = false; try { auto a = s.f->template peek_range<T>(q.size() + 1); } catch (NoMoreDataException &e) { nm = true; symx_reach("nomore"); } catch (ClosedPortAccessException &e) { CHECK(false, "range read of a closed stream with elements raises no-more-data"); }
      CHECK(nm, "range read beyond the end of a closed stream raises no-more-data");
    }
    readN<T>(s.f, q, r, 1); s.gcr(); CHECK(s.f->is_invalid(), "stays closed"); CHECK(s.f->size() == q.size(), "one consumed");
  }
  symx_reach("drained");
  for (int k = 0; k < 2; k++) { CHECK(readThrows<T>(s.f, r), "reading a drained closed stream raises the closed-port error"); CHECK(s.f->size() == 0, "still empty"); }
  s.f->recycle(1); CHECK(s.f->size() == 0 && s.f->is_invalid(), "recycle on a drained closed stream returns");
}
SYMX_ENTRY(q04_u64) { run<u64>(NS); }
SYMX_ENTRY(q04_small) { run<Small>(NS); }
SYMX_ENTRY(q04_big) { run<Big>(NS); }
