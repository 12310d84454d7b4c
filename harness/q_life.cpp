// Q07: construction/destruction balance, Q10: abandoned allocations
//@ flags quick="-DNS=6 -DNP=5" thorough="-DNS=9 -DNP=7"
//@ entry q07_small prop=Q07 reach=drained bound="capacity 1..3, NS steps (6/9), each pair of writing/reading operations, drained at the end"
//@ entry q07_big prop=Q07 reach=drained bound="as q07_small, elements stored by reference"
//@ entry q07_batch_small prop=Q07 reach=drained bound="capacity 3, insert/pop_range/recycle batches of 1..3, NP steps"
//@ entry q07_batch_big prop=Q07 reach=drained bound="as q07_batch_small"
//@ entry q07_copies prop=Q07 reach=drained bound="mutation through the peeked reference, reader copies"
//@ entry q10_u64 prop=Q10 reach=aborted,full bound="capacity 1..3, NS steps, each allocation kind given back at any point"
//@ entry q10_small prop=Q10 reach=aborted,full bound="as q10_u64"
//@ entry q10_big prop=Q10 reach=aborted,full bound="as q10_u64"
//@ entry q10_idle prop=Q10 reach=done bound="giving back / sending without an allocation, all three storage classes"
#include "stream.h"
template <class T> static void balance(Stream<T> *s, Ref &q, long base, unsigned r) {
  while (q.size()) { readN<T>(s->f, q, r, 1); s->gcr(); s->gcw(); }
  s->gcr(); s->gcw();
  CHECK(Life::live() == 0, "every constructed element was destroyed once"); symx_reach("drained");
  delete s; CHECK(Life::live() == 0, "destroying the drained stream destroys nothing more");
  CHECK(symx_live_heap() == base, "no memory is left allocated");
}
template <class T> static void life(unsigned nsteps) {
  unsigned cap = sym_pick("cap", 1, 3), w = sym_pick("w", 0, W_ALLOC_S), r = sym_pick("r", 0, R_PEEKPOP); chkSig = false;
  long base = symx_live_heap(); auto *s = new Stream<T>(cap); Ref q; Life::reset();
  for (unsigned i = 0; i < nsteps; i++) {
    bool wr = q.size() == 0 || (q.size() < cap && sym_pick("write", 0, 1));
    if (wr) { writeN<T>(s->f, q, w, 1, false); s->gcw(); } else { readN<T>(s->f, q, r, 1); s->gcr(); }
    CHECK(Life::live() == (long)q.size(), "live objects are the queued ones");
  }
  balance(s, q, base, r);
}
template <class T> static void lifeBatch(unsigned nsteps) {
  const unsigned rk[] = {R_POP, R_RECYCLE, R_POPRANGE}; unsigned r = rk[sym_pick("r", 0, 2)]; chkSig = false;
  long base = symx_live_heap(); auto *s = new Stream<T>(3); Ref q; Life::reset();
  for (unsigned i = 0; i < nsteps; i++) {
    bool wr = q.size() == 0 || (q.size() < 3 && sym_pick("write", 0, 1));
    if (wr) { writeN<T>(s->f, q, W_INSERT, sym_pick("wn", 1, 3 - q.size()), false); s->gcw(); } else { readN<T>(s->f, q, r, rBatch(r) ? sym_pick("rn", 1, q.size()) : 1); s->gcr(); }
    CHECK(Life::live() == (long)q.size(), "live objects are the queued ones");
  }
  balance(s, q, base, R_POP);
}
template <class T> static void copies() {
  long base = symx_live_heap(); auto *s = new Stream<T>(2); Ref q; Life::reset(); chkSig = false;
  for (int i = 0; i < 3; i++) {
    writeN<T>(s->f, q, W_PUSH, 1, false); u32 nv = sym_u32("nv");
    { T &x = s->f->template peek<T>(); T c(x); Tr<T>::set(x, nv); CHECK(Tr<T>::get(c) == q.val[q.h], "a copy taken by the reader is independent"); q.val[q.h] = nv; s->f->unpeek(); }
    CHECK(Life::live() == 1, "the copy is gone"); readN<T>(s->f, q, sym_pick("r", 0, R_POP_S), 1); s->gcr(); }
  balance(s, q, base, R_POP);
}
SYMX_ENTRY(q07_small) { life<Small>(NS); }
SYMX_ENTRY(q07_big) { life<Big>(NS); }
SYMX_ENTRY(q07_batch_small) { lifeBatch<Small>(NP); }
SYMX_ENTRY(q07_batch_big) { lifeBatch<Big>(NP); }
SYMX_ENTRY(q07_copies) { if (sym_pick("t", 0, 1)) copies<Small>(); else copies<Big>(); }
// ---- Q10
template <class T> static void abandon(unsigned nsteps) {
  unsigned cap = sym_pick("cap", 1, 3); const unsigned wk[] = {W_PUSH, W_ALLOC, W_ALLOC_S}; unsigned w = wk[sym_pick("w", 0, 2)], r = sym_pick("r", 0, R_PEEK); 
  long base = symx_live_heap(); auto *s = new Stream<T>(cap); Ref q; Life::reset();
  for (unsigned i = 0; i < nsteps; i++) {
    unsigned c = sym_pick("c", 0, 2);
    if (c == 0) { if (q.size() == cap) symx_end(); writeN<T>(s->f, q, w, 1, true); s->gcw(); }
    else if (c == 1) { if (q.size() == 0) symx_end(); readN<T>(s->f, q, r, 1); s->gcr(); }
    else { if (q.size() == cap) symx_end(); u32 v = sym_u32("v"); allocFill<T>(s->f, v); s->f->deallocate(); symx_reach("aborted");
      if (std::is_class<T>::value) CHECK(Life::live() == (long)q.size(), "an abandoned object is destroyed, no other"); }
    occupancy(s->f, q, cap); if (q.size() == cap) symx_reach("full");
  }
  while (q.size()) { readN<T>(s->f, q, r, 1); s->gcr(); s->gcw(); }
  CHECK(!std::is_class<T>::value || Life::live() == 0, "balance"); delete s; CHECK(symx_live_heap() == base, "no memory is left allocated");
}
template <class T> static void idle() {
  auto *s = new Stream<T>(2); Ref q; writeN<T>(s->f, q, W_PUSH, 1, true); Life::reset();
  unsigned c = sym_pick("c", 0, 3);
  if (c == 0) s->f->send(); else if (c == 1) s->f->send_range(); else if (c == 2) { allocFill<T>(s->f, 7); s->f->deallocate(); s->f->send(); } else { allocFill<T>(s->f, 7); s->f->send(); q.put(Tr<T>::norm(7)); s->f->send(); }
  occupancy(s->f, q, 2); if (q.size() < 2) writeN<T>(s->f, q, W_ALLOC, 1, true);
  while (q.size()) { readN<T>(s->f, q, R_POP, 1); s->gcr(); }
  delete s; symx_reach("done");
}
SYMX_ENTRY(q10_u64) { abandon<u64>(NS); }
SYMX_ENTRY(q10_small) { abandon<Small>(NS); }
SYMX_ENTRY(q10_big) { abandon<Big>(NS); }
SYMX_ENTRY(q10_idle) { unsigned t = sym_pick("t", 0, 2); if (t == 0) idle<u64>(); else if (t == 1) idle<Small>(); else idle<Big>(); }
