// Q03: signals, Q08: range operations
//@ flags quick="-DNS=6 -DNB=5" thorough="-DNS=9 -DNB=7"
//@ entry q03_u64 prop=Q03 reach=wrapped bound="capacity 1..3, NS steps (6/9), each operation pair, symbolic signal and value per element"
//@ entry q03_small prop=Q03 reach=wrapped bound="as q03_u64"
//@ entry q03_big prop=Q03 reach=wrapped bound="as q03_u64"
//@ entry q03_batch_u64 prop=Q03 reach=wrapped bound="capacity 3, NB steps (5/7), batches of 1..3"
//@ entry q03_batch_pod prop=Q03 reach=wrapped bound="as q03_batch_u64, class element without constructor, slots handed out in ranges"
//@ entry q03_batch_small prop=Q03 reach=wrapped bound="capacity 3, NB steps (5/7), batches of 1..3"
//@ entry q03_head prop=Q03 reach=done bound="scheduler's view of the signal at the head, 5 steps"
//@ entry q08_u64 prop=Q08 reach=wrapped,full bound="capacity 1..4, NB steps (5/7), every pair of range write/range read, batches 1..capacity"
//@ entry q08_u8 prop=Q08 reach=wrapped,full bound="as q08_u64"
//@ entry q08_bool prop=Q08 reach=wrapped,full bound="as q08_u64, 3 steps, bool elements (packed source vector)"
//@ entry q08_pod prop=Q08 reach=wrapped,full bound="as q08_u64, class element without constructor"
//@ entry q08_small prop=Q08 reach=wrapped,full bound="as q08_u64"
//@ entry q08_big prop=Q08 reach=wrapped,full bound="as q08_u64 without range peek"
//@ entry q08_list prop=Q08 reach=full bound="insert from a list, batches 0..3, capacity 3"
#include "stream.h"
template <class T> static void sigs(unsigned nsteps) {
  unsigned cap = sym_pick("cap", 1, 3), w = sym_pick("w", 0, W_ALLOC_S), r = sym_pick("r", 0, R_POP_S);
  Stream<T> s(cap); Ref q;
  for (unsigned i = 0; i < nsteps; i++) {
    bool wr = q.size() == 0 || (q.size() < cap && sym_pick("write", 0, 1));
    if (wr) { writeN<T>(s.f, q, w, 1, sym_pick("with", 0, 1)); s.gcw(); } else { readN<T>(s.f, q, r, 1); s.gcr(); }
    if (q.t > cap) symx_reach("wrapped");
  }
  while (q.size()) { readN<T>(s.f, q, r, 1); s.gcr(); }
}
// batches
template <class T> static void batch(unsigned cap, unsigned nsteps, unsigned w, unsigned r, bool sig) {
  Stream<T> s(cap); Ref q;
  for (unsigned i = 0; i < nsteps; i++) {
    bool wr = q.size() == 0 || (q.size() < cap && sym_pick("write", 0, 1));
    if (wr) { writeN<T>(s.f, q, w, wBatch(w) ? sym_pick("wn", 1, cap - q.size()) : 1, sig); s.gcw(); }
    else { readN<T>(s.f, q, r, rBatch(r) ? sym_pick("rn", 1, q.size()) : 1); s.gcr(); }
    CHECK(s.f->size() == q.size(), "size after a batch");
    if (q.t > cap) symx_reach("wrapped"); if (q.size() == cap) symx_reach("full");
  }
  while (q.size()) { readN<T>(s.f, q, R_POP, 1); s.gcr(); }
}
template <class T> static void sigBatch(unsigned nsteps) {
  unsigned w = sym_pick("w", W_INSERT, rawSlot<T> ? W_RANGE : W_INSERT); const unsigned rk[] = {R_POP, R_POPRANGE, R_PEEKRANGE}; unsigned r = rk[sym_pick("r", 0, 2)];
  batch<T>(3, nsteps, w, r, true);
}
template <class T> static void ranges(unsigned nsteps) {
  const unsigned wk[] = {W_PUSH, W_INSERT, W_RANGE}, rk[] = {R_POP, R_RECYCLE, R_POPRANGE, R_PEEKRANGE};
  unsigned wi = sym_pick("w", 0, rawSlot<T> ? 2 : 1), ri = sym_pick("r", 0, ext_alloc<T>::value ? 2 : 3); if (wi == 0 && ri == 0) symx_end();
  chkSig = false; batch<T>(sym_pick("cap", 1, 4), nsteps, wk[wi], rk[ri], false);
}
SYMX_ENTRY(q03_u64) { sigs<u64>(NS); }
SYMX_ENTRY(q03_small) { sigs<Small>(NS); }
SYMX_ENTRY(q03_big) { sigs<Big>(NS); }
SYMX_ENTRY(q03_batch_u64) { sigBatch<u64>(NB); }
SYMX_ENTRY(q03_batch_pod) { sigBatch<Pod>(NB); }
SYMX_ENTRY(q03_batch_small) { sigBatch<Small>(NB); }
SYMX_ENTRY(q03_head) {
  Stream<u64> s(2); Ref q;
  for (unsigned i = 0; i < 5; i++) {
    bool wr = q.size() == 0 || (q.size() < 2 && sym_pick("write", 0, 1));
    if (wr) writeN<u64>(s.f, q, W_PUSH, 1, true); else { CHECK((u32)FifoAcc::speek(s.f) == q.sig[q.h], "signal at the head"); CHECK(s.f->size() == q.size(), "looking consumes nothing"); readN<u64>(s.f, q, R_POP, 1); }
  }
  symx_reach("done");
}
SYMX_ENTRY(q08_u64) { ranges<u64>(NB); }
SYMX_ENTRY(q08_u8) { ranges<unsigned char>(NB); }
SYMX_ENTRY(q08_bool) { ranges<bool>(3); }
SYMX_ENTRY(q08_pod) { ranges<Pod>(NB); }
SYMX_ENTRY(q08_small) { ranges<Small>(NB); }
SYMX_ENTRY(q08_big) { ranges<Big>(NB); }
SYMX_ENTRY(q08_list) {
  Stream<u64> s(3); Ref q;
  for (unsigned i = 0; i < 3; i++) {
    std::list<u64> l; unsigned n = sym_pick("n", 0, 3 - q.size()); for (unsigned k = 0; k < n; k++) { u64 v = sym_u64("v"); l.push_back(v); q.put((u32)v); }
    s.f->insert(l.begin(), l.end()); CHECK(s.f->size() == q.size(), "insert adds its elements"); unsigned j = 0; for (u64 x : l) CHECK((u32)x == q.val[q.t - n + j++], "source unchanged");
    if (q.size() == 3) symx_reach("full");
    unsigned k = sym_pick("k", 0, q.size()); while (k--) { u64 x; s.f->pop(x); CHECK((u32)x == q.val[q.h], "element"); q.h++; }
  }
}
