// Q01-Q04, Q08: sequential use of one stream. Each step reads or writes (a symbolic choice),
// every element value and signal is symbolic.
//@ flags quick="-DNS=10 -DMS=4 -DNI=6" thorough="-DNS=14 -DMS=6 -DNI=10"
//@ entry q01_u64 prop=Q01 reach=full,drained bound="capacity 1..3, NS steps (10 quick/14 thorough), every pair of writing/reading operation, all values"
//@ entry q01_u8 prop=Q01 reach=full,drained bound="as q01_u64, one-byte elements"
//@ entry q01_small prop=Q01 reach=full,drained bound="as q01_u64, class element stored in place"
//@ entry q01_pod prop=Q01 reach=full,drained bound="as q01_u64, class element without constructor"
//@ entry q01_big prop=Q01 reach=full,drained bound="as q01_u64, class element stored by reference"
//@ entry q01_mix_u64 prop=Q01 reach=drained bound="capacity 2, MS steps (4/6), every mix of operations"
//@ entry q01_mix_small prop=Q01 reach=drained bound="capacity 2, MS steps (4/6), every mix of operations"
//@ entry q01_mix_big prop=Q01 reach=drained bound="capacity 2, MS steps (4/6), every mix of operations"
//@ entry q01_instr prop=Q01 reach=full,drained bound="the instrumented kind of queue, 8-byte elements and both kinds of class elements; capacity 1..3, NI steps (6/10)"
//@ entry q02_instr prop=Q02 reach=full,empty bound="the instrumented kind of queue, 8-byte elements and both kinds of class elements; capacity 1..4, NI steps (6/10)"
//@ entry q02_u64 prop=Q02 reach=full,empty bound="capacity 1..4, NS steps, size/space/capacity compared after every step, writes by element and by batch of 1..capacity"
//@ entry q02_small prop=Q02 reach=full,empty bound="as q02_u64"
//@ entry q02_pod prop=Q02 reach=full,empty bound="as q02_u64, class element without constructor"
//@ entry q02_big prop=Q02 reach=full,empty bound="as q02_u64, no batches by slot range"
//@ entry q02_pointer prop=Q02 reach=wrapped bound="position arithmetic for every capacity 1..255, every position and every step count up to the capacity"
#include "stream.h"
template <class T> static void readDrain(Stream<T> &s, Ref &q, unsigned kind) {
  while (q.size()) { readN<T>(s.f, q, kind, 1); s.gcr(); s.gcw(); }
  CHECK(s.f->size() == 0, "drained stream is empty"); symx_reach("drained");
}
// every read is a batch of n, every write is a batch of m
template <class T> static void occ(unsigned nsteps) {
  unsigned cap = sym_pick("cap", 1, 4); const unsigned wk[] = {W_PUSH, W_ALLOC, W_RANGE}, rk[] = {R_POP, R_PEEK, R_RECYCLE};
  unsigned w = wk[sym_pick("w", 0, rawSlot<T> ? 2 : 1)], r = rk[sym_pick("r", 0, 2)];
  unsigned wn = wBatch(w) ? sym_pick("wn", 1, cap) : 1, rn = rBatch(r) ? sym_pick("rn", 1, cap) : 1;
  Stream<T> s(cap); Ref q; occupancy(s.f, q, cap);
  for (unsigned i = 0; i < nsteps; i++) {
    bool cw = q.size() + wn <= cap, cr = q.size() >= rn; if (!cw && !cr) symx_end();
    bool wr = !cr || (cw && sym_pick("write", 0, 1));
    if (wr) { writeN<T>(s.f, q, w, wn, false); s.gcw(); } else { readN<T>(s.f, q, r, rn); s.gcr(); }
    occupancy(s.f, q, cap);
    if (q.size() == cap) symx_reach("full"); if (q.size() == 0) symx_reach("empty");
  }
}
SYMX_ENTRY(q02_u64) { chkSig = false; occ<u64>(NS); }
SYMX_ENTRY(q02_small) { chkSig = false; occ<Small>(NS); }
SYMX_ENTRY(q02_pod) { chkSig = false; occ<Pod>(NS); }
SYMX_ENTRY(q02_big) { chkSig = false; occ<Big>(NS); }
SYMX_ENTRY(q02_pointer) {
  u64 cap = sym_range("cap", 1, 255), pos = sym_range("pos", 0, 254), n = sym_range("n", 0, 255); symx_assume(pos < cap); symx_assume(n <= cap);
  Pointer p(cap); Pointer::incBy(p, pos); CHECK(Pointer::val(p) == pos, "position"); CHECK(Pointer::wrapIndicator(p) == 0, "no wrap below the capacity");
  Pointer::incBy(p, n);
  bool wrap = pos + n >= cap; if (wrap) symx_reach("wrapped");
  CHECK(Pointer::val(p) == (wrap ? pos + n - cap : pos + n), "position after a step"); CHECK(Pointer::wrapIndicator(p) == (wrap ? 1 : 0), "wrap count");
  Pointer one(cap); Pointer::incBy(one, pos); Pointer::inc(one); u64 w1 = pos + 1 >= cap;
  CHECK(Pointer::val(one) == (w1 ? 0 : pos + 1), "single step"); CHECK(Pointer::wrapIndicator(one) == w1, "wrap count of a single step");
}
// one writing and one reading operation per path, all interleavings
template <class T> static void core(unsigned nsteps) {
  unsigned cap = sym_pick("cap", 1, 3), w = sym_pick("w", 0, W_ALLOC_S), r = sym_pick("r", 0, R_PEEKPOP);
  Stream<T> s(cap); Ref q;
  for (unsigned i = 0; i < nsteps; i++) {
    bool wr = q.size() == 0 || (q.size() < cap && sym_pick("write", 0, 1));
    if (wr) { writeN<T>(s.f, q, w, 1, false); s.gcw(); } else { readN<T>(s.f, q, r, 1); s.gcr(); }
    if (q.size() == cap) symx_reach("full");
  }
  readDrain<T>(s, q, r);
}
template <class T> static void mix(unsigned nsteps) {
  Stream<T> s(2); Ref q;
  for (unsigned i = 0; i < nsteps; i++) {
    bool wr = q.size() == 0 || (q.size() < 2 && sym_pick("write", 0, 1));
    if (wr) { writeN<T>(s.f, q, sym_pick("w", 0, W_INSERT), 1, false); s.gcw(); } else { readN<T>(s.f, q, sym_pick("r", 0, ext_alloc<T>::value ? R_POPRANGE : R_PEEKRANGE), 1); s.gcr(); }
  }
  readDrain<T>(s, q, R_POP);
}
SYMX_ENTRY(q01_u64) { core<u64>(NS); }
SYMX_ENTRY(q01_u8) { core<unsigned char>(NS); }
SYMX_ENTRY(q01_small) { core<Small>(NS); }
SYMX_ENTRY(q01_pod) { core<Pod>(NS); }
SYMX_ENTRY(q01_big) { core<Big>(NS); }
SYMX_ENTRY(q01_mix_u64) { mix<u64>(MS); }
SYMX_ENTRY(q01_mix_small) { mix<Small>(MS); }
SYMX_ENTRY(q01_mix_big) { mix<Big>(MS); }
SYMX_ENTRY(q01_instr) { instrumented = true; switch (sym_pick("t", 0, 2)) { case 0: core<u64>(NI); break; case 1: core<Small>(NI); break; default: core<Big>(NI); } }
SYMX_ENTRY(q02_instr) { instrumented = true; chkSig = false; switch (sym_pick("t", 0, 2)) { case 0: occ<u64>(NI); break; case 1: occ<Small>(NI); break; default: occ<Big>(NI); } }
