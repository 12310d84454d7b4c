// Q11: growing a stream
//@ flags quick="-DNS=4 -DNT=4" thorough="-DNS=6 -DNT=7"
//@ entry q11_u64 prop=Q11 reach=grown,wrapped bound="capacity 1..3 grown to 4..7 after up to NS steps and again to 9, then NT steps; symbolic values and signals"
//@ entry q11_u8 prop=Q11 reach=grown,wrapped bound="as q11_u64, one-byte elements"
//@ entry q11_small prop=Q11 reach=grown,wrapped bound="as q11_u64"
//@ entry q11_big prop=Q11 reach=grown,wrapped bound="as q11_u64"
//@ entry q11_instr prop=Q11 reach=grown,wrapped bound="as q11_u64 with up to 3 steps before and after, the instrumented kind of queue, 8-byte elements and both kinds of class elements"
//@ entry q11_closed prop=Q11 reach=closed,exit bound="grow of a closed stream or after the program ended leaves the stream as it is"
//@ entry q11_held prop=Q11 reach=grown conc quick="--preempt 1 --tso 1" thorough="--preempt 3 --tso 1" bound="growing thread against a reader that drains a wrapped stream until the grow can proceed; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q11_close_race prop=Q11 reach=grown,kept conc quick="--preempt 2 --tso 1" thorough="--preempt 4 --tso 1" bound="growing thread (2 to 5) against the writer writing one more element and closing the stream, all element categories; at one preemption recent stores may stay invisible (x86 store buffer)"
#include "stream.h"
template <class T> static void grow(unsigned n1, unsigned n2) {
  unsigned cap = sym_pick("cap", 1, 3), w = sym_pick("w", 0, 1), r = sym_pick("r", 0, 1), ncap = sym_pick("ncap", 4, 7); Stream<T> s(cap, nullptr, 64); Ref q; volatile bool ex = false;
  unsigned n = sym_pick("n", 1, n1);
  for (unsigned i = 0; i < n; i++) {
    bool wr = q.size() == 0 || (q.size() < cap && sym_pick("write", 0, 1));
    if (wr) writeN<T>(s.f, q, w, 1, true); else readN<T>(s.f, q, r, 1);
  }
  // positions of both sides; a grow keeps them, and it waits until they are ordered (not wrapped) or the queue is empty
  unsigned rp = q.h % cap, wp = q.t % cap; auto ready = [&] { return rp < wp || q.size() == 0; };
  if (!ready()) symx_end();
  for (int k = 0; k < 2; k++) {
    s.f->resize(ncap, 64, ex); symx_reach("grown"); occupancy(s.f, q, ncap); CHECK(!s.f->is_invalid(), "still open");
    unsigned h0 = q.h, t0 = q.t;
    for (unsigned i = 0; i < n2; i++) {
      bool wr = q.size() == 0 || (q.size() < ncap && sym_pick("write", 0, 1));
      if (wr) writeN<T>(s.f, q, w, 1, true); else readN<T>(s.f, q, r, 1);
    }
    occupancy(s.f, q, ncap); s.gcr(); s.gcw();
    if (k == 0) { rp = (rp + q.h - h0) % ncap; wp = (wp + q.t - t0) % ncap; ncap = 9; if (!ready()) symx_end(); n2 = 0; }
    else { while (q.size() < ncap) writeN<T>(s.f, q, w, 1, true); symx_reach("wrapped"); occupancy(s.f, q, ncap); }
  }
  s.f->invalidate(); CHECK(s.f->is_invalid(), "closed after the close");
  while (q.size()) { readN<T>(s.f, q, r, 1); s.gcr(); }
}
SYMX_ENTRY(q11_u64) { grow<u64>(NS, NT); }
SYMX_ENTRY(q11_u8) { grow<unsigned char>(NS, NT); }
SYMX_ENTRY(q11_small) { grow<Small>(NS, NT - 1); }
SYMX_ENTRY(q11_big) { grow<Big>(NS, NT - 1); }
SYMX_ENTRY(q11_instr) { instrumented = true; switch (sym_pick("t", 0, 2)) { case 0: grow<u64>(3, 3); break; case 1: grow<Small>(3, 3); break; default: grow<Big>(3, 3); } }
SYMX_ENTRY(q11_closed) {
  Stream<u64> s(2); Ref q; unsigned n = sym_pick("n", 0, 2); while (n--) writeN<u64>(s.f, q, W_PUSH, 1, true);
  volatile bool ex = false; if (sym_pick("c", 0, 1)) { s.f->invalidate(); symx_reach("closed"); } else { ex = true; symx_reach("exit"); }
  bool inv = s.f->is_invalid(); s.f->resize(5, 64, ex); occupancy(s.f, q, 2); CHECK(s.f->is_invalid() == inv, "open or closed as before");
  while (q.size()) readN<u64>(s.f, q, R_POP, 1);
  if (!inv) { writeN<u64>(s.f, q, W_PUSH, 1, true); readN<u64>(s.f, q, R_POP, 1); }
}
// a wrapped stream: the grow has to wait until the reader brings it into order
struct HeldCtx { Stream<u64> *s; volatile bool ex; };
SYMX_ENTRY(q11_held) {
  Stream<u64> s(3); Ref q; for (int i = 0; i < 3; i++) writeN<u64>(s.f, q, W_PUSH, 1, true); readN<u64>(s.f, q, R_POP, 1); readN<u64>(s.f, q, R_POP, 1); writeN<u64>(s.f, q, W_PUSH, 1, true);  // rpt=2 wpt=1
  HeldCtx c{&s, false};
  int t = symx_thread_create([](void *a) { auto *c = (HeldCtx *)a; c->s->f->resize(6, 64, c->ex); }, &c);
  readN<u64>(s.f, q, R_POP, 1); readN<u64>(s.f, q, R_POP, 1); 
  writeN<u64>(s.f, q, W_PUSH, 1, true);
  symx_thread_join(t); occupancy(s.f, q, 6); symx_reach("grown");
  for (int i = 0; i < 4; i++) writeN<u64>(s.f, q, W_PUSH, 1, true);
  while (q.size()) readN<u64>(s.f, q, R_POP, 1);
}

// the stream is closed while a grow is under way: the close must survive the change of storage
template <class T> static void closeRace() {
  Stream<T> s(2, nullptr, 64); Ref q; writeN<T>(s.f, q, W_PUSH, 1, true); HeldCtx c{(Stream<u64> *)(void *)&s, false};
  int t = symx_thread_create([](void *a) { auto *c = (HeldCtx *)a; ((Stream<T> *)(void *)c->s)->f->resize(5, 64, c->ex); }, &c);
  if (sym_pick("more", 0, 1)) writeN<T>(s.f, q, W_PUSH, 1, true); s.f->invalidate(); CHECK(s.f->is_invalid(), "closed after the close"); symx_thread_join(t);
  CHECK(s.f->is_invalid(), "closed after the close"); if (s.f->capacity() == 5) symx_reach("grown"); else { CHECK(s.f->capacity() == 2, "grown or not"); symx_reach("kept"); }
  occupancy(s.f, q, s.f->capacity()); unsigned r = sym_pick("r", 0, 1); while (q.size()) { readN<T>(s.f, q, r, 1); s.gcr(); }
  bool closed = false; try { T x = Tr<T>::mk(0); s.f->template pop<T>(x); } catch (ClosedPortAccessException &) { closed = true; } CHECK(closed, "a closed and drained stream says so");
}
SYMX_ENTRY(q11_close_race) { switch (sym_pick("t", 0, 2)) { case 0: closeRace<u64>(); break; case 1: closeRace<Small>(); break; default: closeRace<Big>(); } }
