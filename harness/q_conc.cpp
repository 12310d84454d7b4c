// Q05: one writer and one reader, Q06: a close racing with a reader, Q12: a grow racing with outstanding accesses
//@ flags quick="-DNE=3" thorough="-DNE=4"
//@ entry q05_u64 prop=Q05 conc reach=full,done quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="writer and reader threads, NE elements (3/4) through capacity 1..2, each pair of operations, all schedules with at most 2 (3) preemptions; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q05_small prop=Q05 conc reach=full,done quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="as q05_u64; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q05_big prop=Q05 conc reach=full,done quick="--preempt 1 --tso 1" thorough="--preempt 3 --tso 1" bound="as q05_u64, at most 1 (3) preemptions; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q05_batch prop=Q05 conc reach=done quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="insert / allocate_range of 2 against pop_range / peek_range of 2, capacity 3, two batches; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q05_batch_class prop=Q05 conc reach=done quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="as q05_batch for the three kinds of class elements; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q05_size prop=Q05 conc reach=done quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="size, free space and capacity read by a third party while both sides run; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q06_u64 prop=Q06 conc reach=closed quick="--preempt 2 --tso 1" thorough="--preempt 4 --tso 1" bound="0..2 elements then close, reader reads until told the stream is closed, each reading operation, all schedules with at most 2 (4) preemptions; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q06_small prop=Q06 conc reach=closed quick="--preempt 2 --tso 1" thorough="--preempt 4 --tso 1" bound="as q06_u64; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q06_big prop=Q06 conc reach=closed quick="--preempt 2 --tso 1" thorough="--preempt 4 --tso 1" bound="as q06_u64; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q06_range prop=Q06 conc reach=closed,nomore quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="range peek of 2 against 0..3 elements then close; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q12_writer prop=Q12 conc reach=grown quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="grow 2->5 against a writer holding an allocated slot (single, range, scoped); at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q12_reader prop=Q12 conc reach=grown quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="grow 2->5 against a reader holding a peeked element, a peeked range, or popping; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q12_big prop=Q12 conc reach=grown quick="--preempt 2 --tso 1" thorough="--preempt 3 --tso 1" bound="as q12_writer/q12_reader for elements stored by reference; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry q12_both prop=Q12 conc reach=done quick="--preempt 1 --tso 1" thorough="--preempt 2 --tso 1" bound="writer, reader and growing thread, 2 elements through capacity 1; at one preemption recent stores may stay invisible (x86 store buffer)"
#include "stream.h"
struct Ctx { FIFO *f; u32 v[8]; unsigned n, kind; bool close; volatile bool ex; size_t ncap; bool done; };
template <class T> static void put1(FIFO *f, unsigned kind, u32 v) {
  switch (kind) { case 0: { T x = Tr<T>::mk(v); f->push(x); break; }
    case 1: { if constexpr (ctorSlot<T>) { f->template allocate<T>(v); } else { T &r = f->template allocate<T>(); r = Tr<T>::mk(v); } f->send(); break; }
    case 2: { auto a = allocS<T>(f, v); if constexpr (!ctorSlot<T>) *a = Tr<T>::mk(v); break; } }
}
template <class T> static void get1(FIFO *f, unsigned kind, u32 v) {
  switch (kind) { case 0: { T x = Tr<T>::mk(0); f->pop(x); CHECK(Tr<T>::get(x) == v && Tr<T>::ok(x), "popped value"); break; }
    case 1: { T &x = f->template peek<T>(); CHECK(Tr<T>::get(x) == v && Tr<T>::ok(x), "peeked value"); f->unpeek(); f->recycle(); break; }
    case 2: { auto a = f->template pop_s<T>(); CHECK(Tr<T>::get(*a) == v && Tr<T>::ok(*a), "pop_s value"); break; } }
}
template <class T> static void *writer(void *p) { auto *c = (Ctx *)p; for (unsigned i = 0; i < c->n; i++) put1<T>(c->f, c->kind, c->v[i]); if (c->close) c->f->invalidate(); c->done = true; return nullptr; }
template <class T> static void wr(void *p) { writer<T>(p); }
static void growT(void *p) { auto *c = (Ctx *)p; c->f->resize(c->ncap, 64, c->ex); }
template <class T> static void pair() {
  unsigned cap = sym_pick("cap", 1, 2), w = sym_pick("w", 0, 2), r = sym_pick("r", 0, 2); Stream<T> s(cap); Ctx c{s.f}; c.n = NE; c.kind = w; c.close = false; c.ex = false; c.done = false;
  for (unsigned i = 0; i < NE; i++) c.v[i] = Tr<T>::norm(sym_u32("v"));
  int t = symx_thread_create(wr<T>, &c);
  for (unsigned i = 0; i < NE; i++) { if (s.f->space_avail() == 0) symx_reach("full"); get1<T>(s.f, r, c.v[i]); }
  symx_thread_join(t); s.gcr(); CHECK(s.f->size() == 0, "everything read"); CHECK(c.done, "writer finished"); symx_reach("done");
}
SYMX_ENTRY(q05_u64) { pair<u64>(); }
SYMX_ENTRY(q05_small) { pair<Small>(); }
SYMX_ENTRY(q05_big) { pair<Big>(); }
template <class T> static void batchW(void *p) { auto *c = (Ctx *)p; for (int b = 0; b < 2; b++) { u32 *v = c->v + 2 * b;
  if (c->kind == 0) { std::vector<T> x{Tr<T>::mk(v[0]), Tr<T>::mk(v[1])}; c->f->insert(x.begin(), x.end()); } else if constexpr (rawSlot<T>) { auto r = c->f->template allocate_range<T>(2); r[0].get() = Tr<T>::mk(v[0]); r[1].get() = Tr<T>::mk(v[1]); c->f->send_range(); } } }
template <class T> static void batches() {
  Stream<T> s(3); Ctx c{s.f}; c.kind = sym_pick("w", 0, rawSlot<T>); unsigned r = sym_pick("r", 0, 2); for (int i = 0; i < 4; i++) c.v[i] = sym_u32("v"); if (r == 1 && ext_alloc<T>::value) symx_end();
  int t = symx_thread_create(batchW<T>, &c); auto is = [](const T &x, u32 v) { return Tr<T>::get(x) == v && Tr<T>::ok(x); };
  for (int b = 0; b < 2; b++) { u32 *v = c.v + 2 * b;
    if (r == 0) { std::vector<std::pair<T, raft::signal>> x(2); s.f->pop_range(x, 2); CHECK(is(x[0].first, v[0]) && is(x[1].first, v[1]), "popped range"); }
    else if (r == 1) { if constexpr (!ext_alloc<T>::value) { { auto x = s.f->template peek_range<T>(2); CHECK(is(x[0].ele, v[0]) && is(x[1].ele, v[1]), "peeked range"); } s.f->recycle(2); } }
    else { get1<T>(s.f, 0, v[0]); get1<T>(s.f, 0, v[1]); } }
  symx_thread_join(t); CHECK(s.f->size() == 0, "everything read"); symx_reach("done");
}
SYMX_ENTRY(q05_batch) { batches<u64>(); }
SYMX_ENTRY(q05_batch_class) { switch (sym_pick("t", 0, 2)) { case 0: batches<Pod>(); break; case 1: batches<Small>(); break; default: batches<Big>(); } }
// the monitoring thread's view
static void rd(void *p) { auto *c = (Ctx *)p; for (unsigned i = 0; i < c->n; i++) get1<u64>(c->f, 0, c->v[i]); }
SYMX_ENTRY(q05_size) {
  Stream<u64> s(2); Ctx c{s.f}; c.n = 2; c.kind = 0; for (int i = 0; i < 2; i++) c.v[i] = sym_u32("v");
  int t = symx_thread_create(wr<u64>, &c), u = symx_thread_create(rd, &c);
  for (int i = 0; i < 2; i++) { size_t n = s.f->size(); CHECK(n <= 2, "size within the capacity"); CHECK(s.f->space_avail() <= 2, "space within the capacity"); CHECK(s.f->capacity() == 2, "capacity"); }
  symx_thread_join(t); symx_thread_join(u); CHECK(s.f->size() == 0, "everything read"); symx_reach("done");
}
// ---- Q06
template <class T> static void closing() {
  unsigned cap = sym_pick("cap", 1, 2), r = sym_pick("r", 0, 2); Stream<T> s(cap); Ctx c{s.f}; c.n = sym_pick("n", 0, 2); c.kind = sym_pick("w", 0, 1); c.close = true; c.ex = false;
  for (unsigned i = 0; i < c.n; i++) c.v[i] = Tr<T>::norm(sym_u32("v"));
  int t = symx_thread_create(wr<T>, &c); unsigned got = 0; bool closed = false;
  while (!closed) { try { if (got == c.n) { T x = Tr<T>::mk(0); if (r == 0) s.f->pop(x); else if (r == 1) s.f->template peek<T>(); else auto a = s.f->template pop_s<T>(); CHECK(false, "an element beyond the last one"); } else { get1<T>(s.f, r, c.v[got]); got++; } } catch (ClosedPortAccessException &) { closed = true; } }
  CHECK(got == c.n, "every element was received before the close was reported"); symx_reach("closed"); symx_thread_join(t); CHECK(s.f->is_invalid(), "closed");
}
SYMX_ENTRY(q06_u64) { closing<u64>(); }
SYMX_ENTRY(q06_small) { closing<Small>(); }
SYMX_ENTRY(q06_big) { closing<Big>(); }
template <class T> static void closingRange() {
  Stream<T> s(3); Ctx c{s.f}; c.n = sym_pick("n", 0, 3); c.kind = 0; c.close = true; for (unsigned i = 0; i < c.n; i++) c.v[i] = sym_u32("v");
  int t = symx_thread_create(wr<T>, &c); unsigned got = 0; auto is = [](const T &x, u32 v) { return Tr<T>::get(x) == v && Tr<T>::ok(x); };
  for (;;) { try { { auto x = s.f->template peek_range<T>(2); CHECK(is(x[0].ele, c.v[got]) && is(x[1].ele, c.v[got + 1]), "peeked range"); } s.f->recycle(2); got += 2; }
    catch (NoMoreDataException &) { CHECK(got + 2 > c.n, "too few elements left"); if (got == c.n) break; T x = Tr<T>::mk(0); s.f->pop(x); CHECK(is(x, c.v[got]), "last element"); got++; symx_reach("nomore"); }
    catch (ClosedPortAccessException &) { break; } }
  CHECK(got == c.n, "every element was received before the close was reported"); symx_reach("closed"); symx_thread_join(t);
}
SYMX_ENTRY(q06_range) { if (sym_pick("t", 0, 1)) closingRange<Small>(); else closingRange<u64>(); }
// ---- Q12
template <class T> static void holdW(unsigned kinds) {
  unsigned k = sym_pick("k", 0, kinds); u32 a = Tr<T>::norm(sym_u32("a")), b = Tr<T>::norm(sym_u32("b")); Stream<T> s(2, nullptr, 64); put1<T>(s.f, 0, a); Ctx c{s.f}; c.ncap = 5; c.ex = false;
  int t = symx_thread_create(growT, &c);
  if (k == 0) { if constexpr (ctorSlot<T>) { T &r = s.f->template allocate<T>(0u); symx_yield(); Tr<T>::set(r, b); } else { T &r = s.f->template allocate<T>(); symx_yield(); Tr<T>::set(r, b); } s.f->send(); }
  else if (k == 1) { auto *x = new auto(allocS<T>(s.f, 0u)); if (sym_pick("copied", 0, 1)) { auto y(*x); delete x; symx_yield(); Tr<T>::set(*y, b); } else { symx_yield(); Tr<T>::set(**x, b); delete x; } }
  else if constexpr (!ctorSlot<T>) { auto r = s.f->template allocate_range<T>(1); symx_yield(); r[0].get() = Tr<T>::mk(b); s.f->send_range(); }
  // a full or wrapped queue is only grown once the reader has made room
  get1<T>(s.f, 0, a); if (sym_pick("before", 0, 1)) { get1<T>(s.f, 1, b); symx_thread_join(t); } else { put1<T>(s.f, 1, a); get1<T>(s.f, 1, b); get1<T>(s.f, 1, a); symx_thread_join(t); }
  CHECK(s.f->capacity() == 5, "grown"); CHECK(s.f->size() == 0, "both elements were there"); symx_reach("grown"); s.gcr();
  for (int i = 0; i < 5; i++) put1<T>(s.f, 0, i); CHECK(s.f->space_avail() == 0, "room for five"); for (int i = 0; i < 5; i++) get1<T>(s.f, 0, Tr<T>::norm(i)); s.gcr();
}
template <class T> static void holdR(unsigned kinds) {
  unsigned k = sym_pick("k", 0, kinds); u32 a = Tr<T>::norm(sym_u32("a")), b = Tr<T>::norm(sym_u32("b")); Stream<T> s(k == 3 ? 3 : 2, nullptr, 64); put1<T>(s.f, 0, a); if (k == 3) put1<T>(s.f, 0, b); Ctx c{s.f}; c.ncap = 5; c.ex = false;
  int t = symx_thread_create(growT, &c);
  if (k == 0) { T &x = s.f->template peek<T>(); symx_yield(); CHECK(Tr<T>::get(x) == a && Tr<T>::ok(x), "held element"); s.f->unpeek(); s.f->recycle(); }
  else if (k == 1) { auto *x = new auto(s.f->template pop_s<T>()); if (sym_pick("copied", 0, 1)) { auto y(*x); delete x; symx_yield(); CHECK(Tr<T>::get(*y) == a && Tr<T>::ok(*y), "held element"); } else { symx_yield(); CHECK(Tr<T>::get(**x) == a && Tr<T>::ok(**x), "held element"); delete x; } }
  else if (k == 2) get1<T>(s.f, 0, a);
  else if constexpr (!ext_alloc<T>::value) { { auto *x = new auto(s.f->template peek_range<T>(1)); if (sym_pick("copied", 0, 1)) { auto y(*x); delete x; symx_yield(); CHECK(Tr<T>::get(y[0].ele) == a, "held element"); } else { symx_yield(); CHECK(Tr<T>::get((*x)[0].ele) == a, "held element"); delete x; } } s.f->recycle(1); get1<T>(s.f, 0, b); }
  if (sym_pick("more", 0, 1)) { put1<T>(s.f, 0, b); s.gcr(); get1<T>(s.f, 0, b); } s.gcr();
  symx_thread_join(t); CHECK(s.f->capacity() == 5, "grown"); CHECK(s.f->size() == 0, "nothing left"); symx_reach("grown");
  for (int i = 0; i < 5; i++) put1<T>(s.f, 0, i); CHECK(s.f->space_avail() == 0, "room for five"); for (int i = 0; i < 5; i++) get1<T>(s.f, 0, Tr<T>::norm(i)); s.gcr();
}
SYMX_ENTRY(q12_writer) { if (sym_pick("t", 0, 1)) holdW<Small>(1); else if (sym_pick("p", 0, 1)) holdW<Pod>(2); else holdW<u64>(2); }
SYMX_ENTRY(q12_reader) { if (sym_pick("t", 0, 1)) holdR<Small>(3); else holdR<u64>(3); }
SYMX_ENTRY(q12_big) { if (sym_pick("t", 0, 1)) holdR<Big>(2); else holdW<Big>(1); }
SYMX_ENTRY(q12_both) {
  Stream<u64> s(1, nullptr, 64); Ctx c{s.f}; c.ncap = 4; c.ex = false; c.n = 2; c.kind = sym_pick("w", 0, 1); c.close = false; unsigned r = sym_pick("r", 0, 1); for (int i = 0; i < 2; i++) c.v[i] = sym_u32("v");
  int t = symx_thread_create(growT, &c), u = symx_thread_create(wr<u64>, &c);
  for (int i = 0; i < 2; i++) get1<u64>(s.f, r, c.v[i]);
  symx_thread_join(u); symx_thread_join(t); CHECK(s.f->size() == 0, "everything read"); CHECK(s.f->capacity() == 4, "grown"); symx_reach("done");
}
