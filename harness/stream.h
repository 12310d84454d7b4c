// Shared harness code for the stream (FIFO) properties: element types of the three storage
// categories, a reference queue, and emulation of what the scheduler sets up around a kernel's run.
#pragma once
#include <vector>
#include <list>
#include <map>
#include <set>
#include <functional>
#include <raftinc/ringbuffer.tcc>
#include <raftinc/portexception.hpp>
#include <raftinc/schedule.hpp>
#include "symx.h"
typedef uint32_t u32; typedef uint64_t u64;

// ---- life time accounting of the class element types
struct Life { static inline long ctor = 0, dtor = 0; static inline bool on = false;
  static void reset() { ctor = dtor = 0; on = true; } static long live() { return ctor - dtor; } };
static const u32 ALIVE = 0x51ED270Bu, DEAD = 0x0DEAD0DEu;
template <unsigned PAD> struct Obj {
  u32 v; u32 magic; unsigned char pad[PAD];
  Obj() : v(0), magic(ALIVE) { fillPad(); Life::ctor++; }
  explicit Obj(u32 x) : v(x), magic(ALIVE) { fillPad(); Life::ctor++; }
  Obj(const Obj &o) : v(o.v), magic(ALIVE) { if (Life::on) CHECK(o.magic == ALIVE, "copied object is alive"); copyPad(o); Life::ctor++; }
  Obj &operator=(const Obj &o) { if (Life::on) { CHECK(o.magic == ALIVE, "assigned-from object is alive"); CHECK(magic == ALIVE, "assigned-to object is alive"); } v = o.v; copyPad(o); return *this; }
  ~Obj() { if (Life::on) CHECK(magic == ALIVE, "destroyed object was alive"); magic = DEAD; Life::dtor++; }
  void fillPad() { pad[0] = (unsigned char)(v * 7 + 1); pad[PAD - 1] = (unsigned char)(v ^ 0x3C); }
  void copyPad(const Obj &o) { pad[0] = o.pad[0]; pad[PAD - 1] = o.pad[PAD - 1]; }
  bool okPad() const { return pad[0] == (unsigned char)(v * 7 + 1) && pad[PAD - 1] == (unsigned char)(v ^ 0x3C); }
};
typedef Obj<8> Small;     // at most a cache line: constructed in place
typedef Obj<120> Big;     // more than a cache line: stored by reference
template <class T> struct Tr { static T mk(u32 v) { return (T)v; } static u32 norm(u32 v) { return (u32)(T)v; } static u32 get(const T &t) { return (u32)t; } static bool ok(const T &) { return true; } static void set(T &t, u32 v) { t = (T)v; } };
template <unsigned P> struct Tr<Obj<P>> { static Obj<P> mk(u32 v) { return Obj<P>(v); } static u32 norm(u32 v) { return v; } static u32 get(const Obj<P> &t) { return t.v; } static bool ok(const Obj<P> &t) { return t.magic == ALIVE && t.okPad(); } static void set(Obj<P> &t, u32 v) { t.v = v; t.fillPad(); } };
template <> struct Tr<bool> { static bool mk(u32 v) { return v & 1; } static u32 norm(u32 v) { return v & 1; } static u32 get(const bool &t) { return t; } static bool ok(const bool &) { return true; } static void set(bool &t, u32 v) { t = v & 1; } };

// a class without constructor and destructor: the one kind of class whose slots can be handed out in ranges
struct Pod { u32 v; unsigned char pad[9]; u32 w; };
template <> struct Tr<Pod> { static Pod mk(u32 v) { Pod p; set(p, v); return p; } static u32 norm(u32 v) { return v; } static u32 get(const Pod &t) { return t.v; } static bool ok(const Pod &t) { return t.w == t.v * 3 + 1 && t.pad[8] == (unsigned char)t.v; } static void set(Pod &t, u32 v) { t.v = v; t.w = v * 3 + 1; t.pad[8] = (unsigned char)v; } };
template <class T> constexpr bool rawSlot = std::is_trivial<T>::value && inline_alloc<T>::value; // slots need no constructor
template <class T> constexpr bool ctorSlot = std::is_class<T>::value && !std::is_trivial<T>::value; // built by allocate()

// ---- access to the hooks the scheduler uses (through a derived class, as Schedule's friends do)
struct FifoAcc : public FIFO {
  static void map(FIFO *f, ptr_map_t *m) { (f->*(&FifoAcc::setPtrMap))(m); }
  static void out(FIFO *f, ptr_set_t *m) { (f->*(&FifoAcc::setPtrSet))(m); }
  static void inPeek(FIFO *f, ptr_set_t *m) { (f->*(&FifoAcc::setInPeekSet))(m); }
  static void outPeek(FIFO *f, ptr_set_t *m) { (f->*(&FifoAcc::setOutPeekSet))(m); }
  static raft::signal speek(FIFO *f) { return (f->*(&FifoAcc::signal_peek))(); }
  static void spop(FIFO *f) { (f->*(&FifoAcc::signal_pop))(); }
  static void ssend(FIFO *f, raft::signal s) { (f->*(&FifoAcc::inline_signal_send))(s); }
};
struct SchedAcc : public Schedule {
  static void gc(ptr_map_t *a, ptr_set_t *b, ptr_set_t *c) { (&SchedAcc::fifo_gc)(a, b, c); }
};
static bool instrumented = false; // the instrumented kind of queue a port can be asked for
// a stream with the garbage collection sets of one writing and one reading kernel attached
template <class T> struct Stream {
  FIFO *f; ptr_map_t win, rin; ptr_set_t wout, wpeek, rout, rpeek;
  Stream(size_t cap, void *data = nullptr, size_t start = 16) { f = instrumented ? RingBuffer<T, Type::Heap, true>::make_new_fifo(cap, start, data) : RingBuffer<T, Type::Heap, false>::make_new_fifo(cap, start, data); attach(f); }
  void attach(FIFO *f) { FifoAcc::map(f, &rin); FifoAcc::inPeek(f, &rpeek); FifoAcc::out(f, &wout); FifoAcc::outPeek(f, &wpeek); }
  void gcr() { SchedAcc::gc(&rin, &rout, &rpeek); }
  void gcw() { SchedAcc::gc(&win, &wout, &wpeek); }
  ~Stream() { gcr(); gcw(); delete f; }
};
// ---- reference queue
struct Ref {
  enum { N = 64 }; u32 val[N]; u32 sig[N]; unsigned h = 0, t = 0;
  void put(u32 v, u32 s = 0) { val[t] = v; sig[t] = s; t++; }
  unsigned size() const { return t - h; }
};
static inline raft::signal anySignal() { u32 s = sym_u32("sig"); return (raft::signal)s; }

// ---- write / read one element (or a batch) by operation kind
template <class T> static inline void allocFill(FIFO *f, u32 v) {
  if constexpr (std::is_same<T, Pod>::value) { T &r = f->template allocate<T>(Tr<T>::mk(v)); CHECK(Tr<T>::get(r) == v && Tr<T>::ok(r), "allocate constructs from its arguments"); }
  else if constexpr (std::is_class<T>::value) { T &r = f->template allocate<T>(v); CHECK(Tr<T>::get(r) == v, "allocate constructs from its arguments"); CHECK(((uintptr_t)&r) % alignof(T) == 0, "slot aligned"); }
  else { T &r = f->template allocate<T>(); r = Tr<T>::mk(v); }
}
template <class T> static inline auto allocS(FIFO *f, u32 v) { if constexpr (std::is_same<T, Pod>::value) return f->template allocate_s<T>(Tr<T>::mk(v)); else if constexpr (std::is_class<T>::value) return f->template allocate_s<T>(v); else return f->template allocate_s<T>(); }
enum { W_PUSH, W_ALLOC, W_PUSHR, W_ALLOC_S, W_INSERT, W_RANGE, W_KINDS };
// writes n elements (n == 1 unless the kind writes batches); the signal goes with the last
template <class T> static void writeN(FIFO *f, Ref &q, unsigned kind, unsigned n, bool withSig) {
  u32 v[8]; for (unsigned i = 0; i < n; i++) v[i] = sym_u32("v");
  u32 sg = withSig ? sym_u32("sig") : 0; raft::signal s = (raft::signal)sg;
  switch (kind) {
    case W_PUSH: { T x = Tr<T>::mk(v[0]); if (withSig) f->push(x, s); else f->push(x); break; }
    case W_PUSHR: { if (withSig) f->push(Tr<T>::mk(v[0]), s); else f->push(Tr<T>::mk(v[0])); break; }
    case W_ALLOC: { allocFill<T>(f, v[0]); if (withSig) f->send(s); else f->send(); break; }
    case W_ALLOC_S: { auto a = allocS<T>(f, v[0]); if constexpr (!std::is_class<T>::value) *a = Tr<T>::mk(v[0]); if (withSig) a.sig() = s; break; }
    case W_INSERT: { std::vector<T> c; c.reserve(n); for (unsigned i = 0; i < n; i++) c.push_back(Tr<T>::mk(v[i])); if (withSig) f->insert(c.begin(), c.end(), s); else f->insert(c.begin(), c.end()); break; }
    case W_RANGE: { auto r = f->template allocate_range<T>(n); CHECK(r.size() == n, "allocate_range gives n slots"); for (unsigned i = 0; i < n; i++) r[i].get() = Tr<T>::mk(v[i]); if (withSig) f->send_range(s); else f->send_range(); break; }
  }
  for (unsigned i = 0; i < n; i++) q.put(Tr<T>::norm(v[i]), i + 1 == n ? sg : 0);
}
static bool chkSig = true;
enum { R_POP, R_PEEK, R_POP_S, R_RECYCLE, R_PEEKPOP, R_POPRANGE, R_PEEKRANGE, R_KINDS };
template <class T> static void readN(FIFO *f, Ref &q, unsigned kind, unsigned n) {
  const u32 *v = q.val + q.h, *sg = q.sig + q.h;
  switch (kind) {
    case R_POP: { T x = Tr<T>::mk(0); raft::signal s = (raft::signal)0x77; f->pop(x, &s); CHECK(Tr<T>::get(x) == v[0], "popped value"); CHECK(Tr<T>::ok(x), "popped object intact"); if (chkSig) CHECK((u32)s == sg[0], "popped signal"); break; }
    case R_PEEK: { raft::signal s = (raft::signal)0x77; T &x = f->template peek<T>(&s); CHECK(Tr<T>::get(x) == v[0], "peeked value"); CHECK(Tr<T>::ok(x), "peeked object intact"); if (chkSig) CHECK((u32)s == sg[0], "peeked signal"); f->unpeek(); f->recycle(); break; }
    case R_POP_S: { auto a = f->template pop_s<T>(); CHECK(Tr<T>::get(*a) == v[0], "pop_s value"); CHECK(Tr<T>::ok(*a), "pop_s object intact"); if (chkSig) CHECK((u32)a.sig() == sg[0], "pop_s signal"); break; }
    case R_RECYCLE: { f->recycle(n); break; }
    case R_PEEKPOP: { T &y = f->template peek<T>(); CHECK(Tr<T>::get(y) == v[0], "peeked value"); f->unpeek(); T x = Tr<T>::mk(0); f->pop(x); CHECK(Tr<T>::get(x) == v[0], "popped value after a peek"); break; }
    case R_POPRANGE: {
      std::vector<std::pair<T, raft::signal>> r(n);
      f->pop_range(r, n); CHECK(r.size() == n, "pop_range size");
      for (unsigned i = 0; i < n; i++) { CHECK(Tr<T>::get(r[i].first) == v[i], "pop_range value"); CHECK(Tr<T>::ok(r[i].first), "pop_range object intact"); if (chkSig) CHECK((u32)r[i].second == sg[i], "pop_range signal"); } break; }
    case R_PEEKRANGE: if constexpr (!ext_alloc<T>::value) {
      { auto r = f->template peek_range<T>(n); CHECK(r.size() == n, "peek_range size");
      for (unsigned i = 0; i < n; i++) { CHECK(Tr<T>::get(r[i].ele) == v[i], "peek_range value"); CHECK(Tr<T>::ok(r[i].ele), "peek_range object intact"); if (chkSig) CHECK((u32)(raft::signal)r[i].sig == sg[i], "peek_range signal"); } }
      f->recycle(n); } break;
  }
  q.h += n;
}
static inline bool wBatch(unsigned k) { return k == W_INSERT || k == W_RANGE; }
static inline bool rBatch(unsigned k) { return k == R_RECYCLE || k == R_POPRANGE || k == R_PEEKRANGE; }
static inline void occupancy(FIFO *f, const Ref &q, size_t cap) {
  CHECK(f->size() == q.size(), "size is written minus consumed"); CHECK(f->capacity() == cap, "capacity"); CHECK(f->space_avail() == cap - q.size(), "free space + size = capacity");
}
