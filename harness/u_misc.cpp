// U01 manipulators, U02 errors, U03 activity counters, U07 partitioning, U08 random sources, U09 printing
//@ flags quick="-DNK=4 -DNV=2 -DSL=1" thorough="-DNK=7 -DNV=6 -DSL=2"
//@ entry u01_manip prop=U01 reach=done bound="affinity group and device manipulators with numbers from {0, 1, 7, 200}, alone and combined, bound to 1..3 of 4 kernels"
//@ entry u01_core prop=U01 reach=done bound="every core number set directly; every sequence of two manipulations"
//@ entry u01_exe prop=U01 conc reach=done quick="--preempt 1 --max-yields 3000 --time 400 --tso 1" thorough="--preempt 2 --max-yields 3000 --time 1500 --max-paths 600000 --tso 1" bound="map::exe over two kernels bound to cores, execution threads request exactly those cores; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry u02_kind prop=U02 reach=empty,some,long,done bound="every error kind, messages of 0..8 arbitrary characters and one longer than 20; caught as every base, copied, rethrown, outliving the original"
//@ entry u02_apart prop=U02 reach=done bound="every pair of error kinds"
//@ entry u03_add prop=U03 reach=added,ignored,done bound="every counter and flag value, sequences of three combinations, copies and assignments"
//@ entry u03_queue prop=U03 reach=writes,reads,frac,done bound="streams of u32, class types stored in place and by reference: histories of up to 6 element transfers by every writing call and by pop, counters read and zeroed in between, growth in between"
//@ entry u03_wait prop=U03 conc reach=done quick="--preempt 2 --max-yields 1000 --tso 1" thorough="--preempt 3 --max-yields 1000 --time 2000 --tso 1" bound="a writer that has to wait for room: flag and count; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry u03_mark prop=U03 conc reach=writer,reader,done quick="--preempt 0 --max-yields 1000" thorough="--preempt 0 --max-yields 1000" bound="streams of u32, class types stored in place and by reference: a writer (push, allocate, allocate_range, insert, range of slots) that certainly had to wait for room, a reader (pop) that certainly had to wait for an element, observed by reading the statistics before, while and after waiting"
//@ entry u07_basic prop=U07 reach=fewer,more,unknown,done bound="0..NK (4/7) kernels, 0 (unknown) to NK cores, basic and dummy strategy"
//@ entry u07_exe prop=U07 conc reach=done quick="--preempt 1 --max-yields 3000 --time 400 --tso 1" thorough="--preempt 2 --max-yields 3000 --time 1500 --max-paths 600000 --tso 1" bound="map::exe with basic partitioning over a chain of three kernels, 1..3 cores; execution threads request their kernel's core; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry u08_count prop=U08 reach=none,some,ports,full,done bound="random sources of 0..4 values on 1..3 ports of capacity 1..3, arbitrary generator output, reader emptying the stream at every second step; copies"
//@ entry u08_exe prop=U08 conc reach=done quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --time 1500 --max-paths 60000 --tso 1" bound="map::exe of a random source (linear congruential generator, uniform distribution) of 0..3 values and a sink; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry u09_print prop=U09 reach=none,some,two,done thorough="--time 1500" bound="print of char, u32, string and class values with and without delimiter, 1 or 2 inputs with 0..3 items at any wrap position, arbitrary characters, numbers up to 999; copies; own stream and standard output"
//@ entry u09_feed prop=U09 conc reach=done quick="--preempt 2 --max-yields 1000 --tso 1" thorough="--preempt 4 --max-yields 1000 --time 1500 --tso 1" bound="scheduler steps of a print kernel (with and without delimiter) over a stream of 2 that another thread fills with 3 characters and closes; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry u09_exe prop=U09 conc reach=done quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --time 1500 --max-paths 60000 --tso 1" bound="map::exe of a source and a print kernel, 0..3 characters; at one preemption recent stores may stay invisible (x86 store buffer)"
#include "graph.h"
#include <raftmanip>
#include <raftrandom>
#ifndef NV
#define NV 2
#define SL 1
#endif
#ifndef NK
#define NK 4
#endif
template <class T> struct Plug { FIFO *f; ptr_map_t rin, win; ptr_set_t rout, rpk, wout, wpk; Plug(size_t cap) { f = RingBuffer<T, Type::Heap, false>::make_new_fifo(cap, 64, nullptr); FifoAcc::map(f, &rin); FifoAcc::inPeek(f, &rpk); FifoAcc::out(f, &wout); FifoAcc::outPeek(f, &wpk); } ~Plug() { gc(); delete f; } void gc() { SchedAcc::gc(&rin, &rout, &rpk); rin.clear(); rout.clear(); rpk.clear(); SchedAcc::gc(&win, &wout, &wpk); win.clear(); wout.clear(); wpk.clear(); } };
// ---- U01
extern "C" { extern long symx_affinity_of[16]; extern long symx_affinity_calls; extern unsigned symx_hw_value; extern unsigned symx_rd_value; }
struct KAcc : public raft::kernel { static long group(raft::kernel &k) { return (long)(k.*(&KAcc::affinity_group)); } };
struct K0 : public raft::kernel { K0() { input.addPort<u32>("a"); output.addPort<u32>("b"); } raft::kstatus run() override { return raft::stop; } };
template <class M> static void bindSome(unsigned mask, raft::kernel **k) {
  switch (mask) { case 1: M::bind(*k[0]); break; case 2: M::bind(*k[1]); break; case 3: { auto a = M::bind(*k[0], *k[1]); CHECK(a.size() == 2 && &a[0].get() == k[0] && &a[1].get() == k[1], "the kernels given"); break; } case 4: M::bind(*k[2]); break; case 5: M::bind(*k[0], *k[2]); break; case 6: M::bind(*k[2], *k[1]); break; case 7: { auto a = M::bind(*k[0], *k[1], *k[2]); CHECK(a.size() == 3, "the kernels given"); break; } }
}
struct Want { long core[4] = {-1, -1, -1, -1}, group[4] = {-1, -1, -1, -1}; void on(unsigned mask, long c, long g) { for (unsigned i = 0; i < 3; i++) if (mask >> i & 1) { if (c >= 0) core[i] = c; if (g >= 0) group[i] = g; } } void check(raft::kernel **k) { for (unsigned i = 0; i < 4; i++) { CHECK((long)k[i]->getCoreAssignment() == core[i], "the requested core on the named kernels and on no other"); CHECK(KAcc::group(*k[i]) == group[i], "the requested group on the named kernels and on no other"); } } };
static void apply(Want &w, raft::kernel **k) {
  using namespace raft; using namespace raft::parallel; unsigned mask = sym_pick("mask", 1, 7);
  switch (sym_pick("what", 0, 7)) {
    case 0: bindSome<manip<device<cpu, 0>>>(mask, k); w.on(mask, 0, -1); break;
    case 1: bindSome<manip<device<cpu, 7>>>(mask, k); w.on(mask, 7, -1); break;
    case 2: bindSome<manip<affinity_group<1>>>(mask, k); w.on(mask, -1, 1); break;
    case 3: bindSome<manip<affinity_group<200>>>(mask, k); w.on(mask, -1, 200); break;
    case 4: bindSome<manip<affinity_group<0>, device<cpu, 1>>>(mask, k); w.on(mask, 1, 0); break;
    case 5: bindSome<manip<device<cpu, 200>, affinity_group<7>>>(mask, k); w.on(mask, 200, 7); break;
    case 6: bindSome<manip<device<cpu, 1>, device<cpu, 7>>>(mask, k); w.on(mask, 7, -1); break;
    case 7: bindSome<manip<>>(mask, k); break;
  }
}
SYMX_ENTRY(u01_manip) { K0 a, b, c, d; raft::kernel *k[4] = {&a, &b, &c, &d}; Want w; w.check(k); apply(w, k); w.check(k); CHECK(a.input.count() == 1 && a.output.count() == 1, "ports untouched"); symx_reach("done"); }
SYMX_ENTRY(u01_core) { K0 a, b, c, d; raft::kernel *k[4] = {&a, &b, &c, &d}; if (sym_pick("direct", 0, 1)) { core_id_t x = (core_id_t)sym_u64("core"), y = (core_id_t)sym_u64("group"); a.setCore(x); b.setAffinityGroup(y); CHECK(a.getCoreAssignment() == x && KAcc::group(b) == (long)y, "as set"); CHECK((long)b.getCoreAssignment() == -1 && (long)c.getCoreAssignment() == -1 && KAcc::group(a) == -1 && KAcc::group(c) == -1, "others untouched"); } else { Want w; apply(w, k); w.check(k); apply(w, k); w.check(k); } symx_reach("done"); }
struct Tell : public raft::kernel { long *core; unsigned n; Tell(long *c, bool src) : core(c), n(0) { if (src) output.addPort<u32>("o"); else input.addPort<u32>("i"); } raft::kstatus run() override { *core = symx_affinity_of[symx_thread_self() & 15] - 1; if (output.count()) { output["o"].push<u32>(1); return raft::stop; } u32 x; input["i"].pop(x); return raft::proceed; } };
SYMX_ENTRY(u01_exe) { long ca = -7, cb = -7; symx_affinity_calls = 0; { Tell a(&ca, true), b(&cb, false); using namespace raft::parallel; raft::manip<device<cpu, 5>>::bind(a); raft::manip<device<cpu, 9>>::bind(b); raft::map m; m += a >> b; m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); } CHECK(symx_affinity_calls == 2, "each execution thread requests a core"); CHECK(ca == 5 && cb == 9, "its own kernel's one, before the kernel runs"); symx_reach("done"); }
// ---- U02
enum { NKIND = 11 };
template <int N> struct Kind; template <> struct Kind<8> { typedef CloneNotImplementedException T; }; template <> struct Kind<9> { typedef MapException T; }; template <> struct Kind<10> { typedef KernelException T; };
template <> struct Kind<0> { typedef PortNotFoundException T; }; template <> struct Kind<1> { typedef PortDoubleInitializeException T; }; template <> struct Kind<2> { typedef PortTypeMismatchException T; }; template <> struct Kind<3> { typedef AmbiguousPortAssignmentException T; }; template <> struct Kind<4> { typedef ClosedPortAccessException T; }; template <> struct Kind<5> { typedef NoMoreDataException T; }; template <> struct Kind<6> { typedef PortAlreadyExists T; }; template <> struct Kind<7> { typedef PortUnconnectedException T; };
static bool sameText(const char *w, const std::string &m) { for (unsigned i = 0; i < m.size(); i++) if (w[i] != m[i]) return false; return w[m.size()] == 0; }
static std::string message() { unsigned n = sym_pick("len", 0, 12); std::string m; if (n > 9) { m.assign(n == 10 ? 300 : n == 11 ? 1100 : 5000, 'x'); m[m.size() / 2] = '\n'; m[m.size() - 2] = (char)(sym_u8("c") | 1); symx_reach("long"); return m; } if (n == 9) { m = "a message that is longer than what fits inside a string object"; m[3] = (char)sym_u8("c") | 1; symx_reach("long"); return m; } for (unsigned i = 0; i < n; i++) { u32 c = sym_u8("c"); symx_assume(c != 0); m.push_back((char)c); } symx_reach(n ? "some" : "empty"); return m; }
template <class E> static void raise(const std::string &m) { if (sym_pick("temp", 0, 1)) { std::string t(m); throw E(t); } E e(m); throw e; }
template <class E, class As> static void caught(const std::string &m) {
  bool got = false; try { raise<E>(m); } catch (const As &e) { got = true; CHECK(sameText(e.what(), m), "carries the message"); CHECK(dynamic_cast<const E *>((const std::exception *)&e) != nullptr, "of its own type"); } catch (...) { } CHECK(got, "caught as its own type, its base types and the standard error type");
  got = false; try { try { raise<E>(m); } catch (As &) { throw; } } catch (const E &e) { got = true; CHECK(sameText(e.what(), m), "carries the message after being rethrown"); } CHECK(got, "rethrown as its own type");
}
template <class E, class Mid> static void kindIs(const std::string &m) { switch (sym_pick("as", 0, 3)) { case 0: caught<E, E>(m); break; case 1: caught<E, Mid>(m); break; case 2: caught<E, RaftException>(m); break; default: caught<E, std::exception>(m); } alignas(E) char mem[sizeof(E)]; E *copy = nullptr; { E first(m); copy = new (mem) E(first); CHECK(sameText(first.what(), m), "carries the message"); } CHECK(sameText(copy->what(), m), "a copy outlives the original"); CHECK(sameText(copy->what(), m), "asking changes nothing"); copy->~E(); }
SYMX_ENTRY(u02_kind) {
  std::string m = message();
  switch (sym_pick("kind", 0, NKIND - 1)) { case 0: kindIs<Kind<0>::T, PortException>(m); break; case 1: kindIs<Kind<1>::T, PortException>(m); break; case 2: kindIs<Kind<2>::T, PortException>(m); break; case 3: kindIs<Kind<3>::T, PortException>(m); break; case 4: kindIs<Kind<4>::T, PortException>(m); break; case 5: kindIs<Kind<5>::T, PortException>(m); break; case 6: kindIs<Kind<6>::T, PortException>(m); break; case 7: kindIs<Kind<7>::T, PortException>(m); break; case 8: kindIs<Kind<8>::T, KernelException>(m); break; case 9: kindIs<Kind<9>::T, RaftException>(m); break; default: kindIs<Kind<10>::T, RaftException>(m); }
  symx_reach("done");
}
template <int A, int B> static void apart() { if constexpr (A != B) { typedef typename Kind<A>::T X; typedef typename Kind<B>::T Y; X x("m"); constexpr bool base = std::is_same<Y, KernelException>::value && A == 8; const std::exception *e = &x; bool is = dynamic_cast<const Y *>(e) != nullptr; CHECK(is == base, "distinguishable from the other kinds"); } }
template <int A> static void apartAll() { apart<A, 0>(); apart<A, 1>(); apart<A, 2>(); apart<A, 3>(); apart<A, 4>(); apart<A, 5>(); apart<A, 6>(); apart<A, 7>(); apart<A, 8>(); apart<A, 9>(); apart<A, 10>(); typename Kind<A>::T x("m"); const std::exception *e = &x; CHECK((dynamic_cast<const PortException *>(e) != nullptr) == (A < 8), "port errors are port errors"); CHECK((dynamic_cast<const KernelException *>(e) != nullptr) == (A == 8 || A == 10), "kernel errors are kernel errors"); CHECK((dynamic_cast<const MapException *>(e) != nullptr) == (A == 9), "map errors are map errors"); }
SYMX_ENTRY(u02_apart) { switch (sym_pick("kind", 0, NKIND - 1)) { case 0: apartAll<0>(); break; case 1: apartAll<1>(); break; case 2: apartAll<2>(); break; case 3: apartAll<3>(); break; case 4: apartAll<4>(); break; case 5: apartAll<5>(); break; case 6: apartAll<6>(); break; case 7: apartAll<7>(); break; case 8: apartAll<8>(); break; case 9: apartAll<9>(); break; default: apartAll<10>(); } symx_reach("done"); }
// ---- U03
SYMX_ENTRY(u03_add) {
  Blocked a, b; CHECK(a.bec.count == 0 && a.bec.blocked == 0, "starts at zero"); a.bec.count = sym_u32("c"); a.bec.blocked = sym_u32("b"); u32 c = a.bec.count, f = a.bec.blocked; Blocked d(a); CHECK(d.bec.count == c && d.bec.blocked == f, "a copy has the same counters"); b = a; CHECK(b.bec.count == c && b.bec.blocked == f, "so has an assigned one");
  for (int i = 0; i < 3; i++) { Blocked r; r.bec.count = sym_u32("c"); r.bec.blocked = sym_pick("odd", 0, 1) ? sym_u32("b") : 0; u32 rc = r.bec.count, rf = r.bec.blocked; Blocked &x = (a += r); CHECK(&x == &a, "itself"); if (rf == 0) { c += rc; symx_reach("added"); } else symx_reach("ignored"); CHECK(a.bec.count == c, "counts are added unless the operand was blocked"); CHECK(a.bec.blocked == f, "the flag is untouched"); CHECK(r.bec.count == rc && r.bec.blocked == rf, "the operand is untouched"); } CHECK(d.bec.count == d.bec.count && b.bec.blocked == f, "copies are independent"); symx_reach("done");
}
template <class T> static void counting() {
  Plug<T> p(4); FIFO *f = p.f; Ref q; u32 w = 0, r = 0; unsigned cap = 4; bool grown = false;
  for (unsigned step = 0; step < 4; step++) {
    switch (sym_pick("op", 0, 5)) {
      case 0: { static const unsigned kinds[] = {W_PUSH, W_ALLOC, W_PUSHR, W_INSERT, W_RANGE}; unsigned k = kinds[sym_pick("kind", 0, ext_alloc<T>::value ? 3 : 4)]; unsigned n = wBatch(k) ? sym_pick("n", 1, 2) : 1; if (q.size() + n > cap) symx_end(); writeN<T>(f, q, k, n, false); w += n; break; }
      case 1: { if (!q.size()) symx_end(); T x = Tr<T>::mk(0); f->pop(x); q.h++; r++; break; }
      case 2: { Blocked c; c.bec.count = 77; f->get_zero_write_stats(c); CHECK(c.bec.count == w, "elements written since the last reading"); CHECK(c.bec.blocked == 0, "never waited"); w = 0; symx_reach("writes"); break; }
      case 3: { Blocked c; f->get_zero_read_stats(c); CHECK(c.bec.count == r, "elements read since the last reading"); CHECK(c.bec.blocked == 0, "never waited"); r = 0; symx_reach("reads"); break; }
      case 4: { float x = f->get_frac_write_blocked(); CHECK(x == 0.0f, "no writer waited"); w = 0; symx_reach("frac"); break; }
      case 5: { if (grown) symx_end(); grown = true; volatile bool ex = true; f->resize(8, 64, ex); cap = f->capacity(); break; }
    }
  }
  Blocked a, b; f->get_zero_write_stats(a); f->get_zero_read_stats(b); CHECK(a.bec.count == w && a.bec.blocked == 0, "elements written since the last reading"); CHECK(b.bec.count == r && b.bec.blocked == 0, "elements read since the last reading"); f->get_zero_write_stats(a); f->get_zero_read_stats(b); CHECK(a.bec.count == 0 && b.bec.count == 0, "zero after reading"); p.gc(); symx_reach("done");
}
SYMX_ENTRY(u03_queue) { switch (sym_pick("type", 0, 2)) { case 0: counting<u32>(); break; case 1: counting<Small>(); break; default: counting<Big>(); } }
static FIFO *g_f; static void waiter(void *) { u32 x = 5; g_f->push(x); }
SYMX_ENTRY(u03_wait) { Plug<u32> p(1); g_f = p.f; u32 x = 4; unsigned ask = sym_pick("ask", 0, 1); g_f->push(x); int t = symx_thread_create(waiter, nullptr); symx_yield(); g_f->pop(x); symx_thread_join(t); Blocked w; if (ask) { g_f->get_zero_write_stats(w); CHECK(w.bec.count == 2, "both elements are counted"); CHECK(w.bec.blocked <= 1, "a flag"); } else { float fr = g_f->get_frac_write_blocked(); CHECK(fr == 0.0f || fr == 0.5f, "flag per element written"); } g_f->get_zero_write_stats(w); CHECK(w.bec.count == 0 && w.bec.blocked == 0, "zero after reading"); symx_reach("done"); }
struct MarkCtx { FIFO *f; unsigned op; }; static MarkCtx g_mark;
template <class T> static void marked(void *) { Ref q; FIFO *f = g_mark.f; if (g_mark.op < 4) { static const unsigned kinds[] = {W_PUSH, W_ALLOC, W_INSERT, W_RANGE}; writeN<T>(f, q, kinds[g_mark.op], 1, false); } else { T x = Tr<T>::mk(0); f->pop(x); } }
template <class T> static void marking() {
  Plug<T> p(2); FIFO *f = p.f; g_mark.f = f; g_mark.op = sym_pick("op", 0, 4); if (g_mark.op == 3 && ext_alloc<T>::value) symx_end(); bool wr = g_mark.op < 4; Ref q; unsigned zero = sym_pick("zero", 0, 2); Blocked b;
  if (wr) for (unsigned i = 0; i < 2; i++) writeN<T>(f, q, W_PUSH, 1, false); if (zero == 1) { if (wr) f->get_zero_write_stats(b); else f->get_zero_read_stats(b); CHECK(b.bec.blocked == 0 && b.bec.count == (wr ? 2 : 0), "nobody waited so far"); }
  int t = symx_thread_create(marked<T>, nullptr); for (unsigned i = 0; i < 3; i++) symx_yield(); // the other thread has run into its wait by now
  if (zero == 2) { if (wr) f->get_zero_write_stats(b); else f->get_zero_read_stats(b); CHECK(b.bec.blocked == 1, "waiting sets the mark"); CHECK(b.bec.count == (wr ? 2 : 0), "waiting is not counted as a transfer"); for (unsigned i = 0; i < 3; i++) symx_yield(); }
  if (wr) { T x = Tr<T>::mk(0); f->pop(x); } else writeN<T>(f, q, W_PUSH, 1, false); symx_thread_join(t); if (zero != 1 && wr && sym_pick("frac", 0, 1)) { float fr = f->get_frac_write_blocked(); CHECK(fr == (zero ? 1.0f : 1.0f / 3.0f), "waits per element written"); }
  else { if (wr) f->get_zero_write_stats(b); else f->get_zero_read_stats(b); CHECK(b.bec.blocked == 1, "an operation that had to wait marks its side"); CHECK(b.bec.count == (wr && !zero ? 3 : 1), "its element is counted once"); if (wr) f->get_zero_read_stats(b); else f->get_zero_write_stats(b); CHECK(b.bec.blocked == 0 && b.bec.count == 1, "the other side is not marked"); }
  if (wr) f->get_zero_write_stats(b); else f->get_zero_read_stats(b); CHECK(b.bec.blocked == 0 && b.bec.count == 0, "zero after reading"); symx_reach(wr ? "writer" : "reader"); symx_reach("done");
}
SYMX_ENTRY(u03_mark) { switch (sym_pick("type", 0, 2)) { case 0: marking<u32>(); break; case 1: marking<Small>(); break; default: marking<Big>(); } }
// ---- U07
SYMX_ENTRY(u07_basic) {
  unsigned n = sym_pick("n", 0, NK), cores = sym_pick("cores", 0, NK); symx_hw_value = cores; bool dummy = sym_pick("dummy", 0, 1); std::vector<K0 *> k; kernelkeeper kk; for (unsigned i = 0; i < n; i++) { k.push_back(new K0()); kk += k[i]; } if (dummy) { for (unsigned i = 0; i < n; i++) k[i]->setCore(40 + i); partition_dummy p; p.partition(kk); for (unsigned i = 0; i < n; i++) CHECK((long)k[i]->getCoreAssignment() == 40 + (long)i, "the dummy strategy assigns nothing"); }
  else { partition_basic p; p.partition(kk); unsigned lim = cores ? cores : 1, cnt[NK + 1] = {0}; for (unsigned i = 0; i < n; i++) { long c = (long)k[i]->getCoreAssignment(); CHECK(c >= 0 && c < (long)lim, "a core that exists"); cnt[c]++; } unsigned mn = ~0u, mx = 0; for (unsigned i = 0; i < lim; i++) { mn = cnt[i] < mn ? cnt[i] : mn; mx = cnt[i] > mx ? cnt[i] : mx; } CHECK(mx - mn <= 1, "balanced"); symx_reach(!cores ? "unknown" : n < cores ? "fewer" : "more"); }
  CHECK(kk.acquire().size() == n, "the kernels stay"); kk.release(); for (auto *x : k) delete x; symx_reach("done");
}
struct Pass : public raft::kernel { long *core; Pass(long *c) : core(c) { input.addPort<u32>("i"); output.addPort<u32>("o"); } raft::kstatus run() override { *core = symx_affinity_of[symx_thread_self() & 15] - 1; u32 x; input["i"].pop(x); output["o"].push(x); return raft::proceed; } };
SYMX_ENTRY(u07_exe) { unsigned cores = sym_pick("cores", 1, 3); symx_hw_value = cores; symx_affinity_calls = 0; long c[3] = {-1, -1, -1}; { Tell a(&c[0], true), b(&c[1], false); Pass p(&c[2]); raft::map m; m += a >> p >> b; m.exe<partition_basic, simple_schedule, stdalloc, no_parallel>(); unsigned cnt[3] = {0}; raft::kernel *k[3] = {&a, &b, &p}; for (auto *x : k) { long y = (long)x->getCoreAssignment(); CHECK(y >= 0 && y < (long)cores, "a core that exists"); cnt[y]++; } CHECK(c[0] == (long)a.getCoreAssignment() && c[1] == (long)b.getCoreAssignment() && c[2] == (long)p.getCoreAssignment(), "each execution thread requests its kernel's core before the kernel runs"); for (unsigned i = 0; i < cores; i++) CHECK(cnt[i] == 3 / cores || cnt[i] == 3 / cores + 1, "balanced"); } CHECK(symx_affinity_calls == 3, "each execution thread requests its core"); symx_reach("done"); }
// ---- U08
struct Gen { typedef u32 result_type; Gen(u32) {} static constexpr u32 min() { return 0; } static constexpr u32 max() { return ~0u; } u32 operator()() { return sym_u32("r"); } };
template <class T> struct Dist { std::vector<T> *log; unsigned *draws; Dist(std::vector<T> *l, unsigned *d) : log(l), draws(d) {} template <class G> T operator()(G &g) { T x = (T)g(); (*draws)++; log->push_back(x); return x; } };
struct ParAcc : public raft::parallel_k { static void more(raft::parallel_k &k) { (k.*(&ParAcc::addPortTo<u32>))(k.output); } };
SYMX_ENTRY(u08_count) {
  unsigned n = sym_pick("n", 0, 4), np = sym_pick("np", 1, 3), cap = sym_pick("cap", 1, 3), draws = 0; std::vector<u32> log, out; using RV = raft::random_variate<Gen, Dist, u32>; RV first(n, &log, &draws); RV *r = &first; if (sym_pick("copy", 0, 1)) { if (n && sym_pick("used", 0, 1)) { Plug<u32> q(4); PortAcc::infoFor(first.output, "0").setFIFO(q.f); first.run(); CHECK(q.f->size() == 1, "one value per port and step"); draws = 0; log.clear(); auto &pi = PortAcc::infoFor(first.output, "0"); pi.fifo_a = pi.fifo_b = nullptr; } r = new RV(first); }
  for (unsigned i = 1; i < np; i++) ParAcc::more(*r); CHECK(r->output.count() == np, "as many ports as asked for"); std::vector<Plug<u32> *> p; unsigned i = 0; for (unsigned j = 0; j < np; j++) { p.push_back(new Plug<u32>(cap)); PortAcc::infoFor(r->output, pname("", j)).setFIFO(p[j]->f); }
  unsigned got = 0, steps = 0; volatile bool fin = false; std::vector<u32> per[3];
  auto drain = [&] { for (unsigned j = 0; j < np; j++) while (p[j]->f->size()) { u32 x; p[j]->f->pop(x); per[j].push_back(x); got++; } };
  while (!fin && ++steps < 12) { bool room = true; for (auto *x : p) room = room && x->f->space_avail(); if (!room || (steps & 1)) { if (!room) symx_reach("full"); drain(); } Schedule::kernelRun(r, fin); CHECK(draws <= n, "no more values than requested"); }
  drain(); CHECK((bool)fin, "stops after the last value"); CHECK(got == n && draws == n, "exactly the requested number of values"); for (unsigned j = 0; j < np; j++) CHECK(p[j]->f->is_invalid(), "its outputs are closed"); unsigned used[3] = {0, 0, 0}; for (unsigned k = 0; k < n; k++) { bool hit = false; for (unsigned j = 0; j < np && !hit; j++) if (used[j] < per[j].size() && k % np == j) { CHECK(per[j][used[j]] == log[k], "the generated values in order"); used[j]++; hit = true; } CHECK(hit, "every value arrives"); }
  symx_reach(n ? "some" : "none"); if (np > 1) symx_reach("ports"); for (auto *x : p) delete x; symx_reach("done");
}
struct Cnt : public raft::kernel { unsigned *n; bool *ok; Cnt(unsigned *c, bool *o) : n(c), ok(o) { input.addPort<u32>("i"); } raft::kstatus run() override { u32 x; input["i"].pop(x); (*n)++; if (x < 3 || x > 9) *ok = false; return raft::proceed; } };
SYMX_ENTRY(u08_exe) { unsigned n = sym_pick("n", 0, 3), got = 0; bool ok = true; { raft::random_variate<std::minstd_rand, std::uniform_int_distribution, u32> r(n, 3, 9); Cnt c(&got, &ok); raft::map m; m += r >> c; m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); } CHECK(got == n, "exactly the requested number of values"); CHECK(ok, "from the distribution"); symx_reach("done"); }
// ---- U09
struct Buf : public std::streambuf { std::string s; std::streamsize xsputn(const char *p, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) s.push_back(p[i]); return n; } int_type overflow(int_type c) override { s.push_back((char)c); return c; } };
template <unsigned P> std::ostream &operator<<(std::ostream &o, const Obj<P> &x) { CHECK(x.magic == ALIVE, "printed object is alive"); char b[2] = {'<', (char)(x.v | 1)}; o.write(b, 2); return o; }
static void asText(std::string &s, char c) { s.push_back(c); } static void asText(std::string &s, const std::string &t) { s += t; } template <unsigned P> static void asText(std::string &s, const Obj<P> &x) { s.push_back('<'); s.push_back((char)(x.v | 1)); }
static void asText(std::string &s, u32 v) { if (v >= 100) s.push_back((char)('0' + v / 100)); if (v >= 10) s.push_back((char)('0' + v / 10 % 10)); s.push_back((char)('0' + v % 10)); }
template <class T> struct Mk; template <> struct Mk<char> { static char mk() { return (char)sym_u8("c"); } }; template <> struct Mk<u32> { static u32 mk() { static const u32 t[] = {0, 9, 10, 57, 100, 999}; return t[NV == 2 ? sym_pick("v", 0, 1) * 4 : sym_pick("v", 0, 5)]; } }; template <> struct Mk<std::string> { static std::string mk() { std::string s; unsigned n = sym_pick("sl", 0, SL); for (unsigned i = 0; i < n; i++) s.push_back((char)sym_u8("c")); return s; } }; template <unsigned P> struct Mk<Obj<P>> { static Obj<P> mk() { return Obj<P>(sym_u32("v")); } };
template <class T, char D> static void printing() {
  unsigned np = sym_pick("np", 1, 2), rot = sym_pick("rot", 0, 1); bool copy = sym_pick("copy", 0, 1), std_ = sym_pick("std", 0, 1); Buf b; std::ostream os(&b); Life::reset(); std::streambuf *old = nullptr; if (std_) { old = std::cout.rdbuf(&b); }
  { raft::print<T, D> own(os, np), con(np); raft::kernel *k = std_ ? (raft::kernel *)&con : (raft::kernel *)&own; if (copy) k = k->clone(); CHECK(k->input.count() == np && k->output.count() == 0, "as many inputs as asked for");
    std::vector<Plug<T> *> p; std::vector<T> v[2]; unsigned most = 0, pos = 0; for (unsigned i = 0; i < np; i++) { p.push_back(new Plug<T>(3)); PortAcc::infoFor(k->input, pname("", i)).setFIFO(p[i]->f); for (unsigned j = 0; j < rot; j++) { T x = Mk<T>::mk(); p[i]->f->push(x); p[i]->f->recycle(); p[i]->gc(); } unsigned n = sym_pick("fill", 0, np == 2 ? 2 : 3); v[i].reserve(4); for (unsigned j = 0; j < n; j++) { v[i].push_back(Mk<T>::mk()); p[i]->f->push(v[i][j]); } most = n > most ? n : most; }
    volatile bool fin = false; std::string expect; unsigned rest = 0; for (unsigned i = 0; i < np; i++) rest += v[i].size(); unsigned head[2] = {0, 0}, steps = 0;
    while (rest && ++steps < 10) { std::size_t before = b.s.size(); Schedule::kernelRun(k, fin); for (unsigned i = 0; i < np; i++) { unsigned now = v[i].size() - p[i]->f->size(); CHECK(now >= head[i] && now <= v[i].size(), "items are consumed in turn"); while (head[i] < now) { asText(expect, v[i][head[i]++]); if (D) expect.push_back(D); rest--; } } CHECK(b.s.size() == expect.size(), "exactly the consumed items are printed"); for (; pos < expect.size(); pos++) CHECK(b.s[pos] == expect[pos], "each item once, in order, followed by the delimiter"); }
    CHECK(rest == 0, "everything is printed"); for (auto *x : p) x->f->invalidate(); Schedule::kernelRun(k, fin); CHECK((bool)fin, "ends when the inputs are drained and closed"); CHECK(b.s.size() == expect.size(), "nothing else is printed"); symx_reach(most ? "some" : "none"); if (np == 2) symx_reach("two"); for (auto *x : p) delete x; if (copy) delete k; }
  if (std_) std::cout.rdbuf(old); CHECK(Life::live() == 0, "element objects are destroyed exactly once"); symx_reach("done");
}
SYMX_ENTRY(u09_print) { switch (sym_pick("type", 0, 8)) { case 0: printing<char, '\0'>(); break; case 1: printing<char, '\n'>(); break; case 2: printing<u32, ','>(); break; case 3: printing<std::string, '\0'>(); break; case 4: printing<std::string, ' '>(); break; case 5: printing<Small, '\n'>(); break; case 6: printing<Small, '\0'>(); break; case 7: printing<Big, ';'>(); break; default: printing<Big, '\0'>(); } }
struct Chars : public raft::kernel { std::string s; unsigned i = 0; Chars(const std::string &t) : s(t) { output.addPort<char>("o"); } raft::kstatus run() override { if (i == s.size()) return raft::stop; output["o"].push(s[i++]); return raft::proceed; } };
SYMX_ENTRY(u09_exe) { unsigned n = sym_pick("n", 0, 3); std::string s, e; for (unsigned i = 0; i < n; i++) { s.push_back((char)sym_u8("c")); e.push_back(s[i]); e.push_back(' '); } Buf b; std::ostream os(&b); { Chars c(s); raft::print<char, ' '> p(os); raft::map m; m += c >> p; m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); } CHECK(b.s.size() == e.size(), "every item once"); for (unsigned i = 0; i < e.size(); i++) CHECK(b.s[i] == e[i], "in order"); symx_reach("done"); }

struct CFeed { FIFO *f; char v[3]; };
template <char D> static void printFeed() {
  Buf b; std::ostream os(&b); raft::print<char, D> k(os); CFeed c; c.f = RingBuffer<char, Type::Heap, false>::make_new_fifo(2, 64, nullptr); for (auto &x : c.v) x = (char)sym_u8("c"); PortAcc::infoFor(k.input, "0").setFIFO(c.f);
  int t = symx_thread_create([](void *p) { auto *c = (CFeed *)p; for (char x : c->v) c->f->push(x); c->f->invalidate(); }, &c); volatile bool fin = false; while (!fin) if (!Schedule::kernelRun(&k, fin)) symx_yield(); symx_thread_join(t);
  const unsigned w = D ? 2 : 1; CHECK(b.s.size() == 3 * w, "every item once"); for (unsigned i = 0; i < 3; i++) { CHECK(b.s[i * w] == c.v[i], "in order"); if (D) CHECK(b.s[i * w + 1] == D, "followed by the delimiter"); } CHECK(c.f->size() == 0, "drained"); delete c.f; symx_reach("done");
}
SYMX_ENTRY(u09_feed) { if (sym_pick("delim", 0, 1)) printFeed<','>(); else printFeed<'\0'>(); }
