// S03: execution of whole programs
//@ flags quick="-DQ=1" thorough="-DQ=0"
//@ entry s03_chain prop=S03 reach=done conc quick="--preempt 0 --max-yields 3000" bound="map::exe with its default allocator, scheduler and monitors: source, 0..2 transformers, sink; 0..3 elements, queue sizes 1..2 or default, chain built by link or by expression"
//@ entry s03_big prop=S03 reach=done conc quick="--preempt 0 --max-yields 3000" bound="as s03_chain for elements stored by reference that are passed on"
//@ entry s03_fan prop=S03 reach=done conc quick="--preempt 0 --max-yields 3000" bound="source with two outputs, two sinks; two sources, one sink that reads both; diamond"
//@ entry s03_std prop=S03 reach=done conc quick="--preempt 1 --max-yields 3000 --max-paths 60000 --tso 1" thorough="--preempt 1 --max-yields 3000 --tso 1" bound="map::exe with stdalloc and no parallelism monitor: source and sink, 0..2 elements through a queue of 1, all schedules with at most 1 preemptions; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry s03_sched prop=S03 reach=done conc quick="--preempt 1 --max-yields 1000 --tso 1" thorough="--preempt 2 --max-yields 1000 --time 700 --tso 1" bound="the scheduler's kernel steps of source, transformer and sink on three threads, 2 elements through queues of 1, all schedules with at most 1 (2) preemptions; at one preemption recent stores may stay invisible (x86 store buffer)"
#include "graph.h"
#include <raftinc/kernel_all.hpp>
template <class T> struct Src : public raft::kernel { unsigned n, i = 0, w; const u32 *v; Src(unsigned n, const u32 *v, unsigned w = 0, unsigned outs = 1) : n(n), w(w), v(v) { for (unsigned k = 0; k < outs; k++) output.addPort<T>(pname("o", k)); outs_ = outs; } unsigned outs_;
  raft::kstatus run() override { if (i == n) return raft::stop; for (unsigned k = 0; k < outs_; k++) { FIFO &f = output[pname("o", k)]; if (w == 1) { if constexpr (std::is_class<T>::value) { f.template allocate<T>(v[i]); } else { f.template allocate<T>() = Tr<T>::mk(v[i]); } f.send(); } else { T x = Tr<T>::mk(v[i]); f.push(x); } } i++; return w == 2 && i == n ? raft::stop : raft::proceed; } };
template <class T> struct Inc : public raft::kernel { Inc() { input.addPort<T>("i0"); output.addPort<T>("o0"); } raft::kstatus run() override { if constexpr (std::is_class<T>::value) { auto &x = input["i0"].template peek<T>(); Tr<T>::set(x, Tr<T>::get(x) + 1); output["o0"].push(x); input["i0"].unpeek(); input["i0"].recycle(); } else { T x; input["i0"].pop(x); x = x + 1; output["o0"].push(x); } return raft::proceed; } };
template <class T, class B = raft::kernel> struct Snk : public B { unsigned ni, n[2] = {0, 0}; u32 got[2][8]; Snk(unsigned k = 1) : ni(k) { for (unsigned i = 0; i < k; i++) B::input.template addPort<T>(pname("i", i)); }
  raft::kstatus run() override { for (unsigned k = 0; k < ni; k++) { FIFO &f = B::input[pname("i", k)]; if (!f.size()) continue; T x = Tr<T>::mk(0); f.pop(x); CHECK(n[k] < 8, "no more than was sent"); CHECK(Tr<T>::ok(x), "live element"); got[k][n[k]++] = Tr<T>::get(x); } return raft::proceed; } };
template <class T> static void chain(unsigned maxT) {
  unsigned n = sym_pick("n", 0, 3), nt = sym_pick("nt", 0, maxT), w = sym_pick("w", 0, 2), bs = sym_pick("buf", 0, 2), expr = sym_pick("expr", 0, 1); u32 v[3]; for (auto &x : v) x = Tr<T>::norm(sym_u32("v")); if (n == 0) w = 0;
  { Src<T> s(n, v, w); Inc<T> t0, t1; Snk<T> k; raft::map m; raft::kernel *c[4] = {&s, &t0, &t1, &k}; if (nt < 2) c[2] = &k; if (nt < 1) c[1] = &k;
    if (expr && nt == 2) m += s >> t0 >> t1 >> k; else if (expr && nt == 1) m += s >> t0 >> k; else if (expr) m += s >> k; else for (unsigned i = 0; i + 1 < nt + 2; i++) m.link(c[i], "o0", c[i + 1], "i0", bs);
    m.exe(); CHECK(k.n[0] == n, "the sink receives as many elements as were sent"); for (unsigned i = 0; i < n; i++) CHECK(k.got[0][i] == Tr<T>::norm(v[i] + nt), "the sink receives the transformed sequence"); }
  symx_reach("done");
}
SYMX_ENTRY(s03_chain) { chain<u32>(2); }
SYMX_ENTRY(s03_big) { long h0 = symx_live_heap(); Life::reset(); chain<Big>(2); CHECK(Life::live() == 0, "elements are destroyed exactly once"); (void)h0; }
SYMX_ENTRY(s03_fan) {
  unsigned shape = sym_pick("shape", 0, 2), n = sym_pick("n", 0, 2), b = sym_pick("buf", 0, 2); u32 v[2] = {sym_u32("v"), sym_u32("v")}; raft::map m; u32 u[2] = {sym_u32("u"), sym_u32("u")};
  if (shape == 0) { Src<u32> s(n, v, 0, 2); Snk<u32> a, c; m.link(&s, "o0", &a, "i0", b); m.link(&s, "o1", &c, "i0", b); m.exe(); CHECK(a.n[0] == n && c.n[0] == n, "both sinks receive everything"); for (unsigned i = 0; i < n; i++) CHECK(a.got[0][i] == v[i] && c.got[0][i] == v[i], "the sinks receive the sequence"); }
  else if (shape == 1) { Src<u32> s(n, v), t(2, u); Snk<u32> k(2); m.link(&s, "o0", &k, "i0", b); m.link(&t, "o0", &k, "i1", b); m.exe(); CHECK(k.n[0] == n && k.n[1] == 2, "the sink receives everything from both"); for (unsigned i = 0; i < n; i++) CHECK(k.got[0][i] == v[i], "first input"); for (unsigned i = 0; i < 2; i++) CHECK(k.got[1][i] == u[i], "second input"); }
  else { Src<u32> s(n, v, 0, 2); Inc<u32> p; Snk<u32, raft::kernel_all> k(2); m.link(&s, "o0", &p, "i0", b); m.link(&s, "o1", &k, "i1", b); m.link(&p, "o0", &k, "i0", b); m.exe(); CHECK(k.n[0] == n && k.n[1] == n, "the sink receives everything over both branches"); for (unsigned i = 0; i < n; i++) CHECK(k.got[0][i] == v[i] + 1 && k.got[1][i] == v[i], "the branches' sequences"); }
  symx_reach("done");
}
SYMX_ENTRY(s03_std) {
  unsigned n = sym_pick("n", 0, 2); u32 v[2] = {sym_u32("v"), sym_u32("v")}; Src<u32> s(n, v); Snk<u32> k; raft::map m; m.link(&s, "o0", &k, "i0", 1); m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); CHECK(k.n[0] == n, "the sink receives as many elements as were sent"); for (unsigned i = 0; i < n; i++) CHECK(k.got[0][i] == v[i], "the sink receives the sequence"); symx_reach("done");
}
struct SA : public Schedule { static void sets(raft::kernel *k, ptr_map_t *i, ptr_set_t *o, ptr_set_t *p) { setPtrSets(k, i, o, p); } static void gc(ptr_map_t *i, ptr_set_t *o, ptr_set_t *p) { fifo_gc(i, o, p); } };
static void body(void *p) { auto *k = (raft::kernel *)p; ptr_map_t in; ptr_set_t out, pk; SA::sets(k, &in, &out, &pk); volatile bool fin = false; while (!fin) { if (!Schedule::kernelRun(k, fin)) symx_yield(); SA::gc(&in, &out, &pk); } }
SYMX_ENTRY(s03_sched) {
  u32 v[2] = {sym_u32("v"), sym_u32("v")}; Src<u32> s(2, v, sym_pick("w", 0, 2)); Inc<u32> t; Snk<u32> k; FIFO *a = RingBuffer<u32, Type::Heap, false>::make_new_fifo(1, 64, nullptr), *b = RingBuffer<u32, Type::Heap, false>::make_new_fifo(1, 64, nullptr); PortAcc::infoFor(s.output, "o0").setFIFO(a); PortAcc::infoFor(t.input, "i0").setFIFO(a); PortAcc::infoFor(t.output, "o0").setFIFO(b); PortAcc::infoFor(k.input, "i0").setFIFO(b);
  int x = symx_thread_create(body, (raft::kernel *)&s), y = symx_thread_create(body, (raft::kernel *)&t); body((raft::kernel *)&k); symx_thread_join(x); symx_thread_join(y); CHECK(k.n[0] == 2 && k.got[0][0] == v[0] + 1 && k.got[0][1] == v[1] + 1, "the sink receives the transformed sequence"); delete a; delete b; symx_reach("done");
}
