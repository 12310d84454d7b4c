// R04: function kernels, R05: selecting among inputs, R06: arithmetic over ports
//@ flags quick="-DPMAX=2 -DSEEDS=9" thorough="-DPMAX=3 -DSEEDS=40"
//@ entry r04_same prop=R04 reach=stop,proceed,done bound="lambdak<T> with 0..PMAX (2/3) inputs and outputs, u32 and a class type, plain function, lambda and function object with state, 1..3 firings, every result"
//@ entry r04_types prop=R04 reach=done bound="lambdak over the type lists {u8,u64,class}, {double,class,u16,u32}, {u32,i16} with every division into inputs and outputs"
//@ entry r04_move prop=R04 reach=done bound="a function that adds its two inputs and writes both outputs, symbolic values, driven by scheduler steps"
//@ entry r04_exe prop=R04 conc reach=done quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --time 1500 --max-paths 60000 --tso 1" bound="map::exe of a producing, a transforming and a consuming function kernel, 0..3 elements; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry r05_two prop=R05 reach=data,nothing,first0,first1 bound="select over 1 and 2 inputs, each with 0..2 elements, open or closed, SEEDS (9/40) generator seeds, three selections in a row with consumption between"
//@ entry r05_three prop=R05 reach=data,nothing,first0,first1,first2 bound="select over 3 of 4 inputs, each with 0..2 elements, every type of element, SEEDS (9/40) generator seeds, repeated selections"
//@ entry r06_int prop=R06 reach=sum,mult,wrapped bound="sum and mult over 1..4 ports of u32, u64, i32 and u8 with arbitrary values (signed: without overflow), 1..2 calls in a row at every wrap position of streams of 2"
//@ entry r06_fp prop=R06 reach=sum,mult bound="sum and mult over 1 and 2 ports of double and float, values k and k/4 for every 8-bit k"
//@ entry r06_wait prop=R06 conc reach=done quick="--preempt 2 --max-yields 1000 --tso 1" thorough="--preempt 3 --max-yields 1000 --time 2000 --tso 1" bound="sum over two ports whose elements arrive later from another thread; at one preemption recent stores may stay invisible (x86 store buffer)"
#include "graph.h"
#include <raftmath>
#ifndef PMAX
#define PMAX 2
#endif
#ifndef SEEDS
#define SEEDS 9
#endif
// ---- R04
static raft::kstatus st(unsigned r) { return r ? raft::stop : raft::proceed; }
struct Seen { unsigned calls = 0; Port *in = nullptr, *out = nullptr; unsigned ret = 0; };
static Seen g_seen;
static raft::kstatus plain(Port &i, Port &o) { g_seen.calls++; g_seen.in = &i; g_seen.out = &o; return st(g_seen.ret); }
struct Obj0 { Seen *s; unsigned n; raft::kstatus operator()(Port &i, Port &o) { n++; s->calls++; CHECK(n == s->calls, "the function object's own state is kept between firings"); s->in = &i; s->out = &o; return st(s->ret); } };
template <class T> static void ports(Port &p, unsigned n) { CHECK(p.count() == n, "as many ports as requested"); for (unsigned i = 0; i < n; i++) CHECK(p.getPortType(pname("", i)) == typeid(T), "ports of the requested type"); }
template <class K> static void fire(K &k, Seen &s) { unsigned f = sym_pick("firings", 1, 3); for (unsigned i = 0; i < f; i++) { CHECK(s.calls == i, "no call without a firing"); s.ret = sym_pick("ret", 0, 1); s.in = s.out = nullptr; raft::kstatus r = ((raft::kernel &)k).run(); CHECK(s.calls == i + 1, "called exactly once per firing"); CHECK(s.in == &k.input, "called with the kernel's own input ports"); CHECK(s.out == &k.output, "called with the kernel's own output ports"); CHECK(r == st(s.ret), "the function's result is reported"); symx_reach(s.ret ? "stop" : "proceed"); } }
template <class T> static void same() {
  unsigned ni = sym_pick("ni", 0, PMAX), no = sym_pick("no", 0, PMAX), how = sym_pick("how", 0, 2); Seen s; g_seen = Seen();
  if (how == 0) { raft::lambdak<T> k(ni, no, plain); ports<T>(k.input, ni); ports<T>(k.output, no); fire(k, g_seen); }
  else if (how == 1) { raft::lambdak<T> k(ni, no, [&s](Port &i, Port &o) { s.calls++; s.in = &i; s.out = &o; return st(s.ret); }); ports<T>(k.input, ni); ports<T>(k.output, no); fire(k, s); }
  else { raft::lambdak<T> other(ni, no, plain); raft::lambdak<T> k(ni, no, Obj0{&s, 0}); ports<T>(k.input, ni); ports<T>(k.output, no); fire(k, s); CHECK(g_seen.calls == 0, "another kernel's function is not called"); }
  symx_reach("done");
}
SYMX_ENTRY(r04_same) { if (sym_pick("type", 0, 1)) same<u32>(); else same<Small>(); }
template <class... T> static void typed() {
  const std::type_info *t[] = {&typeid(T)...}; const unsigned n = sizeof...(T); unsigned ni = sym_pick("ni", 0, n); Seen s; raft::lambdak<T...> k(ni, n - ni, [&s](Port &i, Port &o) { s.calls++; s.in = &i; s.out = &o; return st(s.ret); });
  CHECK(k.input.count() == ni && k.output.count() == n - ni, "as many ports as requested"); for (unsigned i = 0; i < ni; i++) CHECK(k.input.getPortType(pname("", i)) == *t[i], "input ports have the requested types"); for (unsigned i = ni; i < n; i++) CHECK(k.output.getPortType(pname("", i - ni)) == *t[i], "output ports have the requested types"); fire(k, s); symx_reach("done");
}
SYMX_ENTRY(r04_types) { switch (sym_pick("list", 0, 2)) { case 0: typed<unsigned char, u64, Small>(); break; case 1: typed<double, Small, uint16_t, u32>(); break; default: typed<u32, int16_t>(); } }
template <class T> struct Plug { FIFO *f; ptr_map_t rin, win; ptr_set_t rout, rpk, wout, wpk; Plug(size_t cap) { f = RingBuffer<T, Type::Heap, false>::make_new_fifo(cap, 64, nullptr); FifoAcc::map(f, &rin); FifoAcc::inPeek(f, &rpk); FifoAcc::out(f, &wout); FifoAcc::outPeek(f, &wpk); } ~Plug() { SchedAcc::gc(&rin, &rout, &rpk); delete f; } };
SYMX_ENTRY(r04_move) {
  unsigned n = sym_pick("n", 0, 3), calls = 0; u32 a[3], b[3];
  raft::lambdak<u32> k(2, 2, [&](Port &i, Port &o) { calls++; u32 x, y; i["0"].pop(x); i["1"].pop(y); o["0"].push(x + y); o["1"].push(x - y); return raft::proceed; });
  Plug<u32> i0(4), i1(4), o0(4), o1(4); PortAcc::infoFor(k.input, "0").setFIFO(i0.f); PortAcc::infoFor(k.input, "1").setFIFO(i1.f); PortAcc::infoFor(k.output, "0").setFIFO(o0.f); PortAcc::infoFor(k.output, "1").setFIFO(o1.f);
  for (unsigned i = 0; i < n; i++) { a[i] = sym_u32("a"); b[i] = sym_u32("b"); i0.f->push(a[i]); i1.f->push(b[i]); } i0.f->invalidate(); i1.f->invalidate();
  volatile bool fin = false; unsigned steps = 0; while (!fin && ++steps < 10) Schedule::kernelRun(&k, fin); CHECK((bool)fin && calls == n, "one call per firing"); CHECK(o0.f->size() == n && o1.f->size() == n, "the function's output"); for (unsigned i = 0; i < n; i++) { u32 x, y; o0.f->pop(x); o1.f->pop(y); CHECK(x == a[i] + b[i] && y == a[i] - b[i], "the function's output"); } symx_reach("done");
}
SYMX_ENTRY(r04_exe) {
  unsigned n = sym_pick("n", 0, 3), made = 0; std::vector<u32> got; u32 v[3]; for (unsigned i = 0; i < n; i++) v[i] = sym_u32("v");
  { raft::lambdak<u32> a(0, 1, [&](Port &, Port &o) { if (made == n) return raft::stop; o["0"].push(v[made++]); return raft::proceed; });
    raft::lambdak<u32> b(1, 1, [](Port &i, Port &o) { u32 x; i["0"].pop(x); o["0"].push(x ^ 0x55u); return raft::proceed; });
    raft::lambdak<u32> c(1, 0, [&](Port &i, Port &) { u32 x; i["0"].pop(x); got.push_back(x); return raft::proceed; });
    raft::map m; m += a >> b >> c; m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); }
  CHECK(got.size() == n, "every element passes the functions"); for (unsigned i = 0; i < n; i++) CHECK(got[i] == (v[i] ^ 0x55u), "in order, as computed"); symx_reach("done");
}
// ---- R05
extern "C" unsigned symx_rd_value;
template <class T> struct Multi : public raft::kernel { std::vector<Plug<T> *> s; std::vector<unsigned> n; Multi(unsigned k) { for (unsigned i = 0; i < k; i++) { input.addPort<T>(pname("i", i)); s.push_back(new Plug<T>(3)); n.push_back(0); PortAcc::infoFor(input, pname("i", i)).setFIFO(s[i]->f); } } ~Multi() { for (auto *x : s) delete x; } raft::kstatus run() override { return raft::stop; } };
template <class T, class F> static void selecting(unsigned k, const unsigned *asked, unsigned na, F sel) {
  symx_rd_value = 1 + 7919u * sym_pick("seed", 0, SEEDS - 1); Multi<T> m(k); u32 v[4][4]; for (unsigned i = 0; i < k; i++) { m.n[i] = sym_pick("fill", 0, 2); for (unsigned j = 0; j < m.n[i]; j++) { v[i][j] = sym_u32("v"); T x = Tr<T>::mk(v[i][j]); m.s[i]->f->push(x); } } if (sym_pick("closed", 0, 1)) for (auto *s : m.s) s->f->invalidate();
  unsigned head[4] = {0, 0, 0, 0};
  for (unsigned r = 0; r < 3; r++) {
    bool any = false, all = true; for (unsigned i = 0; i < na; i++) { any = any || m.n[asked[i]]; all = all && m.n[asked[i]]; }
    raft::select_t q = sel(m.input); FIFO *f = &q.second.get(); int which = -1; for (unsigned i = 0; i < na; i++) if (m.s[asked[i]]->f == f) which = asked[i]; CHECK(which >= 0, "one of the ports asked about");
    if (any) { CHECK(q.first > 0, "data is reported if any of the ports has some"); CHECK(q.first == m.n[which], "with that port's element count"); symx_reach("data"); if (all) symx_reach(which == 0 ? "first0" : which == 1 ? "first1" : "first2"); } else { CHECK(q.first == 0, "no data is reported if none has any"); symx_reach("nothing"); }
    for (unsigned i = 0; i < k; i++) CHECK(m.s[i]->f->size() == m.n[i], "nothing is consumed");
    if (any && m.n[which]) { T x = Tr<T>::mk(0); f->pop(x); CHECK(Tr<T>::get(x) == Tr<T>::norm(v[which][head[which]++]), "the port's next element"); m.n[which]--; } else break;
  }
}
SYMX_ENTRY(r05_two) { static const unsigned a[] = {0, 1}; if (sym_pick("one", 0, 1)) selecting<u32>(2, a, 1, [](Port &p) { return raft::select::in(p, "i0"); }); else selecting<u32>(2, a, 2, [](Port &p) { return raft::select::in(p, "i0", "i1"); }); }
SYMX_ENTRY(r05_three) { static const unsigned a[] = {2, 0, 1}; auto s = [](Port &p) { return raft::select::in(p, "i2", "i0", "i1"); }; switch (sym_pick("type", 0, 2)) { case 0: selecting<u32>(4, a, 3, s); break; case 1: selecting<Small>(3, a, 3, s); break; default: selecting<Big>(3, a, 3, s); } }
// ---- R06
template <class T, bool MUL, class G> static void arith(unsigned np, unsigned rounds, unsigned rot, G gen, bool (*over)(T, T, bool) = nullptr) {
  Plug<T> *p[4]; T v[4][2]; for (unsigned i = 0; i < np; i++) { p[i] = new Plug<T>(2); T z = T(); for (unsigned j = 0; j < rot; j++) { p[i]->f->push(z); p[i]->f->recycle(); } for (unsigned j = 0; j < 2; j++) { v[i][j] = gen(); p[i]->f->push(v[i][j]); } }
  for (unsigned r = 0; r < rounds; r++) {
    T e = v[np - 1][r]; for (int i = (int)np - 2; i >= 0; i--) { if (over && over(v[i][r], e, MUL)) symx_end(); e = MUL ? T(v[i][r] * e) : T(v[i][r] + e); }
    T g; if constexpr (MUL) g = np == 1 ? raft::mult<T>(*p[0]->f) : np == 2 ? raft::mult<T>(*p[0]->f, *p[1]->f) : np == 3 ? raft::mult<T>(*p[0]->f, *p[1]->f, *p[2]->f) : raft::mult<T>(*p[0]->f, *p[1]->f, *p[2]->f, *p[3]->f);
    else g = np == 1 ? raft::sum<T>(*p[0]->f) : np == 2 ? raft::sum<T>(*p[0]->f, *p[1]->f) : np == 3 ? raft::sum<T>(*p[0]->f, *p[1]->f, *p[2]->f) : raft::sum<T>(*p[0]->f, *p[1]->f, *p[2]->f, *p[3]->f);
    CHECK(g == e, "the combination of the next element of each port"); for (unsigned i = 0; i < np; i++) CHECK(p[i]->f->size() == 1 - r, "exactly one element of each port is consumed"); }
  for (unsigned i = 0; i < np; i++) { for (unsigned r = rounds; r < 2; r++) { T x; p[i]->f->pop(x); CHECK(x == v[i][r], "the others stay, in order"); } delete p[i]; }
  if (rot) symx_reach("wrapped"); symx_reach(MUL ? "mult" : "sum");
}
static bool over32(int a, int b, bool mul) { int r; return mul ? __builtin_mul_overflow(a, b, &r) : __builtin_add_overflow(a, b, &r); }
SYMX_ENTRY(r06_int) {
  unsigned np = sym_pick("np", 1, 4), rounds = sym_pick("rounds", 1, 2), rot = sym_pick("rot", 0, 1);
  switch (sym_pick("kind", 0, 6)) {
    case 0: arith<u32, false>(np, rounds, rot, [] { return sym_u32("v"); }); break;
    case 1: arith<u64, false>(np, rounds, rot, [] { return sym_u64("v"); }); break;
    case 2: arith<int, false>(np, rounds, rot, [] { return sym_i32("v"); }, over32); break;
    case 3: arith<unsigned char, false>(np, rounds, rot, [] { return sym_u8("v"); }); break;
    case 4: arith<u32, true>(np, rounds, rot, [] { return sym_u32("v"); }); break;
    case 5: arith<unsigned char, true>(np, rounds, rot, [] { return sym_u8("v"); }); break;
    case 6: arith<int, true>(np, rounds, rot, [] { return (int)sym_u16("v") % 64 - 32; }); break;
  }
}
template <class T> static T small() { unsigned char c = sym_u8("v"); return (T)(int)(signed char)c; }
template <class T> static T half() { unsigned char c = sym_u8("v"); return (T)(int)(signed char)c / (T)4; }
SYMX_ENTRY(r06_fp) {
  unsigned np = sym_pick("np", 1, 2);
  switch (sym_pick("kind", 0, 3)) {
    case 0: arith<double, false>(np, 1, 0, half<double>); break;
    case 1: arith<float, false>(np, 1, 0, half<float>); break;
    case 2: arith<double, true>(np, 1, 0, small<double>); break;
    case 3: arith<float, true>(np, 1, 0, small<float>); break;
  }
}
static Plug<u32> *g_p[2]; static u32 g_v[2];
static void feeder(void *) { for (int i = 1; i >= 0; i--) g_p[i]->f->push(g_v[i]); }
SYMX_ENTRY(r06_wait) { for (int i = 0; i < 2; i++) { g_p[i] = new Plug<u32>(1); g_v[i] = sym_u32("v"); } bool mul = sym_pick("mul", 0, 1); int t = symx_thread_create(feeder, nullptr); u32 r = mul ? raft::mult<u32>(*g_p[0]->f, *g_p[1]->f) : raft::sum<u32>(*g_p[0]->f, *g_p[1]->f); CHECK(r == (mul ? g_v[0] * g_v[1] : g_v[0] + g_v[1]), "waits for the elements"); symx_thread_join(t); for (int i = 0; i < 2; i++) { CHECK(g_p[i]->f->size() == 0, "both consumed"); delete g_p[i]; } symx_reach("done"); }
