// S01: firing rules, S02: finishing, S04: system signals
//@ entry s01_ready prop=S01 reach=any,all,none bound="0..3 inputs each holding 0..2 elements, open or closed, both firing rules, both orders of adding the ports"
//@ entry s01_run prop=S01 reach=ran,idle bound="as s01_ready through one scheduler step"
//@ entry s02_step prop=S02 reach=stopped,drained,alive bound="0..2 inputs with 0..2 elements, open or closed, 0..3 outputs of which one may have been closed before, kernel that consumes 0..2 elements, forwards them and asks to stop or not, 3 scheduler steps, both rules"
//@ entry s02_race prop=S02 conc reach=done quick="--preempt 2 --tso 1" thorough="--preempt 4 --tso 1" bound="scheduler steps of a consumer racing with a producer that writes 0..2 elements and then closes; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry s04_handlers prop=S04 reach=called,missing bound="up to 3 registrations of 3 handlers for signals of any value, then a call for any registered signal or for unregistered ones (7 or 12345)"
//@ entry s04_fifo_u32 prop=S04 reach=handled,none bound="0..2 system signals (symbolic) among 0..3 elements on one of 2 inputs at every wrap position, delivered one scheduler check at a time"
//@ entry s04_fifo_small prop=S04 reach=handled,none bound="as s04_fifo_u32"
//@ entry s04_fifo_big prop=S04 reach=handled,none bound="as s04_fifo_u32"
//@ entry s04_many prop=S04 reach=stop,go bound="three inputs, each empty, with an element, or with one of three system signals at its head, two scheduler checks"
//@ entry s04_quit prop=S04 reach=done bound="the scheduler's own handler for quit"
#include "graph.h"
#include <raftinc/kernel_all.hpp>
#include <raftinc/systemsignalhandler.hpp>
struct SA : public Schedule {
  SA(raft::map &m) : Schedule(m) {} void start() override {} void handleSchedule(raft::kernel *const) override {}
  static bool ready(raft::kernel *k) { return kernelHasInputData(k); }
  static raft::kstatus sys(raft::kernel *k, void *d, SystemSignalHandler &h) { return checkSystemSignal(k, d, h); }
  raft::kstatus sysOwn(raft::kernel *k, void *d) { return checkSystemSignal(k, d, handlers); }
};
// a kernel of either firing rule; run() consumes from the inputs and forwards to the outputs
template <class B, class T = u32> struct K : public B {
  unsigned runs = 0, take = 0, stopAt = ~0u; unsigned got[3] = {0, 0, 0}; u32 last[3] = {0, 0, 0}; unsigned ni, no;
  K(unsigned i, unsigned o, bool rev = false) : B(), ni(i), no(o) { for (unsigned k = 0; k < i; k++) B::input.template addPort<T>(pname("i", rev ? i - 1 - k : k)); for (unsigned k = 0; k < o; k++) B::output.template addPort<T>(pname("o", k)); }
  raft::kstatus run() override { runs++; unsigned left = take; for (unsigned k = 0; k < ni; k++) { FIFO &f = B::input[pname("i", k)]; while (left && f.size()) { T v; f.pop(v); got[k]++; last[k] = Tr<T>::get(v); left--; } } return runs >= stopAt ? raft::stop : raft::proceed; }
};
struct Env { FIFO *fi[3], *fo[3]; unsigned n[3]; bool closed[3]; ptr_map_t in; ptr_set_t out, peek; };
template <class Kn> static void wire(Kn &k, Env &e) { for (unsigned i = 0; i < k.ni; i++) { e.fi[i] = RingBuffer<u32, Type::Heap, false>::make_new_fifo(4, 64, nullptr); PortAcc::infoFor(k.input, pname("i", i)).setFIFO(e.fi[i]); } for (unsigned i = 0; i < k.no; i++) { e.fo[i] = RingBuffer<u32, Type::Heap, false>::make_new_fifo(4, 64, nullptr); PortAcc::infoFor(k.output, pname("o", i)).setFIFO(e.fo[i]); } }
template <class Kn> static void fill(Kn &k, Env &e) { for (unsigned i = 0; i < k.ni; i++) { e.n[i] = sym_pick("n", 0, 2); e.closed[i] = sym_pick("closed", 0, 1); for (unsigned j = 0; j < e.n[i]; j++) { u32 v = sym_u32("v"); e.fi[i]->push(v); } if (e.closed[i]) e.fi[i]->invalidate(); } }
template <class Kn> static void drop(Kn &k, Env &e) { for (unsigned i = 0; i < k.ni; i++) delete e.fi[i]; for (unsigned i = 0; i < k.no; i++) delete e.fo[i]; }
template <class Kn> static bool fires(Kn &k, Env &e, bool all) { if (!k.ni) return true; unsigned c = 0; for (unsigned i = 0; i < k.ni; i++) c += e.fi[i]->size() > 0; return all ? c == k.ni : c > 0; }
template <class B> static void readyT(bool all, bool step) {
  K<B> k(sym_pick("ni", 0, 3), 1, sym_pick("rev", 0, 1)); Env e; wire(k, e); fill(k, e); bool exp = fires(k, e, all);
  if (!step) { CHECK(SA::ready(&k) == exp, "ready exactly if the firing rule is satisfied"); for (unsigned i = 0; i < k.ni; i++) CHECK(e.fi[i]->size() == e.n[i], "asking consumes nothing"); symx_reach(!exp ? "none" : all ? "all" : "any"); }
  else { volatile bool fin = false; bool r = Schedule::kernelRun(&k, fin); CHECK(r == exp && k.runs == exp, "run is called exactly if the firing rule is satisfied"); symx_reach(r ? "ran" : "idle"); }
  drop(k, e);
}
SYMX_ENTRY(s01_ready) { if (sym_pick("all", 0, 1)) readyT<raft::kernel_all>(true, false); else readyT<raft::kernel>(false, false); }
SYMX_ENTRY(s01_run) { if (sym_pick("all", 0, 1)) readyT<raft::kernel_all>(true, true); else readyT<raft::kernel>(false, true); }
// ---- S02
template <class B> static void stepT(bool all) {
  unsigned ni = sym_pick("ni", 0, 2); K<B> k(ni, sym_pick("no", 0, ni ? 2 : 3)); Env e; wire(k, e); fill(k, e); unsigned pre = sym_pick("pre", 0, k.no); if (pre < k.no) e.fo[pre]->invalidate(); /* the kernel closed this one before */ Node other(1, 1); FIFO *x = RingBuffer<u32, Type::Heap, false>::make_new_fifo(4, 64, nullptr); PortAcc::infoFor(other.output, "o0").setFIFO(x);
  k.take = sym_pick("take", 0, 2); k.stopAt = sym_pick("stop", 1, 3); volatile bool fin = false; unsigned runs = 0;
  for (unsigned s = 0; s < 3 && !fin; s++) {
    bool f = fires(k, e, all); Schedule::kernelRun(&k, fin); runs += f; CHECK(k.runs == runs, "fires once per step if the rule is satisfied");
    bool closed = true; for (unsigned i = 0; i < k.ni; i++) closed = closed && e.closed[i]; bool want = (f && runs >= k.stopAt) || (k.ni && closed && !fires(k, e, all));
    CHECK((bool)fin == want, "finished exactly if it asked to stop or can never fire again"); for (unsigned i = 0; i < k.no; i++) CHECK(e.fo[i]->is_invalid() == (want || i == pre), "the outputs are closed exactly on finishing");
    for (unsigned i = 0; i < k.ni; i++) { CHECK(e.fi[i]->is_invalid() == e.closed[i], "the inputs are not closed"); CHECK(e.fi[i]->size() == e.n[i] - k.got[i], "unread input stays"); } CHECK(!x->is_invalid(), "no other kernel's port is closed");
    symx_reach(!want ? "alive" : f && runs >= k.stopAt ? "stopped" : "drained"); }
  drop(k, e); delete x;
}
SYMX_ENTRY(s02_step) { if (sym_pick("all", 0, 1)) stepT<raft::kernel_all>(true); else stepT<raft::kernel>(false); }
struct RC { FIFO *f; unsigned n; u32 v[2]; };
static void prod(void *p) { auto *c = (RC *)p; for (unsigned i = 0; i < c->n; i++) { u32 v = c->v[i]; c->f->push(v); } c->f->invalidate(); }
SYMX_ENTRY(s02_race) {
  bool all = sym_pick("all", 0, 1); K<raft::kernel> k(1, 1); K<raft::kernel_all> ka(1, 1); Env e; if (all) wire(ka, e); else wire(k, e); k.take = ka.take = 1; RC c{e.fi[0], (unsigned)sym_pick("n", 0, 2), {sym_u32("v"), sym_u32("v")}};
  volatile bool fin = false; int t = symx_thread_create(prod, &c); while (!fin) { if (!Schedule::kernelRun(all ? (raft::kernel *)&ka : (raft::kernel *)&k, fin)) symx_yield(); CHECK(!e.fo[0]->is_invalid() == !fin, "the outputs are closed exactly on finishing"); } symx_thread_join(t);
  unsigned got = all ? ka.got[0] : k.got[0]; CHECK(got == c.n, "no written element is abandoned"); if (got) CHECK((all ? ka.last[0] : k.last[0]) == c.v[got - 1], "the values arrive"); if (all) drop(ka, e); else drop(k, e); symx_reach("done");
}
// ---- S04
static unsigned hits[4]; static void *hData; static FIFO *hFifo; static raft::kernel *hK; static u32 hSig;
template <unsigned I> static raft::kstatus hnd(FIFO &f, raft::kernel *k, const raft::signal s, void *d) { hits[I]++; hData = d; hFifo = &f; hK = k; hSig = s; return I == 1 ? raft::stop : raft::proceed; }
static sighandler H[3] = {hnd<0>, hnd<1>, hnd<2>};
SYMX_ENTRY(s04_handlers) {
  SystemSignalHandler h; u32 sg[4]; for (auto &s : sg) s = sym_u32("sig"); unsigned n = sym_pick("n", 0, 3); int last = -1; u32 call = sym_u32("call"); int d = 0; Node k(1, 0); FIFO *f = RingBuffer<u32, Type::Heap, false>::make_new_fifo(2, 64, nullptr);
  for (unsigned i = 0; i < n; i++) { unsigned w = i; h.addHandler((raft::signal)sg[i], H[w]); if (sg[i] == call) last = w; }
  if (last < 0) { symx_assume(call == 7 || call == 12345); call = symx_concretize(call); } bool thrown = false; raft::kstatus r = raft::proceed; try { r = h.callHandler((raft::signal)call, *f, &k, &d); } catch (NoSignalHandlerFoundException &e) { thrown = true; CHECK(std::string(e.what()).size() > 0, "the error names the signal"); }
  CHECK(thrown == (last < 0), "the error is raised exactly if no handler is registered"); for (int i = 0; i < 3; i++) CHECK(hits[i] == (i == last), "exactly the latest handler runs, once");
  if (last >= 0) { CHECK(hData == &d && hFifo == f && hK == &k && hSig == call, "with its data"); CHECK(r == (last == 1 ? raft::stop : raft::proceed), "its answer is returned"); symx_reach("called"); } else symx_reach("missing"); delete f;
}
template <class T> static void sfifo() {
  long h0 = symx_live_heap(); Life::reset(); { K<raft::kernel, T> k(2, 0); Stream<T> a(4), b(4); Stream<T> *st[2] = {&a, &b}; for (unsigned i = 0; i < 2; i++) PortAcc::infoFor(k.input, pname("i", i)).setFIFO(st[i]->f);
    unsigned p = sym_pick("port", 0, 1), rot = sym_pick("rot", 0, 3); FIFO *f = st[p]->f; for (unsigned i = 0; i < rot; i++) { T x = Tr<T>::mk(i); f->push(x); f->pop(x); }
    T z = Tr<T>::mk(99); bool oth = sym_pick("other", 0, 1); if (oth) st[!p]->f->push(z); u32 s0 = sym_u32("sig"); symx_assume(s0 == 1 || s0 == 2 || s0 == 0x77);
    SystemSignalHandler h; h.addHandler(raft::quit, H[1]); h.addHandler(raft::term, H[0]); h.addHandler((raft::signal)0x77, H[2]);
    // sequence of data (0), signals (1), data with a user signal (2), ended by 3
    unsigned seq[3], n = 0; u32 val[3]; u32 sgv[3]; for (unsigned i = 0; i < 3; i++) { unsigned c = sym_pick("item", 0, 3); if (c == 3) break; val[n] = Tr<T>::norm(sym_u32("v")); sgv[n] = c == 1 ? s0 : c == 2 ? 0x1000 + n : 0; seq[n++] = c; if (c == 1) FifoAcc::ssend(f, (raft::signal)s0); else { T x = Tr<T>::mk(val[n - 1]); if (c == 2) f->push(x, (raft::signal)sgv[n - 1]); else f->push(x); } }
    unsigned h0n = 0, want = 0; int d;
    for (unsigned i = 0; i <= n; i++) { bool sg = i < n && seq[i] == 1; raft::kstatus r = SA::sys(&k, &d, h); want += sg; unsigned all = hits[0] + hits[1] + hits[2]; CHECK(all == want, "the handler runs exactly if a system signal is at the head");
      if (sg) { CHECK(hits[s0 == 1 ? 1 : s0 == 2 ? 0 : 2] == want, "the registered handler"); CHECK(hFifo == f && hK == &k && hData == &d && hSig == s0, "with its data"); CHECK(r == (s0 == 1 ? raft::stop : raft::proceed), "its answer is returned"); symx_reach("handled"); } else { CHECK(r == raft::proceed, "goes on without a signal"); symx_reach("none"); }
      CHECK(f->size() == n - i - sg, "the signal is removed, data stays"); CHECK(st[!p]->f->size() == oth, "the other input is not disturbed");
      if (i < n && !sg) { T x = Tr<T>::mk(0); raft::signal g; f->pop(x, &g); CHECK(Tr<T>::get(x) == val[i] && Tr<T>::ok(x), "the data is not disturbed"); CHECK((u32)g == sgv[i], "the data's signal is not disturbed"); } }
    if (oth) { T x = Tr<T>::mk(0); st[!p]->f->pop(x); CHECK(Tr<T>::get(x) == Tr<T>::norm(99), "the other input is not disturbed"); } for (auto *q : st) { q->gcr(); q->gcw(); } }
  CHECK(Life::live() == 0, "objects are destroyed exactly once"); CHECK(symx_live_heap() == h0, "no memory is left");
}
SYMX_ENTRY(s04_fifo_u32) { sfifo<u32>(); }
SYMX_ENTRY(s04_fifo_small) { sfifo<Small>(); }
SYMX_ENTRY(s04_fifo_big) { sfifo<Big>(); }
static FIFO *mFifo[3]; static unsigned mGot[3], mOther; static raft::kstatus manyH(FIFO &f, raft::kernel *, const raft::signal s, void *) { unsigned i = 0; while (i < 3 && mFifo[i] != &f) i++; if (i < 3) mGot[i] = (u32)s; else mOther++; return s == raft::term ? raft::stop : raft::proceed; }
SYMX_ENTRY(s04_many) {
  K<raft::kernel> k(3, 1, sym_pick("rev", 0, 1)); Env e; wire(k, e); SystemSignalHandler h; h.addHandler(raft::quit, manyH); h.addHandler(raft::term, manyH); h.addHandler((raft::signal)0x77, manyH); unsigned c[3]; static const u32 sg[] = {0, 0, 1, 2, 0x77}; bool stop = false;
  for (unsigned i = 0; i < 3; i++) { mFifo[i] = e.fi[i]; c[i] = sym_pick("c", 0, 4); if (c[i] == 1) { u32 v = 5; e.fi[i]->push(v); } else if (c[i]) { FifoAcc::ssend(e.fi[i], (raft::signal)sg[c[i]]); u32 v = 6; e.fi[i]->push(v); stop |= sg[c[i]] == raft::term; } }
  CHECK(SA::sys(&k, nullptr, h) == (stop ? raft::stop : raft::proceed), "asked to stop exactly if a handler asks for it"); for (unsigned i = 0; i < 3; i++) { CHECK(mGot[i] == sg[c[i]], "every input's signal is delivered"); CHECK(e.fi[i]->size() == (c[i] > 0), "the data stays"); mGot[i] = 0; } CHECK(SA::sys(&k, nullptr, h) == raft::proceed && !mGot[0] && !mGot[1] && !mGot[2] && !mOther, "delivered once");
  drop(k, e); symx_reach(stop ? "stop" : "go");
}
SYMX_ENTRY(s04_quit) {
  raft::map m; SA s(m); K<raft::kernel> k(2, 1); Env e; wire(k, e); unsigned p = sym_pick("port", 0, 1); u32 v = sym_u32("v"); e.fi[!p]->push(v); FifoAcc::ssend(e.fi[p], raft::quit); int d; CHECK(s.sysOwn(&k, &d) == raft::stop, "quit asks the kernel to stop"); CHECK(e.fi[p]->is_invalid() && !e.fi[!p]->is_invalid() && !e.fo[0]->is_invalid(), "quit closes the port it came through"); CHECK(e.fi[p]->size() == 0 && e.fi[!p]->size() == 1, "the signal is removed, data stays"); CHECK(s.sysOwn(&k, &d) == raft::proceed, "delivered once"); drop(k, e); symx_reach("done");
}
