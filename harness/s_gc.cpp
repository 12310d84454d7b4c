// S05: reclamation of the elements a kernel has consumed
//@ flags quick="-DNRUN=2" thorough="-DNRUN=3"
//@ entry s05_big prop=S05 reach=passed,both,later,done bound="kernel with 2 inputs and 2 outputs of elements stored by reference, NRUN runs (2/3), per run one action on each input (nothing, pop, recycle, peek, peek and recycle, peek and pass on to one or both outputs, with recycle or pop in the same run or a recycle in a later one, own element), downstream kernel reading in between or at the end"
//@ entry s05_small prop=S05 reach=passed,both,later,done bound="as s05_big for objects stored in place"
//@ entry s05_sched prop=S05 reach=done bound="the sets the scheduler installs: peek, pass on and recycle through kernelRun, two kernels, 2 elements"
//@ entry s05_exe prop=S05 reach=peeked,passed,popped,done conc quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --max-paths 60000 --time 1500" bound="map::exe with stdalloc and no parallelism monitor: source, optional passing kernel, sink that peeks and recycles or pops; 0..3 elements stored by reference or in place, sink that stops by itself at the last element or at the end of the stream"
#include "graph.h"
struct SA : public Schedule {
  SA(raft::map &m) : Schedule(m) {} void start() override {} void handleSchedule(raft::kernel *const) override {}
  static void sets(raft::kernel *k, ptr_map_t *i, ptr_set_t *o, ptr_set_t *p) { setPtrSets(k, i, o, p); }
  static void gc(ptr_map_t *i, ptr_set_t *o, ptr_set_t *p) { fifo_gc(i, o, p); }
};
template <class T> struct P : public raft::kernel { unsigned ni, no; P(unsigned i, unsigned o) : ni(i), no(o) { for (unsigned k = 0; k < i; k++) input.addPort<T>(pname("i", k)); for (unsigned k = 0; k < o; k++) output.addPort<T>(pname("o", k)); } raft::kstatus run() override { return raft::stop; } };
struct Sets { ptr_map_t in; ptr_set_t out, peek; template <class K> void wire(K &k) { SA::sets(&k, &in, &out, &peek); } void gc() { SA::gc(&in, &out, &peek); CHECK(in.empty() && peek.empty(), "reclaimed elements are forgotten"); } };
enum { NOP, POP, RECYCLE, PEEK, PEEKREC, PASS0, PASS1POP, BOTH, OWN, PASSLATER, KINDS };
template <class T> static void take(FIFO *f, u32 *q, unsigned &h) { T x = Tr<T>::mk(0); f->pop(x); CHECK(Tr<T>::get(x) == q[h], "the downstream reader gets what was passed on"); CHECK(Tr<T>::ok(x), "the downstream reader gets a live element"); h++; }
template <class T> static void gct() {
  long h0 = symx_live_heap(); Life::reset(); {
    P<T> k(2, 2), up(0, 2), dn(2, 0); FIFO *fi[2], *fo[2]; for (unsigned i = 0; i < 2; i++) { fi[i] = RingBuffer<T, Type::Heap, false>::make_new_fifo(4, 64, nullptr); fo[i] = RingBuffer<T, Type::Heap, false>::make_new_fifo(8, 64, nullptr);
      PortAcc::infoFor(up.output, pname("o", i)).setFIFO(fi[i]); PortAcc::infoFor(k.input, pname("i", i)).setFIFO(fi[i]); PortAcc::infoFor(k.output, pname("o", i)).setFIFO(fo[i]); PortAcc::infoFor(dn.input, pname("i", i)).setFIFO(fo[i]); }
    Sets su, sk, sd; su.wire(up); sk.wire(k); sd.wire(dn); u32 q[2][8], oq[2][16]; unsigned qh[2] = {0, 0}, oh[2] = {0, 0}, ot[2] = {0, 0};
    for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < NRUN; j++) { q[i][j] = sym_u32("v"); T x = Tr<T>::mk(q[i][j]); fi[i]->push(x); } su.gc(); bool kept[2] = {false, false}; bool mid = sym_pick("mid", 0, 1);
    for (unsigned r = 0; r < NRUN; r++) {
      for (unsigned i = 0; i < 2; i++) { unsigned a = sym_pick("act", 0, KINDS - 1); if (i && (a == NOP || a == PASSLATER)) symx_end(); if (kept[i]) { if (a != NOP && a != RECYCLE) symx_end(); } FIFO *f = fi[i]; u32 v = q[i][qh[i]];
        auto pass = [&](T &x, unsigned o) { fo[o]->push(x); oq[o][ot[o]++] = v; };
        if (kept[i] && a == RECYCLE) { f->recycle(); qh[i]++; kept[i] = false; continue; }
        switch (a) { case NOP: break; case PASSLATER: { T &x = f->template peek<T>(); pass(x, 0); f->unpeek(); kept[i] = true; symx_reach("later"); break; } case POP: { T x = Tr<T>::mk(0); f->pop(x); CHECK(Tr<T>::get(x) == v && Tr<T>::ok(x), "value"); qh[i]++; break; } case RECYCLE: f->recycle(); qh[i]++; break;
          case PEEK: { T &x = f->template peek<T>(); CHECK(Tr<T>::get(x) == v && Tr<T>::ok(x), "value"); f->unpeek(); break; }
          case PEEKREC: { T &x = f->template peek<T>(); CHECK(Tr<T>::get(x) == v && Tr<T>::ok(x), "value"); f->unpeek(); f->recycle(); qh[i]++; break; }
          case PASS0: { T &x = f->template peek<T>(); pass(x, 0); f->unpeek(); f->recycle(); qh[i]++; symx_reach("passed"); break; }
          case PASS1POP: { T &x = f->template peek<T>(); pass(x, 1); f->unpeek(); T y = Tr<T>::mk(0); f->pop(y); CHECK(Tr<T>::get(y) == v && Tr<T>::ok(y), "value"); qh[i]++; break; }
          case BOTH: { T &x = f->template peek<T>(); pass(x, 0); pass(x, 1); f->unpeek(); f->recycle(); qh[i]++; symx_reach("both"); break; }
          case OWN: { T x = Tr<T>::mk(1000 + r); fo[i]->push(x); oq[i][ot[i]++] = Tr<T>::norm(1000 + r); break; } } }
      sk.gc(); if (mid) { for (unsigned o = 0; o < 2; o++) if (oh[o] < ot[o]) take<T>(fo[o], oq[o], oh[o]); sd.gc(); } }
    for (unsigned o = 0; o < 2; o++) { CHECK(fo[o]->size() == ot[o] - oh[o], "everything passed on is there"); while (oh[o] < ot[o]) take<T>(fo[o], oq[o], oh[o]); } sd.gc();
    for (unsigned i = 0; i < 2; i++) { if (kept[i]) { fi[i]->recycle(); qh[i]++; sk.gc(); } while (qh[i] < NRUN) { T x = Tr<T>::mk(0); fi[i]->pop(x); CHECK(Tr<T>::get(x) == q[i][qh[i]] && Tr<T>::ok(x), "unconsumed elements stay valid"); qh[i]++; } } sk.gc(); su.gc();
    for (unsigned i = 0; i < 2; i++) { delete fi[i]; delete fo[i]; } }
  CHECK(Life::live() == 0, "consumed elements are destroyed exactly once"); CHECK(symx_live_heap() == h0, "consumed elements are released"); symx_reach("done");
}
SYMX_ENTRY(s05_big) { gct<Big>(); }
SYMX_ENTRY(s05_small) { gct<Small>(); }
struct Fwd : public raft::kernel { Fwd() { input.addPort<Big>("i0"); output.addPort<Big>("o0"); } raft::kstatus run() override { auto &x = input["i0"].peek<Big>(); output["o0"].push(x); input["i0"].unpeek(); input["i0"].recycle(); return raft::proceed; } };
SYMX_ENTRY(s05_sched) {
  long h0 = symx_live_heap(); Life::reset(); { Fwd a, b; FIFO *f[3]; for (auto &x : f) x = RingBuffer<Big, Type::Heap, false>::make_new_fifo(2, 64, nullptr); PortAcc::infoFor(a.input, "i0").setFIFO(f[0]); PortAcc::infoFor(a.output, "o0").setFIFO(f[1]); PortAcc::infoFor(b.input, "i0").setFIFO(f[1]); PortAcc::infoFor(b.output, "o0").setFIFO(f[2]);
    P<Big> src(0, 1), snk(1, 0); PortAcc::infoFor(src.output, "o0").setFIFO(f[0]); PortAcc::infoFor(snk.input, "i0").setFIFO(f[2]); Sets ss, sa, sb, sn; ss.wire(src); sa.wire(a); sb.wire(b); sn.wire(snk); u32 v[2] = {sym_u32("v"), sym_u32("v")}; for (u32 x : v) { Big y(x); f[0]->push(y); } f[0]->invalidate(); bool fin = false; (void)fin; volatile bool fa = false, fb = false; unsigned got = 0;
    unsigned order = sym_pick("order", 0, 63); for (unsigned s = 0; s < 12 && !(fa && fb); s++) { bool w = s < 6 ? order >> s & 1 : s & 1; if (w) { if (!fb) { Schedule::kernelRun(&b, fb); sb.gc(); } } else if (!fa) { Schedule::kernelRun(&a, fa); sa.gc(); } while (f[2]->size()) { Big x; f[2]->pop(x); CHECK(Tr<Big>::get(x) == v[got] && Tr<Big>::ok(x), "passed through both kernels"); got++; sn.gc(); } }
    CHECK(got == 2 && fa && fb, "everything passed on"); ss.gc(); for (auto *x : f) delete x; }
  CHECK(Life::live() == 0, "elements are destroyed exactly once"); CHECK(symx_live_heap() == h0, "elements are released"); symx_reach("done");
}
template <class T> struct XSrc : public raft::kernel { unsigned n, i = 0; const u32 *v; XSrc(unsigned n, const u32 *v) : n(n), v(v) { output.addPort<T>("o0"); } raft::kstatus run() override { if (i == n) return raft::stop; T x = Tr<T>::mk(v[i]); output["o0"].push(x); i++; return i == n ? raft::stop : raft::proceed; } };
template <class T> struct XFwd : public raft::kernel { XFwd() { input.addPort<T>("i0"); output.addPort<T>("o0"); } raft::kstatus run() override { auto &x = input["i0"].template peek<T>(); output["o0"].push(x); input["i0"].unpeek(); input["i0"].recycle(); return raft::proceed; } };
template <class T> struct XSnk : public raft::kernel { unsigned how, last, n = 0; u32 got[4]; XSnk(unsigned h, unsigned l) : how(h), last(l) { input.addPort<T>("i0"); } raft::kstatus run() override { FIFO &f = input["i0"]; CHECK(n < 4, "no more than was sent"); if (how == 0) { auto &x = f.template peek<T>(); CHECK(Tr<T>::ok(x), "live element"); got[n++] = Tr<T>::get(x); f.unpeek(); f.recycle(); } else if (how == 1) { { auto &x = f.template peek<T>(); CHECK(Tr<T>::ok(x), "live element"); got[n++] = Tr<T>::get(x); f.unpeek(); } T y = Tr<T>::mk(0); f.pop(y); CHECK(Tr<T>::ok(y) && Tr<T>::get(y) == got[n - 1], "popped after a look"); } else { T x = Tr<T>::mk(0); f.pop(x); CHECK(Tr<T>::ok(x), "live element"); got[n++] = Tr<T>::get(x); } return n == last ? raft::stop : raft::proceed; } };
template <class T> static void exeT() {
  long h0 = symx_live_heap(); Life::reset(); unsigned n = sym_pick("n", 0, 3), how = sym_pick("how", 0, 2), pass = sym_pick("pass", 0, 1), own = sym_pick("own", 0, 1); u32 v[3]; for (auto &x : v) x = Tr<T>::norm(sym_u32("v"));
  { XSrc<T> s(n, v); XFwd<T> t; XSnk<T> k(how, own ? n : 99); { raft::map m; if (pass) { m.link(&s, "o0", &t, "i0", 2); m.link(&t, "o0", &k, "i0", 2); } else m.link(&s, "o0", &k, "i0", 2); m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); }
    CHECK(k.n == n, "everything arrives"); for (unsigned i = 0; i < n; i++) CHECK(k.got[i] == v[i], "everything arrives"); CHECK(Life::live() == 0, "consumed elements are destroyed exactly once"); }
  symx_reach(how == 2 ? "popped" : "peeked"); if (pass) symx_reach("passed"); symx_reach("done"); (void)h0;
}
SYMX_ENTRY(s05_exe) { if (sym_pick("big", 0, 1)) exeT<Big>(); else exeT<Small>(); }
