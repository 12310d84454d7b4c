// G07: the growth policy of the monitoring allocator
//@ flags quick="-DNOBS=7" thorough="-DNOBS=10"
//@ entry g07_policy prop=G07 reach=grown,done conc quick="--preempt 0" bound="2 links with default size and 1 with a fixed size, NOBS monitoring rounds (7/10), every history of nearly-full / not-nearly-full observations per link in two patterns, real queues with symbolic contents"
//@ entry g07_collide prop=G07 reach=collision,done conc quick="--preempt 0" bound="two links whose ports lie at addresses equal in the low 16 bits, one hot, one cold or hot half as often"
//@ entry g07_real prop=G07 reach=grown,done conc quick="--preempt 0 --max-yields 4000" bound="the real activity counters: writers on two links pushing against a full queue, one element consumed per round on a symbolic choice of the links, 20 rounds"
#include "graph.h"
#include <raftinc/dynalloc.hpp>
struct Mock : public RingBuffer<u32, Type::Heap, false> {
  unsigned id, obs = 0, grows = 0, sinceHot = 0, sinceCons = 0; size_t expect; volatile bool *ex; unsigned script, maxobs; bool fixedq; u32 first;
  static inline unsigned rounds = 0;
  Mock(unsigned i, size_t cap, unsigned sc, unsigned mo, volatile bool *e, bool fx) : RingBuffer<u32, Type::Heap, false>(cap, 64), id(i), expect(cap), ex(e), script(sc), maxobs(mo), fixedq(fx) { first = sym_u32("first"); q()->push(first); u32 v = first + 1; q()->push(v); }
  FIFO *q() { return this; } size_t capacity() override { return RingBuffer<u32, Type::Heap, false>::capacity(); }
  bool hot(unsigned k) { return script >> k & 1; }
  float get_frac_write_blocked() override {
    after();
    bool h = obs < maxobs && hot(obs); obs++; if (obs >= maxobs) *ex = true;
    if (h) { sinceHot++; sinceCons++; } else sinceCons = 0; return h ? (id == 1 ? 1.0f : 0.9f) : (obs & 1 ? 0.0f : 0.5f);
  }
  void resize(const std::size_t n, const std::size_t al, volatile bool &e) override {
    CHECK(!fixedq, "a link with a fixed size is left alone"); CHECK(sinceHot >= 3, "a queue grows only after it was seen nearly full three times since it last grew");
    CHECK(n == 2 * capacity(), "a queue grows by doubling"); RingBuffer<u32, Type::Heap, false>::resize(n, al, e); if (!e) { expect *= 2; } grows++; sinceHot = sinceCons = 0;
  }
  void after() { CHECK(sinceCons < 5, "a queue that stays full is enlarged"); }
  void content() { if (grows && !*ex) CHECK(capacity() == expect, "doubled"); u32 v = 0; CHECK(q()->size() == 2, "elements kept"); q()->pop(v); CHECK(v == first, "elements kept"); q()->pop(v); CHECK(v == first + 1, "elements kept"); }
};
struct Ctx { MapAcc *m; volatile bool ex = false; bool ready = false; dynalloc *d; };
static void mon(void *p) { auto *c = (Ctx *)p; c->d->run(); }
static void put(PortInfo &a, PortInfo &b, Mock *m) { a.setFIFO(m->q()); b.setFIFO(m->q()); }
SYMX_ENTRY(g07_policy) {
  Node a(0, 3), b(3, 0); MapAcc m; m.link(&a, "o0", &b, "i0"); m.link(&a, "o1", &b, "i1"); m.link(&a, "o2", &b, "i2", 4); Ctx c; c.m = &m;
  { dynalloc d(m, c.ex); c.d = &d; int t = symx_thread_create(mon, &c); PortInfo *po[3], *pi[3]; for (unsigned i = 0; i < 3; i++) { po[i] = &PortAcc::infoFor(a.output, pname("o", i)); pi[i] = &PortAcc::infoFor(b.input, pname("i", i)); }
    d.waitTillReady();
    unsigned all = (1u << NOBS) - 1, s0 = sym_pick("hot0", 0, all), p1 = sym_pick("pat1", 0, 3), s1 = p1 == 0 ? 0 : p1 == 1 ? all : p1 == 2 ? (s0 ^ all) : 0x155 & all;
    Mock m0(0, 4, s0, NOBS, &c.ex, false), m1(1, 8, s1, NOBS, &c.ex, false), m2(2, 4, all, NOBS, &c.ex, true); put(*po[0], *pi[0], &m0); put(*po[1], *pi[1], &m1); put(*po[2], *pi[2], &m2);
    symx_thread_join(t); if (m0.grows) symx_reach("grown"); CHECK(m0.obs + 1 >= NOBS && m1.obs + 1 >= NOBS, "both queues are observed every round");
    m0.content(); m1.content(); CHECK(m2.q()->capacity() == 4, "fixed"); m2.content(); if (!s1) CHECK(m1.q()->capacity() == 8 && !m1.grows, "a queue that is never nearly full keeps its size"); if (!s0) CHECK(m0.q()->capacity() == 4 && !m0.grows, "a queue that is never nearly full keeps its size");
    for (unsigned i = 0; i < 3; i++) { po[i]->fifo_a = po[i]->fifo_b = pi[i]->fifo_a = pi[i]->fifo_b = nullptr; } }
  symx_reach("done");
}
// links whose ports are at addresses that agree in their low bits
SYMX_ENTRY(g07_collide) {
  std::vector<Node *> as, bs; MapAcc m; Ctx c; c.m = &m; int x = -1; unsigned lo = 0xffff;
  Node *a0 = new Node(0, 1), *b0 = new Node(1, 0), *a1 = nullptr, *b1 = nullptr; PortInfo *ia0 = &PortAcc::infoFor(a0->output, "o0"), *ib0 = &PortAcc::infoFor(b0->input, "i0");
  // candidates are created until one falls on a congruent address; padding steers a bump allocator there at once
  std::vector<char *> pads; pads.reserve(8); as.reserve(4096);
  for (unsigned k = 0; k < 2; k++) { uintptr_t want = (uintptr_t)(k ? ib0 : ia0) & lo, last = 0, step = 0; Node *&res = k ? b1 : a1;
    for (unsigned i = 0; i < 1500 && !res; i++) { Node *n = new Node(k ? 1 : 0, k ? 0 : 1); uintptr_t at = (uintptr_t)(k ? &PortAcc::infoFor(n->input, "i0") : &PortAcc::infoFor(n->output, "o0"));
      if ((at & lo) == want) { res = n; break; } as.push_back(n); if (i < 2) { step = at - last; last = at; continue; } if (i == 2) { uintptr_t p = (want - at - step - 48) & lo; pads.push_back(new char[p ? p : 65536]); } } }
  bool col = a1 && b1; if (col) symx_reach("collision"); if (!a1) a1 = new Node(0, 1); if (!b1) b1 = new Node(1, 0);
  m.link(a0, "o0", b0, "i0"); m.link(a1, "o0", b1, "i0"); PortInfo *ia1 = &PortAcc::infoFor(a1->output, "o0"), *ib1 = &PortAcc::infoFor(b1->input, "i0");
  { dynalloc d(m, c.ex); c.d = &d; int t = symx_thread_create(mon, &c); d.waitTillReady(); unsigned p = sym_pick("pattern", 0, 2);
    Mock m0(0, 4, p == 1 ? 0x15 : 0x3, 8, &c.ex, false), m1(1, 8, p == 1 ? 0x2a : p == 2 ? 0 : 0xc, 8, &c.ex, false); put(*ia0, *ib0, &m0); put(*ia1, *ib1, &m1); symx_thread_join(t); m0.content(); m1.content();
    for (auto *q : {ia0, ib0, ia1, ib1}) q->fifo_a = q->fifo_b = nullptr; }
  for (auto *n : as) delete n; for (auto *q : pads) delete[] q; delete a0; delete b0; delete a1; delete b1; symx_reach("done");
}
// ---- the real counters
struct WCtx { FIFO *f; u32 n; u32 next; bool stop; };
static void wrt(void *p) { auto *w = (WCtx *)p; while (!w->stop) { u32 v = w->next; w->f->push(v); w->next++; } }
SYMX_ENTRY(g07_real) {
  Node a(0, 2), b(2, 0); MapAcc m; m.link(&a, "o0", &b, "i0"); m.link(&a, "o1", &b, "i1"); Ctx c; c.m = &m;
  { dynalloc d(m, c.ex); c.d = &d; int t = symx_thread_create(mon, &c); d.waitTillReady(); FIFO *f[2] = {&a.output["o0"], &a.output["o1"]}; u32 rd[2] = {0, 0}; WCtx w[2]; int tw[2];
    for (unsigned i = 0; i < 2; i++) { w[i] = {f[i], 0, 0, false}; for (unsigned k = 0; k < 64; k++) { u32 v = k; f[i]->push(v); } w[i].next = 64; }
    unsigned sel = sym_pick("sel", 0, 2); unsigned hot[2] = {0, 0};
    symx_yield(); for (unsigned i = 0; i < 2; i++) tw[i] = symx_thread_create(wrt, &w[i]);
    for (unsigned r = 0; r < 20; r++) { size_t cap[2] = {f[0]->capacity(), f[1]->capacity()};
      for (unsigned i = 0; i < 2; i++) if ((sel == i || sel == 2) && f[i]->capacity() == 64) { u32 v = 0; f[i]->pop(v); CHECK(v == rd[i], "the elements stay in order"); rd[i]++; hot[i]++; }
      for (unsigned y = 0; y < 3; y++) symx_yield();
      for (unsigned i = 0; i < 2; i++) { size_t n = f[i]->capacity(); CHECK(n == cap[i] || n == 2 * cap[i], "a queue grows by doubling"); if (n != cap[i]) { symx_reach("grown"); CHECK(hot[i] >= 3, "a queue grows only after it was seen nearly full three times"); } if (sel != 2 && i != sel) CHECK(n == 64, "the other queue is left alone"); } }
    // a grow waits for the elements to lie in one piece: drain until it gets its chance
    for (unsigned i = 0; i < 2; i++) { w[i].stop = true; u32 v; for (unsigned k = 0; k < 130 && f[i]->size() > 4; k++) { f[i]->pop(v); CHECK(v == rd[i], "the elements stay in order"); rd[i]++; symx_yield(); symx_yield(); } }
    for (unsigned i = 0; i < 2; i++) { if (sel == 2 && i == 1) CHECK(f[i]->capacity() == 64 || f[i]->capacity() == 128, "doubled at most once"); else if (sel == i || sel == 2) { CHECK(f[i]->capacity() == 128, "a queue that stays full is enlarged"); symx_reach("grown"); } else CHECK(f[i]->capacity() == 64, "the other queue is left alone"); }
    c.ex = true; symx_thread_join(tw[0]); symx_thread_join(tw[1]); symx_thread_join(t);
    for (unsigned i = 0; i < 2; i++) { while (f[i]->size()) { u32 v; f[i]->pop(v); CHECK(v == rd[i], "the elements stay in order"); rd[i]++; } CHECK(rd[i] == w[i].next, "nothing is lost"); } }
  symx_reach("done");
}
