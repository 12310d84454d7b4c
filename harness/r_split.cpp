// R01: distribution (split), R02: merging (join)
//@ flags quick="-DKMAX=3" thorough="-DKMAX=4"
//@ entry r01_u32 prop=R01 reach=moved,left,waited,done bound="split<u32> with 1..3 outputs of capacity 2 holding 0..2 elements each, 1..KMAX (3/4) items with symbolic values and signals at the input at every wrap position, open or closed; a reader that frees room after 1 or 4 looks when every output is full; scheduler steps until the input is empty"
//@ entry r01_small prop=R01 reach=moved,left,waited,done bound="as r01_u32 for a class type, with construction accounting"
//@ entry r01_none prop=R01 reach=kept,grown bound="a selection method that finds no room: everything stays, the input can be grown and forwarded later"
//@ entry r01_ports prop=R01 reach=done bound="1..4 output ports, more added later"
//@ entry r01_exe prop=R01 conc reach=done quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --time 1500 --max-paths 60000 --tso 1" bound="map::exe of source, split<u32>(2), two sinks; 0..3 elements; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry r02_u32 prop=R02 reach=moved,waitroom,waitdata,done bound="join<u32> with 1..3 inputs holding 0..2 elements with symbolic values and signals, output of capacity 2 holding 0..2; a reader that makes room, or a writer that adds an element, after 1 or 4 looks; steps until the inputs are empty"
//@ entry r02_small prop=R02 reach=moved,waitroom,waitdata,done bound="as r02_u32 for a class type stored in place"
//@ entry r02_big prop=R02 reach=moved,waitroom,waitdata,done bound="as r02_u32 for a class type stored by reference"
//@ entry r02_none prop=R02 reach=kept bound="a selection method that finds nothing: nothing is sent and the output stays usable and growable"
//@ entry r02_exe prop=R02 conc reach=done quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --time 1500 --max-paths 60000 --tso 1" bound="map::exe of two sources, join<u32>(2), sink; 0..2 elements each; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry r01_race prop=R01 conc reach=done quick="--preempt 1 --max-yields 1000 --tso 1" thorough="--preempt 3 --max-yields 1000 --time 1500 --tso 1" bound="scheduler steps of split<u32>(2) while another thread fills and closes the input (3 items, capacity 2) or empties the outputs (capacity 1 each); at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry r02_race prop=R02 conc reach=done quick="--preempt 1 --max-yields 1000 --tso 1" thorough="--preempt 3 --max-yields 1000 --time 1500 --tso 1" bound="scheduler steps of join<u32>(2) while another thread fills and closes the inputs (3 items, capacity 1) or empties the output (capacity 1); at one preemption recent stores may stay invisible (x86 store buffer)"
#include "graph.h"
#ifndef KMAX
#define KMAX 3
#endif
// a stream with something happening at the other end after a number of looks at its size
template <class T> struct Late : public RingBuffer<T, Type::Heap, false> {
  using Base = RingBufferBaseHeap<T, Type::Heap>; using Blk = RingBufferBase<T, Type::Heap>;
  unsigned looks = 0, at = 0; bool in = false; std::function<void()> ev;
  Late(size_t cap) : RingBuffer<T, Type::Heap, false>(cap) {}
  FIFO *f() { return (FIFO *)this; } std::size_t cur() { return Base::size(); }
  std::size_t size() noexcept override { if (!in && at && ++looks == at) { in = true; ev(); in = false; } return Base::size(); }
};
template <class T> struct End { ptr_map_t in; ptr_set_t out, peek, outPeek; void rd(FIFO *f) { FifoAcc::map(f, &in); FifoAcc::inPeek(f, &peek); } void wr(FIFO *f) { FifoAcc::out(f, &out); FifoAcc::outPeek(f, &outPeek); } void gc() { SchedAcc::gc(&in, &out, &peek); } };
struct Item { u32 v, s; };
template <class T> static Item take(FIFO *f) { T x = Tr<T>::mk(0); raft::signal s = raft::none; f->pop(x, &s); CHECK(Tr<T>::ok(x), "live element"); return Item{Tr<T>::get(x), (u32)s}; }
static u32 tagged(unsigned id) { return (sym_u32("v") << 8) | id; }
static unsigned idOf(u32 v) { return (unsigned)symx_concretize(v & 0xff); }

// ---- R01
template <class T> static void distribute() {
  Life::reset();
  {
    unsigned no = sym_pick("no", 1, 3), k = sym_pick("k", 1, KMAX), rot = sym_pick("rot", 0, 3), closed = sym_pick("closed", 0, 1);
    raft::split<T> sp(no); End<T> me, up, down; FIFO *in = RingBuffer<T, Type::Heap, false>::make_new_fifo(4, 64, nullptr); me.rd(in); up.wr(in); PortAcc::infoFor(sp.input, "0").setFIFO(in);
    Late<T> *o[3]; unsigned pre[3], popped[3] = {0, 0, 0}; bool full = true; Item exp[8]; bool seen[8] = {}; int last[3] = {-1, -1, -1}; unsigned got = 0;
    for (unsigned i = 0; i < no; i++) { o[i] = new Late<T>(2); me.wr(o[i]->f()); down.rd(o[i]->f()); PortAcc::infoFor(sp.output, pname("", i)).setFIFO(o[i]->f()); pre[i] = sym_pick("pre", 0, 2); for (unsigned j = 0; j < pre[i]; j++) { T x = Tr<T>::mk(0xEE); o[i]->f()->push(x); } full = full && pre[i] == 2; }
    for (unsigned i = 0; i < rot; i++) { T x = Tr<T>::mk(0); in->push(x); in->pop(x); }
    for (unsigned i = 0; i < k; i++) { exp[i] = Item{tagged(i), sym_u32("s")}; T x = Tr<T>::mk(exp[i].v); in->push(x, (raft::signal)exp[i].s); }
    if (closed) in->invalidate();
    auto drain = [&](unsigned i, unsigned max) { while (max-- && o[i]->cur()) { Item it = take<T>(o[i]->f()); if (popped[i]++ < pre[i]) { CHECK(it.v == Tr<T>::norm(0xEE), "earlier elements first"); continue; } unsigned id = idOf(it.v); CHECK(id < k, "only items of the input"); CHECK(!seen[id], "each item goes to one output"); seen[id] = true; CHECK(it.v == exp[id].v, "value unchanged"); CHECK(it.s == exp[id].s, "the signal travels along"); CHECK((int)id > last[i], "order per output"); last[i] = (int)id; got++; } };
    if (full) { unsigned w = sym_pick("who", 0, no - 1); o[w]->ev = [&, w] { CHECK(in->size() == k, "items that fit nowhere stay queued"); drain(w, 1); }; o[w]->at = sym_pick("at", 0, 1) ? 4 : 1; symx_reach("waited"); }
    volatile bool fin = false; unsigned steps = 0;
    while (in->size()) {
      unsigned before = in->size(); Schedule::kernelRun(&sp, fin); for (auto &x : o) if (&x < o + no) x->at = 0; CHECK(++steps <= 2 * KMAX, "room is used"); unsigned left = in->size();
      CHECK(left < before, "an item is forwarded if there is room"); if (left) { symx_reach("left"); CHECK(!fin, "not finished while items are queued"); } symx_reach("moved");
      for (unsigned i = 0; i < no; i++) drain(i, sym_pick("drain", 0, 1) && left ? 1 : 8);
      unsigned inside = got; for (unsigned i = 0; i < no; i++) { unsigned c = o[i]->cur(), old = popped[i] < pre[i] ? pre[i] - popped[i] : 0; CHECK(c >= old, "earlier elements stay"); inside += c - old; } CHECK(inside == k - left, "every item is at one output or still queued"); bool room = false; for (unsigned i = 0; i < no; i++) room = room || o[i]->f()->size() < 2; if (!room) drain(0, 8);
    }
    for (unsigned i = 0; i < no; i++) drain(i, 8); CHECK(got == k, "every item is forwarded"); Schedule::kernelRun(&sp, fin); CHECK((bool)fin == (bool)closed, "finished once the input is drained and closed"); for (unsigned i = 0; i < no; i++) CHECK(o[i]->f()->is_invalid() == (bool)closed, "outputs closed on finishing");
    me.gc(); up.gc(); down.gc(); delete in; for (unsigned i = 0; i < no; i++) delete o[i];
  }
  CHECK(Life::live() == 0, "every element object is destroyed"); symx_reach("done");
}
SYMX_ENTRY(r01_u32) { distribute<u32>(); }
SYMX_ENTRY(r01_small) { distribute<Small>(); }
struct Maybe : public splitmethod { static inline bool on = false; FIFO *select_fifo(Port &l, const functype) override { if (!on) return nullptr; for (auto &p : l) return &p; return nullptr; } };
SYMX_ENTRY(r01_none) {
  raft::split<u32, Maybe> sp(2); End<u32> e; FIFO *in = RingBuffer<u32, Type::Heap, false>::make_new_fifo(4, 64, nullptr), *o[2]; e.rd(in); unsigned k = sym_pick("k", 1, 4); u32 v[4]; PortAcc::infoFor(sp.input, "0").setFIFO(in);
  for (unsigned i = 0; i < 2; i++) { o[i] = RingBuffer<u32, Type::Heap, false>::make_new_fifo(4, 64, nullptr); PortAcc::infoFor(sp.output, pname("", i)).setFIFO(o[i]); } for (unsigned i = 0; i < k; i++) { v[i] = sym_u32("v"); in->push(v[i]); }
  Maybe::on = false; CHECK(sp.run() == raft::proceed, "proceeds"); CHECK(in->size() == k && o[0]->size() == 0 && o[1]->size() == 0, "items that fit nowhere stay queued"); symx_reach("kept");
  if (k < 4 && sym_pick("grow", 0, 1)) { volatile bool ex = false; in->resize(8, 16, ex); CHECK(in->capacity() == 8 && in->size() == k, "the input can still grow"); symx_reach("grown"); }
  Maybe::on = true; unsigned steps = 0; while (in->size() && steps++ < 4) sp.run(); CHECK(in->size() == 0 && o[0]->size() + o[1]->size() == k, "forwarded later"); for (unsigned i = 0, j = 0; i < 2; i++) while (o[i]->size()) { u32 x; o[i]->pop(x); CHECK(x == v[j++], "in order"); }
  delete in; delete o[0]; delete o[1];
}
SYMX_ENTRY(r01_ports) {
  unsigned n = sym_pick("n", 1, 4), m = sym_pick("m", 0, 2); raft::split<u32> sp(n); raft::join<u64> jn(n); for (unsigned i = 0; i < m; i++) { sp.addPort(); jn.addPort(); }
  CHECK(sp.output.count() == n + m && sp.input.count() == 1, "number of ports of a split"); CHECK(jn.input.count() == n + m && jn.output.count() == 1, "number of ports of a join");
  for (unsigned i = 0; i < n + m; i++) { CHECK(sp.output.getPortType(pname("", i)) == typeid(u32), "type of an output"); CHECK(jn.input.getPortType(pname("", i)) == typeid(u64), "type of an input"); } CHECK(sp.input.getPortType("0") == typeid(u32) && jn.output.getPortType("0") == typeid(u64), "type of the single port"); symx_reach("done");
}
struct Src : public raft::kernel { unsigned n, i = 0; const u32 *v; Src(unsigned n, const u32 *v) : n(n), v(v) { output.addPort<u32>("o0"); } raft::kstatus run() override { if (i == n) return raft::stop; u32 x = v[i++]; output["o0"].push(x); return raft::proceed; } };
struct Snk : public raft::kernel { unsigned n = 0; u32 got[8]; Snk() { input.addPort<u32>("i0"); } raft::kstatus run() override { FIFO &f = input["i0"]; u32 x; f.pop(x); CHECK(n < 8, "no more than was sent"); got[n++] = x; return raft::proceed; } };
SYMX_ENTRY(r01_exe) {
  unsigned n = sym_pick("n", 0, 3); u32 v[3]; for (unsigned i = 0; i < 3; i++) v[i] = tagged(i);
  Src s(n, v); raft::split<u32> sp(2); Snk k[2]; raft::map m; m.link(&s, "o0", &sp, "0"); m.link(&sp, "0", &k[0], "i0"); m.link(&sp, "1", &k[1], "i0"); m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>();
  CHECK(k[0].n + k[1].n == n, "every item arrives once"); bool seen[3] = {}; for (auto &q : k) { int last = -1; for (unsigned i = 0; i < q.n; i++) { unsigned id = idOf(q.got[i]); CHECK(id < n && !seen[id], "each item goes to one output"); seen[id] = true; CHECK((int)id > last, "order per output"); last = id; CHECK(q.got[i] == v[id], "value unchanged"); } } symx_reach("done");
}
// ---- R02
template <class T> static void merge() {
  Life::reset();
  {
    unsigned ni = sym_pick("ni", 1, 3), n[3], pre = sym_pick("pre", 0, 2), total = 0; raft::join<T> jn(ni); End<T> me, up, down; Late<T> *in[3]; Late<T> out(2); me.wr(out.f()); down.rd(out.f()); PortAcc::infoFor(jn.output, "0").setFIFO(out.f()); Item exp[3][3]; unsigned taken[3] = {0, 0, 0};
    for (unsigned i = 0; i < ni; i++) { in[i] = new Late<T>(2); me.rd(in[i]->f()); up.wr(in[i]->f()); PortAcc::infoFor(jn.input, pname("", i)).setFIFO(in[i]->f()); n[i] = sym_pick("n", 0, 2); for (unsigned j = 0; j < n[i]; j++) { exp[i][j] = Item{tagged(i * 4 + j), sym_u32("s")}; T x = Tr<T>::mk(exp[i][j].v); in[i]->f()->push(x, (raft::signal)exp[i][j].s); } total += n[i]; }
    unsigned popped = 0, got = 0; for (unsigned j = 0; j < pre; j++) { T x = Tr<T>::mk(0xEE); out.f()->push(x); }
    auto queued = [&] { unsigned q = 0; for (unsigned i = 0; i < ni; i++) q += in[i]->cur(); return q; };
    auto drain = [&](unsigned max) { while (max-- && out.cur()) { Item it = take<T>(out.f()); if (popped++ < pre) { CHECK(it.v == Tr<T>::norm(0xEE), "earlier elements first"); continue; } unsigned id = idOf(it.v), i = id / 4, j = id % 4; CHECK(i < ni && j < n[i], "only items of the inputs"); CHECK(j == taken[i], "each item once and in order"); taken[i]++; CHECK(it.v == exp[i][j].v, "value unchanged"); CHECK(it.s == exp[i][j].s, "the signal travels along"); got++; } };
    if (pre == 2) { out.ev = [&] { CHECK(queued() == total, "items stay queued without room"); drain(1); }; out.at = sym_pick("at", 0, 1) ? 4 : 1; symx_reach("waitroom"); }
    if (total == 0) { unsigned w = sym_pick("who", 0, ni - 1); in[w]->ev = [&, w] { CHECK(out.cur() <= 2 && popped + out.cur() == pre, "nothing is invented"); n[w] = 1; exp[w][0] = Item{tagged(w * 4), sym_u32("s")}; T x = Tr<T>::mk(exp[w][0].v); in[w]->f()->push(x, (raft::signal)exp[w][0].s); total = 1; }; in[w]->at = sym_pick("at", 0, 1) ? 4 : 1; symx_reach("waitdata"); }
    unsigned steps = 0; bool first = true;
    while (first || queued()) { first = false; unsigned b = queued(), g = got + (unsigned)(out.cur() + popped - std::max(pre, popped)); CHECK(++steps <= 8, "progress"); CHECK(jn.run() == raft::proceed, "proceeds"); out.at = 0; for (unsigned i = 0; i < ni; i++) in[i]->at = 0; (void)b; (void)g;
      symx_reach("moved"); CHECK(queued() < total, "an item is moved"); bool room = out.cur() < 2; if (!room || sym_pick("drain", 0, 1)) drain(8); unsigned inside = got; if (out.cur()) { unsigned s = out.cur(); unsigned old = popped < pre ? pre - popped : 0; inside += s - (s < old ? s : old); } CHECK(inside + queued() == total, "every item is at the output or still queued"); }
    drain(8); CHECK(got == total, "every item is forwarded"); for (unsigned i = 0; i < ni; i++) CHECK(taken[i] == n[i], "all of this input"); volatile bool ex = false; out.f()->resize(4, 16, ex); CHECK(out.f()->capacity() == 4, "no access is left open");
    me.gc(); up.gc(); down.gc(); for (unsigned i = 0; i < ni; i++) delete in[i];
  }
  CHECK(Life::live() == 0, "every element object is destroyed"); symx_reach("done");
}
SYMX_ENTRY(r02_u32) { merge<u32>(); }
SYMX_ENTRY(r02_small) { merge<Small>(); }
SYMX_ENTRY(r02_big) { merge<Big>(); }
template <class T> static void noneT() {
  Life::reset(); { raft::join<T, Maybe> jn(2); End<T> a, b; FIFO *in[2], *out = RingBuffer<T, Type::Heap, false>::make_new_fifo(4, 64, nullptr); a.wr(out); b.rd(out); PortAcc::infoFor(jn.output, "0").setFIFO(out); unsigned pre = sym_pick("pre", 0, 2);
  for (unsigned i = 0; i < 2; i++) { in[i] = RingBuffer<T, Type::Heap, false>::make_new_fifo(4, 64, nullptr); a.rd(in[i]); b.wr(in[i]); PortAcc::infoFor(jn.input, pname("", i)).setFIFO(in[i]); } for (unsigned i = 0; i < pre; i++) { T x = Tr<T>::mk(i); out->push(x); }
  u32 v = sym_u32("v"); { T x = Tr<T>::mk(v); in[0]->push(x); }
  Maybe::on = false; for (unsigned i = 0; i < 2; i++) { CHECK(jn.run() == raft::proceed, "proceeds"); CHECK(out->size() == pre && in[0]->size() == 1, "nothing is sent"); } if (pre) { volatile bool ex = false; out->resize(8, 16, ex); CHECK(out->capacity() == 8, "the output can grow"); }
  Maybe::on = true; jn.run(); CHECK(out->size() == pre + 1 && in[0]->size() == 0, "sent later"); for (unsigned i = 0; i < pre; i++) { T x = Tr<T>::mk(9); out->pop(x); CHECK(Tr<T>::get(x) == i, "earlier elements"); } T x = Tr<T>::mk(9); out->pop(x); CHECK(Tr<T>::get(x) == v && Tr<T>::ok(x), "the item"); a.gc(); b.gc(); delete in[0]; delete in[1]; delete out; } CHECK(Life::live() == 0, "every element object is destroyed"); symx_reach("kept");
}
SYMX_ENTRY(r02_none) { switch (sym_pick("type", 0, 2)) { case 0: noneT<u32>(); break; case 1: noneT<Small>(); break; default: noneT<Big>(); } }
SYMX_ENTRY(r02_exe) {
  unsigned n = sym_pick("n", 0, 2), q = sym_pick("q", 0, 2); u32 v[2] = {tagged(0), tagged(1)}, w[2] = {tagged(4), tagged(5)};
  Src s(n, v), t(q, w); raft::join<u32> jn(2); Snk k; raft::map m; m.link(&s, "o0", &jn, "0"); m.link(&t, "o0", &jn, "1"); m.link(&jn, "0", &k, "i0"); m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>();
  CHECK(k.n == n + q, "every item arrives once"); unsigned c[2] = {0, 0}; for (unsigned i = 0; i < k.n; i++) { unsigned id = idOf(k.got[i]), s = id / 4, j = id % 4; CHECK(s < 2 && j == c[s] && j < (s ? q : n), "each item once and in order"); c[s]++; CHECK(k.got[i] == (s ? w : v)[j], "value unchanged"); } symx_reach("done");
}

// ---- the other ends of the streams at work at the same time
struct Side { FIFO *f[2]; u32 v[4]; unsigned n; std::vector<u32> got[2]; };
static void feed2(void *p) { auto *c = (Side *)p; for (unsigned i = 0; i < c->n; i++) { FIFO *f = c->f[1] && (i & 1) ? c->f[1] : c->f[0]; f->push(c->v[i]); } for (auto *f : c->f) if (f) f->invalidate(); }
static void drain2(void *p) { auto *c = (Side *)p; for (;;) { bool open = false; for (unsigned i = 0; i < 2; i++) { if (!c->f[i]) continue; bool cl = c->f[i]->is_invalid(); if (c->f[i]->size()) { u32 x; c->f[i]->pop(x); c->got[i].push_back(x); open = true; } else if (!cl) open = true; } if (!open) break; symx_yield(); } }
static FIFO *small(unsigned cap) { return RingBuffer<u32, Type::Heap, false>::make_new_fifo(cap, 64, nullptr); }
SYMX_ENTRY(r01_race) {
  bool fd = sym_pick("feed", 0, 1); raft::split<u32> sp(2); FIFO *in = small(fd ? 2 : 4), *o[2] = {small(fd ? 4 : 1), small(fd ? 4 : 1)}; PortAcc::infoFor(sp.input, "0").setFIFO(in); for (unsigned i = 0; i < 2; i++) PortAcc::infoFor(sp.output, pname("", i)).setFIFO(o[i]);
  Side c; c.n = 3; for (unsigned i = 0; i < 3; i++) c.v[i] = tagged(i); if (fd) { c.f[0] = in; c.f[1] = nullptr; } else { for (unsigned i = 0; i < 3; i++) in->push(c.v[i]); in->invalidate(); c.f[0] = o[0]; c.f[1] = o[1]; } for (auto &g : c.got) g.reserve(4);
  int t = symx_thread_create(fd ? feed2 : drain2, &c); volatile bool fin = false; while (!fin) if (!Schedule::kernelRun(&sp, fin)) symx_yield(); symx_thread_join(t); CHECK(in->size() == 0, "finished only when everything is forwarded");
  bool seen[3] = {}; unsigned n = 0; for (unsigned i = 0; i < 2; i++) { CHECK(o[i]->is_invalid(), "outputs closed on finishing"); while (o[i]->size()) { u32 x; o[i]->pop(x); c.got[i].push_back(x); } int last = -1; for (u32 x : c.got[i]) { unsigned id = idOf(x); CHECK(id < 3 && !seen[id], "each item goes to one output"); seen[id] = true; CHECK(x == c.v[id], "value unchanged"); CHECK((int)id > last, "order per output"); last = id; n++; } } CHECK(n == 3, "every item is forwarded");
  delete in; delete o[0]; delete o[1]; symx_reach("done");
}
SYMX_ENTRY(r02_race) {
  bool fd = sym_pick("feed", 0, 1); raft::join<u32> jn(2); FIFO *in[2] = {small(fd ? 1 : 2), small(fd ? 1 : 2)}, *o = small(fd ? 4 : 1); PortAcc::infoFor(jn.output, "0").setFIFO(o); for (unsigned i = 0; i < 2; i++) PortAcc::infoFor(jn.input, pname("", i)).setFIFO(in[i]);
  Side c; c.n = 3; for (unsigned i = 0; i < 3; i++) c.v[i] = tagged(i); for (auto &g : c.got) g.reserve(4); if (fd) { c.f[0] = in[0]; c.f[1] = in[1]; } else { for (unsigned i = 0; i < 3; i++) in[i & 1]->push(c.v[i]); in[0]->invalidate(); in[1]->invalidate(); c.f[0] = o; c.f[1] = nullptr; }
  int t = symx_thread_create(fd ? feed2 : drain2, &c); volatile bool fin = false; while (!fin) if (!Schedule::kernelRun(&jn, fin)) symx_yield(); symx_thread_join(t); CHECK(o->is_invalid(), "output closed on finishing"); while (o->size()) { u32 x; o->pop(x); c.got[0].push_back(x); }
  CHECK(c.got[0].size() == 3, "every item is forwarded once"); int last[2] = {-1, -1}; for (u32 x : c.got[0]) { unsigned id = idOf(x); CHECK(id < 3 && x == c.v[id], "value unchanged"); CHECK((int)id > last[id & 1], "each item once and in order"); last[id & 1] = id; } delete o; delete in[0]; delete in[1]; symx_reach("done");
}
