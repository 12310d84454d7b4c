// Q13 (partition), R03: containers streamed in and out
//@ flags quick="-DLEN=4" thorough="-DLEN=6"
//@ entry q13_part prop=Q13 reach=one,several,uneven bound="arrays of 0..LEN (4/6) elements over 1..LEN ports (also more ports than elements), streams allocated by stdalloc, every port read to its end"
//@ entry q13_part_small prop=Q13 reach=one,several,uneven bound="as q13_part for a class type"
//@ entry r03_foreach prop=R03 reach=done bound="for_each over 0..LEN elements with the default number of ports or 1..3, run by the scheduler"
//@ entry r03_read_u32 prop=R03 reach=empty,some bound="vector, list and array of 0..3 elements through read_each and through a copy of it"
//@ entry r03_read_small prop=R03 reach=empty,some bound="as r03_read_u32"
//@ entry r03_read_big prop=R03 reach=empty,some bound="as r03_read_u32"
//@ entry r03_write_u32 prop=R03 reach=empty,some bound="0..LEN elements arriving in portions of symbolic size at every wrap position of a stream of 3, written behind 0..2 existing elements of a vector or list by write_each or a copy of it"
//@ entry r03_write_small prop=R03 reach=empty,some bound="as r03_write_u32"
//@ entry r03_exe prop=R03 conc reach=done quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --time 2000 --max-paths 80000 --tso 1" bound="map::exe of read_each >> write_each, 0..3 elements, stream sizes 1, 2 and default; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry r03_race prop=R03 conc reach=done quick="--preempt 2 --max-yields 1000 --tso 1" thorough="--preempt 3 --max-yields 1000 --time 2000 --tso 1" bound="scheduler steps of read_each and write_each on two threads, 2 elements through a stream of 1; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry r03_feed prop=R03 conc reach=done quick="--preempt 2 --max-yields 1000 --tso 1" thorough="--preempt 4 --max-yields 1000 --time 1500 --tso 1" bound="scheduler steps of write_each over a stream of 2 or 4 that another thread fills with 3 elements (one at a time or two in one go) and closes; at one preemption recent stores may stay invisible (x86 store buffer)"
#include "graph.h"
#ifndef LEN
#define LEN 4
#endif
template <class T> struct Snk : public raft::kernel { Snk() { input.addPort<T>("i0"); } raft::kstatus run() override { return raft::proceed; } };
template <class T> static void partition(bool dflt, unsigned np) {
  unsigned len = sym_pick("len", 0, LEN); if (dflt) np = 1; T *arr = (T *)malloc(sizeof(T) * (len ? len : 1)); u32 val[8]; for (unsigned i = 0; i < len; i++) { val[i] = sym_u32("v"); new (&arr[i]) T(Tr<T>::mk(val[i])); } Life::reset(); unsigned seen[8] = {0};
  { raft::for_each<T> fe = dflt ? raft::for_each<T>(arr, len) : raft::for_each<T>(arr, len, np); CHECK(fe.output.count() == np && fe.input.count() == 0, "as many ports as asked for"); Snk<T> k[LEN]; raft::map m; for (unsigned i = 0; i < np; i++) m.link(&fe, pname("", i), &k[i], "i0");
    volatile bool ex = false; stdalloc al(m, ex); al.run(); ptr_map_t in; ptr_set_t out, pk; volatile bool fin = false; Schedule::kernelRun(&fe, fin); CHECK((bool)fin, "ends after offering the array");
    for (unsigned p = 0; p < np; p++) { FIFO &f = k[p].input["i0"]; CHECK(&f == &fe.output[pname("", p)], "one stream per port"); CHECK(f.is_invalid(), "the port is closed"); unsigned n = f.size(); long prev = -1;
      for (unsigned i = 0; i < n; i++) { T &x = f.template peek<T>(); CHECK((char *)&x >= (char *)arr && (char *)&x < (char *)(arr + len), "inside the array"); long id = &x - arr; CHECK(prev < 0 || id == prev + 1, "in order"); prev = id; CHECK(&arr[id] == &x, "in place"); seen[id]++; CHECK(Tr<T>::get(x) == Tr<T>::norm(val[id]), "the element's value"); f.unpeek(); f.recycle(); }
      CHECK(f.size() == 0, "drained"); } }
  for (unsigned i = 0; i < len; i++) { CHECK(seen[i] == 1, "every element exactly once"); CHECK(Tr<T>::get(arr[i]) == Tr<T>::norm(val[i]) && Tr<T>::ok(arr[i]), "the user's elements are untouched"); arr[i].~T(); } free(arr); symx_reach(np == 1 ? "one" : "several"); if (len % np) symx_reach("uneven"); symx_reach("done");
}
SYMX_ENTRY(q13_part) { partition<u64>(false, sym_pick("np", 1, LEN)); }
SYMX_ENTRY(q13_part_small) { partition<Small>(false, sym_pick("np", 1, LEN)); }
SYMX_ENTRY(r03_foreach) { unsigned np = sym_pick("np", 0, 3); if (sym_pick("type", 0, 1)) partition<u32>(np == 0, np); else partition<unsigned char>(np == 0, np); }
// ---- read_each
template <class T> struct Wire { FIFO *f; ptr_map_t rin, win; ptr_set_t rout, rpk, wout, wpk; Wire(size_t cap) { f = RingBuffer<T, Type::Heap, false>::make_new_fifo(cap, 64, nullptr); FifoAcc::map(f, &rin); FifoAcc::inPeek(f, &rpk); FifoAcc::out(f, &wout); FifoAcc::outPeek(f, &wpk); } ~Wire() { SchedAcc::gc(&rin, &rout, &rpk); delete f; } };
template <class T, class K> static void readT(K &k, unsigned n, const u32 *v) {
  CHECK(k.output.count() == 1 && k.input.count() == 0, "one output"); CHECK(k.output.getPortType("0") == typeid(T), "of the element type"); Wire<T> w(4); PortAcc::infoFor(k.output, "0").setFIFO(w.f); volatile bool fin = false; unsigned steps = 0; while (!fin && ++steps < 8) Schedule::kernelRun(&k, fin); CHECK((bool)fin, "ends after the last element"); CHECK(w.f->is_invalid(), "the output is closed");
  CHECK(w.f->size() == n, "as many elements as the container has"); for (unsigned i = 0; i < n; i++) { T x = Tr<T>::mk(0); raft::signal s = raft::none; w.f->pop(x, &s); CHECK(Tr<T>::get(x) == Tr<T>::norm(v[i]) && Tr<T>::ok(x), "the container's elements in order"); CHECK(s == raft::none, "no signal"); }
}
template <class T> static void readAll() {
  Life::reset(); unsigned n = sym_pick("n", 0, 3), how = sym_pick("how", 0, 3), copy = sym_pick("copy", 0, 1); u32 v[3]; std::vector<T> c; std::list<T> l; T *arr = nullptr; for (unsigned i = 0; i < n; i++) { v[i] = sym_u32("v"); }
  if (how == 1) { for (unsigned i = 0; i < n; i++) l.push_back(Tr<T>::mk(v[i])); auto k(raft::read_each<T>(l.begin(), l.end())); if (copy) { auto k2(k); readT<T>(k2, n, v); } readT<T>(k, n, v); }
  else { c.reserve(4); for (unsigned i = 0; i < n; i++) c.push_back(Tr<T>::mk(v[i]));
    if (how == 0) { auto k(raft::read_each<T>(c.begin(), c.end())); if (copy) { auto k2(k); readT<T>(k2, n, v); } readT<T>(k, n, v); }
    else if (how == 2) { auto k(raft::read_each<T>(c.cbegin(), c.cend())); if (copy) { auto k2(k); readT<T>(k2, n, v); } readT<T>(k, n, v); }
    else { arr = c.data(); auto k(raft::read_each<T>((T *)arr, (T *)arr + n)); if (copy) { auto k2(k); readT<T>(k2, n, v); } readT<T>(k, n, v); } }
  unsigned i = 0; if (how == 1) { CHECK(l.size() == n, "the container is unchanged"); for (auto &x : l) CHECK(Tr<T>::get(x) == Tr<T>::norm(v[i++]), "the container is unchanged"); } else { CHECK(c.size() == n, "the container is unchanged"); for (auto &x : c) CHECK(Tr<T>::get(x) == Tr<T>::norm(v[i++]), "the container is unchanged"); }
  c.clear(); l.clear(); CHECK(Life::live() == 0, "element objects are destroyed exactly once"); symx_reach(n ? "some" : "empty");
}
SYMX_ENTRY(r03_read_u32) { readAll<u32>(); }
SYMX_ENTRY(r03_read_small) { readAll<Small>(); }
SYMX_ENTRY(r03_read_big) { readAll<Big>(); }
// ---- write_each
template <class T, class K, class C> static void writeT(K &k, C &c, unsigned n, unsigned pre, unsigned rot, const u32 *v, const u32 *old) {
  CHECK(k.input.count() == 1 && k.output.count() == 0, "one input"); CHECK(k.input.getPortType("0") == typeid(T), "of the element type"); Wire<T> w(3); PortAcc::infoFor(k.input, "0").setFIFO(w.f); for (unsigned i = 0; i < rot; i++) { T x = Tr<T>::mk(0); w.f->push(x); w.f->recycle(); }
  volatile bool fin = false; unsigned sent = 0; auto same = [&](unsigned m) { CHECK(c.size() == pre + m, "as many elements as arrived"); unsigned i = 0; for (auto &x : c) { CHECK(Tr<T>::get(x) == (i < pre ? Tr<T>::norm(old[i]) : Tr<T>::norm(v[i - pre])) && Tr<T>::ok(x), "the stream's elements in order behind the earlier ones"); i++; } };
  while (sent < n) { unsigned b = sym_pick("b", 1, n - sent < 3 ? n - sent : 3); for (unsigned i = 0; i < b; i++) { T x = Tr<T>::mk(v[sent++]); w.f->push(x); } unsigned steps = 0; while (w.f->size() && ++steps < 5) Schedule::kernelRun(&k, fin); CHECK(w.f->size() == 0 && !fin, "consumes what is there"); same(sent); }
  Schedule::kernelRun(&k, fin); CHECK(!fin, "waits for more"); same(n); w.f->invalidate(); Schedule::kernelRun(&k, fin); CHECK((bool)fin, "ends when the stream is drained and closed"); same(n);
}
template <class T> static void writeAll() {
  Life::reset(); unsigned n = sym_pick("n", 0, LEN), pre = sym_pick("pre", 0, 2), rot = sym_pick("rot", 0, 2), copy = sym_pick("copy", 0, 1), li = sym_pick("list", 0, 1); u32 v[8], old[2] = {sym_u32("o"), sym_u32("o")}; for (unsigned i = 0; i < n; i++) v[i] = sym_u32("v");
  if (li) { std::list<T> c; for (unsigned i = 0; i < pre; i++) c.push_back(Tr<T>::mk(old[i])); auto k(raft::write_each<T>(std::back_inserter(c))); if (copy) { auto k2(k); writeT<T>(k2, c, n, pre, rot, v, old); } else writeT<T>(k, c, n, pre, rot, v, old); }
  else { std::vector<T> c; for (unsigned i = 0; i < pre; i++) c.push_back(Tr<T>::mk(old[i])); auto k(raft::write_each<T>(std::back_inserter(c))); if (copy) { auto k2(k); writeT<T>(k2, c, n, pre, rot, v, old); } else writeT<T>(k, c, n, pre, rot, v, old); }
  CHECK(Life::live() == 0, "element objects are destroyed exactly once"); symx_reach(n ? "some" : "empty");
}
SYMX_ENTRY(r03_write_u32) { writeAll<u32>(); }
SYMX_ENTRY(r03_write_small) { writeAll<Small>(); }
SYMX_ENTRY(r03_exe) {
  unsigned n = sym_pick("n", 0, 3), buf = sym_pick("buf", 0, 2); std::vector<u32> c, o; for (unsigned i = 0; i < n; i++) c.push_back(sym_u32("v")); o.push_back(7);
  { auto r(raft::read_each<u32>(c.begin(), c.end())); auto w(raft::write_each<u32>(std::back_inserter(o))); raft::map m; if (buf) m.link(&r, "0", &w, "0", buf); else m += r >> w; m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); }
  CHECK(o.size() == n + 1 && o[0] == 7, "as many elements as were read"); for (unsigned i = 0; i < n; i++) CHECK(o[i + 1] == c[i], "the same elements in order"); symx_reach("done");
}
static void body(void *p) { auto *k = (raft::kernel *)p; volatile bool fin = false; while (!fin) { if (!Schedule::kernelRun(k, fin)) symx_yield(); } }
SYMX_ENTRY(r03_race) {
  std::vector<u32> c, o; for (unsigned i = 0; i < 2; i++) c.push_back(sym_u32("v")); o.reserve(4); auto r(raft::read_each<u32>(c.begin(), c.end())); auto w(raft::write_each<u32>(std::back_inserter(o))); FIFO *f = RingBuffer<u32, Type::Heap, false>::make_new_fifo(1, 64, nullptr); PortAcc::infoFor(r.output, "0").setFIFO(f); PortAcc::infoFor(w.input, "0").setFIFO(f);
  int t = symx_thread_create(body, (raft::kernel *)&r); body((raft::kernel *)&w); symx_thread_join(t); CHECK(o.size() == 2 && o[0] == c[0] && o[1] == c[1], "the same elements in order"); delete f; symx_reach("done");
}

struct Feed { FIFO *f; u32 v[3]; bool batch; };
static void feeding(void *p) { auto *c = (Feed *)p; if (c->batch) { auto r = c->f->allocate_range<u32>(2); r[0].get() = c->v[0]; r[1].get() = c->v[1]; c->f->send_range(); } else { c->f->push(c->v[0]); c->f->push(c->v[1]); } c->f->push(c->v[2]); c->f->invalidate(); }
SYMX_ENTRY(r03_feed) {
  std::vector<u32> o; o.reserve(8); auto w(raft::write_each<u32>(std::back_inserter(o))); Feed c; c.f = RingBuffer<u32, Type::Heap, false>::make_new_fifo(sym_pick("cap", 0, 1) ? 4 : 2, 64, nullptr); c.batch = sym_pick("batch", 0, 1); for (auto &x : c.v) x = sym_u32("v"); PortAcc::infoFor(w.input, "0").setFIFO(c.f);
  int t = symx_thread_create(feeding, &c); body((raft::kernel *)&w); symx_thread_join(t); CHECK(o.size() == 3, "as many elements as arrived"); for (unsigned i = 0; i < 3; i++) CHECK(o[i] == c.v[i], "the stream's elements in order"); CHECK(c.f->size() == 0, "drained"); delete c.f; symx_reach("done");
}
