// G05: traversals, G06: allocation of the queues
//@ flags quick="-DNED=3 -DNK=3" thorough="-DNED=3 -DNK=4"
//@ entry g05_edges prop=G05 reach=done,multi bound="NK kernels (3/4) with 2 inputs and 2 outputs each, 3 links with every choice of their ends (cycles, self loops, multi-edges, diamonds), every non-empty set of start kernels"
//@ entry g05_shapes prop=G05 reach=done bound="diamonds, double edges, fan-outs of 1..4 and chains of 2..6 from the set and the vector of sources"
//@ entry g05_error prop=G05 reach=raised,passed bound="3 kernels, each link present or not, with the error for unconnected ports asked for"
//@ entry g06_std prop=G06 reach=done bound="chains, diamonds and fan-outs of up to 5 links, symbolic choice of fixed/default buffer size (1..4), one link over user memory"
//@ entry g06_dyn prop=G06 reach=done bound="as g06_std with the monitoring allocator (monitor loop not entered)"
//@ entry g06_init prop=G06 reach=set,refused bound="an allocator of the user's own setting up 3 links between 2 outputs and 2 inputs in every choice"
//@ entry g06_again prop=G06 reach=done bound="allocating twice is refused and leaves the first streams in place"
#include "graph.h"
struct MA : public raft::map { std::set<raft::kernel *> &src() { auto &c = source_kernels.acquire(); source_kernels.release(); return c; } };
struct E { Node *a; unsigned o; Node *b; unsigned i; };
template <class S> static void traverse(S &start, E *e, unsigned ne, Node **all, unsigned nn, bool vertices) {
  // reference: fixpoint of reachability
  bool r[8] = {0}; for (auto *k : start) for (unsigned i = 0; i < nn; i++) if (all[i] == k) r[i] = true;
  for (unsigned round = 0; round < nn; round++) for (unsigned j = 0; j < ne; j++) for (unsigned x = 0; x < nn; x++) if (all[x] == e[j].a && r[x]) for (unsigned y = 0; y < nn; y++) if (all[y] == e[j].b) r[y] = true;
  unsigned cnt[16] = {0}, calls = 0; int token = 0;
  GraphTools::BFS(start, (edge_func)[&](PortInfo &a, PortInfo &b, void *d) { calls++; CHECK(d == &token, "the caller's data is passed on"); bool f = false;
    for (unsigned j = 0; j < ne; j++) if (&PortAcc::infoFor(e[j].a->output, pname("o", e[j].o)) == &a) { f = true; cnt[j]++; CHECK(&PortAcc::infoFor(e[j].b->input, pname("i", e[j].i)) == &b, "a link is presented with its two ends"); } CHECK(f, "only links are presented"); }, &token);
  for (unsigned j = 0; j < ne; j++) { bool reach = false; for (unsigned x = 0; x < nn; x++) if (all[x] == e[j].a && r[x]) reach = true; CHECK(cnt[j] == reach, "every reachable link is presented exactly once, no other"); }
  if constexpr (std::is_same<S, std::set<raft::kernel *>>::value) if (vertices) { unsigned v[8] = {0};
    GraphTools::BFS(start, (vertex_func)[&](raft::kernel *k, void *d) { CHECK(d == &token, "the caller's data is passed on"); bool f = false; for (unsigned x = 0; x < nn; x++) if (all[x] == k) { v[x]++; f = true; } CHECK(f, "only kernels of the graph are visited"); }, &token);
    for (unsigned x = 0; x < nn; x++) CHECK(v[x] == r[x], "every reachable kernel is visited exactly once, no other"); }
}
SYMX_ENTRY(g05_edges) {
  Node *n[NK]; for (unsigned i = 0; i < NK; i++) n[i] = new Node(2, 2, i); E e[8]; unsigned ne = 0; MA m; unsigned usedO = 0, usedI = 0, prev = 0; bool multi = false;
  for (unsigned j = 0; j < NED; j++) { unsigned o = sym_pick("o", prev, 2 * NK - 1), i = sym_pick("i", 0, 2 * NK - 1); prev = o; if (usedO >> o & 1 || usedI >> i & 1) symx_end(); usedO |= 1u << o; usedI |= 1u << i; for (unsigned q = 0; q < ne; q++) if (e[q].a == n[o / 2] && e[q].b == n[i / 2]) multi = true; e[ne++] = {n[o / 2], o % 2, n[i / 2], i % 2}; m.link(n[o / 2], pname("o", o % 2), n[i / 2], pname("i", i % 2)); }
  unsigned st = sym_pick("start", 1, 4); if (NK > 3 && st == 4) st = 9; std::set<raft::kernel *> s; for (unsigned i = 0; i < NK; i++) if (st >> i & 1) s.insert(n[i]); if (multi) symx_reach("multi");
  traverse(s, e, ne, n, NK, true); for (auto *k : n) delete k; symx_reach("done");
}
// shapes with all ports connected; returns nodes and edges
struct G { Node *n[8]; unsigned nn = 0; E e[12]; unsigned ne = 0; Node *mk(unsigned i, unsigned o) { return n[nn] = new Node(i, o, nn), n[nn++]; } void ed(Node *a, unsigned o, Node *b, unsigned i) { e[ne++] = {a, o, b, i}; } ~G() { for (unsigned i = 0; i < nn; i++) delete n[i]; } };
static void shape(G &g, unsigned s, unsigned x) {
  switch (s) {
    case 0: { Node *p = g.mk(0, 1); for (unsigned i = 0; i < x; i++) { Node *q = g.mk(1, i + 1 < x); g.ed(p, 0, q, 0); p = q; } break; }               // chain
    case 1: { Node *a = g.mk(0, 2), *b = g.mk(1, 1), *c = g.mk(1, 1), *d = g.mk(2, 0); g.ed(a, 0, b, 0); g.ed(a, 1, c, 0); g.ed(b, 0, d, x & 1); g.ed(c, 0, d, !(x & 1)); break; } // diamond
    case 2: { unsigned w = x > 4 ? 4 : x; Node *a = g.mk(0, w), *b = g.mk(w, 0); for (unsigned i = 0; i < w; i++) g.ed(a, i, b, (i + x / 2) % w); break; }   // multi-edge
    case 3: { unsigned w = x > 4 ? 4 : x; Node *a = g.mk(0, w); for (unsigned i = 0; i < w; i++) g.ed(a, i, g.mk(1, 0), 0); break; }        // fan-out
    case 4: { unsigned w = x > 4 ? 4 : x; Node *b = g.mk(w, 0); for (unsigned i = 0; i < w; i++) g.ed(g.mk(0, 1), 0, b, i); break; }        // several sources
    default: { Node *a = g.mk(0, 1), *b = g.mk(2, 2), *c = g.mk(1, 1), *d = g.mk(1, 0); g.ed(a, 0, b, 0); g.ed(b, 0, c, 0); g.ed(c, 0, b, 1); g.ed(b, 1, d, 0); break; } // feedback
  }
}
SYMX_ENTRY(g05_shapes) {
  G g; shape(g, sym_pick("shape", 0, 5), sym_pick("x", 1, 5)); MA m; for (unsigned i = 0; i < g.ne; i++) m.link(g.e[i].a, pname("o", g.e[i].o), g.e[i].b, pname("i", g.e[i].i));
  std::vector<raft::kernel *> v(m.src().begin(), m.src().end()); traverse(v, g.e, g.ne, g.n, g.nn, false); traverse(m.src(), g.e, g.ne, g.n, g.nn, true); traverse(m.src(), g.e, g.ne, g.n, g.nn, true); symx_reach("done");
}
SYMX_ENTRY(g05_error) {
  Node a(0, 2, 0), b(1, 1, 1), c(2, 0, 2); MA m; unsigned l = sym_pick("l", 0, 7); if (l & 1) m.link(&a, "o0", &b, "i0"); if (l & 2) m.link(&a, "o1", &c, "i0"); if (l & 4) m.link(&b, "o0", &c, "i1");
  bool exp = !((l & 1) && (l & 2)) || ((l & 1) && !(l & 4)), t = false; unsigned calls = 0; std::set<raft::kernel *> s; s.insert(&a); try { GraphTools::BFS(s, (edge_func)[&](PortInfo &, PortInfo &, void *) { calls++; }, nullptr, true); } catch (PortException &) { t = true; }
  CHECK(t == exp, "raises exactly if a reachable output is unconnected"); if (t) symx_reach("raised"); else symx_reach("passed");
  calls = 0; GraphTools::BFS(s, (edge_func)[&](PortInfo &, PortInfo &, void *) { calls++; }); CHECK(calls == (l & 1) + (l >> 1 & 1) + ((l & 1) ? (l >> 2 & 1) : 0), "and can be traversed without it afterwards"); symx_reach("done");
}
// ---- G06
struct Src : public raft::kernel { Src(void *p, size_t n) : raft::kernel(p, n) { output.addInPlacePorts<u32>(1); } raft::kstatus run() override { return raft::stop; } };
template <class AL> static void alloc() {
  G g; unsigned sh = sym_pick("shape", 0, 5), x = sym_pick("x", 1, 4), fx = sym_pick("fixed", 0, 15); long base;
  static u32 arr[5]; for (unsigned i = 0; i < 5; i++) arr[i] = 100 + i; bool um = sym_pick("user", 0, 1);
  shape(g, sh, x); MA m; size_t want[12]; for (unsigned i = 0; i < g.ne; i++) { bool f = fx >> (i & 3) & 1; size_t b = f ? 1 + (i + x) % 4 : 0; want[i] = f ? b : INITIAL_ALLOC_SIZE; m.link(g.e[i].a, pname("o", g.e[i].o), g.e[i].b, pname("i", g.e[i].i), b); }
  Src us(arr, sizeof(arr)); Node ud(1, 0, 9); if (um) m.link(&us, "0", &ud, "i0");
  base = symx_live_heap(); volatile bool ex = true;
  { AL a(m, ex); a.run(); a.waitTillReady();
    for (unsigned i = 0; i < g.ne; i++) { FIFO *f = PortAcc::infoFor(g.e[i].a->output, pname("o", g.e[i].o)).getFIFO(); CHECK(f != nullptr, "every link has a stream"); CHECK(f == PortAcc::infoFor(g.e[i].b->input, pname("i", g.e[i].i)).getFIFO(), "both ends share the stream");
      CHECK(f == &g.e[i].a->output[pname("o", g.e[i].o)] && f == &g.e[i].b->input[pname("i", g.e[i].i)], "the kernels see that stream"); for (unsigned j = 0; j < i; j++) CHECK(f != PortAcc::infoFor(g.e[j].a->output, pname("o", g.e[j].o)).getFIFO(), "different links have different streams");
      CHECK(f->capacity() == want[i], "configured or default capacity"); CHECK(f->size() == 0 && !f->is_invalid(), "starts empty and open"); CHECK(f->space_avail() == want[i], "starts with all its space"); }
    if (um) { FIFO *f = &us.output["0"]; CHECK(f == &ud.input["i0"], "both ends share the stream"); CHECK(f->size() == 5 && f->capacity() == 5, "user memory starts full"); u32 v; f->pop(v); CHECK(v == 100, "user memory"); }
    // the streams carry data of their own
    for (unsigned i = 0; i < g.ne; i++) { u32 v = 7 + i; g.e[i].a->output[pname("o", g.e[i].o)].push(v); } for (unsigned i = 0; i < g.ne; i++) { u32 v = 0; g.e[i].b->input[pname("i", g.e[i].i)].pop(v); CHECK(v == 7 + i, "a link delivers what was written to it"); } }
  CHECK(symx_live_heap() == base, "the streams are released exactly once at the end"); symx_reach("done");
}
SYMX_ENTRY(g06_std) { alloc<stdalloc>(); }
SYMX_ENTRY(g06_dyn) { alloc<dynalloc>(); }
SYMX_ENTRY(g06_again) {
  Node a(0, 1), b(1, 0); MA m; m += a >> b; volatile bool ex = true; FIFO *f; { stdalloc x(m, ex); x.run(); f = &a.output["o0"]; u32 v = 5; f->push(v); bool t = false; { stdalloc y(m, ex); try { y.run(); } catch (PortDoubleInitializeException &) { t = true; } } CHECK(t, "a second allocation is refused"); CHECK(&a.output["o0"] == f && &b.input["i0"] == f && f->size() == 1, "the first stream stays in place"); } symx_reach("done");
}
// the interface for allocators: a stream is given to a link once, never to a port that has one
struct OwnAlloc : public Allocate { OwnAlloc(raft::map &m, volatile bool &ex) : Allocate(m, ex) {} void run() override { setReady(); } void init(PortInfo *a, PortInfo *b, FIFO *f) { initialize(a, b, f); } size_t known() { return allocated_fifo.size(); } };
SYMX_ENTRY(g06_init) {
  Node a(0, 2), b(2, 0); MA m; volatile bool ex = true; m += a["o0"] >> b["i0"]; m += a["o1"] >> b["i1"]; { OwnAlloc al(m, ex); FIFO *so[2] = {nullptr, nullptr}, *si[2] = {nullptr, nullptr}; size_t n = 0; FIFO *drop[3]; unsigned nd = 0;
  for (int i = 0; i < 3; i++) { unsigned x = sym_pick("x", 0, 1), y = sym_pick("y", 0, 1); FIFO *f = RingBuffer<u32, Type::Heap, false>::make_new_fifo(2, 16, nullptr); bool t = false; PortInfo &po = PortAcc::infoFor(a.output, pname("o", x)), &pi = PortAcc::infoFor(b.input, pname("i", y));
    try { al.init(&po, &pi, f); } catch (PortDoubleInitializeException &) { t = true; } CHECK(t == (so[x] || si[y]), "refused exactly if one of the ports has a stream"); if (t) { symx_reach("refused"); drop[nd++] = f; } else { so[x] = si[y] = f; n++; symx_reach("set"); }
    for (int q = 0; q < 2; q++) { CHECK(PortAcc::infoFor(a.output, pname("o", q)).getFIFO() == so[q], "the output's stream"); CHECK(PortAcc::infoFor(b.input, pname("i", q)).getFIFO() == si[q], "the input's stream"); } CHECK(al.known() == n, "the allocator knows its streams"); }
  while (nd) delete drop[--nd]; }
}
