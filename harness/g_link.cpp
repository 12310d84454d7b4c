// G01 typed links, G02 one link per port, G03 validation before execution
//@ flags quick="-DNEXTRA=1" thorough="-DNEXTRA=2"
//@ entry g01_types prop=G01 reach=linked,refused bound="every ordered pair of 14 element types, explicit and implicit port names"
//@ entry g02_links prop=G02 reach=linked,double,ambiguous,unknown bound="1 link between any two of 3 output and 3 input ports followed by NEXTRA (1/2) further links with every choice of kernels, implicit/explicit/unknown (symbolic) names, symbolic buffer sizes, both orders"
//@ entry g02_names prop=G02 reach=linked,unknown bound="link under symbolic one byte port names"
//@ entry g03_check prop=G03 reach=valid,invalid bound="4 kernels with 1..2 ports each, every subset of 4 candidate links (kernels enter the graph by being linked), one of the kernels made by the library or none"
//@ entry g03_exe prop=G03 reach=refused bound="as g03_check, graphs with an unconnected port given to exe()"
//@ entry g03_each prop=G03 reach=valid,invalid bound="a kernel with 0..3 inputs and 0..3 outputs, each linked to a kernel of its own or left open, linked under its name, in either order; checked directly and by exe()"
#include "graph.h"
struct MA : public raft::map { void chk() { checkEdges(); } std::set<raft::kernel *> &src() { auto &c = source_kernels.acquire(); source_kernels.release(); return c; } std::set<raft::kernel *> &dst() { auto &c = dst_kernels.acquire(); dst_kernels.release(); return c; } std::set<raft::kernel *> &all() { auto &c = all_kernels.acquire(); all_kernels.release(); return c; } };
namespace ns1 { struct X { int a; }; typedef short E; } namespace ns2 { struct X { int a; }; } template <class T> struct Wrap { T t; };
template <class F> static void withType(unsigned t, F f) {
  switch (t) { case 0: f((int *)0); break; case 1: f((unsigned *)0); break; case 2: f((long *)0); break; case 3: f((long long *)0); break; case 4: f((char *)0); break; case 5: f((signed char *)0); break; case 6: f((float *)0); break; case 7: f((double *)0); break;
    case 8: f((ns1::X *)0); break; case 9: f((ns2::X *)0); break; case 10: f((ns1::E *)0); break; case 11: f((Wrap<int> *)0); break; case 12: f((Wrap<unsigned> *)0); break; case 13: f((Big *)0); break; }
}
struct K0 : public raft::kernel { raft::kstatus run() override { return raft::stop; } };
SYMX_ENTRY(g01_types) {
  unsigned ta = sym_pick("ta", 0, 13), tb = sym_pick("tb", 0, 13), how = sym_pick("how", 0, 1);
  K0 a, b; withType(ta, [&](auto *p) { a.output.addPort<std::remove_pointer_t<decltype(p)>>("x"); }); withType(tb, [&](auto *p) { b.input.addPort<std::remove_pointer_t<decltype(p)>>("y"); });
  MA m; int r = 0; try { if (how) m.link(&a, "x", &b, "y"); else m += a >> b; } catch (PortTypeMismatchException &e) { r = 1; }
  CHECK(r == (ta != tb), "linking succeeds exactly if the types are identical");
  PortInfo &pa = PortAcc::infoFor(a.output, "x"), &pb = PortAcc::infoFor(b.input, "y");
  if (r) { symx_reach("refused"); CHECK(pa.other_kernel == nullptr && pb.other_kernel == nullptr, "a refused link connects neither end");
    // both ends can still be linked properly afterwards
    K0 c, d; withType(ta, [&](auto *p) { c.input.addPort<std::remove_pointer_t<decltype(p)>>("y"); }); withType(tb, [&](auto *p) { d.output.addPort<std::remove_pointer_t<decltype(p)>>("x"); });
    bool t = false; try { m.link(&a, "x", &c, "y"); m.link(&d, "x", &b, "y"); } catch (...) { t = true; } CHECK(!t, "both ends are still usable after a refused link"); CHECK(pa.other_kernel == &c && pb.other_kernel == &d, "linked"); }
  else { symx_reach("linked"); CHECK(pa.other_kernel == &b && pb.other_kernel == &a, "linked"); }
}
// ---- G02: reference model of 3 output ports (A.o0, A.o1, B.o0) and 3 input ports (C.i0, D.i0, D.i1)
struct PM { raft::kernel *k; const char *n; int peer; u64 buf; bool ooo; };
static void agree(PM *o, PM *i) {
  for (int s = 0; s < 2; s++) for (int j = 0; j < 3; j++) { PM &p = s ? i[j] : o[j]; PortInfo &pi = PortAcc::infoFor(s ? p.k->input : p.k->output, p.n);
    if (p.peer < 0) { CHECK(pi.other_kernel == nullptr, "unconnected"); continue; }
    PM &q = s ? o[p.peer] : i[p.peer]; CHECK(pi.other_kernel == q.k, "peer kernel"); CHECK(pi.other_name == q.n, "peer port"); CHECK(pi.fixed_buffer_size == p.buf, "buffer size of the link"); CHECK(pi.out_of_order == p.ooo, "order of the link"); }
}
SYMX_ENTRY(g02_links) {
  Node A(0, 2), Bk(0, 1), C(1, 0), D(2, 0); Node *src[2] = {&A, &Bk}, *dst[2] = {&C, &D};
  PM o[3] = {{&A, "o0", -1, 0, 0}, {&A, "o1", -1, 0, 0}, {&Bk, "o0", -1, 0, 0}}, in[3] = {{&C, "i0", -1, 0, 0}, {&D, "i0", -1, 0, 0}, {&D, "i1", -1, 0, 0}};
  MA m;
  for (unsigned step = 0; step <= NEXTRA; step++) {
    u64 buf = sym_u64("buf"); bool ooo = sym_pick("ooo", 0, step); unsigned a, b, an, bn; // an: 0,1 = named port, 2 = implicit, 3 = unknown
    if (step == 0) { unsigned x = sym_pick("x", 0, 2), y = sym_pick("y", 0, 2); a = x == 2; an = x == 1; b = y != 0; bn = y == 2; }
    else { a = sym_pick("a", 0, 1); an = sym_pick("an", 0, 3); b = sym_pick("b", 0, 1); bn = sym_pick("bn", 0, 3); }
    std::string na = an == 3 ? std::string(1, (char)sym_u8("na")) : an == 2 ? std::string(raft::null_port_value) : pname("o", an), nb = bn == 3 ? std::string(1, (char)sym_u8("nb")) : bn == 2 ? std::string(raft::null_port_value) : pname("i", bn);
    if (an == 3 && na == raft::null_port_value) symx_end(); if (bn == 3 && nb == raft::null_port_value) symx_end();
    int po = -1, pi = -1; bool amb = false, unk = false;
    if (an == 3) unk = true; else if (an == 2) { if (a == 0) amb = true; else po = 2; } else if (a == 0) po = an; else if (an == 0) po = 2; else unk = true;
    if (bn == 3) unk = true; else if (bn == 2) { if (b == 1) amb = true; else pi = 0; } else if (b == 1) pi = 1 + bn; else if (bn == 0) pi = 0; else unk = true;
    bool dbl = (po >= 0 && o[po].peer >= 0) || (pi >= 0 && in[pi].peer >= 0);
    int r = 0; try { kernel_pair_t kp = ooo ? m.link<raft::order::out>(src[a], na, dst[b], nb, buf) : m.link<raft::order::in>(src[a], na, dst[b], nb, buf);
      CHECK(kp.getSrcSize() == 1 && kp.getDstSize() == 1 && &(*kp.getSrc().first).get() == src[a] && &(*kp.getDst().first).get() == dst[b], "link returns its two kernels"); }
    catch (AmbiguousPortAssignmentException &) { r = 1; } catch (PortNotFoundException &) { r = 2; } catch (PortDoubleInitializeException &) { r = 3; }
    if (!amb && !unk && !dbl) { CHECK(r == 0, "a proper link succeeds"); symx_reach("linked"); o[po].peer = pi; in[pi].peer = po; o[po].buf = in[pi].buf = buf; o[po].ooo = in[pi].ooo = ooo; }
    else { CHECK(r != 0, "an improper link is refused"); CHECK(r != 1 || amb, "ambiguity error exactly for an ambiguous implicit name"); CHECK(r != 2 || unk, "not-found error exactly for unknown names"); CHECK(r != 3 || dbl, "double-initialisation error exactly for connected ports"); if (r == 1) symx_reach("ambiguous"); if (r == 2) symx_reach("unknown"); if (r == 3) symx_reach("double"); }
    agree(o, in);
  }
}
SYMX_ENTRY(g02_names) {
  std::string p0(1, (char)sym_u8("p0")), p1(1, (char)sym_u8("p1")), q(1, (char)sym_u8("q")), r(1, (char)sym_u8("r")); if (p0 == p1) symx_end(); if (q == raft::null_port_value) symx_end();
  K0 a, b; a.output.addPort<u32>(p0, p1); b.input.addPort<u32>(r); MA m; int e = 0; try { m += a[q] >> b; } catch (PortNotFoundException &) { e = 1; }
  CHECK(e == !(q == p0 || q == p1), "found exactly if such a port exists"); if (e) { symx_reach("unknown"); CHECK(PortAcc::infoFor(b.input, r).other_kernel == nullptr, "nothing linked"); symx_end(); }
  symx_reach("linked"); CHECK(PortAcc::infoFor(a.output, q).other_kernel == &b, "the named port is linked"); CHECK(PortAcc::infoFor(a.output, q == p0 ? p1 : p0).other_kernel == nullptr, "the other port is not"); CHECK(PortAcc::infoFor(a.output, q).other_name == r, "peer name"); CHECK(PortAcc::infoFor(b.input, r).other_name == q, "peer name");
}
// ---- G03: A(0,2) B(1,1) C(2,1) D(1,0)
struct RunNode : public Node { static inline int runs = 0; using Node::Node; raft::kstatus run() override { runs++; return raft::stop; } };
struct IntAcc : public raft::kernel { static void set(raft::kernel &k) { k.*(&IntAcc::internal_alloc) = true; } };
template <class MM, class F> static void topo(F f) {
  Node *n[4] = {new RunNode(0, 2), new RunNode(1, 1), new RunNode(2, 1), new RunNode(1, 0)}; struct L { int a, b; const char *pa, *pb; } l[4] = {{0, 1, "o0", "i0"}, {0, 2, "o1", "i0"}, {1, 2, "o0", "i1"}, {2, 3, "o0", "i0"}};
  unsigned made = sym_pick("made", 0, 4); if (made < 4) IntAcc::set(*n[made]); unsigned mask = sym_pick("links", 1, 15), conn = 0, need = 0; bool inG[4] = {0};
  { MM m; for (int i = 0; i < 4; i++) if (mask >> i & 1) { m.link(n[l[i].a], l[i].pa, n[l[i].b], l[i].pb); inG[l[i].a] = inG[l[i].b] = true; conn += 2; }
    for (int i = 0; i < 4; i++) if (inG[i]) need += n[i]->ni + n[i]->no;
    f(m, conn == need); }
  for (unsigned i = 0; i < 4; i++) if (i != made || !inG[i]) delete n[i];
}
SYMX_ENTRY(g03_check) { topo<MA>([](MA &m, bool ok) { bool t = false; try { m.chk(); } catch (PortUnconnectedException &) { t = true; } CHECK(t == !ok, "validation succeeds exactly if every port is connected"); if (ok) symx_reach("valid"); else symx_reach("invalid"); }); }
SYMX_ENTRY(g03_exe) { RunNode::runs = 0; topo<MA>([](MA &m, bool ok) { if (ok) return; bool t = false; try { m.exe(); } catch (PortUnconnectedException &) { t = true; } CHECK(t, "exe refuses a graph with an unconnected port"); CHECK(RunNode::runs == 0, "before any kernel runs"); symx_reach("refused");
  t = false; try { m.exe(); } catch (PortUnconnectedException &) { t = true; } CHECK(t, "and again"); }); }
// every port of one kernel is linked or left open on its own, all other kernels are complete
SYMX_ENTRY(g03_each) {
  unsigned ni = sym_pick("ni", 0, 3), no = sym_pick("no", 0, 3), mask = sym_pick("links", 1, 63), rev = sym_pick("rev", 0, 1), exe = sym_pick("exe", 0, 1), n = ni + no; if (mask >> n) symx_end();
  RunNode::runs = 0; RunNode k(ni, no); RunNode *e[6]; for (unsigned i = 0; i < n; i++) e[i] = i < ni ? new RunNode(0, 1) : new RunNode(1, 0); bool ok = mask + 1 == 1u << n;
  { MA m; for (unsigned q = 0; q < n; q++) { unsigned i = rev ? n - 1 - q : q; if (!(mask >> i & 1)) continue; if (i < ni) m.link(e[i], "o0", &k, pname("i", i)); else m.link(&k, pname("o", i - ni), e[i], "i0"); }
    if (ok) { m.chk(); symx_reach("valid"); } else { bool t = false; try { if (exe) m.exe(); else m.chk(); } catch (PortUnconnectedException &) { t = true; } CHECK(t, "a port that is not linked is detected"); CHECK(RunNode::runs == 0, "before any kernel runs"); symx_reach("invalid"); } }
  for (unsigned i = 0; i < n; i++) delete e[i];
}
