// P01: port registries
//@ flags quick="-DNADD=3 -DLEN=1" thorough="-DNADD=4 -DLEN=2"
//@ entry p01_names prop=P01 reach=dup,found,missing bound="NADD ports (3/4) of up to 4 element types under symbolic one byte names (equal or not), lookups under a further symbolic name"
//@ entry p01_long prop=P01 reach=dup,found,missing bound="2 ports under symbolic names of 0..LEN bytes (1/2), lookups under a further such name"
//@ entry p01_multi prop=P01 reach=done bound="several names added in one call, a name repeated in the call or already present"
//@ entry p01_inplace prop=P01 reach=done bound="1..5 in-place ports over an array of up to 9 elements"
//@ entry p01_many prop=P01 reach=done bound="12 ports added in a symbolic rotation"
#include "graph.h"
struct PK : public raft::kernel { PK() : raft::kernel() {} PK(void *p, size_t n) : raft::kernel(p, n) {} raft::kstatus run() override { return raft::stop; } };
static std::string symName(unsigned lo, unsigned hi) { unsigned n = lo == hi ? lo : sym_pick("len", lo, hi); std::string s; for (unsigned i = 0; i < n; i++) s.push_back((char)sym_u8("ch")); return s; }
static const std::type_info *addTyped(Port &p, unsigned t, const std::string &n) {
  switch (t) { case 0: p.addPort<u32>(n); return &typeid(u32); case 1: p.addPort<double>(n); return &typeid(double); case 2: p.addPort<Small>(n); return &typeid(Small); default: p.addPort<Big>(n); return &typeid(Big); }
}
struct Rec { std::string n; const std::type_info *t; };
static void agree(raft::kernel *k, Port &p, const Rec *r, unsigned cnt) {
  CHECK(p.count() == cnt, "count is the number of ports added"); CHECK(p.hasPorts() == (cnt > 0), "hasPorts");
  unsigned seen[16] = {0}, e = 0;
  for (auto it = p.begin(); it != p.end(); ++it) { e++; bool f = false; for (unsigned i = 0; i < cnt; i++) if (it.name() == r[i].n) { seen[i]++; f = true; } CHECK(f, "enumeration presents only ports added"); if (e > cnt) break; }
  CHECK(e == cnt, "enumeration presents as many ports as added");
  for (unsigned i = 0; i < cnt; i++) { CHECK(seen[i] == 1, "every port is enumerated exactly once");
    CHECK(p.getPortType(std::string(r[i].n)) == std::type_index(*r[i].t), "declared element type");
    PortInfo &pi = PortAcc::infoFor(p, r[i].n); CHECK(pi.type == std::type_index(*r[i].t), "declared element type"); CHECK(pi.my_kernel == k, "port belongs to its kernel"); CHECK(pi.my_name == r[i].n, "port knows its name"); CHECK(pi.other_kernel == nullptr, "starts unconnected"); }
}
static void names(unsigned nadd, unsigned lo, unsigned hi) {
  PK k; bool out = sym_pick("out", 0, 1); Port &p = out ? k.output : k.input; Port &o = out ? k.input : k.output; Rec r[8]; unsigned cnt = 0;
  for (unsigned i = 0; i < nadd; i++) {
    std::string n = symName(lo, hi); unsigned t = sym_pick("type", 0, i == 0 ? 3 : i == 1 ? 1 : 0); bool dup = false; for (unsigned j = 0; j < cnt; j++) if (r[j].n == n) dup = true;
    bool threw = false; const std::type_info *ti = nullptr;
    try { ti = addTyped(p, t, n); } catch (PortAlreadyExists &e) { threw = true; symx_reach("dup"); }
    CHECK(threw == dup, "adding a name raises the error exactly if the name exists"); if (!dup) { r[cnt].n = n; r[cnt].t = ti; cnt++; }
  }
  agree(&k, p, r, cnt); CHECK(o.count() == 0, "the other side is not touched");
  // give every port a stream of its own and look ports up by name
  FIFO *fs[8]; for (unsigned i = 0; i < cnt; i++) { fs[i] = RingBuffer<u32, Type::Heap, false>::make_new_fifo(1 + i, 16, nullptr); PortAcc::infoFor(p, r[i].n).setFIFO(fs[i]); }
  std::string q = symName(lo, hi); int hit = -1; for (unsigned i = 0; i < cnt; i++) if (r[i].n == q) hit = i;
  bool threw = false; try { FIFO &f = p[q]; CHECK(hit >= 0 && &f == fs[hit], "lookup by name yields that port's stream"); symx_reach("found"); } catch (PortNotFoundException &e) { threw = true; symx_reach("missing"); }
  CHECK(threw == (hit < 0), "unknown names raise the error");
  threw = false; try { p.getPortType(std::string(q)); } catch (PortNotFoundException &e) { threw = true; } CHECK(threw == (hit < 0), "unknown names raise the error (type)");
  threw = false; try { PortInfo &pi = PortAcc::infoFor(p, q); CHECK(hit >= 0 && pi.my_name == q && &pi == &PortAcc::infoFor(p, r[hit].n), "lookup by name yields that port"); } catch (PortNotFoundException &e) { threw = true; } CHECK(threw == (hit < 0), "unknown names raise the error (description)");
  threw = false; try { FIFO &f = p[std::string(q)]; CHECK(hit >= 0 && &f == fs[hit], "lookup by name yields that port's stream"); } catch (PortNotFoundException &e) { threw = true; } CHECK(threw == (hit < 0), "unknown names raise the error (temporary)");
  agree(&k, p, r, cnt);
  unsigned e = 0; for (auto it = p.begin(); it != p.end(); ++it, e++) { bool f = false; for (unsigned i = 0; i < cnt; i++) if (it.name() == r[i].n) f = &*it == fs[i]; CHECK(f, "enumeration yields the stream of the named port"); }
  for (unsigned i = 0; i < cnt; i++) delete fs[i];
}
SYMX_ENTRY(p01_names) { names(NADD, 1, 1); }
SYMX_ENTRY(p01_long) { names(2, 0, LEN); }
SYMX_ENTRY(p01_multi) {
  PK k; std::string a(1, (char)sym_u8("a")), b(1, (char)sym_u8("b")), c(1, (char)sym_u8("c")); Rec r[8]; unsigned cnt = 0;
  k.input.addPort<double>(a); r[cnt++] = {a, &typeid(double)};
  bool threw = false; try { k.input.addPort<u32>(b, c); } catch (PortAlreadyExists &e) { threw = true; }
  CHECK(threw == (a == b || a == c || b == c), "a repeated name raises the error");
  if (!(a == b)) { r[cnt++] = {b, &typeid(u32)}; if (!(a == c) && !(b == c)) r[cnt++] = {c, &typeid(u32)}; }
  agree(&k, k.input, r, cnt);
  // the implicit port exists exactly if there is one
  int how = 0; try { PortInfo &pi = PortAcc::info(k.input); CHECK(pi.my_name == a, "the only port"); } catch (AmbiguousPortAssignmentException &e) { how = 1; } CHECK(how == (cnt > 1), "implicit port exactly if unambiguous");
  how = 0; try { PortAcc::info(k.output); } catch (PortNotFoundException &e) { how = 1; } CHECK(how == 1, "no implicit port without ports");
  symx_reach("done");
}
SYMX_ENTRY(p01_inplace) {
  u64 arr[9]; unsigned np = sym_pick("np", 1, 5), len = sym_pick("len", 5, 9); PK k(arr, len * sizeof(u64)); k.output.addInPlacePorts<u64>(np); Rec r[8];
  for (unsigned i = 0; i < np; i++) r[i] = {pname("", i), &typeid(u64)};
  agree(&k, k.output, r, np); symx_reach("done");
}
SYMX_ENTRY(p01_many) {
  PK k; unsigned rot = sym_pick("rot", 0, 11); Rec r[12];
  for (unsigned i = 0; i < 12; i++) { std::string n = std::to_string((i * 5 + rot) % 12); k.input.addPort<u32>(n); r[i] = {n, &typeid(u32)}; }
  agree(&k, k.input, r, 12); symx_reach("done");
}
