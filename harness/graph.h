// Shared harness code for the port, graph and scheduler properties.
#pragma once
#include "stream.h"
#include <raft>
#include <raftio>
struct PortAcc : public Port {
  static PortInfo &info(Port &p) { return (p.*(&PortAcc::getPortInfo))(); }
  static PortInfo &infoFor(Port &p, const std::string &n) { return (p.*(&PortAcc::getPortInfoFor))(n); }
};
// a kernel with nin inputs and nout outputs of type T, named i0.. and o0..
static inline std::string pname(const char *pre, unsigned i) { std::string s(pre); s.push_back((char)('0' + i)); return s; }
struct Node : public raft::kernel {
  static inline long ctor = 0, dtor = 0; unsigned tag = 0, gen = 0;
  unsigned ni, no;
  template <class A, class B> static void types() {}
  Node(unsigned nin, unsigned nout, unsigned t = 0) : raft::kernel(), tag(t), ni(nin), no(nout) { ctor++; for (unsigned i = 0; i < nin; i++) input.addPort<u32>(pname("i", i)); for (unsigned i = 0; i < nout; i++) output.addPort<u32>(pname("o", i)); }
  Node(const Node &o) : Node(o.ni, o.no, o.tag) { gen = o.gen + 1; }
  virtual ~Node() { dtor++; }
  CLONE();
  raft::kstatus run() override { return raft::stop; }
};
struct MapAcc : public raft::map {
  std::set<raft::kernel *> src() { return source_kernels.acquire(); }
};
