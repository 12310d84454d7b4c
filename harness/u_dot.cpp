// U10: rendering the graph
//@ flags quick="-DNL=2" thorough="-DNL=3"
//@ entry u10_dot prop=U10 reach=none,loop,multi,edge,unreached,done bound="3 kernels of two types with 0 or 2 outputs and inputs each, NL (2/3) links with every choice of their ends (cycles, self loops, multi-edges), in order or not; rendered twice"
//@ entry u10_sub prop=U10 reach=done bound="renderers derived from make_dot that replace one of the parts"
#include "graph.h"
struct MapDot : public raft::map { std::set<raft::kernel *> src() { auto c = source_kernels.acquire(); source_kernels.release(); return c; } };
struct OtherNode : public Node { OtherNode(unsigned t, unsigned no) : Node(2, no, t) {} };
struct SB : public std::streambuf { std::string s; std::streamsize xsputn(const char *p, std::streamsize n) override { s.append(p, n); return n; } int_type overflow(int_type c) override { s.push_back((char)c); return c; } };
static unsigned count(const std::string &s, const std::string &t) { unsigned n = 0; for (std::size_t p = s.find(t); p != std::string::npos; p = s.find(t, p + 1)) n++; return n; }
static bool begins(const std::string &s, const char *t) { return s.compare(0, strlen(t), t) == 0; }
static std::string num(unsigned long v) { std::string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
// an edge statement "a -> b[" with a label that names both ports
static unsigned edges(const std::string &s, const std::string &a, const std::string &b, const std::string &l) { return count(s, "\t" + a + " -> " + b + "[label=\"" + l); }
SYMX_ENTRY(u10_dot) {
  bool xs = sym_pick("xsrc", 0, 1), zs = sym_pick("zsink", 0, 1); Node x(xs ? 0 : 2, 2, 0), y(sym_pick("ysrc", 0, 1) ? 0 : 2, 2, 1); OtherNode z(2, zs ? 0 : 2); Node *n[3] = {&x, &y, &z}; MapDot m; unsigned uo = 0, ui = 0, no[3], ni[3], nl = sym_pick("nl", 0, NL), prev = 0; bool in[3] = {0}, loop = false, multi = false; bool reach[3] = {0};
  for (unsigned j = 0; j < nl; j++) { unsigned o = sym_pick("o", prev, 5), i = sym_pick("i", 0, 5); prev = o; if (uo >> o & 1 || ui >> i & 1 || o % 2 >= n[o / 2]->no || i % 2 >= n[i / 2]->ni) symx_end(); uo |= 1u << o; ui |= 1u << i; no[j] = o; ni[j] = i; in[o / 2] = in[i / 2] = true; loop = loop || o / 2 == i / 2; for (unsigned q = 0; q < j; q++) if (no[q] / 2 == o / 2 && ni[q] / 2 == i / 2) multi = true; m.link(n[o / 2], pname("o", o % 2), n[i / 2], pname("i", i % 2)); }
  auto src = m.src(); for (auto *k : src) for (unsigned i = 0; i < 3; i++) if (n[i] == k) reach[i] = true; for (unsigned r = 0; r < 3; r++) for (unsigned j = 0; j < nl; j++) if (reach[no[j] / 2]) reach[ni[j] / 2] = true;
  for (unsigned turn = 0; turn < 2; turn++) { SB b; std::ostream os(&b); raft::make_dot::run(os, m); const std::string &s = b.s; CHECK(begins(s, "digraph G{\n"), "a digraph"); CHECK(s.size() > 2 && s[s.size() - 1] == '\n' && s[s.size() - 2] == '}', "closed"); CHECK(count(s, "digraph") == 1, "one graph");
    unsigned k = 0; for (unsigned i = 0; i < 3; i++) { std::string id = num(n[i]->get_id()); k += in[i]; CHECK(count(s, "\t" + id + "[label=\"") == in[i], "one vertex per kernel of the graph"); if (in[i]) { std::size_t p = s.find("\t" + id + "[label=\""), q = s.find('\n', p); std::string l = s.substr(p, q - p); CHECK(count(l, "Node") == 1 && count(l, "OtherNode") == (i == 2), "with the kernel's class as label"); } } CHECK(count(s, "shape=\"ellipse\"") == k, "no other vertices");
    unsigned e = 0; for (unsigned j = 0; j < nl; j++) { bool r = reach[no[j] / 2]; e += r; CHECK(edges(s, num(n[no[j] / 2]->get_id()), num(n[ni[j] / 2]->get_id()), pname("o", no[j] % 2) + " to " + pname("i", ni[j] % 2) + " (") == r, "one edge per link reachable from a source, from and to the right kernels and ports"); } CHECK(count(s, " -> ") == e, "no other edges"); }
  for (unsigned j = 0; j < nl; j++) symx_reach(reach[no[j] / 2] ? "edge" : "unreached"); if (!nl) symx_reach("none"); if (loop) symx_reach("loop"); if (multi) symx_reach("multi"); symx_reach("done");
}
static int part;
struct Dot : public raft::make_dot { Dot(raft::map &m) : make_dot(m) {} void generate_preamble(std::ostream &o) override { if (part == 0) o << "P"; else make_dot::generate_preamble(o); } void generate_vertex_list(std::ostream &o) override { if (part == 1) o << "V"; else make_dot::generate_vertex_list(o); } void generate_edge_list(std::ostream &o) override { if (part == 2) o << "E"; else make_dot::generate_edge_list(o); } void generate_close(std::ostream &o) override { if (part == 3) o << "C"; else make_dot::generate_close(o); } };
SYMX_ENTRY(u10_sub) {
  Node a(0, 1, 0), b(1, 0, 1); raft::map m; m += a >> b; part = sym_pick("part", 0, 3); SB s; std::ostream os(&s); raft::make_dot::run<Dot>(os, m); CHECK(count(s.s, "digraph") == (part != 0), "preamble"); CHECK(count(s.s, "ellipse") == (part == 1 ? 0 : 2), "vertices"); CHECK(count(s.s, " -> ") == (part != 2), "edges"); CHECK(count(s.s, "}") == (part != 3), "close"); symx_reach("done");
}
