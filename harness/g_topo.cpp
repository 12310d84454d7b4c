// G04: stream expressions build the described topology; G08: kernel identity and ownership
//@ flags quick="-DWID=3" thorough="-DWID=4"
//@ entry g04_chain prop=G04 reach=done bound="chains of 2..5 kernels"
//@ entry g04_split prop=G04 reach=done bound="fan-out of 1..WID (3/4) followed by a chain of 1..3 kernels per branch"
//@ entry g04_join prop=G04 reach=done bound="chain of 1..3 kernels, fan-in of 1..WID, followed by 0..2 kernels"
//@ entry g04_sj prop=G04 reach=done bound="fan-out of 1..WID, branches of 1..3 kernels, fan-in, followed by 0..2 kernels"
//@ entry g04_nest prop=G04 reach=done bound="fan-out of 1..WID whose branches fan out again (1..WID), optionally fan-in once or twice and a chain"
//@ entry g04_names prop=G04 reach=done bound="three kernels with two ports each side, named in brackets in every combination, chain and chain behind a fan-out"
//@ entry g04_names_sj prop=G04 reach=done bound="kernels with two ports each side named in brackets inside a fan-out, a fan-in or both, width 1..2, branches of 1..2 named kernels, followed by 0..2 kernels"
//@ entry g04_made prop=G04 reach=done bound="kernels made in the expression: every operator form that takes one (chain, out of order, fan-out, fan-in, alone or with a chain), width 1..WID"
//@ entry g04_order prop=G04 reach=done bound="chain of 3..4 kernels, each link in order or out of order"
//@ entry g04_errors prop=G04 reach=done bound="a join closed twice / names given three times"
//@ entry g08_owner prop=G08 reach=done bound="the topologies of g04_split, g04_join, g04_sj, g04_nest with user kernels and kernels made by the library"
//@ entry g08_wrap prop=G08 reach=done bound="made kernels put into a map, dropped, or refused"
//@ entry g08_ids prop=G08 reach=done bound="up to 6 kernels created and destroyed in any order, the 2 constructors and copies"
#include "graph.h"
struct MA : public raft::map { std::set<raft::kernel *> &src() { auto &c = source_kernels.acquire(); source_kernels.release(); return c; } std::set<raft::kernel *> &dst() { auto &c = dst_kernels.acquire(); dst_kernels.release(); return c; } std::set<raft::kernel *> &all() { auto &c = all_kernels.acquire(); all_kernels.release(); return c; } };
static Node *N(raft::kernel *k) { return static_cast<Node *>(k); }
// the kernel and input the given output leads to (checking that both ends agree)
static Node *to(Node *k, unsigned o, unsigned in, unsigned tag, const char *what) {
  PortInfo &pi = PortAcc::infoFor(k->output, pname("o", o)); CHECK(pi.other_kernel != nullptr, what); Node *d = N(pi.other_kernel); CHECK(d->tag == tag, what); CHECK(pi.other_name == pname("i", in), what);
  PortInfo &pj = PortAcc::infoFor(d->input, pname("i", in)); CHECK(pj.other_kernel == k, "both ends agree"); CHECK(pj.other_name == pname("o", o), "both ends agree"); return d; }
static unsigned idx(kernel_pair_t::endpoint_ret_type r, Node *k) { unsigned c = 0; for (auto it = r.first; it != r.second; ++it) c += &(*it).get() == k; return c; }
struct Set { Node *v[48]; unsigned n = 0; void add(Node *k) { for (unsigned i = 0; i < n; i++) if (v[i] == k) return; v[n++] = k; } bool has(Node *k) { for (unsigned i = 0; i < n; i++) if (v[i] == k) return true; return false; } };
struct Topo {
  MA *m; kernel_pair_t kp; Set s, d, all; long made;
  void check(long users) {
    CHECK(kp.getSrcSize() == s.n, "number of returned sources"); CHECK(kp.getDstSize() == d.n, "number of returned destinations");
    for (unsigned i = 0; i < s.n; i++) CHECK(idx(kp.getSrc(), s.v[i]) == 1, "the start kernels are returned as sources");
    for (unsigned i = 0; i < d.n; i++) CHECK(idx(kp.getDst(), d.v[i]) == 1, "the end kernels are returned as destinations");
    CHECK(m->all().size() == all.n, "the graph has exactly the described kernels"); unsigned ns = 0, nd = 0;
    for (unsigned i = 0; i < all.n; i++) { CHECK(m->all().count(all.v[i]) == 1, "kernel is part of the graph"); bool is = all.v[i]->ni == 0, id = all.v[i]->no == 0; ns += is; nd += id; CHECK(m->src().count(all.v[i]) == is, "recorded as source"); CHECK(m->dst().count(all.v[i]) == id, "recorded as destination"); }
    CHECK(m->src().size() == ns && m->dst().size() == nd, "no other sources or destinations"); CHECK(made == (long)all.n - users, "exactly the needed copies are made");
  }
};
#define SINK(last) ((last) ? 0 : 1)
SYMX_ENTRY(g04_chain) {
  unsigned len = sym_pick("len", 2, 5); Node *k[5]; for (unsigned i = 0; i < len; i++) k[i] = new Node(i > 0, i + 1 < len, i);
  { MA m; long b = Node::ctor; Topo t; t.m = &m; switch (len) { case 2: t.kp = (m += *k[0] >> *k[1]); break; case 3: t.kp = (m += *k[0] >> *k[1] >> *k[2]); break; case 4: t.kp = (m += *k[0] >> *k[1] >> *k[2] >> *k[3]); break; default: t.kp = (m += *k[0] >> *k[1] >> *k[2] >> *k[3] >> *k[4]); }
    t.made = Node::ctor - b; t.s.add(k[0]); t.d.add(k[len - 1]); for (unsigned i = 0; i < len; i++) t.all.add(k[i]); for (unsigned i = 0; i + 1 < len; i++) CHECK(to(k[i], 0, 0, i + 1, "chain link") == k[i + 1], "chain link"); t.check(len); }
  for (unsigned i = 0; i < len; i++) delete k[i]; symx_reach("done");
}
// one branch: from output o of k through kernels tag, tag+1, .. (len of them); returns the last
static Node *branch(Topo &t, Node *k, unsigned o, unsigned tag, unsigned len) { for (unsigned i = 0; i < len; i++) { k = to(k, i ? 0 : o, 0, tag + i, "branch link"); t.all.add(k); } return k; }
struct Fix { Node *k[8]; unsigned n = 0; Node *mk(unsigned i, unsigned o) { return k[n] = new Node(i, o, n), k[n++]; } void end() { for (unsigned i = 0; i < n; i++) delete k[i]; } };
static void split(bool own) {
  unsigned w = sym_pick("w", 1, WID), len = sym_pick("len", 1, 3); Fix f; Node *a = f.mk(0, w); for (unsigned i = 0; i < len; i++) f.mk(1, i + 1 < len);
  { MA m; Topo t; t.m = &m; long b = Node::ctor, dd = Node::dtor; switch (len) { case 1: t.kp = (m += *a <= *f.k[1]); break; case 2: t.kp = (m += *a <= *f.k[1] >> *f.k[2]); break; default: t.kp = (m += *a <= *f.k[1] >> *f.k[2] >> *f.k[3]); }
    t.made = Node::ctor - b; CHECK(Node::dtor == dd, "building the graph destroys no kernel"); t.s.add(a); t.all.add(a); for (unsigned o = 0; o < w; o++) t.d.add(branch(t, a, o, 1, len)); for (unsigned i = 0; i < f.n; i++) CHECK(t.all.has(f.k[i]), "the given kernels are used"); CHECK(t.all.n == 1 + w * len, "each branch has kernels of its own"); if (!own) t.check(f.n); }
  if (own) CHECK(Node::dtor == (long)(w - 1) * len, "the graph destroys exactly the copies, once"); f.end();
}
static void join(bool own) {
  unsigned w = sym_pick("w", 1, WID), len = sym_pick("len", 1, 3), tail = sym_pick("tail", 0, 2); Fix f; for (unsigned i = 0; i < len; i++) f.mk(i > 0, 1); Node *j = f.mk(w, tail > 0); for (unsigned i = 0; i < tail; i++) f.mk(1, i + 1 < tail); Node **k = f.k, **e = f.k + len + 1;
  { MA m; Topo t; t.m = &m; long b = Node::ctor, dd = Node::dtor;
    switch (len * 3 + tail) { case 3: t.kp = (m += *k[0] >= *j); break; case 4: t.kp = (m += *k[0] >= *j >> *e[0]); break; case 5: t.kp = (m += *k[0] >= *j >> *e[0] >> *e[1]); break;
      case 6: t.kp = (m += *k[0] >> *k[1] >= *j); break; case 7: t.kp = (m += *k[0] >> *k[1] >= *j >> *e[0]); break; case 8: t.kp = (m += *k[0] >> *k[1] >= *j >> *e[0] >> *e[1]); break;
      case 9: t.kp = (m += *k[0] >> *k[1] >> *k[2] >= *j); break; case 10: t.kp = (m += *k[0] >> *k[1] >> *k[2] >= *j >> *e[0]); break; default: t.kp = (m += *k[0] >> *k[1] >> *k[2] >= *j >> *e[0] >> *e[1]); }
    t.made = Node::ctor - b; CHECK(Node::dtor == dd, "building the graph destroys no kernel");
    for (unsigned i = 0; i < w; i++) { PortInfo &pi = PortAcc::infoFor(j->input, pname("i", i)); CHECK(pi.other_kernel != nullptr, "every input of the joining kernel is fed"); Node *x = N(pi.other_kernel); CHECK(x->tag == len - 1, "fed by the end of the chain"); to(x, 0, i, len, "join link");
      for (unsigned q = len; q-- > 0;) { t.all.add(x); if (!q) break; PortInfo &pj = PortAcc::infoFor(x->input, "i0"); CHECK(pj.other_kernel != nullptr, "the chain in front of the join is complete"); Node *y = N(pj.other_kernel); CHECK(y->tag == q - 1, "chain order"); to(y, 0, 0, q, "chain link"); x = y; } t.s.add(x); }
    t.all.add(j); t.d.add(tail ? branch(t, j, 0, len + 1, tail) : j); for (unsigned i = 0; i < f.n; i++) CHECK(t.all.has(f.k[i]), "the given kernels are used"); CHECK(t.all.n == w * len + 1 + tail, "each input has a chain of its own"); if (!own) t.check(f.n); }
  if (own) CHECK(Node::dtor == (long)(w - 1) * len, "the graph destroys exactly the copies, once"); f.end();
}
static void sj(bool own) {
  unsigned w = sym_pick("w", 1, WID), len = sym_pick("len", 1, 3), tail = sym_pick("tail", 0, 2); Fix f; Node *a = f.mk(0, w); for (unsigned i = 0; i < len; i++) f.mk(1, 1); Node *j = f.mk(w, tail > 0); for (unsigned i = 0; i < tail; i++) f.mk(1, i + 1 < tail); Node **k = f.k + 1, **e = f.k + len + 2;
  { MA m; Topo t; t.m = &m; long b = Node::ctor, dd = Node::dtor;
    switch (len * 3 + tail) { case 3: t.kp = (m += *a <= *k[0] >= *j); break; case 4: t.kp = (m += *a <= *k[0] >= *j >> *e[0]); break; case 5: t.kp = (m += *a <= *k[0] >= *j >> *e[0] >> *e[1]); break;
      case 6: t.kp = (m += *a <= *k[0] >> *k[1] >= *j); break; case 7: t.kp = (m += *a <= *k[0] >> *k[1] >= *j >> *e[0]); break; case 8: t.kp = (m += *a <= *k[0] >> *k[1] >= *j >> *e[0] >> *e[1]); break;
      case 9: t.kp = (m += *a <= *k[0] >> *k[1] >> *k[2] >= *j); break; case 10: t.kp = (m += *a <= *k[0] >> *k[1] >> *k[2] >= *j >> *e[0]); break; default: t.kp = (m += *a <= *k[0] >> *k[1] >> *k[2] >= *j >> *e[0] >> *e[1]); }
    t.made = Node::ctor - b; CHECK(Node::dtor == dd, "building the graph destroys no kernel"); t.s.add(a); t.all.add(a);
    unsigned in = 0; for (unsigned o = 0; o < w; o++) { Node *x = branch(t, a, o, 1, len); bool hit = false; for (unsigned i = 0; i < w; i++) if (PortAcc::infoFor(j->input, pname("i", i)).other_kernel == x) { hit = true; in |= 1u << i; CHECK(to(x, 0, i, len + 1, "branch ends in the join") == j, "branch ends in the join"); } CHECK(hit, "branch ends in the join"); }
    CHECK(in == (1u << w) - 1, "every input of the join is fed"); t.all.add(j); t.d.add(tail ? branch(t, j, 0, len + 2, tail) : j); for (unsigned i = 0; i < f.n; i++) CHECK(t.all.has(f.k[i]), "the given kernels are used"); CHECK(t.all.n == 2 + w * len + tail, "each branch has kernels of its own"); if (!own) t.check(f.n); }
  if (own) CHECK(Node::dtor == (long)(w - 1) * len, "the graph destroys exactly the copies, once"); f.end();
}
// a <= ( b <= c ) [ >= d [ >= e [ >> p ] ] ]
static void nest(bool own) {
  unsigned w = sym_pick("w", 1, WID), v = sym_pick("v", 1, WID), lv = sym_pick("level", 0, 3); Fix f; Node *a = f.mk(0, w), *b = f.mk(1, v), *c = f.mk(1, lv > 0), *d = lv > 0 ? f.mk(v, lv > 1) : nullptr, *e = lv > 1 ? f.mk(w, lv > 2) : nullptr, *p = lv > 2 ? f.mk(1, 0) : nullptr; long copies;
  { MA m; Topo t; t.m = &m; long b0 = Node::ctor; switch (lv) { case 0: t.kp = (m += *a <= (*b <= *c)); break; case 1: t.kp = (m += *a <= (*b <= *c) >= *d); break; case 2: t.kp = (m += *a <= (*b <= *c) >= *d >= *e); break; default: t.kp = (m += *a <= (*b <= *c) >= *d >= *e >> *p); }
    t.made = Node::ctor - b0; t.s.add(a); t.all.add(a); unsigned in = 0;
    for (unsigned o = 0; o < w; o++) { Node *x = to(a, o, 0, 1, "outer fan-out"); t.all.add(x); Node *jj = nullptr; unsigned inn = 0;
      for (unsigned q = 0; q < v; q++) { Node *y = to(x, q, 0, 2, "inner fan-out"); t.all.add(y); if (lv == 0) { t.d.add(y); continue; }
        PortInfo &pi = PortAcc::infoFor(y->output, "o0"); CHECK(pi.other_kernel != nullptr, "inner branch is joined"); Node *z = N(pi.other_kernel); CHECK(z->tag == 3, "inner branch is joined"); if (jj) CHECK(z == jj, "branches of one split meet in one kernel"); jj = z; t.all.add(z); for (unsigned i = 0; i < v; i++) if (PortAcc::infoFor(z->input, pname("i", i)).other_kernel == y) inn |= 1u << i; }
      if (lv == 0) continue; CHECK(inn == (1u << v) - 1, "every input of the inner join is fed"); if (lv == 1) { t.d.add(jj); continue; }
      bool hit = false; for (unsigned i = 0; i < w; i++) if (PortAcc::infoFor(e->input, pname("i", i)).other_kernel == jj) { hit = true; in |= 1u << i; } CHECK(hit, "inner join feeds the outer join"); }
    if (lv > 1) { CHECK(in == (1u << w) - 1, "every input of the outer join is fed"); t.all.add(e); t.d.add(lv > 2 ? branch(t, e, 0, 5, 1) : e); }
    unsigned exp = 1 + w + w * v + (lv > 0 ? w : 0) + (lv > 1) + (lv > 2); CHECK(t.all.n == exp, "each branch has kernels of its own"); copies = (long)exp - f.n; for (unsigned i = 0; i < f.n; i++) CHECK(t.all.has(f.k[i]), "the given kernels are used"); if (!own) t.check(f.n); }
  (void)p; if (own) CHECK(Node::dtor == copies, "the graph destroys exactly the copies, once"); f.end();
}
SYMX_ENTRY(g04_split) { split(false); symx_reach("done"); }
SYMX_ENTRY(g04_join) { join(false); symx_reach("done"); }
SYMX_ENTRY(g04_sj) { sj(false); symx_reach("done"); }
SYMX_ENTRY(g04_nest) { nest(false); symx_reach("done"); }
SYMX_ENTRY(g08_owner) { Node::ctor = Node::dtor = 0; switch (sym_pick("shape", 0, 3)) { case 0: split(true); break; case 1: join(true); break; case 2: sj(true); break; default: nest(true); } CHECK(Node::ctor == Node::dtor, "every kernel is destroyed exactly once"); symx_reach("done"); }
static void madeSplit(Topo &t, unsigned w, unsigned len, unsigned users) { CHECK(t.kp.getSrcSize() == 1, "one source"); Node *a = N(&(*t.kp.getSrc().first).get()); CHECK(a->tag == 0, "the first kernel is the source"); t.s.add(a); t.all.add(a); for (unsigned o = 0; o < w; o++) t.d.add(branch(t, a, o, 1, len)); CHECK(t.all.n == 1 + w * len, "each branch has kernels of its own"); t.check(users); }
static void madeJoin(Topo &t, unsigned w, unsigned len, unsigned tail, unsigned users) {
  Node *j = nullptr; CHECK(t.kp.getSrcSize() == w, "as many sources as inputs"); auto r = t.kp.getSrc(); unsigned in = 0; for (auto it = r.first; it != r.second; ++it) { Node *x = N(&(*it).get()); CHECK(x->tag == 0, "the chain begins with the first kernel"); t.s.add(x); t.all.add(x); x = branch(t, x, 0, 1, len - 1); PortInfo &pi = PortAcc::infoFor(x->output, "o0"); CHECK(pi.other_kernel != nullptr, "joined"); Node *z = N(pi.other_kernel); CHECK(z->tag == len && (!j || j == z), "in one kernel"); j = z; bool hit = false; for (unsigned i = 0; i < w; i++) if (PortAcc::infoFor(j->input, pname("i", i)).other_kernel == x) { in |= 1u << i; hit = true; } CHECK(hit, "both ends agree"); }
  CHECK(in == (1u << w) - 1, "every input is fed"); t.all.add(j); t.d.add(tail ? branch(t, j, 0, len + 1, tail) : j); CHECK(t.all.n == w * len + 1 + tail, "each input has a chain of its own"); t.check(users); }
SYMX_ENTRY(g04_made) {
  unsigned form = sym_pick("form", 0, 7), w = form < 2 ? 1 : sym_pick("w", 1, WID); Fix f; auto mk = [](unsigned i, unsigned o, unsigned t) { return raft::kernel::make<Node>(std::move(i), std::move(o), std::move(t)); }; MA m; Topo t; t.m = &m; namespace order = raft::order; Node::ctor = 0;
  auto user = [&](unsigned i, unsigned o, unsigned tag) -> Node & { Node *k = f.mk(i, o); k->tag = tag; return *k; }; long b = 0;
  switch (form) {
    case 0: { Node &a = user(0, 1, 0); t.kp = (m += a >> order::out >> mk(1, 0, 1)); t.made = Node::ctor - b - f.n; madeSplit(t, 1, 1, f.n); CHECK(PortAcc::infoFor(a.output, "o0").out_of_order, "order asked for"); break; }
    case 1: { Node &a = user(0, 1, 0), &c = user(1, 1, 1); t.kp = (m += a >> c >> order::out >> mk(1, 0, 2)); t.made = Node::ctor - b - f.n; madeSplit(t, 1, 2, f.n); CHECK(PortAcc::infoFor(c.output, "o0").out_of_order && !PortAcc::infoFor(a.output, "o0").out_of_order, "order asked for"); break; }
    case 2: t.kp = (m += mk(0, w, 0) <= mk(1, 0, 1)); t.made = Node::ctor; madeSplit(t, w, 1, 0); break;
    case 3: { Node &c = user(1, 1, 1), &d = user(1, 0, 2); t.kp = (m += mk(0, w, 0) <= c >> d); t.made = Node::ctor - f.n; madeSplit(t, w, 2, f.n); break; }
    case 4: { Node &a = user(0, w, 0); t.kp = (m += a <= (mk(1, 1, 1) >> mk(1, 0, 2))); t.made = Node::ctor - f.n; madeSplit(t, w, 2, f.n); break; }
    case 5: t.kp = (m += mk(0, 1, 0) >= mk(w, 0, 1)); t.made = Node::ctor; madeJoin(t, w, 1, 0, 0); break;
    case 6: { Node &a = user(0, 1, 0), &c = user(1, 1, 1); t.kp = (m += a >> c >= mk(w, 0, 2)); t.made = Node::ctor - f.n; madeJoin(t, w, 2, 0, f.n); break; }
    default: { Node &j = user(w, 1, 1), &e = user(1, 0, 2); t.kp = (m += mk(0, 1, 0) >= j >> e); t.made = Node::ctor - f.n; madeJoin(t, w, 1, 1, f.n); }
  }
  CHECK(Node::dtor == 0, "building the graph destroys no kernel"); symx_reach("done");
}
SYMX_ENTRY(g04_names) {
  unsigned x = sym_pick("x", 0, 1), y = sym_pick("y", 0, 1), z = sym_pick("z", 0, 1), u = sym_pick("u", 0, 1), form = sym_pick("form", 0, 2); Node a(0, form == 2 ? 1 : 2, 0), b(2, 2, 1), c(2, 0, 2); { MA m;
  if (form == 0) m += a[pname("o", x)] >> b[pname("i", y)][pname("o", z)] >> c[pname("i", u)];
  else if (form == 1) { m += a[pname("o", x)] >> b[pname("i", y)]; m += b[pname("o", z)] >> c[pname("i", u)]; }
  else { x = 0; m += a <= b[pname("i", y)][pname("o", z)] >> c[pname("i", u)]; }
  CHECK(to(&a, x, y, 1, "named ports") == &b, "named ports"); CHECK(to(&b, z, u, 2, "named ports") == &c, "named ports");
  if (form != 2) CHECK(PortAcc::infoFor(a.output, pname("o", 1 - x)).other_kernel == nullptr, "other ports stay unconnected"); CHECK(PortAcc::infoFor(b.input, pname("i", 1 - y)).other_kernel == nullptr && PortAcc::infoFor(b.output, pname("o", 1 - z)).other_kernel == nullptr && PortAcc::infoFor(c.input, pname("i", 1 - u)).other_kernel == nullptr, "other ports stay unconnected"); }
  symx_reach("done");
}
// b (and c) with two ports each side, of which only the named ones are linked, in branches between a fan-out and / or a fan-in
static void only(Node *k, unsigned in, unsigned out, bool o) { CHECK(PortAcc::infoFor(k->input, pname("i", 1 - in)).other_kernel == nullptr && (!o || PortAcc::infoFor(k->output, pname("o", 1 - out)).other_kernel == nullptr), "other ports stay unconnected"); }
SYMX_ENTRY(g04_names_sj) {
  unsigned form = sym_pick("form", 0, 7), w = sym_pick("w", 1, 2), y = sym_pick("y", 0, 1), z = sym_pick("z", 0, 1), u = sym_pick("u", 0, 1), t = sym_pick("t", 0, 1), v = sym_pick("v", 0, 1); bool joined = form >= 2, dup = form >= 6; MA m;
  Node a(0, dup ? 2 : w, 0), b(2, 2, 1), c(2, 2, 2), d(2, 0, 3), j(w, 2, 4), e(2, 0, 5); unsigned len = form == 0 || form == 2 || form == 3 || form == 6 ? 1 : 2; bool tail = form == 3 || form == 5 || form >= 6; auto I = [](unsigned i) { return pname("i", i); }; auto O = [](unsigned i) { return pname("o", i); };
  switch (form) {
    case 0: m += a <= b[I(y)][O(z)] >> d[I(v)]; break;
    case 1: m += a <= b[I(y)][O(z)] >> c[I(u)][O(t)] >> d[I(v)]; break;
    case 2: m += a <= b[I(y)][O(z)] >= j; break;
    case 3: m += a <= b[I(y)][O(z)] >= j[O(t)] >> e[I(v)]; break;
    case 4: m += a <= b[I(y)][O(z)] >> c[I(u)][O(t)] >= j; break;
    case 5: m += a <= b[I(y)][O(z)] >> c[I(u)][O(t)] >= j[O(v)] >> e[I(v)]; break;
    case 6: m += a[O(u)] >> b[I(y)][O(z)] >= j[O(t)] >> e[I(v)]; break;
    default: m += a[O(u)] >> b[I(y)][O(z)] >> c[I(u)][O(t)] >= j[O(t)] >> e[I(v)]; }
  unsigned o4 = form == 5 ? v : t; unsigned fed = 0;
  auto chainFrom = [&](Node *x, unsigned o, unsigned br) { Node *q = to(x, o, y, 1, "named ports"); CHECK(br || q == &b, "the given kernels are used"); only(q, y, z, true); unsigned out = z; if (len == 2) { q = to(q, out, u, 2, "named ports"); CHECK(br || q == &c, "the given kernels are used"); only(q, u, t, true); out = t; }
    if (!joined) { Node *k = to(q, out, v, 3, "named ports"); CHECK(br || k == &d, "the given kernels are used"); only(k, v, 0, false); return; }
    bool hit = false; for (unsigned i = 0; i < w; i++) if (PortAcc::infoFor(j.input, I(i)).other_kernel == q) { CHECK(to(q, out, i, 4, "joined by the named output") == &j, "joined by the named output"); CHECK(!(fed >> i & 1), "one branch per input"); fed |= 1u << i; hit = true; } CHECK(hit, "joined"); };
  if (!dup) for (unsigned o = 0; o < w; o++) chainFrom(&a, o, o);
  else for (unsigned i = 0; i < w; i++) { Node *q = N(PortAcc::infoFor(j.input, I(i)).other_kernel); CHECK(q != nullptr, "every input is fed"); for (unsigned k = len; k > 0; k--) { Node *up = N(PortAcc::infoFor(q->input, I(k == 2 ? u : y)).other_kernel); CHECK(up != nullptr, "named ports"); q = up; } CHECK(i || q == &a, "the given kernels are used"); CHECK(q->tag == 0 && PortAcc::infoFor(q->output, O(1 - u)).other_kernel == nullptr, "starts at the first kernel"); chainFrom(q, u, i); }
  if (joined) CHECK(fed == (1u << w) - 1, "every input is fed"); if (tail) { Node *k = to(&j, o4, v, 5, "named ports"); CHECK(k == &e, "the given kernels are used"); only(k, v, 0, false); CHECK(PortAcc::infoFor(j.output, O(1 - o4)).other_kernel == nullptr, "other ports stay unconnected"); }
  CHECK(m.all().size() == (dup ? w * (len + 1) : 1 + w * len) + (joined ? 1 : w) + tail, "exactly the needed copies are made"); symx_reach("done");
}
SYMX_ENTRY(g04_order) {
  unsigned len = sym_pick("len", 3, 4), o = sym_pick("o", 0, 7); if (len == 3 && o > 3) symx_end(); Node a(0, 1, 0), b(1, 1, 1), c(1, len > 3, 2), d(1, 0, 3); Node *k[4] = {&a, &b, &c, &d}; MA m; namespace order = raft::order;
  kpair *p = (o & 1) ? &(a >> order::out >> b) : &(a >> b); p = (o & 2) ? &(*p >> order::out >> c) : &(*p >> c); if (len > 3) p = (o & 4) ? &(*p >> order::out >> d) : &(*p >> d);
  m += *p; for (unsigned i = 0; i + 1 < len; i++) { CHECK(to(k[i], 0, 0, i + 1, "chain link") == k[i + 1], "chain link"); CHECK(PortAcc::infoFor(k[i]->output, "o0").out_of_order == (o >> i & 1), "order asked for"); CHECK(PortAcc::infoFor(k[i + 1]->input, "i0").out_of_order == (o >> i & 1), "order asked for"); }
  symx_reach("done");
}
SYMX_ENTRY(g04_errors) {
  Node a(0, 2, 0), b(2, 2, 1); int r = 0; try { a["o0"]["o1"]["o0"]; } catch (AmbiguousPortAssignmentException &) { r = 1; } CHECK(r == 1, "more than two names are refused"); { Node c(1, 2, 2); std::string n0 = "o0", n1 = "o1"; r = 0; try { c[n0][n1]; } catch (AmbiguousPortAssignmentException &) { r = 2; } CHECK(r == 0, "two names are accepted"); try { c[n0]; } catch (AmbiguousPortAssignmentException &) { r = 1; } CHECK(r == 1, "more than two names are refused"); }
  // a link refused in the middle of an expression raises and connects nothing wrongly
  Node s(0, 1, 0), t(1, 0, 1), u(1, 1, 2); MA m; m += s >> t; r = 0; try { m += u >> t; } catch (PortDoubleInitializeException &) { r = 1; } CHECK(r == 1, "double link refused"); CHECK(PortAcc::infoFor(u.output, "o0").other_kernel == nullptr, "nothing linked"); CHECK(to(&s, 0, 0, 1, "kept") == &t, "existing link kept");
  // a plain link has to say which of several ports it means, whatever its order
  unsigned w = sym_pick("w", 1, 2), x = sym_pick("x", 1, 2), o = sym_pick("o", 0, 3); Node p(0, w, 0), q(x, 1, 1), z(1, 0, 2); MA m2; namespace order = raft::order; r = 0;
  try { switch (o) { case 0: m2 += p >> q; break; case 1: m2 += p >> order::out >> q; break; case 2: m2 += p >> q >> z; break; default: m2 += p >> order::out >> q >> z; } } catch (AmbiguousPortAssignmentException &) { r = 1; }
  CHECK(r == (w > 1 || x > 1), "refused exactly if ambiguous"); if (r) for (unsigned i = 0; i < w; i++) CHECK(PortAcc::infoFor(p.output, pname("o", i)).other_kernel == nullptr, "nothing linked"); else CHECK(to(&p, 0, 0, 1, "linked") == &q, "linked");
  symx_reach("done");
}
// ---- G08
SYMX_ENTRY(g08_wrap) {
  Node::ctor = Node::dtor = 0; unsigned how = sym_pick("how", 0, 5);
  { Node user(0, 1, 0), sink(1, 0, 1); long base = Node::ctor;
    { MA m; switch (how) {
      case 0: { auto w = raft::kernel::make<Node>(0u, 1u, 5u); CHECK(Node::ctor == base + 1, "made once"); break; }
      case 1: m += user >> raft::kernel::make<Node>(1u, 0u, 5u); CHECK(Node::dtor == 0, "a kernel in the graph lives as long as the graph"); break;
      case 2: m += raft::kernel::make<Node>(0u, 1u, 5u) >> raft::kernel::make<Node>(1u, 0u, 6u); CHECK(Node::dtor == 0, "a kernel in the graph lives as long as the graph"); break;
      case 3: m += user >> raft::kernel::make<Node>(1u, 1u, 5u) >> raft::kernel::make<Node>(1u, 0u, 6u); CHECK(Node::dtor == 0, "a kernel in the graph lives as long as the graph"); break;
      case 4: { auto w = raft::kernel::make<Node>(1u, 0u, 5u); auto w2(w); m += user >> std::move(w2); CHECK(Node::dtor == 0, "a kernel in the graph lives as long as the graph"); break; }
      case 5: { m += user >> sink; int r = 0; try { m += user >> raft::kernel::make<Node>(1u, 0u, 5u); } catch (PortDoubleInitializeException &) { r = 1; } CHECK(r == 1, "refused"); break; }
    } }
    CHECK(Node::dtor == Node::ctor - 2, "the library's kernels are destroyed with the graph, the user's are not"); }
  CHECK(Node::dtor == Node::ctor, "every kernel destroyed exactly once"); symx_reach("done");
}
struct MK : public raft::kernel { MK(void *p, size_t n) : raft::kernel(p, n) {} MK(const MK &) : raft::kernel() {} MK() : raft::kernel() {} raft::kstatus run() override { return raft::stop; } CLONE(); };
SYMX_ENTRY(g08_ids) {
  MK *k[6]; unsigned n = 0; char buf[8];
  for (unsigned i = 0; i < 6; i++) { unsigned c = sym_pick("c", 0, n ? 3 : 1); if (c == 0) k[n++] = new MK(); else if (c == 1) k[n++] = new MK(buf, 8); else if (c == 2) { k[n] = static_cast<MK *>(k[n - 1]->clone()); n++; } else { delete k[0]; for (unsigned j = 1; j < n; j++) k[j - 1] = k[j]; n--; }
    for (unsigned x = 0; x < n; x++) for (unsigned y = 0; y < x; y++) CHECK(k[x]->get_id() != k[y]->get_id(), "live kernels have distinct identities"); }
  while (n) delete k[--n]; symx_reach("done");
}
