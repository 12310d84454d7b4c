// U04: files in chunks, searching the chunks
//@ flags quick="-DLMAX=6" thorough="-DLMAX=9"
//@ entry u04_chunks prop=U04 reach=empty,one,several,overlap,ports,done bound="filereader over files of 0..LMAX (6/9) arbitrary bytes, chunks of 2, 4 and 7 characters, every overlap smaller than a chunk, 1 or 2 ports, streams of 1 or 3 chunks, readers of every speed"
//@ entry u04_big prop=U04 reach=several,overlap,done bound="as u04_chunks with chunk objects stored by reference"
//@ entry u04_search prop=U04 reach=none,hit,across,done bound="filereader >> search over texts of 0..LMAX arbitrary bytes, terms of 1..3 arbitrary bytes, overlap of the term length less one, chunks of 4 characters"
//@ entry u04_one prop=U04 reach=none,hit,several,done bound="search over a single chunk of 0..LMAX arbitrary bytes at an arbitrary start position, terms of 1..3 bytes, output of every capacity that holds the matches"
//@ entry u04_copy prop=U04 reach=done bound="copies and assignments of chunks of every length with arbitrary content, start and index; iteration over them"
//@ entry u04_exe prop=U04 conc reach=done quick="--preempt 0 --max-yields 3000" thorough="--preempt 1 --max-yields 3000 --time 1500 --max-paths 60000 --tso 1" bound="map::exe of filereader >> search >> collecting kernel, texts of 0..5 characters over {a,b}, term ab; at one preemption recent stores may stay invisible (x86 store buffer)"
//@ entry u04_repeat prop=U04 reach=none,hit,several,done bound="search over a single chunk of 4..LMAX bytes out of two values, terms of 4 such bytes (terms that overlap themselves)"
#include "graph.h"
#include <raftalgorithm>
#ifndef LMAX
#define LMAX 6
#endif
template <class T> struct Plug { FIFO *f; ptr_map_t rin, win; ptr_set_t rout, rpk, wout, wpk; Plug(size_t cap) { f = RingBuffer<T, Type::Heap, false>::make_new_fifo(cap, 64, nullptr); FifoAcc::map(f, &rin); FifoAcc::inPeek(f, &rpk); FifoAcc::out(f, &wout); FifoAcc::outPeek(f, &wpk); } ~Plug() { SchedAcc::gc(&rin, &rout, &rpk); delete f; } void gc() { SchedAcc::gc(&rin, &rout, &rpk); rin.clear(); rout.clear(); rpk.clear(); } };
template <class C> static void chunked() {
  const unsigned first = C::getChunkSize() - 1; char text[LMAX + 1]; unsigned len = sym_pick("len", 0, LMAX), off = sym_pick("off", 0, first - 1), np = sym_pick("np", 1, 2), cap = sym_pick("cap", 0, 1) ? 3 : 1, speed = sym_pick("speed", 1, 3);
  for (unsigned i = 0; i < len; i++) text[i] = (char)sym_u8("c"); const char *path = symx_file(text, len);
  raft::filereader<C> r(path, off, np); CHECK(r.output.count() == np && r.input.count() == 0, "as many outputs as requested"); Plug<C> *p[2]; for (unsigned i = 0; i < np; i++) { p[i] = new Plug<C>(cap); PortAcc::infoFor(r.output, pname("", i)).setFIFO(p[i]->f); }
  struct Got { unsigned start, len; unsigned long idx; raft::signal s; }; std::vector<Got> got; volatile bool fin = false; unsigned steps = 0, eofs = 0;
  auto take = [&](unsigned i) { if (!p[i]->f->size()) return; raft::signal s = raft::none; C &c = p[i]->f->template peek<C>(&s); Got g{(unsigned)c.start_position, (unsigned)c.length, c.index, s}; CHECK(c.start_position <= len && c.length <= first && g.start + g.len <= len, "a piece of the text"); for (unsigned j = 0; j < g.len; j++) CHECK(c[j] == text[g.start + j], "the text's characters at the chunk's position"); CHECK(c.buffer[g.len] == 0, "terminated"); if (s == raft::eof) eofs++; got.push_back(g); p[i]->f->unpeek(); p[i]->f->recycle(); p[i]->gc(); };
  while (!fin && ++steps < 60) { Schedule::kernelRun(&r, fin); if (steps % speed == 0) for (unsigned i = 0; i < np; i++) { take(i); if (steps % 2) take(i); } }
  CHECK((bool)fin, "the reader ends"); for (unsigned i = 0; i < np; i++) { CHECK(p[i]->f->is_invalid(), "outputs are closed"); while (p[i]->f->size()) take(i); }
  // put the chunks in file order: the index numbers them
  unsigned n = got.size(), end = 0; std::vector<Got> o(n, Got{~0u, 0, 0, raft::none}); for (auto &g : got) { CHECK(g.idx < n && o[g.idx].start == ~0u, "chunks are numbered one by one"); o[g.idx] = g; }
  for (unsigned i = 0; i < n; i++) { if (i == 0) CHECK(o[i].start == 0, "starts at the beginning"); else { CHECK(o[i].start + off == end, "each chunk repeats the stated overlap and skips nothing"); CHECK(o[i].start + o[i].len > end, "each chunk reaches further"); } end = o[i].start + o[i].len; CHECK(o[i].len == first || i + 1 == n, "only the last chunk is short"); }
  CHECK(end == len, "the whole text is covered"); if (n) CHECK(o[n - 1].s == raft::eof, "the last chunk carries the end signal"); if (np == 1 && n) { CHECK(eofs == 1 && o[n - 1].s == raft::eof, "the last chunk carries the end signal"); }
  for (unsigned i = 0; i < np; i++) delete p[i]; symx_reach(len == 0 ? "empty" : n == 1 ? "one" : "several"); if (off && n > 1) symx_reach("overlap"); if (np > 1) symx_reach("ports"); symx_reach("done");
}
SYMX_ENTRY(u04_chunks) { switch (sym_pick("size", 0, 2)) { case 0: chunked<raft::filechunk<3>>(); break; case 1: chunked<raft::filechunk<5>>(); break; default: chunked<raft::filechunk<8>>(); } }
// a chunk type of more than a cache line whose nominal size is small
struct Fat : public raft::filechunk<5> { char more[96]; };
SYMX_ENTRY(u04_big) { chunked<Fat>(); }
struct Seek { char text[LMAX + 1]; unsigned len; char term[4]; unsigned tl; std::string t; Seek(bool) { len = sym_pick("len", 4, LMAX); tl = 4; for (unsigned i = 0; i < len; i++) text[i] = (char)sym_range("c", 97, 98); for (unsigned i = 0; i < tl; i++) { term[i] = (char)sym_range("t", 97, 98); t.push_back(term[i]); } } Seek(unsigned tmax) { len = sym_pick("len", 0, LMAX); tl = sym_pick("tl", 1, tmax); for (unsigned i = 0; i < len; i++) text[i] = (char)sym_u8("c"); for (unsigned i = 0; i < tl; i++) { term[i] = (char)sym_u8("t"); t.push_back(term[i]); } } bool at(unsigned i) const { if (i + tl > len) return false; for (unsigned j = 0; j < tl; j++) if (text[i + j] != term[j]) return false; return true; } };
static void matches(const Seek &s, const std::vector<raft::match_t> &m, u64 base, bool twice = false) { unsigned k = 0; for (unsigned i = 0; i < s.len; i++) if (s.at(i)) { CHECK(k < m.size(), "every occurrence is found"); CHECK(m[k].first == base + i, "at its true position"); CHECK(m[k].second == base + i + s.tl, "with its true end"); k++; } CHECK(k == m.size(), "nothing else is reported"); symx_reach(k == 0 ? "none" : "hit"); if (k > 1) symx_reach("several"); }
SYMX_ENTRY(u04_search) {
  using C = raft::filechunk<5>; Seek s(3u); const char *path = symx_file(s.text, s.len); raft::filereader<C> r(path, s.tl - 1); raft::search<C, raft::stdlib> k(s.t); Plug<C> a(2); Plug<raft::match_t> b(16); PortAcc::infoFor(r.output, "0").setFIFO(a.f); PortAcc::infoFor(k.input, "0").setFIFO(a.f); PortAcc::infoFor(k.output, "0").setFIFO(b.f);
  volatile bool f1 = false, f2 = false; unsigned steps = 0; while (!f2 && ++steps < 60) { if (!f1) Schedule::kernelRun(&r, f1); Schedule::kernelRun(&k, f2); a.gc(); } CHECK((bool)f1 && (bool)f2, "both end"); std::vector<raft::match_t> m; while (b.f->size()) { raft::match_t x; b.f->pop(x); m.push_back(x); } matches(s, m, 0); for (auto &x : m) if (x.first < 4 && x.second > 4) symx_reach("across"); symx_reach("done");
}
static void oneChunk(Seek s) {
  using C = raft::filechunk<16>; u64 base = sym_range("base", 0, 1ull << 40); raft::search<C, raft::stdlib> k(s.t); Plug<C> a(2); Plug<raft::match_t> b(LMAX + 1); PortAcc::infoFor(k.input, "0").setFIFO(a.f); PortAcc::infoFor(k.output, "0").setFIFO(b.f);
  { C &c = a.f->allocate<C>(); for (unsigned i = 0; i < s.len; i++) c.buffer[i] = s.text[i]; c.buffer[s.len] = 0; c.length = s.len; c.start_position = base; c.index = 3; a.f->send(); }
  volatile bool fin = false; Schedule::kernelRun(&k, fin); CHECK(a.f->size() == 0, "the chunk is consumed"); std::vector<raft::match_t> m; while (b.f->size()) { raft::match_t x; b.f->pop(x); m.push_back(x); } matches(s, m, base); symx_reach("done");
}
SYMX_ENTRY(u04_one) { oneChunk(Seek(3u)); }
SYMX_ENTRY(u04_repeat) { oneChunk(Seek(true)); }
template <class C> static void sameChunk(C &c, const char *v, unsigned n, u64 st, u64 ix) { CHECK(c.length == n && c.start_position == st && c.index == ix, "length, position and index"); unsigned i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) { CHECK(i < n && *it == v[i], "iteration yields the characters in order"); CHECK(it.location() == st + i, "each with its position in the text"); CHECK(c[i] == v[i], "and by index"); } CHECK(i == n, "exactly the chunk's length"); CHECK(c.buffer[n] == 0, "terminated"); }
SYMX_ENTRY(u04_copy) {
  using C = raft::filechunk<8>; char v[8]; unsigned n = sym_pick("n", 0, 7); u64 st = sym_u64("st"), ix = sym_u64("ix"); C c; for (unsigned i = 0; i < n; i++) { v[i] = (char)sym_u8("c"); c.buffer[i] = v[i]; } c.buffer[n] = 0; c.length = n; c.start_position = st; c.index = ix; sameChunk(c, v, n, st, ix);
  C d(c); sameChunk(d, v, n, st, ix); C e; e.buffer[0] = 'x'; e.length = 1; e.index = 5; e = c; sameChunk(e, v, n, st, ix); sameChunk(c, v, n, st, ix);
  { Plug<C> p(2); p.f->push(c); C g; p.f->pop(g); sameChunk(g, v, n, st, ix); } { auto i = c.begin(), j = c.begin(); unsigned by = sym_pick("by", 0, n); i += by; for (unsigned k = 0; k < by; k++) ++j; CHECK(i == j && !(i != j), "advancing by n is advancing n times"); CHECK((by < n) == (i != c.end()), "the end"); if (by) { auto q = c.begin(); CHECK(q < i && q <= i, "order"); } if (by < n) CHECK(*i == v[by] && i[0] == v[by], "the character there"); } symx_reach("done");
}
struct Coll : public raft::kernel { std::vector<raft::match_t> m; Coll() { input.addPort<raft::match_t>("in"); } raft::kstatus run() override { raft::match_t x; input["in"].pop(x); m.push_back(x); return raft::proceed; } };
SYMX_ENTRY(u04_exe) {
  using C = raft::filechunk<4>; char text[5]; unsigned len = sym_pick("len", 0, 5); for (unsigned i = 0; i < len; i++) text[i] = sym_pick("c", 0, 1) ? 'a' : 'b'; const char *path = symx_file(text, len); Coll c; { raft::filereader<C> r(path, 1); raft::search<C, raft::stdlib> k("ab"); raft::map m; m += r >> k >> c; m.exe<partition_dummy, simple_schedule, stdalloc, no_parallel>(); }
  unsigned n = 0; for (unsigned i = 0; i + 1 < len; i++) if (text[i] == 'a' && text[i + 1] == 'b') { CHECK(n < c.m.size() && c.m[n].first == i && c.m[n].second == i + 2, "every occurrence at its position"); n++; } CHECK(n == c.m.size(), "nothing else"); symx_reach("done");
}
