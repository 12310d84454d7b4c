// Q09: scoped accessors
//@ flags quick="-DNS=5" thorough="-DNS=8"
//@ entry q09_u64 prop=Q09 reach=thrown,moved,done bound="capacity 2, NS steps, every accessor; scope left normally, by exception, after copying/moving the accessor"
//@ entry q09_small prop=Q09 reach=thrown,moved,done bound="as q09_u64"
//@ entry q09_big prop=Q09 reach=thrown,moved,done bound="as q09_u64 without range peek"
#include "stream.h"
struct Boom {};
// how: 0 plain, 1 leave by exception, 2 through a copy, 3 through a copy and exception
template <class A> static void leave(unsigned how) { if (how & 1) { symx_reach("thrown"); throw Boom(); } }
template <class T> static void scopes(unsigned nsteps) {
  const unsigned cap = 2; Stream<T> s(cap); Ref q; FIFO *f = s.f;
  for (unsigned i = 0; i < nsteps; i++) {
    unsigned c = sym_pick("c", 0, ext_alloc<T>::value ? 1 : 2), how = sym_pick("how", 0, 3);
    if (how & 2) symx_reach("moved");
    if (c == 0) {
      if (q.size() == cap) symx_end(); u32 v = sym_u32("v"), sg = sym_u32("sig");
      try { auto a = allocS<T>(f, v); if constexpr (!std::is_class<T>::value) *a = Tr<T>::mk(v); CHECK(f->size() == q.size(), "not published inside the scope");
        if (how & 2) { bool before = sym_pick("before", 0, 1); if (before) a.sig() = (raft::signal)sg; auto b(a); CHECK(Tr<T>::get(*b) == Tr<T>::norm(v), "the copy refers to the same slot"); if (!before) b.sig() = (raft::signal)sg; leave<T>(how); } else { a.sig() = (raft::signal)sg; leave<T>(how); } } catch (Boom &) {}
      q.put(Tr<T>::norm(v), sg);
    } else if (c == 1) {
      if (q.size() == 0) symx_end();
      try { auto a = f->template pop_s<T>(); CHECK(Tr<T>::get(*a) == q.val[q.h], "value"); CHECK((u32)a.sig() == q.sig[q.h], "signal"); CHECK(f->size() == q.size(), "not removed inside the scope");
        if (how & 2) { auto b(a); CHECK(Tr<T>::get(*b) == q.val[q.h], "value through the copy"); CHECK((u32)b.sig() == q.sig[q.h], "signal through the copy"); leave<T>(how); } else leave<T>(how); } catch (Boom &) {}
      q.h++; s.gcr();
    } else if constexpr (!ext_alloc<T>::value) {
      if (q.size() == 0) symx_end(); unsigned n = sym_pick("n", 1, q.size());
      try { auto a = f->template peek_range<T>(n);
        if (how & 2) { auto b(a); CHECK(b.size() == n, "size through the copy"); for (unsigned k = 0; k < n; k++) CHECK(Tr<T>::get(b[k].ele) == q.val[q.h + k], "peeked through the copy"); leave<T>(how); }
        else { CHECK(a.size() == n, "size"); for (unsigned k = 0; k < n; k++) CHECK(Tr<T>::get(a[k].ele) == q.val[q.h + k], "peeked");
          bool oob = false; try { a[n]; } catch (std::length_error &) { oob = true; } CHECK(oob, "an index beyond the range is refused"); leave<T>(how); } } catch (Boom &) {}
    }
    occupancy(f, q, cap);
  }
  chkSig = true; while (q.size()) { readN<T>(f, q, R_POP, 1); s.gcr(); } CHECK(f->size() == 0, "drained");
  volatile bool ex = true; f->resize(4, 16, ex); symx_reach("done");
}
SYMX_ENTRY(q09_u64) { scopes<u64>(NS - 1); }
SYMX_ENTRY(q09_small) { scopes<Small>(NS - 1); }
SYMX_ENTRY(q09_big) { scopes<Big>(NS - 1); }
