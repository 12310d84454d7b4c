// Q13: streams over user memory, Q14: storage classes
//@ flags quick="-DLEN=5" thorough="-DLEN=9"
//@ entry q13_u64 prop=Q13 reach=drained bound="arrays of 1..LEN symbolic elements, each reading operation, symbolic start position"
//@ entry q13_u8 prop=Q13 reach=drained bound="as q13_u64"
//@ entry q13_small prop=Q13 reach=drained bound="as q13_u64"
//@ entry q14_class prop=Q14 reach=done bound="the element types listed in the harness"
//@ entry q14_slots prop=Q14 reach=done bound="slots of a stream of capacity 1..3 made as the allocator makes it, 12 element types"
#include "stream.h"
#include <raft>
#include <raftio>
template <class T> static void user() {
  unsigned len = sym_pick("len", 1, LEN); T *arr = (T *)malloc(sizeof(T) * len); Ref q; for (unsigned i = 0; i < len; i++) { u32 v = sym_u32("v"); new (&arr[i]) T(Tr<T>::mk(v)); q.put(Tr<T>::norm(v)); }
  u64 start = sym_u32("start"); Life::reset();
  { Stream<T> s(len, arr, start); occupancy(s.f, q, len); CHECK(!s.f->is_invalid(), "starts open");
    unsigned r = sym_pick("r", 0, 4), k = 0;
    while (q.size()) {
      switch (r) {
        case 0: { T x = Tr<T>::mk(0); raft::signal sg = raft::quit; s.f->pop(x, &sg); CHECK(Tr<T>::get(x) == q.val[k], "popped"); CHECK(sg == raft::none, "user memory carries no signals"); k++; break; }
        case 1: { T &x = s.f->template peek<T>(); CHECK(&x == arr + k, "in place"); CHECK(Tr<T>::get(x) == q.val[k], "peeked"); s.f->unpeek(); s.f->recycle(); k++; break; }
        case 2: { auto a = s.f->template pop_s<T>(); CHECK(&*a == arr + k, "in place"); CHECK(Tr<T>::get(*a) == q.val[k], "value"); k++; break; }
        case 3: { unsigned n = sym_pick("n", 1, len - k); { auto a = s.f->template peek_range<T>(n); CHECK(a.getindex() == start, "position of the partition"); for (unsigned i = 0; i < n; i++) { auto p = a[i]; CHECK(&p.ele == arr + k + i, "in place"); CHECK(Tr<T>::get(p.ele) == q.val[k + i], "value"); } } s.f->recycle(n); k += n; break; }
        case 4: { std::vector<std::pair<T, raft::signal>> v(len); s.f->pop_range(v, len); for (unsigned i = 0; i < len; i++) CHECK(Tr<T>::get(v[i].first) == q.val[i], "value"); k = len; break; }
      }
      q.h = k; occupancy(s.f, q, len);
    }
    symx_reach("drained"); volatile bool ex = false; s.f->resize(len + 3, 16, ex); CHECK(s.f->capacity() == len, "user memory is never replaced"); }
  for (unsigned i = 0; i < len; i++) { CHECK(Tr<T>::get(arr[i]) == q.val[i], "the array is unchanged"); CHECK(Tr<T>::ok(arr[i]), "the user's objects are still alive"); arr[i].~T(); }
  free(arr);
}
SYMX_ENTRY(q13_u64) { user<u64>(); }
SYMX_ENTRY(q13_u8) { user<unsigned char>(); }
SYMX_ENTRY(q13_small) { user<Small>(); }
struct PK : public raft::kernel { Port &out() { return output; } PK(void *p, size_t n) : raft::kernel(p, n) {} raft::kstatus run() override { return raft::stop; } template <class T> void add(size_t n) { output.addInPlacePorts<T>(n); } };
struct PIAcc : public PortInfo {};
// ---- Q14
template <class T> static void cls(bool isClass) {
  int c = inline_nonclass_alloc<T>::value, o = inline_class_alloc<T>::value, e = ext_alloc<T>::value; bool fits = sizeof(T) <= 64;
  CHECK(c + o + e == 1, "exactly one category"); CHECK(inline_alloc<T>::value == (c + o == 1), "in place or not");
  CHECK(e == !fits, "by reference exactly if larger than a cache line"); CHECK(o == (fits && isClass), "objects in place exactly if a class that fits"); CHECK(fits_in_cache_line<T>::value == fits, "size rule");
}
template <unsigned N> struct B_ { unsigned char x[N]; };
template <class T> struct alignas(32) A32 { T x; };
SYMX_ENTRY(q14_class) {
  cls<char>(0); cls<bool>(0); cls<short>(0); cls<int>(0); cls<long>(0); cls<float>(0); cls<double>(0); cls<long double>(0); cls<char[64]>(0); cls<char[65]>(0); cls<int[16]>(0); cls<int[17]>(0); cls<unsigned char[1]>(0);
  cls<B_<1>>(1); cls<B_<63>>(1); cls<B_<64>>(1); cls<B_<65>>(1); cls<B_<128>>(1); cls<B_<4096>>(1); cls<std::string>(1); cls<std::vector<int>>(1); cls<A32<int>>(1); cls<A32<B_<33>>>(1); cls<A32<B_<65>>>(1);
  symx_reach("done");
}
template <class T> static void slots() {
  unsigned cap = sym_pick("cap", 1, 3); Stream<T> s(cap, nullptr, ALLOC_ALIGN_WIDTH); unsigned n = cap + 1;
  for (unsigned i = 0; i < n; i++) { T &x = s.f->template allocate<T>(); CHECK((uintptr_t)&x % alignof(T) == 0, "allocated slot is aligned"); memset((void *)&x, 7, sizeof(T)); s.f->send(); T &y = s.f->template peek<T>(); CHECK(&y == &x, "the reader sees the slot the writer filled"); s.f->unpeek(); s.f->recycle(); s.gcr(); }
}
SYMX_ENTRY(q14_slots) {
  switch (sym_pick("t", 0, 11)) { case 0: slots<char>(); break; case 1: slots<short>(); break; case 2: slots<int>(); break; case 3: slots<double>(); break; case 4: slots<long double>(); break; case 5: slots<A32<int>>(); break; case 6: slots<A32<B_<33>>>(); break; case 7: slots<B_<3>>(); break; case 8: slots<B_<64>>(); break; case 9: slots<B_<65>>(); break; case 10: slots<bool>(); break; case 11: slots<A32<char>>(); break; }
  symx_reach("done");
}
