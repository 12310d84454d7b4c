// Engine-only models of libstdc++/libc functions that have no bitcode.
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <map>
#include <list>
#include <stdexcept>
#include <unordered_map>
extern "C" {
void *symx_malloc(size_t); void *symx_calloc(size_t, size_t); void symx_free(void *);
void symx_unwind(void *, void *) __attribute__((noreturn)); void *symx_exc_type(void *); void symx_abort(const char *) __attribute__((noreturn));

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = (const unsigned char *)x, *b = (const unsigned char *)y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void *m_memchr(const void *x, int c, size_t n) asm("memchr");
void *m_memchr(const void *x, int c, size_t n) { const unsigned char *a = (const unsigned char *)x; for (size_t i = 0; i < n; i++) if (a[i] == (unsigned char)c) return (void *)(a + i); return nullptr; }
char *m_strchr(const char *s, int c) asm("strchr");
char *m_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
static unsigned long sto(const char *s, char **e, int base, bool sg) { const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; bool n = false; if (*p == '-' || *p == '+') n = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, big = false; for (;; p++) { int d = *p >= '0' && *p <= '9' ? *p - '0' : (*p | 32) >= 'a' && (*p | 32) <= 'z' ? (*p | 32) - 'a' + 10 : 99; if (d >= base) break; any = true; unsigned long t; if (__builtin_mul_overflow(v, (unsigned long)base, &t) || __builtin_add_overflow(t, (unsigned long)d, &v)) big = true; }
  if (e) *e = (char *)(any ? p : s); if (sg && (big || v > (n ? 1ul << 63 : (1ul << 63) - 1))) { *__errno_location() = 34; return n ? 1ul << 63 : (1ul << 63) - 1; } if (big) { *__errno_location() = 34; return ~0ul; } return n ? 0 - v : v; }
long m_strtol(const char *s, char **e, int b) asm("strtol"); long m_strtol(const char *s, char **e, int b) { return (long)sto(s, e, b, true); }
long m_strtol2(const char *s, char **e, int b) asm("__isoc23_strtol"); long m_strtol2(const char *s, char **e, int b) { return (long)sto(s, e, b, true); }
long m_strtoll(const char *s, char **e, int b) asm("strtoll"); long m_strtoll(const char *s, char **e, int b) { return (long)sto(s, e, b, true); }
long m_strtoll2(const char *s, char **e, int b) asm("__isoc23_strtoll"); long m_strtoll2(const char *s, char **e, int b) { return (long)sto(s, e, b, true); }
unsigned long m_strtoul(const char *s, char **e, int b) asm("strtoul"); unsigned long m_strtoul(const char *s, char **e, int b) { return sto(s, e, b, false); }
unsigned long m_strtoul2(const char *s, char **e, int b) asm("__isoc23_strtoul"); unsigned long m_strtoul2(const char *s, char **e, int b) { return sto(s, e, b, false); }
unsigned long m_strtoull(const char *s, char **e, int b) asm("strtoull"); unsigned long m_strtoull(const char *s, char **e, int b) { return sto(s, e, b, false); }
unsigned long m_strtoull2(const char *s, char **e, int b) asm("__isoc23_strtoull"); unsigned long m_strtoull2(const char *s, char **e, int b) { return sto(s, e, b, false); }
int m_atoi(const char *s) asm("atoi"); int m_atoi(const char *s) { return (int)sto(s, nullptr, 10, true); }
extern thread_local void *onceCallable asm("_ZSt15__once_callable"); thread_local void *onceCallable; extern thread_local void (*onceCall)() asm("_ZSt11__once_call"); thread_local void (*onceCall)();
void __once_proxy() { onceCall(); }
size_t m_strnlen(const char *s, size_t m) asm("strnlen"); size_t m_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *m_strcat(char *d, const char *s) asm("strcat"); char *m_strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *m_strrchr(const char *s, int c) asm("strrchr"); char *m_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *m_strstr(const char *h, const char *n) asm("strstr"); char *m_strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return nullptr; } }
char *m_strndup(const char *s, size_t m) asm("strndup"); char *m_strndup(const char *s, size_t m) { size_t n = m_strnlen(s, m); char *p = (char *)symx_malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
int m_isspace(int c) asm("isspace"); int m_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int m_isdigit(int c) asm("isdigit"); int m_isdigit(int c) { return c >= '0' && c <= '9'; }
int m_tolower(int c) asm("tolower"); int m_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int m_toupper(int c) asm("toupper"); int m_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char *getenv(const char *) { return nullptr; }
long sysconf(int) { return 4096; }
int *__errno_location() { static int e; return &e; }
int sched_getcpu() { return 0; }

struct ExcHdr { void (*dtor)(void *); long refs, handlers; ExcHdr *next; void *tinfo; long pad[3]; };  // 64 bytes
struct ExcGlob { ExcHdr *caught; unsigned uncaught; };
static thread_local ExcGlob eg;
void *__cxa_allocate_exception(size_t n) { char *p = (char *)symx_calloc(1, n + sizeof(ExcHdr)); return p + sizeof(ExcHdr); }
void __cxa_free_exception(void *p) { symx_free((char *)p - sizeof(ExcHdr)); }
void m_throw(void *p, void *ti, void (*d)(void *)) asm("__cxa_throw") __attribute__((noreturn));
void m_throw(void *p, void *ti, void (*d)(void *)) { ExcHdr *h = (ExcHdr *)p - 1; h->dtor = d; h->refs = 1; h->tinfo = ti; eg.uncaught++; symx_unwind(p, ti); }
void *__cxa_get_exception_ptr(void *p) { return p; }
void *__cxa_begin_catch(void *p) { ExcHdr *h = (ExcHdr *)p - 1; if (h->handlers < 0) h->handlers = -h->handlers; else eg.uncaught--; h->handlers++; if (eg.caught != h) { h->next = eg.caught; eg.caught = h; } return p; }
void __cxa_end_catch() { ExcHdr *h = eg.caught; if (!h) return; if (h->handlers < 0) { if (++h->handlers == 0) eg.caught = h->next; return; }
  if (--h->handlers == 0) { eg.caught = h->next; if (--h->refs == 0) { if (h->dtor) h->dtor(h + 1); symx_free(h); } } }
void __cxa_rethrow() { ExcHdr *h = eg.caught; if (!h) symx_abort("rethrow without exception"); h->handlers = -h->handlers; eg.uncaught++; symx_unwind(h + 1, h->tinfo); }
int _ZSt18uncaught_exceptionv() { return eg.uncaught != 0; }
int _ZSt19uncaught_exceptionsv() { return eg.uncaught; }
// current_exception / rethrow_exception (std::exception_ptr is one pointer)
void _ZSt17current_exceptionv(void **out) { ExcHdr *h = eg.caught; if (!h) { *out = nullptr; return; } h->refs++; *out = h + 1; }
void _ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE(void **p) { ExcHdr *h = (ExcHdr *)*p - 1; h->refs++; eg.uncaught++; symx_unwind(h + 1, h->tinfo); }
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void **p) { if (*p) ((ExcHdr *)*p - 1)->refs++; }
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void **p) { if (*p) { ExcHdr *h = (ExcHdr *)*p - 1; if (--h->refs == 0) { if (h->dtor) h->dtor(h + 1); symx_free(h); } *p = nullptr; } }
int __cxa_guard_acquire(char *g) { return *g ? 0 : 1; }
void __cxa_guard_release(char *g) { *g = 1; }
void __cxa_guard_abort(char *) {}
void __cxa_pure_virtual() { symx_abort("pure virtual call"); }
void __cxa_bad_cast() { symx_abort("bad_cast"); }
void __cxa_throw_bad_array_new_length() { symx_abort("bad_array_new_length"); }
void __cxa_call_unexpected(void *) { symx_abort("unexpected exception"); }

// std exception hierarchy: type descriptions (the vtables of the concrete classes are unused by the code under test)
extern char cls[] asm("_ZTVN10__cxxabiv117__class_type_infoE"); extern char si[] asm("_ZTVN10__cxxabiv120__si_class_type_infoE");
struct TI0 { const void *v; const char *n; }; struct TI1 { const void *v; const char *n; const void *b; };
#define ROOT(sym, name) extern const TI0 sym##_ asm("_ZTI" name); const TI0 sym##_ = {cls + 16, name};
#define SUB(sym, name, base) extern const TI1 sym##_ asm("_ZTI" name); const TI1 sym##_ = {si + 16, name, &base##_};
ROOT(exc, "St9exception") SUB(logic, "St11logic_error", exc) SUB(runt, "St13runtime_error", exc) SUB(oor, "St12out_of_range", logic) SUB(inv, "St16invalid_argument", logic) SUB(len, "St12length_error", logic)
SUB(ba, "St9bad_alloc", exc) SUB(bc, "St8bad_cast", exc) SUB(bf, "St17bad_function_call", exc) SUB(rng, "St11range_error", runt) SUB(ovf, "St14overflow_error", runt) SUB(sys, "St12system_error", runt) SUB(dom, "St12domain_error", logic)
ROOT(ti, "St9type_info") ROOT(iosb, "St8ios_base")
#define BASIC(sym, name) extern const TI0 sym##_ asm("_ZTI" name); const TI0 sym##_ = {fund + 16, name};
extern char fund[] asm("_ZTVN10__cxxabiv123__fundamental_type_infoE");
BASIC(ti_i, "i") BASIC(ti_j, "j") BASIC(ti_l, "l") BASIC(ti_m, "m") BASIC(ti_c, "c") BASIC(ti_h, "h") BASIC(ti_a, "a") BASIC(ti_s, "s") BASIC(ti_t, "t") BASIC(ti_b, "b") BASIC(ti_f, "f") BASIC(ti_d, "d") BASIC(ti_x, "x") BASIC(ti_y, "y") BASIC(ti_v, "v") BASIC(ti_e, "e")
struct StdExc { const void *const *vptr; char *msg; };
static void se_d(StdExc *p) { if (p->msg) symx_free(p->msg); p->msg = nullptr; }
static void se_d0(StdExc *p) { se_d(p); symx_free(p); }
static const char *se_what(const StdExc *p) { return p->msg ? p->msg : ""; }
static void se_c(StdExc *p, const void *const *vt, const char *s, size_t n) { p->vptr = vt + 2; p->msg = (char *)symx_malloc(n + 1); for (size_t i = 0; i < n; i++) p->msg[i] = s[i]; p->msg[n] = 0; }
struct StrRep { const char *p; size_t n; };
#define STDEXC(sym, len, name) static const void *const vt_##sym[] = {nullptr, &sym##_, (const void *)se_d, (const void *)se_d0, (const void *)se_what}; \
  void sym##_c1(StdExc *p, const StrRep *s) asm("_ZNSt" len name "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void sym##_c1(StdExc *p, const StrRep *s) { se_c(p, vt_##sym, s->p, s->n); } \
  void sym##_c2(StdExc *p, const StrRep *s) asm("_ZNSt" len name "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void sym##_c2(StdExc *p, const StrRep *s) { se_c(p, vt_##sym, s->p, s->n); } \
  void sym##_c3(StdExc *p, const char *s) asm("_ZNSt" len name "C1EPKc"); void sym##_c3(StdExc *p, const char *s) { se_c(p, vt_##sym, s, strlen(s)); } \
  void sym##_c4(StdExc *p, const char *s) asm("_ZNSt" len name "C2EPKc"); void sym##_c4(StdExc *p, const char *s) { se_c(p, vt_##sym, s, strlen(s)); } \
  void sym##_d1(StdExc *p) asm("_ZNSt" len name "D1Ev"); void sym##_d1(StdExc *p) { se_d(p); } \
  void sym##_d2(StdExc *p) asm("_ZNSt" len name "D2Ev"); void sym##_d2(StdExc *p) { se_d(p); }
STDEXC(logic, "11", "logic_error") STDEXC(runt, "13", "runtime_error") STDEXC(len, "12", "length_error") STDEXC(oor, "12", "out_of_range") STDEXC(inv, "16", "invalid_argument") STDEXC(dom, "12", "domain_error") STDEXC(rng, "11", "range_error") STDEXC(ovf, "14", "overflow_error")
const char *m_lw(const StdExc *p) asm("_ZNKSt11logic_error4whatEv"); const char *m_lw(const StdExc *p) { return se_what(p); }
const char *m_rw(const StdExc *p) asm("_ZNKSt13runtime_error4whatEv"); const char *m_rw(const StdExc *p) { return se_what(p); }
static void se_n(StdExc *) {} static const char *se_nw(const StdExc *) { return "std::exception"; }
#define STDEXC0(sym) static const void *const vt_##sym[] = {nullptr, &sym##_, (const void *)se_n, (const void *)symx_free, (const void *)se_nw};
STDEXC0(ba) STDEXC0(bc) STDEXC0(bf) STDEXC0(sys)
static void thr(const void *ti, const void *const *vt, const char *msg) { StdExc *p = (StdExc *)__cxa_allocate_exception(sizeof(StdExc)); if (msg) se_c(p, vt, msg, strlen(msg)); else { p->vptr = vt + 2; p->msg = nullptr; } m_throw(p, (void *)ti, msg ? (void (*)(void *))se_d : nullptr); }
#define THROW(mang, ti) void mang(const char *m, ...) { thr(&ti##_, vt_##ti, m); }
THROW(_ZSt19__throw_logic_errorPKc, logic) THROW(_ZSt20__throw_length_errorPKc, len) THROW(_ZSt20__throw_out_of_rangePKc, oor) THROW(_ZSt24__throw_out_of_range_fmtPKcz, oor) THROW(_ZSt24__throw_invalid_argumentPKc, inv) THROW(_ZSt21__throw_runtime_errorPKc, runt)
void _ZSt17__throw_bad_allocv() { thr(&ba_, vt_ba, nullptr); }
void _ZSt28__throw_bad_array_new_lengthv() { thr(&ba_, vt_ba, nullptr); }
void _ZSt25__throw_bad_function_callv() { thr(&bf_, vt_bf, nullptr); }
void _ZSt16__throw_bad_castv() { thr(&bc_, vt_bc, nullptr); }
void _ZSt20__throw_system_errori(int) { thr(&sys_, vt_sys, nullptr); }
void _ZNSt9exceptionD2Ev(void *) {} void _ZNSt9exceptionD1Ev(void *) {}
void _ZNSt8bad_castD2Ev(void *) {} void _ZNSt8bad_castD1Ev(void *) {} void _ZNSt9bad_allocD2Ev(void *) {} void _ZNSt9bad_allocD1Ev(void *) {} void _ZNSt17bad_function_callD2Ev(void *) {} void _ZNSt17bad_function_callD1Ev(void *) {} 
const char *_ZNKSt8bad_cast4whatEv(const void *) { return "std::bad_cast"; } const char *_ZNKSt9bad_alloc4whatEv(const void *) { return "std::bad_alloc"; }
const char *_ZNKSt9exception4whatEv(const void *) { return "std::exception"; }

// unordered containers
// libstdc++'s own hash (64-bit Murmur): maps keyed by type_info::hash_code() must iterate in the order they have natively
static inline size_t hb_mix(size_t v) { return v ^ (v >> 47); }
static inline size_t hb_load(const unsigned char *c, size_t n) { size_t r = 0; for (size_t i = n; i-- > 0;) r = (r << 8) | c[i]; return r; }
size_t _ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32) + (size_t)0x5bd1e995UL; const unsigned char *c = (const unsigned char *)p; size_t al = n & ~(size_t)7, h = seed ^ (n * mul);
  for (size_t i = 0; i < al; i += 8) { h ^= hb_mix(hb_load(c + i, 8) * mul) * mul; h *= mul; }
  if (n & 7) { h ^= hb_load(c + al, n & 7); h *= mul; }
  h = hb_mix(h) * mul; return hb_mix(h); }
}
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753}; auto *me = const_cast<_Prime_rehash_policy *>(this); if (n == 0) return 1; if (n == 1) n = 2; for (size_t p : pr) if (p >= n) { me->_M_next_resize = p; return p; } me->_M_next_resize = n | 1; return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > _M_next_resize) { size_t want = elt + ins, lo = _M_next_resize ? 0 : 11; if (want < lo) want = lo; if (want >= bkt) { size_t w2 = bkt * 2; return {true, _M_next_bkt((want + 1 > w2) ? want + 1 : w2)}; } const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = bkt; } return {false, 0}; }
} }
// red black trees
namespace std {
static _Rb_tree_node_base *incr(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base *decr(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return incr(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return incr(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return decr(const_cast<_Rb_tree_node_base *>(x)); }
// order preserving insertion / removal without rebalancing (the order of the elements is all that is observable)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
  auto repl = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) { if (header._M_parent == a) header._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  _Rb_tree_node_base *nl = header._M_left == z ? incr(z) : nullptr, *nr = header._M_right == z ? decr(z) : nullptr;
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { auto *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (nl) header._M_left = nl; if (nr) header._M_right = nr;
  if (!header._M_parent) { header._M_left = header._M_right = &header; }
  return z; }
}
// doubly linked lists (std::list)
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  bool ex = x._M_next == &x, ey = y._M_next == &y; auto *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
  if (ey) x._M_next = x._M_prev = &x; else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = &x; yp->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y; else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = &y; xp->_M_next = &y; } }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
} }
// ---- files: one input file whose content the harness provides
#include <cstdio>
#include <sys/stat.h>
namespace { struct File { const char *d; size_t n, pos; bool open, eof; }; File theFile; const char *fdata; size_t flen; bool fexists; bool same(const char *p) { return fexists && strcmp(p, "/symx/input") == 0; } }
extern "C" {
const char *symx_file(const void *data, size_t n) { fdata = (const char *)data; flen = n; fexists = true; return "/symx/input"; }
FILE *fopen(const char *path, const char *) { if (!same(path)) return nullptr; File *f = (File *)symx_malloc(sizeof(File)); f->d = fdata; f->n = flen; f->pos = 0; f->eof = false; return (FILE *)f; }
FILE *m_fopen64(const char *path, const char *m) asm("fopen64"); FILE *m_fopen64(const char *path, const char *m) { return fopen(path, m); }
int fclose(FILE *x) { symx_free(x); return 0; }
size_t fread(void *to, size_t sz, size_t k, FILE *x) { File *f = (File *)x; size_t left = f->pos < f->n ? f->n - f->pos : 0, want = sz * k; if (!want) return 0; if (want > left) { want = left; f->eof = true; } for (size_t i = 0; i < want; i++) ((char *)to)[i] = f->d[f->pos + i]; f->pos += want; return want / sz; }
int fseek(FILE *x, long o, int w) { File *f = (File *)x; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)f->pos : (long)f->n; if (b + o < 0) return -1; f->pos = b + o; f->eof = false; return 0; }
int m_fseeko(FILE *x, long o, int w) asm("fseeko"); int m_fseeko(FILE *x, long o, int w) { return fseek(x, o, w); }
int m_fseeko64(FILE *x, long o, int w) asm("fseeko64"); int m_fseeko64(FILE *x, long o, int w) { return fseek(x, o, w); }
long ftell(FILE *x) { return (long)((File *)x)->pos; }
long m_ftello(FILE *x) asm("ftello"); long m_ftello(FILE *x) { return ftell(x); }
long m_ftello64(FILE *x) asm("ftello64"); long m_ftello64(FILE *x) { return ftell(x); }
void rewind(FILE *x) { fseek(x, 0, SEEK_SET); }
int feof(FILE *x) { return ((File *)x)->eof; }
int ferror(FILE *) { return 0; }
int fgetc(FILE *x) { unsigned char c; return fread(&c, 1, 1, x) ? c : EOF; }
int stat(const char *path, struct stat *st) { if (!same(path)) return -1; st->st_size = (long)flen; st->st_mode = S_IFREG; return 0; }
int m_stat64(const char *path, struct stat *st) asm("stat64"); int m_stat64(const char *path, struct stat *st) { return stat(path, st); }
}
