// Native implementation of the symx_* primitives: replays one .test file against the real code.
// usage: <binary> file.test     exit 0: the property held on the replay; anything else: violation.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <fstream>
#include <sstream>
#include <new>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <malloc.h>
#include <signal.h>
#include <exception>
#include <sys/mman.h>
struct In { std::string name; unsigned bytes; uint64_t v; };
struct Sched { int tid; uint64_t cnt; int next; std::vector<uint64_t> late; };
struct Pend { char *a; uint64_t n, acc; std::vector<char> oth; };  // a recent store: the bytes it replaced (after a switch: the ones it wrote)
static std::vector<In> ins; static std::vector<Sched> sched; static size_t inPos, schedPos; static int fill = 0x5A; static std::string entry, kind, label;
static long live = 0, yields = 0; static bool started = false, tso = false;
struct Th { pthread_t p; uint64_t acc = 0; bool done = false; int joinOn = -1; long selfY = 0; void (*fn)(void *) = nullptr; void *arg = nullptr; std::vector<Pend> sb, late; };
static Th th[16]; static int nth = 1; static volatile int cur = 0; static thread_local int self = 0;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static std::set<void *> *blocks;
static void die(const char *k, const char *l) { printf("REPLAY-VIOLATION %s %s\n", k, l); fflush(stdout); _exit(1); }
static bool runnable(int t) { return !th[t].done && (th[t].joinOn < 0 || th[th[t].joinOn].done); }
static void waitTurn() { pthread_mutex_lock(&mx); while (cur != self) pthread_cond_wait(&cv, &mx); pthread_mutex_unlock(&mx); }
static void handTo(int t) { if (t == self) return; th[t].joinOn = th[t].joinOn; pthread_mutex_lock(&mx); cur = t; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx); }
static int nextRR() { for (int k = 1; k < nth; k++) { int t = (self + k) % nth; if (runnable(t)) return t; } return -1; }
// scheduled switch at this event?
static void exchange(Pend &p) { for (uint64_t i = 0; i < p.n; i++) { char t = p.a[i]; p.a[i] = p.oth[i]; p.oth[i] = t; } }
static int scheduled() { if (schedPos < sched.size() && sched[schedPos].tid == self && sched[schedPos].cnt == th[self].acc) { Sched &c = sched[schedPos++];
    if (!c.late.empty()) { std::vector<Pend> l; for (auto &p : th[self].sb) if (p.acc >= c.late.front()) l.push_back(p); for (size_t i = l.size(); i-- > 0;) exchange(l[i]); th[self].late = l; } return c.next; } return -1; }
static void settle() { th[self].sb.clear(); for (auto &p : th[self].late) exchange(p); th[self].late.clear(); }
static void forget(void *q, size_t n) { for (int i = 0; i < nth; i++) { auto &l = th[i].late; for (size_t k = l.size(); k-- > 0;) if (l[k].a >= (char *)q && l[k].a < (char *)q + n) l.erase(l.begin() + k); } }
extern "C" {
long symx_affinity_of[16], symx_affinity_calls = 0;
uint64_t symx_sym(const char *name, uint32_t bytes) { (void)name; if (inPos >= ins.size()) return 0; uint64_t v = ins[inPos++].v; return bytes >= 8 ? v : v & ((1ull << (8 * bytes)) - 1); }
void symx_assume(bool c) { if (!c) { printf("replay: assumption does not hold, path diverged\n"); fflush(stdout); _exit(0); } }
void symx_check(bool c, const char *l) { if (!c) die("check", l); }
void symx_reach(const char *) {}
void symx_print(const char *s, uint64_t v) { printf("%s %llu\n", s, (unsigned long long)v); }
void symx_end() { printf("replay: property held\n"); fflush(stdout); _exit(0); }
uint64_t symx_concretize(uint64_t v) { return v; }
int64_t symx_live_heap() { return live; }
const char *symx_file(const void *d, size_t n) { static char path[64]; int fd = memfd_create("symx", 0); if (fd < 0 || write(fd, d, n) != (ssize_t)n) _exit(3); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); return path; }
void symx_fail(const char *l) { die("check", l); }
static void *reg(void *p, size_t n, bool f) { if (!p) return p; if (f) memset(p, fill, n); if (!blocks) blocks = new std::set<void *>; if (started) { blocks->insert(p); live++; } return p; }
static void unreg(void *p) { if (tso && p) forget(p, malloc_usable_size(p)); if (blocks && p && blocks->erase(p)) live--; }
void *symx_malloc(size_t n) { if (n > (1ull << 26)) return nullptr; return reg(malloc(n), n, true); }
void *symx_new(size_t n) { if (n > (1ull << 26)) die("huge-allocation", "operator new of an absurd size"); return reg(malloc(n ? n : 1), n, true); }
void *symx_calloc(size_t a, size_t b) { return reg(calloc(a, b), a * b, false); }
void *symx_aligned_alloc(size_t al, size_t n) { void *p = nullptr; if (al < 8) al = 8; if (posix_memalign(&p, al, n)) return nullptr; return reg(p, n, true); }
int symx_posix_memalign(void **o, size_t al, size_t n) { void *p = nullptr; int r = posix_memalign(&p, al, n); if (!r) { reg(p, n, true); *o = p; } return r; }
void symx_free(void *p) { unreg(p); free(p); }
void symx_delete(void *p) { unreg(p); free(p); }
void *symx_realloc(void *p, size_t n) { unreg(p); return reg(realloc(p, n), 0, false); }
static void *tmain(void *a) { self = (int)(long)a; waitTurn(); th[self].fn(th[self].arg); th[self].acc++; th[self].done = true; int n = scheduled(); if (n < 0) n = nextRR(); if (n < 0) die("deadlock", "all threads blocked"); handTo(n); return nullptr; }
int symx_thread_create(void (*fn)(void *), void *arg) { if (nth >= 16) die("error", "too many threads"); int t = nth; th[t].fn = fn; th[t].arg = arg; nth++; pthread_create(&th[t].p, nullptr, tmain, (void *)(long)t); return t; }
static void go(int n) { if (n == self) return; handTo(n); waitTurn(); settle(); th[self].joinOn = -1; }
void symx_thread_join(int t) { if (t < 0 || t >= nth) die("bad-call", "join"); if (nth > 1) th[self].acc++; if (!th[t].done) { th[self].joinOn = t; int n = scheduled(); if (n < 0 || !runnable(n)) n = nextRR(); if (n < 0) die("deadlock", "all threads blocked"); go(n); while (!th[t].done) { th[self].joinOn = t; n = nextRR(); if (n < 0) die("deadlock", "join"); go(n); } } }
int symx_thread_self() { return self; }
void symx_yield() { if (nth > 1) th[self].acc++; if (++yields > 20000) die("no-progress", "threads keep waiting for each other");
  int n = scheduled(); if (n < 0 || !runnable(n)) n = nextRR(); if (n < 0) { if (++th[self].selfY > 400) die("blocked", "operation waits forever (no other thread can run)"); return; } th[self].selfY = 0; go(n); }
void symx_access(void *p, uint64_t n, int kind) { if (nth < 2) return; th[self].acc++; int t = scheduled(); if (t >= 0 && runnable(t)) go(t);
  if (!tso) return; auto &sb = th[self].sb; if ((kind & 2) || ((kind & 1) && (n < 1 || n > 64))) sb.clear(); else if (kind & 1) { if (sb.size() >= 12) sb.erase(sb.begin()); sb.push_back({(char *)p, n, th[self].acc, std::vector<char>((char *)p, (char *)p + n)}); } }
void symx_fence() { th[self].sb.clear(); }
}
static void onAlarm(int) { const char m[] = "REPLAY-VIOLATION hang\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
static void onTerm() { printf("REPLAY-VIOLATION terminate\n"); fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
  if (argc < 2) return 3; std::ifstream f(argv[1]); std::string l;
  while (std::getline(f, l)) { std::istringstream s(l); std::string k; s >> k; if (k == "entry") s >> entry; else if (k == "kind") s >> kind; else if (k == "label") { std::getline(s, label); } else if (k == "fill") s >> fill; else if (k == "in") { In i; s >> i.name >> i.bytes >> std::hex >> i.v; ins.push_back(i); } else if (k == "sched") { Sched c; s >> c.tid >> c.cnt >> c.next; for (uint64_t l; s >> l;) { c.late.push_back(l); tso = true; } sched.push_back(c); } }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str()); if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  signal(SIGALRM, onAlarm); alarm(20); std::set_terminate(onTerm); started = true;
  fn(); printf("replay: property held\n"); fflush(stdout); _exit(0);
}
