// Runtime shared by the engine and by native replay, on top of the symx_* primitives.
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <thread>
#include <mutex>
#include <memory>
#include <pthread.h>
extern "C" {
int symx_thread_create(void (*fn)(void *), void *arg);
void symx_thread_join(int); int symx_thread_self(); void symx_yield();
void *symx_malloc(size_t); void symx_free(void *); void *symx_new(size_t); void symx_delete(void *);
void *symx_new_aligned(size_t, size_t);
void *symx_aligned_alloc(size_t, size_t);
void symx_fail(const char *); void symx_fence();

void *symx_new_arr(size_t n) { return symx_new(n); }
void *symx_new_nt(size_t n, const void *) { return symx_malloc(n); }
void *symx_new_al(size_t n, size_t al) { return symx_aligned_alloc(al, n); }
void symx_delete_arr(void *p) { symx_delete(p); }
void symx_delete_sz(void *p, size_t) { symx_delete(p); }
void symx_delete_arr_sz(void *p, size_t) { symx_delete(p); }
void symx_delete_al(void *p, size_t) { symx_delete(p); }
void symx_delete_al_sz(void *p, size_t, size_t) { symx_delete(p); }
char *symx_strdup(const char *s) { size_t n = 0; while (s[n]) n++; char *p = (char *)symx_malloc(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }

// mutex: word 0 of the object is the lock flag; a recursive mutex keeps depth and owner in words 1 and 2
static bool mxRec(pthread_mutex_t *m) { return (((volatile int *)m)[4] & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool mxTake(pthread_mutex_t *m) { volatile int *w = (volatile int *)m;
  if (!mxRec(m)) { if (*w) return false; *w = 1; return true; }
  int me = symx_thread_self() + 1; if (*w && w[2] != me) return false; *w = 1; w[2] = me; w[1] = w[1] + 1; return true; }
int symx_mutex_init(pthread_mutex_t *m, const int *attr) { for (int i = 0; i < 10; i++) ((volatile int *)m)[i] = 0; if (attr) ((volatile int *)m)[4] = *attr & 3; return 0; }
int symx_mattr_init(int *a) { *a = 0; return 0; }
int symx_mattr_type(int *a, int k) { *a = k; return 0; }
int symx_mattr_destroy(int *) { return 0; }
int symx_mutex_destroy(pthread_mutex_t *) { return 0; }
int symx_mutex_lock(pthread_mutex_t *m) { symx_fence(); while (!mxTake(m)) symx_yield(); return 0; }
int symx_mutex_trylock(pthread_mutex_t *m) { symx_fence(); return mxTake(m) ? 0 : EBUSY; }
int symx_mutex_unlock(pthread_mutex_t *m) { symx_fence(); volatile int *w = (volatile int *)m; if (mxRec(m)) { w[1] = w[1] - 1; if (w[1] > 0) return 0; w[2] = 0; } *w = 0; return 0; }
// a timed request may give up whenever the lock is taken
int symx_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { symx_fence(); if (mxTake(m)) return 0; symx_yield(); return mxTake(m) ? 0 : ETIMEDOUT; }
int symx_mutex_clocklock(pthread_mutex_t *m, int, const struct timespec *t) { return symx_mutex_timedlock(m, t); }
// reader/writer locks: word 0 is -1 for a writer, otherwise the number of readers
static bool rwTake(pthread_rwlock_t *l, bool wr) { symx_fence(); volatile int *w = (volatile int *)l; if (wr ? *w != 0 : *w < 0) return false; *w = wr ? -1 : *w + 1; return true; }
int symx_rw_init(pthread_rwlock_t *l, const void *) { *(volatile int *)l = 0; return 0; }
int symx_rw_destroy(pthread_rwlock_t *) { return 0; }
int symx_rw_rd(pthread_rwlock_t *l) { while (!rwTake(l, false)) symx_yield(); return 0; }
int symx_rw_wr(pthread_rwlock_t *l) { while (!rwTake(l, true)) symx_yield(); return 0; }
int symx_rw_tryrd(pthread_rwlock_t *l) { return rwTake(l, false) ? 0 : EBUSY; }
int symx_rw_trywr(pthread_rwlock_t *l) { return rwTake(l, true) ? 0 : EBUSY; }
int symx_rw_un(pthread_rwlock_t *l) { symx_fence(); volatile int *w = (volatile int *)l; *w = *w < 0 ? 0 : *w - 1; return 0; }
int symx_once(int *c, void (*f)()) { symx_fence(); volatile int *w = c; while (*w == 1) symx_yield(); if (*w == 0) { *w = 1; try { f(); } catch (...) { *w = 0; throw; } *w = 2; } return 0; }
int symx_sched_yield() { symx_yield(); return 0; }
int symx_nanosleep(const struct timespec *, struct timespec *) { symx_yield(); return 0; }
int symx_clock_nanosleep(int, int, const struct timespec *, struct timespec *) { symx_yield(); return 0; }
int symx_usleep(unsigned) { symx_yield(); return 0; }
unsigned long symx_pthread_self() { return (unsigned long)symx_thread_self() + 1; }
// same layout as std::thread::_State
struct ThreadState { virtual ~ThreadState(); virtual void _M_run() = 0; };
static void threadMain(void *p) { ThreadState *s = (ThreadState *)p; s->_M_run(); delete s; }
void symx_std_thread_start(std::thread *t, ThreadState **st, void (*)()) {
  ThreadState *p = *st; *st = nullptr; int id = symx_thread_create(threadMain, p); *(unsigned long *)t = (unsigned long)id + 1; }
void symx_std_thread_join(std::thread *t) { unsigned long h = *(unsigned long *)t; *(unsigned long *)t = 0; if (h) symx_thread_join((int)h - 1); }
void symx_std_thread_detach(std::thread *t) { *(unsigned long *)t = 0; }
void symx_thread_state_dtor(void *) {}
unsigned symx_hw_value = 4;
unsigned symx_hw_concurrency() { return symx_hw_value; }
// condition variables: notifications are remembered by a counter, spurious wake-ups allowed
void symx_cv_ctor(void *) {}
void symx_cv_notify(void *) {}
void symx_cv_wait(void *, void *lk) { pthread_mutex_t *m = *(pthread_mutex_t **)lk; symx_mutex_unlock(m); symx_yield(); symx_mutex_lock(m); }
int symx_cond_wait(void *, pthread_mutex_t *m) { symx_mutex_unlock(m); symx_yield(); symx_mutex_lock(m); return 0; }
int symx_cond_timedwait(void *, pthread_mutex_t *m, const void *) { symx_mutex_unlock(m); symx_yield(); symx_mutex_lock(m); return ETIMEDOUT; }
int symx_cond_clockwait(void *, pthread_mutex_t *m, int, const void *) { symx_mutex_unlock(m); symx_yield(); symx_mutex_lock(m); return ETIMEDOUT; }
int symx_cond_notify(void *) { return 0; }
int symx_cond_init(void *, const void *) { return 0; }
static long ticks = 0;
long symx_clock_now() { return ticks += 1000; }
int symx_clock_gettime(int, struct timespec *t) { ticks += 1000; t->tv_sec = 0; t->tv_nsec = ticks; return 0; }
int symx_gettimeofday(struct timeval *t, void *) { ((long *)t)[0] = 0; ((long *)t)[1] = ++ticks; return 0; }
long symx_time(long *t) { if (t) *t = 1; return 1; }
void symx_rd_init(void *, const void *) {}
void symx_rd_fini(void *) {}
unsigned symx_rd_value = 12345;
unsigned symx_rd_getval(void *) { return symx_rd_value; }
}
