// Harness API of the symbolic executor. The same calls are served natively when a
// counterexample is replayed.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t symx_sym(const char *name, uint32_t bytes);   // fresh unconstrained value
void symx_assume(bool c);
void symx_check(bool c, const char *label);             // the property
void symx_reach(const char *label);                     // vacuity witness
void symx_print(const char *s, uint64_t v);
void symx_end(void) __attribute__((noreturn));          // end this path
uint64_t symx_concretize(uint64_t v);                   // split on all feasible values
int64_t symx_live_heap(void);                           // number of live heap blocks
int symx_thread_create(void (*fn)(void *), void *arg);
void symx_thread_join(int tid);
int symx_thread_self(void);
void symx_yield(void);
const char *symx_file(const void *data, size_t n);     // a file with this content; its path
}
static inline uint8_t  sym_u8 (const char *n) { return (uint8_t)symx_sym(n, 1); }
static inline uint16_t sym_u16(const char *n) { return (uint16_t)symx_sym(n, 2); }
static inline uint32_t sym_u32(const char *n) { return (uint32_t)symx_sym(n, 4); }
static inline uint64_t sym_u64(const char *n) { return symx_sym(n, 8); }
static inline int32_t  sym_i32(const char *n) { return (int32_t)symx_sym(n, 4); }
static inline bool sym_bool(const char *n) { uint8_t v = sym_u8(n); symx_assume(v <= 1); return v == 1; }
// lo <= result <= hi
static inline uint64_t sym_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = sym_u64(n); symx_assume(v >= lo); symx_assume(v <= hi); return v; }
static inline uint64_t sym_pick(const char *n, uint64_t lo, uint64_t hi) { return symx_concretize(sym_range(n, lo, hi)); }
#define SYMX_ENTRY(name) extern "C" void symx_entry_##name()
#define CHECK(c, label) symx_check((c), label)
