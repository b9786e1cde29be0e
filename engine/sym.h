// Harness interface: the symbolic executor provides these natively; replay_rt.cpp provides them for the native replay of a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __sym_make(const char* name, uint32_t bits);
uint64_t __sym_range(const char* name, int64_t lo, int64_t hi);
uint64_t __sym_concrete(uint64_t v);
void __sym_assume(int c);
void __sym_assert(int c, const char* msg);
void __sym_fail(const char* msg) __attribute__((noreturn));
void __sym_reach(const char* tag);
void __sym_bound(const char* name, uint64_t v);
uint64_t __sym_option(const char* name, uint64_t dflt);
void __sym_sched(int on);
void __sym_delays(int n);
void __sym_visible();
void __sym_print(const char*, uint64_t);
int __sym_tid();
uint64_t __sym_live();
int __sym_is_symbolic(uint64_t);
int __sym_is_freed(const void*);
uint64_t __sym_thread_create(void (*f)(void*), void* a);
void __sym_thread_join(uint64_t t);
int64_t __sym_now();
int __sym_futex_wait(unsigned* a, unsigned v, int timed, int64_t absns);
void __sym_futex_wake(unsigned* a);
}
static inline int sym_int(const char* n) { return (int)__sym_make(n, 32); }
static inline bool sym_bool(const char* n) { return __sym_make(n, 1) != 0; }
static inline int64_t sym_range(const char* n, int64_t lo, int64_t hi) { return (int64_t)__sym_range(n, lo, hi); }
static inline int sym_pick(const char* n, int cnt) { return (int)__sym_concrete(__sym_range(n, 0, cnt - 1)); }     // explored concretely, one path per feasible value
static inline int sym_opt(const char* n, int d) { int v = (int)__sym_option(n, (uint64_t)d); __sym_bound(n, (uint64_t)v); return v; }
static inline double sym_double(const char* n) { uint64_t b = __sym_make(n, 64); double d; __builtin_memcpy(&d, &b, 8); return d; }
#define SYM_ASSERT(c, msg) __sym_assert((c) ? 1 : 0, msg)
