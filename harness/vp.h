// Interface between harnesses and the symbolic executor (or the native replay runtime, native_rt.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
extern "C" {
uint64_t vp_range(const char *name, uint64_t lo, uint64_t hi); // arbitrary value in [lo,hi]
uint32_t vp_any32(const char *name);
uint64_t vp_any64(const char *name);
void vp_assume(int cond);
void vp_check(int cond, const char *what);                     // the property
void vp_reach(const char *label);                              // vacuity witness
void vp_observe(uint64_t v);                                   // compared between engine and native run
uint64_t vp_concretize(uint64_t v);                            // solver-driven case split
[[noreturn]] void vp_fail(const char *what);
[[noreturn]] void vp_stop();                                   // end this path, fine
void vp_freeze();                                              // from here on heap and globals are read-only
void vp_unfreeze();
}
#ifdef VP_ARENA // native replay of read-only operations: allocate from pages that vp_freeze write-protects
extern "C" { void *vp_arena(size_t); void vp_arena_free(void *); }
#define malloc(n) vp_arena(n)
#define free(p) vp_arena_free(p)
#endif
