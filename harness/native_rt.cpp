// Native replay runtime: runs a harness entry on concrete inputs against the real compiled code.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <setjmp.h>
static std::vector<uint64_t> in; static size_t ip; static uint64_t H; static bool mism; static long liveAllocs; static const char *stage = "";
struct VpStop {};
extern "C" {
static uint64_t next(const char *n) { if (ip < in.size()) return in[ip++]; mism = true; (void)n; return 0; }
uint64_t vp_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = next(n); if (v < lo || v > hi) { mism = true; v = lo; } return v; }
uint32_t vp_any32(const char *n) { return (uint32_t)next(n); }
uint64_t vp_any64(const char *n) { return next(n); }
void vp_report(const char *k, const char *w) { printf("VIOLATED %s: %s\n", k, w); fflush(stdout); _exit(1); }
void vp_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(3); } }
void vp_check(int c, const char *w) { if (!c) vp_report("check", w); }
void vp_reach(const char *) {}
void vp_observe(uint64_t v) { H = (H ^ v) * 1099511628211ull; }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_fail(const char *w) { vp_report("check", w); _exit(1); }
static void finish() { printf("OK %llu%s\n", (unsigned long long)H, mism ? " MISMATCH" : ""); fflush(stdout); }
void vp_stop() { finish(); _exit(0); }
void vp_freeze_arena(int ro);
void vp_freeze() { vp_freeze_arena(1); }
void vp_unfreeze() { vp_freeze_arena(0); }
}
// storage arena and the program's own data segment: write-protected while frozen (VP_ARENA builds only)
#ifdef VP_ARENA
#undef malloc
#undef free
static const size_t asz = 1 << 20;
static char *arena, *acur; static char *dlo, *dhi;
extern "C" char __data_start, _end;
extern "C" void *vp_arena(size_t n) { if (!arena) arena = acur = (char *)mmap(0, asz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); void *p = acur; acur += (n + 31) & ~15ull; return p; }
extern "C" void vp_arena_free(void *) {}
void *operator new(size_t n) { return vp_arena(n); }
void operator delete(void *) noexcept {}
void operator delete(void *, size_t) noexcept {}
static void segv(int, siginfo_t *si, void *) {
  char *a = (char *)si->si_addr; bool in = (a >= arena && a < arena + asz) || (a >= dlo && a < dhi);
  static const char m[] = "VIOLATED frozen: write to shared memory by a read-only operation\n", c[] = "CRASH segv\n";
  (void)!write(1, in ? m : c, (in ? sizeof m : sizeof c) - 1); _exit(1); }
extern "C" void vp_freeze_arena(int ro) {
  if (!arena) vp_arena(16);
  if (ro) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, 0); }
  dlo = (char *)((uintptr_t)&__data_start & ~4095ull); dhi = (char *)(((uintptr_t)&_end + 4095) & ~4095ull);
  fflush(stdout);
  mprotect(arena, asz, ro ? PROT_READ : PROT_READ | PROT_WRITE); mprotect(dlo, dhi - dlo, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}
#else
extern "C" void vp_freeze_arena(int) {}
#endif
#ifdef VP_COUNT_NEW
#include <new>
void *operator new(size_t n) { ++liveAllocs; void *p = malloc(n ? n : 1); memset(p, 0xA5, n); return p; }
void operator delete(void *p) noexcept { if (p) { --liveAllocs; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { --liveAllocs; free(p); } }
#endif
int main(int argc, char **argv) {
  // usage: prog entry < lines of inputs ; one child per line unless --one
  if (argc < 2) return 2;
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  bool one = argc > 2 && !strcmp(argv[2], "--one");
  char *line = 0; size_t cap = 0; int rc = 0;
  while (getline(&line, &cap, stdin) > 0) {
    in.clear(); ip = 0; H = 1469598103934665603ull; mism = false;
    for (char *p = line; *p;) { char *e; unsigned long long v = strtoull(p, &e, 0); if (e == p) { p++; continue; } in.push_back(v); p = e; }
    fflush(stdout);
    if (!one) { pid_t c = fork(); if (c) { int st; extern int waitpid_(pid_t, int *); rc = waitpid_(c, &st); if (rc) { printf("CRASH %d\n", st); fflush(stdout); } continue; } }
    alarm(20);
    try { f(); } catch (...) { vp_report("uncaught", "exception leaves the harness"); }
    if (liveAllocs) vp_report("leak", "heap memory still allocated at the end");
    finish(); _exit(0);
  }
  return 0;
}
#include <sys/wait.h>
int waitpid_(pid_t c, int *st) { waitpid(c, st, 0); if (WIFEXITED(*st) && (WEXITSTATUS(*st) == 0 || WEXITSTATUS(*st) == 1 || WEXITSTATUS(*st) == 3)) return 0; return 1; }
