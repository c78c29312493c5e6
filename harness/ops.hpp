// One struct per public operation.  Each chooses its arguments symbolically, states the documented outcome on the
// reference sequence, performs the real operation through H::call and compares.  What is checked around the call
// depends on VP_MODE.
#pragma once
#include "common.hpp"

enum { MC_CONTENT = 1, MC_CENSUS = 2, MC_THROW = 4, MC_STRONG = 8, MC_ALLOCS = 16, MC_STABLE = 32, MC_COUNT = 64, MC_FROM = 128, MC_NOTHROW = 256, MC_REP = 512, MC_MEM = 1024, MC_INVAL = 2048, MC_FILL = 4096 };
#ifndef VP_MODE
#define VP_MODE MC_CONTENT
#endif
#ifndef VP_T
#define VP_T uint32_t
#endif
#ifndef VP_CLASS
#define VP_CLASS 0 // 0 circular_buffer, 1 circular_buffer_space_optimized
#endif
#ifdef VP_CONCOFF
#define OFFV(x, hi) spread((x), 0, (hi))
#else
#define OFFV(x, hi) (x)
#endif
#define LMAX (CAPMAX + 2)
#ifndef EXTRAMAX
#define EXTRAMAX 2
#endif

typedef VP_T T;
#if VP_CLASS == 0
typedef boost::circular_buffer<T, VA<T>> CB;
#else
typedef boost::circular_buffer_space_optimized<T, VA<T>> CB;
#endif
static const bool SO = VP_CLASS == 1;
static const bool COPYABLE = std::is_copy_constructible<T>::value;
typedef CB::iterator It;
typedef boost::cb_details::capacity_control<size_t> Ctl;

struct Info {
  int inv[MAXM];      // 1: documentation says iterators to this old element are invalidated, 0: says nothing or the opposite, -1: the complement of surv
  int surv[MAXM];     // old index -> new index of elements whose iterators/references stay valid, -1 otherwise
  bool may_alloc, strong, nothrow;
  size_t max_ops;     // bound on element constructions + assignments during the call
  size_t max_dtor;    // bound on destructions
  bool nocopy;        // C24: no existing element may be copied (nothrow-move types) / moved from (throwing-move types)
  bool cap_change;    // capacity may change
};

static uint32_t elem_ops() { return vpg_g.dctor + vpg_g.vctor + vpg_g.cctor + vpg_g.mctor + vpg_g.cassign + vpg_g.massign + vpg_g.dtor; }
#if VP_DEBUG
// Uses the given (invalid) iterators in every way the documentation forbids; the library assertion has to fire.
[[noreturn]] static void misuse(CB &cb, It &it, CB::const_iterator &cit) {
  alignas(T) char raw[sizeof(T)]; T *x = new (raw) T(1); const CB &c = cb; uint64_t d = vp_any64("d"); vp_assume(d != (uint64_t)1 << 63); uint64_t acc = 0;
  int use = (int)vp_concretize(vp_range("use", 0, VP_CLASS == 0 ? 33 : 31));
  vpg_g.expect_assert = 1; vpg_g.at_misuse = elem_ops();
  switch (use) {
  case 0: acc = (uint64_t)&*it; break;
  case 1: ++it; break;
  case 2: it++; break;
  case 3: --it; break;
  case 4: it--; break;
  case 5: it += (ptrdiff_t)d; break;
  case 6: it -= (ptrdiff_t)d; break;
  case 7: { It y = it + (ptrdiff_t)d; } break;
  case 8: { It y = it - (ptrdiff_t)d; } break;
  case 9: acc = it - cb.begin(); break;
  case 10: acc = cb.end() - it; break;
  case 11: acc = it == cb.begin(); break;
  case 12: acc = c.end() != it; break;
  case 13: acc = it < cb.end(); break;
  case 14: acc = it > cb.begin(); break;
  case 15: acc = it <= cb.end(); break;
  case 16: acc = it >= cb.begin(); break;
  case 17: acc = (uint64_t)it.operator->(); break;
  case 18: acc = (uint64_t)&it[(ptrdiff_t)d]; break;
  case 19: acc = (uint64_t)&*cit; break;
  case 20: ++cit; break;
  case 21: acc = cit == cb.end(); break;
  case 22: { It y(it); acc = (uint64_t)&*y; } break;                                  // copies are as invalid as the original
  case 23: { It y = cb.begin(); y = it; acc = (uint64_t)&*y; } break;
  case 24: { CB::const_iterator y(it); --y; } break;
  case 25: cb.insert(it, std::move(*x)); break;
  case 26: cb.rinsert(it, std::move(*x)); break;
  case 27: cb.erase(it); break;
  case 28: cb.rerase(it); break;
  case 29: cb.erase(it, cb.end()); break;
  case 30: cb.rerase(cb.begin(), it); break;
  case 31: if constexpr (COPYABLE) { int how = (int)vp_concretize(vp_range("how", 0, 5)); const T *a = x, *b = x + 1;
    if (how == 0) cb.insert(it, (size_t)2, *x); else if (how == 1) cb.rinsert(it, (size_t)2, *x); else if (how == 2) cb.insert(it, a, b); else if (how == 3) cb.rinsert(it, a, b); else if (how == 4) cb.insert(it, *x); else cb.rinsert(it, *x); break; } else vp_stop();
  case 32: cb.rotate(cit); break;
  case 33: acc = (uint64_t)&*CB::reverse_iterator(it); break;
  }
  vp_observe(acc);
  vp_fail("use of an invalid iterator was not reported");
}
#endif

struct H {
  CB &cb; Seq m, pre; bool threw; Info info; bool reallocs;
  uint32_t live0; T *addr[MAXM]; int blocks0; size_t min0, nm = ~(size_t)0; // nm: documented new minimum (~0: unchanged)
  explicit H(CB &c) : cb(c), threw(false) {}

  static uint32_t newval() { return vp_any32("v"); }
  void observe_pre() {
    m.n = cb.size(); m.cap = cb.capacity();
    for (size_t i = 0; i < m.n; ++i) m.v[i] = valOf(cb[i]);
    pre = m;
    for (int i = 0; i < MAXM; ++i) info.surv[i] = info.inv[i] = -1;
    info.may_alloc = false; info.strong = false; info.nothrow = false; info.max_ops = info.max_dtor = 1000; info.nocopy = false; info.cap_change = false; reallocs = false;
    if (m.n == m.cap) vp_reach("full"); else vp_reach("not full");
    if (m.n == 0) vp_reach("empty");
    if (cb.array_two().second) vp_reach("wrapped");
  }
  void all_survive(long shift) { for (size_t i = 0; i < pre.n; ++i) { long j = (long)i + shift; info.surv[i] = j >= 0 ? (int)j : -1; } }
  void inv_nothing() { for (int i = 0; i < MAXM; ++i) info.inv[i] = 0; }
  size_t pos(size_t hi) { return pick("pos", 0, hi); }
  It it(size_t p) { return cb.begin() + p; }

  template <class F> void call(F f) {
    g_reset_counts(); vpg_g.ops = 0; vpg_g.thrown = 0;
    live0 = vpg_g.live - (uint32_t)pre.n; blocks0 = n_blocks();
#if VP_CLASS == 1
    min0 = cb.capacity().min_capacity();
#endif
    if (VP_MODE & (MC_STABLE | MC_STRONG)) for (size_t i = 0; i < pre.n; ++i) addr[i] = &cb[i];
    if (VP_MODE & MC_STABLE) { call_stable(f); }
    else if (VP_MODE & MC_INVAL) { call_inval(f); }
    else if (VP_MODE & (MC_THROW | MC_STRONG)) {
      vpg_g.throw_at = (uint32_t)vp_range("throw_at", 0, 1000); vpg_g.fail_alloc = 1; vpg_g.armed = 1;
      try { f(); } catch (Boom &) { threw = true; }
      vpg_g.armed = 0;
    } else if ((VP_MODE & MC_NOTHROW) && info.nothrow) {
      vpg_g.throw_at = 0; vpg_g.fail_alloc = 1; vpg_g.armed = 1;
      f();
      vpg_g.armed = 0; vp_reach("nothrow op");
    } else f();
    after();
  }
  template <class F> void call_stable(F f) {
    It its[CAPMAX + 1]; CB::const_iterator cits[CAPMAX + 1];
    for (size_t i = 0; i < pre.n; ++i) { its[i] = cb.begin() + i; cits[i] = its[i]; }
    It e = cb.end();
    f();
    vp_check(e == cb.end(), "an iterator equal to end() no longer equals end()");
    for (size_t i = 0; i < pre.n; ++i) if (info.surv[i] >= 0) {
      size_t j = info.surv[i];
      vp_reach("survivor");
      vp_check(j < cb.size(), "surviving element is outside the sequence");
      vp_check(&cb[j] == addr[i], "reference to a surviving element no longer designates it");
      vp_check(valOf(*addr[i]) == pre.v[i], "surviving element changed its value");
      vp_check(&*its[i] == addr[i], "iterator to a surviving element no longer designates it");
      vp_check(its[i] == cb.begin() + j, "iterator to a surviving element has the wrong position");
      vp_check(cits[i] - cb.begin() == (ptrdiff_t)j, "const_iterator to a surviving element has the wrong position");
    }
  }
  // debug support: every use of an iterator documented as invalidated must be reported, before any element is touched
  template <class F> void call_inval(F f) {
#if VP_DEBUG
    It its[CAPMAX + 1]; CB::const_iterator cits[CAPMAX + 1];
    bool rev = vp_range("order", 0, 1); // registration order
    for (size_t j = 0; j < pre.n; ++j) { size_t i = rev ? pre.n - 1 - j : j; its[i] = cb.begin() + i; cits[i] = its[i]; }
    It e = cb.end();
    f();
    vp_check(e == cb.end(), "an iterator equal to end() no longer equals end()");
    for (size_t i = 0; i < pre.n; ++i) if (info.surv[i] >= 0) vp_check(its[i] == cits[i] && its[i] == cb.begin() + info.surv[i], "surviving iterator");
    if (!pre.n) vp_stop();
    size_t i = pick("victim", 0, pre.n - 1);
    if (!(info.inv[i] == 1 || (info.inv[i] == -1 && info.surv[i] < 0))) vp_stop();
    vp_reach("invalidated");
    misuse(cb, its[i], cits[i]);
#endif
  }
  void census(const char *w1, const char *w2) {
    vp_check(vpg_g.live - live0 == cb.size(), w1);
    if (!IsEl<T>::value) return;
    size_t n = cb.size();
    if (!n) return;
    VpBlk *b = g_find((const void *)&cb[0]);
    if (!b) vp_fail("an element of the sequence lies outside the buffer's storage");
    for (size_t i = 0; i < n; ++i) {
      T *p = &cb[i];
      vp_check(g_find(p) == b, "an element of the sequence lies outside the buffer's storage");
      alive(*p, w2);
      for (size_t j = 0; j < i; ++j) vp_check(&cb[j] != p, "two positions of the sequence share one element");
    }
  }
  template <class U> static void alive(const U &u, const char *w) { if constexpr (IsEl<U>::value) { uint32_t g = u.magic; vp_check((g == LIVE) | (g == MOVED), w); } }
  void rep_check() {
    std::pair<T *, size_t> a(rawp(cb.array_one().first), cb.array_one().second), b(rawp(cb.array_two().first), cb.array_two().second);
    size_t n = cb.size();
    vp_check(a.second + b.second == n, "array_one and array_two together do not have size() elements");
    vp_check(n == 0 || a.second != 0, "array_one is empty although the buffer is not");
    for (size_t i = 0; i < a.second; ++i) vp_check(a.first + i == &cb[i], "array_one does not hold the first elements");
    for (size_t i = 0; i < b.second; ++i) vp_check(b.first + i == &cb[a.second + i], "array_two does not hold the remaining elements");
    const CB &c = cb;
    std::pair<const T *, size_t> ca(rawp(c.array_one().first), c.array_one().second), cb2(rawp(c.array_two().first), c.array_two().second);
    vp_check((ca.first == a.first) & (ca.second == a.second) & (cb2.first == b.first) & (cb2.second == b.second), "const array ranges differ");
    bool lin = true; for (size_t i = 1; i < n; ++i) if (&cb[i] != &cb[i - 1] + 1) lin = false;
    if (n) vp_check(cb.is_linearized() == lin, "is_linearized() does not tell whether the elements are contiguous");
    if (n) vp_check((&cb.front() == &cb[0]) & (&cb.back() == &cb[n - 1]), "front()/back()");
  }
  void fill_check() { // debug support: storage that holds no element is filled with 0xcc
    size_t n = cb.size();
    for (int b = 0; b < NBLK; ++b) if (vpg_blk[b].p && vpg_blk[b].es == sizeof(T)) for (size_t k = 0; k < vpg_blk[b].n; ++k) {
      T *p = (T *)vpg_blk[b].p + k; bool used = false;
      for (size_t i = 0; i < n; ++i) used |= &cb[i] == p;
      if (used) continue;
      vp_reach("free slot");
      for (size_t j = 0; j < sizeof(T); ++j) vp_check(((unsigned char *)p)[j] == 0xcc, "storage without an element is not filled with 0xcc");
    }
  }
  size_t block_elems() { size_t n = 0; for (int i = 0; i < NBLK; ++i) if (vpg_blk[i].p && vpg_blk[i].es == sizeof(T) && vpg_blk[i].id == 7) n = vpg_blk[i].n; return n; }
  void after() {
    if (threw) vp_reach("threw");
    if (VP_MODE & MC_CENSUS) census("number of live elements differs from size()", "an element of the sequence is not alive");
    if ((VP_MODE & MC_THROW) && threw) {
      vp_check(cb.size() <= cb.capacity(), "size() exceeds capacity() after an exception");
      census("elements leaked or lost by an exception", "after an exception the sequence contains a slot without a live element");
      if (!info.cap_change) vp_check(cb.capacity() == pre.cap, "capacity changed by a failed operation");
      vp_check(n_blocks() <= 1, "storage leaked by an exception");
    }
    if ((VP_MODE & MC_STRONG) && threw && info.strong) {
      vp_reach("strong");
      vp_check((cb.size() == pre.n) & (cb.capacity() == pre.cap), "size or capacity changed by a failed operation");
#if VP_CLASS == 1
      vp_check(cb.capacity().min_capacity() == min0, "min_capacity changed by a failed operation");
#endif
      for (size_t i = 0; i < pre.n; ++i) { vp_check(&cb[i] == addr[i], "storage or layout changed by a failed operation"); vp_check(valOf(cb[i]) == pre.v[i], "element changed by a failed operation"); }
      census("elements leaked or lost by a failed operation", "an element died in a failed operation");
      vp_check(n_blocks() == blocks0, "storage leaked by a failed operation");
    }
    if ((VP_MODE & MC_ALLOCS) && !SO) {
      if (!info.may_alloc) vp_check((vpg_g.allocs == 0) & (vpg_g.deallocs == 0), "operation requested or released storage although documented not to");
      vp_check(n_blocks() == (cb.capacity() ? 1 : 0), "number of storage blocks held");
      if (cb.capacity()) vp_check(block_elems() == cb.capacity(), "the storage held does not match capacity()");
    }
    if (VP_MODE & MC_COUNT) {
      uint32_t ops = vpg_g.dctor + vpg_g.vctor + vpg_g.cctor + vpg_g.mctor + vpg_g.cassign + vpg_g.massign;
      vp_check(ops <= info.max_ops, "more element constructions/assignments than documented");
      vp_check(vpg_g.dtor <= info.max_dtor, "more element destructions than documented");
      if (info.max_ops < 1000) vp_reach("counted");
    }
    if ((VP_MODE & MC_FROM) && info.nocopy) {
      vp_reach("moved");
      if (std::is_nothrow_move_constructible<T>::value) vp_check(vpg_g.st_copied == 0, "an existing element was copied although its move cannot throw");
      else vp_check(vpg_g.st_moved == 0, "an existing element was moved although its move may throw");
    }
#if VP_CLASS == 1
    if (!threw && (VP_MODE & (MC_MEM | MC_CONTENT))) vp_check(cb.capacity().min_capacity() == (nm == ~(size_t)0 ? min0 : nm), "wrong min_capacity after the operation");
    if (VP_MODE & MC_MEM) {
      size_t b = block_elems();
      vp_check((b >= cb.size()) & (b <= cb.capacity().capacity()) & (b >= cb.capacity().min_capacity()), "allocated amount outside [max(size, min_capacity), capacity]");
      vp_check(cb.reserve() == cb.capacity() - cb.size(), "reserve()"); vp_check(cb.full() == (cb.size() == cb.capacity()), "full()");
    }
#endif
  }
  // a returned iterator must designate position idx (idx == size: end())
  void ret(const It &r, size_t idx) {
    if (threw || !(VP_MODE & MC_CONTENT)) return;
    vp_check(idx <= cb.size(), "model index");
    if (idx == cb.size()) vp_check(r == cb.end(), "returned iterator should be end()");
    else { vp_check(r != cb.end(), "returned iterator should not be end()"); vp_check(&*r == &cb[idx], "returned iterator designates the wrong element"); }
  }
  void content() {
    if (threw) return;
    vp_check(cb.size() == m.n, "wrong size()");
    vp_check(cb.capacity() == m.cap, "wrong capacity()");
    for (size_t i = 0; i < m.n; ++i) { uint32_t x = valOf(cb[i]); vp_check(x == m.v[i], "wrong element value or order"); vp_observe(x); }
    vp_observe(m.n); vp_observe(m.cap);
  }
  void done() {
    if (!threw) vp_reach("done");
    if (VP_MODE & MC_CONTENT) content();
    if (VP_MODE & MC_REP) { content(); rep_check(); }
    if (!threw && (VP_MODE & (MC_CONTENT | MC_REP | MC_CENSUS))) follow();
    if (VP_MODE & MC_FILL) fill_check();
    if ((VP_MODE & (MC_THROW | MC_STRONG)) && threw) aftermath();
  }
  // the operation leaves a buffer that iterates properly and works on at both ends
  void follow() {
    size_t k = 0; It i = cb.begin(), e = cb.end();
    for (; k < m.n; ++k, ++i) { vp_check(i != e, "iteration stops early after the operation"); vp_check(&*i == &cb[k], "iteration after the operation"); }
    vp_check(i == e, "iteration does not stop after the last element");
    for (; k > 0; --k) { --i; vp_check(&*i == &cb[k - 1], "backward iteration after the operation"); }
    if (!m.cap) return;
    { T x(0x51); if constexpr (COPYABLE) cb.push_back(x); else cb.push_back(std::move(x)); }
    m.push_back(0x51); content();
    { T x(0x52); if constexpr (COPYABLE) cb.push_front(x); else cb.push_front(std::move(x)); }
    m.push_front(0x52); content();
    if (VP_MODE & MC_CENSUS) census("live elements after further pushes", "dead element after further pushes");
    if (VP_MODE & MC_REP) rep_check();
  }
  // the buffer must stay usable after an exception
  void aftermath() {
    size_t n = cb.size();
    vp_observe(n);
    if (n) { cb.pop_front(); vp_check(cb.size() == n - 1, "pop after an exception"); n--; }
    size_t c = cb.capacity();
    if (c) { for (size_t i = n; i <= c; ++i) { if constexpr (COPYABLE) { T x(77); cb.push_back(x); } else cb.push_back(T(77)); }
      vp_check(cb.size() == c && cb.full(), "filling up after an exception");
      for (size_t i = n ? n - 1 : 0; i < c; ++i) vp_check(valOf(cb[i]) == 77, "filling up after an exception"); n = c; }
    census("live elements after reuse", "dead element after reuse");
    cb.clear();
    vp_check(cb.empty(), "clear after an exception");
    census("live elements after clear", "dead element after clear");
  }
};

static inline bool is_rv(int) { return true; }
#define OP(name) struct op_##name { template <class HH> static void go(HH &h); }; template <class HH> inline void op_##name::go(HH &h)
#define NEEDCOPY if constexpr (!COPYABLE) { vp_stop(); } else
#define NEEDCLASS if (std::is_scalar<T>::value) vp_stop(); // the value of a default-initialised scalar is indeterminate
#define CB_ h.cb
#define REALLOC_SO if (SO) { h.info.may_alloc = true; h.info.cap_change = false; }

// ---------------------------------------------------------------- C01
static inline void info_push_back(H &h) {
  bool full = h.pre.n == h.pre.cap;
  if (h.pre.cap) h.all_survive(full ? -1 : 0); else h.all_survive(0);
  h.info.strong = !full && !SO; h.info.max_ops = h.pre.cap ? 1 : 0; h.info.max_dtor = 0; h.info.nocopy = true;
}
static inline void info_push_front(H &h) {
  bool full = h.pre.n == h.pre.cap;
  if (h.pre.cap) { h.all_survive(1); if (full) h.info.surv[h.pre.n - 1] = -1; }
  h.info.strong = !full && !SO; h.info.max_ops = h.pre.cap ? 1 : 0; h.info.max_dtor = 0; h.info.nocopy = true;
}
OP(push_back_c) { NEEDCOPY { T x(h.newval()); info_push_back(h); h.m.push_back(valOf(x)); h.call([&] { CB_.push_back(x); }); h.done(); } }
OP(push_back_r) { T x(h.newval()); uint32_t v = valOf(x); info_push_back(h); h.m.push_back(v); h.call([&] { CB_.push_back(std::move(x)); }); h.done(); }
OP(push_back_d) { NEEDCLASS info_push_back(h); h.info.max_ops++; h.info.max_dtor++; h.m.push_back(0); h.call([&] { CB_.push_back(); }); h.done(); }
OP(push_front_c) { NEEDCOPY { T x(h.newval()); info_push_front(h); h.m.push_front(valOf(x)); h.call([&] { CB_.push_front(x); }); h.done(); } }
OP(push_front_r) { T x(h.newval()); uint32_t v = valOf(x); info_push_front(h); h.m.push_front(v); h.call([&] { CB_.push_front(std::move(x)); }); h.done(); }
OP(push_front_d) { NEEDCLASS info_push_front(h); h.info.max_ops++; h.info.max_dtor++; h.m.push_front(0); h.call([&] { CB_.push_front(); }); h.done(); }
OP(pop_back) { vp_assume(h.pre.n > 0); h.all_survive(0); h.info.surv[h.pre.n - 1] = -1; h.info.nothrow = !SO; h.info.max_ops = 0; h.info.max_dtor = 1; h.info.nocopy = true; h.m.n--; h.call([&] { CB_.pop_back(); }); h.done(); }
OP(pop_front) { vp_assume(h.pre.n > 0); h.all_survive(-1); h.info.nothrow = !SO; h.info.max_ops = 0; h.info.max_dtor = 1; h.info.nocopy = true; h.m.raw_erase(0, 1); h.call([&] { CB_.pop_front(); }); h.done(); }

// ---------------------------------------------------------------- C02
static inline void info_insert(H &h, size_t p) {
  bool full = h.pre.n == h.pre.cap;
  for (size_t i = full ? 1 : 0; i < p; ++i) h.info.surv[i] = (int)(i - (full ? 1 : 0));
  h.info.max_ops = h.pre.n - p + 1; h.info.max_dtor = 0; h.info.nocopy = true; h.info.strong = false;
}
static inline void info_rinsert(H &h, size_t p) {
  bool full = h.pre.n == h.pre.cap;
  for (size_t i = p; i < h.pre.n - (full && h.pre.n ? 1 : 0); ++i) h.info.surv[i] = (int)(i + 1);
  h.info.max_ops = p + 1; h.info.max_dtor = 0; h.info.nocopy = true;
}
template <class F> static inline void do_insert(H &h, uint32_t v, bool dflt, F f) {
  size_t p = h.pos(h.pre.n); bool full = h.pre.n == h.pre.cap; bool none = full && p == 0;
  info_insert(h, p); if (dflt) { h.info.max_ops++; h.info.max_dtor++; }
  if (none) { h.info.max_ops = dflt; h.inv_nothing(); for (int i = 0; i < MAXM; ++i) h.info.surv[i] = -1; } 
  size_t idx = none ? 0 : full ? p - 1 : p;
  if (!none) { h.m.raw_insert(p, v); if (full) h.m.raw_erase(0, 1); }
  It r;
  h.call([&] { r = f(h.it(p)); });
  h.ret(r, idx);
  vp_reach(none ? "nothing inserted" : "inserted");
  h.done();
}
template <class F> static inline void do_rinsert(H &h, uint32_t v, bool dflt, F f) {
  size_t p = h.pos(h.pre.n); bool full = h.pre.n == h.pre.cap; bool none = full && p == h.pre.n;
  info_rinsert(h, p); if (dflt) { h.info.max_ops++; h.info.max_dtor++; }
  if (none) { h.info.max_ops = dflt; h.inv_nothing(); for (int i = 0; i < MAXM; ++i) h.info.surv[i] = -1; }
  if (!none) { h.m.raw_insert(p, v); if (full) h.m.n--; }
  It r;
  h.call([&] { r = f(h.it(p)); });
  h.ret(r, none ? h.m.n : p);
  vp_reach(none ? "nothing inserted" : "inserted");
  h.done();
}
OP(insert_c) { NEEDCOPY { T x(h.newval()); do_insert(h, valOf(x), false, [&](It i) { return CB_.insert(i, x); }); } }
OP(insert_r) { T x(h.newval()); do_insert(h, valOf(x), false, [&](It i) { return CB_.insert(i, std::move(x)); }); }
OP(insert_d) { NEEDCLASS do_insert(h, 0, true, [&](It i) { return CB_.insert(i); }); }
OP(rinsert_c) { NEEDCOPY { T x(h.newval()); do_rinsert(h, valOf(x), false, [&](It i) { return CB_.rinsert(i, x); }); } }
OP(rinsert_r) { T x(h.newval()); do_rinsert(h, valOf(x), false, [&](It i) { return CB_.rinsert(i, std::move(x)); }); }
OP(rinsert_d) { NEEDCLASS do_rinsert(h, 0, true, [&](It i) { return CB_.rinsert(i); }); }

// ---------------------------------------------------------------- C03
static inline void info_insert_n(H &h, size_t p, size_t ins) {
  size_t reserve = h.pre.cap - h.pre.n, over = ins > reserve ? ins - reserve : 0;
  if (!ins) h.inv_nothing();
  if (ins) for (size_t i = over; i < p; ++i) h.info.surv[i] = (int)(i - over);
  h.info.max_ops = ins ? h.pre.n - p + ins : 0; h.info.max_dtor = 0;
}
static inline void info_rinsert_n(H &h, size_t p, size_t ins) {
  size_t reserve = h.pre.cap - h.pre.n, over = ins > reserve ? ins - reserve : 0;
  if (!ins) h.inv_nothing();
  if (ins) for (size_t i = p; i + over < h.pre.n; ++i) h.info.surv[i] = (int)(i + ins);
  h.info.max_ops = ins ? p + ins : 0; h.info.max_dtor = 0;
}
// any 64-bit count; concretised only up to the number of items that can fit
static inline size_t any_count(size_t room) { uint64_t k = vp_any64("k"); if (k > room) { vp_reach("count beyond room"); return k; } return spread(k, 0, room); }
OP(insert_n) { NEEDCOPY {
  T x(h.newval()); size_t p = h.pos(h.pre.n), room = p + (h.pre.cap - h.pre.n); size_t k = any_count(room), ins = k > room ? room : k;
  uint32_t a[MAXM]; for (size_t i = 0; i < ins; ++i) a[i] = valOf(x);
  info_insert_n(h, p, ins); h.m.insert(p, a, ins);
  h.call([&] { CB_.insert(h.it(p), (size_t)k, x); }); h.done(); } }
OP(rinsert_n) { NEEDCOPY {
  T x(h.newval()); size_t p = h.pos(h.pre.n), room = (h.pre.n - p) + (h.pre.cap - h.pre.n); size_t k = any_count(room), ins = k > room ? room : k;
  uint32_t a[MAXM]; for (size_t i = 0; i < ins; ++i) a[i] = valOf(x);
  info_rinsert_n(h, p, ins); h.m.rinsert(p, a, ins);
  h.call([&] { CB_.rinsert(h.it(p), (size_t)k, x); }); h.done(); } }
OP(insert_ii) { if constexpr (std::is_integral<T>::value) { // (int, int) arguments are a count and a value, not a range
  size_t p = h.pos(h.pre.n), room = p + (h.pre.cap - h.pre.n); int k = (int)pick("k", 0, LMAX); int xi = (int)(h.newval() & 0xff);
  uint32_t a[MAXM]; for (int i = 0; i < k; ++i) a[i] = valOf(T(xi));
  info_insert_n(h, p, (size_t)k < room ? k : room); h.info.max_ops = 1000; h.m.insert(p, a, k); h.call([&] { CB_.insert(h.it(p), k, xi); }); h.done(); } else vp_stop(); }
OP(rinsert_ii) { if constexpr (std::is_integral<T>::value) {
  size_t p = h.pos(h.pre.n); int k = (int)pick("k", 0, LMAX); int xi = (int)(h.newval() & 0xff);
  uint32_t a[MAXM]; for (int i = 0; i < k; ++i) a[i] = valOf(T(xi));
  size_t room = (h.pre.n - p) + (h.pre.cap - h.pre.n); info_rinsert_n(h, p, (size_t)k < room ? k : room); h.info.max_ops = 1000; h.m.rinsert(p, a, k); h.call([&] { CB_.rinsert(h.it(p), k, xi); }); h.done(); } else vp_stop(); }
struct Items { T *a; uint32_t v[LMAX]; size_t n; alignas(T) char raw[sizeof(T) * LMAX];
  Items() : a((T *)raw), n(pick("len", 0, LMAX)) { for (size_t i = 0; i < n; ++i) { v[i] = H::newval(); new (a + i) T(v[i]); } }
  ~Items() { for (size_t i = 0; i < n; ++i) a[i].~T(); } };
template <class F> static inline void do_insert_range(H &h, Items &s, F f) {
  size_t p = h.pos(h.pre.n), room = p + (h.pre.cap - h.pre.n), ins = s.n > room ? room : s.n;
  info_insert_n(h, p, ins); h.m.insert(p, s.v, s.n); if (s.n > room) vp_reach("range longer than room");
  h.call([&] { f(h.it(p)); }); h.done();
}
template <class F> static inline void do_rinsert_range(H &h, Items &s, F f) {
  size_t p = h.pos(h.pre.n), room = (h.pre.n - p) + (h.pre.cap - h.pre.n), ins = s.n > room ? room : s.n;
  info_rinsert_n(h, p, ins); h.m.rinsert(p, s.v, s.n); if (s.n > room) vp_reach("range longer than room");
  h.call([&] { f(h.it(p)); }); h.done();
}
OP(insert_ra) { NEEDCOPY { Items s; do_insert_range(h, s, [&](It i) { CB_.insert(i, (const T *)s.a, (const T *)s.a + s.n); }); } }
OP(insert_fw) { NEEDCOPY { Items s; do_insert_range(h, s, [&](It i) { CB_.insert(i, FwIt<T>(s.a), FwIt<T>(s.a + s.n)); }); } }
OP(insert_in) { NEEDCOPY { Items s; Src<T> src = {s.a, 0, s.n}; InIt<T> b = {&src}, e = {0}; 
  size_t rp = h.pre.n; (void)rp;
  do_insert_range(h, s, [&](It i) { CB_.insert(i, b, e); }); } }
OP(rinsert_ra) { NEEDCOPY { Items s; do_rinsert_range(h, s, [&](It i) { CB_.rinsert(i, (const T *)s.a, (const T *)s.a + s.n); }); } }
OP(rinsert_fw) { NEEDCOPY { Items s; do_rinsert_range(h, s, [&](It i) { CB_.rinsert(i, FwIt<T>(s.a), FwIt<T>(s.a + s.n)); }); } }
OP(rinsert_in) { NEEDCOPY { Items s; Src<T> src = {s.a, 0, s.n}; InIt<T> b = {&src}, e = {0}; do_rinsert_range(h, s, [&](It i) { CB_.rinsert(i, b, e); }); } }

// ---------------------------------------------------------------- C04
OP(erase1) { vp_assume(h.pre.n > 0); size_t p = h.pos(h.pre.n - 1); for (size_t i = 0; i < p; ++i) h.info.surv[i] = (int)i;
  h.info.max_ops = h.pre.n - p - 1; h.info.max_dtor = 1; h.info.nocopy = true; h.m.raw_erase(p, 1); It r; h.call([&] { r = CB_.erase(h.it(p)); }); h.ret(r, p); h.done(); }
OP(erase_range) { size_t a = h.pos(h.pre.n), b = pick("to", a, h.pre.n); for (size_t i = 0; i < a; ++i) h.info.surv[i] = (int)i;
  if (a == b) h.all_survive(0);
  h.info.max_ops = a == b ? 0 : h.pre.n - b; h.info.max_dtor = b - a; h.info.nocopy = true; h.m.raw_erase(a, b - a); It r; h.call([&] { r = CB_.erase(h.it(a), h.it(b)); }); h.ret(r, a); h.done(); }
OP(rerase1) { vp_assume(h.pre.n > 0); size_t p = h.pos(h.pre.n - 1); for (size_t i = p + 1; i < h.pre.n; ++i) h.info.surv[i] = (int)(i - 1);
  h.info.max_ops = p; h.info.max_dtor = 1; h.info.nocopy = true; h.m.raw_erase(p, 1); It r; h.call([&] { r = CB_.rerase(h.it(p)); }); h.ret(r, p ? p - 1 : 0); h.done(); }
OP(rerase_range) { size_t a = h.pos(h.pre.n), b = pick("to", a, h.pre.n); for (size_t i = b; i < h.pre.n; ++i) h.info.surv[i] = (int)(i - (b - a));
  if (a == b) h.all_survive(0);
  h.info.max_ops = a == b ? 0 : a; h.info.max_dtor = b - a; h.info.nocopy = true; h.m.raw_erase(a, b - a); It r; h.call([&] { r = CB_.rerase(h.it(a), h.it(b)); });
  if (a != b) h.ret(r, a ? a - 1 : 0); else if (!SO) h.ret(r, a); h.done(); }
#if VP_CLASS == 0
OP(erase_begin) { size_t k = h.pos(h.pre.n); h.all_survive(-(long)k); h.info.max_ops = 0; h.info.max_dtor = k; h.info.nocopy = true; h.m.raw_erase(0, k); h.call([&] { CB_.erase_begin(k); }); h.done(); }
OP(erase_end) { size_t k = h.pos(h.pre.n); for (size_t i = 0; i < h.pre.n - k; ++i) h.info.surv[i] = (int)i; h.info.max_ops = 0; h.info.max_dtor = k; h.info.nocopy = true; h.m.n -= k; h.call([&] { CB_.erase_end(k); }); h.done(); }
#endif
OP(clear) { h.info.max_ops = 0; h.info.max_dtor = h.pre.n; h.info.nothrow = !SO; h.info.nocopy = true; h.m.n = 0; h.call([&] { CB_.clear(); }); h.done(); }

// ---------------------------------------------------------------- C06, C07
OP(linearize) { bool lin = true; for (size_t i = 1; i < h.pre.n; ++i) if (&CB_[i] != &CB_[i - 1] + 1) lin = false;
  if (lin) { h.all_survive(0); h.info.max_ops = h.info.max_dtor = 0; h.info.nothrow = true; vp_reach("already linear"); } else { h.info.max_ops = 4 * h.pre.n; h.info.max_dtor = 2 * h.pre.n; vp_reach("not linear"); }
  h.info.nocopy = true; T *r = 0; h.call([&] { r = rawp(CB_.linearize()); });
  if (!h.threw && (VP_MODE & (MC_CONTENT | MC_REP))) {
    if (!h.pre.n) vp_check(r == 0, "linearize() of an empty buffer should return null");
    else { vp_check(r == &CB_[0], "linearize() does not return the first element"); for (size_t i = 1; i < h.pre.n; ++i) vp_check(&CB_[i] == r + i, "elements are not contiguous after linearize()"); vp_check(CB_.is_linearized(), "is_linearized() is false after linearize()"); }
  }
  h.done(); }
OP(rotate) { vp_assume(h.pre.n > 0); size_t p = h.pos(h.pre.n - 1); bool full = h.pre.n == h.pre.cap && (!SO);
  if (full) { for (size_t i = 0; i < h.pre.n; ++i) h.info.surv[i] = (int)((i + h.pre.n - p) % h.pre.n); h.info.max_ops = h.info.max_dtor = 0; h.info.nothrow = true; }
  else if (p == 0) { h.info.max_ops = h.info.max_dtor = 0; h.all_survive(0); }
  else { size_t m = h.pre.n - p; h.info.max_ops = h.info.max_dtor = (p < m ? p : m); for (size_t i = 0; i < h.pre.n; ++i) { bool moved = m < p ? i >= p : i < p; h.info.inv[i] = moved; if (!moved) h.info.surv[i] = m < p ? i + m : i - p; } }
  h.info.nocopy = true;
  for (size_t i = 0; i < h.pre.n; ++i) h.m.v[i] = h.pre.v[(i + p) % h.pre.n];
  h.call([&] { CB_.rotate(h.it(p)); }); h.done(); }

// ---------------------------------------------------------------- C08
#if VP_CLASS == 0
#define CAPARG(c) (c)
static inline size_t pick_min(size_t) { return 0; }
#else
#define CAPARG(c) (h.nm = mn, Ctl((c), mn))
static inline size_t pick_min(size_t c) { return pick("newmin", 0, c); }
#endif
OP(set_capacity) { size_t c = pick("newcap", 0, CAPMAX + 1); size_t mn = pick_min(c); (void)mn;
  size_t keep = h.pre.n < c ? h.pre.n : c; h.m.n = keep; h.m.cap = c; h.info.may_alloc = c != h.pre.cap; h.info.strong = true; h.info.cap_change = SO;
  h.info.max_ops = c == h.pre.cap ? 0 : keep; h.info.max_dtor = c == h.pre.cap ? 0 : h.pre.n; h.info.nocopy = true; if (c == h.pre.cap) h.all_survive(0);
  if (c < h.pre.n) vp_reach("shrunk below size");
  h.call([&] { CB_.set_capacity(CAPARG(c)); }); h.done(); }
OP(rset_capacity) { size_t c = pick("newcap", 0, CAPMAX + 1); size_t mn = pick_min(c); (void)mn;
  size_t keep = h.pre.n < c ? h.pre.n : c; h.m.raw_erase(0, h.pre.n - keep); h.m.cap = c; h.info.may_alloc = c != h.pre.cap; h.info.strong = true; h.info.cap_change = SO;
  h.info.max_ops = c == h.pre.cap ? 0 : keep; h.info.max_dtor = c == h.pre.cap ? 0 : h.pre.n; h.info.nocopy = true; if (c == h.pre.cap) h.all_survive(0);
  if (c < h.pre.n) vp_reach("shrunk below size");
  h.call([&] { CB_.rset_capacity(CAPARG(c)); }); h.done(); }
OP(resize) { NEEDCOPY { size_t c = pick("newsize", 0, CAPMAX + 1); T x(h.newval());
  if (c > h.pre.cap) { h.m.cap = c; h.info.may_alloc = true; vp_reach("grown"); } for (size_t i = h.pre.n; i < c; ++i) h.m.v[i] = valOf(x); h.m.n = c; if (c <= h.pre.cap) for (size_t i = 0; i < h.pre.n && i < c; ++i) h.info.surv[i] = i; h.info.cap_change = c > h.pre.cap; h.info.nocopy = true;
  h.call([&] { CB_.resize(c, x); }); h.done(); } }
OP(rresize) { NEEDCOPY { size_t c = pick("newsize", 0, CAPMAX + 1); T x(h.newval());
  if (c > h.pre.cap) { h.m.cap = c; h.info.may_alloc = true; vp_reach("grown"); }
  if (c <= h.pre.cap) for (size_t i = 0; i < h.pre.n; ++i) h.info.surv[i] = i + c < h.pre.n ? -1 : (int)(i + c - h.pre.n);
  if (c < h.pre.n) h.m.raw_erase(0, h.pre.n - c); else { uint32_t a[MAXM]; size_t k = c - h.m.n; for (size_t i = 0; i < k; ++i) a[i] = valOf(x); h.m.put(0, a, k); }
  h.info.cap_change = c > h.pre.cap; h.info.nocopy = true;
  h.call([&] { CB_.rresize(c, x); }); h.done(); } }

// ---------------------------------------------------------------- C09 (assignment)
OP(assign_n) { NEEDCOPY { size_t k = pick("k", 0, CAPMAX + 1); T x(h.newval()); h.m.n = h.m.cap = k; for (size_t i = 0; i < k; ++i) h.m.v[i] = valOf(x);
  h.nm = 0; h.info.may_alloc = k != h.pre.cap; h.info.cap_change = true; h.call([&] { CB_.assign(k, x); }); h.done(); } }
OP(assign_cap_n) { NEEDCOPY { size_t c = pick("newcap", 0, CAPMAX + 1), k = pick("k", 0, c); size_t mn = pick_min(c); (void)mn; T x(h.newval()); h.m.n = k; h.m.cap = c; for (size_t i = 0; i < k; ++i) h.m.v[i] = valOf(x);
  h.info.may_alloc = c != h.pre.cap; h.info.cap_change = true; h.call([&] { CB_.assign(CAPARG(c), k, x); }); h.done(); } }
OP(assign_ii) { if constexpr (std::is_integral<T>::value) { int k = (int)pick("k", 0, CAPMAX + 1); int xi = (int)(h.newval() & 0xff); h.m.n = h.m.cap = k; for (int i = 0; i < k; ++i) h.m.v[i] = valOf(T(xi));
  h.nm = 0; h.info.may_alloc = true; h.info.cap_change = true; h.call([&] { CB_.assign(k, xi); }); h.done(); } else vp_stop(); }
OP(assign_cap_ii) { if constexpr (std::is_integral<T>::value) { size_t c = pick("newcap", 0, CAPMAX + 1); int k = (int)pick("k", 0, c); size_t mn = pick_min(c); (void)mn; int xi = (int)(h.newval() & 0xff); h.m.n = k; h.m.cap = c; for (int i = 0; i < k; ++i) h.m.v[i] = valOf(T(xi));
  h.info.may_alloc = c != h.pre.cap; h.info.cap_change = true; h.call([&] { CB_.assign(CAPARG(c), k, xi); }); h.done(); } else vp_stop(); }
template <class F> static inline void do_assign(H &h, Items &s, bool input, F f) { h.nm = 0; h.m.n = h.m.cap = s.n; for (size_t i = 0; i < s.n; ++i) h.m.v[i] = s.v[i]; h.info.may_alloc = input || s.n != h.pre.cap; h.info.cap_change = true; h.call(f); h.done(); }
template <class F> static inline void do_assign_cap(H &h, Items &s, size_t c, F f) { size_t k = s.n < c ? s.n : c; h.m.n = k; h.m.cap = c; for (size_t i = 0; i < k; ++i) h.m.v[i] = s.v[s.n - k + i]; if (s.n > c) vp_reach("range longer than capacity"); h.info.may_alloc = c != h.pre.cap; h.info.cap_change = true; h.call(f); h.done(); }
OP(assign_ra) { NEEDCOPY { Items s; do_assign(h, s, false, [&] { CB_.assign((const T *)s.a, (const T *)s.a + s.n); }); } }
OP(assign_fw) { NEEDCOPY { Items s; do_assign(h, s, false, [&] { CB_.assign(FwIt<T>(s.a), FwIt<T>(s.a + s.n)); }); } }
OP(assign_in) { NEEDCOPY { Items s; Src<T> src = {s.a, 0, s.n}; InIt<T> b = {&src}, e = {0}; do_assign(h, s, true, [&] { CB_.assign(b, e); }); } }
OP(assign_cap_ra) { NEEDCOPY { size_t c = pick("newcap", 0, CAPMAX + 1), mn = pick_min(c); (void)mn; Items s; do_assign_cap(h, s, c, [&] { CB_.assign(CAPARG(c), (const T *)s.a, (const T *)s.a + s.n); }); } }
OP(assign_cap_fw) { NEEDCOPY { size_t c = pick("newcap", 0, CAPMAX + 1), mn = pick_min(c); (void)mn; Items s; do_assign_cap(h, s, c, [&] { CB_.assign(CAPARG(c), FwIt<T>(s.a), FwIt<T>(s.a + s.n)); }); } }
OP(assign_cap_in) { NEEDCOPY { size_t c = pick("newcap", 0, CAPMAX + 1), mn = pick_min(c); (void)mn; Items s; Src<T> src = {s.a, 0, s.n}; InIt<T> b = {&src}, e = {0}; do_assign_cap(h, s, c, [&] { CB_.assign(CAPARG(c), b, e); }); } }

// ---------------------------------------------------------------- state set-up and entries
template <class OPX> static inline void run_op() {
  vpg_g.armed = 0;
#if VP_CLASS == 0
  size_t cap = pick("cap", LARGE ? CAPMAX : 0, CAPMAX);
  {
    CB cb(cap, VA<T>(7));
    if constexpr (std::is_scalar<T>::value) {
      for (size_t i = 0; i < cap; ++i) cb.push_back(T(H::newval()));
      if (cap) { cb.rotate(cb.begin() + OFFV(vp_range("off", 0, cap - 1), cap - 1)); cb.erase_end(pick("drop", 0, cap)); }
    } else {
      size_t n = pick("size", 0, cap), f = cap ? pick("off", 0, cap - 1) : 0;
      for (size_t i = 0; i < f; ++i) cb.push_back(T(1));
      for (size_t i = 0; i < f; ++i) cb.pop_front();
      for (size_t i = 0; i < n; ++i) cb.push_back(T(H::newval()));
    }
#else
  // allocated amount I, layout and size first (min_capacity == capacity == I), then the capacity controller under test,
  // then up to two pushes so that amounts reached by growth are covered too.
  size_t I = pick("alloc", LARGE ? CAPMAX : 0, CAPMAX), cap = pick("cap", I, CAPMAX), mn = pick("min", 0, I);
  {
    CB cb(Ctl(I, I), VA<T>(7));
    size_t n = pick("size", 0, I), f = I ? pick("off", 0, I - 1) : 0;
    for (size_t i = 0; i < f; ++i) cb.push_back(T(1));
    for (size_t i = 0; i < f; ++i) cb.pop_front();
    for (size_t i = 0; i < n; ++i) cb.push_back(T(H::newval()));
    cb.set_capacity(Ctl(cap, mn));
    size_t extra = pick("extra", 0, EXTRAMAX);
    for (size_t i = 0; i < extra; ++i) cb.push_back(T(H::newval()));
#endif
    H h(cb);
    h.observe_pre();
    OPX::go(h);
  }
  if (VP_LIFE) vp_check(vpg_g.live == 0, "elements leaked");
  if (VP_ALLOC | VP_LIFE) check_no_blocks();
  if (!(VP_LIFE | VP_ALLOC)) vp_stop();
}
