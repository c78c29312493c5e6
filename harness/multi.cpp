// Constructors, copying, moving, swapping, comparing, reading, capacity limits, aliasing arguments.
#define VP_MAIN
#include "ops.hpp"
#ifndef CAP2
#define CAP2 CAPMAX // capacity bound of the second buffer
#endif

#ifndef MOVE_ID2
#define MOVE_ID2 9 // allocator of the second buffer
#endif

// An arbitrary buffer: any capacity (and, for the adaptor, allocated amount and minimum), start offset, size, values.
struct Built {
#if VP_CLASS == 0
  size_t cap; CB cb; Seq m;
  explicit Built(size_t capmax, uint32_t id = 7) : cap(pick("cap", 0, capmax)), cb(cap, VA<T>(id)) { fill(cap); }
#else
  size_t I, cap, mn; CB cb; Seq m;
  explicit Built(size_t capmax, uint32_t id = 7) : I(pick("alloc", 0, capmax)), cap(pick("cap", I, capmax)), mn(pick("min", 0, I)), cb(Ctl(I, I), VA<T>(id)) {
    fill(I); cb.set_capacity(Ctl(cap, mn)); m.cap = cap;
    size_t extra = pick("extra", 0, cap - m.n < EXTRAMAX ? cap - m.n : EXTRAMAX); // amounts reached by growth
    for (size_t i = 0; i < extra; ++i) { uint32_t v = H::newval(); cb.push_back(T(v)); m.v[m.n++] = valOf(T(v)); }
  }
#endif
  void fill(size_t c) {
    m.cap = c;
    #if VP_CLASS == 0
    if constexpr (std::is_scalar<T>::value) {
      for (size_t i = 0; i < c; ++i) { uint32_t v = H::newval(); cb.push_back(T(v)); m.v[i] = valOf(T(v)); }
      size_t off = c ? OFFV(vp_range("off", 0, c - 1), c - 1) : 0, drop = pick("drop", 0, c);
      if (c) { // place the content at the offset
        uint32_t t[MAXM]; for (size_t i = 0; i < c; ++i) t[i] = m.v[i];
        cb.rotate(cb.begin() + off); cb.erase_end(drop);
        for (size_t i = 0; i < c; ++i) m.v[i] = t[i + off < c ? i + off : i + off - c];
      }
      m.n = c - drop;
    } else
#endif
    {
      size_t n = pick("size", 0, c), f = c ? pick("off", 0, c - 1) : 0;
      for (size_t i = 0; i < f; ++i) cb.push_back(T(1));
      for (size_t i = 0; i < f; ++i) cb.pop_front();
      for (size_t i = 0; i < n; ++i) { uint32_t v = H::newval(); cb.push_back(T(v)); m.v[i] = valOf(T(v)); }
      m.n = n;
    }
  }
};

static void same(const CB &cb, const Seq &m, const char *w) {
  vp_check(cb.size() == m.n, w); vp_check(cb.capacity() == m.cap, w);
  for (size_t i = 0; i < m.n; ++i) { uint32_t x = valOf(cb[i]); vp_check(x == m.v[i], w); vp_observe(x); }
  vp_observe(m.n); vp_observe(m.cap);
}
#define NEL(n) (Counted<T>::value ? (n) : 0) // instrumented elements
static size_t blocks_of(uint32_t id) { size_t n = 0; for (int i = 0; i < NBLK; ++i) n += vpg_blk[i].p && vpg_blk[i].id == id; return n; }
static size_t elems_of(uint32_t id) { size_t n = 0; for (int i = 0; i < NBLK; ++i) if (vpg_blk[i].p && vpg_blk[i].id == id && vpg_blk[i].es == sizeof(T)) n += vpg_blk[i].n; return n; }

// runs f; with faults armed if the mode asks for it; returns whether it threw
template <class F> static bool guarded(F f) {
  g_reset_counts(); vpg_g.ops = 0; vpg_g.thrown = 0;
  if (VP_MODE & (MC_THROW | MC_STRONG)) {
    vpg_g.throw_at = (uint32_t)vp_range("throw_at", 0, 1000); vpg_g.fail_alloc = 1; vpg_g.armed = 1;
    try { f(); } catch (Boom &) { vp_reach("threw"); vpg_g.armed = 0; return true; }
    vpg_g.armed = 0;
    vp_reach("done");
    return false;
  }
  f(); vp_reach("done");
  return false;
}
template <class F> static void silent(F f) { // f must not touch, create or destroy any element, nor throw
  g_reset_counts(); vpg_g.ops = 0;
  if (VP_MODE & MC_NOTHROW) { vpg_g.throw_at = 0; vpg_g.fail_alloc = 1; vpg_g.armed = 1; }
  f();
  vpg_g.armed = 0; vp_reach("done");
  vp_check(elem_ops() == 0, "an element was created, copied, moved or destroyed");
  vp_check(vpg_g.allocs == 0, "storage was requested");
}
static void end_checks() {
  if (VP_LIFE) vp_check(vpg_g.live == 0, "elements leaked");
  if (VP_ALLOC | VP_LIFE) check_no_blocks(); else vp_stop();
}
static void no_trace(uint32_t live, size_t blocks) { vp_check(vpg_g.live == live, "elements leaked by a failed construction"); vp_check((size_t)n_blocks() == blocks, "storage leaked by a failed construction"); }
template <class CB> static void use(CB &cb) { // the buffer iterates properly and is fully usable
  size_t n = cb.size(), c = cb.capacity(), k = 0; Seq m; m.n = n; m.cap = c;
  typename CB::iterator i = cb.begin(), e = cb.end();
  for (; k < n; ++k, ++i) { vp_check(i != e, "iteration afterwards stops early"); vp_check(&*i == &cb[k], "iteration afterwards"); m.v[k] = valOf(cb[k]); }
  vp_check(i == e, "iteration afterwards does not stop");
  for (; k > 0; --k) { --i; vp_check(&*i == &cb[k - 1], "backward iteration afterwards"); }
  if (c && c < 1000) {
    for (int r = 0; r < 2; ++r) {
      typename CB::value_type x(5 + r); uint32_t v = valOf(x);
      if constexpr (COPYABLE) { if (r) cb.push_front(x); else cb.push_back(x); } else { if (r) cb.push_front(std::move(x)); else cb.push_back(std::move(x)); }
      if (r) m.push_front(v); else m.push_back(v);
      vp_check((cb.size() == m.n) & (cb.capacity() == m.cap), "size after pushing afterwards");
      for (size_t j = 0; j < m.n; ++j) vp_check(valOf(cb[j]) == m.v[j], "content after pushing afterwards");
    }
  }
  while (!cb.empty()) cb.pop_front();
  vp_check(cb.size() == 0, "pop afterwards");
}

// ---------------------------------------------------------------- constructors
template <class F> static void ctor(const Seq &m, bool hasmin, size_t mn, F make) {
  uint32_t live = vpg_g.live; size_t blocks = n_blocks();
  CB *p = (CB *)malloc(sizeof(CB));
  bool t = guarded([&] { make((void *)p); });
  if (t) { no_trace(live, blocks); free(p); return; }
  same(*p, m, "wrong content, size or capacity after construction");
  vp_check(vpg_g.live - live == NEL(p->size()), "live elements after construction");
  if (VP_CLASS == 0 || !hasmin) { if (m.cap < 1000) vp_check(elems_of(7) == (VP_CLASS == 0 ? m.cap : m.n), "storage after construction"); }
  else vp_check((elems_of(7) >= m.n) & (elems_of(7) <= m.cap) & (elems_of(7) >= mn), "storage after construction");
  vp_check(p->get_allocator().id == 7, "allocator of the new buffer");
#if VP_CLASS == 1
  vp_check(p->capacity().min_capacity() == mn, "min_capacity after construction");
#endif
  use(*p);
  p->~CB(); free(p);
  no_trace(live, blocks);
}
#if VP_CLASS == 0
#define HASMIN false
#else
#define HASMIN true
#undef CAPARG
#define CAPARG(c) Ctl((c), mn)
#endif
#define NEWCB(...) [&](void *p) { new (p) CB(__VA_ARGS__, VA<T>(7)); }
#define ENTRY(name) struct e_##name { template <class, class> static void go() { body(); } static void body(); }; void e_##name::body()
// instantiated only when selected: T and CB are dependent names in the body
#define TENTRY(name) struct e_##name { template <class T, class CB> static void go(); }; template <class T, class CB> void e_##name::go()
#define COPYONLY if constexpr (!COPYABLE) vp_stop();
template <bool> struct Dep { typedef ::T T; };

#if VP_CLASS == 0
#define CAPARG1(c) (c)
#define DEFCAP 0
#else
#define CAPARG1(c) Ctl((c), 0)
#define DEFCAP 0
#endif
TENTRY(c_default) { Seq m;
  { uint32_t b = n_blocks(); CB *p = (CB *)malloc(sizeof(CB)); silent([&] { new (p) CB(VA<T>(7)); }); vp_check((size_t)n_blocks() == b, "default construction holds storage"); vp_check(p->empty(), "default construction"); vp_check(p->capacity() == DEFCAP, "default capacity"); use(*p); p->~CB(); free(p); } }
TENTRY(c_cap) { Seq m; m.cap = pick("newcap", 0, CAPMAX); size_t mn = pick_min(m.cap); (void)mn; ctor(m, HASMIN, mn, NEWCB(CAPARG(m.cap))); }
TENTRY(c_n) { if constexpr (COPYABLE) { Seq m; m.n = m.cap = pick("k", 0, CAPMAX); T x(H::newval()); for (size_t i = 0; i < m.n; ++i) m.v[i] = valOf(x); ctor(m, false, 0, NEWCB(m.n, x)); } else vp_stop(); }
TENTRY(c_capn) { if constexpr (COPYABLE) { Seq m; m.cap = pick("newcap", 0, CAPMAX); m.n = pick("k", 0, m.cap); size_t mn = pick_min(m.cap); (void)mn; T x(H::newval()); for (size_t i = 0; i < m.n; ++i) m.v[i] = valOf(x); ctor(m, HASMIN, mn, NEWCB(CAPARG(m.cap), m.n, x)); } else vp_stop(); }
TENTRY(c_ii) { if constexpr (std::is_integral<T>::value) { Seq m; int k = (int)pick("k", 0, CAPMAX), x = (int)(H::newval() & 0xff); m.n = m.cap = k; for (int i = 0; i < k; ++i) m.v[i] = valOf(T(x)); ctor(m, false, 0, NEWCB(k, x)); } else vp_stop(); }
TENTRY(c_capii) { if constexpr (std::is_integral<T>::value) { Seq m; m.cap = pick("newcap", 0, CAPMAX); int k = (int)pick("k", 0, m.cap), x = (int)(H::newval() & 0xff); size_t mn = pick_min(m.cap); (void)mn; m.n = k; for (int i = 0; i < k; ++i) m.v[i] = valOf(T(x)); ctor(m, HASMIN, mn, NEWCB(CAPARG(m.cap), k, x)); } else vp_stop(); }
static void whole(Seq &m, const Items &s) { m.n = m.cap = s.n; for (size_t i = 0; i < s.n; ++i) m.v[i] = s.v[i]; }
static void lastof(Seq &m, const Items &s) { m.n = s.n < m.cap ? s.n : m.cap; for (size_t i = 0; i < m.n; ++i) m.v[i] = s.v[s.n - m.n + i]; if (s.n > m.cap) vp_reach("range longer than capacity"); }
TENTRY(c_ra) { if constexpr (COPYABLE) { Items s; Seq m; whole(m, s); ctor(m, false, 0, NEWCB((const T *)s.a, (const T *)s.a + s.n)); } else vp_stop(); }
TENTRY(c_fw) { if constexpr (COPYABLE) { Items s; Seq m; whole(m, s); ctor(m, false, 0, NEWCB(FwIt<T>(s.a), FwIt<T>(s.a + s.n))); } else vp_stop(); }
TENTRY(c_in) { if constexpr (COPYABLE) { Items s; Seq m; whole(m, s); Src<T> src = {s.a, 0, s.n}; InIt<T> b = {&src}, e = {0}; ctor(m, false, 0, NEWCB(b, e)); } else vp_stop(); }
TENTRY(c_capra) { if constexpr (COPYABLE) { Items s; Seq m; m.cap = pick("newcap", 0, CAPMAX); size_t mn = pick_min(m.cap); (void)mn; lastof(m, s); ctor(m, HASMIN, mn, NEWCB(CAPARG(m.cap), (const T *)s.a, (const T *)s.a + s.n)); } else vp_stop(); }
TENTRY(c_capfw) { if constexpr (COPYABLE) { Items s; Seq m; m.cap = pick("newcap", 0, CAPMAX); size_t mn = pick_min(m.cap); (void)mn; lastof(m, s); ctor(m, HASMIN, mn, NEWCB(CAPARG(m.cap), FwIt<T>(s.a), FwIt<T>(s.a + s.n))); } else vp_stop(); }
TENTRY(c_capin) { if constexpr (COPYABLE) { Items s; Seq m; m.cap = pick("newcap", 0, CAPMAX); size_t mn = pick_min(m.cap); (void)mn; lastof(m, s); Src<T> src = {s.a, 0, s.n}; InIt<T> b = {&src}, e = {0}; ctor(m, HASMIN, mn, NEWCB(CAPARG(m.cap), b, e)); } else vp_stop(); }

// ---------------------------------------------------------------- copying
template <class CB> static void modify(CB &cb) { // changes the buffer in several ways
  if (cb.size()) { cb[0] = typename CB::value_type(91); }
  if (cb.size() > 1) cb.pop_back();
  if (cb.capacity() != 0) cb.push_front(typename CB::value_type(92));
}
TENTRY(copy) { if constexpr (COPYABLE) {
  Built a(CAPMAX); uint32_t live = vpg_g.live; size_t blocks = n_blocks(); CB *p = (CB *)malloc(sizeof(CB));
  if (guarded([&] { new (p) CB((const CB &)a.cb); })) { free(p); no_trace(live, blocks); same(a.cb, a.m, "source changed by a failed copy"); return; }
  same(*p, a.m, "copy differs from its source"); same(a.cb, a.m, "source changed by copying"); vp_check(vpg_g.live - live == NEL(a.m.n), "live elements after copying");
  if (a.m.n) vp_check(&(*p)[0] != &a.cb[0], "copy shares storage with its source");
#if VP_CLASS == 1
  vp_check(p->capacity().min_capacity() == a.mn, "minimum capacity of the copy");
#endif
  if (vp_range("which", 0, 1)) { modify(a.cb); same(*p, a.m, "changing the source changed the copy"); } else { modify(*p); same(a.cb, a.m, "changing the copy changed the source"); }
  p->~CB(); free(p);
} else vp_stop(); }
TENTRY(copy_assign) { if constexpr (COPYABLE) {
  Built a(CAPMAX), b(CAP2, MOVE_ID2); uint32_t live = vpg_g.live; size_t blocks = n_blocks();
  T *addr[MAXM]; for (size_t i = 0; i < a.m.n; ++i) addr[i] = &a.cb[i];
#if VP_CLASS == 1
  size_t oldmin = a.mn;
#endif
  It e = a.cb.end();
  if (guarded([&] { CB &r = (a.cb = (const CB &)b.cb); vp_check(&r == &a.cb, "result of assignment"); })) {
    same(b.cb, b.m, "source changed by a failed assignment");
    vp_check(vpg_g.live + NEL(a.m.n) == live + NEL(a.cb.size()), "elements leaked or lost by a failed assignment"); vp_check((size_t)n_blocks() == blocks || a.cb.capacity() == 0, "storage leaked by a failed assignment");
    if (VP_MODE & MC_STRONG) { vp_reach("strong"); same(a.cb, a.m, "target changed by a failed assignment"); vp_check((size_t)n_blocks() == blocks, "storage changed by a failed assignment"); for (size_t i = 0; i < a.m.n; ++i) vp_check(&a.cb[i] == addr[i], "target layout changed by a failed assignment");
#if VP_CLASS == 1
      vp_check(a.cb.capacity().min_capacity() == oldmin, "minimum capacity changed by a failed assignment");
#endif
    }
    use(a.cb); return; }
  vp_check(e == a.cb.end(), "an iterator equal to end() no longer equals end()");
  same(a.cb, b.m, "target differs from the source"); same(b.cb, b.m, "source changed by assignment"); vp_check((a.cb.get_allocator().id == 7) & (b.cb.get_allocator().id == MOVE_ID2), "copy assignment changed an allocator");
  vp_check(vpg_g.live + NEL(a.m.n) == live + NEL(b.m.n), "live elements after assignment");
#if VP_CLASS == 1
  vp_check(a.cb.capacity().min_capacity() == b.mn, "minimum capacity after assignment");
#endif
  if (b.m.n) vp_check(&a.cb[0] != &b.cb[0], "target shares storage with its source");
  modify(b.cb); same(a.cb, b.m, "changing the source changed the copy");
  use(a.cb);
} else vp_stop(); }
TENTRY(self_assign) { if constexpr (COPYABLE) { Built a(CAPMAX); T *p = a.m.n ? &a.cb[0] : 0; CB &r = a.cb; silent([&] { a.cb = (const CB &)r; }); same(a.cb, a.m, "self-assignment changed the buffer"); if (p) vp_check(p == &a.cb[0], "self-assignment moved the elements"); use(a.cb); } else vp_stop(); }

// ---------------------------------------------------------------- moving, swapping
struct Refs { T *p[MAXM]; size_t n; Refs(Built &b) : n(b.m.n) { for (size_t i = 0; i < n; ++i) p[i] = &b.cb[i]; } void check(CB &cb, const char *w) { for (size_t i = 0; i < n; ++i) vp_check(&cb[i] == p[i], w); } };
TENTRY(move_ctor) { Built a(CAPMAX); Refs r(a); CB *p = (CB *)malloc(sizeof(CB));
  silent([&] { new (p) CB(std::move(a.cb)); });
  same(*p, a.m, "moved-to buffer differs from the former source"); r.check(*p, "a transferred element changed its address");
#if VP_CLASS == 1
  vp_check(p->capacity().min_capacity() == a.mn, "minimum capacity of the moved-to buffer");
#endif
  vp_check(a.cb.empty(), "moved-from buffer is not empty"); vp_check(p->get_allocator().id == 7, "allocator of the moved-to buffer");
  if (!SO) vp_check(a.cb.capacity() == 0, "moved-from buffer still has capacity");
  { Seq m; use(a.cb); a.cb.set_capacity(CAPARG1(1)); a.cb.push_back(T(3)); vp_check(a.cb.size() == 1 && valOf(a.cb[0]) == 3, "moved-from buffer is not usable"); }
  use(*p); p->~CB(); free(p); }
TENTRY(move_assign) { Built a(CAPMAX), b(CAP2, MOVE_ID2); Refs r(b); uint32_t live = vpg_g.live;
  g_reset_counts(); vpg_g.ops = 0; if (VP_MODE & MC_NOTHROW) { vpg_g.throw_at = 0; vpg_g.fail_alloc = 1; vpg_g.armed = 1; }
  CB &res = (a.cb = std::move(b.cb));
  vpg_g.armed = 0; vp_reach("done");
  vp_check(&res == &a.cb, "result of move assignment");
  vp_check((vpg_g.allocs == 0) & (elem_ops() == vpg_g.dtor) & (vpg_g.dtor == (IsEl<T>::value ? a.m.n : 0)) & (vpg_g.live == live - NEL(a.m.n)), "move assignment copies, creates or loses elements");
  same(a.cb, b.m, "moved-to buffer differs from the former source"); r.check(a.cb, "a transferred element changed its address");
#if VP_CLASS == 1
  vp_check(a.cb.capacity().min_capacity() == b.mn, "minimum capacity of the moved-to buffer");
#endif
  vp_check(b.cb.empty(), "moved-from buffer is not empty"); vp_check(a.cb.get_allocator().id == MOVE_ID2, "allocator of the moved-to buffer");
  if (!SO) vp_check(b.cb.capacity() == 0, "moved-from buffer still has capacity");
  vp_check(blocks_of(7) <= (MOVE_ID2 == 7 ? 1 : 0), "old storage of the moved-to buffer was not released");
  { use(b.cb); b.cb.set_capacity(CAPARG1(1)); b.cb.push_back(T(3)); vp_check(b.cb.size() == 1 && valOf(b.cb[0]) == 3, "moved-from buffer is not usable"); }
  use(a.cb); }
template <class F> static void swap_(F f) { Built a(CAPMAX), b(CAP2, MOVE_ID2); Refs ra(a), rb(b);
  silent([&] { f(a.cb, b.cb); });
  same(a.cb, b.m, "content after swap"); same(b.cb, a.m, "content after swap"); ra.check(b.cb, "element changed its address in swap"); rb.check(a.cb, "element changed its address in swap");
  vp_check((a.cb.get_allocator().id == MOVE_ID2) & (b.cb.get_allocator().id == 7), "allocators were not exchanged");
#if VP_CLASS == 1
  vp_check((a.cb.capacity().min_capacity() == b.mn) & (b.cb.capacity().min_capacity() == a.mn), "minimum capacities were not exchanged");
#endif
  if (vp_range("which", 0, 1)) use(a.cb); else use(b.cb); }
TENTRY(swap_member) { swap_([](CB &a, CB &b) { a.swap(b); }); }
TENTRY(swap_free) { swap_([](CB &a, CB &b) { swap(a, b); }); }
TENTRY(swap_self) { Built a(CAPMAX); Refs r(a); silent([&] { a.cb.swap(a.cb); }); same(a.cb, a.m, "self-swap changed the buffer"); r.check(a.cb, "self-swap moved an element"); use(a.cb); }
#if !VP_DEBUG
TENTRY(swap_iters) { Built a(CAPMAX), b(CAP2, MOVE_ID2); // iterators keep designating the same elements (debug support off)
  It ia[MAXM]; for (size_t i = 0; i < a.m.n; ++i) ia[i] = a.cb.begin() + i;
  int how = (int)vp_concretize(vp_range("how", 0, 1));
  if (how == 0) a.cb.swap(b.cb); else b.cb = std::move(a.cb);
  vp_reach("done");
  for (size_t i = 0; i < a.m.n; ++i) vp_check((&*ia[i] == &b.cb[i]) & (valOf(*ia[i]) == a.m.v[i]), "iterator into a swapped buffer lost its element");
}
#endif
TENTRY(destroy) { CB *p; { size_t n; Built *b = (Built *)malloc(sizeof(Built)); new (b) Built(CAPMAX); n = b->m.n; uint32_t live = vpg_g.live; g_reset_counts(); vpg_g.ops = 0;
  if (VP_MODE & MC_NOTHROW) { vpg_g.throw_at = 0; vpg_g.fail_alloc = 1; vpg_g.armed = 1; }
  b->~Built(); vpg_g.armed = 0; vp_reach("done");
  vp_check(vpg_g.live == live - NEL(n), "destruction leaves elements behind"); vp_check(n_blocks() == 0, "destruction leaves storage behind"); vp_check(vpg_g.allocs == 0, "destruction requested storage"); free(b); } (void)p; }

// ---------------------------------------------------------------- comparing
TENTRY(compare) { Built a(CAPMAX), b(CAP2); const CB &x = a.cb, &y = b.cb; const Seq &m = a.m, &k = b.m;
  bool eq = m.n == k.n; for (size_t i = 0; eq && i < m.n; ++i) if (m.v[i] != k.v[i]) eq = false;
  bool lt = false, gt = false; { size_t i = 0; for (; i < m.n && i < k.n; ++i) { if (m.v[i] < k.v[i]) { lt = true; break; } if (k.v[i] < m.v[i]) { gt = true; break; } } if (!lt && !gt) { lt = i == m.n && i < k.n; gt = i == k.n && i < m.n; } }
  if (eq) vp_reach("equal"); else if (lt) vp_reach("less"); else vp_reach("greater");
  vp_reach("done");
  vp_check((x == y) == eq, "operator=="); vp_check((x != y) == !eq, "operator!="); vp_check((x < y) == lt, "operator<");
  vp_check((x > y) == gt, "operator>"); vp_check((x <= y) == !gt, "operator<="); vp_check((x >= y) == !lt, "operator>=");
  vp_observe(eq); vp_observe(lt); }

// ---------------------------------------------------------------- reading
static uint32_t at(const Seq &m, size_t i) { return m.v[i]; }
static size_t sym(const char *n, size_t lo, size_t hi) { size_t i = vp_range(n, lo, hi); if (!std::is_scalar<T>::value) i = vp_concretize(i); return i; }
ENTRY(index) { Built a(CAPMAX); CB &cb = a.cb; const CB &c = a.cb; size_t n = a.m.n; vp_assume(n > 0); size_t i = sym("i", 0, n - 1);
  vp_reach("done");
  uint32_t v = at(a.m, i); T *p = &cb[i];
  vp_check(valOf(*p) == v, "operator[]"); vp_check(&c[i] == p, "const operator[]"); vp_check((&cb.at(i) == p) & (&c.at(i) == p), "at()");
  vp_check((&*(cb.begin() + i) == p) & (&*(c.begin() + i) == p) & (&cb.begin()[i] == p) & (&*(i + cb.begin()) == p), "begin() + i");
  vp_check((&*(cb.end() - (n - i)) == p) & (&*(c.end() - (n - i)) == p), "end() - k");
  vp_check((&*(cb.rbegin() + (n - 1 - i)) == p) & (&*(c.rbegin() + (n - 1 - i)) == p) & (&cb.rbegin()[n - 1 - i] == p) & (&*(cb.rend() - (i + 1)) == p), "reverse iteration");
  vp_check((cb.begin() + i).operator->() == p, "operator->");
  vp_check((&cb.front() == &cb[0]) & (&c.front() == &cb[0]) & (&cb.back() == &cb[n - 1]) & (&c.back() == &cb[n - 1]), "front() and back()");
  vp_check(cb.size() == n && cb.empty() == (n == 0) && cb.full() == (n == a.m.cap) && cb.reserve() == a.m.cap - n, "size observers");
  CB::const_iterator ci = cb.begin() + i; vp_check(&*ci == p, "conversion to const_iterator");
  T *q = p; *cb.begin(); cb[i] = T(17); vp_check(valOf(*q) == 17 && valOf(c[i]) == 17, "writing through operator[]"); }
ENTRY(walk) { Built a(CAPMAX); CB &cb = a.cb; const CB &c = a.cb; size_t n = a.m.n, k = 0;
  for (It i = cb.begin(); i != cb.end(); ++i, ++k) { vp_check(k < n, "iteration does not end"); vp_check(&*i == &cb[k], "++ skips or repeats an element"); vp_check(valOf(*i) == a.m.v[k], "iteration order"); vp_observe(valOf(*i)); }
  vp_check(k == n, "iteration ends early"); k = n;
  for (CB::const_iterator i = c.end(); i != c.begin();) { vp_check(k > 0, "backward iteration does not end"); CB::const_iterator o = i--; --k; vp_check(o - i == 1, "post-decrement"); vp_check(&*i == &cb[k], "-- skips or repeats an element"); }
  vp_check(k == 0, "backward iteration ends early");
  for (CB::reverse_iterator i = cb.rbegin(); i != cb.rend(); i++, ++k) { vp_check(k < n, "reverse iteration does not end"); vp_check(&*i == &cb[n - 1 - k], "reverse iteration order"); }
  vp_check(k == n, "reverse iteration ends early"); k = 0;
  for (CB::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i, ++k) { vp_check(k < n, "reverse iteration does not end"); vp_check(&*i == &cb[n - 1 - k], "reverse iteration order"); }
  vp_check(k == n, "reverse iteration ends early"); k = 0;
  for (It i = cb.begin(); i != cb.end(); ++k) { It o = i++; vp_check(k < n, "iteration does not end"); vp_check(&*o == &cb[k] && i - o == 1, "post-increment"); It d = i; --d; vp_check(d == o, "--"); }
  { It i = cb.end(); k = n; while (i != cb.begin()) { vp_check(k > 0, "iteration does not end"); --i; --k; vp_check(&*i == &cb[k], "-- from end()"); } }
  vp_reach("done"); }
ENTRY(iter_arith) { Built a(CAPMAX); CB &cb = a.cb; const CB &c = a.cb; ptrdiff_t n = a.m.n, i = sym("i", 0, n), j = sym("j", 0, n), d = j - i;
  vp_reach("done");
  It b = cb.begin(), e = cb.end(), x = b + i, y = b + j; CB::const_iterator cx = c.begin() + i, cy = y;
  vp_check(y - x == d, "difference of iterators"); vp_check((cy - cx == d) & (cy - x == d) & (y - cx == d), "difference of const iterators");
  vp_check((x == y) == (d == 0), "=="); vp_check((x != y) == (d != 0), "!="); vp_check((x < y) == (d > 0), "<"); vp_check((x > y) == (d < 0), ">"); vp_check((x <= y) == (d >= 0), "<="); vp_check((x >= y) == (d <= 0), ">=");
  vp_check((cx == y) == (d == 0) && (cx < y) == (d > 0) && (x < cy) == (d > 0) && (x != cy) == (d != 0), "mixed comparison");
  vp_check(x + d == y, "it + n"); vp_check(y - d == x, "it - n"); It z = x; z += d; vp_check(z == y, "+="); z -= d; vp_check(z == x, "-="); vp_check(d + x == y, "n + it");
  if (j < n) vp_check(&x[d] == &cb[j], "it[n]");
  vp_check(e - b == n, "end() - begin()"); vp_check(e - x == n - i, "end() - it"); vp_check((x == e) == (i == n), "== end()"); vp_check((x < e) == (i < n), "< end()");
  vp_check(b + n == e, "begin() + size()"); vp_check(e - n == b, "end() - size()");
  if (i < n) { It w = x; ++w; vp_check(w - b == i + 1, "++"); w = x; It o = w++; vp_check(o == x && w == x + 1, "post ++"); }
  if (i > 0) { It w = x; --w; vp_check(w - b == i - 1, "--"); w = x; It o = w--; vp_check(o == x && w == x - 1, "post --"); }
  CB::reverse_iterator rx(x), ry(y); vp_check(rx - ry == d, "difference of reverse iterators"); vp_check((rx < ry) == (d < 0), "order of reverse iterators");
  It dflt; dflt = x; vp_check(dflt == x, "iterator assignment"); }
ENTRY(at_any) { Built a(CAPMAX); CB &cb = a.cb; const CB &c = a.cb; uint64_t i = vp_any64("i"); int t = 0, u = 0; const T *p = 0;
  try { p = &cb.at(i); } catch (const std::out_of_range &) { t = 1; }
  try { vp_check(&c.at(i) == p, "const at()"); } catch (const std::out_of_range &) { u = 1; }
  vp_reach(t ? "out of range" : "done");
  vp_check(t == u, "const at() throws differently");
  vp_check(t == (i >= a.m.n), "at() throws exactly when the index is out of range"); same(cb, a.m, "at() changed the buffer");
  if (!t) vp_check(p == &cb[i], "at()"); }
ENTRY(readonly) { // the buffers live on the heap, so that vp_freeze protects the objects themselves too
  Built &a = *new (malloc(sizeof(Built))) Built(CAPMAX), &b = *new (malloc(sizeof(Built))) Built(CAP2); const CB &c = a.cb, &o = b.cb; size_t n = a.m.n, i = pick("i", 0, n); int which = (int)vp_concretize(vp_range("which", 0, 9));
  CB::const_iterator it = c.begin() + i; uint64_t acc = 0;
  uint32_t z0 = vpg_g.cctor + vpg_g.mctor + vpg_g.cassign + vpg_g.massign + vpg_g.allocs;
  vp_reach("done");
  vp_freeze();
  switch (which) {
  case 0: acc += c.size() + c.empty() + c.full() + c.reserve() + c.max_size(); acc += (size_t)c.capacity(); break;
  case 1: if (i < n) acc += valOf(c[i]) + valOf(c.at(i)) + valOf(c.front()) + valOf(c.back()); break;
  case 2: for (CB::const_iterator k = c.begin(); k != c.end(); ++k) acc += valOf(*k); for (CB::const_iterator k = c.end(); k != c.begin(); k--) acc++; break;
  case 3: for (CB::const_reverse_iterator k = c.rbegin(); k != c.rend(); ++k) acc += valOf(*k); break;
  case 4: { CB::const_array_range p = c.array_one(), q = c.array_two(); acc += p.second * 3 + q.second; break; }
  case 5: acc += c.is_linearized(); break;
  case 6: acc += (c == o) + 2 * (c < o) + 4 * (c != o) + 8 * (c > o) + 16 * (c <= o) + 32 * (c >= o); break;
  case 7: { CB::const_iterator k = c.begin() + i, l = k; l -= i; acc += (k - c.begin()) + (c.end() - k) + (k == c.end()) + (l < k); break; }
  case 8: { VA<T> al = c.get_allocator(); acc += al.id; break; }
  case 9: try { acc += valOf(c.at(n + i)); } catch (const std::out_of_range &) { acc += 5; } break;
  }
  vp_unfreeze();
  vp_check(z0 == vpg_g.cctor + vpg_g.mctor + vpg_g.cassign + vpg_g.massign + vpg_g.allocs, "a read-only operation copies elements or allocates");
  same(a.cb, a.m, "a read-only operation changed the buffer"); vp_observe(which == 4 ? 0 : acc); (void)it; it = CB::const_iterator(); a.~Built(); b.~Built(); free(&a); free(&b); }
ENTRY(observers_nothrow) { Built a(CAPMAX); CB &cb = a.cb; const CB &c = cb; size_t n = a.m.n, i = pick("i", 0, n), s = 0;
  silent([&] { s += c.size() + c.empty() + c.full() + c.reserve() + c.max_size() + (size_t)c.capacity() + c.is_linearized() + c.array_one().second + cb.array_two().second;
    It x = cb.begin() + i; s += cb.end() - x; CB::const_iterator y = x; s += y == c.end(); if (i < n) { s += &cb[i] == &*x; s += &cb.front() == &c.front(); s += &cb.back() == &c.back(); ++x; --x; x++; } if (i) --x;
    s += cb.rbegin() == cb.rend(); VA<T> al = c.get_allocator(); s += al.id; });
  same(cb, a.m, "an observer changed the buffer"); }

// ---------------------------------------------------------------- capacity limits
static void limit(Built &a) { // the allocator's limit
#ifdef VP_MAXSIZE
  uint64_t M = vp_any64("maxsize"); vp_assume(M >= a.m.cap && M > 0); vpg_g.maxsz = M;
  vp_check(a.cb.max_size() == (M < (uint64_t)1 << 63 ? M : ((uint64_t)1 << 63) - 1), "max_size() is not what the allocator and difference_type allow");
#endif
}
template <class F> static void too_long(F f) {
  Built a(CAPMAX); limit(a); uint64_t c = vp_any64("c"); vp_assume(c > a.cb.max_size()); bool t = false; int nb = n_blocks(); g_reset_counts();
  T *p0 = a.m.n ? &a.cb[0] : 0;
  try { f(a.cb, c); } catch (const std::length_error &) { t = true; }
  vp_reach("done"); vp_check(t, "a capacity above max_size() was accepted"); vp_check(n_blocks() == nb && vpg_g.allocs == 0, "storage was requested or released");
  same(a.cb, a.m, "the buffer was changed by a rejected request"); if (p0) vp_check(p0 == &a.cb[0], "the buffer was moved by a rejected request"); use(a.cb); }
#if VP_CLASS == 0
TENTRY(len_fits) { if constexpr (COPYABLE) { Built a(CAPMAX); limit(a); uint64_t c = vp_range("c", 0, CAPMAX + 1); vp_assume(c <= a.cb.max_size()); c = vp_concretize(c); T x(1); int which = (int)vp_concretize(vp_range("which", 0, 7)); CB &b = a.cb;
  switch (which) { case 0: b.set_capacity(c); break; case 1: b.rset_capacity(c); break; case 2: b.resize(c, x); break; case 3: b.rresize(c, x); break; case 4: b.assign(c, x); break; case 5: b.assign(c, c, x); break;
    case 6: { CB z(c, VA<T>(7)); vp_check(z.capacity() == c, "capacity"); break; } case 7: { CB z(b); vp_check(z.capacity() == a.m.cap, "capacity"); break; } }
  if (which < 6) vp_check(b.capacity() >= c, "capacity"); vp_reach("done"); } else vp_stop(); }
TENTRY(len_set_capacity) { too_long([](CB &b, size_t c) { b.set_capacity(c); }); }
TENTRY(len_rset_capacity) { too_long([](CB &b, size_t c) { b.rset_capacity(c); }); }
TENTRY(len_resize) { too_long([](CB &b, size_t c) { T x(1); b.resize(c, x); }); }
TENTRY(len_rresize) { too_long([](CB &b, size_t c) { T x(1); b.rresize(c, x); }); }
TENTRY(len_assign) { too_long([](CB &b, size_t c) { T x(1); b.assign(c, x); }); }
TENTRY(len_assign_cap) { too_long([](CB &b, size_t c) { T x(1); b.assign(c, (size_t)1, x); }); }
TENTRY(len_assign_cap_range) { too_long([](CB &b, size_t c) { T x(1); b.assign(c, (const T *)&x, (const T *)&x + 1); }); }
TENTRY(len_ctor) { too_long([](CB &, size_t c) { CB z(c, VA<T>(7)); }); }
TENTRY(len_ctor_n) { too_long([](CB &, size_t c) { T x(1); CB z(c, (size_t)1, x, VA<T>(7)); }); }
TENTRY(len_ctor_range) { too_long([](CB &, size_t c) { T x(1); CB z(c, (const T *)&x, (const T *)&x + 1, VA<T>(7)); }); }
#else
TENTRY(len_ctor) { too_long([](CB &, size_t c) { CB z(Ctl(c, c), VA<T>(7)); }); }
TENTRY(len_set_capacity) { too_long([](CB &b, size_t c) { b.set_capacity(Ctl(c, c)); }); }
TENTRY(len_rset_capacity) { too_long([](CB &b, size_t c) { b.rset_capacity(Ctl(c, c)); }); }
// growing works for every logical capacity and count: no overflow in the growth arithmetic
TENTRY(huge_capacity) { Built a(CAPMAX); uint64_t c = vp_any64("c"); vp_assume(c >= a.cap); a.cb.set_capacity(Ctl(c, a.mn)); a.m.cap = c;
  vp_check(a.cb.capacity().capacity() == c && a.cb.capacity().min_capacity() == a.mn, "capacity controller");
  same(a.cb, a.m, "set_capacity to a large capacity");
  vp_check(a.cb.reserve() == c - a.m.n && a.cb.full() == (a.m.n == c), "reserve() and full() reflect capacity()");
  if (c > a.m.n) { a.cb.push_back(T(4)); vp_check(a.cb.size() == a.m.n + 1 && valOf(a.cb.back()) == 4, "push into a buffer of large capacity"); }
  vp_reach("done"); size_t b = elems_of(7); vp_check(b >= a.cb.size() && b <= c && b >= a.mn && b <= 3 * CAPMAX + 4, "allocated amount"); }
#endif

// ---------------------------------------------------------------- adaptor memory policy
#if VP_CLASS == 1
TENTRY(thrash) { Built a(CAPMAX); vp_assume(a.m.n > 0 && a.m.n < a.m.cap); int way = (int)vp_concretize(vp_range("way", 0, 3)); uint32_t last = 0;
  for (int k = 0; k < 4; ++k) { g_reset_counts();
    if (way & 1) a.cb.push_back(T(1)); else a.cb.push_front(T(1));
    if (way & 2) a.cb.pop_back(); else a.cb.pop_front();
    last = vpg_g.allocs; }
  vp_reach("done"); vp_check(last == 0, "alternating push and pop keeps reallocating"); }
TENTRY(release) { Built a(CAPMAX); int way = (int)vp_concretize(vp_range("way", 0, 3)); size_t b0 = elems_of(7); vp_assume(a.m.n > 0);
  size_t n = a.m.n; if (way == 0) while (n--) a.cb.pop_back(); else if (way == 1) while (n--) a.cb.pop_front(); else if (way == 2) a.cb.erase(a.cb.begin(), a.cb.end()); else a.cb.clear();
  size_t b = elems_of(7); vp_reach("done");
  if (b0 > a.mn && b0 >= 3) { vp_reach("released"); vp_check(b < b0, "removing all elements releases no memory"); }
  vp_check(b >= a.mn && a.cb.empty(), "memory below min_capacity"); }
#endif

// ---------------------------------------------------------------- arguments that are elements of the buffer itself
template <class F> static void alias_(F f) { Built a(CAPMAX); vp_assume(a.m.n > 0); size_t k = pick("src", 0, a.m.n - 1); uint32_t v = a.m.v[k]; vp_reach("done"); f(a, k, v); same(a.cb, a.m, "an element of the buffer was not inserted with its old value"); if (VP_LIFE) vp_check(vpg_g.live == NEL(a.cb.size()), "live elements"); use(a.cb); }
static size_t posof(Built &a) { return pick("pos", 0, a.m.n); }
TENTRY(alias_push_back) { alias_([](auto &a, size_t k, uint32_t v) { a.cb.push_back((const T &)a.cb[k]); a.m.push_back(v); }); }
TENTRY(alias_push_front) { alias_([](auto &a, size_t k, uint32_t v) { a.cb.push_front((const T &)a.cb[k]); a.m.push_front(v); }); }
TENTRY(alias_insert) { alias_([](auto &a, size_t k, uint32_t v) { size_t p = posof(a); a.cb.insert(a.cb.begin() + p, (const T &)a.cb[k]); a.m.insert(p, &v, 1); }); }
TENTRY(alias_rinsert) { alias_([](auto &a, size_t k, uint32_t v) { size_t p = posof(a); a.cb.rinsert(a.cb.begin() + p, (const T &)a.cb[k]); a.m.rinsert(p, &v, 1); }); }
TENTRY(alias_insert_n) { alias_([](auto &a, size_t k, uint32_t v) { size_t p = posof(a), n = pick("k", 0, LMAX); uint32_t x[MAXM]; for (size_t i = 0; i < n; ++i) x[i] = v; a.cb.insert(a.cb.begin() + p, n, (const T &)a.cb[k]); a.m.insert(p, x, n); }); }
TENTRY(alias_rinsert_n) { alias_([](auto &a, size_t k, uint32_t v) { size_t p = posof(a), n = pick("k", 0, LMAX); uint32_t x[MAXM]; for (size_t i = 0; i < n; ++i) x[i] = v; a.cb.rinsert(a.cb.begin() + p, n, (const T &)a.cb[k]); a.m.rinsert(p, x, n); }); }
TENTRY(alias_resize) { alias_([](auto &a, size_t k, uint32_t v) { size_t n = pick("k", 0, LMAX); a.cb.resize(n, (const T &)a.cb[k]); if (n > a.m.cap) a.m.cap = n; while (a.m.n < n) a.m.v[a.m.n++] = v; a.m.n = n; }); }
TENTRY(alias_rresize) { alias_([](auto &a, size_t k, uint32_t v) { size_t n = pick("k", 0, LMAX); a.cb.rresize(n, (const T &)a.cb[k]); if (n > a.m.cap) a.m.cap = n; if (n < a.m.n) a.m.raw_erase(0, a.m.n - n); while (a.m.n < n) a.m.raw_insert(0, v); }); }

// ---------------------------------------------------------------- debug support: broken preconditions, iterators and their registry
#if VP_DEBUG
static void expect() { vpg_g.expect_assert = 1; vpg_g.at_misuse = elem_ops(); vp_reach("done"); }
#define MISSED vp_fail("broken precondition was not reported")
ENTRY(bad_access) { Built a(CAPMAX); CB &cb = a.cb; const CB &c = cb; size_t n = a.m.n; uint64_t i = vp_any64("i"); int w = (int)vp_concretize(vp_range("which", 0, 7)); uint64_t acc = 0;
  if (w >= 6) vp_assume(i >= n); else vp_assume(n == 0);
  expect();
  switch (w) {
  case 0: acc = (uint64_t)&cb.front(); break; case 1: acc = (uint64_t)&c.front(); break; case 2: acc = (uint64_t)&cb.back(); break; case 3: acc = (uint64_t)&c.back(); break;
  case 4: cb.pop_front(); break; case 5: cb.pop_back(); break; case 6: acc = (uint64_t)&cb[i]; break; case 7: acc = (uint64_t)&c[i]; break; }
  vp_observe(acc); MISSED; }
template <class I> static void bad_iter_(I b, I e, size_t n, size_t i) {
  uint64_t d = vp_any64("d"), acc = 0; int w = (int)vp_concretize(vp_range("which", 0, 15));
  I it = b; for (size_t k = 0; k < i; ++k) ++it;
  bool over = (ptrdiff_t)d > (ptrdiff_t)(n - i), under = (ptrdiff_t)d > (ptrdiff_t)i; // signed moves past either end
  vp_assume(d != (uint64_t)1 << 63);
  ptrdiff_t sd = (ptrdiff_t)d;
  switch (w) {
  case 0: expect(); acc = (uint64_t)&*e; break;
  case 1: expect(); acc = (uint64_t)e.operator->(); break;
  case 2: expect(); ++e; break;
  case 3: expect(); e++; break;
  case 4: expect(); --b; break;
  case 5: expect(); b--; break;
  case 6: vp_assume(over); expect(); it += sd; break;
  case 7: vp_assume(over); expect(); it -= -sd; break;
  case 8: vp_assume(under); expect(); it -= sd; break;
  case 9: vp_assume(under); expect(); it += -sd; break;
  case 10: vp_assume(over); expect(); { I y = it + sd; } break;
  case 11: vp_assume(under); expect(); { I y = it - sd; } break;
  case 12: vp_assume(sd >= (ptrdiff_t)(n - i)); expect(); acc = (uint64_t)&it[sd]; break;
  case 13: vp_assume(under); expect(); acc = (uint64_t)&it[-sd]; break;
  case 14: expect(); acc = (uint64_t)&e[0]; break;
  case 15: vp_assume(over); expect(); { I y = sd + it; } break;
  }
  vp_observe(acc); MISSED; }
ENTRY(bad_iter) { Built a(CAPMAX); bad_iter_(a.cb.begin(), a.cb.end(), a.m.n, pick("i", 0, a.m.n)); }
ENTRY(bad_citer) { Built a(CAPMAX); const CB &c = a.cb; bad_iter_(c.begin(), c.end(), a.m.n, pick("i", 0, a.m.n)); }
ENTRY(bad_riter) { Built a(CAPMAX); CB &cb = a.cb; int w = (int)vp_concretize(vp_range("which", 0, 3)); uint64_t acc = 0; CB::reverse_iterator b = cb.rbegin(), e = cb.rend(); expect();
  if (w == 0) acc = (uint64_t)&*e; else if (w == 1) ++e; else if (w == 2) --b; else acc = (uint64_t)&e[0];
  vp_observe(acc); MISSED; }
TENTRY(bad_range) { Built a(CAPMAX); CB &cb = a.cb; size_t n = a.m.n, i = pick("i", 0, n), j = pick("j", 0, n); int w = (int)vp_concretize(vp_range("which", 0, 6));
  It x = cb.begin() + i, y = cb.begin() + j, e = cb.end(); uint64_t k = vp_any64("k");
  if (w <= 1) vp_assume(i > j);
  if (w >= 5) vp_assume(k > n);
  expect();
  switch (w) {
  case 0: cb.erase(x, y); break;
  case 1: cb.rerase(x, y); break;
  case 2: cb.erase(e); break;
  case 3: cb.rerase(e); break;
#if VP_CLASS == 0
  case 4: cb.rotate(e); break;
  case 5: cb.erase_begin(k); break;
  case 6: cb.erase_end(k); break;
#else
  case 4: cb.rotate(e); break;
  default: vp_stop();
#endif
  }
  MISSED; }
TENTRY(bad_args) { if constexpr (COPYABLE) { Built a(CAPMAX); CB &cb = a.cb; size_t n = a.m.n, p = pick("pos", 0, n), i = vp_concretize(vp_range("i", 1, 3)), j = pick("j", 0, i - 1); int w = (int)vp_concretize(vp_range("which", 0, 9)); alignas(T) char raw[3 * sizeof(T)]; T *x = (T *)raw; for (int k = 0; k < 3; ++k) new (x + k) T(k);
  const T *f = x + i, *l = x + j; It it = cb.begin() + p; size_t c = vp_concretize(vp_range("c", 0, 2)); uint64_t k = vp_any64("k"); vp_assume(k > c); (void)k;
  expect(); vpg_g.any_touch = 1; // making room first is not an access through the inverted range
  switch (w) {
  case 0: cb.insert(it, f, l); break;
  case 1: cb.rinsert(it, f, l); break;
  case 2: cb.assign(f, l); break;
  case 3: cb.assign(CAPARG1(c), f, l); break;
  case 4: { CB z(f, l, VA<T>(7)); } break;
  case 5: { CB z(CAPARG1(c), f, l, VA<T>(7)); } break;
  case 6: cb.assign(CAPARG1(c), (size_t)k, *x); break;
  case 7: { CB z(CAPARG1(c), (size_t)k, *x, VA<T>(7)); } break;
#if VP_CLASS == 1
  case 8: { Ctl z(c, k); } break;
#endif
  default: vp_stop(); }
  MISSED; } else vp_stop(); }
// iterators of another buffer, of a destroyed, swapped, moved-from or assigned-to buffer
TENTRY(bad_foreign) { Built &a = *new (malloc(sizeof(Built))) Built(CAPMAX), &b = *new (malloc(sizeof(Built))) Built(CAP2); size_t n = a.m.n, i = pick("i", 0, n); int w = (int)vp_concretize(vp_range("which", 0, 7)); uint64_t acc = 0;
  It it = a.cb.begin() + i; typename CB::const_iterator cit = it; CB &o = b.cb; bool reused = true;
  switch (w) {
  case 0: a.~Built(); free(&a); reused = false; break;
  case 1: a.cb.swap(o); break;
  case 2: { CB *p = new (malloc(sizeof(CB))) CB(std::move(a.cb)); (void)p; } break;
  case 3: o = std::move(a.cb); break;
  case 4: a.cb = std::move(o); break;
  case 5: vp_assume(i < n); if constexpr (COPYABLE) { a.cb = (const CB &)o; break; } else vp_stop();
  case 6: reused = false; break; // an iterator of a, used with b
  case 7: { CB *p = new (malloc(sizeof(CB))) CB(std::move(a.cb)); (void)p; a.~Built(); free(&a); reused = false; } break;
  }
  (void)reused;
  int use = (int)vp_concretize(vp_range("use", 0, 10)); expect();
  alignas(T) char raw[sizeof(T)]; T *x = new (raw) T(1); vpg_g.at_misuse = elem_ops();
  if (w == 6) { switch (use) {
    case 0: acc = it == o.begin(); break; case 1: acc = o.begin() != it; break; case 2: acc = it < o.end(); break; case 3: acc = o.end() - it; break; case 4: o.insert(it, std::move(*x)); break;
    case 5: o.erase(it); break; case 6: o.rerase(o.begin(), it); break; case 7: o.erase(it, o.end()); break; case 8: o.rotate(cit); break; case 9: o.rinsert(it, std::move(*x)); break; case 10: acc = it - o.begin(); break; } }
  else switch (use) {
    case 0: acc = (uint64_t)&*it; break; case 1: ++it; break; case 2: --it; break; case 3: it += 1; break; case 4: it -= 1; break;
    case 5: acc = (uint64_t)&*cit; break; case 6: { It y(it); --y; } break; case 7: acc = it == it; break; case 8: acc = it - it; break; case 9: acc = it < it; break; case 10: o.insert(it, std::move(*x)); break; }
  vp_observe(acc); MISSED; }
// three iterator objects, a symbolic sequence of registrations, copies, resets, scoped copies, and changes of the buffer
#ifndef REGSTEPS
#define REGSTEPS 3
#endif
ENTRY(registry) { Built a(CAPMAX); CB &cb = a.cb; It its[3]; T *at[3] = {0, 0, 0}; int st[3] = {0, 0, 0}; g_reset_counts(); /* 0 singular, 1 valid element, 2 end, 3 invalid */
  for (int s = 0; s < REGSTEPS; ++s) {
    int act = (int)vp_concretize(vp_range("act", 0, 7)), j = (int)vp_concretize(vp_range("j", 0, 2)); size_t n = cb.size();
    switch (act) {
    case 0: { size_t p = pick("p", 0, n); its[j] = cb.begin() + p; st[j] = p < n ? 1 : 2; at[j] = p < n ? &cb[p] : 0; } break;
    case 1: { int k = (j + 1) % 3; its[j] = its[k]; st[j] = st[k]; at[j] = at[k]; } break;
    case 2: its[j] = It(); st[j] = 0; break;
    case 3: { It y(its[j]); CB::const_iterator z(its[j]); } break; // register and unregister
    case 4: { its[j].~It(); int k = (j + 2) % 3; new (&its[j]) It(its[k]); st[j] = st[k]; at[j] = at[k]; } break;
    case 5: { vp_assume(j == 0 && n > 0); T *p = &cb[0]; cb.pop_front(); for (int k = 0; k < 3; ++k) if (st[k] == 1 && at[k] == p) st[k] = 3; } break;
    case 6: { vp_assume(j == 0 && n > 0); T *p = &cb[n - 1]; cb.pop_back(); for (int k = 0; k < 3; ++k) if (st[k] == 1 && at[k] == p) st[k] = 3; } break;
    case 7: { vp_assume(j == 0 && a.m.cap); T *p = n == a.m.cap ? &cb[0] : 0; cb.push_back(T(3)); for (int k = 0; k < 3; ++k) if (st[k] == 1 && p && at[k] == p) st[k] = 3; } break;
    }
    if (SO && vpg_g.allocs + vpg_g.deallocs) { g_reset_counts(); for (int k = 0; k < 3; ++k) if (st[k] == 1) st[k] = 3; } // the adaptor moved its content
  }
  size_t n = cb.size(); vp_reach("done");
  for (int k = 0; k < 3; ++k) {
    if (st[k] == 1) { vp_reach("valid"); vp_check(&*its[k] == at[k], "valid iterator lost its element"); size_t p = its[k] - cb.begin(); vp_check(p < n && &cb[p] == at[k], "position of a valid iterator"); }
    if (st[k] == 2) { vp_reach("valid end"); vp_check(its[k] == cb.end() && its[k] - cb.begin() == (ptrdiff_t)n, "end iterator"); }
  }
  int v = (int)vp_concretize(vp_range("victim", 0, 3));
  if (v == 3) { for (int k = 0; k < 3; ++k) its[k] = It(); a.~Built(); check_no_blocks(); vp_stop(); }
  if (st[v] != 3) vp_stop();
  CB::const_iterator c(its[v]); vp_reach("invalidated"); misuse(cb, its[v], c); }
// iterators may outlive their buffer, be copied, assigned and destroyed
ENTRY(outlive) { { It x, y; CB::const_iterator z; int how = (int)vp_concretize(vp_range("how", 0, 3));
  { Built *b = new (malloc(sizeof(Built))) Built(CAPMAX); size_t i = pick("i", 0, b->m.n); x = b->cb.begin() + i; y = b->cb.end(); z = b->cb.begin(); { It w(x); y = w; } b->~Built(); free(b); }
  vp_reach("done");
  if (how == 0) x = y; else if (how == 1) { It w(x); CB::const_iterator c(y); z = c; } else if (how == 2) { Built o(CAP2); x = o.cb.begin(); vp_check(x == o.cb.begin(), "reused iterator"); y = x; It w = y; vp_check(w == x, "reused iterator"); } else { x = It(); y = It(); z = CB::const_iterator(); } } }
#endif

// ---------------------------------------------------------------- ranges of other kinds; algorithms on the iterators
// A range operation on a with the given iterators; src: the values they deliver, in order
template <class CB, class I> static void range_op(Built &a, I f, I l, const uint32_t *src, size_t k) {
  CB &cb = a.cb; Seq &m = a.m; int op = (int)vp_concretize(vp_range("op", 0, 5)); size_t c = 0, p = 0;
  if (op == 1 || op == 3) c = pick("newcap", 0, CAPMAX); else if (op >= 4) p = pick("pos", 0, m.n);
  switch (op) {
  case 0: { CB z(f, l, VA<typename CB::value_type>(7)); m.n = m.cap = k; for (size_t i = 0; i < k; ++i) m.v[i] = src[i]; vp_reach("done"); same(z, m, "construction from a range"); use(z); return; }
  case 1: { CB z(CAPARG1(c), f, l, VA<typename CB::value_type>(7)); m.cap = c; m.n = k < c ? k : c; for (size_t i = 0; i < m.n; ++i) m.v[i] = src[k - m.n + i]; vp_reach("done"); same(z, m, "construction from a range with a capacity"); use(z); return; }
  case 2: cb.assign(f, l); m.n = m.cap = k; for (size_t i = 0; i < k; ++i) m.v[i] = src[i]; break;
  case 3: cb.assign(CAPARG1(c), f, l); m.cap = c; m.n = k < c ? k : c; for (size_t i = 0; i < m.n; ++i) m.v[i] = src[k - m.n + i]; break;
  case 4: if constexpr (COPYABLE) { cb.insert(cb.begin() + p, f, l); m.insert(p, src, k); break; } else vp_stop();
  case 5: if constexpr (COPYABLE) { cb.rinsert(cb.begin() + p, f, l); m.rinsert(p, src, k); break; } else vp_stop();
  }
  vp_reach("done"); same(cb, m, "content after an operation taking a range"); use(cb); }
TENTRY(from_buffer) { if constexpr (COPYABLE) { Built a(CAPMAX), b(CAP2); const CB &s = b.cb; size_t k = b.m.n; uint32_t rv[MAXM]; for (size_t i = 0; i < k; ++i) rv[i] = b.m.v[k - 1 - i];
  int how = (int)vp_concretize(vp_range("how", 0, 3));
  if (how == 0) range_op<CB>(a, b.cb.begin(), b.cb.end(), b.m.v, k); else if (how == 1) range_op<CB>(a, s.begin(), s.end(), b.m.v, k); else if (how == 2) range_op<CB>(a, s.rbegin(), s.rend(), rv, k); else range_op<CB>(a, b.cb.rbegin(), b.cb.rend(), rv, k);
  same(b.cb, b.m, "the source of the range changed"); } else vp_stop(); }
TENTRY(from_moved) { if constexpr (IsEl<T>::value) { Built a(CAPMAX); Items s; int how = (int)vp_concretize(vp_range("how", 0, 1));
  if (how == 0) range_op<CB>(a, std::make_move_iterator(s.a), std::make_move_iterator(s.a + s.n), s.v, s.n); else { Src<T> src = {s.a, 0, s.n}; MvIn<T> b = {{&src}}, e = {{0}}; range_op<CB>(a, b, e, s.v, s.n); } } else vp_stop(); }
TENTRY(from_other_type) { if constexpr (std::is_integral<T>::value) { Built a(CAPMAX); uint8_t s[CAPMAX + 1]; uint32_t v[CAPMAX + 1]; size_t k = pick("len", 0, CAPMAX + 1); for (size_t i = 0; i < k; ++i) { s[i] = (uint8_t)vp_any32("v"); v[i] = s[i]; }
  range_op<CB>(a, (const uint8_t *)s, (const uint8_t *)s + k, v, k); } else vp_stop(); }
#include <algorithm>
#include <numeric>
template <class V> static void plain_sort(V *x, size_t n) { for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && x[j] < x[j - 1]; --j) { V t = x[j]; x[j] = x[j - 1]; x[j - 1] = t; } }
ENTRY(algorithms) { Built a(CAPMAX); CB &cb = a.cb; const CB &c = a.cb; Seq &m = a.m; size_t n = m.n, i = pick("from", 0, n), j = pick("to", i, n), len = j - i; int w = (int)vp_concretize(vp_range("which", 0, 17));
  It f = cb.begin() + i, l = cb.begin() + j; CB::const_iterator cf = c.begin() + i, cl = c.begin() + j; uint32_t *v = m.v + i; uint32_t key = H::newval(); T k(key); vp_reach("done");
  auto val = [](const T &x) { return valOf(x); }; (void)val;
  switch (w) {
  case 0: std::sort(f, l); plain_sort(v, len); break;
  case 1: std::reverse(f, l); for (size_t x = 0; x < len / 2; ++x) std::swap(v[x], v[len - 1 - x]); break;
  case 2: { size_t p = pick("mid", 0, len); uint32_t t[MAXM]; for (size_t x = 0; x < len; ++x) t[x] = v[x]; It r = std::rotate(f, f + p, l); vp_check(r - f == (ptrdiff_t)(len - p), "std::rotate"); for (size_t x = 0; x < len; ++x) v[x] = t[(x + p) % len]; break; }
  case 3: { uint32_t r = 0; size_t at = len; for (size_t x = len; x-- > 0;) if (v[x] == key) at = x; (void)r; vp_check(std::find(cf, cl, k) == cf + at, "std::find"); break; }
  case 4: { size_t z = 0; for (size_t x = 0; x < len; ++x) z += v[x] == key; vp_check(std::count(cf, cl, k) == (ptrdiff_t)z, "std::count"); break; }
  case 5: { plain_sort(v, len); std::sort(f, l); size_t z = 0; for (size_t x = 0; x < len; ++x) z += v[x] < key; vp_check(std::lower_bound(cf, cl, k) - cf == (ptrdiff_t)z, "std::lower_bound"); break; }
  case 6: std::stable_sort(f, l); plain_sort(v, len); break;
  case 7: { It r = std::min_element(f, l); size_t b = 0; for (size_t x = 1; x < len; ++x) if (v[x] < v[b]) b = x; vp_check(r == f + (len ? b : 0), "std::min_element"); break; }
  case 8: { It r = std::remove_if(f, l, [&](const T &x) { return valOf(x) == key; }); size_t z = 0; for (size_t x = 0; x < len; ++x) if (v[x] != key) v[z++] = v[x]; vp_check(r == f + z, "std::remove_if"); cb.erase(r, l); m.raw_erase(i + z, len - z); break; }
  case 9: std::make_heap(f, l); std::sort_heap(f, l); plain_sort(v, len); break;
  case 10: { bool s = true; for (size_t x = 1; x < len; ++x) if (v[x] < v[x - 1]) s = false; vp_check(std::is_sorted(cf, cl) == s, "std::is_sorted"); break; }
  case 11: vp_check((size_t)std::distance(cf, cl) == len && std::next(cf, len) == cl && std::prev(cl, len) == cf, "std::distance"); break;
  case 12: if (len) { std::iter_swap(f, l - 1); std::swap(v[0], v[len - 1]); } break;
  case 13: { bool e = true; for (size_t x = 0; x < len; ++x) if (v[x] != m.v[x]) e = false; vp_check(std::equal(cf, cl, c.begin()) == e, "std::equal"); break; }
  case 14: { T t[CAPMAX + 1]; std::move(f, l, t); for (size_t x = 0; x < len; ++x) vp_check(valOf(t[x]) == v[x], "std::move from the buffer"); std::move(t, t + len, f); break; }
  case 15: if (i && len) { std::move_backward(cb.begin() + i - 1, l - 1, l); for (size_t x = len; x-- > 0;) v[x] = m.v[i + x - 1]; if (IsEl<T>::value) cb[i - 1] = T(m.v[i - 1]); } break;
  case 16: { size_t z = 0; for (CB::reverse_iterator x(l), y(f); x != y; ++x) { vp_check(valOf(*x) == v[len - 1 - z], "reverse traversal"); ++z; } std::reverse_iterator<It> r = std::find(std::reverse_iterator<It>(l), std::reverse_iterator<It>(f), k); size_t at = len; for (size_t x = 0; x < len; ++x) if (v[x] == key) at = len - 1 - x; vp_check(r - std::reverse_iterator<It>(l) == (ptrdiff_t)at, "std::find backwards"); break; }
  case 17: std::nth_element(f, f + len / 2, l); if (len) { uint32_t o[MAXM]; for (size_t x = 0; x < len; ++x) o[x] = v[x]; plain_sort(o, len); vp_check(valOf(cb[i + len / 2]) == o[len / 2], "std::nth_element"); } vp_stop();
  }
  same(cb, m, "content after a standard algorithm"); }

// ---------------------------------------------------------------- histories
#ifndef HSTEPS
#define HSTEPS 2
#endif
#ifndef HCAP
#define HCAP CAPMAX + 1 // bound of capacities, sizes and counts chosen during the history
#endif
static const char *const hn[][5] = {{"op0", "p0", "k0", "v0", "w0"}, {"op1", "p1", "k1", "v1", "w1"}, {"op2", "p2", "k2", "v2", "w2"}, {"op3", "p3", "k3", "v3", "w3"}};
template <class CB, class T> static void hstep(CB &cb, Seq &m, int s) {
  int op = (int)vp_concretize(vp_range(hn[s][0], 0, 33));
  auto pos = [&](size_t hi) { return (size_t)vp_concretize(vp_range(hn[s][1], 0, hi)); };
  auto cnt = [&](size_t hi) { return (size_t)vp_concretize(vp_range(hn[s][2], 0, hi)); };
  auto val = [&](int i = 3) { return valOf(T(vp_any32(hn[s][i]))); };
  size_t n = m.n; const bool copyable = std::is_copy_constructible<T>::value;
  switch (op) {
  case 0: { uint32_t v = val(); cb.push_back(T(v)); m.push_back(v); break; }
  case 1: { uint32_t v = val(); cb.push_front(T(v)); m.push_front(v); break; }
  case 2: vp_assume(n > 0); cb.pop_back(); m.n--; break;
  case 3: vp_assume(n > 0); cb.pop_front(); m.raw_erase(0, 1); break;
  case 4: { size_t p = pos(n); uint32_t v = val(); cb.insert(cb.begin() + p, T(v)); m.insert(p, &v, 1); break; }
  case 5: { size_t p = pos(n); uint32_t v = val(); cb.rinsert(cb.begin() + p, T(v)); m.rinsert(p, &v, 1); break; }
  case 6: { size_t p = pos(n ? n - 1 : 0); vp_assume(n > 0); cb.erase(cb.begin() + p); m.raw_erase(p, 1); break; }
  case 7: { size_t p = pos(n ? n - 1 : 0); vp_assume(n > 0); cb.rerase(cb.begin() + p); m.raw_erase(p, 1); break; }
  case 8: { size_t p = pos(n), k = cnt(n - p); cb.erase(cb.begin() + p, cb.begin() + p + k); m.raw_erase(p, k); break; }
  case 9: { size_t p = pos(n), k = cnt(n - p); cb.rerase(cb.begin() + p, cb.begin() + p + k); m.raw_erase(p, k); break; }
  case 10: cb.clear(); m.n = 0; break;
  case 11: cb.linearize(); break;
  case 12: { vp_assume(n > 0); size_t p = pos(n - 1); cb.rotate(cb.begin() + p); uint32_t t[MAXM]; for (size_t i = 0; i < n; ++i) t[i] = m.v[i]; for (size_t i = 0; i < n; ++i) m.v[i] = t[(i + p) % n]; break; }
  case 13: { size_t c = cnt(HCAP), mn = pick_min(c); (void)mn; cb.set_capacity(CAPARG(c)); m.cap = c; if (m.n > c) m.n = c; break; }
  case 14: { size_t c = cnt(HCAP), mn = pick_min(c); (void)mn; cb.rset_capacity(CAPARG(c)); m.cap = c; if (m.n > c) m.raw_erase(0, m.n - c); break; }
  case 15: { CB t(std::move(cb)); cb = std::move(t); break; }
  case 16: { CB t(CAPARG1(2), VA<T>(7)); uint32_t v = val(), w = val(4); t.push_back(T(w)); t.push_back(T(v)); t.pop_front(); cb.swap(t); m.n = 1; m.cap = 2; m.v[0] = v; break; }
  case 17: { CB t(std::move(cb)); vp_check(cb.empty(), "moved-from buffer is not empty"); m.n = 0; if (SO) { cb.set_capacity(CAPARG1(HCAP)); m.cap = HCAP; } else { m.cap = 0; cb.set_capacity(CAPARG1(2)); m.cap = 2; } break; } // goes on with a moved-from buffer
  case 18: { CB t(VA<T>(7)); t = std::move(cb); t.swap(cb); break; }
#if VP_CLASS == 0
  case 19: { size_t k = cnt(n); cb.erase_begin(k); m.raw_erase(0, k); break; }
  case 20: { size_t k = cnt(n); cb.erase_end(k); m.n -= k; break; }
#endif
  default: if constexpr (copyable) switch (op) {
    case 21: { size_t p = pos(n), k = cnt(HCAP); uint32_t v = val(), a[MAXM]; T x(v); for (size_t i = 0; i < k; ++i) a[i] = v; cb.insert(cb.begin() + p, k, x); m.insert(p, a, k); break; }
    case 22: { size_t p = pos(n), k = cnt(HCAP); uint32_t v = val(), a[MAXM]; T x(v); for (size_t i = 0; i < k; ++i) a[i] = v; cb.rinsert(cb.begin() + p, k, x); m.rinsert(p, a, k); break; }
    case 23: { size_t p = pos(n), k = cnt(2); uint32_t a[2] = {val(), val(4)}; T x[2] = {T(a[0]), T(a[1])}; cb.insert(cb.begin() + p, x, x + k); m.insert(p, a, k); break; }
    case 24: { size_t p = pos(n), k = cnt(2); uint32_t a[2] = {val(), val(4)}; T x[2] = {T(a[0]), T(a[1])}; cb.rinsert(cb.begin() + p, x, x + k); m.rinsert(p, a, k); break; }
    case 25: { size_t c = cnt(HCAP); uint32_t v = val(); T x(v); cb.resize(c, x); if (c > m.cap) m.cap = c; for (size_t i = m.n; i < c; ++i) m.v[i] = v; m.n = c; break; }
    case 26: { size_t c = cnt(HCAP); uint32_t v = val(); T x(v); cb.rresize(c, x); if (c > m.cap) m.cap = c; if (c < m.n) m.raw_erase(0, m.n - c); else while (m.n < c) m.raw_insert(0, v); break; }
    case 27: { size_t k = cnt(HCAP); uint32_t v = val(); T x(v); cb.assign(k, x); m.n = m.cap = k; for (size_t i = 0; i < k; ++i) m.v[i] = v; break; }
    case 28: { size_t c = cnt(HCAP), k = pos(c); uint32_t v = val(); T x(v); cb.assign(CAPARG1(c), k, x); m.n = k; m.cap = c; for (size_t i = 0; i < k; ++i) m.v[i] = v; break; }
    case 29: { size_t k = cnt(2); uint32_t a[2] = {val(), val(4)}; T x[2] = {T(a[0]), T(a[1])}; cb.assign(x, x + k); m.n = m.cap = k; for (size_t i = 0; i < k; ++i) m.v[i] = a[i]; break; }
    case 30: { size_t c = cnt(HCAP); uint32_t a[2] = {val(), val(4)}; T x[2] = {T(a[0]), T(a[1])}; cb.assign(CAPARG1(c), x, x + 2); m.cap = c; m.n = c < 2 ? c : 2; for (size_t i = 0; i < m.n; ++i) m.v[i] = a[2 - m.n + i]; break; }
    case 31: { CB t((const CB &)cb); cb.clear(); cb = (const CB &)t; break; }
    case 32: { CB t(CAPARG1(3), VA<T>(7)); uint32_t a[2] = {val(), val(4)}; t.push_back(T(a[0])); t.push_back(T(a[1])); cb = (const CB &)t; m.cap = 3; m.n = 2; m.v[0] = a[0]; m.v[1] = a[1]; break; }
    case 33: { CB t((const CB &)cb); t.swap(cb); break; }
    default: vp_stop(); }
    else vp_stop();
  }
}
template <class CB> static void shape(CB &cb, const Seq &m) { // every way of reading shows the same sequence
  std::pair<typename CB::value_type *, size_t> a(rawp(cb.array_one().first), cb.array_one().second), b(rawp(cb.array_two().first), cb.array_two().second); size_t n = m.n;
  vp_check(a.second + b.second == n && (n == 0 || a.second), "array ranges after a history");
  for (size_t i = 0; i < n; ++i) vp_check(&cb[i] == (i < a.second ? a.first + i : b.first + (i - a.second)), "array ranges after a history");
  size_t k = 0; for (typename CB::iterator i = cb.begin(); i != cb.end(); ++i, ++k) vp_check(k < n && &*i == &cb[k] && i - cb.begin() == (ptrdiff_t)k, "iteration after a history");
  vp_check(k == n && (size_t)(cb.end() - cb.begin()) == n, "iteration after a history");
  for (typename CB::reverse_iterator i = cb.rbegin(); k > 0; ++i) vp_check(&*i == &cb[--k], "reverse iteration after a history");
  vp_check(cb.empty() == (n == 0) && cb.full() == (n == m.cap) && cb.reserve() == m.cap - n, "size observers after a history");
  if (n) vp_check(&cb.front() == &cb[0] && &cb.back() == &cb[n - 1], "front and back after a history");
}
TENTRY(history) { Built a(CAPMAX); CB &cb = a.cb; Seq &m = a.m;
  for (int s = 0; s < HSTEPS; ++s) { hstep<CB, T>(cb, m, s); same(cb, m, "content after a sequence of operations"); }
  vp_reach("done");
  shape(cb, m); vp_check(vpg_g.live == NEL(m.n), "live elements after a sequence of operations");
  vp_check(VP_CLASS == 0 ? elems_of(7) == m.cap : (elems_of(7) >= m.n) & (elems_of(7) <= m.cap), "storage after a sequence of operations"); }

template <class E> static void run_entry() { vpg_g.armed = 0; E::template go<T, CB>(); end_checks(); }
#define X(name) extern "C" void h_##name() { run_entry<e_##name>(); }
ENTRIES
