// Shared harness vocabulary: instrumented element types, recording allocator, reference sequence, iterators.
#pragma once
#include "vp.h"
#ifndef VP_DEBUG
#define VP_DEBUG 0
#endif
#if VP_DEBUG
#define BOOST_CB_ENABLE_DEBUG 1
#else
#define BOOST_CB_ENABLE_DEBUG 0
#endif
#define BOOST_EXCEPTION_DISABLE
#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/circular_buffer.hpp>
#if defined(VP_FANCY) && VP_FANCY == 2
#include <boost/interprocess/offset_ptr.hpp>
#endif
#include <new>
#include <utility>
#include <type_traits>
#include <iterator>

#ifndef CAPMAX
#define CAPMAX 4
#endif
#ifndef VP_LARGE
#define VP_LARGE 0  // 1: one capacity of CAPMAX; offsets, sizes, positions, counts and lengths from the ends, next to them and in the middle
#endif
static const bool LARGE = VP_LARGE;
#define MAXM (VP_LARGE ? 2 * CAPMAX + 10 : 40)

#ifndef VP_LIFE
#define VP_LIFE 0   // 1: check element lifetimes
#endif
#ifndef VP_ALLOC
#define VP_ALLOC 0  // 1: check the allocator protocol
#endif
#define LCHK(c, w) do { if (VP_LIFE) vp_check((c), (w)); } while (0)
#define ACHK(c, w) do { if (VP_ALLOC) vp_check((c), (w)); } while (0)

static inline size_t spread(uint64_t x, uint64_t lo, uint64_t hi) {
  if (LARGE) vp_assume((x == lo) | (x == lo + 1) | (x == lo + (hi - lo) / 2) | (x + 1 == hi) | (x == hi));
  return vp_concretize(x);
}
static inline size_t pick(const char *name, uint64_t lo, uint64_t hi) { return spread(vp_range(name, lo, hi), lo, hi); }

struct Boom {};

enum { RAW = 0x5241u, LIVE = 0x11AAu, MOVED = 0x22BBu, DEAD = 0x33CCu, GONE = 0xDEADBEEFu /* value left behind by a move */ };
enum { NBLK = 8 };
struct VpBlk { char *p; size_t n, es; uint32_t id, elem; };
struct VpG {
  uint32_t armed, ops, throw_at, thrown;                       // fault injection
  uint32_t dctor, vctor, cctor, mctor, cassign, massign, dtor; // element operations
  uint32_t allocs, deallocs, fail_alloc, expect_assert, at_misuse, any_touch;
  uint32_t live;                                               // live elements, everywhere
  uint32_t st_copied, st_moved;                                // copies / moves taken from elements in buffer storage
  uint64_t maxsz;                                              // what the allocator's max_size() says (0: the default)
  uint32_t acons, adest; void *cons_at, *dest_at;              // elements created / destroyed through the allocator
};
extern "C" {
#ifdef VP_MAIN
VpG vpg_g; VpBlk vpg_blk[NBLK];
#else
extern VpG vpg_g; extern VpBlk vpg_blk[NBLK];
#endif
}
static inline void g_touch() { // a point where an element operation may throw
  if (vpg_g.armed) { if (vpg_g.ops++ == vpg_g.throw_at) { vpg_g.thrown = 1; vpg_g.armed = 0; throw Boom(); } }
}
static inline VpBlk *g_find(const void *q) {
  for (int i = 0; i < NBLK; ++i) { VpBlk &b = vpg_blk[i]; if (b.p && (const char *)q >= b.p && (const char *)q < b.p + b.n * b.es) return &b; }
  return 0;
}
static inline void g_reset_counts() { vpg_g.dctor = vpg_g.vctor = vpg_g.cctor = vpg_g.mctor = vpg_g.cassign = vpg_g.massign = vpg_g.dtor = 0; vpg_g.allocs = vpg_g.deallocs = 0; vpg_g.st_copied = vpg_g.st_moved = 0; }

#ifndef VP_FROM
#define VP_FROM 0
#endif
static inline void g_from(const void *o, int mv) { if (VP_FROM && g_find(o)) { if (mv) vpg_g.st_moved++; else vpg_g.st_copied++; } }

#ifdef VP_ACONS
static inline void g_cons(void *p) { if (vpg_g.cons_at == p) vpg_g.cons_at = 0; else if (g_find(p)) vp_fail("an element was created in the buffer's storage bypassing the allocator's construct"); }
static inline void g_dest(void *p) { if (vpg_g.dest_at == p) vpg_g.dest_at = 0; else if (g_find(p)) vp_fail("an element in the buffer's storage was destroyed bypassing the allocator's destroy"); }
#else
static inline void g_cons(void *) {}
static inline void g_dest(void *) {}
#endif

namespace boost {
inline void assertion_failed(char const *, char const *, char const *, long) {
  if (vpg_g.expect_assert) { if (!vpg_g.any_touch) vp_check(vpg_g.at_misuse == vpg_g.dctor + vpg_g.vctor + vpg_g.cctor + vpg_g.mctor + vpg_g.cassign + vpg_g.massign + vpg_g.dtor, "an element was touched before the misuse was reported"); vp_reach("assertion"); vp_stop(); }
  vp_fail("library assertion failed on correct use");
}
inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { vp_fail("library assertion failed on correct use"); }
}

// ---- element types -------------------------------------------------------------------------------------
enum { E_COPY = 1, E_MOVE = 2, E_NTMOVE = 4 };
template <int K> struct El {
  volatile uint32_t magic; uint32_t val;
  static const bool counted = true;
  void born() { g_cons((void *)this); if (VP_LIFE && g_find(this)) LCHK((magic != LIVE) & (magic != MOVED), "construction over a live element"); magic = LIVE; vpg_g.live++; }
  void alive(const char *w) const { if (VP_LIFE) { uint32_t m = magic; LCHK((m == LIVE) | (m == MOVED), w); } }
  El() : val(0) { g_touch(); vpg_g.dctor++; born(); }
  explicit El(uint32_t v) : val(v) { g_touch(); vpg_g.vctor++; born(); }
  El(const El &o) { o.alive("copy from a dead element"); g_touch(); vpg_g.cctor++; g_from(&o, 0); val = o.val; uint32_t m = o.magic; born(); magic = m; }
  El &operator=(const El &o) { alive("assignment to a dead element"); o.alive("copy from a dead element"); g_touch(); vpg_g.cassign++; g_from(&o, 0); val = o.val; magic = o.magic; return *this; }
  ~El() { g_dest(this); alive("destruction of a dead element"); vpg_g.dtor++; vpg_g.live--; magic = DEAD; }
  bool operator==(const El &o) const { alive("comparison of a dead element"); o.alive("comparison of a dead element"); return val == o.val; }
  bool operator<(const El &o) const { alive("comparison of a dead element"); o.alive("comparison of a dead element"); return val < o.val; }
};
// movable variants (copyable or not; nothrow or throwing move)
template <bool Copy, bool Nothrow, bool NtAssign = Nothrow> struct ElM {
  volatile uint32_t magic; uint32_t val;
  static const bool counted = true;
  void born() { g_cons((void *)this); if (VP_LIFE && g_find(this)) LCHK((magic != LIVE) & (magic != MOVED), "construction over a live element"); magic = LIVE; vpg_g.live++; }
  void alive(const char *w) const { if (VP_LIFE) { uint32_t m = magic; LCHK((m == LIVE) | (m == MOVED), w); } }
  ElM() : val(0) { g_touch(); vpg_g.dctor++; born(); }
  explicit ElM(uint32_t v) : val(v) { g_touch(); vpg_g.vctor++; born(); }
  ElM(ElM &&o) noexcept(Nothrow) { o.alive("move from a dead element"); if (!Nothrow) g_touch(); vpg_g.mctor++; g_from(&o, 1); val = o.val; uint32_t m = o.magic; born(); magic = m; o.magic = MOVED; o.val = GONE; }
  ElM &operator=(ElM &&o) noexcept(NtAssign) { alive("assignment to a dead element"); o.alive("move from a dead element"); if (!NtAssign) g_touch(); vpg_g.massign++; g_from(&o, 1); val = o.val; uint32_t m = o.magic; if (this != &o) { o.magic = MOVED; o.val = GONE; } magic = m; return *this; }
  ElM(const ElM &o) requires Copy { o.alive("copy from a dead element"); g_touch(); vpg_g.cctor++; g_from(&o, 0); val = o.val; uint32_t m = o.magic; born(); magic = m; }
  ElM &operator=(const ElM &o) requires Copy { alive("assignment to a dead element"); o.alive("copy from a dead element"); g_touch(); vpg_g.cassign++; g_from(&o, 0); val = o.val; magic = o.magic; return *this; }
  ~ElM() { g_dest(this); alive("destruction of a dead element"); vpg_g.dtor++; vpg_g.live--; magic = DEAD; }
  bool operator==(const ElM &o) const { alive("comparison of a dead element"); o.alive("comparison of a dead element"); return val == o.val; }
  bool operator<(const ElM &o) const { alive("comparison of a dead element"); o.alive("comparison of a dead element"); return val < o.val; }
};
typedef El<E_COPY> ECopy;              // copy only (C++03 style class)
typedef ElM<true, true> ENt;           // copyable, nothrow move
typedef ElM<true, false> ETm;          // copyable, move may throw
typedef ElM<false, true> EMo;          // move-only, nothrow
typedef ElM<true, true, false> EMa;    // copyable, nothrow move construction, move assignment may throw
typedef ElM<true, false, true> EMb;    // copyable, move construction may throw, nothrow move assignment
struct EPod { // trivially copyable class of 12 bytes
  uint32_t val, inv, sum;
  EPod() : val(0), inv(~0u), sum(~0u) {}
  explicit EPod(uint32_t v) : val(v), inv(~v), sum(2 * v + ~v) {}
  bool operator==(const EPod &o) const { return val == o.val; }
  bool operator<(const EPod &o) const { return val < o.val; }
};
static inline uint32_t valOf(const EPod &e) { vp_check((e.inv == ~e.val) & (e.sum == 2 * e.val + e.inv), "element is torn"); return e.val; }
static inline uint32_t valOf(uint32_t v) { return v; }
static inline uint32_t valOf(uint8_t v) { return v; }
template <int K> static inline uint32_t valOf(const El<K> &e) { LCHK(e.magic == LIVE, "element of the sequence is not alive"); return e.val; }
template <bool A, bool B, bool C> static inline uint32_t valOf(const ElM<A, B, C> &e) { LCHK(e.magic == LIVE, "element of the sequence is dead or moved-from"); return e.val; }
template <class T> struct IsEl { static const bool value = false; };
template <int K> struct IsEl<El<K>> { static const bool value = true; };
template <bool A, bool B, bool C> struct IsEl<ElM<A, B, C>> { static const bool value = true; };
#ifdef VP_ACONS // elements of EPod (trivial constructors and destructor) are counted by the allocator
template <class T> struct Counted { static const bool value = IsEl<T>::value || std::is_same<T, EPod>::value; };
#else
template <class T> struct Counted { static const bool value = IsEl<T>::value; };
#endif

// ---- allocator -----------------------------------------------------------------------------------------
// Self-relative pointer, as shared-memory allocators use: the distance to the pointee is stored (1: null), so that a
// bitwise copy designates something else.  Never null checks are left out on purpose.
template <class T> struct FP {
  typedef T element_type; typedef std::remove_cv_t<T> value_type; typedef ptrdiff_t difference_type; typedef FP pointer; typedef T &reference; typedef std::random_access_iterator_tag iterator_category;
  template <class U> using rebind = FP<U>;
  uintptr_t d;
  T *get() const { return d == 1 ? 0 : (T *)((uintptr_t)this + d); }
  void set(T *p) { d = p ? (uintptr_t)p - (uintptr_t)this : 1; }
  FP() { set(0); }
  FP(T *p) { set(p); }
  FP(const FP &o) { set(o.get()); }
  template <class U, class = std::enable_if_t<std::is_convertible<U *, T *>::value>> FP(const FP<U> &o) { set(o.get()); }
  FP &operator=(const FP &o) { set(o.get()); return *this; }
  FP &operator=(T *p) { set(p); return *this; }
  T &operator*() const { return *get(); }
  T *operator->() const { return get(); }
  T &operator[](ptrdiff_t i) const { return get()[i]; }
  explicit operator bool() const { return d != 1; }
  bool operator!() const { return d == 1; }
  static FP pointer_to(T &x) { return FP(&x); }
  FP &operator+=(ptrdiff_t n) { set(get() + n); return *this; }
  FP &operator-=(ptrdiff_t n) { set(get() - n); return *this; }
  FP &operator++() { set(get() + 1); return *this; }
  FP &operator--() { set(get() - 1); return *this; }
  FP operator++(int) { FP r(*this); ++*this; return r; }
  FP operator--(int) { FP r(*this); --*this; return r; }
  friend FP operator+(const FP &a, ptrdiff_t n) { return FP(a.get() + n); }
  friend FP operator+(ptrdiff_t n, const FP &a) { return FP(a.get() + n); }
  friend FP operator-(const FP &a, ptrdiff_t n) { return FP(a.get() - n); }
};
#define FPREL(o) template <class T, class U> inline auto operator o(const FP<T> &a, const FP<U> &b) -> decltype(a.get() o b.get()) { return a.get() o b.get(); } \
  template <class T> inline bool operator o(const FP<T> &a, T *b) { return a.get() o b; } template <class T> inline bool operator o(T *a, const FP<T> &b) { return a o b.get(); }
FPREL(==) FPREL(!=) FPREL(<) FPREL(>) FPREL(<=) FPREL(>=)
template <class T, class U> inline ptrdiff_t operator-(const FP<T> &a, const FP<U> &b) { return a.get() - b.get(); }
template <class T> inline bool operator==(const FP<T> &a, int) { return !a; }
template <class T> inline bool operator!=(const FP<T> &a, int) { return !!a; }
template <class T> static inline T *rawp(T *p) { return p; }
template <class T> static inline T *rawp(const FP<T> &p) { return p.get(); }
#if defined(VP_FANCY) && VP_FANCY == 2
template <class T> static inline T *rawp(const boost::interprocess::offset_ptr<T> &p) { return p.get(); }
#endif

template <class T> struct VA {
  typedef T value_type;
#ifdef VP_STATELESS
  static const uint32_t id = 7;
  VA(uint32_t = 7) {}
  template <class U> VA(const VA<U> &) {}
#else
  uint32_t id;
  VA(uint32_t i = 7) : id(i) {}
  template <class U> VA(const VA<U> &o) : id(o.id) {}
#endif
#ifdef VP_MAXSIZE
  size_t max_size() const { return vpg_g.maxsz ? vpg_g.maxsz : ~(size_t)0 / sizeof(T); }
#endif
#ifdef VP_ACONS // elements of containers are created and destroyed by the allocator
  template <class... A> void construct(T *p, A &&...a) { if constexpr (!IsEl<T>::value) { ::new ((void *)p) T(std::forward<A>(a)...); if (Counted<T>::value) vpg_g.live++; } else cons_at(p, std::forward<A>(a)...); }
  template <class... A> static void cons_at(T *p, A &&...a) { void *c = vpg_g.cons_at; vpg_g.cons_at = p; try { ::new ((void *)p) T(std::forward<A>(a)...); } catch (...) { vpg_g.cons_at = c; throw; } vp_check(vpg_g.cons_at == 0, "harness: element construction not noticed"); vpg_g.cons_at = c; vpg_g.acons++; }
  void destroy(T *p) { if constexpr (!IsEl<T>::value) { p->~T(); if (Counted<T>::value) vpg_g.live--; return; } void *c = vpg_g.dest_at; vpg_g.dest_at = p; p->~T(); vp_check(vpg_g.dest_at == 0, "harness: element destruction not noticed"); vpg_g.dest_at = c; vpg_g.adest++; }
#endif
#ifdef VP_FANCY
#if VP_FANCY == 2
  typedef boost::interprocess::offset_ptr<T> pointer;
#else
  typedef FP<T> pointer;
#endif
  pointer allocate(size_t n) { return pointer(allocate_(n)); }
  void deallocate(const pointer &p, size_t n) { deallocate_(rawp(p), n); }
#else
  T *allocate(size_t n) { return allocate_(n); }
  void deallocate(T *p, size_t n) { deallocate_(p, n); }
#endif
  T *allocate_(size_t n) {
    if (vpg_g.armed && vpg_g.fail_alloc) g_touch();
    vpg_g.allocs++;
    ACHK(n != 0, "allocation of zero elements");
    T *p = (T *)malloc(n * sizeof(T));
    int i = 0; while (i < NBLK && vpg_blk[i].p) ++i;
    if (i == NBLK) vp_fail("harness: too many blocks");
    vpg_blk[i].p = (char *)p; vpg_blk[i].n = n; vpg_blk[i].es = sizeof(T); vpg_blk[i].id = id; vpg_blk[i].elem = IsEl<T>::value;
    if constexpr (IsEl<T>::value) for (size_t k = 0; k < n; ++k) p[k].magic = RAW;
    return p;
  }
  void deallocate_(T *p, size_t n) {
    vpg_g.deallocs++;
    for (int i = 0; i < NBLK; ++i) if (vpg_blk[i].p == (char *)p) {
      ACHK(vpg_blk[i].n == n, "storage returned with a size different from the requested one");
      ACHK(vpg_blk[i].id == id, "storage returned to a different allocator");
      if constexpr (IsEl<T>::value) for (size_t k = 0; k < vpg_blk[i].n; ++k) LCHK((p[k].magic != LIVE) & (p[k].magic != MOVED), "storage returned while it holds a live element");
      vpg_blk[i].p = 0;
      free(p);
      return;
    }
    vp_fail("deallocation of storage that is not allocated");
  }
  friend bool operator==(const VA &a, const VA &b) { return a.id == b.id; }
  friend bool operator!=(const VA &a, const VA &b) { return a.id != b.id; }
};
static inline void check_no_blocks() { for (int i = 0; i < NBLK; ++i) vp_check(vpg_blk[i].p == 0, "storage leaked"); }
static inline int n_blocks() { int n = 0; for (int i = 0; i < NBLK; ++i) n += vpg_blk[i].p != 0; return n; }

// ---- reference sequence --------------------------------------------------------------------------------
struct Seq {
  size_t n, cap; uint32_t v[MAXM];
  Seq() : n(0), cap(0) {}
  void raw_insert(size_t pos, uint32_t x) { for (size_t i = n; i > pos; --i) v[i] = v[i - 1]; v[pos] = x; ++n; }
  void put(size_t pos, const uint32_t *x, size_t k) { for (size_t i = n; i > pos; --i) v[i - 1 + k] = v[i - 1]; for (size_t i = 0; i < k; ++i) v[pos + i] = x[i]; n += k; }
  void raw_erase(size_t pos, size_t k) { for (size_t i = pos; i + k < n; ++i) v[i] = v[i + k]; n -= k; }
  void push_back(uint32_t x) { if (!cap) return; if (n == cap) raw_erase(0, 1); v[n++] = x; }
  void push_front(uint32_t x) { if (!cap) return; if (n == cap) --n; raw_insert(0, x); }
  // documented bulk semantics: insert the items, then drop from the front (insert) / back (rinsert) down to capacity,
  // except that elements at or after (before) the insertion point are never dropped: excess items are.
  void insert(size_t pos, const uint32_t *x, size_t k) {
    size_t room = pos + (cap - n); size_t skip = k > room ? k - room : 0;
    put(pos, x + skip, k - skip);
    if (n > cap) raw_erase(0, n - cap);
  }
  void rinsert(size_t pos, const uint32_t *x, size_t k) {
    size_t room = (n - pos) + (cap - n); if (k > room) k = room;
    put(pos, x, k);
    if (n > cap) n = cap;
  }
};

// ---- iterators -----------------------------------------------------------------------------------------
template <class T> struct Src { const T *a; size_t pos, n; };
template <class T> struct InIt { // genuinely single-pass: all copies share one cursor
  typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef const T *pointer; typedef const T &reference;
  Src<T> *s;
  struct Proxy { const T *p; const T &operator*() const { return *p; } };
  reference operator*() const { if (s->pos >= s->n) vp_fail("input range read past its end"); return s->a[s->pos]; }
  pointer operator->() const { return &**this; }
  InIt &operator++() { if (s->pos >= s->n) vp_fail("input range advanced past its end"); ++s->pos; return *this; }
  Proxy operator++(int) { if (s->pos >= s->n) vp_fail("input range advanced past its end"); Proxy p = {s->a + s->pos}; ++s->pos; return p; }
  friend bool operator==(const InIt &a, const InIt &b) { bool ea = !a.s || a.s->pos == a.s->n, eb = !b.s || b.s->pos == b.s->n; return ea == eb; }
  friend bool operator!=(const InIt &a, const InIt &b) { return !(a == b); }
};
template <class T> struct FwIt {
  typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef const T *pointer; typedef const T &reference;
  const T *p;
  FwIt(const T *q = 0) : p(q) {}
  reference operator*() const { return *p; }
  pointer operator->() const { return p; }
  FwIt &operator++() { ++p; return *this; }
  FwIt operator++(int) { FwIt r = *this; ++p; return r; }
  friend bool operator==(const FwIt &a, const FwIt &b) { return a.p == b.p; }
  friend bool operator!=(const FwIt &a, const FwIt &b) { return a.p != b.p; }
};
template <class T> struct MvIn { // single-pass range whose items may be moved from
  typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef T *pointer; typedef T &&reference;
  InIt<T> i;
  struct Proxy { T *p; T &&operator*() const { return std::move(*p); } };
  reference operator*() const { return std::move(const_cast<T &>(*i)); }
  MvIn &operator++() { ++i; return *this; }
  Proxy operator++(int) { Proxy p = {const_cast<T *>((i++).p)}; return p; }
  friend bool operator==(const MvIn &a, const MvIn &b) { return a.i == b.i; }
  friend bool operator!=(const MvIn &a, const MvIn &b) { return !(a == b); }
};
