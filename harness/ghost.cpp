// Position arithmetic for capacities of any size: the storage of a small real buffer is replaced by an
// imaginary one (any base address, capacity, start and size up to the address-space limit). Nothing here
// touches an element, so the storage need not exist.
#include "vp.h"
#define BOOST_CB_ENABLE_DEBUG 0
#define BOOST_EXCEPTION_DISABLE
#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/circular_buffer.hpp>
#include <new>
#include <string.h>
#include <stdexcept>
namespace boost {
inline void assertion_failed(char const *, char const *, char const *, long) { vp_fail("library assertion failed on correct use"); }
inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { vp_fail("library assertion failed on correct use"); }
}
#ifndef VP_ES
#define VP_ES 4
#endif
template <int N> struct GhostT { unsigned char b[N]; };
template <> struct GhostT<1> { unsigned char b; };
#if VP_ES == 1
typedef uint8_t T;
#elif VP_ES == 4
typedef uint32_t T;
#elif VP_ES == 8
typedef uint64_t T;
#else
typedef GhostT<VP_ES> T;
#endif
#ifdef VP_GHOSTCLASS
struct G1 { T t; G1() : t() {} };
#define T G1
#endif
typedef boost::circular_buffer<T> CB;
typedef CB::iterator It; typedef CB::const_iterator Cit;
enum { ES = sizeof(T) };
#ifndef VP_AS
#define VP_AS 60
#endif
static const uint64_t AS_ES = ((uint64_t)1 << VP_AS) / ES;

struct Ghost { // an arbitrary huge buffer
  CB *cb; const CB *c; uint64_t base, cap, off, n;
  Ghost() {
    cb = new (malloc(sizeof(CB))) CB(7); c = cb;
    T x = T(); for (int i = 0; i < 5; ++i) cb->push_back(x); cb->pop_front(); cb->pop_front();
    // the words of the object that hold the start and end of storage, first, one past the last, and the size
    uint64_t w[sizeof(CB) / 8], f = (uint64_t)&(*cb)[0], b = f - 2 * ES, val[5] = {b, b + 7 * ES, f, f + 3 * ES, 3}; int at[5];
    memcpy(w, (void *)cb, sizeof w);
    for (int k = 0; k < 5; ++k) { at[k] = -1; for (size_t i = 0; i < sizeof(CB) / 8; ++i) if (w[i] == val[k]) at[k] = at[k] < 0 ? (int)i : -2; if (at[k] < 0) vp_stop(); } // another representation: nothing is claimed
    vp_reach("representation");
    const uint64_t AS = (uint64_t)1 << VP_AS; // size of the address space
    base = vp_range("base", 64, AS / alignof(T)) * alignof(T); cap = vp_range("cap", 1, AS / ES); off = vp_range("start", 0, AS / ES); n = vp_range("size", 0, AS / ES);
    vp_assume((cap <= cb->max_size()) & (off < cap) & (n <= cap)); 
    uint64_t nv[5] = {base, base + cap * ES, addr(0), addr0(wrap(off + n)), n};
    for (int k = 0; k < 5; ++k) w[at[k]] = nv[k];
    memcpy((void *)cb, w, sizeof w);
  }
  uint64_t wrap(uint64_t i) const { return i < cap ? i : i - cap; }
  uint64_t addr0(uint64_t i) const { return base + i * ES; }
  uint64_t addr(uint64_t i) const { return addr0(wrap(off + i)); } // of element i < cap
  uint64_t elem(const char *name) const { uint64_t i = vp_range(name, 0, AS_ES); vp_assume(i < n); return i; }
  uint64_t place(const char *name) const { uint64_t i = vp_range(name, 0, AS_ES); vp_assume(i <= n); return i; }
  template <class I> I it(uint64_t i) const { return I(cb->begin() + (ptrdiff_t)i); }
};
#define A(x) ((uint64_t)&(x))
#define ENTRY(name) static void b_##name()
ENTRY(g_index) { Ghost g; CB &cb = *g.cb; const CB &c = cb; uint64_t i = g.elem("i"), p = g.addr(i);
  vp_reach("done"); if (i + g.off >= g.cap) vp_reach("wrapped");
  vp_check(A(cb[i]) == p, "operator[]"); vp_check(A(c[i]) == p, "operator[] const"); }
ENTRY(g_at) { Ghost g; CB &cb = *g.cb; const CB &c = cb; uint64_t i = vp_any64("i"); bool out = false; vp_reach("done");
  try { uint64_t p = vp_concretize(vp_range("which", 0, 1)) ? A(cb.at(i)) : A(c.at(i)); vp_check(i < g.n, "at() accepts an index out of range"); vp_check(p == g.addr(i), "at()"); } catch (std::out_of_range &) { out = true; }
  if (out) { vp_reach("out of range"); vp_check(i >= g.n, "at() rejects a valid index"); } }
ENTRY(g_ends) { Ghost g; CB &cb = *g.cb; const CB &c = cb; vp_assume(g.n > 0); vp_reach("done");
  vp_check(A(cb.front()) == g.addr(0) && A(c.front()) == g.addr(0), "front()"); vp_check(A(cb.back()) == g.addr(g.n - 1) && A(c.back()) == g.addr(g.n - 1), "back()");
  vp_check(A(*cb.begin()) == g.addr(0) && A(*--cb.end()) == g.addr(g.n - 1) && A(*c.rbegin()) == g.addr(g.n - 1), "begin() and end()"); }
ENTRY(g_sizes) { Ghost g; const CB &c = *g.c; vp_reach("done");
  vp_check(c.size() == g.n && c.capacity() == g.cap && c.reserve() == g.cap - g.n && c.empty() == (g.n == 0) && c.full() == (g.n == g.cap), "size observers");
  if (g.n) vp_check(c.is_linearized() == (g.off + g.n <= g.cap), "is_linearized()"); }
ENTRY(g_arrays) { Ghost g; CB &cb = *g.cb; const CB &c = cb; vp_reach("done"); uint64_t one = g.off + g.n <= g.cap ? g.n : g.cap - g.off;
  CB::array_range a = cb.array_one(), b = cb.array_two(); CB::const_array_range ca = c.array_one(), d = c.array_two();
  vp_check(a.second == one && ca.second == one, "length of array_one()"); vp_check(b.second == g.n - one && d.second == g.n - one, "length of array_two()");
  if (g.n) vp_check((uint64_t)a.first == g.addr(0) && (uint64_t)ca.first == g.addr(0), "start of array_one()");
  if (g.n > one) { vp_reach("wrapped"); vp_check((uint64_t)b.first == g.base && (uint64_t)d.first == g.base, "start of array_two()"); } }
ENTRY(g_plus) { Ghost g; uint64_t i = g.place("i"), j = g.place("j"); int w = (int)vp_concretize(vp_range("which", 0, 5)); It x = g.cb->begin() + (ptrdiff_t)i; vp_reach("done"); ptrdiff_t d = (ptrdiff_t)(j - i);
  if (w == 0) x += d; else if (w == 1) x = x + d; else if (w == 2) x -= -d; else if (w == 3) x = x - -d; else if (w == 4) x = d + x; else { vp_assume(j < g.n); vp_check(A(x[d]) == g.addr(j), "iterator[]"); return; }
  vp_check(x == g.cb->begin() + (ptrdiff_t)j, "iterator arithmetic");
  if (j < g.n) vp_check(A(*x) == g.addr(j), "iterator arithmetic"); else vp_check(x == g.cb->end(), "iterator arithmetic reaching end()"); }
ENTRY(g_minus) { Ghost g; uint64_t i = g.place("i"), j = g.place("j"); It x = g.cb->begin() + (ptrdiff_t)i; Cit y = g.c->begin() + (ptrdiff_t)j; vp_reach("done");
  vp_check(x - y == (ptrdiff_t)(i - j) && y - x == (ptrdiff_t)(j - i), "iterator difference"); }
ENTRY(g_order) { Ghost g; uint64_t i = g.place("i"), j = g.place("j"); It x = g.cb->begin() + (ptrdiff_t)i; Cit y = g.c->begin() + (ptrdiff_t)j; vp_reach("done");
  vp_check((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "iterator order"); vp_check((x == y) == (i == j) && (x != y) == (i != j), "iterator equality"); }
ENTRY(g_step) { Ghost g; uint64_t i = g.elem("i"); It x = g.cb->begin() + (ptrdiff_t)i; It y = x; ++y; vp_reach("done");
  vp_check(y == g.cb->begin() + (ptrdiff_t)(i + 1), "++"); if (i + 1 < g.n) vp_check(A(*y) == g.addr(i + 1), "++"); else vp_check(y == g.cb->end(), "++ reaching end()");
  --y; vp_check(y == x && A(*y) == g.addr(i), "--"); }
ENTRY(g_end) { Ghost g; uint64_t k = g.place("k"); vp_reach("done"); It e = g.cb->end() - (ptrdiff_t)k; if (k) vp_check(A(*e) == g.addr(g.n - k), "end() - k"); else vp_check(e == g.cb->end(), "end() - 0");
  vp_check(g.cb->end() - g.cb->begin() == (ptrdiff_t)g.n, "end() - begin()"); if (k) vp_check(A(g.cb->rbegin()[(ptrdiff_t)(k - 1)]) == g.addr(g.n - k), "reverse iterator"); }
ENTRY(g_rotate) { Ghost g; vp_assume(g.n == g.cap); uint64_t i = g.elem("i"), j = g.elem("j"); uint64_t was = g.addr(i + j < g.n ? i + j : i + j - g.n); g.cb->rotate(g.cb->begin() + (ptrdiff_t)i); vp_reach("done");
  vp_check(g.cb->size() == g.n && g.cb->capacity() == g.cap, "size after rotate"); vp_check(A((*g.cb)[j]) == was, "element after rotate"); }
ENTRY(g_pop) { Ghost g; vp_assume(g.n > 0); uint64_t j = g.elem("j"); bool f = vp_concretize(vp_range("front", 0, 1)); if (f) g.cb->pop_front(); else g.cb->pop_back(); vp_reach("done");
  vp_check(g.cb->size() == g.n - 1 && g.cb->capacity() == g.cap, "size after pop"); vp_assume(j < g.n - 1); vp_check(A((*g.cb)[j]) == g.addr(f ? j + 1 : j), "elements after pop"); vp_check(A(g.cb->back()) == g.addr(f ? g.n - 1 : g.n - 2), "back() after pop"); }
#ifndef VP_GHOSTCLASS
ENTRY(g_erase_begin) { Ghost g; uint64_t k = g.place("k"); g.cb->erase_begin(k); vp_reach("done"); vp_check(g.cb->size() == g.n - k && g.cb->capacity() == g.cap, "size after erase_begin");
  if (k < g.n) { uint64_t j = vp_range("j", 0, AS_ES); vp_assume(j < g.n - k); vp_check(A((*g.cb)[j]) == g.addr(j + k), "elements after erase_begin"); vp_check(A(g.cb->back()) == g.addr(g.n - 1), "back() after erase_begin"); } }
ENTRY(g_erase_end) { Ghost g; uint64_t k = g.place("k"); g.cb->erase_end(k); vp_reach("done"); vp_check(g.cb->size() == g.n - k && g.cb->capacity() == g.cap, "size after erase_end");
  if (k < g.n) { uint64_t j = vp_range("j", 0, AS_ES); vp_assume(j < g.n - k); vp_check(A((*g.cb)[j]) == g.addr(j), "elements after erase_end"); vp_check(A(g.cb->back()) == g.addr(g.n - k - 1), "back() after erase_end"); } }
ENTRY(g_clear) { Ghost g; g.cb->clear(); vp_reach("done"); vp_check(g.cb->size() == 0 && g.cb->empty() && g.cb->capacity() == g.cap && g.cb->begin() == g.cb->end() && g.cb->reserve() == g.cap, "clear"); }
#endif
ENTRY(g_linear) { Ghost g; vp_assume((g.n > 0) & (g.off + g.n <= g.cap)); uint64_t i = g.elem("i"); uint64_t p = (uint64_t)g.cb->linearize(); vp_reach("done"); vp_check(p == g.addr(0) && A((*g.cb)[i]) == g.addr(i) && g.cb->size() == g.n, "linearize() of a linear buffer"); }
ENTRY(g_same) { Ghost g; vp_assume(g.n > 0); uint64_t i = g.elem("i"); int w = (int)vp_concretize(vp_range("which", 0, 4)); // requests that change nothing
  switch (w) { case 0: g.cb->set_capacity(g.cap); break; case 1: g.cb->rset_capacity(g.cap); break; case 2: g.cb->erase_begin(0); break; case 3: g.cb->erase_end(0); break; case 4: g.cb->swap(*g.cb); break; }
  vp_reach("done"); vp_check(g.cb->size() == g.n && g.cb->capacity() == g.cap && A((*g.cb)[i]) == g.addr(i), "a request that changes nothing"); }
ENTRY(g_move) { Ghost g; vp_assume(g.n > 0); uint64_t i = g.elem("i"); int w = (int)vp_concretize(vp_range("which", 0, 2)); CB *o = new (malloc(sizeof(CB))) CB(w == 2 ? 3 : 0);
  if (w == 0) { free(o); o = new (malloc(sizeof(CB))) CB(std::move(*g.cb)); } else if (w == 1) *o = std::move(*g.cb); else o->swap(*g.cb);
  vp_reach("done"); vp_check(o->size() == g.n && o->capacity() == g.cap, "size after moving"); vp_check(A((*o)[i]) == g.addr(i), "elements after moving"); }
#define X(name) extern "C" void h_##name() { b_##name(); vp_stop(); }
ENTRIES
