// Second encoding of queries, used with --lin: machine words as mathematical integers.  Every term of width w is a linear form
// over atoms that is congruent (mod 2^w) to the machine value, with exact bounds; comparisons and divisions first bring it into
// the machine's signed or unsigned range.  A query that does not fit (too wide bounds, other operators) falls back to bit-vectors.
#pragma once
#include "expr.h"
#include <map>
typedef __int128 i128;
struct LinEnc {
  ExprCtx &X; Z3_context z; Z3_sort I = nullptr;
  struct Fail {}; std::string why;
  struct Atom { Z3_ast t; i128 lo, hi; };
  struct Lin { std::map<uint32_t, i128> c; i128 k = 0; };
  std::map<uint32_t, Atom> atoms; // by expression id
  std::map<uint32_t, Lin> lmemo; std::map<uint32_t, Z3_ast> bmemo; std::map<uint32_t, bool> failed;
  static constexpr i128 COEF = (i128)1 << 60, BIG = (i128)1 << 100;
  LinEnc(ExprCtx &x) : X(x), z(x.z3) { I = Z3_mk_int_sort(z); Z3_inc_ref(z, Z3_sort_to_ast(z, I)); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
  Z3_ast num(i128 v) { bool neg = v < 0; if (neg) v = -v; std::string s; if (!v) s = "0"; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } if (neg) s.insert(s.begin(), '-'); return Z3_mk_numeral(z, s.c_str(), I); }
  Z3_ast term(const Lin &l) {
    std::vector<Z3_ast> p; for (auto &a : l.c) if (a.second) { Z3_ast t = atoms[a.first].t; if (a.second != 1) { Z3_ast v[2] = {num(a.second), t}; t = Z3_mk_mul(z, 2, v); } p.push_back(t); }
    if (l.k || p.empty()) p.push_back(num(l.k));
    return p.size() == 1 ? p[0] : Z3_mk_add(z, p.size(), p.data());
  }
  static i128 lim(i128 v) { if (v > BIG || v < -BIG) throw Fail(); return v; }
  void range(const Lin &l, i128 &lo, i128 &hi) { lo = hi = l.k; for (auto &a : l.c) { Atom &t = atoms[a.first]; i128 x = mul(a.second, t.lo), y = mul(a.second, t.hi); lo = lim(lo + std::min(x, y)); hi = lim(hi + std::max(x, y)); } }
  Lin one(E e, Z3_ast t, i128 lo, i128 hi) { atoms[e->id] = {keep(t), lo, hi}; Lin l; l.c[e->id] = 1; return l; }
  static i128 mul(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Fail(); return lim(r); }
  static Lin comb(const Lin &a, const Lin &b, i128 s) { Lin r = a; for (auto &x : b.c) { i128 &c = r.c[x.first]; c = c + mul(s, x.second); if (c > COEF || c < -COEF) throw Fail(); if (!c) r.c.erase(x.first); } r.k = lim(r.k + mul(s, b.k)); return r; }
  Z3_ast ge(Z3_ast a, i128 v) { return Z3_mk_ge(z, a, num(v)); }
  Z3_ast plus(Z3_ast a, i128 v) { Z3_ast x[2] = {a, num(v)}; return Z3_mk_add(z, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(z, 2, x); }
  // the value as a machine integer in [base, base + P), P being the modulus of its width
  Z3_ast norm(const Lin &l, i128 base, i128 P, i128 &lo, i128 &hi) {
    range(l, lo, hi); Z3_ast t = term(l); i128 top = base + P;
    if (lo >= base && hi < top) return t;
    if (lo >= base - P && hi < top) { if (hi < base) { lo += P; hi += P; return plus(t, P); } lo = base; hi = top - 1; return Z3_mk_ite(z, ge(t, base), t, plus(t, P)); }
    if (lo >= base && hi < top + P) { if (lo >= top) { lo -= P; hi -= P; return plus(t, -P); } lo = base; hi = top - 1; return Z3_mk_ite(z, ge(t, top), plus(t, -P), t); }
    lo = base; hi = top - 1; return plus(Z3_mk_mod(z, plus(t, -base), num(P)), base);
  }
  Z3_ast uns(E e, i128 &lo, i128 &hi) { return norm(lin(e), 0, (i128)1 << e->w, lo, hi); }
  Z3_ast sgn(E e, i128 &lo, i128 &hi) { return norm(lin(e), -((i128)1 << e->w) / 2, (i128)1 << e->w, lo, hi); }
  bool divisible(const Lin &l, i128 d, i128 lo, i128 hi, i128 a, i128 b, Lin &r) { if (lo < a || hi > b || l.k % d) return false; for (auto &x : l.c) if (x.second % d) return false; r = l; r.k /= d; for (auto &x : r.c) x.second /= d; return true; }
  Lin lin(E e) {
    auto it = lmemo.find(e->id); if (it != lmemo.end()) return it->second;
    return lmemo[e->id] = lin0(e);
  }
  // the unsigned (base 0) or signed value of a narrower term, as a linear form that is exact
  Lin exact(E key, E a, bool sg) {
    Lin l = lin(a); i128 lo, hi, P = (i128)1 << a->w, base = sg ? -P / 2 : 0; range(l, lo, hi);
    if (lo >= base && hi < base + P) return l;
    if (lo >= base - P && hi < base) { l.k += P; return l; }
    if (lo >= base + P && hi < base + 2 * P) { l.k -= P; return l; }
    Z3_ast t = norm(l, base, P, lo, hi); return one(key, t, lo, hi);
  }
  Z3_ast div(Z3_ast t, i128 d) { return Z3_mk_div(z, t, num(d)); }
  Z3_ast mod(Z3_ast t, i128 d) { return Z3_mk_mod(z, t, num(d)); }
  Z3_ast neg(Z3_ast t) { return Z3_mk_unary_minus(z, t); }
  Lin lin0(E e) {
    if (e->w == 1) throw Fail();
    E a = e->k[0], b = e->k[1]; i128 lo, hi, W = (i128)1 << e->w; bool cb = b && b->op == CONST;
    switch (e->op) {
    case CONST: { Lin l; l.k = (i128)sx(e->val, e->w); return l; }
    case VAR: return one(e, Z3_mk_const(z, Z3_mk_int_symbol(z, (int)e->val), I), e->lo, e->hi);
    case ADD: return comb(lin(a), lin(b), 1);
    case SUB: return comb(lin(a), lin(b), -1);
    case MUL: if (cb) { Lin z0; return comb(z0, lin(a), sx(b->val, e->w)); } throw Fail();
    case SHL: if (cb && b->val < std::min<unsigned>(e->w, 60)) { Lin z0; return comb(z0, lin(a), (i128)1 << b->val); } throw Fail();
    case XOR: if (cb && b->val == maskw(e->w)) { Lin m; m.k = -1; return comb(m, lin(a), -1); } throw Fail();
    case AND: { if (!cb || !b->val) throw Fail(); uint64_t m = b->val, n = ~m & maskw(e->w); Z3_ast t = uns(a, lo, hi);
      if (!(m & (m + 1))) return one(e, mod(t, (i128)m + 1), 0, m);
      if (!(n & (n + 1))) { return one(e, sub(t, mod(t, (i128)n + 1)), 0, hi); }
      throw Fail(); }
    case OR: if (a->tz >= 64 - (b->hi ? __builtin_clzll(b->hi) : 64) || b->tz >= 64 - (a->hi ? __builtin_clzll(a->hi) : 64)) return comb(lin(a), lin(b), 1); throw Fail(); // no common bits
    case ITE: { Lin x = lin(b), y = lin(e->k[2]); i128 l2, h2; range(x, lo, hi); range(y, l2, h2); return one(e, Z3_mk_ite(z, boolE(a), term(x), term(y)), std::min(lo, l2), std::max(hi, h2)); }
    case ZEXT: if (a->w == 1) return one(e, Z3_mk_ite(z, boolE(a), num(1), num(0)), 0, 1); return exact(e, a, false);
    case SEXT: if (a->w == 1) return one(e, Z3_mk_ite(z, boolE(a), num(-1), num(0)), -1, 0); return exact(e, a, true);
    case EXTRACT: if (!e->val) return lin(a); { Z3_ast t = uns(a, lo, hi); i128 d = (i128)1 << e->val; return one(e, div(t, d), lo / d, hi / d); }
    case CONCAT: { if (b->w == 1 || a->w == 1 || b->w > 56) throw Fail(); Lin r = exact(b, b, false); return comb(r, lin(a), (i128)1 << b->w); }
    case UDIV: case LSHR: { if (!cb || (e->op == UDIV && !b->val) || (e->op == LSHR && b->val > 62) || b->val >> 62) throw Fail();
      i128 d = e->op == LSHR ? (i128)1 << b->val : (i128)b->val; Lin l = lin(a), r; range(l, lo, hi); if (divisible(l, d, lo, hi, 0, W - 1, r)) return r;
      Z3_ast t = norm(l, 0, W, lo, hi); return one(e, div(t, d), lo / d, hi / d); }
    case UREM: { if (!cb || !b->val || b->val >> 62) throw Fail(); Z3_ast t = uns(a, lo, hi); return one(e, mod(t, b->val), 0, b->val - 1); }
    case ASHR: { if (!cb || b->val > 62 || b->val >= e->w) throw Fail(); i128 d = (i128)1 << b->val; Lin l = lin(a), r; range(l, lo, hi); if (divisible(l, d, lo, hi, -W / 2, W / 2 - 1, r)) return r;
      Z3_ast t = norm(l, -W / 2, W, lo, hi); return one(e, div(t, d), lo / d - 1, hi / d + 1); } // integer division by a positive number rounds down
    case SDIV: { if (!cb || !b->val || b->val == 1ull << (e->w - 1)) throw Fail(); if (sx(b->val, e->w) < 0) { Lin z0; return comb(z0, lin(X.bin(SDIV, a, X.cst(-b->val, e->w))), -1); } i128 d = (i128)b->val; Lin l = lin(a), r; range(l, lo, hi); if (divisible(l, d, lo, hi, -W / 2, W / 2 - 1, r)) return r;
      Z3_ast t = norm(l, -W / 2, W, lo, hi), q; if (lo >= 0) q = div(t, d); else q = Z3_mk_ite(z, ge(t, 0), div(t, d), neg(div(neg(t), d)));
      return one(e, q, lo / d - 1, hi / d + 1); }
    case SREM: { if (!cb || !b->val || b->val >> (e->w - 1)) throw Fail(); i128 d = b->val; Z3_ast t = sgn(a, lo, hi);
      return one(e, lo >= 0 ? mod(t, d) : Z3_mk_ite(z, ge(t, 0), mod(t, d), neg(mod(neg(t), d))), lo >= 0 ? 0 : 1 - d, d - 1); }
    default: throw Fail();
    }
  }
  Z3_ast boolE(E e) {
    auto it = bmemo.find(e->id); if (it != bmemo.end()) return it->second;
    return bmemo[e->id] = keep(bool0(e));
  }
  Z3_ast bool0(E e) {
    if (e->w != 1) throw Fail();
    E a = e->k[0], b = e->k[1]; i128 l1, h1, l2, h2;
    switch (e->op) {
    case CONST: return e->val ? Z3_mk_true(z) : Z3_mk_false(z);
    case VAR: return X.toZ3(e);
    case EXTRACT: { Z3_ast t = uns(a, l1, h1); return Z3_mk_eq(z, mod(e->val ? div(t, (i128)1 << e->val) : t, 2), num(1)); }
    case AND: { Z3_ast v[2] = {boolE(a), boolE(b)}; return Z3_mk_and(z, 2, v); }
    case OR: { Z3_ast v[2] = {boolE(a), boolE(b)}; return Z3_mk_or(z, 2, v); }
    case XOR: return b == X.t1 ? Z3_mk_not(z, boolE(a)) : Z3_mk_xor(z, boolE(a), boolE(b));
    case ITE: return Z3_mk_ite(z, boolE(a), boolE(b), boolE(e->k[2]));
    case EQ: { if (a->w == 1) return Z3_mk_iff(z, boolE(a), boolE(b));
      i128 P = (i128)1 << a->w; Lin d = comb(lin(a), lin(b), -1); range(d, l1, h1); if (l1 > -P && h1 < P) return Z3_mk_eq(z, term(d), num(0));
      return Z3_mk_eq(z, uns(a, l1, h1), uns(b, l2, h2)); }
    case ULT: case ULE: case SLT: case SLE: { if (a->w == 1) throw Fail(); bool sg = e->op == SLT || e->op == SLE, lt = e->op == ULT || e->op == SLT;
      i128 P = (i128)1 << a->w, base = sg ? -P / 2 : 0; Lin x = lin(a), y = lin(b); range(x, l1, h1); range(y, l2, h2); Z3_ast p, q;
      if (l1 >= base && h1 < base + P && l2 >= base && h2 < base + P) { Lin d = comb(x, y, -1); return lt ? Z3_mk_lt(z, term(d), num(0)) : Z3_mk_le(z, term(d), num(0)); }
      p = norm(x, base, P, l1, h1); q = norm(y, base, P, l2, h2); return lt ? Z3_mk_lt(z, p, q) : Z3_mk_le(z, p, q); }
    default: throw Fail();
    }
  }
  // all of `es`, with the ranges of the variables they mention; false if a term does not fit
  bool encode(const std::vector<E> &es, const std::vector<uint32_t> &vars, std::vector<Z3_ast> &out) {
    try { for (E e : es) { if (failed.count(e->id)) return false; try { out.push_back(boolE(e)); } catch (Fail &) { failed[e->id] = true; why = Z3_ast_to_string(z, X.toZ3(e)); throw; } } } catch (Fail &) { return false; }
    for (uint32_t v : vars) { E e = X.vars[v].e; if (e->w == 1) continue; Z3_ast t = Z3_mk_const(z, Z3_mk_int_symbol(z, (int)v), I); out.push_back(ge(t, e->lo)); out.push_back(Z3_mk_le(z, t, num(e->hi))); }
    return true;
  }
};
