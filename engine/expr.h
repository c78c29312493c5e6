// Hash-consed bit-vector expressions with folding, and their Z3 translation.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT, AGG };
struct Ex;
typedef Ex *E;
struct Ex {
  uint8_t op, w, taint, leaves; // leaves: >0 if this is an ITE tree whose leaves are all constants
  uint8_t tz;                   // known trailing zero bits
  uint32_t id, hash, epoch;
  uint64_t val;                 // CONST: value, VAR: index, EXTRACT: low bit
  uint64_t ev;                  // last evaluation (valid if epoch == current)
  uint64_t lo, hi;              // unsigned interval
  E k[3];
  Z3_ast z;
  std::vector<E> *agg;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; uint64_t lo, hi; bool uninit; E e; };

struct ExprCtx {
  std::vector<Ex *> table; // open addressing
  size_t count = 0;
  uint32_t nextId = 0;
  char *arena = nullptr; size_t left = 0;
  uint32_t epoch = 0;
  std::vector<VarInfo> vars;
  std::map<std::string, E> varKey;
  Z3_context z3 = nullptr;
  E t1, f1;
  E small[65][257];

  ExprCtx() {
    table.resize(1 << 16, nullptr);
    memset(small, 0, sizeof small);
    f1 = cst(0, 1); t1 = cst(1, 1);
  }
  Ex *alloc() {
    if (left < sizeof(Ex)) { left = 1 << 20; arena = (char *)malloc(left); }
    Ex *r = (Ex *)arena; arena += sizeof(Ex); left -= sizeof(Ex);
    return r;
  }
  static uint32_t hashOf(uint8_t op, uint8_t w, uint64_t val, E a, E b, E c) {
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
    h = (h ^ val) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ (a ? a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ (b ? b->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
    h = (h ^ (c ? c->id + 1 : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    return (uint32_t)h;
  }
  void grow() {
    std::vector<Ex *> nt(table.size() * 2, nullptr);
    size_t m = nt.size() - 1;
    for (Ex *e : table) if (e) { size_t i = e->hash & m; while (nt[i]) i = (i + 1) & m; nt[i] = e; }
    table.swap(nt);
  }
  // intern without simplification
  E intern(uint8_t op, uint8_t w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr) {
    uint32_t h = hashOf(op, w, val, a, b, c);
    size_t m = table.size() - 1, i = h & m;
    while (Ex *e = table[i]) {
      if (e->hash == h && e->op == op && e->w == w && e->val == val && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
      i = (i + 1) & m;
    }
    Ex *e = alloc();
    memset(e, 0, sizeof *e);
    e->op = op; e->w = w; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->hash = h; e->id = nextId++;
    table[i] = e;
    if (++count * 2 > table.size()) grow();
    e->taint = (a ? a->taint : 0) | (b ? b->taint : 0) | (c ? c->taint : 0);
    props(e);
    return e;
  }
  E cst(uint64_t v, unsigned w) {
    v &= maskw(w);
    if (v < 257) { E &s = small[w][v]; if (!s) s = intern(CONST, w, v); return s; }
    return intern(CONST, w, v);
  }
  static bool addOv(uint64_t a, uint64_t b, unsigned w) { uint64_t r = a + b; return r < a || r > maskw(w); }
  static bool mulOv(uint64_t a, uint64_t b, unsigned w) { unsigned __int128 r = (unsigned __int128)a * b; return r > maskw(w); }
  void props(E e) {
    uint64_t M = maskw(e->w);
    e->lo = 0; e->hi = M; e->tz = 0; e->leaves = 0;
    E a = e->k[0], b = e->k[1], c = e->k[2];
    switch (e->op) {
    case CONST: e->lo = e->hi = e->val; e->leaves = 1; e->tz = e->val ? __builtin_ctzll(e->val) : e->w; break;
    case ADD:
      if (!addOv(a->hi, b->hi, e->w)) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
      else if (b->op == CONST && (uint64_t)-sx(b->val, b->w) <= a->lo && sx(b->val, b->w) < 0) { // subtracting a constant without borrow
        uint64_t d = -sx(b->val, b->w); e->lo = a->lo - d; e->hi = a->hi - d; }
      e->tz = std::min(a->tz, b->tz); break;
    case SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } e->tz = std::min(a->tz, b->tz); break;
    case MUL: if (!mulOv(a->hi, b->hi, e->w)) { e->lo = a->lo * b->lo; e->hi = a->hi * b->hi; }
      e->tz = std::min<unsigned>(e->w, a->tz + b->tz); break;
    case UDIV: if (b->op == CONST && b->val) { e->lo = a->lo / b->val; e->hi = a->hi / b->val; } break;
    case UREM: e->hi = b->lo ? std::min(a->hi, b->hi - 1) : a->hi; break;
    case AND: e->hi = std::min(a->hi, b->hi); e->tz = std::max(a->tz, b->tz); break;
    case OR: case XOR: { uint64_t m = a->hi | b->hi; for (int s = 1; s < 64; s <<= 1) m |= m >> s; e->hi = m & M; e->tz = std::min(a->tz, b->tz); break; }
    case LSHR: if (b->op == CONST && b->val < e->w) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } break;
    case EQ: case ULT: case ULE: case SLT: case SLE: break;
    case ITE: e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); e->tz = std::min(b->tz, c->tz);
      if (b->leaves && c->leaves && b->leaves + c->leaves <= 24) e->leaves = b->leaves + c->leaves; break;
    case ZEXT: e->lo = a->lo; e->hi = a->hi; e->tz = a->tz == a->w ? e->w : a->tz; break;
    case SEXT: if (a->hi <= (maskw(a->w) >> 1)) { e->lo = a->lo; e->hi = a->hi; } e->tz = a->tz; break;
    case EXTRACT: if (e->val == 0 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; } if (e->val == 0) e->tz = std::min<unsigned>(a->tz, e->w); break;
    case CONCAT: e->tz = b->tz; { e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; } break;
    default: break;
    }
  }
  E var(const std::string &key, const std::string &name, unsigned w, uint64_t lo, uint64_t hi, bool uninit) {
    auto it = varKey.find(key);
    if (it != varKey.end()) return it->second;
    E e = intern(VAR, w, vars.size());
    e->lo = lo; e->hi = hi; e->taint = uninit ? 1 : 0;
    vars.push_back({name, w, lo, hi, uninit, e});
    varKey[key] = e;
    return e;
  }
  static uint64_t foldc(uint8_t op, uint64_t a, uint64_t b, unsigned w, bool &ok) {
    ok = true; uint64_t M = maskw(w);
    switch (op) {
    case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
    case UDIV: if (!b) { return M; } return a / b;
    case UREM: if (!b) { return a; } return a % b;
    case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (uint64_t)(-(uint64_t)x) & M; return (uint64_t)(x / y) & M; }
    case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & M; case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: { int64_t x = sx(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : x >> b) & M; }
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
    }
    ok = false; return 0;
  }
  static bool isCmp(uint8_t op) { return op >= EQ && op <= SLE; }

  E notE(E a) {
    if (a->op == CONST) return a->val ? f1 : t1;
    if (a->op == XOR && a->k[1] == t1) return a->k[0];
    if (a->op == ULT) return bin(ULE, a->k[1], a->k[0]);
    if (a->op == ULE) return bin(ULT, a->k[1], a->k[0]);
    if (a->op == SLT) return bin(SLE, a->k[1], a->k[0]);
    if (a->op == SLE) return bin(SLT, a->k[1], a->k[0]);
    return intern(XOR, 1, 0, a, t1);
  }
  E bin(uint8_t op, E a, E b) {
    unsigned w = a->w; bool ok;
    if (a->op == CONST && b->op == CONST) return cst(foldc(op, a->val, b->val, w, ok), isCmp(op) ? 1 : w);
    // push operators with one constant side into ITE trees with constant leaves
    if (b->op == CONST && a->op == ITE && a->leaves) return mapIte(op, a, b, false);
    if (a->op == CONST && b->op == ITE && b->leaves) return mapIte(op, b, a, true);
    uint64_t M = maskw(w);
    switch (op) {
    case ADD:
      if (a->op == CONST) std::swap(a, b);
      if (b->op == CONST) {
        if (!b->val) return a;
        if (a->op == ADD && a->k[1]->op == CONST) return bin(ADD, a->k[0], cst(a->k[1]->val + b->val, w));
        if (a->op == SUB && a->k[0]->op == CONST) return bin(SUB, cst(a->k[0]->val + b->val, w), a->k[1]);
      } else {
        if (a->op == ADD && a->k[1]->op == CONST) return bin(ADD, bin(ADD, a->k[0], b), a->k[1]);
        if (b->op == ADD && b->k[1]->op == CONST) return bin(ADD, bin(ADD, a, b->k[0]), b->k[1]);
        if (a->op == SUB && a->k[1] == b) return a->k[0];
        if (b->op == SUB && b->k[1] == a) return b->k[0];
        if (a->op == SUB && a->k[0]->op == CONST) return bin(ADD, bin(SUB, b, a->k[1]), a->k[0]);
        if (b->op == SUB && b->k[0]->op == CONST) return bin(ADD, bin(SUB, a, b->k[1]), b->k[0]);
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case SUB:
      if (a == b) return cst(0, w);
      if (b->op == CONST) return bin(ADD, a, cst(-b->val, w));
      if (b->op == ADD && b->k[1]->op == CONST) return bin(ADD, bin(SUB, a, b->k[0]), cst(-b->k[1]->val, w));
      if (a->op == ADD && a->k[1]->op == CONST) return bin(ADD, bin(SUB, a->k[0], b), a->k[1]);
      if (a->op == ADD && a->k[0] == b) return a->k[1];
      if (a->op == ADD && a->k[1] == b) return a->k[0];
      if (a->op == ADD && b->op == ADD) {
        if (a->k[0] == b->k[0]) return bin(SUB, a->k[1], b->k[1]);
        if (a->k[0] == b->k[1]) return bin(SUB, a->k[1], b->k[0]);
        if (a->k[1] == b->k[0]) return bin(SUB, a->k[0], b->k[1]);
        if (a->k[1] == b->k[1]) return bin(SUB, a->k[0], b->k[0]);
      }
      if (a->op == SUB && a->k[0] == b) return bin(SUB, cst(0, w), a->k[1]);
      if (b->op == SUB && b->k[0] == a) return b->k[1];
      if (a->op == CONST && b->op == SUB && b->k[0]->op == CONST) return bin(ADD, b->k[1], cst(a->val - b->k[0]->val, w));
      if (a->op == CONST && a->val == 0 && b->op == SUB) return bin(SUB, b->k[1], b->k[0]);
      if (a->op == MUL && b->op == MUL && a->k[1] == b->k[1] && a->k[1]->op == CONST) return bin(MUL, bin(SUB, a->k[0], b->k[0]), a->k[1]);
      break;
    case MUL:
      if (a->op == CONST) std::swap(a, b);
      if (b->op == CONST) {
        if (!b->val) return b;
        if (b->val == 1) return a;
        if (a->op == MUL && a->k[1]->op == CONST) return bin(MUL, a->k[0], cst(a->k[1]->val * b->val, w));
        if (a->op == ADD && a->k[1]->op == CONST) return bin(ADD, bin(MUL, a->k[0], b), cst(a->k[1]->val * b->val, w));
        if (a->op == SUB && a->k[0]->op == CONST) return bin(SUB, cst(a->k[0]->val * b->val, w), bin(MUL, a->k[1], b));
      } else if (a->id > b->id) std::swap(a, b);
      break;
    case UDIV:
      if (b->op == CONST && b->val == 1) return a;
      if (b->op == CONST && b->val && a->hi < b->val) return cst(0, w);
      if (b->op == CONST && b->val && a->op == MUL && a->k[1] == b && !mulOv(a->k[0]->hi, b->val, w)) return a->k[0];
      if (b->op == CONST && b->val && !(b->val & (b->val - 1))) return bin(LSHR, a, cst(__builtin_ctzll(b->val), w));
      break;
    case SDIV:
      if (b->op == CONST && b->val == 1) return a;
      if (b->op == CONST && (b->val >> (w - 1)) == 0 && (a->hi >> (w - 1)) == 0) return bin(UDIV, a, b);
      break;
    case UREM:
      if (b->op == CONST && b->val && !(b->val & (b->val - 1))) return bin(AND, a, cst(b->val - 1, w));
      if (a->hi < b->lo) return a;
      break;
    case AND:
      if (a == b) return a;
      if (a->op == CONST) std::swap(a, b);
      if (b->op == CONST) {
        if (!b->val) return b;
        if (b->val == M) return a;
        if (!(b->val & (b->val + 1)) && a->hi <= b->val) return a;
        if (a->op == AND && a->k[1]->op == CONST) return bin(AND, a->k[0], cst(a->k[1]->val & b->val, w));
        if (!(b->val & (b->val + 1)) && w > 1) { unsigned n = __builtin_popcountll(b->val); if (n < w) return zext(extract(a, 0, n), w); }
      } else {
        if (w == 1 && (notOf(a, b))) return f1;
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case OR:
      if (a == b) return a;
      if (a->op == CONST) std::swap(a, b);
      if (b->op == CONST) { if (!b->val) return a; if (b->val == M) return b; }
      else { if (w == 1 && notOf(a, b)) return t1; if (a->id > b->id) std::swap(a, b); }
      if (b->op == CONST && a->tz >= 1 && w > 1 && !(b->val >> a->tz)) return bin(ADD, a, b);
      break;
    case XOR:
      if (a == b) return cst(0, w);
      if (a->op == CONST) std::swap(a, b);
      if (b->op == CONST) {
        if (!b->val) return a;
        if (w == 1) return notE(a);
        if (a->op == XOR && a->k[1]->op == CONST) return bin(XOR, a->k[0], cst(a->k[1]->val ^ b->val, w));
      } else if (a->id > b->id) std::swap(a, b);
      break;
    case SHL:
      if (b->op == CONST) { if (b->val >= w) return cst(0, w); if (!b->val) return a; return bin(MUL, a, cst(1ull << b->val, w)); }
      break;
    case LSHR:
      if (b->op == CONST) {
        if (b->val >= w) return cst(0, w);
        if (!b->val) return a;
        if ((a->hi >> b->val) == 0) return cst(0, w);
        if (a->op == MUL && a->k[1]->op == CONST && a->k[1]->val == (1ull << b->val) && !mulOv(a->k[0]->hi, a->k[1]->val, w)) return a->k[0];
        if (a->op == LSHR && a->k[1]->op == CONST) return bin(LSHR, a->k[0], cst(a->k[1]->val + b->val, w));
      }
      break;
    case ASHR:
      if (b->op == CONST) {
        if (!b->val) return a;
        if ((a->hi >> (w - 1)) == 0) return bin(LSHR, a, b);
      }
      break;
    case EQ:
      if (a == b) return t1;
      if (a->hi < b->lo || b->hi < a->lo) return f1;
      if (a->op == CONST) std::swap(a, b);
      if (b->op == CONST) {
        if (w == 1) return b->val ? a : notE(a);
        if (b->val & maskw(a->tz)) return f1;
        if (a->op == ADD && a->k[1]->op == CONST) return bin(EQ, a->k[0], cst(b->val - a->k[1]->val, w));
        if (a->op == SUB && a->k[0]->op == CONST) return bin(EQ, a->k[1], cst(a->k[0]->val - b->val, w));
        if (a->op == SUB && b->val == 0) return bin(EQ, a->k[0], a->k[1]);
        if (a->op == ZEXT) { if (b->val > maskw(a->k[0]->w)) return f1; return bin(EQ, a->k[0], cst(b->val, a->k[0]->w)); }
        if (a->op == SEXT) { unsigned n = a->k[0]->w; if (((uint64_t)sx(b->val & maskw(n), n) & M) != b->val) return f1; return bin(EQ, a->k[0], cst(b->val, n)); }
        if (a->op == MUL && a->k[1]->op == CONST && !mulOv(a->k[0]->hi, a->k[1]->val, w)) {
          if (b->val % a->k[1]->val) return f1;
          return bin(EQ, a->k[0], cst(b->val / a->k[1]->val, w));
        }
      } else {
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return bin(EQ, a->k[0], b->k[0]);
        if (a->op == ADD && a->k[1]->op == CONST && b->op == ADD && b->k[1]->op == CONST) return bin(EQ, bin(ADD, a->k[0], cst(a->k[1]->val - b->k[1]->val, w)), b->k[0]);
        if (a->op == MUL && b->op == MUL && a->k[1] == b->k[1] && a->k[1]->op == CONST && !mulOv(a->k[0]->hi, a->k[1]->val, w) && !mulOv(b->k[0]->hi, b->k[1]->val, w)) return bin(EQ, a->k[0], b->k[0]);
        if (w == 1 && notOf(a, b)) return f1;
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case ULT:
      if (a == b) return f1;
      if (a->hi < b->lo) return t1;
      if (a->lo >= b->hi) return f1;
      if (w == 1) return bin(AND, notE(a), b);
      if (b->op == CONST && b->val == 1) return bin(EQ, a, cst(0, w));
      if (b->op == CONST && a->lo + 1 == b->val) return bin(EQ, a, cst(a->lo, w));
      if (a->op == CONST && b->hi == a->val + 1) return bin(EQ, b, cst(b->hi, w));
      if (E r = cmpScaled(op, a, b)) return r;
      break;
    case ULE:
      if (a == b) return t1;
      if (a->hi <= b->lo) return t1;
      if (a->lo > b->hi) return f1;
      if (w == 1) return bin(OR, notE(a), b);
      if (b->op == CONST && b->val == a->lo) return bin(EQ, a, b);
      if (a->op == CONST && b->hi == a->val) return bin(EQ, a, b);
      if (E r = cmpScaled(op, a, b)) return r;
      break;
    case SLT: case SLE: {
      if (a == b) return op == SLE ? t1 : f1;
      uint64_t sb = 1ull << (w - 1);
      if (w > 1 && a->hi < sb && b->hi < sb) return bin(op == SLT ? ULT : ULE, a, b);
      if (w > 1 && a->lo >= sb && b->hi < sb) return t1;
      if (w > 1 && a->hi < sb && b->lo >= sb) return f1;
      break; }
    default: break;
    }
    return intern(op, isCmp(op) ? 1 : w, 0, a, b);
  }
  // (x*k + c) < (y*k + d) style comparisons are left to the solver except for a shared no-overflow scale.
  E cmpScaled(uint8_t op, E a, E b) {
    unsigned w = a->w;
    E x = a, y = b; uint64_t c = 0, d = 0;
    if (a->op == ADD && a->k[1]->op == CONST && !addOv(a->k[0]->hi, a->k[1]->val, w)) { x = a->k[0]; c = a->k[1]->val; }
    else if (a->op == CONST) { x = nullptr; c = a->val; }
    if (b->op == ADD && b->k[1]->op == CONST && !addOv(b->k[0]->hi, b->k[1]->val, w)) { y = b->k[0]; d = b->k[1]->val; }
    else if (b->op == CONST) { y = nullptr; d = b->val; }
    if ((!c && x) || (!d && y)) { return nullptr; }
    uint64_t m = std::min(c, d);
    if (!m) return nullptr;
    E na = x ? bin(ADD, x, cst(c - m, w)) : cst(c - m, w), nb = y ? bin(ADD, y, cst(d - m, w)) : cst(d - m, w);
    return bin(op, na, nb);
  }
  bool notOf(E a, E b) {
    return (a->op == XOR && a->k[1] == t1 && a->k[0] == b) || (b->op == XOR && b->k[1] == t1 && b->k[0] == a) ||
           (a->op == ULT && b->op == ULE && a->k[0] == b->k[1] && a->k[1] == b->k[0]) || (a->op == ULE && b->op == ULT && a->k[0] == b->k[1] && a->k[1] == b->k[0]) ||
           (a->op == SLT && b->op == SLE && a->k[0] == b->k[1] && a->k[1] == b->k[0]) || (a->op == SLE && b->op == SLT && a->k[0] == b->k[1] && a->k[1] == b->k[0]);
  }
  E mapIte(uint8_t op, E t, E c, bool constLeft) {
    if (t->op == CONST) { bool ok; return constLeft ? cst(foldc(op, c->val, t->val, t->w, ok), isCmp(op) ? 1 : t->w) : cst(foldc(op, t->val, c->val, t->w, ok), isCmp(op) ? 1 : t->w); }
    return ite(t->k[0], mapIte(op, t->k[1], c, constLeft), mapIte(op, t->k[2], c, constLeft));
  }
  template <class F> E mapIte1(E t, F f) { return t->op == CONST ? f(t) : ite(t->k[0], mapIte1(t->k[1], f), mapIte1(t->k[2], f)); }
  E ite(E c, E a, E b) {
    if (c->op == CONST) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == XOR && c->k[1] == t1) return ite(c->k[0], b, a);
    if (a->w == 1) {
      if (a->op == CONST && b->op == CONST) return a->val ? c : notE(c);
      if (a->op == CONST) return a->val ? bin(OR, c, b) : bin(AND, notE(c), b);
      if (b->op == CONST) return b->val ? bin(OR, notE(c), a) : bin(AND, c, a);
    }
    if (a->op == ITE && a->k[0] == c) a = a->k[1];
    if (b->op == ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (b->op == ITE && b->k[1] == a) return ite(bin(OR, c, b->k[0]), a, b->k[2]);
    if (a->op == ITE && a->k[2] == b) return ite(bin(AND, c, a->k[0]), a->k[1], b);
    return intern(ITE, a->w, 0, c, a, b);
  }
  E zext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == CONST) return cst(a->val, w);
    if (a->op == ZEXT) return zext(a->k[0], w);
    if (a->leaves) return mapIte1(a, [&](E x) { return cst(x->val, w); });
    return intern(ZEXT, w, 0, a);
  }
  E sext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == CONST) return cst((uint64_t)sx(a->val, a->w), w);
    if (a->hi <= (maskw(a->w) >> 1)) return zext(a, w);
    if (a->leaves) return mapIte1(a, [&](E x) { return cst((uint64_t)sx(x->val, x->w), w); });
    return intern(SEXT, w, 0, a);
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && a->w == w) return a;
    if (a->op == CONST) return cst(a->val >> lo, w);
    if (a->leaves) return mapIte1(a, [&](E x) { return cst(x->val >> lo, w); });
    if (a->op == EXTRACT) return extract(a->k[0], a->val + lo, w);
    if (a->op == ZEXT) { if (lo >= a->k[0]->w) return cst(0, w); if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w); if (lo == 0) return zext(a->k[0], w); }
    if (a->op == CONCAT) { unsigned l = a->k[1]->w; if (lo + w <= l) return extract(a->k[1], lo, w); if (lo >= l) return extract(a->k[0], lo - l, w); }
    if (lo == 0 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR) && (a->k[1]->op == CONST || a->k[0]->op == ZEXT || a->k[0]->op == CONST))
      return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
    if (a->op == ITE && (a->k[1]->op == CONST || a->k[2]->op == CONST)) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
    return intern(EXTRACT, w, lo, a);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat width %u\n", w); abort(); }
    if (hi->op == CONST && lo->op == CONST) return cst((hi->val << lo->w) | lo->val, w);
    if (hi->op == CONST && hi->val == 0) return zext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->val == lo->val + lo->w) return extract(lo->k[0], lo->val, w);
    if (hi->op == EXTRACT && hi->k[0] == lo && hi->val == lo->w) return extract(lo, 0, w);
    return intern(CONCAT, w, 0, hi, lo);
  }
  // the same expression with every variable for uninitialised memory replaced by a second, independent one
  std::unordered_map<E, E> primed;
  E prime(E e) {
    if (!e->taint) return e;
    auto it = primed.find(e); if (it != primed.end()) return it->second;
    E r = e;
    switch (e->op) {
    case VAR: r = var("'" + std::to_string(e->val), vars[e->val].name, e->w, vars[e->val].lo, vars[e->val].hi, true); break;
    case ITE: { E a = prime(e->k[0]), b = prime(e->k[1]), c = prime(e->k[2]); r = ite(a, b, c); break; }
    case ZEXT: r = zext(prime(e->k[0]), e->w); break;
    case SEXT: r = sext(prime(e->k[0]), e->w); break;
    case EXTRACT: r = extract(prime(e->k[0]), e->val, e->w); break;
    case CONCAT: { E a = prime(e->k[0]), b = prime(e->k[1]); r = concat(a, b); break; }
    case AGG: case CONST: break;
    default: { E a = prime(e->k[0]), b = prime(e->k[1]); r = bin(e->op, a, b); }
    }
    return primed[e] = r;
  }
  E agg(const std::vector<E> &v) {
    uint64_t h = 1469598103934665603ull;
    for (E e : v) h = (h ^ (e ? e->id + 1 : 0)) * 1099511628211ull;
    static std::unordered_multimap<uint64_t, E> tab;
    auto r = tab.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) if (*i->second->agg == v) return i->second;
    Ex *e = alloc(); memset(e, 0, sizeof *e);
    e->op = AGG; e->agg = new std::vector<E>(v); e->id = nextId++;
    tab.emplace(h, e);
    return e;
  }
  // --- evaluation under a model
  uint64_t evalRec(E e, const std::vector<uint64_t> &m) {
    if (e->op == CONST) return e->val;
    if (e->epoch == epoch) return e->ev;
    uint64_t r = 0; bool ok;
    switch (e->op) {
    case VAR: r = e->val < m.size() ? m[e->val] : vars[e->val].lo; if (r < e->lo || r > e->hi) r = e->lo; break;
    case ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    case ZEXT: r = evalRec(e->k[0], m); break;
    case SEXT: r = (uint64_t)sx(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case EXTRACT: r = (evalRec(e->k[0], m) >> e->val) & maskw(e->w); break;
    case CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
    default: r = foldc(e->op, evalRec(e->k[0], m), evalRec(e->k[1], m), e->k[0]->w, ok);
    }
    e->epoch = epoch; e->ev = r;
    return r;
  }
  uint64_t eval(E e, const std::vector<uint64_t> &m) {
    if (e->op == CONST) return e->val;
    ++epoch;
    return evalRec(e, m);
  }
  // --- Z3
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z3, w); }
  Z3_ast asBV(E e) { Z3_ast z = toZ3(e); if (e->w != 1) return z;
    return Z3_mk_ite(z3, z, Z3_mk_unsigned_int64(z3, 1, bv(1)), Z3_mk_unsigned_int64(z3, 0, bv(1))); }
  Z3_ast toZ3(E e) { // width 1 -> Bool
    if (e->z) return e->z;
    Z3_ast r = nullptr; bool b = e->w == 1;
    E a = e->k[0], c = e->k[1];
    switch (e->op) {
    case CONST: r = b ? (e->val ? Z3_mk_true(z3) : Z3_mk_false(z3)) : Z3_mk_unsigned_int64(z3, e->val, bv(e->w)); break;
    case VAR: { Z3_symbol s = Z3_mk_int_symbol(z3, (int)e->val); r = Z3_mk_const(z3, s, b ? Z3_mk_bool_sort(z3) : bv(e->w)); break; }
    case ADD: r = b ? Z3_mk_xor(z3, toZ3(a), toZ3(c)) : Z3_mk_bvadd(z3, toZ3(a), toZ3(c)); break;
    case SUB: r = b ? Z3_mk_xor(z3, toZ3(a), toZ3(c)) : Z3_mk_bvsub(z3, toZ3(a), toZ3(c)); break;
    case MUL: { if (b) { Z3_ast v[2] = {toZ3(a), toZ3(c)}; r = Z3_mk_and(z3, 2, v); break; }
      r = Z3_mk_bvmul(z3, toZ3(a), toZ3(c)); break; }
    case UDIV: r = Z3_mk_bvudiv(z3, asBV(a), asBV(c)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case SDIV: r = Z3_mk_bvsdiv(z3, asBV(a), asBV(c)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case UREM: r = Z3_mk_bvurem(z3, asBV(a), asBV(c)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case SREM: r = Z3_mk_bvsrem(z3, asBV(a), asBV(c)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case AND: if (b) { Z3_ast v[2] = {toZ3(a), toZ3(c)}; r = Z3_mk_and(z3, 2, v); } else r = Z3_mk_bvand(z3, toZ3(a), toZ3(c)); break;
    case OR: if (b) { Z3_ast v[2] = {toZ3(a), toZ3(c)}; r = Z3_mk_or(z3, 2, v); } else r = Z3_mk_bvor(z3, toZ3(a), toZ3(c)); break;
    case XOR: if (b) r = c == t1 ? Z3_mk_not(z3, toZ3(a)) : Z3_mk_xor(z3, toZ3(a), toZ3(c)); else r = Z3_mk_bvxor(z3, toZ3(a), toZ3(c)); break;
    case SHL: r = Z3_mk_bvshl(z3, asBV(a), asBV(c)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case LSHR: r = Z3_mk_bvlshr(z3, asBV(a), asBV(c)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case ASHR: r = Z3_mk_bvashr(z3, asBV(a), asBV(c)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case EQ: r = a->w == 1 ? Z3_mk_iff(z3, toZ3(a), toZ3(c)) : Z3_mk_eq(z3, toZ3(a), toZ3(c)); break;
    case ULT: r = Z3_mk_bvult(z3, asBV(a), asBV(c)); break;
    case ULE: r = Z3_mk_bvule(z3, asBV(a), asBV(c)); break;
    case SLT: r = Z3_mk_bvslt(z3, asBV(a), asBV(c)); break;
    case SLE: r = Z3_mk_bvsle(z3, asBV(a), asBV(c)); break;
    case ITE: r = Z3_mk_ite(z3, toZ3(a), toZ3(c), toZ3(e->k[2])); break;
    case ZEXT: r = a->w == 1 ? Z3_mk_ite(z3, toZ3(a), Z3_mk_unsigned_int64(z3, 1, bv(e->w)), Z3_mk_unsigned_int64(z3, 0, bv(e->w))) : Z3_mk_zero_ext(z3, e->w - a->w, toZ3(a)); break;
    case SEXT: r = Z3_mk_sign_ext(z3, e->w - a->w, asBV(a)); break;
    case EXTRACT: r = Z3_mk_extract(z3, e->val + e->w - 1, e->val, toZ3(a)); if (b) r = Z3_mk_eq(z3, r, Z3_mk_unsigned_int64(z3, 1, bv(1))); break;
    case CONCAT: r = Z3_mk_concat(z3, asBV(a), asBV(c)); break;
    default: fprintf(stderr, "toZ3: bad op %d\n", e->op); abort();
    }
    Z3_inc_ref(z3, r);
    e->z = r;
    return r;
  }
};
