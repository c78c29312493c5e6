// A small symbolic executor for LLVM IR (clang 18), specialised for C++ container code.
// Every branch, address and check that depends on symbolic inputs is decided by Z3 under the
// current path condition; nothing is sampled.  See DESIGN.md for the semantics and limits.
#include "expr.h"
#include "lin.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/MathExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <set>
#include <deque>
#include <memory>
#include <algorithm>
#include <functional>
#include <random>
#include <unordered_map>
#include <map>
using namespace llvm;

static ExprCtx X;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0;

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_NEW, K_MALLOC, K_EXC };
struct Byte { E e; uint8_t idx; };
struct Obj {
  uint32_t ref; uint32_t size; uint64_t base; Kind kind; bool ro, allow;
  std::vector<Byte> b;
};
struct ObjP {
  Obj *p = nullptr;
  ObjP() {}
  explicit ObjP(Obj *o) : p(o) { if (p) p->ref++; }
  ObjP(const ObjP &o) : p(o.p) { if (p) p->ref++; }
  ObjP(ObjP &&o) : p(o.p) { o.p = nullptr; }
  ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; }
  ~ObjP() { if (p && --p->ref == 0) delete p; }
};
struct Entry { uint64_t base; uint32_t size; ObjP o; };

// ---------------------------------------------------------------- decoded code
struct Opd { int reg; E c; };
struct FInfo;
struct BInfo;
struct I {
  const Instruction *src; unsigned op; int dst; uint8_t w, w2;
  bool hit; uint8_t sub;
  std::vector<Opd> o;
  uint64_t imm;                                  // gep constant, alloca size, store/load size
  std::vector<std::pair<int, int64_t>> gep;      // operand index, scale
  std::vector<unsigned> idx;                     // extract/insertvalue
  FInfo *callee; int builtin;
  BInfo *bb[2];
  std::vector<std::pair<E, BInfo *>> cases;
  struct Lp { bool filter; std::vector<uint64_t> types; };
  std::vector<Lp> lp; bool cleanup;
};
struct BInfo {
  FInfo *f; const BasicBlock *bb; std::vector<I> ins;
  std::vector<int> phiDst;
  std::map<const BasicBlock *, std::vector<Opd>> phiIn;
};
struct FInfo { const Function *fn; bool decoded = false, nounwind = false; int nregs = 0; std::vector<std::unique_ptr<BInfo>> blocks; BInfo *entry = nullptr; std::string name; };

struct Frame { FInfo *f; BInfo *bb; unsigned ip; std::vector<E> regs; std::vector<uint64_t> allocas; };
struct Exc { uint64_t ptr, type, dtor; int handlers; };

struct State {
  std::vector<Frame> st;
  std::vector<Entry> mem; // sorted by base
  uint64_t bump;
  std::vector<E> pc, known;
  std::vector<uint64_t> model;
  std::vector<E> inputs; std::vector<E> obs;
  std::vector<Exc> excs; std::vector<uint64_t> caught;
  std::map<std::string, int> nameCnt;
  unsigned nUninit = 0;
  uint64_t steps = 0, freezeMark = 0;
  bool expectFail = false;
};

struct Violation { std::string kind, what, where; std::vector<uint64_t> in; std::vector<std::string> names; };
struct Stop {};       // end of path
struct Reexec {};     // instruction must be re-executed (not used)

enum Res { R_NEXT, R_JUMP, R_END };

struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL;
  std::map<const Function *, std::unique_ptr<FInfo>> fns;
  std::map<const GlobalVariable *, uint64_t> gaddr;
  std::map<const Function *, uint64_t> faddr; std::map<uint64_t, const Function *> addrf;
  std::map<uint64_t, const GlobalVariable *> addrg;
  std::map<uint64_t, int> typeIds;
  std::map<std::string, int> bnames; 
  std::vector<Entry> ginit; uint64_t heapStart;
  Z3_solver solver = nullptr;
  std::deque<State> work;
  std::map<std::string, std::pair<uint64_t, uint64_t>> fix;
  // results
  uint64_t nPaths = 0, nSteps = 0, nForks = 0, nQueries = 0, nSat = 0, nUnsat = 0, nUnk = 0, nAssumed = 0, nChecks = 0, nCheckQ = 0; double tSolver = 0;
  std::map<std::string, uint64_t> reach; std::vector<Violation> viol; std::map<std::string, int> violCnt; std::string incomplete, error;
  uint64_t maxSteps = 150000, maxStepsSeen = 0; double timeLimit = 600; unsigned maxViol = 4;
  struct Sample { std::vector<uint64_t> in; uint64_t hash; }; std::vector<Sample> samples; size_t maxSamples = 200; std::mt19937_64 rng;
  uint64_t sampleSeen = 0;
  bool linMode = false; uint64_t nLin = 0; std::unique_ptr<LinEnc> linEnc;
  FILE *dumpq = nullptr; unsigned dumpEvery = 0;

  // ------------------------------------------------------------ solver
  // Only the part of the path condition connected to `extra` through shared variables is sent to the solver: the rest is
  // satisfiable on its own (every path condition has a model).  Results are cached by the set of constraints.
  std::unordered_map<E, std::vector<uint32_t>> varsMemo;
  const std::vector<uint32_t> &varsOf(E e) {
    auto it = varsMemo.find(e); if (it != varsMemo.end()) return it->second;
    std::vector<uint32_t> r;
    if (e->op == VAR) r.push_back((uint32_t)e->val);
    else if (e->op != CONST) for (E k : e->k) if (k) { auto &o = varsOf(k); std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), o.begin(), o.end(), std::back_inserter(t)); r.swap(t); }
    return varsMemo[e] = std::move(r);
  }
  std::vector<E> slice(const State &s, E extra) {
    std::vector<char> in(X.vars.size(), 0), used(s.pc.size(), 0); std::vector<E> r;
    for (uint32_t v : varsOf(extra)) in[v] = 1;
    for (bool again = true; again;) {
      again = false;
      for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
        auto &vs = varsOf(s.pc[i]); bool hit = false;
        for (uint32_t v : vs) if (in[v]) { hit = true; break; }
        if (!hit) continue;
        used[i] = 1; r.push_back(s.pc[i]);
        for (uint32_t v : vs) if (!in[v]) { in[v] = 1; again = true; }
      }
    }
    std::sort(r.begin(), r.end(), [](E a, E b) { return a->id < b->id; }); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
  }
  struct Cached { int res; std::vector<std::pair<uint32_t, uint64_t>> m; };
  std::map<std::vector<uint32_t>, Cached> qcache; uint64_t nCacheHits = 0;
  // 1 sat, 0 unsat, -1 unknown
  int query(const State &s, E extra, std::vector<uint64_t> *model) {
    if (extra->op == CONST && !extra->val) return 0;
    double t = now();
    std::vector<E> sl = slice(s, extra);
    std::vector<uint32_t> key{extra->id}; for (E e : sl) key.push_back(e->id);
    auto ci = qcache.find(key);
    auto base = [&] { *model = s.model; if (model->size() < X.vars.size()) { size_t o = model->size(); model->resize(X.vars.size()); for (; o < X.vars.size(); o++) (*model)[o] = X.vars[o].lo; } };
    if (ci != qcache.end()) {
      nCacheHits++;
      if (ci->second.res == 1 && model) { base(); for (auto &p : ci->second.m) (*model)[p.first] = p.second; }
      tSolver += now() - t;
      return ci->second.res;
    }
    Z3_solver_push(X.z3, solver);
    std::vector<Z3_ast> li; bool lin = false;
    if (linMode) {
      std::vector<E> all = sl; all.push_back(extra); std::vector<uint32_t> vs; for (E e : all) { auto &o = varsOf(e); std::vector<uint32_t> u; std::set_union(vs.begin(), vs.end(), o.begin(), o.end(), std::back_inserter(u)); vs.swap(u); }
      if (!linEnc) linEnc.reset(new LinEnc(X));
      lin = linEnc->encode(all, vs, li); if (!lin && getenv("VP_LINDBG")) fprintf(stderr, "not linear: %s\n", linEnc->why.c_str());
    }
    if (lin) { nLin++; for (Z3_ast a : li) Z3_solver_assert(X.z3, solver, a); }
    else { for (E e : sl) Z3_solver_assert(X.z3, solver, X.toZ3(e)); Z3_solver_assert(X.z3, solver, X.toZ3(extra)); }
    Z3_lbool r = Z3_solver_check(X.z3, solver);
    nQueries++;
    if (dumpq && dumpEvery && nQueries % dumpEvery == 0 && r != Z3_L_UNDEF) {
      fprintf(dumpq, ";;QUERY %s\n%s(check-sat)\n", r == Z3_L_TRUE ? "sat" : "unsat", Z3_solver_to_string(X.z3, solver));
    }
    std::vector<std::pair<uint32_t, uint64_t>> mv;
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
      nSat++;
      Z3_model m = Z3_solver_get_model(X.z3, solver); Z3_model_inc_ref(X.z3, m);
      unsigned n = Z3_model_get_num_consts(X.z3, m);
      for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(X.z3, m, i);
        Z3_symbol sy = Z3_get_decl_name(X.z3, d);
        if (Z3_get_symbol_kind(X.z3, sy) != Z3_INT_SYMBOL) continue;
        int vi = Z3_get_symbol_int(X.z3, sy);
        Z3_ast v = Z3_model_get_const_interp(X.z3, m, d);
        if (!v) continue;
        uint64_t u = 0;
        if (X.vars[vi].w == 1) u = Z3_get_bool_value(X.z3, v) == Z3_L_TRUE;
        else Z3_get_numeral_uint64(X.z3, v, &u);
        mv.push_back({(uint32_t)vi, u});
      }
      Z3_model_dec_ref(X.z3, m);
      if (model) { base(); for (auto &p : mv) (*model)[p.first] = p.second; }
    } else if (res == 0) nUnsat++;
    else { nUnk++; if (incomplete.empty()) incomplete = "solver returned unknown"; }
    Z3_solver_pop(X.z3, solver, 1);
    if (res >= 0) qcache[key] = Cached{res, mv};
    tSolver += now() - t;
    if (getenv("VP_SELFCHECK") && res == 1 && model) {
      for (E e : s.pc) if (!X.eval(e, *model)) { fprintf(stderr, "model does not satisfy pc\n"); abort(); }
      if (!X.eval(extra, *model)) { fprintf(stderr, "model does not satisfy query\n"); abort(); }
    }
    return res;
  }
  static int lookup(const State &s, E c, E n) {
    for (size_t i = s.known.size(); i-- > 0;) { if (s.known[i] == c) return 1; if (s.known[i] == n) return 0; }
    return -1;
  }
  void learn(State &s, E c, bool assertIt) { s.known.push_back(c); if (assertIt) s.pc.push_back(c); }
  // Decide a symbolic condition; forks the other side when feasible (it re-executes the current instruction).
  bool decide(State &s, E c) {
    if (c->op == CONST) return c->val;
    E n = X.notE(c);
    int k = lookup(s, c, n);
    if (k >= 0) return k;
    bool v = X.eval(c, s.model);
    E mine = v ? c : n, other = v ? n : c;
    std::vector<uint64_t> m;
    int r = query(s, other, &m);
    if (r == 1) {
      if (c->taint) { // does the outcome differ for two contents of the uninitialised memory?
        std::vector<uint64_t> m2; int d = query(s, X.bin(AND, c, X.notE(X.prime(c))), &m2);
        if (d == 1) { s.model.swap(m2); violation(s, "uninit", "decision depends on uninitialised memory"); throw Stop(); }
      }
      work.push_back(s);
      State &t = work.back();
      learn(t, other, true); t.model.swap(m); nForks++;
      learn(s, mine, true);
    } else learn(s, mine, r != 0);
    return v;
  }
  void addAssume(State &s, E c) { // c must hold; kill the path otherwise
    if (c->op == CONST) { if (!c->val) { nAssumed++; throw Stop(); } return; }
    E n = X.notE(c); int k = lookup(s, c, n);
    if (k == 1) return;
    if (k == 0) { nAssumed++; throw Stop(); }
    if (!X.eval(c, s.model)) {
      std::vector<uint64_t> m; int r = query(s, c, &m);
      if (r != 1) { nAssumed++; throw Stop(); }
      s.model.swap(m);
    }
    learn(s, c, true);
  }
  uint64_t concretize(State &s, E e) {
    if (e->op == CONST) return e->val;
    uint64_t v = X.eval(e, s.model);
    E eq = X.bin(EQ, e, X.cst(v, e->w));
    if (eq->op == CONST) return v;
    decide(s, eq); // current side is eq==true by construction of v
    return v;
  }

  // Division by an unknown divisor, by cases of the quotient (ring arithmetic divides by the capacity with quotients 0 and 1);
  // nullptr if the quotient is large.
  E smallQuotient(State &s, E x, E d, bool sg, bool rem) {
    unsigned w = x->w; E zero = X.cst(0, w); bool neg = false;
    if (sg) {
      if (decide(s, X.bin(SLT, d, zero))) return nullptr;
      neg = decide(s, X.bin(SLT, x, zero)); if (neg) x = X.bin(SUB, zero, x);
    }
    for (unsigned q = 0; q < 4; q++) {
      if (decide(s, X.bin(ULT, x, d))) { E r = rem ? x : X.cst(q, w); return neg ? X.bin(SUB, zero, r) : r; }
      x = X.bin(SUB, x, d);
    }
    return nullptr;
  }

  // ------------------------------------------------------------ reporting
  std::string locOf(const State &s) {
    std::string r;
    for (size_t i = s.st.size(); i-- > 0 && r.size() < 400;) {
      const Frame &f = s.st[i]; if (f.ip >= f.bb->ins.size()) continue;
      const Instruction *in = f.bb->ins[f.ip].src;
      if (!in) continue;
      if (const DILocation *l = in->getDebugLoc().get()) {
        for (; l; l = l->getInlinedAt()) { auto fn = l->getFilename(); auto p = fn.rfind('/'); r += (r.empty() ? "" : " < ") + fn.substr(p == StringRef::npos ? 0 : p + 1).str() + ":" + std::to_string(l->getLine()); if (r.size() > 400) break; }
      } else r += (r.empty() ? "" : " < ") + f.f->name;
    }
    return r;
  }
  void violationM(State &s, const std::vector<uint64_t> &model, const std::string &kind, const std::string &what) {
    std::string where = locOf(s), key = kind + "|" + what;
    int &c = violCnt[key];
    if (c++ >= (int)maxViol) return;
    Violation v; v.kind = kind; v.what = what; v.where = where;
    for (E e : s.inputs) { v.in.push_back(X.eval(e, model)); v.names.push_back(e->op == VAR ? X.vars[e->val].name : "const"); }
    viol.push_back(v);
  }
  void violation(State &s, const std::string &kind, const std::string &what) { violationM(s, s.model, kind, what); }
  [[noreturn]] void unsupported(const std::string &m) { if (error.empty()) error = "unsupported: " + m; throw Stop(); }
  [[noreturn]] void unsupported(State &s, const std::string &m) { if (error.empty()) error = "unsupported: " + m + " at " + locOf(s); throw Stop(); }

  // ------------------------------------------------------------ memory
  size_t findObj(const State &s, uint64_t a) { // index or npos
    auto it = std::upper_bound(s.mem.begin(), s.mem.end(), a, [](uint64_t v, const Entry &e) { return v < e.base; });
    if (it == s.mem.begin()) return (size_t)-1;
    --it;
    if (a >= it->base + std::max<uint64_t>(it->size, 1)) return (size_t)-1;
    return it - s.mem.begin();
  }
  Obj *wr(State &s, size_t i) { Obj *o = s.mem[i].o.p; if (o->ref > 1) { Obj *n = new Obj(*o); n->ref = 0; s.mem[i].o = ObjP(n); o = n; } return o; }
  uint64_t newObj(State &s, uint64_t size, Kind k) {
    uint64_t base = s.bump;
    s.bump = (base + size + 4096 + 255) & ~255ull;
    Obj *o = new Obj; o->ref = 0; o->base = base; o->size = size; o->kind = k; o->ro = false; o->allow = false; o->b.assign(size, Byte{nullptr, 0});
    s.mem.push_back(Entry{base, (uint32_t)size, ObjP(o)});
    return base;
  }
  struct Ref { size_t oi; E off; }; // offset may be symbolic
  Ref resolve(State &s, E a, uint64_t n, const char *what) {
    if (a->op == CONST) {
      size_t i = findObj(s, a->val);
      if (i == (size_t)-1 || a->val - s.mem[i].base + n > s.mem[i].size) { violation(s, "memory", std::string("invalid ") + what); throw Stop(); }
      return {i, X.cst(a->val - s.mem[i].base, 64)};
    }
    uint64_t v = X.eval(a, s.model);
    size_t i = findObj(s, v);
    if (i == (size_t)-1 || v - s.mem[i].base + n > s.mem[i].size) { violation(s, "memory", std::string("invalid ") + what); throw Stop(); }
    E off = X.bin(SUB, a, X.cst(s.mem[i].base, 64));
    E in = X.bin(ULE, off, X.cst(s.mem[i].size - n, 64));
    if (in->op != CONST) { bool r = decide(s, in); if (!r) abort(); }
    return {i, off};
  }
  E loadAt(State &s, size_t oi, uint64_t off, unsigned bytes) {
    Obj *o = s.mem[oi].o.p; Byte *b = &o->b[off];
    E e = b->e;
    if (e && b->idx == 0 && e->w == bytes * 8) {
      bool same = true;
      for (unsigned i = 1; i < bytes; i++) if (b[i].e != e || b[i].idx != i) { same = false; break; }
      if (same) return e;
    }
    bool all = true, none = true;
    for (unsigned i = 0; i < bytes; i++) if (b[i].e) none = false; else all = false;
    if (!all) {
      o = wr(s, oi); b = &o->b[off];
      if (none) { E v = X.var("u" + std::to_string(s.nUninit) + "_" + std::to_string(bytes), "uninit", bytes * 8, 0, maskw(bytes * 8), true); s.nUninit++;
        for (unsigned i = 0; i < bytes; i++) b[i] = Byte{v, (uint8_t)i}; return v; }
      for (unsigned i = 0; i < bytes; i++) if (!b[i].e) { b[i] = Byte{X.var("u" + std::to_string(s.nUninit) + "_1", "uninit", 8, 0, 255, true), 0}; s.nUninit++; }
    }
    E r = nullptr;
    for (unsigned i = 0; i < bytes;) { // group runs from the same value
      E src = b[i].e; unsigned j = i + 1;
      while (j < bytes && b[j].e == src && b[j].idx == b[i].idx + (j - i)) j++;
      E part = X.extract(src, b[i].idx * 8, (j - i) * 8);
      r = r ? X.concat(part, r) : part;
      i = j;
    }
    return r;
  }
  void storeAt(State &s, size_t oi, uint64_t off, E v, unsigned bytes) {
    Obj *o = wr(s, oi);
    for (unsigned i = 0; i < bytes; i++) o->b[off + i] = Byte{v, (uint8_t)i};
  }
  void candidates(State &s, const Ref &r, uint64_t n, std::vector<uint64_t> &out) {
    if (r.off->leaves) {
      std::function<void(E)> go = [&](E e) { if (e->op == CONST) { if (s.mem[r.oi].size >= n && e->val <= s.mem[r.oi].size - n) out.push_back(e->val); } else { go(e->k[1]); go(e->k[2]); } };
      go(r.off); std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
      return;
    }
    // known alignment of the offset: off = x*step + c
    E x = r.off; uint64_t c = 0;
    if (x->op == ADD && x->k[1]->op == CONST) { c = x->k[1]->val; x = x->k[0]; }
    uint64_t step = 1;
    std::function<uint64_t(E)> stepOf = [&](E e) -> uint64_t {
      if (e->op == CONST) return e->val ? e->val : 0;
      if (e->op == MUL && e->k[1]->op == CONST && !ExprCtx::mulOv(e->k[0]->hi, e->k[1]->val, 64)) return e->k[1]->val;
      if (e->op == ITE) { uint64_t a = stepOf(e->k[1]), b = stepOf(e->k[2]); return std::__gcd(a, b); }
      return e->tz < 60 ? 1ull << e->tz : 1; };
    step = stepOf(x); if (!step) step = 1;
    bool ov = ExprCtx::addOv(x->hi, c, 64);
    uint64_t c0 = c % step;
    if (ov && (step & (step - 1))) { // wrap-around with a non power of two step: fall back to the power of two part
      step = step & -step; c0 = c % step; }
    uint64_t lo = 0, hi = s.mem[r.oi].size - n;
    lo = std::max(lo, r.off->lo); hi = std::min(hi, r.off->hi);
    for (uint64_t v = c0; v <= hi; v += step) if (v >= lo) out.push_back(v);
  }
  E load(State &s, E a, unsigned bytes) {
    Ref r = resolve(s, a, bytes, "read");
    if (r.off->op == CONST) return loadAt(s, r.oi, r.off->val, bytes);
    std::vector<uint64_t> c; candidates(s, r, bytes, c);
    if (c.size() > 48) { uint64_t v = concretize(s, r.off); return loadAt(s, r.oi, v, bytes); }
    E res = nullptr;
    for (uint64_t v : c) { E l = loadAt(s, r.oi, v, bytes); res = res ? X.ite(X.bin(EQ, r.off, X.cst(v, 64)), l, res) : l; }
    if (!res) unsupported(s, "no candidate for load");
    return res;
  }
  void store(State &s, E a, E v, unsigned bytes) {
    Ref r = resolve(s, a, bytes, "write");
    const Obj *o = s.mem[r.oi].o.p;
    if (o->ro) { violation(s, "memory", "write to constant memory"); throw Stop(); }
    if (s.freezeMark && (o->kind != K_STACK) && o->base < s.freezeMark && !o->allow) { violation(s, "frozen", "write to shared memory by a read-only operation"); throw Stop(); }
    if (v->w == 1 || v->w != bytes * 8) v = X.zext(v, bytes * 8);
    if (r.off->op == CONST) { storeAt(s, r.oi, r.off->val, v, bytes); return; }
    std::vector<uint64_t> c; candidates(s, r, bytes, c);
    if (c.size() > 48) { uint64_t x = concretize(s, r.off); storeAt(s, r.oi, x, v, bytes); return; }
    for (uint64_t x : c) { E eq = X.bin(EQ, r.off, X.cst(x, 64)); if (eq == X.f1) continue; E old = loadAt(s, r.oi, x, bytes); storeAt(s, r.oi, x, X.ite(eq, v, old), bytes); }
  }
  void freeObj(State &s, size_t i) { s.mem.erase(s.mem.begin() + i); }

  // typed load/store
  E loadT(State &s, E a, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) { std::vector<E> v; auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadT(s, X.bin(ADD, a, X.cst(sl->getElementOffset(i), 64)), st->getElementType(i))); return X.agg(v); }
    if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<E> v; uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadT(s, X.bin(ADD, a, X.cst(i * es, 64)), at->getElementType())); return X.agg(v); }
    unsigned w = DL->getTypeSizeInBits(t), by = DL->getTypeStoreSize(t);
    if (w > 64) unsupported(s, "load wider than 64 bits");
    E e = load(s, a, by);
    return w == by * 8 ? e : X.extract(e, 0, w);
  }
  void storeT(State &s, E a, E v, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, X.bin(ADD, a, X.cst(sl->getElementOffset(i), 64)), (*v->agg)[i], st->getElementType(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeT(s, X.bin(ADD, a, X.cst(i * es, 64)), (*v->agg)[i], at->getElementType()); return; }
    if (v->w > 64) unsupported(s, "store wider than 64 bits");
    store(s, a, v, DL->getTypeStoreSize(t));
  }

  // ------------------------------------------------------------ constants
  E zeroOf(Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) { std::vector<E> v; for (auto *e : st->elements()) v.push_back(zeroOf(e)); return X.agg(v); }
    if (auto *at = dyn_cast<ArrayType>(t)) return X.agg(std::vector<E>(at->getNumElements(), zeroOf(at->getElementType())));
    if (t->isVoidTy()) return X.f1;
    unsigned w = DL->getTypeSizeInBits(t);
    if (w > 64 || w == 0) { if (error.empty()) error = "unsupported constant width"; return X.cst(0, 64); }
    return X.cst(0, w);
  }
  E constant(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { error = "wide constant"; return X.cst(0, 64); } return X.cst(ci->getZExtValue(), ci->getBitWidth()); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto *g = dyn_cast<GlobalVariable>(c)) return X.cst(gaddr.at(g), 64);
    if (auto *f = dyn_cast<Function>(c)) return X.cst(faddr.at(f), 64);
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return X.cst(b.getBitWidth() > 64 ? 0 : b.getZExtValue(), std::min(64u, b.getBitWidth())); }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) ) { std::vector<E> v; for (unsigned i = 0; i < c->getNumOperands(); i++) v.push_back(constant(cast<Constant>(c->getOperand(i)))); return X.agg(v); }
    if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { std::vector<E> v; for (unsigned i = 0; i < ds->getNumElements(); i++) v.push_back(constant(ds->getElementAsConstant(i))); return X.agg(v); }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) return X.bin(ADD, constant(cast<Constant>(g->getPointerOperand())), X.cst(off.getZExtValue(), 64)); }
      switch (ce->getOpcode()) {
      case Instruction::PtrToInt: { E e = constant(ce->getOperand(0)); unsigned w = DL->getTypeSizeInBits(ce->getType()); return w < 64 ? X.extract(e, 0, w) : e; }
      case Instruction::IntToPtr: return X.zext(constant(ce->getOperand(0)), 64);
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant(ce->getOperand(0));
      case Instruction::Add: return X.bin(ADD, constant(ce->getOperand(0)), constant(ce->getOperand(1)));
      case Instruction::Sub: return X.bin(SUB, constant(ce->getOperand(0)), constant(ce->getOperand(1)));
      case Instruction::Trunc: return X.extract(constant(ce->getOperand(0)), 0, DL->getTypeSizeInBits(ce->getType()));
      case Instruction::ICmp: { E a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1)); return icmp(ce->getPredicate(), a, b); }
      default: break;
      }
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    if (error.empty()) error = "unsupported constant " + os.str().substr(0, 200);
    return X.cst(0, 64);
  }
  E icmp(unsigned p, E a, E b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return X.bin(EQ, a, b); case CmpInst::ICMP_NE: return X.notE(X.bin(EQ, a, b));
    case CmpInst::ICMP_ULT: return X.bin(ULT, a, b); case CmpInst::ICMP_ULE: return X.bin(ULE, a, b);
    case CmpInst::ICMP_UGT: return X.bin(ULT, b, a); case CmpInst::ICMP_UGE: return X.bin(ULE, b, a);
    case CmpInst::ICMP_SLT: return X.bin(SLT, a, b); case CmpInst::ICMP_SLE: return X.bin(SLE, a, b);
    case CmpInst::ICMP_SGT: return X.bin(SLT, b, a); case CmpInst::ICMP_SGE: return X.bin(SLE, b, a);
    }
    return X.f1;
  }
  void initGlobal(Obj *o, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) { uint64_t n = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < n; i++) o->b[off + i] = Byte{X.cst(0, 8), 0}; return; }
    if (isa<ConstantAggregateZero>(c)) return; // already zero
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initGlobal(o, off + i * es, c->getAggregateElement(i)); return; }
    E e = constant(c); uint64_t n = DL->getTypeStoreSize(t);
    if (e->w != n * 8) e = X.zext(e, n * 8);
    for (uint64_t i = 0; i < n; i++) o->b[off + i] = Byte{e, (uint8_t)i};
  }
  void layout() {
    uint64_t a = 0x10000;
    for (GlobalVariable &g : M->globals()) {
      uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
      if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
      gaddr[&g] = a; addrg[a] = &g; a = (a + sz + 512 + 255) & ~255ull;
    }
    uint64_t fa = 0x1000000000ull;
    for (Function &f : *M) { faddr[&f] = fa; addrf[fa] = &f; fa += 16; }
    for (GlobalVariable &g : M->globals()) {
      uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
      if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
      Obj *o = new Obj; o->ref = 0; o->base = gaddr[&g]; o->size = sz; o->kind = K_GLOBAL; o->ro = g.isConstant() && !g.isDeclaration();
      o->allow = g.getName().starts_with("vpg_"); o->b.assign(sz, Byte{X.cst(0, 8), 0});
      if (g.hasInitializer()) initGlobal(o, 0, g.getInitializer());
      ginit.push_back(Entry{o->base, (uint32_t)sz, ObjP(o)});
    }
    heapStart = 0x2000000000ull;
  }

  // ------------------------------------------------------------ decoding
  FInfo *finfo(const Function *f) {
    auto &p = fns[f];
    if (!p) { p.reset(new FInfo); p->fn = f; p->name = f->getName().str(); p->nounwind = f->doesNotThrow(); }
    return p.get();
  }
  void decode(FInfo *fi) {
    fi->decoded = true;
    const Function *f = fi->fn;
    std::map<const Value *, int> reg; int n = 0;
    for (auto &a : f->args()) reg[&a] = n++;
    std::map<const BasicBlock *, BInfo *> bm;
    for (auto &bb : *f) { fi->blocks.emplace_back(new BInfo); bm[&bb] = fi->blocks.back().get(); fi->blocks.back()->f = fi; fi->blocks.back()->bb = &bb; for (auto &in : bb) if (!in.getType()->isVoidTy()) reg[&in] = n++; }
    fi->nregs = n; fi->entry = bm[&f->getEntryBlock()];
    auto opd = [&](const Value *v) -> Opd { if (auto *c = dyn_cast<Constant>(v)) return {-1, constant(c)}; auto it = reg.find(v); if (it == reg.end()) return {-1, X.f1}; return {it->second, nullptr}; };
    auto width = [&](Type *t) -> unsigned { if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) return DL->getTypeSizeInBits(t); return 0; };
    for (auto &bb : *f) {
      BInfo *b = bm[&bb];
      for (auto &in : bb) {
        if (auto *ph = dyn_cast<PHINode>(&in)) {
          b->phiDst.push_back(reg[ph]);
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { auto &v = b->phiIn[ph->getIncomingBlock(i)]; if (v.size() < b->phiDst.size()) v.push_back(opd(ph->getIncomingValue(i))); }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(in)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&in)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::donothing) continue; }
        I d; d.src = &in; d.op = in.getOpcode(); d.dst = in.getType()->isVoidTy() ? -1 : reg[&in]; d.w = width(in.getType()); d.w2 = 0; d.hit = false; d.sub = 0; d.imm = 0; d.callee = nullptr; d.builtin = -1; d.bb[0] = d.bb[1] = nullptr; d.cleanup = false;
        switch (d.op) {
        case Instruction::Alloca: { auto *al = cast<AllocaInst>(&in); d.imm = DL->getTypeAllocSize(al->getAllocatedType()); d.o.push_back(opd(al->getArraySize())); break; }
        case Instruction::Load: d.o.push_back(opd(in.getOperand(0))); d.imm = DL->getTypeStoreSize(in.getType()); if (!d.w) d.sub = 1; else if (d.w != d.imm * 8) d.sub = 2; break;
        case Instruction::Store: d.o.push_back(opd(in.getOperand(0))); d.o.push_back(opd(in.getOperand(1))); { Type *t = in.getOperand(0)->getType(); d.imm = DL->getTypeStoreSize(t); if (!width(t)) d.sub = 1; } break;
        case Instruction::GetElementPtr: {
          auto *g = cast<GetElementPtrInst>(&in); d.o.push_back(opd(g->getPointerOperand()));
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (StructType *st = gi.getStructTypeOrNull()) { d.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
            else { int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) d.imm += ci->getSExtValue() * sc; else { d.gep.push_back({(int)d.o.size(), sc}); d.o.push_back(opd(gi.getOperand())); } }
          }
          break; }
        case Instruction::ICmp: d.sub = cast<ICmpInst>(&in)->getPredicate(); d.o.push_back(opd(in.getOperand(0))); d.o.push_back(opd(in.getOperand(1))); break;
        case Instruction::Br: { auto *br = cast<BranchInst>(&in); d.bb[0] = bm[br->getSuccessor(0)]; if (br->isConditional()) { d.bb[1] = bm[br->getSuccessor(1)]; d.o.push_back(opd(br->getCondition())); } break; }
        case Instruction::Switch: { auto *sw = cast<SwitchInst>(&in); d.o.push_back(opd(sw->getCondition())); d.bb[0] = bm[sw->getDefaultDest()]; for (auto &cs : sw->cases()) d.cases.push_back({constant(cs.getCaseValue()), bm[cs.getCaseSuccessor()]}); break; }
        case Instruction::ExtractValue: d.idx.assign(cast<ExtractValueInst>(&in)->idx_begin(), cast<ExtractValueInst>(&in)->idx_end()); d.o.push_back(opd(in.getOperand(0))); break;
        case Instruction::InsertValue: d.idx.assign(cast<InsertValueInst>(&in)->idx_begin(), cast<InsertValueInst>(&in)->idx_end()); d.o.push_back(opd(in.getOperand(0))); d.o.push_back(opd(in.getOperand(1))); break;
        case Instruction::LandingPad: {
          auto *lp = cast<LandingPadInst>(&in); d.cleanup = lp->isCleanup();
          for (unsigned i = 0; i < lp->getNumClauses(); i++) { I::Lp l; l.filter = lp->isFilter(i);
            if (l.filter) { E a = constant(lp->getClause(i)); if (a->op == AGG) for (E e : *a->agg) l.types.push_back(e->val); }
            else l.types.push_back(constant(lp->getClause(i))->val);
            d.lp.push_back(l); }
          break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto *cb = cast<CallBase>(&in);
          for (auto &a : cb->args()) d.o.push_back(isa<MetadataAsValue>(a.get()) ? Opd{-1, X.f1} : opd(a.get()));
          d.o.push_back(opd(cb->getCalledOperand()));
          if (auto *iv = dyn_cast<InvokeInst>(&in)) { d.bb[0] = bm[iv->getNormalDest()]; d.bb[1] = bm[iv->getUnwindDest()]; }
          const Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          if (auto *cf = dyn_cast<Function>(cv)) { d.builtin = builtinOf(cf); if (d.builtin < 0) d.callee = finfo(cf); }
          break; }
        case Instruction::Ret: if (in.getNumOperands()) d.o.push_back(opd(in.getOperand(0))); break;
        default: for (auto &op : in.operands()) if (!isa<BasicBlock>(op.get())) d.o.push_back(opd(op.get())); if (d.o.size() && in.getNumOperands()) d.w2 = width(in.getOperand(0)->getType());
        }
        b->ins.push_back(std::move(d));
      }
    }
  }

#include "builtins.inc"

  // ------------------------------------------------------------ interpretation
  E val(const Frame &f, const Opd &o) { return o.reg < 0 ? o.c : f.regs[o.reg]; }
  void jump(State &s, BInfo *to) {
    Frame &f = s.st.back();
    if (!to->phiDst.empty()) {
      auto it = to->phiIn.find(f.bb->bb);
      static std::vector<E> tmp; tmp.clear();
      for (auto &o : it->second) tmp.push_back(val(f, o));
      for (size_t i = 0; i < tmp.size(); i++) f.regs[to->phiDst[i]] = tmp[i];
    }
    f.bb = to; f.ip = 0;
  }
  void popFrame(State &s) {
    Frame &f = s.st.back();
    for (size_t i = f.allocas.size(); i-- > 0;) { size_t k = findObj(s, f.allocas[i]); if (k != (size_t)-1) freeObj(s, k); }
    s.st.pop_back();
  }
  void call(State &s, FInfo *fi, const std::vector<E> &args) {
    if (!fi->decoded) { if (fi->fn->isDeclaration()) unsupported(s, "external function " + fi->name); decode(fi); }
    if (s.st.size() > 400) { violation(s, "stack", "call depth exceeds 400"); throw Stop(); }
    s.st.emplace_back();
    Frame &f = s.st.back(); f.f = fi; f.bb = fi->entry; f.ip = 0; f.regs.assign(fi->nregs, nullptr);
    for (size_t i = 0; i < args.size() && i < (size_t)fi->fn->arg_size(); i++) f.regs[i] = args[i];
    // byval arguments get their own copy
    unsigned ai = 0;
    for (auto &a : fi->fn->args()) { if (a.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()); uint64_t p = newObj(s, sz, K_STACK); s.st.back().allocas.push_back(p); copyBytes(s, X.cst(p, 64), f.regs[ai], sz); s.st.back().regs[ai] = X.cst(p, 64); } ai++; }
  }
  void copyBytes(State &s, E d, E src, uint64_t n) {
    if (!n) return;
    if (d->op != CONST) { uint64_t v = concretize(s, d); d = X.cst(v, 64); }
    if (src->op != CONST) { uint64_t v = concretize(s, src); src = X.cst(v, 64); }
    Ref a = resolve(s, src, n, "read"), b = resolve(s, d, n, "write");
    checkWrite(s, b.oi);
    std::vector<Byte> tmp(s.mem[a.oi].o.p->b.begin() + a.off->val, s.mem[a.oi].o.p->b.begin() + a.off->val + n);
    Obj *o = wr(s, b.oi); std::copy(tmp.begin(), tmp.end(), o->b.begin() + b.off->val);
  }
  void checkWrite(State &s, size_t oi) {
    const Obj *o = s.mem[oi].o.p;
    if (o->ro) { violation(s, "memory", "write to constant memory"); throw Stop(); }
    if (s.freezeMark && o->kind != K_STACK && o->base < s.freezeMark && !o->allow) { violation(s, "frozen", "write to shared memory by a read-only operation"); throw Stop(); }
  }
  bool typeMatches(uint64_t thrown, uint64_t want) {
    if (!want) return true;
    while (thrown) {
      if (thrown == want) return true;
      auto it = addrg.find(thrown); if (it == addrg.end()) return false;
      const GlobalVariable *g = it->second;
      static const std::map<std::string, std::string> stdBase = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
      auto sb = stdBase.find(g->getName().str());
      if (sb != stdBase.end()) {
        std::string cur = sb->second; thrown = 0;
        for (;;) { if (auto *b = M->getNamedGlobal(cur)) { thrown = gaddr[b]; break; } auto n = stdBase.find(cur); if (n == stdBase.end()) break; cur = n->second; }
        continue;
      }
      thrown = 0;
      if (g->hasInitializer() && g->getInitializer()->getNumOperands() == 3) { E b = constant(cast<Constant>(g->getInitializer()->getOperand(2))); thrown = b->val; }
    }
    return false;
  }
  void unwind(State &s, uint64_t ptr) { // the current instruction of the top frame is the throwing call (or resume)
    uint64_t type = 0; for (auto &e : s.excs) if (e.ptr == ptr) type = e.type;
    for (;;) {
      Frame &f = s.st.back(); I &in = f.bb->ins[f.ip];
      if (in.op == Instruction::Invoke) {
        jump(s, in.bb[1]);
        I &lp = s.st.back().bb->ins[s.st.back().ip];
        if (lp.op != Instruction::LandingPad) unsupported(s, "unwind destination without landingpad");
        int sel = 0; bool take = lp.cleanup;
        for (auto &c : lp.lp) {
          if (c.filter) { bool ok = false; for (uint64_t t : c.types) if (typeMatches(type, t)) ok = true; if (!ok) { sel = -1; take = true; break; } }
          else if (typeMatches(type, c.types[0])) { sel = typeId(c.types[0]); take = true; break; }
        }
        if (take) { lp.hit = true; s.st.back().regs[lp.dst] = X.agg({X.cst(ptr, 64), X.cst((uint32_t)sel, 32)}); s.st.back().ip++; return; }
      }
      if (s.st.back().f->nounwind) { violation(s, "terminate", "exception leaves a function declared not to throw"); throw Stop(); }
      if (s.st.size() == 1) { violation(s, "uncaught", "exception leaves the harness"); throw Stop(); }
      popFrame(s);
    }
  }
  int typeId(uint64_t t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[t] = n; return n; }
  void doThrow(State &s, uint64_t ptr) { unwind(s, ptr); }
  void throwStd(State &s, const char *ti) { // library function that throws a standard exception
    const GlobalVariable *g = M->getNamedGlobal(ti);
    uint64_t p = newObj(s, 16, K_EXC);
    s.excs.push_back({p, g ? gaddr[g] : 1, 0, 0});
    doThrow(s, p);
  }
  void finishCall(State &s, I &in, E r) { // after a builtin or callee returned to the top frame
    Frame &f = s.st.back();
    if (in.dst >= 0) f.regs[in.dst] = r ? r : zeroOf(in.src->getType());
    if (in.op == Instruction::Invoke) jump(s, in.bb[0]); else f.ip++;
  }
  void pathDone(State &s) {
    for (auto &e : s.mem) if (e.o.p->kind == K_NEW || e.o.p->kind == K_MALLOC) { violation(s, "leak", "heap memory still allocated at the end"); break; }
    nPaths++;
    uint64_t h = 1469598103934665603ull;
    sampleSeen++;
    size_t slot = samples.size() < maxSamples ? samples.size() : (size_t)(rng() % sampleSeen);
    if (slot >= maxSamples) return;
    // a witness of the path with varied values: keep each change that still satisfies the path condition
    std::vector<uint64_t> m = s.model;
    auto okM = [&](const std::vector<uint64_t> &c) { X.epoch++; for (E e : s.pc) if (!X.evalRec(e, c)) return false; return true; };
    { std::vector<uint64_t> c = m; std::vector<size_t> vs;
      for (E e : s.inputs) if (e->op == VAR) vs.push_back(e->val);
      auto rnd = [&](size_t i) { auto &v = X.vars[i]; uint64_t span = v.hi - v.lo; uint64_t r = rng() % 97; return v.lo + (span == ~0ull ? r : r % (span + 1)); };
      for (size_t i : vs) if (i < c.size()) c[i] = rnd(i);
      if (okM(c)) m = c;
      else for (size_t i : vs) if (i < m.size()) { c = m; c[i] = rnd(i); if (okM(c)) m = c; } }
    X.epoch++;
    for (E e : s.obs) { h = (h ^ X.evalRec(e, m)) * 1099511628211ull; }
    Sample sm; sm.hash = h; for (E e : s.inputs) sm.in.push_back(X.evalRec(e, m));
    if (slot == samples.size()) samples.push_back(sm); else samples[slot] = sm;
  }
  void step(State &s) {
    Frame &f = s.st.back(); I &in = f.bb->ins[f.ip];
    in.hit = true; s.steps++; nSteps++;
    if (s.steps > maxSteps) { violation(s, "steps", "no termination within the step bound"); throw Stop(); }
#define V(i) val(f, in.o[i])
#define SET(e) do { E e_ = (e); f.regs[in.dst] = e_; f.ip++; } while (0)
    switch (in.op) {
    case Instruction::Alloca: { uint64_t n = in.imm * (in.o[0].reg < 0 ? in.o[0].c->val : concretize(s, V(0))); uint64_t p = newObj(s, n, K_STACK); f.allocas.push_back(p); SET(X.cst(p, 64)); break; }
    case Instruction::Load:
      if (in.sub == 1) SET(loadT(s, V(0), in.src->getType()));
      else { E e = load(s, V(0), in.imm); SET(in.sub == 2 ? X.extract(e, 0, in.w) : e); }
      break;
    case Instruction::Store:
      if (in.sub == 1) storeT(s, V(1), V(0), in.src->getOperand(0)->getType()); else store(s, V(1), V(0), in.imm);
      f.ip++; break;
    case Instruction::GetElementPtr: {
      E a = V(0); E off = X.cst(in.imm, 64);
      for (auto &g : in.gep) { E x = V(g.first); if (x->w < 64) x = X.sext(x, 64); else if (x->w > 64) unsupported(s, "gep index"); off = X.bin(ADD, off, X.bin(MUL, x, X.cst(g.second, 64))); }
      SET(X.bin(ADD, a, off)); break; }
#define B(o, O) case Instruction::o: SET(X.bin(O, V(0), V(1))); break;
    B(Add, ADD) B(Sub, SUB) B(Mul, MUL) B(And, AND) B(Or, OR) B(Xor, XOR) B(Shl, SHL) B(LShr, LSHR) B(AShr, ASHR)
#undef B
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E d = V(1); E z = X.bin(EQ, d, X.cst(0, d->w));
      if (decide(s, z)) { violation(s, "arith", "division by zero"); throw Stop(); }
      bool sg = in.op == Instruction::SDiv || in.op == Instruction::SRem, rem = in.op == Instruction::URem || in.op == Instruction::SRem;
      E r = linMode && d->op != CONST ? smallQuotient(s, V(0), d, sg, rem) : nullptr;
      if (!r) r = X.bin(in.op == Instruction::UDiv ? UDIV : in.op == Instruction::SDiv ? SDIV : in.op == Instruction::URem ? UREM : SREM, V(0), d);
      SET(r); break; }
    case Instruction::ICmp: SET(icmp(in.sub, V(0), V(1))); break;
    case Instruction::Select: { E c = V(0), a = V(1), b = V(2);
      if (a->op == AGG || b->op == AGG) { SET(decide(s, c) ? a : b); break; }
      SET(X.ite(c, a, b)); break; }
    case Instruction::ZExt: SET(X.zext(V(0), in.w)); break;
    case Instruction::SExt: SET(X.sext(V(0), in.w)); break;
    case Instruction::Trunc: SET(X.extract(V(0), 0, in.w)); break;
    case Instruction::PtrToInt: { E e = V(0); SET(in.w < 64 ? X.extract(e, 0, in.w) : e); break; }
    case Instruction::IntToPtr: SET(X.zext(V(0), 64)); break;
    case Instruction::BitCast: case Instruction::Freeze: SET(V(0)); break;
    case Instruction::ExtractValue: { E e = V(0); for (unsigned i : in.idx) e = (*e->agg)[i]; SET(e); break; }
    case Instruction::InsertValue: {
      std::function<E(E, unsigned, E)> ins = [&](E a, unsigned lv, E v) -> E { if (lv == in.idx.size()) return v; std::vector<E> n = *a->agg; n[in.idx[lv]] = ins(n[in.idx[lv]], lv + 1, v); return X.agg(n); };
      SET(ins(V(0), 0, V(1))); break; }
    case Instruction::Br:
      if (!in.bb[1]) jump(s, in.bb[0]); else jump(s, decide(s, V(0)) ? in.bb[0] : in.bb[1]);
      break;
    case Instruction::Switch: {
      E c = V(0); BInfo *to = in.bb[0];
      for (auto &cs : in.cases) if (decide(s, X.bin(EQ, c, cs.first))) { to = cs.second; break; }
      jump(s, to); break; }
    case Instruction::Ret: {
      E r = in.o.empty() ? nullptr : V(0);
      if (s.st.size() == 1) { popFrame(s); pathDone(s); throw Stop(); }
      popFrame(s);
      Frame &c = s.st.back(); finishCall(s, c.bb->ins[c.ip], r); break; }
    case Instruction::Call: case Instruction::Invoke: {
      FInfo *callee = in.callee; int b = in.builtin;
      size_t n = in.o.size() - 1;
      std::vector<E> args(n); for (size_t i = 0; i < n; i++) args[i] = V(i);
      if (!callee && b < 0) { // indirect
        uint64_t t = concretize(s, V(n)); auto it = addrf.find(t);
        if (it == addrf.end()) { violation(s, "memory", "call through an invalid function pointer"); throw Stop(); }
        b = builtinOf(it->second); if (b < 0) callee = finfo(it->second);
      }
      if (b >= 0) { E r = nullptr; if (builtin(s, b, in, args, r)) finishCall(s, in, r); }
      else call(s, callee, args);
      break; }
    case Instruction::Resume: { E e = V(0); uint64_t p = (*e->agg)[0]->val;
      if (s.st.back().f->nounwind) { violation(s, "terminate", "exception leaves a function declared not to throw"); throw Stop(); }
      if (s.st.size() == 1) { violation(s, "uncaught", "exception leaves the harness"); throw Stop(); }
      popFrame(s); unwind(s, p); break; }
    case Instruction::Unreachable: violation(s, "unreachable", "unreachable code reached"); throw Stop();
    case Instruction::LandingPad: unsupported(s, "landingpad executed");
    case Instruction::Fence: f.ip++; break;
    case Instruction::AtomicRMW: {
      auto *rm = cast<AtomicRMWInst>(in.src); unsigned by = in.imm = DL->getTypeStoreSize(in.src->getType());
      E a = V(0), v = V(1); E old = load(s, a, by); E nv = nullptr;
      switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = X.bin(ADD, old, v); break; case AtomicRMWInst::Sub: nv = X.bin(SUB, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = X.bin(OR, old, v); break; case AtomicRMWInst::And: nv = X.bin(AND, old, v); break; default: unsupported(s, "atomicrmw"); }
      store(s, a, nv, by); SET(old); break; }
    default: unsupported(s, std::string("instruction ") + in.src->getOpcodeName());
    }
  }
  void run(const Function *entry) {
    State s0; s0.mem = ginit; s0.bump = heapStart;
    if (GlobalVariable *gc = M->getNamedGlobal("llvm.global_ctors")) {
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto &op : ca->operands()) if (auto *fn = dyn_cast<Function>(cast<Constant>(op)->getAggregateElement(1u))) {
          call(s0, finfo(fn), {}); try { for (;;) step(s0); } catch (Stop &) {} s0.st.clear(); nPaths = 0; samples.clear(); sampleSeen = 0;
        }
    }
    call(s0, finfo(entry), {});
    work.push_back(std::move(s0));
    uint64_t tick = 0; double firstViol = 0;
    while (!work.empty()) {
      State s = std::move(work.back()); work.pop_back();
      try {
        for (;;) {
          step(s);
          if ((++tick & 4095) == 0 && (now() - T0 > timeLimit || (firstViol && now() - firstViol > 12))) { incomplete = "time limit"; maxStepsSeen = std::max(maxStepsSeen, s.steps); return; }
        }
      } catch (Stop &) {}
      maxStepsSeen = std::max(maxStepsSeen, s.steps);
      if (!error.empty() && viol.empty()) return;
      size_t tot = 0; for (auto &v : violCnt) tot += v.second;
      if (tot && !firstViol) firstViol = now();
      if (tot >= 12 || (tot && now() - firstViol > 8)) { incomplete = "stopped after violations"; return; }
      if (now() - T0 > timeLimit) { incomplete = "time limit"; return; }
    }
  }
};

static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }

int main(int argc, char **argv) {
  T0 = now();
  std::string file, entry, out, dump; Exec ex; unsigned seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--time") ex.timeLimit = atof(nx().c_str());
    else if (a == "--max-steps") ex.maxSteps = atoll(nx().c_str());
    else if (a == "--samples") ex.maxSamples = atoll(nx().c_str());
    else if (a == "--seed") seed = atoi(nx().c_str());
    else if (a == "--lin") ex.linMode = true;
    else if (a == "--dump") dump = nx();
    else if (a == "--dump-every") ex.dumpEvery = atoi(nx().c_str());
    else if (a == "--fix") { std::string f = nx(); auto p = f.find('='); std::string v = f.substr(p + 1); auto q = v.find(".."); uint64_t lo = strtoull(v.c_str(), 0, 0), hi = q == std::string::npos ? lo : strtoull(v.c_str() + q + 2, 0, 0); ex.fix[f.substr(0, p)] = {lo, hi}; }
    else file = a;
  }
  ex.rng.seed(seed);
  Z3_config cfg = Z3_mk_config(); X.z3 = Z3_mk_context(cfg);
  ex.solver = Z3_mk_simple_solver(X.z3); Z3_solver_inc_ref(X.z3, ex.solver);
  Z3_params p = Z3_mk_params(X.z3); Z3_params_inc_ref(X.z3, p); Z3_params_set_uint(X.z3, p, Z3_mk_string_symbol(X.z3, "timeout"), 60000); Z3_params_set_uint(X.z3, p, Z3_mk_string_symbol(X.z3, "random_seed"), seed); Z3_solver_set_params(X.z3, ex.solver, p);
  SMDiagnostic err; ex.M = parseIRFile(file, err, ex.ctx);
  if (!ex.M) { err.print("symex", errs()); return 2; }
  ex.DL = &ex.M->getDataLayout();
  if (!dump.empty()) ex.dumpq = fopen(dump.c_str(), "w");
  ex.layout();
  Function *f = ex.M->getFunction(entry);
  if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  ex.run(f);
  if (ex.dumpq) fclose(ex.dumpq);
  // functions and lines of the library executed
  std::map<std::string, std::set<unsigned>> lines; std::set<std::string> funcs;
  for (auto &fp : ex.fns) for (auto &b : fp.second->blocks) for (auto &in : b->ins) if (in.hit && in.src)
    if (const DILocation *l = in.src->getDebugLoc().get()) for (; l; l = l->getInlinedAt()) {
      StringRef fn = l->getFilename(); if (!fn.contains("circular_buffer")) continue; auto pz = fn.rfind('/');
      lines[fn.substr(pz + 1).str()].insert(l->getLine());
      if (auto *sp = l->getScope()->getSubprogram()) { StringRef ff = sp->getFilename(); funcs.insert(ff.substr(ff.rfind('/') + 1).str() + ":" + sp->getName().str()); }
    }
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"entry\":%s,\"paths\":%lu,\"assumed_away\":%lu,\"steps\":%lu,\"forks\":%lu,\"queries\":%lu,\"integer_queries\":%lu,\"cache_hits\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"checks\":%lu,\"check_queries\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"max_path_steps\":%lu,\"incomplete\":%s,\"error\":%s,\n",
          js(entry).c_str(), ex.nPaths, ex.nAssumed, ex.nSteps, ex.nForks, ex.nQueries, ex.nLin, ex.nCacheHits, ex.nSat, ex.nUnsat, ex.nUnk, ex.nChecks, ex.nCheckQ, ex.tSolver, now() - T0, ex.maxStepsSeen, js(ex.incomplete).c_str(), js(ex.error).c_str());
  fprintf(o, "\"reach\":{"); bool first = true; for (auto &r : ex.reach) { fprintf(o, "%s%s:%lu", first ? "" : ",", js(r.first).c_str(), r.second); first = false; }
  fprintf(o, "},\n\"violations\":["); first = true;
  for (auto &v : ex.viol) { fprintf(o, "%s{\"kind\":%s,\"what\":%s,\"where\":%s,\"in\":[", first ? "" : ",\n", js(v.kind).c_str(), js(v.what).c_str(), js(v.where).c_str()); first = false; for (size_t i = 0; i < v.in.size(); i++) fprintf(o, "%s%lu", i ? "," : "", v.in[i]); fprintf(o, "],\"names\":["); for (size_t i = 0; i < v.names.size(); i++) fprintf(o, "%s%s", i ? "," : "", js(v.names[i]).c_str()); fprintf(o, "]}"); }
  fprintf(o, "],\n\"funcs\":["); first = true; for (auto &x : funcs) { fprintf(o, "%s%s", first ? "" : ",", js(x).c_str()); first = false; }
  fprintf(o, "],\n\"lines\":{"); first = true; for (auto &l : lines) { fprintf(o, "%s%s:[", first ? "" : ",", js(l.first).c_str()); first = false; bool f2 = true; for (unsigned x : l.second) { fprintf(o, "%s%u", f2 ? "" : ",", x); f2 = false; } fprintf(o, "]"); }
  fprintf(o, "},\n\"samples\":["); first = true; for (auto &sm : ex.samples) { fprintf(o, "%s{\"in\":[", first ? "" : ",\n"); first = false; for (size_t i = 0; i < sm.in.size(); i++) fprintf(o, "%s%lu", i ? "," : "", sm.in[i]); fprintf(o, "],\"hash\":%lu}", sm.hash); }
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o); else fflush(o);
  _Exit(0);
}
