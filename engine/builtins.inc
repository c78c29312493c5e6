  // Library functions and compiler intrinsics, modelled directly (included inside struct Exec).
  enum BI { B_RANGE, B_ANY32, B_ANY64, B_ASSUME, B_CHECK, B_REACH, B_OBSERVE, B_CONC, B_FAIL, B_STOP, B_FREEZE, B_UNFREEZE, B_ENGINE,
            B_NEW, B_DELETE, B_MALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN,
            B_EXALLOC, B_EXFREE, B_THROW, B_BCATCH, B_ECATCH, B_RETHROW, B_EXPTR, B_TERMINATE, B_ABORT, B_NOP, B_NOP0, B_THROW_LEN, B_THROW_OOR, B_THROW_ALLOC, B_GUARD, B_INTR = 1000 };
  std::map<const Function *, int> bcache;
  int builtinOf(const Function *f) {
    auto it = bcache.find(f); if (it != bcache.end()) return it->second;
    int r = -1; std::string n = f->getName().str();
    if (f->isIntrinsic()) r = B_INTR + (int)f->getIntrinsicID();
    else if (f->isDeclaration() || n == "malloc" || n == "free") {
      static const std::map<std::string, int> t = {
        {"vp_range", B_RANGE}, {"vp_any32", B_ANY32}, {"vp_any64", B_ANY64}, {"vp_assume", B_ASSUME}, {"vp_check", B_CHECK}, {"vp_reach", B_REACH}, {"vp_observe", B_OBSERVE},
        {"vp_concretize", B_CONC}, {"vp_fail", B_FAIL}, {"vp_stop", B_STOP}, {"vp_freeze", B_FREEZE}, {"vp_unfreeze", B_UNFREEZE}, {"vp_engine", B_ENGINE},
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE},
        {"malloc", B_MALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
        {"__cxa_allocate_exception", B_EXALLOC}, {"__cxa_free_exception", B_EXFREE}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BCATCH}, {"__cxa_end_catch", B_ECATCH}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_get_exception_ptr", B_EXPTR},
        {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_call_unexpected", B_TERMINATE}, {"__cxa_call_terminate", B_TERMINATE}, {"abort", B_ABORT}, {"__assert_fail", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT},
        {"_ZSt20__throw_length_errorPKc", B_THROW_LEN}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_THROW_OOR}, {"_ZSt20__throw_out_of_rangePKc", B_THROW_OOR}, {"_ZSt17__throw_bad_allocv", B_THROW_ALLOC}, {"_ZSt28__throw_bad_array_new_lengthv", B_THROW_ALLOC},
        {"__cxa_atexit", B_NOP0}, {"__cxa_guard_acquire", B_GUARD}, {"__cxa_guard_release", B_NOP}, {"__cxa_guard_abort", B_NOP}, {"__cxa_throw_bad_array_new_length", B_THROW_ALLOC}};
      auto q = t.find(n);
      if (q != t.end()) r = q->second;
      else if (n.compare(0, 4, "_ZNS") == 0 && (n.find("out_of_range") != n.npos || n.find("length_error") != n.npos || n.find("bad_alloc") != n.npos || n.find("logic_error") != n.npos || n.find("9exception") != n.npos || n.find("invalid_argument") != n.npos)) r = B_NOP;
    }
    bcache[f] = r; return r;
  }
  std::string cstr(State &s, E a) {
    std::string r; uint64_t p = concretize(s, a);
    for (;;) { size_t i = findObj(s, p); if (i == (size_t)-1) break; E e = loadAt(s, i, p - s.mem[i].base, 1); if (e->op != CONST || !e->val) break; r += (char)e->val; p++; }
    return r;
  }
  E truth(E a) { return a->w == 1 ? a : X.notE(X.bin(EQ, a, X.cst(0, a->w))); }
  E input(State &s, const std::string &name, uint64_t lo, uint64_t hi, unsigned minw) {
    auto fx = fix.find(name);
    if (fx != fix.end()) { lo = std::max(lo, fx->second.first); hi = std::min(hi, fx->second.second); }
    if (lo > hi) { nAssumed++; throw Stop(); }
    if (lo == hi) { E c = X.cst(lo, 64); s.inputs.push_back(c); return c; }
    unsigned w = 64 - __builtin_clzll(hi); (void)minw;
    int k = s.nameCnt[name]++;
    std::string key = name + "#" + std::to_string(k) + ":" + std::to_string(lo) + ":" + std::to_string(hi);
    E v = X.var(key, name + (k ? "#" + std::to_string(k) : ""), w, lo, hi, false);
    s.inputs.push_back(v);
    if (hi != maskw(w)) s.pc.push_back(X.intern(ULE, 1, 0, v, X.cst(hi, w)));
    if (lo) s.pc.push_back(X.intern(ULE, 1, 0, X.cst(lo, w), v));
    if (s.model.size() <= v->val) { size_t o = s.model.size(); s.model.resize(v->val + 1); for (; o <= v->val; o++) s.model[o] = X.vars[o].lo; }
    return X.zext(v, 64);
  }
  // true: finished normally with result r (continue after the call); false: control already transferred
  bool builtin(State &s, int b, I &in, std::vector<E> &a, E &r) {
    if (b >= B_INTR) return intrinsic(s, b - B_INTR, in, a, r);
    switch (b) {
    case B_RANGE: { std::string n = cstr(s, a[0]); uint64_t lo = concretize(s, a[1]), hi = concretize(s, a[2]); r = input(s, n, lo, hi, 1); return true; }
    case B_ANY32: r = X.extract(input(s, cstr(s, a[0]), 0, 0xffffffffu, 32), 0, 32); return true;
    case B_ANY64: r = input(s, cstr(s, a[0]), 0, ~0ull, 64); return true;
    case B_ASSUME: addAssume(s, truth(a[0])); return true;
    case B_CHECK: {
      E c = truth(a[0]); nChecks++;
      if (c->op == CONST) { if (!c->val) { violation(s, "check", cstr(s, a[1])); throw Stop(); } return true; }
      E n = X.notE(c); int k = lookup(s, c, n);
      if (k == 1) return true;
      if (k == 0) { violation(s, "check", cstr(s, a[1])); throw Stop(); }
      nCheckQ++;
      if (!X.eval(c, s.model)) { violation(s, "check", cstr(s, a[1])); std::vector<uint64_t> m; if (query(s, c, &m) != 1) throw Stop(); s.model.swap(m); learn(s, c, true); return true; }
      std::vector<uint64_t> m; int q = query(s, n, &m);
      if (q == 1) { violationM(s, m, "check", cstr(s, a[1])); learn(s, c, true); }
      else learn(s, c, q != 0);
      return true; }
    case B_REACH: reach[cstr(s, a[0])]++; return true;
    case B_OBSERVE: s.obs.push_back(a[0]); return true;
    case B_CONC: r = X.cst(concretize(s, a[0]), 64); return true;
    case B_FAIL: violation(s, "check", cstr(s, a[0])); throw Stop();
    case B_STOP: { for (auto &e : s.mem) if (e.o.p->kind == K_NEW || e.o.p->kind == K_MALLOC) wr(s, findObj(s, e.base))->kind = K_EXC; pathDone(s); throw Stop(); }
    case B_FREEZE: s.freezeMark = s.bump; return true;
    case B_UNFREEZE: s.freezeMark = 0; return true;
    case B_ENGINE: r = X.cst(1, 32); return true;
    case B_NEW: case B_MALLOC: {
      uint64_t n = concretize(s, a[0]);
      if (n > (1u << 24)) { violation(s, "memory", "allocation request larger than 16 MiB in a bounded harness"); throw Stop(); }
      r = X.cst(newObj(s, n, b == B_NEW ? K_NEW : K_MALLOC), 64); return true; }
    case B_DELETE: case B_FREE: {
      uint64_t p = concretize(s, a[0]); if (!p) return true;
      size_t i = findObj(s, p);
      if (i == (size_t)-1 || s.mem[i].base != p || s.mem[i].o.p->kind != (b == B_DELETE ? K_NEW : K_MALLOC)) { violation(s, "memory", "invalid or repeated deallocation"); throw Stop(); }
      if (b == B_DELETE && a.size() > 1) { uint64_t n = concretize(s, a[1]); if (n != s.mem[i].size) { violation(s, "memory", "sized deallocation with a wrong size"); throw Stop(); } }
      freeObj(s, i); return true; }
    case B_MEMCPY: { uint64_t n = concretize(s, a[2]); if (a[0]->op != CONST) concretize(s, a[0]); if (a[1]->op != CONST) concretize(s, a[1]); copyBytes(s, a[0], a[1], n); r = a[0]; return true; }
    case B_MEMSET: { memset_(s, a); r = a[0]; return true; }
    case B_MEMCMP: {
      uint64_t n = concretize(s, a[2]); E res = X.cst(0, 32);
      for (uint64_t i = n; i-- > 0;) { E x = load(s, X.bin(ADD, a[0], X.cst(i, 64)), 1), y = load(s, X.bin(ADD, a[1], X.cst(i, 64)), 1); res = X.ite(X.bin(EQ, x, y), res, X.ite(X.bin(ULT, x, y), X.cst(-1, 32), X.cst(1, 32))); }
      r = res; return true; }
    case B_STRLEN: r = X.cst(cstr(s, a[0]).size(), 64); return true;
    case B_EXALLOC: { uint64_t n = concretize(s, a[0]); r = X.cst(newObj(s, n, K_EXC), 64); return true; }
    case B_EXFREE: { size_t i = findObj(s, concretize(s, a[0])); if (i != (size_t)-1) freeObj(s, i); return true; }
    case B_THROW: { uint64_t p = concretize(s, a[0]); s.excs.push_back({p, concretize(s, a[1]), concretize(s, a[2]), 0}); doThrow(s, p); return false; }
    case B_BCATCH: { uint64_t p = concretize(s, a[0]);
      for (auto &e : s.excs) if (e.ptr == p) { e.handlers = e.handlers < 0 ? -e.handlers + 1 : e.handlers + 1; if (s.caught.empty() || s.caught.back() != p) s.caught.push_back(p); }
      r = a[0]; return true; }
    case B_ECATCH: {
      if (s.caught.empty()) return true;
      uint64_t p = s.caught.back();
      for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].ptr == p) {
        Exc &e = s.excs[i];
        if (e.handlers < 0) { if (++e.handlers == 0) s.caught.pop_back(); }
        else if (--e.handlers == 0) { s.caught.pop_back(); size_t k = findObj(s, p); if (k != (size_t)-1) freeObj(s, k); s.excs.erase(s.excs.begin() + i); }
        break; }
      return true; }
    case B_RETHROW: {
      if (s.caught.empty()) { violation(s, "terminate", "rethrow without exception"); throw Stop(); }
      uint64_t p = s.caught.back(); for (auto &e : s.excs) if (e.ptr == p) e.handlers = -e.handlers;
      doThrow(s, p); return false; }
    case B_EXPTR: r = a[0]; return true;
    case B_TERMINATE: violation(s, "terminate", "std::terminate called"); throw Stop();
    case B_ABORT: violation(s, "terminate", "abort called"); throw Stop();
    case B_NOP: return true;
    case B_NOP0: r = X.cst(0, 32); return true;
    case B_GUARD: { E v = load(s, a[0], 1); bool init = decide(s, X.bin(EQ, v, X.cst(0, 8))); if (init) store(s, a[0], X.cst(1, 8), 1); r = X.cst(init, 32); return true; }
    case B_THROW_LEN: throwStd(s, "_ZTISt12length_error"); return false;
    case B_THROW_OOR: throwStd(s, "_ZTISt12out_of_range"); return false;
    case B_THROW_ALLOC: throwStd(s, "_ZTISt9bad_alloc"); return false;
    }
    unsupported(s, "builtin");
  }
  void memset_(State &s, std::vector<E> &a) {
    uint64_t n = concretize(s, a[2]); if (!n) return;
    uint64_t p = concretize(s, a[0]);
    Ref d = resolve(s, X.cst(p, 64), n, "write"); checkWrite(s, d.oi);
    Obj *o = wr(s, d.oi); E v = X.extract(a[1], 0, 8);
    E wide = v->op == CONST ? X.cst(v->val * 0x0101010101010101ull, 64) : nullptr;
    for (uint64_t i = 0; i < n; i++) o->b[d.off->val + i] = wide && n % 8 == 0 ? Byte{wide, (uint8_t)(i % 8)} : Byte{v, 0};
  }
  bool intrinsic(State &s, unsigned id, I &in, std::vector<E> &a, E &r) {
    unsigned w = in.w;
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, a[2]); if (n) { if (a[0]->op != CONST) concretize(s, a[0]); if (a[1]->op != CONST) concretize(s, a[1]); copyBytes(s, a[0], a[1], n); } return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: memset_(s, a); return true;
    case Intrinsic::umax: r = X.ite(X.bin(ULT, a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::umin: r = X.ite(X.bin(ULT, a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::smax: r = X.ite(X.bin(SLT, a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::smin: r = X.ite(X.bin(SLT, a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::abs: r = X.ite(X.bin(SLT, a[0], X.cst(0, w)), X.bin(SUB, X.cst(0, w), a[0]), a[0]); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: r = a[0]; return true;
    case Intrinsic::is_constant: r = X.f1; return true;
    case Intrinsic::objectsize: r = X.cst(~0ull, w); return true;
    case Intrinsic::usub_sat: r = X.ite(X.bin(ULT, a[0], a[1]), X.cst(0, w), X.bin(SUB, a[0], a[1])); return true;
    case Intrinsic::uadd_sat: { E t = X.bin(ADD, a[0], a[1]); r = X.ite(X.bin(ULT, t, a[0]), X.cst(~0ull, w), t); return true; }
    case Intrinsic::uadd_with_overflow: { E t = X.bin(ADD, a[0], a[1]); r = X.agg({t, X.bin(ULT, t, a[0])}); return true; }
    case Intrinsic::usub_with_overflow: { r = X.agg({X.bin(SUB, a[0], a[1]), X.bin(ULT, a[0], a[1])}); return true; }
    case Intrinsic::umul_with_overflow: {
      E x = a[0], y = a[1]; if (x->op == CONST) std::swap(x, y);
      if (y->op != CONST) { y = X.cst(concretize(s, y), y->w); }
      E ov = y->val ? X.bin(ULT, X.cst(maskw(x->w) / y->val, x->w), x) : X.f1;
      r = X.agg({X.bin(MUL, x, y), ov}); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned ww = a[0]->w; E t = X.bin(id == Intrinsic::sadd_with_overflow ? ADD : SUB, a[0], a[1]);
      E sa = X.bin(SLT, a[0], X.cst(0, ww)), sb = X.bin(SLT, a[1], X.cst(0, ww)), st = X.bin(SLT, t, X.cst(0, ww));
      E ov = id == Intrinsic::sadd_with_overflow ? X.bin(AND, X.bin(EQ, sa, sb), X.notE(X.bin(EQ, sa, st))) : X.bin(AND, X.notE(X.bin(EQ, sa, sb)), X.notE(X.bin(EQ, sa, st)));
      r = X.agg({t, ov}); return true; }
    case Intrinsic::smul_with_overflow: {
      E x = a[0], y = a[1]; unsigned ww = x->w; if (ww > 64) unsupported(s, "wide multiplication"); if (x->op == CONST) std::swap(x, y);
      if (y->op != CONST) y = X.cst(concretize(s, y), ww);
      int64_t c = sx(y->val, ww), hi = (int64_t)(maskw(ww) >> 1), lo = -hi - 1; E ov = X.f1;
      if (c == -1) ov = X.bin(EQ, x, X.cst((uint64_t)lo, ww));
      else if (c) { int64_t p = hi / c, q = lo / c; ov = X.bin(OR, X.bin(SLT, X.cst((uint64_t)std::max(p, q), ww), x), X.bin(SLT, x, X.cst((uint64_t)std::min(p, q), ww))); }
      r = X.agg({X.bin(MUL, x, y), ov}); return true; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      E t = X.bin(id == Intrinsic::sadd_sat ? ADD : SUB, a[0], a[1]), z = X.cst(0, w), sa = X.bin(SLT, a[0], z), sb = X.bin(SLT, a[1], z), st = X.bin(SLT, t, z), same = X.bin(EQ, sa, sb);
      E ov = X.bin(AND, id == Intrinsic::sadd_sat ? same : X.notE(same), X.notE(X.bin(EQ, sa, st)));
      r = X.ite(ov, X.ite(sa, X.cst(1ull << (w - 1), w), X.cst(maskw(w) >> 1, w)), t); return true; }
    case Intrinsic::eh_typeid_for: r = X.cst(typeId(concretize(s, a[0])), 32); return true;
    case Intrinsic::ctpop: { E t = X.cst(0, w); for (unsigned i = 0; i < w; i++) t = X.bin(ADD, t, X.zext(X.extract(a[0], i, 1), w)); r = t; return true; }
    case Intrinsic::ctlz: { E t = X.cst(w, w); for (unsigned i = 0; i < w; i++) t = X.ite(X.extract(a[0], i, 1), X.cst(w - 1 - i, w), t); r = t; return true; }
    case Intrinsic::cttz: { E t = X.cst(w, w); for (unsigned i = w; i-- > 0;) t = X.ite(X.extract(a[0], i, 1), X.cst(i, w), t); r = t; return true; }
    case Intrinsic::bswap: { E t = X.extract(a[0], 0, 8); for (unsigned i = 8; i < w; i += 8) t = X.concat(t, X.extract(a[0], i, 8)); r = t; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t k = concretize(s, a[2]) % w; if (!k) { r = id == Intrinsic::fshl ? a[0] : a[1]; return true; }
      if (id == Intrinsic::fshl) r = X.bin(OR, X.bin(SHL, a[0], X.cst(k, w)), X.bin(LSHR, a[1], X.cst(w - k, w))); else r = X.bin(OR, X.bin(SHL, a[0], X.cst(w - k, w)), X.bin(LSHR, a[1], X.cst(k, w)));
      return true; }
    case Intrinsic::stacksave: r = X.cst(0, 64); return true;
    case Intrinsic::stackrestore: case Intrinsic::prefetch: return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "terminate", "trap reached"); throw Stop();
    }
    unsupported(s, "intrinsic " + in.src->getOperand(in.src->getNumOperands() - 1)->getName().str());
  }
