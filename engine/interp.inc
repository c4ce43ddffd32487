// ------------------------------------------------------------------ interpreter (included by engine.cc)
static Val rv(Reg const& r) { Val v; v.c = r.c; v.s = r.s; return v; }
static Reg toReg(Val const& v) { return Reg{v.c, v.s, nullptr}; }
static Frame* cur;
static inline Reg const& getR(Opn const& o) { return o.reg >= 0 ? cur->regs[o.reg] : o.k; }
static inline Val getV(Opn const& o) { Reg const& r = getR(o); Val v; v.c = r.c; v.s = r.s; return v; }
static inline void setV(Ins const& in, Val const& v) { if (in.dst >= 0) { Reg& r = cur->regs[in.dst]; r.c = v.c; r.s = v.s; r.agg = nullptr; } }

static Reg loadTy(u64 a, Type* t) {
  if (t->isStructTy() || t->isArrayTy()) {
    Reg r = rc(0); r.agg = new std::vector<Reg>();
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(loadTy(a + sl->getElementOffset(i), st->getElementType(i)));
    } else {
      u64 es = DL->getTypeAllocSize(t->getArrayElementType());
      for (unsigned i = 0; i < t->getArrayNumElements(); i++) r.agg->push_back(loadTy(a + i * es, t->getArrayElementType()));
    }
    return r;
  }
  u64 sz = DL->getTypeStoreSize(t);
  if (sz > 8) engineError("load wider than 8 bytes");
  Val v = loadMem(a, sz, t->isDoubleTy());
  unsigned w = DL->getTypeSizeInBits(t);
  if (w == 1 && v.s) return toReg(mkBool(toBV(v, 8).extract(0, 0) == C.bv_val(1, 1)));
  if (!v.s) v.c = maskw(v.c, w);
  return toReg(v);
}
static void storeTy(u64 a, Reg const& r, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(a + sl->getElementOffset(i), (*r.agg)[i], st->getElementType(i));
    return;
  }
  if (t->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeTy(a + i * es, (*r.agg)[i], t->getArrayElementType());
    return;
  }
  u64 sz = DL->getTypeStoreSize(t);
  if (sz > 8) engineError("store wider than 8 bytes");
  Val v = rv(r);
  if (v.s && v.s->k == SBOOL) v = mkBV(toBV(v, 8));
  storeMem(a, sz, v);
}

static std::string cstr(u64 a) {
  std::string s;
  while (true) {
    char c = concretize(loadMem(a, 1, false), 8);
    a++;
    if (!c) return s;
    s += c;
  }
}

// exceptions
struct Exc { u64 obj; u64 tinfo; u64 adjusted; };
static std::map<u64, Exc> excs;           // token (== object address)
static std::vector<u64> caught;
static std::map<u64, int> typeIds;
static int typeIdFor(u64 ti) { if (!ti) return 0x7fff; auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }

static void popFrame() {
  Frame* f = stk.back();
  u64 top = stackTop;
  if (top > f->stackMark) {
    u64 a = (u64)stackBase + f->stackMark, n = top - f->stackMark;
    clearSym(a, n);
    poison(a, n);
  }
  stackTop = f->stackMark;
  stk.pop_back();
  delete f;
  cur = stk.empty() ? nullptr : stk.back();
}
static void jumpTo(BasicBlock const* from, BasicBlock const* to) {
  Fn* fn = cur->fn;
  unsigned t = fn->bidx[to];
  Blk& bl = fn->blk[t];
  if (bl.nphi) {
    static std::vector<Reg> tmp;
    tmp.clear();
    for (unsigned i = 0; i < bl.nphi; i++) {
      PHINode const* p = cast<PHINode>(bl.ins[i].I);
      int k = p->getBasicBlockIndex(from);
      tmp.push_back(getR(bl.ins[i].o[k]));
    }
    for (unsigned i = 0; i < bl.nphi; i++) cur->regs[bl.ins[i].dst] = tmp[i];
  }
  cur->b = t;
  cur->pc = bl.nphi;
}
static std::string tinfoName(u64 ti) {
  if (!ti) return "?";
  return demangle(((std::type_info*)ti)->name());
}
// unwind from the current top frame (whose current instruction is the throwing call); token names the exception
static void unwind(u64 token) {
  Exc& e = excs[token];
  std::string origin = whereAmI();
  while (!stk.empty()) {
    cur = stk.back();
    Ins& in = cur->fn->blk[cur->b].ins[cur->pc - 1];
    if (auto* iv = dyn_cast<InvokeInst>(in.I)) {
      LandingPadInst const* lp = iv->getLandingPadInst();
      int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        if (lp->isCatch(i)) {
          u64 ct = evalInt(lp->getClause(i));
          if (!ct) { sel = typeIdFor(0); e.adjusted = e.obj; break; }
          void* p = (void*)e.obj;
          std::type_info* tt = (std::type_info*)e.tinfo;
          if (tt->__is_pointer_p()) p = *(void**)p;
          if (((std::type_info*)ct)->__do_catch(tt, &p, 1)) { sel = typeIdFor(ct); e.adjusted = (u64)p; }
        } else {
          Constant* c = lp->getClause(i);
          bool ok = false;
          for (unsigned k = 0; k < c->getType()->getArrayNumElements(); k++) {
            u64 ct = evalInt(c->getAggregateElement(k));
            void* p = (void*)e.obj;
            if (!ct || ((std::type_info*)ct)->__do_catch((std::type_info*)e.tinfo, &p, 1)) ok = true;
          }
          if (!ok) sel = -1000;  // exception specification violated
          if (sel == -1000) break;
        }
      }
      if (sel == -1000) pathViolation("terminate:exception-specification", "terminate", tinfoName(e.tinfo));
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        BasicBlock const* from = iv->getParent();
        jumpTo(from, iv->getUnwindDest());
        // the landingpad is the first non-phi instruction
        Ins& li = cur->fn->blk[cur->b].ins[cur->pc];
        Reg r = rc(0); r.agg = new std::vector<Reg>{rc(token), rc((u64)(uint32_t)sel)};
        cur->regs[li.dst] = r;
        cur->pc++;
        return;
      }
    }
    popFrame();
  }
  ensureModel();
  std::string msg = tinfoName(e.tinfo);
  recordViolation("uncaught-exception:" + msg, "exception", origin, C.bool_val(true));
  endPath(false);
  finish(0);
}

// native calls
typedef u64 (*NF)(u64, ...);
typedef double (*NFD)(u64, ...);
typedef unsigned __int128 (*NF2)(u64, ...);
static Val nativeCall(void* p, std::vector<Val> const& a, std::vector<bool> const& fp, Type* rt, bool* threw, u64* token, Reg* aggRet) {
  u64 g[16]; double d[8]; int ng = 0, nd = 0;
  memset(g, 0, sizeof g); memset(d, 0, sizeof d);
  for (size_t i = 0; i < a.size(); i++) {
    if (fp[i]) { if (nd >= 8) engineError("too many fp args"); d[nd++] = asD(a[i].c); }
    else { if (ng >= 16) engineError("too many args"); g[ng++] = a[i].c; }
  }
  *threw = false;
  Val r;
  try {
    if (rt->isDoubleTy()) {
      r.c = fromD(((NFD)p)(g[0], g[1], g[2], g[3], g[4], g[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13]));
    } else if (rt->isStructTy()) {
      unsigned __int128 x = ((NF2)p)(g[0], g[1], g[2], g[3], g[4], g[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13]);
      aggRet->agg = new std::vector<Reg>{rc((u64)x), rc((u64)(x >> 64))};
    } else {
      r.c = ((NF)p)(g[0], g[1], g[2], g[3], g[4], g[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13]);
      if (rt->isIntegerTy()) r.c = maskw(r.c, rt->getIntegerBitWidth());
    }
  } catch (...) {
    *threw = true;
    static std::vector<std::exception_ptr> keep;
    std::exception_ptr ep = std::current_exception();
    keep.push_back(ep);
    u64 obj = *(u64*)&keep.back();
    std::type_info* ti = abi::__cxa_current_exception_type();
    excs[obj] = Exc{obj, (u64)ti, obj};
    *token = obj;
  }
  return r;
}

static std::map<std::string, int> inputCount;
static Val freshInput(std::string name, i64 lo, i64 hi, unsigned w, uint32_t* idOut) {
  int& n = inputCount[name];
  name += "#" + std::to_string(n++);
  uint32_t id = F->newIntVar(name, mpz_class((long)lo), mpz_class((long)hi), true);
  Var& v = F->vars[id];
  mpz_class rng = v.hi - v.lo;
  unsigned bw = v.u.get_sort().bv_size();
  mpz_class full = (mpz_class(1) << bw) - 1;
  if (rng < full || rng == 0) S->add(z3::ule(v.u, C.bv_val(rng.get_str().c_str(), bw)));
  z3::expr e = F->varBV(id, w).simplify();
  astVar[Z3_get_ast_id(C, e)] = id; keepAlive.push_back(e);
  *idOut = id;
  if (lo == hi) return mk(maskw((u64)lo, w));
  return mkBV(e);
}

enum SpecialResult { SP_NO, SP_DONE, SP_THROW, SP_FRAME };
typedef std::function<SpecialResult(std::vector<Val>&, Ins&, Val&)> Special;
static std::vector<Special> specials;
static std::unordered_map<std::string, int> specialIdx;
static u64 throwToken;
static void sp(char const* names, Special f) {
  specials.push_back(f);
  std::istringstream is(names);
  std::string n;
  while (is >> n) specialIdx[n] = specials.size() - 1;
}
static u64 conc(Val const& v, unsigned w = 64) { return v.s ? concretize(v, w) : v.c; }

static void checkCond(Val const& c, std::string const& label) {
  G->checks++;
  noteCover(("check:" + label).c_str());
  if (!c.s) {
    if (!(c.c & 1)) { ensureModel(); recordViolation(label, "check", whereAmI(), C.bool_val(true)); }
    return;
  }
  z3::expr e = toBool(c);
  G->checksSolver++;
  z3::check_result r = checkWith((!e).simplify());
  if (r == z3::unknown) { G->unknown++; engineError("solver returned unknown on assertion " + label); }
  if (r == z3::sat) {
    recordViolation(label, "check", whereAmI(), !e);
    addConstraint(e);
    ensureModel();
  }
}

static void initSpecials() {
  sp("malloc _Znwm _Znam _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZnwmRKSt9nothrow_t calloc realloc", nullptr);
  // individually:
  auto alloc = [](char kind) {
    return [kind](std::vector<Val>& a, Ins&, Val& r) { r = mk(heapAlloc(conc(a[0]), kind)); return SP_DONE; };
  };
  sp("malloc", alloc('m'));
  auto allocNew = [](char kind) {
    return [kind](std::vector<Val>& a, Ins& in, Val& r) {
      u64 n = conc(a[0]);
      if (n > (1ull << 28)) {
        // what operator new does for absurd sizes
        std::bad_alloc ba;
        try { throw std::bad_alloc(); } catch (...) {
          static std::vector<std::exception_ptr> keep; keep.push_back(std::current_exception());
          u64 obj = *(u64*)&keep.back();
          excs[obj] = Exc{obj, (u64)&typeid(std::bad_alloc), obj}; throwToken = obj;
        }
        return SP_THROW;
      }
      r = mk(heapAlloc(n, kind)); return SP_DONE;
    };
  };
  sp("_Znwm _ZnwmSt11align_val_t", allocNew('n'));
  sp("_Znam _ZnamSt11align_val_t", allocNew('a'));
  sp("_ZnwmRKSt9nothrow_t", alloc('n'));
  sp("_ZnamRKSt9nothrow_t", alloc('a'));
  sp("calloc", [](std::vector<Val>& a, Ins&, Val& r) { u64 n = conc(a[0]) * conc(a[1]); r = mk(heapAlloc(n, 'm')); memset((void*)r.c, 0, n); return SP_DONE; });
  sp("free", [](std::vector<Val>& a, Ins&, Val&) { heapFree(conc(a[0]), 'm'); return SP_DONE; });
  sp("_ZdlPv _ZdlPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t", [](std::vector<Val>& a, Ins&, Val&) { heapFree(conc(a[0]), 'n'); return SP_DONE; });
  sp("_ZdaPv _ZdaPvm _ZdaPvSt11align_val_t _ZdaPvmSt11align_val_t", [](std::vector<Val>& a, Ins&, Val&) { heapFree(conc(a[0]), 'a'); return SP_DONE; });
  sp("memcpy memmove", [](std::vector<Val>& a, Ins&, Val& r) { u64 d = conc(a[0]); moveMem(d, conc(a[1]), conc(a[2])); r = mk(d); return SP_DONE; });
  sp("memset", [](std::vector<Val>& a, Ins&, Val& r) {
    u64 d = conc(a[0]), n = conc(a[2]); if (n) { chk(d, n, "write"); clearSym(d, n); memset((void*)d, conc(a[1], 32), n); } r = mk(d); return SP_DONE; });
  sp("memcmp bcmp", [](std::vector<Val>& a, Ins&, Val& r) {
    u64 x = conc(a[0]), y = conc(a[1]), n = conc(a[2]);
    if (n) { chk(x, n, "read"); chk(y, n, "read"); }
    if (anySym(x, n) || anySym(y, n)) {
      z3::expr e = C.bv_val(0, 32);
      for (i64 i = (i64)n - 1; i >= 0; i--) {
        z3::expr p = z3::zext(toBV(loadMem(x + i, 1, false), 8), 24), q = z3::zext(toBV(loadMem(y + i, 1, false), 8), 24);
        e = z3::ite(p == q, e, p - q);
      }
      r = mkBV(e); return SP_DONE;
    }
    r = mk((u64)(uint32_t)memcmp((void*)x, (void*)y, n)); return SP_DONE; });
  sp("memchr", [](std::vector<Val>& a, Ins&, Val& r) {
    if (anySym(conc(a[0]), conc(a[2]))) engineError("memchr on symbolic bytes");
    r = mk((u64)memchr((void*)conc(a[0]), conc(a[1], 32), conc(a[2]))); return SP_DONE; });
  sp("strlen", [](std::vector<Val>& a, Ins&, Val& r) {
    u64 p = conc(a[0]), n = 0;
    while (true) {
      Val b = loadMem(p + n, 1, false);
      if (b.s ? decide((toBV(b, 8) == C.bv_val(0, 8)).simplify()) : b.c == 0) break;
      n++;
    }
    r = mk(n); return SP_DONE; });
  sp("__cxa_atexit", [](std::vector<Val>&, Ins&, Val& r) { r = mk(0); return SP_DONE; });
  sp("_ZNSt9exceptionD2Ev", [](std::vector<Val>&, Ins&, Val&) { return SP_DONE; });
  sp("abort", [](std::vector<Val>&, Ins&, Val&) -> SpecialResult {
    if (expectAbort) { G->aborted++; noteCover("cover:expected-abort"); endPath(true); }
    pathViolation("abort", "abort", "abort() reached"); });
  sp("exit _exit", [](std::vector<Val>&, Ins&, Val&) -> SpecialResult { pathViolation("exit", "exit", "exit() reached"); });
  sp("_ZSt9terminatev", [](std::vector<Val>&, Ins&, Val&) -> SpecialResult { pathViolation("terminate", "terminate", "std::terminate reached"); });
  sp("__assert_fail", [](std::vector<Val>& a, Ins&, Val&) -> SpecialResult { pathViolation("assert:" + cstr(a[0].c), "assert", "assertion failed"); });
  // exceptions
  sp("__cxa_allocate_exception", [](std::vector<Val>& a, Ins&, Val& r) { r = mk(heapAlloc(conc(a[0]), 'e')); return SP_DONE; });
  sp("__cxa_free_exception", [](std::vector<Val>& a, Ins&, Val&) { return SP_DONE; });
  sp("__cxa_throw", [](std::vector<Val>& a, Ins&, Val&) { u64 o = a[0].c; excs[o] = Exc{o, a[1].c, o}; throwToken = o; return SP_THROW; });
  sp("__cxa_begin_catch", [](std::vector<Val>& a, Ins&, Val& r) { caught.push_back(a[0].c); r = mk(excs[a[0].c].adjusted); return SP_DONE; });
  sp("__cxa_get_exception_ptr", [](std::vector<Val>& a, Ins&, Val& r) { r = mk(excs[a[0].c].adjusted); return SP_DONE; });
  sp("__cxa_end_catch", [](std::vector<Val>& a, Ins&, Val&) { if (!caught.empty()) caught.pop_back(); return SP_DONE; });
  sp("__cxa_rethrow", [](std::vector<Val>& a, Ins&, Val&) { if (caught.empty()) pathViolation("terminate:rethrow", "terminate", "rethrow without exception"); throwToken = caught.back(); return SP_THROW; });
  sp("_Unwind_Resume", [](std::vector<Val>& a, Ins&, Val&) { throwToken = a[0].c; return SP_THROW; });
  sp("__cxa_pure_virtual", [](std::vector<Val>&, Ins&, Val&) -> SpecialResult { pathViolation("pure-virtual-call", "terminate", ""); });
  // math
  sp("sqrt", [](std::vector<Val>& a, Ins&, Val& r) { r = fpSqrt(a[0]); return SP_DONE; });
  sp("fabs", [](std::vector<Val>& a, Ins&, Val& r) { r = fpAbs(a[0]); return SP_DONE; });
  sp("floor", [](std::vector<Val>& a, Ins&, Val& r) { r = fpRound(a[0], 'f'); return SP_DONE; });
  sp("ceil", [](std::vector<Val>& a, Ins&, Val& r) { r = fpRound(a[0], 'c'); return SP_DONE; });
  sp("trunc", [](std::vector<Val>& a, Ins&, Val& r) { r = fpRound(a[0], 't'); return SP_DONE; });
  sp("round", [](std::vector<Val>& a, Ins&, Val& r) { r = fpRound(a[0], 'r'); return SP_DONE; });
  sp("lround llround", [](std::vector<Val>& a, Ins&, Val& r) { r = fpToInt(fpRound(a[0], 'r'), 64, true); return SP_DONE; });
  sp("hypot", [](std::vector<Val>& a, Ins&, Val& r) {
    if (!a[0].s && !a[1].s) r = mk(fromD(std::hypot(asD(a[0].c), asD(a[1].c))));
    else r = fpSqrt(fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[0]), fpBin(Instruction::FMul, a[1], a[1])));
    return SP_DONE; });
  sp("fma", [](std::vector<Val>& a, Ins&, Val& r) { r = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[1]), a[2]); return SP_DONE; });
  sp("fmin", [](std::vector<Val>& a, Ins&, Val& r) { r = decideV(fpCmp(CmpInst::FCMP_OLT, a[0], a[1])) ? a[0] : a[1]; return SP_DONE; });
  sp("fmax", [](std::vector<Val>& a, Ins&, Val& r) { r = decideV(fpCmp(CmpInst::FCMP_OGT, a[0], a[1])) ? a[0] : a[1]; return SP_DONE; });
  sp("pow", [](std::vector<Val>& a, Ins&, Val& r) { r = fpPow(a[0], a[1]); return SP_DONE; });
  // harness API
  sp("sv_int", [](std::vector<Val>& a, Ins&, Val& r) {
    uint32_t id; r = freshInput(cstr(a[0].c), (int)conc(a[1], 32), (int)conc(a[2], 32), 32, &id); return SP_DONE; });
  sp("sv_bool", [](std::vector<Val>& a, Ins&, Val& r) {
    uint32_t id; Val v = freshInput(cstr(a[0].c), 0, 1, 8, &id);
    r = mkBool(F->vars[id].u == C.bv_val(1, 1)); return SP_DONE; });
  sp("sv_grid", [](std::vector<Val>& a, Ins&, Val& r) {
    uint32_t id; i64 lo = (int)conc(a[1], 32), hi = (int)conc(a[2], 32); int k = (int)conc(a[3], 32);
    freshInput(cstr(a[0].c), lo, hi, 32, &id);
    FpVal f = fpFromVar(id);
    mpq_class s(1); s /= mpz_class(1) << k;
    f.N = Fp::scale(f.N, s); f.lo = std::ldexp(f.lo, -k); f.hi = std::ldexp(f.hi, -k);
    r = lo == hi ? mk(fromD(std::ldexp((double)lo, -k))) : mkFP(f);
    return SP_DONE; });
  sp("sv_concretize", [](std::vector<Val>& a, Ins&, Val& r) { r = mk(conc(a[0], 32)); return SP_DONE; });
  sp("sv_assume", [](std::vector<Val>& a, Ins&, Val&) {
    if (!a[0].s) { if (!(a[0].c & 1)) { G->assumedAway++; finish(0); } return SP_DONE; }
    z3::expr e = toBool(a[0]);
    addConstraint(e);
    if (!curModel) {
      z3::check_result r = runCheck();
      if (r == z3::unsat) { G->assumedAway++; finish(0); }
      if (r == z3::unknown) { G->unknown++; engineError("solver returned unknown on an assumption"); }
      curModel.reset(new z3::model(S->get_model()));
    }
    return SP_DONE; });
  sp("sv_check", [](std::vector<Val>& a, Ins&, Val&) { checkCond(a[0], cstr(a[1].c)); return SP_DONE; });
  sp("sv_check_close", [](std::vector<Val>& a, Ins&, Val&) {
    std::string lab = cstr(a[3].c);
    checkCond(fpClose(a[0], a[1], asD(a[2].c)), lab); return SP_DONE; });
  sp("sv_close", [](std::vector<Val>& a, Ins&, Val& r) { r = fpClose(a[0], a[1], asD(a[2].c)); return SP_DONE; });
  sp("sv_cover", [](std::vector<Val>& a, Ins&, Val&) { noteCover(("cover:" + cstr(a[0].c)).c_str()); return SP_DONE; });
  sp("sv_obs_i", [](std::vector<Val>& a, Ins&, Val&) { obsv.push_back(Obs{cstr(a[0].c), false, a[1]}); return SP_DONE; });
  sp("sv_obs_d", [](std::vector<Val>& a, Ins&, Val&) { obsv.push_back(Obs{cstr(a[0].c), true, a[1]}); return SP_DONE; });
  sp("sv_expect_abort", [](std::vector<Val>& a, Ins&, Val&) { expectAbort = conc(a[0], 32); return SP_DONE; });
  sp("sv_end", [](std::vector<Val>& a, Ins&, Val&) -> SpecialResult { endPath(true); finish(0); });
  sp("sv_symbolic", [](std::vector<Val>& a, Ins&, Val& r) { r = mk(1); return SP_DONE; });
  sp("sv_print", [](std::vector<Val>& a, Ins&, Val&) { if (verbose) say("PRINT %s %s\n", cstr(a[0].c).c_str(), a[1].s ? "sym" : std::to_string((i64)a[1].c).c_str()); return SP_DONE; });
  sp("sv_print_d", [](std::vector<Val>& a, Ins&, Val&) {
    if (verbose) {
      if (a[1].s) { FpVal& f = *a[1].s->f; say("PRINT %s sym terms=%zu/%zu err=%g [%g,%g]\n", cstr(a[0].c).c_str(), f.N.t.size(), f.D.t.size(), f.err, f.lo, f.hi); }
      else say("PRINT %s %.17g\n", cstr(a[0].c).c_str(), asD(a[1].c));
    }
    return SP_DONE; });
}

static bool loosePrint(StringRef n) {
  return n.starts_with("_ZNSo") || n.starts_with("_ZSt16__ostream_insert") || n.starts_with("_ZNSolsE") || n == "printf" || n == "fprintf" || n == "puts" || n == "putchar";
}

static Val intrinsic(CallInst const* ci, Ins& in, std::vector<Val>& a) {
  Intrinsic::ID id = ci->getIntrinsicID();
  unsigned w = in.w;
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch:
      return mk(0);
    case Intrinsic::stacksave: return mk(0);
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    case Intrinsic::is_constant: return mk(0);
    case Intrinsic::objectsize: return mk(conc(a[1]) ? 0 : ~0ull);
    case Intrinsic::trap: pathViolation("trap", "trap", "llvm.trap reached");
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: moveMem(conc(a[0]), conc(a[1]), conc(a[2])); return mk(0);
    case Intrinsic::memset: {
      u64 d = conc(a[0]), n = conc(a[2]);
      if (n) { chk(d, n, "write"); clearSym(d, n); memset((void*)d, conc(a[1], 8), n); }
      return mk(0);
    }
    case Intrinsic::fabs: return fpAbs(a[0]);
    case Intrinsic::sqrt: return fpSqrt(a[0]);
    case Intrinsic::pow: return fpPow(a[0], a[1]);
    case Intrinsic::floor: return fpRound(a[0], 'f');
    case Intrinsic::ceil: return fpRound(a[0], 'c');
    case Intrinsic::trunc: return fpRound(a[0], 't');
    case Intrinsic::round: return fpRound(a[0], 'r');
    case Intrinsic::lround: case Intrinsic::llround: return fpToInt(fpRound(a[0], 'r'), 64, true);
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::fma: case Intrinsic::fmuladd: return fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[1]), a[2]);
    case Intrinsic::powi: {
      i64 e = sx(conc(a[1], 32), 32);
      if (e < 0 || e > 8) engineError("powi exponent");
      Val x = mk(fromD(1.0));
      for (int i = 0; i < e; i++) x = fpBin(Instruction::FMul, x, a[0]);
      return x;
    }
    case Intrinsic::minnum: return decideV(fpCmp(CmpInst::FCMP_OLT, a[0], a[1])) ? a[0] : a[1];
    case Intrinsic::maxnum: return decideV(fpCmp(CmpInst::FCMP_OGT, a[0], a[1])) ? a[0] : a[1];
    case Intrinsic::copysign: {
      if (!a[1].s) { Val m = fpAbs(a[0]); return std::signbit(asD(a[1].c)) ? fpNeg(m) : m; }
      Val m = fpAbs(a[0]);
      return decideV(fpCmpZero(fpOf(a[1]), LT)) ? fpNeg(m) : m;
    }
    case Intrinsic::eh_typeid_for: return mk(typeIdFor(a[0].c));
    default: break;
  }
  bool sym = false;
  for (auto& x : a) if (x.s) sym = true;
  unsigned aw = ci->arg_size() && ci->getArgOperand(0)->getType()->isIntegerTy() ? ci->getArgOperand(0)->getType()->getIntegerBitWidth() : 0;
  switch (id) {
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
      if (!sym) {
        i64 x = sx(a[0].c, w), y = sx(a[1].c, w);
        if (id == Intrinsic::smax) return mk(maskw(std::max(x, y), w));
        if (id == Intrinsic::smin) return mk(maskw(std::min(x, y), w));
        if (id == Intrinsic::umax) return mk(std::max(a[0].c, a[1].c));
        return mk(std::min(a[0].c, a[1].c));
      }
      z3::expr x = toBV(a[0], w), y = toBV(a[1], w);
      z3::expr lt = (id == Intrinsic::smax || id == Intrinsic::smin) ? z3::slt(x, y) : z3::ult(x, y);
      bool mx = id == Intrinsic::smax || id == Intrinsic::umax;
      return mkBV(mx ? z3::ite(lt, y, x) : z3::ite(lt, x, y));
    }
    case Intrinsic::abs: {
      if (!sym) { i64 x = sx(a[0].c, w); return mk(maskw(x < 0 ? -x : x, w)); }
      z3::expr x = toBV(a[0], w);
      return mkBV(z3::ite(z3::slt(x, C.bv_val(0, w)), -x, x));
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
      u64 x = conc(a[0], w);
      if (id == Intrinsic::ctpop) return mk(__builtin_popcountll(x));
      if (x == 0) return mk(w);
      if (id == Intrinsic::cttz) return mk(__builtin_ctzll(x));
      return mk(__builtin_clzll(x) - (64 - w));
    }
    case Intrinsic::bswap: { u64 x = conc(a[0], w); return mk(__builtin_bswap64(x) >> (64 - w)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      u64 x = conc(a[0], w), y = conc(a[1], w), s = conc(a[2], w) % w;
      if (id == Intrinsic::fshl) return mk(maskw(s ? (x << s) | (y >> (w - s)) : x, w));
      return mk(maskw(s ? (x << (w - s)) | (y >> s) : y, w));
    }
    case Intrinsic::usub_sat: { u64 x = conc(a[0], w), y = conc(a[1], w); return mk(x > y ? x - y : 0); }
    case Intrinsic::uadd_sat: { u64 x = conc(a[0], w), y = conc(a[1], w); u64 s = maskw(x + y, w); return mk(s < x ? maskw(~0ull, w) : s); }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      u64 x = conc(a[0], aw), y = conc(a[1], aw), r = 0; bool o = false;
      __int128 sxx = sx(x, aw), syy = sx(y, aw), sr = 0; unsigned __int128 ur = 0;
      if (id == Intrinsic::umul_with_overflow) { ur = (unsigned __int128)x * y; r = maskw((u64)ur, aw); o = ur >> aw; }
      else if (id == Intrinsic::uadd_with_overflow) { ur = (unsigned __int128)x + y; r = maskw((u64)ur, aw); o = (ur >> aw) != 0; }
      else if (id == Intrinsic::usub_with_overflow) { r = maskw(x - y, aw); o = y > x; }
      else {
        sr = id == Intrinsic::sadd_with_overflow ? sxx + syy : id == Intrinsic::ssub_with_overflow ? sxx - syy : sxx * syy;
        r = maskw((u64)sr, aw); o = sr != sx(r, aw);
      }
      Reg rr = rc(0); rr.agg = new std::vector<Reg>{rc(r), rc(o)};
      cur->regs[in.dst] = rr;
      return Val{0, (Sym*)1};
    }
    default: break;
  }
  engineError("intrinsic " + ci->getCalledFunction()->getName().str());
}

static void pushFrame(Fn* fn, std::vector<Val> const& args, std::vector<Reg> const* aggArgs, int retDst) {
  prep(fn);
  if (stk.size() > 3000) pathViolation("stack-overflow", "steps", "call depth exceeds 3000");
  Frame* f = new Frame;
  f->fn = fn; f->regs.assign(fn->nregs, rc(0)); f->b = 0; f->pc = 0; f->prev = 0;
  f->stackMark = stackTop; f->retDst = retDst;
  for (unsigned i = 0; i < fn->f->arg_size() && i < args.size(); i++) {
    f->regs[i] = toReg(args[i]);
    if (aggArgs && (*aggArgs)[i].agg) f->regs[i].agg = (*aggArgs)[i].agg;
  }
  // byval arguments: copy
  for (unsigned i = 0; i < fn->f->arg_size(); i++)
    if (fn->f->getArg(i)->hasByValAttr()) {
      u64 n = DL->getTypeAllocSize(fn->f->getArg(i)->getParamByValType());
      u64 a = (u64)stackBase + ((stackTop + 15) & ~15ull);
      stackTop = a + ((n + 15) & ~15ull) + 16 - (u64)stackBase;
      poison(a + ((n + 7) & ~7ull), 16);
      unpoison(a, n);
      moveMem(a, f->regs[i].c, n);
      f->regs[i].c = a;
    }
  if (fn->seenIdx >= 0) G->fnSeen[fn->seenIdx] = 1;
  stk.push_back(f);
  cur = f;
}

static z3::expr icmpE(CmpInst::Predicate p, z3::expr const& a, z3::expr const& b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return z3::ugt(a, b);
    case CmpInst::ICMP_UGE: return z3::uge(a, b);
    case CmpInst::ICMP_ULT: return z3::ult(a, b);
    case CmpInst::ICMP_ULE: return z3::ule(a, b);
    case CmpInst::ICMP_SGT: return z3::sgt(a, b);
    case CmpInst::ICMP_SGE: return z3::sge(a, b);
    case CmpInst::ICMP_SLT: return z3::slt(a, b);
    default: return z3::sle(a, b);
  }
}
static bool icmpC(CmpInst::Predicate p, u64 a, u64 b, unsigned w) {
  i64 x = sx(a, w), y = sx(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return x > y;
    case CmpInst::ICMP_SGE: return x >= y;
    case CmpInst::ICMP_SLT: return x < y;
    default: return x <= y;
  }
}
static Val intBin(unsigned op, unsigned w, Val const& a, Val const& b) {
  if (!a.s && !b.s) {
    u64 x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return mk(maskw(x + y, w));
      case Instruction::Sub: return mk(maskw(x - y, w));
      case Instruction::Mul: return mk(maskw(x * y, w));
      case Instruction::And: return mk(x & y);
      case Instruction::Or: return mk(x | y);
      case Instruction::Xor: return mk(x ^ y);
      case Instruction::Shl: return mk(y >= w ? 0 : maskw(x << y, w));
      case Instruction::LShr: return mk(y >= w ? 0 : x >> y);
      case Instruction::AShr: return mk(maskw(sx(x, w) >> std::min<u64>(y, 63), w));
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (y == 0) pathViolation("division-by-zero", "trap", "integer division by zero");
        if (op == Instruction::UDiv) return mk(x / y);
        if (op == Instruction::URem) return mk(x % y);
        if (sx(y, w) == -1) return op == Instruction::SDiv ? mk(maskw(-sx(x, w), w)) : mk(0);
        return mk(maskw(op == Instruction::SDiv ? sx(x, w) / sx(y, w) : sx(x, w) % sx(y, w), w));
    }
    engineError("intBin");
  }
  if (w == 1) {
    z3::expr x = toBool(a), y = toBool(b);
    switch (op) {
      case Instruction::And: return mkBool(x && y);
      case Instruction::Or: return mkBool(x || y);
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBool(x != y);
      default: engineError("boolean operation");
    }
  }
  if ((a.s && a.s->k == SFP) || (b.s && b.s->k == SFP)) {
    // sign-bit manipulation of a double held in an integer register
    Val const& f = a.s && a.s->k == SFP ? a : b; Val const& k = a.s && a.s->k == SFP ? b : a;
    if (!k.s && w == 64) {
      if (op == Instruction::And && k.c == 0x7fffffffffffffffull) return fpAbs(f);
      if (op == Instruction::Xor && k.c == 0x8000000000000000ull) return fpNeg(f);
    }
    engineError("integer operation on a symbolic double");
  }
  z3::expr x = toBV(a, w), y = toBV(b, w);
  switch (op) {
    case Instruction::Add: return mkBV(x + y);
    case Instruction::Sub: return mkBV(x - y);
    case Instruction::Mul: return mkBV(x * y);
    case Instruction::And: return mkBV(x & y);
    case Instruction::Or: return mkBV(x | y);
    case Instruction::Xor: return mkBV(x ^ y);
    case Instruction::Shl: return mkBV(z3::shl(x, y));
    case Instruction::LShr: return mkBV(z3::lshr(x, y));
    case Instruction::AShr: return mkBV(z3::ashr(x, y));
    default: break;
  }
  if (b.s && decide(y == C.bv_val(0, w))) pathViolation("division-by-zero", "trap", "integer division by zero");
  if (!b.s && b.c == 0) pathViolation("division-by-zero", "trap", "integer division by zero");
  switch (op) {
    case Instruction::UDiv: return mkBV(z3::udiv(x, y));
    case Instruction::URem: return mkBV(z3::urem(x, y));
    case Instruction::SDiv: return mkBV(x / y);
    case Instruction::SRem: return mkBV(z3::srem(x, y));
  }
  engineError("intBin sym");
}

static unsigned char* blockSeen = nullptr;   // development aid (SVE_LINES=file): which blocks were executed
static std::unordered_map<BasicBlock const*, unsigned> blockIdx;
static void run() {
  while (true) {
    cur = stk.back();
    Blk& bl = cur->fn->blk[cur->b];
    if (__builtin_expect(blockSeen != nullptr, 0)) blockSeen[blockIdx[bl.ins[cur->pc].I->getParent()]] = 1;
    Ins& in = bl.ins[cur->pc++];
    if (++instrLocal >= maxSteps) pathViolation("step-bound", "steps", "path exceeded the instruction bound (non-termination?)");
    stepsLocal++;
    if ((instrLocal & 0xfffff) == 0) {
      stopAfterViolation();
      if (G->stop) finish(0);
      if (deadline > 0 && now() > deadline) {
        lockG(); if (!G->engineErrors++) snprintf(G->engineErr, sizeof G->engineErr, "time limit reached during exploration\n%s", whereAmI().c_str()); unlockG();
        G->stop = 1; finish(0);
      }
    }
    switch (in.op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        if (in.w > 64) engineError("integer wider than 64 bits");
        setV(in, intBin(in.op, in.w, getV(in.o[0]), getV(in.o[1]))); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        if (in.w != 64) {
          Val a = getV(in.o[0]), b = getV(in.o[1]); float x, y; uint32_t p = a.c, q = b.c;
          if (a.s || b.s) engineError("symbolic float");
          memcpy(&x, &p, 4); memcpy(&y, &q, 4);
          float z = in.op == Instruction::FAdd ? x + y : in.op == Instruction::FSub ? x - y : in.op == Instruction::FMul ? x * y : x / y;
          memcpy(&p, &z, 4); setV(in, mk(p)); break;
        }
        setV(in, fpBin(in.op, getV(in.o[0]), getV(in.o[1]))); break;
      }
      case Instruction::FNeg: setV(in, fpNeg(getV(in.o[0]))); break;
      case Instruction::FRem: { Val a = getV(in.o[0]), b = getV(in.o[1]); if (a.s || b.s) engineError("symbolic frem"); setV(in, mk(fromD(fmod(asD(a.c), asD(b.c))))); break; }
      case Instruction::FCmp: setV(in, fpCmp(cast<FCmpInst>(in.I)->getPredicate(), getV(in.o[0]), getV(in.o[1]))); break;
      case Instruction::ICmp: {
        Val a = getV(in.o[0]), b = getV(in.o[1]);
        CmpInst::Predicate p = cast<ICmpInst>(in.I)->getPredicate();
        unsigned w = DL->getTypeSizeInBits(in.I->getOperand(0)->getType());
        if (!a.s && !b.s) { setV(in, mk(icmpC(p, a.c, b.c, w))); break; }
        if (w == 1) {
          z3::expr x = toBool(a), y = toBool(b);
          if (p == CmpInst::ICMP_EQ) setV(in, mkBool(x == y));
          else if (p == CmpInst::ICMP_NE) setV(in, mkBool(x != y));
          else setV(in, mkBool(icmpE(p, toBV(a, 1), toBV(b, 1))));
          break;
        }
        if ((a.s && a.s->k == SFP) || (b.s && b.s->k == SFP)) {
          // sign test on the bits of a double
          if (a.s && a.s->k == SFP && !b.s && w == 64 && p == CmpInst::ICMP_SLT && b.c == 0) { setV(in, fpCmpZero(fpOf(a), LT)); break; }
          if (a.s && a.s->k == SFP && !b.s && w == 64 && p == CmpInst::ICMP_SGT && b.c == ~0ull) { setV(in, boolNot(fpCmpZero(fpOf(a), LT))); break; }
          engineError("integer comparison of a symbolic double");
        }
        setV(in, mkBool(icmpE(p, toBV(a, w), toBV(b, w))));
        break;
      }
      case Instruction::Trunc: {
        Val a = getV(in.o[0]);
        if (!a.s) { setV(in, mk(maskw(a.c, in.w))); break; }
        if (in.w == 1) {
          if (a.s->k == SBOOL) setV(in, a);
          else setV(in, mkBool(a.s->e.extract(0, 0) == C.bv_val(1, 1)));
        } else setV(in, mkBV(toBV(a, in.w)));
        break;
      }
      case Instruction::ZExt: {
        Val a = getV(in.o[0]);
        if (!a.s) setV(in, a); else setV(in, mkBV(a.s->k == SBOOL ? toBV(a, in.w) : z3::zext(a.s->e, in.w - a.s->w)));
        break;
      }
      case Instruction::SExt: {
        Val a = getV(in.o[0]); unsigned sw = DL->getTypeSizeInBits(in.I->getOperand(0)->getType());
        if (!a.s) setV(in, mk(maskw((u64)sx(a.c, sw), in.w)));
        else if (sw == 1) setV(in, mkBV(z3::ite(toBool(a), C.bv_val((uint64_t)maskw(~0ull, in.w), in.w), C.bv_val(0, in.w))));
        else setV(in, mkBV(z3::sext(toBV(a, sw), in.w - sw)));
        break;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        cur->regs[in.dst] = getR(in.o[0]); break;
      }
      case Instruction::SIToFP: case Instruction::UIToFP: {
        if (in.w != 64) engineError("int to float");
        unsigned sw = DL->getTypeSizeInBits(in.I->getOperand(0)->getType());
        setV(in, intToFP(getV(in.o[0]), sw, in.op == Instruction::SIToFP)); break;
      }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        if (!in.I->getOperand(0)->getType()->isDoubleTy()) engineError("float to int");
        setV(in, fpToInt(getV(in.o[0]), in.w, in.op == Instruction::FPToSI)); break;
      }
      case Instruction::FPTrunc: { Val a = getV(in.o[0]); if (a.s) engineError("fptrunc"); float f = asD(a.c); uint32_t p; memcpy(&p, &f, 4); setV(in, mk(p)); break; }
      case Instruction::FPExt: { Val a = getV(in.o[0]); if (a.s) engineError("fpext"); uint32_t p = a.c; float f; memcpy(&f, &p, 4); setV(in, mk(fromD(f))); break; }
      case Instruction::Select: {
        Val c = getV(in.o[0]);
        if (!c.s) { Reg r = getR(in.o[(c.c & 1) ? 1 : 2]); cur->regs[in.dst] = r; break; }
        Val a = getV(in.o[1]), b = getV(in.o[2]);
        bool fpv = in.isFP || (a.s && a.s->k == SFP) || (b.s && b.s->k == SFP);
        if (fpv || in.I->getType()->isPointerTy() || in.w == 0) {
          bool t = decideV(c);
          Reg r = getR(in.o[t ? 1 : 2]);
          cur->regs[in.dst] = r;
        } else if (in.w == 1) setV(in, mkBool(z3::ite(toBool(c), toBool(a), toBool(b))));
        else setV(in, mkBV(z3::ite(toBool(c), toBV(a, in.w), toBV(b, in.w))));
        break;
      }
      case Instruction::Alloca: {
        AllocaInst const* ai = cast<AllocaInst>(in.I);
        u64 n = DL->getTypeAllocSize(ai->getAllocatedType()) * conc(getV(in.o[0]));
        u64 al = std::max<u64>(16, ai->getAlign().value());
        u64 a = ((u64)stackBase + stackTop + al - 1) & ~(al - 1);
        stackTop = a + ((n + 15) & ~15ull) + 16 - (u64)stackBase;
        if (stackTop > stackSize) pathViolation("stack-overflow", "steps", "stack exhausted");
        poison(a + ((n + 7) & ~7ull), 16);
        unpoison(a, n);
        memset((void*)a, 0xA5, n);
        setV(in, mk(a));
        break;
      }
      case Instruction::Load: {
        u64 a = conc(getV(in.o[0]));
        if (in.sz && in.sz <= 8 && in.w != 1) {
          Val v = loadMem(a, in.sz, in.isFP);
          if (!v.s) v.c = maskw(v.c, in.w);
          setV(in, v);
        } else cur->regs[in.dst] = loadTy(a, in.I->getType());
        break;
      }
      case Instruction::Store: {
        u64 a = conc(getV(in.o[1]));
        storeTy(a, getR(in.o[0]), cast<StoreInst>(in.I)->getValueOperand()->getType());
        break;
      }
      case Instruction::GetElementPtr: {
        Val p = getV(in.o[0]);
        bool sym = p.s;
        i64 off = in.goff;
        for (auto& g : in.gidx) {
          Val x = getV(in.o[g.first]);
          if (x.s) sym = true;
        }
        if (!sym) {
          int k = 0;
          for (auto& g : in.gidx) {
            Val x = getV(in.o[g.first]); k++;
            off += sx(x.c, g.second < 0 ? 64 : 64) * g.second;
          }
          setV(in, mk(p.c + off));
        } else {
          z3::expr e = toBV(p, 64) + C.bv_val((int64_t)off, 64);
          for (auto& g : in.gidx) e = e + toBV(getV(in.o[g.first]), 64) * C.bv_val((int64_t)g.second, 64);
          setV(in, mkBV(e));
        }
        break;
      }
      case Instruction::ExtractValue: {
        Reg r = getR(in.o[0]);
        for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) { if (!r.agg) engineError("extractvalue"); Reg t = (*r.agg)[i]; r = t; }
        cur->regs[in.dst] = r; break;
      }
      case Instruction::InsertValue: {
        std::function<Reg(Reg, ArrayRef<unsigned>)> ins = [&](Reg base, ArrayRef<unsigned> ix) -> Reg {
          if (ix.empty()) return getR(in.o[1]);
          Reg r = base; r.agg = new std::vector<Reg>(*base.agg);
          (*r.agg)[ix[0]] = ins((*base.agg)[ix[0]], ix.drop_front());
          return r;
        };
        cur->regs[in.dst] = ins(getR(in.o[0]), cast<InsertValueInst>(in.I)->getIndices());
        break;
      }
      case Instruction::Br: {
        BranchInst const* br = cast<BranchInst>(in.I);
        BasicBlock const* t;
        if (br->isUnconditional()) t = br->getSuccessor(0);
        else { Val c = getV(in.o[0]); t = decideV(c) ? br->getSuccessor(0) : br->getSuccessor(1); }
        jumpTo(br->getParent(), t);
        break;
      }
      case Instruction::Switch: {
        SwitchInst const* sw = cast<SwitchInst>(in.I);
        Val v = getV(in.o[0]);
        unsigned w = sw->getCondition()->getType()->getIntegerBitWidth();
        BasicBlock const* t = sw->getDefaultDest();
        for (auto& cs : sw->cases()) {
          u64 k = cs.getCaseValue()->getZExtValue();
          bool m = v.s ? (w == 1 ? (k ? decide(toBool(v)) : decide(!toBool(v))) : decide(toBV(v, w) == C.bv_val((uint64_t)k, w))) : v.c == k;
          if (m) { t = cs.getCaseSuccessor(); break; }
        }
        jumpTo(sw->getParent(), t);
        break;
      }
      case Instruction::Unreachable: pathViolation("unreachable", "trap", "unreachable code executed (undefined behaviour)");
      case Instruction::Ret: {
        Reg r = in.o.empty() ? rc(0) : getR(in.o[0]);
        popFrame();
        if (stk.empty()) return;
        Ins& ci = cur->fn->blk[cur->b].ins[cur->pc - 1];
        if (ci.dst >= 0) cur->regs[ci.dst] = r;
        if (auto* iv = dyn_cast<InvokeInst>(ci.I)) jumpTo(iv->getParent(), iv->getNormalDest());
        break;
      }
      case Instruction::Resume: {
        Reg r = getR(in.o[0]);
        u64 tok = (*r.agg)[0].c;
        popFrame();
        unwind(tok);
        break;
      }
      case Instruction::AtomicRMW: {
        AtomicRMWInst const* rm = cast<AtomicRMWInst>(in.I);
        u64 a = conc(getV(in.o[0])); Val x = getV(in.o[1]);
        Val old = loadMem(a, in.sz, false), nw;
        switch (rm->getOperation()) {
          case AtomicRMWInst::Add: nw = intBin(Instruction::Add, in.w, old, x); break;
          case AtomicRMWInst::Sub: nw = intBin(Instruction::Sub, in.w, old, x); break;
          case AtomicRMWInst::Xchg: nw = x; break;
          case AtomicRMWInst::And: nw = intBin(Instruction::And, in.w, old, x); break;
          case AtomicRMWInst::Or: nw = intBin(Instruction::Or, in.w, old, x); break;
          default: engineError("atomicrmw");
        }
        storeMem(a, in.sz, nw); setV(in, old); break;
      }
      case Instruction::AtomicCmpXchg: {
        u64 a = conc(getV(in.o[0])); Val e = getV(in.o[1]), n = getV(in.o[2]);
        Type* t = in.I->getOperand(1)->getType();
        unsigned sz = DL->getTypeStoreSize(t);
        Val old = loadMem(a, sz, false);
        u64 oc = conc(old, sz * 8), ec = conc(e, sz * 8);
        if (oc == ec) storeMem(a, sz, n);
        Reg r = rc(0); r.agg = new std::vector<Reg>{rc(oc), rc(oc == ec)};
        cur->regs[in.dst] = r; break;
      }
      case Instruction::Fence: break;
      case Instruction::Call: case Instruction::Invoke: {
        CallBase const* cb = cast<CallBase>(in.I);
        std::vector<Val> a;
        std::vector<Reg> ag;
        unsigned n = cb->arg_size();
        a.reserve(n);
        bool anyAgg = false;
        for (unsigned i = 0; i < n; i++) { Reg const& r = getR(in.o[i]); a.push_back(rv(r)); ag.push_back(r); if (r.agg) anyAgg = true; }
        Function const* f = cb->getCalledFunction();
        Fn* fn = nullptr;
        void* nativeAddr = nullptr;
        if (f && f->isIntrinsic()) {
          if (!isa<CallInst>(cb)) engineError("invoke of intrinsic");
          if (f->getIntrinsicID() == Intrinsic::vastart) engineError("varargs function");
          Val r = intrinsic(cast<CallInst>(cb), in, a);
          if (r.s != (Sym*)1) setV(in, r);
          break;
        }
        if (cb->isInlineAsm()) { if (in.dst < 0) break; engineError("inline asm"); }
        if (f) fn = getFn(f);
        else {
          u64 t = conc(getV(in.o[n]));
          auto it = fnByAddr.find(t);
          if (it != fnByAddr.end()) fn = it->second;
          else {
            if (t < 4096 || inArena(t)) memViolation("call through an invalid function pointer");
            nativeAddr = (void*)t;
          }
        }
        if (fn) {
          if (fn->special == -1) {
            auto it = specialIdx.find(fn->f->getName().str());
            fn->special = it == specialIdx.end() ? -2 : it->second;
          }
          if (fn->special >= 0) {
            Val r;
            SpecialResult s = specials[fn->special](a, in, r);
            if (s == SP_THROW) { unwind(throwToken); break; }
            setV(in, r);
            if (auto* iv = dyn_cast<InvokeInst>(cb)) jumpTo(iv->getParent(), iv->getNormalDest());
            break;
          }
          if (!fn->f->isDeclaration()) {
            pushFrame(fn, a, anyAgg ? &ag : nullptr, in.dst);
            break;
          }
          if (!fn->nativeLooked) { fn->nativeLooked = true; fn->native = dlsym(RTLD_DEFAULT, fn->f->getName().str().c_str()); }
          if (!fn->native) engineError("call of undefined external function " + fn->f->getName().str());
          nativeAddr = fn->native;
        }
        std::vector<bool> fp;
        bool loose = fn && loosePrint(fn->f->getName());
        for (unsigned i = 0; i < n; i++) {
          bool isD = cb->getArgOperand(i)->getType()->isDoubleTy();
          fp.push_back(isD);
          if (a[i].s) {
            if (loose) { a[i] = mk(isD ? fromD(1.0) : 1); continue; }
            if (a[i].s->k == SFP) engineError("symbolic double passed to native function " + (fn ? fn->f->getName().str() : "?"));
            a[i] = mk(concretize(a[i], DL->getTypeSizeInBits(cb->getArgOperand(i)->getType())));
          }
          if (cb->getArgOperand(i)->getType()->isIntegerTy()) {
            unsigned w = cb->getArgOperand(i)->getType()->getIntegerBitWidth();
            if (cb->paramHasAttr(i, Attribute::SExt) || (w == 32)) a[i].c = (u64)sx(a[i].c, w);
          }
        }
        if (!loose) for (unsigned i = 0; i < n; i++) {
          // native code does not see symbolic memory
          if (!cb->getArgOperand(i)->getType()->isPointerTy() || !inArena(a[i].c)) continue;
          StringRef nm = fn ? fn->f->getName() : StringRef("");
          u64 len = nm.contains("Rb_tree") ? 32 : nm.contains("List_node") ? 16 : nm == "__dynamic_cast" ? 8 : 64;
          while (len && !accessible(a[i].c, len)) len--;
          if (len && anySym(a[i].c, len)) engineError("native function reads symbolic memory: " + nm.str());
        }
        bool threw; u64 tok = 0; Reg aggRet = rc(0);
        Val r = nativeCall(nativeAddr, a, fp, cb->getType(), &threw, &tok, &aggRet);
        if (threw) { unwind(tok); break; }
        if (aggRet.agg) { if (in.dst >= 0) cur->regs[in.dst] = aggRet; } else setV(in, r);
        if (auto* iv = dyn_cast<InvokeInst>(cb)) jumpTo(iv->getParent(), iv->getNormalDest());
        break;
      }
      case Instruction::LandingPad: break;
      default: engineError(std::string("instruction ") + in.I->getOpcodeName());
    }
  }
}
static void callTop(Function const* f) {
  pushFrame(getFn(f), {}, nullptr, -1);
  run();
}

// memory obtained by native library code
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void nativeDelete(void* p) {
  if (!p) return;
  u64 a = (u64)p;
  if (arena && inArena(a)) { auto it = heapAllocs.find(a); if (it != heapAllocs.end()) heapFree(a, it->second.kind); return; }
  free(p);
}
void operator delete(void* p) noexcept { nativeDelete(p); }
void operator delete[](void* p) noexcept { nativeDelete(p); }
void operator delete(void* p, size_t) noexcept { nativeDelete(p); }
void operator delete[](void* p, size_t) noexcept { nativeDelete(p); }

static void onSegv(int) {
  if (cur && !stk.empty()) memViolation("access through an invalid pointer");
  _exit(99);
}

static std::string jesc(std::string const& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

int main(int argc, char** argv) {
  std::string bc, out; int jobs = 8; double tmo = 600; std::string entry = "sv_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = nx();
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--timeout") tmo = atof(nx().c_str());
    else if (a == "--entry") entry = nx();
    else if (a == "--steps") maxSteps = atol(nx().c_str());
    else if (a == "--qtimeout") queryTimeoutMs = atoi(nx().c_str());
    else if (a == "--keep-roots") keepRoots = true;
    else if (a == "--sample-every") sampleEvery = atol(nx().c_str());
    else if (a == "--grace") grace = atof(nx().c_str());
    else if (a == "--known") knownLabels.push_back(nx());
    else if (a == "-v") verbose = 1;
    else bc = a;
  }
  G = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now();
  deadline = t0 + tmo;
  G->slots = jobs - 1;
  LC = new LLVMContext; SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(bc, err, *LC);
  if (!mod) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  // functions of the code under check
  int idx = 0;
  for (auto& f : *M) {
    if (f.isDeclaration()) continue;
    std::string d = demangle(f.getName().str());
    size_t par = d.find('(');
    std::string head = d.substr(0, par);
    bool ours = (head.find("Jali::") != std::string::npos || head.find("JaliGeometry::") != std::string::npos || head.find("Errors::") != std::string::npos || head.find("Exceptions::") != std::string::npos) &&
                head.compare(0, 5, "std::") != 0 && head.find(" std::") == std::string::npos && head.compare(0, 9, "__gnu_cxx") != 0 && head.find(" __gnu_cxx") == std::string::npos;
    if (ours && idx < (1 << 16)) { getFn(&f)->seenIdx = idx++; seenNames.push_back(d); }
  }
  if (getenv("SVE_LINES")) {
    for (auto& f : *M) for (auto& b : f) blockIdx.emplace(&b, (unsigned)blockIdx.size());
    blockSeen = (unsigned char*)mmap(0, blockIdx.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  arenaSize = 6ull << 30; stackSize = 256ull << 20;
  arena = (char*)mmap(0, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stackBase = arena + arenaSize - stackSize; stackTop = 0;
  shadow = (unsigned char*)mmap(0, arenaSize / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  symbit = (unsigned char*)mmap(0, arenaSize / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  // shadow: everything inaccessible; stored inverted would avoid touching, so poison lazily in chunks
  // (0 means accessible; fresh arena memory beyond arenaTop is never handed out, and a read there hits
  //  the check below because allocations are surrounded by explicit red zones)
  if (arena == MAP_FAILED || shadow == MAP_FAILED || symbit == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); return 2; }
  memset(shadow, 0xff, (64ull << 20) / 8);
  z3::set_param("memory_max_size", 0);
  Cp = new z3::context();
  S = new z3::solver(C, "QF_BV");
  { z3::params p(C); p.set("timeout", (unsigned)queryTimeoutMs); S->set(p); }
  F = new Fp(C);
  initSpecials();
  for (auto& g : M->globals()) if (!g.isDeclaration()) globalAddr(&g);
  for (auto& g : M->globals()) if (!g.isDeclaration() && g.hasInitializer()) initMem(gvAddr[&g], g.getInitializer());
  Function* mainF = M->getFunction(entry);
  if (!mainF || mainF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  logfd = dup(2);
  { int dn = open("/dev/null", O_WRONLY); if (!verbose || true) { dup2(dn, 1); dup2(dn, 2); } close(dn); }
  fflush(stdout);
  pid_t root = fork();
  if (root == 0) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSegv; sa.sa_flags = SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    curModel.reset();
    // static constructors
    if (GlobalVariable* gc = M->getGlobalVariable("llvm.global_ctors")) {
      if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> cs;
        for (auto& o : ca->operands()) {
          auto* st = cast<ConstantStruct>(o);
          if (auto* f = dyn_cast<Function>(st->getOperand(1))) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) callTop(c.second);
      }
    }
    callTop(mainF);
    endPath(true);
  }
  int st;
  waitpid(root, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (!G->engineErrors++) snprintf(G->engineErr, sizeof G->engineErr, "root process died: %d", st); }
  double wall = now() - t0;
  FILE* o = out.empty() ? fdopen(logfd, "w") : fopen(out.c_str(), "w");
  fprintf(o, "{\n\"paths\": %ld, \"infeasible\": %ld, \"assumed_away\": %ld, \"forks\": %ld, \"queries\": %ld, \"sat\": %ld, \"unsat\": %ld, \"unknown\": %ld,\n", G->paths.load(), G->infeasible.load(), G->assumedAway.load(), G->forks.load(), G->queries.load(), G->qsat.load(), G->qunsat.load(), G->qunknown.load());
  fprintf(o, "\"checks\": %ld, \"checks_by_solver\": %ld, \"instructions\": %ld, \"solver_s\": %.3f, \"wall_s\": %.3f, \"max_constraints\": %ld, \"concretized\": %ld, \"expected_aborts\": %ld,\n", G->checks.load(), G->checksSolver.load(), G->steps.load(), G->solverUs.load() * 1e-6, wall, G->maxConstraints.load(), G->concretized.load(), G->aborted.load());
  fprintf(o, "\"engine_errors\": %d, \"engine_error\": \"%s\", \"violations_total\": %ld,\n\"violations\": [", G->engineErrors.load(), jesc(G->engineErr).c_str(), G->nvioltotal.load());
  for (int i = 0; i < G->nviol; i++) {
    Violation& v = G->viol[i];
    fprintf(o, "%s\n {\"label\": \"%s\", \"kind\": \"%s\", \"detail\": \"%s\", \"model\": \"%s\"}", i ? "," : "", jesc(v.label).c_str(), jesc(v.kind).c_str(), jesc(v.detail).c_str(), jesc(v.model).c_str());
  }
  fprintf(o, "],\n\"cover\": {");
  for (int i = 0; i < G->ncover; i++) fprintf(o, "%s\n \"%s\": %ld", i ? "," : "", jesc(G->cover[i].name).c_str(), G->cover[i].n.load());
  fprintf(o, "},\n\"samples\": [");
  for (int i = 0; i < G->nsample; i++) fprintf(o, "%s\n {\"model\": \"%s\", \"nobs\": %d, \"obs\": \"%s\"}", i ? "," : "", jesc(G->sample[i].model).c_str(), G->sample[i].nobs, jesc(G->sample[i].obs).c_str());
  if (blockSeen) {
    FILE* lf = fopen(getenv("SVE_LINES"), "w");
    for (auto& b : blockIdx) for (auto& ins : *b.first) if (DILocation const* l = ins.getDebugLoc().get())
      for (; l; l = l->getInlinedAt()) if (l->getLine()) fprintf(lf, "%d %s:%u\n", blockSeen[b.second], l->getFilename().str().c_str(), l->getLine());
    fclose(lf);
  }
  fprintf(o, "],\n\"functions\": [");
  bool first = true;
  for (int i = 0; i < idx; i++) if (G->fnSeen[i]) { fprintf(o, "%s\n \"%s\"", first ? "" : ",", jesc(seenNames[i]).c_str()); first = false; }
  fprintf(o, "]\n}\n");
  fclose(o);
  _exit(0);
}
