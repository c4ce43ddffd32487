// Symbolic executor for LLVM IR (see DESIGN.md).
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <vector>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include "fp.h"

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------ shared state
struct Violation { char label[200]; char kind[40]; char detail[400]; char model[3000]; };
struct Sample { char model[3000]; int nobs; char obs[24000]; };
static const int MAXV = 48, MAXS = 48, MAXCOV = 512;
struct Shared {
  std::atomic<int> lock;
  std::atomic<int> slots;
  std::atomic<long> paths, infeasible, forks, queries, qsat, qunsat, qunknown, checks, checksSolver, steps, instrs, maxConstraints;
  std::atomic<long> solverUs, assumedAway, aborted, concretized, stores;
  std::atomic<int> nviol, nsample, engineErrors, unknown, stop;
  std::atomic<long> nvioltotal, firstViolUs;
  char engineErr[4000];
  Violation viol[MAXV];
  Sample sample[MAXS];
  struct { char name[96]; std::atomic<long> n; } cover[MAXCOV];
  std::atomic<int> ncover;
  unsigned char fnSeen[1 << 16];
};
static Shared* G;
static void lockG() { int z = 0; while (!G->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
static void unlockG() { G->lock.store(0); }
static int logfd = 2;
static bool ownsSlot = false;
static long maxSteps = 400000000L;
static int queryTimeoutMs = 60000;
static double deadline = 0;
static double grace = 20;                    // exploration ends this long after the first new violation
static std::vector<std::string> knownLabels;  // violations that do not end it
static long sampleEvery = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int verbose = 0;
static void say(char const* fmt, ...) {
  char b[16384]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > 0) { ssize_t r = write(logfd, b, std::min<int>(n, sizeof b - 1)); (void)r; }
}
static long stepsLocal = 0, instrLocal = 0;
static int kids = 0;
[[noreturn]] static void finish(int code) {
  G->steps += stepsLocal; stepsLocal = 0;
  if (ownsSlot) { G->slots++; ownsSlot = false; }
  int st;
  while (true) {
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      lockG();
      if (!G->engineErrors++) snprintf(G->engineErr, sizeof G->engineErr, "child process died: status %d", st);
      unlockG();
    }
  }
  _exit(code);
}
static std::string whereAmI();
[[noreturn]] static void engineError(std::string const& m) {
  lockG();
  if (!G->engineErrors++) snprintf(G->engineErr, sizeof G->engineErr, "%s\n%s", m.c_str(), whereAmI().c_str());
  unlockG();
  if (verbose) say("ENGINE ERROR: %s\n%s\n", m.c_str(), whereAmI().c_str());
  G->stop = 1;
  finish(0);
}

// ------------------------------------------------------------------ symbolic values
static z3::context* Cp;
#define C (*Cp)
static z3::solver* S;
static Fp* F;
enum SKind { SBV, SBOOL, SFP };
struct Sym {
  SKind k; unsigned w; z3::expr e; FpVal* f;
  Sym(SKind kk, unsigned ww, z3::expr const& ee) : k(kk), w(ww), e(ee), f(nullptr) {}
};
struct Val { u64 c = 0; Sym* s = nullptr; };
static Val mk(u64 c) { Val v; v.c = c; return v; }
static u64 maskw(u64 x, unsigned w) { return w >= 64 ? x : (x & ((1ull << w) - 1)); }
static i64 sx(u64 x, unsigned w) { return w >= 64 ? (i64)x : ((i64)(x << (64 - w))) >> (64 - w); }
static double asD(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static u64 fromD(double d) { u64 c; memcpy(&c, &d, 8); return c; }

static Val mkBV(z3::expr const& e0) {
  z3::expr e = e0.simplify();
  unsigned w = e.get_sort().bv_size();
  if (e.is_numeral()) return mk(maskw(e.get_numeral_uint64(), w));
  Val v; v.s = new Sym(SBV, w, e); return v;
}
static Val mkBool(z3::expr const& e0) {
  z3::expr e = e0.simplify();
  if (e.is_true()) return mk(1);
  if (e.is_false()) return mk(0);
  Val v; v.s = new Sym(SBOOL, 1, e); return v;
}
static z3::expr toBool(Val const& v) {
  if (!v.s) return C.bool_val(v.c & 1);
  if (v.s->k == SBOOL) return v.s->e;
  if (v.s->k == SBV && v.s->w == 1) return v.s->e == C.bv_val(1, 1);
  engineError("toBool on non-boolean");
}
static z3::expr toBV(Val const& v, unsigned w) {
  if (!v.s) return C.bv_val((uint64_t)maskw(v.c, w), w);
  if (v.s->k == SBOOL) {
    return z3::ite(v.s->e, C.bv_val(1, w), C.bv_val(0, w));
  }
  if (v.s->k == SFP) engineError("symbolic double used as integer bits");
  unsigned sw = v.s->w;
  if (sw == w) return v.s->e;
  if (sw > w) return v.s->e.extract(w - 1, 0);
  return z3::zext(v.s->e, w - sw);
}

// ------------------------------------------------------------------ solver
static std::unique_ptr<z3::model> curModel;
static long nConstraints = 0;
static void stopAfterViolation() {
  if (long f = G->firstViolUs.load()) if (now() * 1e6 - f > grace * 1e6) G->stop = 1;
}
static void checkStop(double t) {
  stopAfterViolation();
  if (G->stop) finish(0);
  if (deadline > 0 && t > deadline) {
    std::string w = whereAmI();
    lockG(); if (!G->engineErrors++) snprintf(G->engineErr, sizeof G->engineErr, "time limit reached during exploration\n%s", w.c_str()); unlockG();
    G->stop = 1; finish(0);
  }
}
static std::string brief(z3::expr const& e, int depth) {
  if (e.is_numeral() || e.is_const()) return e.to_string();
  if (!e.is_app()) return "?";
  std::string r = "(" + e.decl().name().str() + "#" + std::to_string(Z3_get_ast_id(C, e));
  if (depth > 0) for (unsigned i = 0; i < e.num_args(); i++) r += " " + brief(e.arg(i), depth - 1);
  return r + ")";
}
static z3::check_result runCheck(z3::expr const* extra = nullptr) {
  double t = now();
  checkStop(t);
  G->queries++;
  z3::check_result r;
  if (extra) {
    z3::expr b(C, Z3_mk_fresh_const(C, "q", C.bool_sort()));
    S->add(z3::implies(b, *extra));
    r = S->check(1, &b);
  } else r = S->check();
  G->solverUs += (long)((now() - t) * 1e6);
  if (now() - t > 5 && getenv("SVE_SMT")) {
    FILE* fp = fopen((std::string(getenv("SVE_SMT")) + "/q" + std::to_string(getpid()) + "-" + std::to_string(G->queries.load()) + ".smt2").c_str(), "w");
    if (fp) { fputs(S->to_smt2().c_str(), fp); fclose(fp); }
  }
  if (now() - t > 2 && getenv("SVE_DUMP")) say("SLOW %.1fs %s\n%s\n", now() - t, whereAmI().c_str(), extra ? brief(*extra, 4).c_str() : "path");
  if (r == z3::sat) G->qsat++; else if (r == z3::unsat) G->qunsat++; else {
    G->qunknown++;
    if (verbose) say("unknown query: %s\n", S->reason_unknown().c_str());
  }
  return r;
}
static bool modelTrue(z3::expr const& c) {
  z3::expr e = curModel->eval(c, true);
  return e.is_true();
}
static void ensureModel() {
  if (curModel) return;
  z3::check_result r = runCheck();
  if (r == z3::unsat) { G->infeasible++; finish(0); }
  if (r == z3::unknown) { G->unknown++; engineError("solver returned unknown on a path condition"); }
  curModel.reset(new z3::model(S->get_model()));
}
// Conditions settled on this path: truth of atoms, and signed ranges of bit-vector terms compared with constants.
static std::unordered_map<unsigned, bool> decided;
static std::vector<z3::expr> decidedKeep;
struct Rng { bool hasLo = false, hasHi = false; mpz_class lo, hi; };
static std::unordered_map<unsigned, Rng> ranges;
static mpz_class signedNumeral(z3::expr const& e) {
  mpz_class v(std::string(Z3_get_numeral_string(C, e)));
  unsigned w = e.get_sort().bv_size();
  if (v >= (mpz_class(1) << (w - 1))) v -= mpz_class(1) << w;
  return v;
}
// atom "term <= k" (le) or "term >= k" (!le); false if it is something else
static bool boundAtom(z3::expr const& e, z3::expr* t, mpz_class* k, bool* le) {
  if (!e.is_app() || e.decl().decl_kind() != Z3_OP_SLEQ) return false;
  z3::expr a = e.arg(0), b = e.arg(1);
  if (b.is_numeral()) { *t = a; *k = signedNumeral(b); *le = true; return true; }
  if (a.is_numeral()) { *t = b; *k = signedNumeral(a); *le = false; return true; }
  return false;
}
static int atomKnown(z3::expr const& e) {  // 1 true, 0 false, -1 unknown
  auto it = decided.find(Z3_get_ast_id(C, e));
  if (it != decided.end()) return it->second;
  z3::expr t(C); mpz_class k; bool le;
  if (boundAtom(e, &t, &k, &le)) {
    auto r = ranges.find(Z3_get_ast_id(C, t));
    if (r == ranges.end()) return -1;
    if (le) { if (r->second.hasHi && r->second.hi <= k) return 1; if (r->second.hasLo && r->second.lo > k) return 0; }
    else { if (r->second.hasLo && r->second.lo >= k) return 1; if (r->second.hasHi && r->second.hi < k) return 0; }
    return -1;
  }
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_EQ && e.arg(0).is_bv()) {
    for (int i = 0; i < 2; i++) if (e.arg(i).is_numeral()) {
      auto r = ranges.find(Z3_get_ast_id(C, e.arg(1 - i)));
      if (r == ranges.end()) return -1;
      mpz_class v = signedNumeral(e.arg(i));
      if ((r->second.hasHi && r->second.hi < v) || (r->second.hasLo && r->second.lo > v)) return 0;
    }
  }
  return -1;
}
static void note(z3::expr const& e, bool v) {
  if (!e.is_app()) return;
  Z3_decl_kind k = e.decl().decl_kind();
  if (k == Z3_OP_NOT) { note(e.arg(0), !v); return; }
  if ((k == Z3_OP_AND && v) || (k == Z3_OP_OR && !v)) { for (unsigned i = 0; i < e.num_args(); i++) note(e.arg(i), v); }
  decided[Z3_get_ast_id(C, e)] = v;
  decidedKeep.push_back(e);
  z3::expr t(C); mpz_class n; bool le;
  if (boundAtom(e, &t, &n, &le)) {
    Rng& r = ranges[Z3_get_ast_id(C, t)];
    decidedKeep.push_back(t);
    if (!v) { le = !le; n += le ? -1 : 1; }
    if (le) { if (!r.hasHi || n < r.hi) { r.hasHi = true; r.hi = n; } }
    else { if (!r.hasLo || n > r.lo) { r.hasLo = true; r.lo = n; } }
  } else if (v && k == Z3_OP_EQ && e.arg(0).is_bv()) {
    for (int i = 0; i < 2; i++) if (e.arg(i).is_numeral()) {
      Rng& r = ranges[Z3_get_ast_id(C, e.arg(1 - i))];
      r.hasLo = r.hasHi = true; r.lo = r.hi = signedNumeral(e.arg(i));
    }
  }
}
static z3::expr reduceRec(z3::expr const& e, std::unordered_map<unsigned, z3::expr>& memo) {
  if (!e.is_app()) return e;
  auto m = memo.find(Z3_get_ast_id(C, e));
  if (m != memo.end()) return m->second;
  z3::expr r = e;
  int k = atomKnown(e);
  if (k >= 0) r = C.bool_val(k == 1);
  else switch (e.decl().decl_kind()) {
    case Z3_OP_AND: case Z3_OP_OR: case Z3_OP_NOT: case Z3_OP_IMPLIES: case Z3_OP_XOR: case Z3_OP_ITE: case Z3_OP_EQ: case Z3_OP_IFF: {
      bool all = true, ch = false;
      for (unsigned i = 0; i < e.num_args(); i++) if (!e.arg(i).is_bool()) all = false;
      if (!all) break;
      z3::expr_vector a(C);
      for (unsigned i = 0; i < e.num_args(); i++) { z3::expr x = e.arg(i), y = reduceRec(x, memo); if (!z3::eq(x, y)) ch = true; a.push_back(y); }
      if (ch) r = e.decl()(a);
      break;
    }
    default: break;
  }
  memo.emplace(Z3_get_ast_id(C, e), r);
  return r;
}
static z3::expr reduce(z3::expr const& e0) {
  z3::expr e = e0.simplify();
  if (e.is_true() || e.is_false()) return e;
  std::unordered_map<unsigned, z3::expr> memo;
  z3::expr r = reduceRec(e, memo);
  return z3::eq(r, e) ? e : r.simplify();
}
static std::string brief(z3::expr const& e, int depth);
static void addConstraint(z3::expr const& c0) {
  z3::expr c = reduce(c0);
  if (c.is_true()) return;
  S->add(c);
  nConstraints++;
  note(c, true); if (getenv("SVE_DUMP")) say("ADD %s\n", brief(c, 4).c_str());
  if (curModel && !modelTrue(c)) curModel.reset();
}
// satisfiable together with the path condition?
static z3::check_result checkWith(z3::expr const& c0) {
  z3::expr c = reduce(c0);
  if (c.is_true()) return z3::sat;
  if (c.is_false()) return z3::unsat;
  if (curModel && modelTrue(c)) return z3::sat;
  z3::check_result r = runCheck(&c);
  if (r == z3::sat && !curModel) curModel.reset(new z3::model(S->get_model()));
  return r;
}
static int doFork() {  // 1: child, 0: parent; the parent waits unless a slot is free
  G->forks++;
  stopAfterViolation();
  if (G->stop) finish(0);
  if (deadline > 0 && now() > deadline) {
    lockG(); if (!G->engineErrors++) snprintf(G->engineErr, sizeof G->engineErr, "time limit reached during exploration"); unlockG();
    G->stop = 1; finish(0);
  }
  bool slot = false;
  int s = G->slots.load();
  while (s > 0) if (G->slots.compare_exchange_weak(s, s - 1)) { slot = true; break; }
  G->steps += stepsLocal; stepsLocal = 0;
  pid_t p = fork();
  if (p < 0) { if (slot) G->slots++; engineError("fork failed"); }
  if (p == 0) { ownsSlot = slot; return 1; }
  if (!slot) {
    int st; pid_t q;
    do q = waitpid(p, &st, 0); while (q < 0 && errno == EINTR);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      lockG();
      if (!G->engineErrors++) snprintf(G->engineErr, sizeof G->engineErr, "child process died: status %d", st);
      unlockG();
    }
  }
  return 0;
}
static bool settle(z3::expr const& c, bool v) { note(c, v); return v; }
static bool decide(z3::expr const& c0) {
  z3::expr c = reduce(c0);
  if (c.is_true()) return true;
  if (c.is_false()) return false;
  ensureModel();
  bool mt = modelTrue(c);
  z3::expr other = mt ? !c : c;
  z3::check_result r = checkWith(other);
  if (r == z3::unsat) return settle(c, mt);
  if (r == z3::unknown) { if (getenv("SVE_DUMP")) say("UNKNOWN: %s\n", brief(other, 4).c_str()); G->unknown++; engineError("solver returned unknown on a branch condition"); }
  if (doFork()) {
    addConstraint(other);
    return settle(c, !mt);
  }
  addConstraint(mt ? c : !c);
  return settle(c, mt);
}
static bool decideV(Val const& v) { return v.s ? decide(toBool(v)) : (v.c & 1); }

static u64 concretize(Val const& v, unsigned w) {
  if (!v.s) return v.c;
  G->concretized++;
  if (v.s->k == SBOOL) return decideV(v) ? 1 : 0;
  z3::expr e = toBV(v, w);
  while (true) {
    ensureModel();
    z3::expr m = curModel->eval(e, true);
    u64 val = m.get_numeral_uint64();
    z3::expr eq = e == C.bv_val((uint64_t)val, w);
    z3::check_result r = checkWith(!eq);
    if (r == z3::unsat) return val;
    if (r == z3::unknown) { G->unknown++; engineError("solver returned unknown while concretizing"); }
    if (doFork()) { addConstraint(eq); return val; }
    addConstraint(!eq);
  }
}

// assignment of the integer variables under the current model
static std::vector<mpz_class> assignment(z3::model& m) {
  std::vector<mpz_class> a(F->vars.size());
  for (size_t i = 0; i < F->vars.size(); i++) {
    if (F->vars[i].isSqrt) continue;
    z3::expr e = m.eval(F->vars[i].u, true);
    mpz_class x(Z3_get_numeral_string(C, e));
    a[i] = F->vars[i].lo + x;
  }
  return a;
}
static std::string modelText(z3::model& m) {
  std::vector<mpz_class> a = assignment(m);
  std::ostringstream o;
  for (size_t i = 0; i < F->vars.size(); i++)
    if (F->vars[i].isInput) o << F->vars[i].name << "=" << a[i].get_str() << ";";
  return o.str();
}

static void recordViolation(std::string const& label, char const* kind, std::string const& detail, z3::expr const& cond) {
  // cond: violating condition; find a model
  std::string mt = "?";
  if (runCheck(&cond) == z3::sat) { z3::model m = S->get_model(); mt = modelText(m); }
  lockG();
  G->nvioltotal++;
  if (!G->firstViolUs && std::find(knownLabels.begin(), knownLabels.end(), label) == knownLabels.end()) G->firstViolUs = (long)(now() * 1e6);
  int same = 0;
  for (int i = 0; i < G->nviol; i++) if (label == G->viol[i].label) same++;
  if (same < 6 && G->nviol < MAXV) {
    Violation& v = G->viol[G->nviol];
    snprintf(v.label, sizeof v.label, "%s", label.c_str());
    snprintf(v.kind, sizeof v.kind, "%s", kind);
    snprintf(v.detail, sizeof v.detail, "%s", detail.c_str());
    snprintf(v.model, sizeof v.model, "%s", mt.c_str());
    G->nviol++;
  }
  unlockG();
}

// ------------------------------------------------------------------ observations of this path
struct Obs { std::string name; bool isD; Val v; };
static std::vector<Obs> obsv;
static void endPath(bool sample) {
  long n = ++G->paths;
  if (nConstraints > G->maxConstraints) G->maxConstraints = nConstraints;
  bool take = sample && (n <= 12 || (sampleEvery && n % sampleEvery == 0));
  if (take && G->nsample < MAXS) {
    ensureModel();
    z3::model& m = *curModel;
    std::vector<mpz_class> a = assignment(m);
    std::ostringstream o;
    o.precision(17);
    int nobs = 0;
    for (auto& ob : obsv) {
      if ((size_t)o.tellp() > sizeof(G->sample[0].obs) - 400) break;
      nobs++;
      if (!ob.isD) {
        u64 val = ob.v.s ? m.eval(toBV(ob.v, 64), true).get_numeral_uint64() : ob.v.c;
        o << ob.name << " i " << (i64)val << "\n";
      } else if (!ob.v.s) {
        o << ob.name << " d " << asD(ob.v.c) << " 0\n";
      } else {
        FpVal* f = ob.v.s->f;
        mpf_class nn = F->evalPolyHi(f->N, a), dd = F->evalPolyHi(f->D, a);
        mpf_class q(nn / dd, 256);
        o << ob.name << " d " << q.get_d() << " " << f->err << "\n";
      }
    }
    std::string mt = modelText(m), ot = o.str();
    if (mt.size() < sizeof(G->sample[0].model)) {
      lockG();
      if (G->nsample < MAXS) {
        Sample& s = G->sample[G->nsample];
        snprintf(s.model, sizeof s.model, "%s", mt.c_str());
        s.nobs = nobs;
        snprintf(s.obs, sizeof s.obs, "%s", ot.c_str());
        G->nsample++;
      }
      unlockG();
    }
  }
  finish(0);
}
static void noteCover(char const* name) {
  int n = G->ncover;
  for (int i = 0; i < n; i++) if (!strncmp(G->cover[i].name, name, 95)) { G->cover[i].n++; return; }
  lockG();
  n = G->ncover;
  for (int i = 0; i < n; i++) if (!strncmp(G->cover[i].name, name, 95)) { G->cover[i].n++; unlockG(); return; }
  if (n < MAXCOV) { snprintf(G->cover[n].name, 96, "%s", name); G->cover[n].n = 1; G->ncover = n + 1; }
  unlockG();
}

// ------------------------------------------------------------------ memory
static char* arena; static u64 arenaSize, arenaTop;
static unsigned char* shadow;   // per 8 bytes: 0 all accessible, 1..7 first k bytes, 0xff none
static unsigned char* symbit;   // per 8 bytes: symbolic cell overlaps
static char* stackBase; static u64 stackSize, stackTop;
static u64 shIdx(u64 a) { return (a - (u64)arena) >> 3; }
static bool inArena(u64 a) { return a >= (u64)arena && a < (u64)arena + arenaSize; }
struct Cell { unsigned size; Sym* s; };
static std::unordered_map<u64, Cell> cells;
struct Alloc { u64 size; char kind; };
static std::unordered_map<u64, Alloc> heapAllocs;
static void poison(u64 a, u64 n) { memset(shadow + shIdx(a), 0xff, (n + 7) >> 3); }
static void unpoison(u64 a, u64 n) {
  memset(shadow + shIdx(a), 0, n >> 3);
  if (n & 7) shadow[shIdx(a + (n & ~7ull))] = n & 7;
}
static void clearSym(u64 a, u64 n);
static u64 arenaAlloc(u64 n, u64 align = 16) {
  u64 a = (u64)arena + arenaTop;
  a = (a + align - 1) & ~(align - 1);
  u64 end = a + ((n + 7) & ~7ull) + 16;
  if (end > (u64)stackBase) engineError("heap arena exhausted");
  arenaTop = end - (u64)arena;
  poison(a + ((n + 7) & ~7ull), 16);
  unpoison(a, n);
  return a;
}
static u64 heapAlloc(u64 n, char kind, u64 align = 16) {
  u64 a = arenaAlloc(n ? n : 1, align);
  if (n == 0) { shadow[shIdx(a)] = 0xff; }
  memset((void*)a, 0xA5, n);
  heapAllocs[a] = Alloc{n, kind};
  return a;
}
[[noreturn]] static void memViolation(std::string const& what);
static void heapFree(u64 a, char kind) {
  if (!a) return;
  if (!inArena(a)) { free((void*)a); return; }
  auto it = heapAllocs.find(a);
  if (it == heapAllocs.end()) memViolation("free of a pointer that is not a live allocation");
  if (it->second.kind != kind) memViolation("mismatched allocation and deallocation");
  clearSym(a, it->second.size);
  poison(a, it->second.size ? it->second.size : 1);
  heapAllocs.erase(it);
}
static bool accessible(u64 a, u64 n) {
  if (!inArena(a)) return a >= 4096;
  while (n > 0) {
    unsigned char s = shadow[shIdx(a)];
    u64 off = a & 7, take = std::min<u64>(8 - off, n);
    if (s && (s == 0xff || off + take > s)) return false;
    a += take; n -= take;
  }
  return true;
}
static bool anySym(u64 a, u64 n) {
  if (!inArena(a) || n == 0) return false;
  for (u64 i = shIdx(a); i <= shIdx(a + n - 1); i++) if (symbit[i]) return true;
  return false;
}
static void recomputeBits(u64 a, u64 n) {
  for (u64 g = a & ~7ull; g < a + n; g += 8) {
    bool any = false;
    for (u64 p = g - 7; p < g + 8 && !any; p++) {
      auto it = cells.find(p);
      if (it != cells.end() && p + it->second.size > g) any = true;
    }
    symbit[shIdx(g)] = any;
  }
}
static void splitBytes(u64 p) {
  Cell c = cells[p];
  if (c.s->k == SFP) engineError("partial access to a symbolic double");
  cells.erase(p);
  z3::expr e = c.s->k == SBOOL ? toBV(Val{0, c.s}, c.size * 8) : toBV(Val{0, c.s}, c.size * 8);
  for (unsigned i = 0; i < c.size; i++) {
    Val b = mkBV(e.extract(i * 8 + 7, i * 8));
    if (b.s) cells[p + i] = Cell{1, b.s};
    else *(unsigned char*)(p + i) = b.c;
  }
}
static void clearSym(u64 a, u64 n) {
  if (!anySym(a, n)) return;
  for (u64 p = a >= 7 ? a - 7 : 0; p < a + n; p++) {
    auto it = cells.find(p);
    if (it == cells.end()) continue;
    u64 e = p + it->second.size;
    if (e <= a) continue;
    if (p >= a && e <= a + n) { cells.erase(it); continue; }
    if (it->second.s->k == SFP) { cells.erase(it); continue; }
    splitBytes(p);
    it = cells.find(p);
    if (it != cells.end() && p >= a) cells.erase(it);
  }
  recomputeBits(a, n);
}
static void putSym(u64 a, unsigned n, Sym* s) {
  if (!inArena(a)) engineError("symbolic store outside of modelled memory");
  clearSym(a, n);
  cells[a] = Cell{n, s};
  for (u64 i = shIdx(a); i <= shIdx(a + n - 1); i++) symbit[i] = 1;
}
static std::string addrStr(u64 a) { char b[40]; snprintf(b, sizeof b, "0x%" PRIx64, a); return b; }
static void chk(u64 a, u64 n, char const* what) {
  if (!accessible(a, n)) memViolation(std::string(what) + " of " + std::to_string(n) + " bytes outside live memory");
}
static Val loadMem(u64 a, unsigned n, bool isFP) {
  chk(a, n, "read");
  if (anySym(a, n)) {
    auto it = cells.find(a);
    if (it != cells.end() && it->second.size == n) { Val v; v.s = it->second.s; return v; }
    bool any = false;
    for (u64 p = a - 7; p < a + n; p++) {
      auto jt = cells.find(p);
      if (jt != cells.end() && p + jt->second.size > a) { any = true; break; }
    }
    if (any) {
      z3::expr e(C);
      bool first = true;
      for (int i = n - 1; i >= 0; i--) {
        u64 b = a + i;
        z3::expr be = C.bv_val((unsigned)*(unsigned char*)b, 8);
        for (u64 p = b - 7; p <= b; p++) {
          auto jt = cells.find(p);
          if (jt != cells.end() && p + jt->second.size > b) {
            if (jt->second.s->k == SFP) engineError("partial read of a symbolic double");
            unsigned o = (b - p) * 8;
            be = toBV(Val{0, jt->second.s}, jt->second.size * 8).extract(o + 7, o);
          }
        }
        e = first ? be : z3::concat(e, be);
        first = false;
      }
      return mkBV(e);
    }
  }
  u64 c = 0;
  memcpy(&c, (void*)a, n);
  return mk(c);
}
static void storeMem(u64 a, unsigned n, Val const& v) {
  chk(a, n, "write");
  if (!v.s) { clearSym(a, n); memcpy((void*)a, &v.c, n); return; }
  putSym(a, n, v.s);
}
static void moveMem(u64 d, u64 s, u64 n) {
  if (n == 0) return;
  chk(s, n, "read"); chk(d, n, "write");
  std::vector<std::pair<u64, Cell>> cs;
  if (anySym(s, n)) {
    for (u64 p = s - 7; p < s + n; p++) {
      auto it = cells.find(p);
      if (it == cells.end()) continue;
      u64 e = p + it->second.size;
      if (e <= s) continue;
      if (p < s || e > s + n) { splitBytes(p); recomputeBits(p, 8); if (p < s) continue; it = cells.find(p); if (it == cells.end()) continue; }
      cs.push_back({p - s, it->second});
    }
  }
  memmove((void*)d, (void*)s, n);
  clearSym(d, n);
  for (auto& c : cs) putSym(d + c.first, c.second.size, c.second.s);
}

// ------------------------------------------------------------------ IR tables
static LLVMContext* LC; static Module* M; static DataLayout const* DL;
struct Reg { u64 c; Sym* s; std::vector<Reg>* agg; };
struct Opn { int reg; Reg k; };
struct Ins {
  unsigned op; unsigned w; int dst; Instruction const* I;
  std::vector<Opn> o;
  i64 goff; std::vector<std::pair<int, i64>> gidx;  // gep: operand index, scale
  bool isFP; u64 sz;
};
struct Blk { std::vector<Ins> ins; unsigned nphi; };
struct Fn {
  Function const* f; bool ready = false; unsigned nregs = 0; std::vector<Blk> blk;
  std::unordered_map<BasicBlock const*, unsigned> bidx;
  int special = -1; u64 addr = 0; int seenIdx = -1; void* native = nullptr; bool nativeLooked = false;
  std::vector<bool> argFP;
};
static std::unordered_map<Function const*, Fn*> fns;
static std::unordered_map<u64, Fn*> fnByAddr;
static std::unordered_map<GlobalVariable const*, u64> gvAddr;
static std::vector<std::string> seenNames;

struct Frame {
  Fn* fn; std::vector<Reg> regs; unsigned b, pc, prev; u64 stackMark; int retDst; bool retInvoke; BasicBlock const* normalDest; std::vector<std::vector<Reg>*> owned;
  std::vector<Val> varargs;
};
static std::vector<Frame*> stk;
static Instruction const* curI = nullptr;
static std::string demangle(std::string const& n) {
  int st; char* d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
  std::string r = d ? d : n; free(d); return r;
}
static std::string whereAmI() {
  std::string s;
  int n = 0;
  for (int i = (int)stk.size() - 1; i >= 0 && n < 12; i--, n++) {
    s += "  at " + demangle(stk[i]->fn->f->getName().str()).substr(0, 160);
    Frame* fr = stk[i];
    if (fr->pc > 0 && fr->pc <= fr->fn->blk[fr->b].ins.size()) {
      Instruction const* I = fr->fn->blk[fr->b].ins[fr->pc - 1].I;
      if (I && I->getDebugLoc()) s += ":" + std::to_string(I->getDebugLoc().getLine());
    }
    s += "\n";
  }
  return s;
}
static bool expectAbort = false;
[[noreturn]] static void memViolation(std::string const& what) {
  ensureModel();
  std::string fnn = "?";
  for (int i = (int)stk.size() - 1; i >= 0; i--) {
    std::string d = demangle(stk[i]->fn->f->getName().str());
    if (d.compare(0, 5, "std::") && d.compare(0, 7, "__gnu_c") && d.find(" std::") == std::string::npos) { fnn = d.substr(0, d.find('(')); break; }
  }
  recordViolation("memory-safety:" + fnn.substr(0, 120), "memory", what + "\n" + whereAmI(), C.bool_val(true));
  endPath(false);
  finish(0);
}
[[noreturn]] static void pathViolation(std::string const& label, char const* kind, std::string const& d) {
  ensureModel();
  recordViolation(label, kind, d + "\n" + whereAmI(), C.bool_val(true));
  endPath(false);
  finish(0);
}

static Fn* getFn(Function const* f) {
  auto it = fns.find(f);
  if (it != fns.end()) return it->second;
  Fn* n = new Fn; n->f = f; fns[f] = n;
  n->addr = 0;
  return n;
}
static u64 fnAddr(Function const* f) {
  Fn* n = getFn(f);
  if (!n->addr) {
    if (f->isDeclaration()) {
      void* p = dlsym(RTLD_DEFAULT, f->getName().str().c_str());
      if (p) n->addr = (u64)p;
    }
    if (!n->addr) n->addr = (u64)n;
    fnByAddr[n->addr] = n;
  }
  return n->addr;
}
static u64 globalAddr(GlobalVariable const* g) {
  auto it = gvAddr.find(g);
  if (it != gvAddr.end()) return it->second;
  u64 a;
  if (g->isDeclaration()) {
    void* p = dlsym(RTLD_DEFAULT, g->getName().str().c_str());
    if (!p) {
      if (g->hasExternalWeakLinkage()) p = nullptr;
      else engineError("undefined external variable " + g->getName().str());
    }
    a = (u64)p;
  } else {
    u64 n = DL->getTypeAllocSize(g->getValueType());
    a = arenaAlloc(n ? n : 1, std::max<u64>(16, DL->getPreferredAlign(g).value()));
    memset((void*)a, 0, n);
  }
  gvAddr[g] = a;
  return a;
}
static Reg evalConst(Constant const* c);
static u64 evalInt(Constant const* c) { Reg r = evalConst(c); return r.c; }
static Reg rc(u64 c) { return Reg{c, nullptr, nullptr}; }
static Reg evalConst(Constant const* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) {
      if (ci->getValue().getActiveBits() > 64) engineError("constant wider than 64 bits");
      return rc(ci->getValue().getZExtValue());
    }
    return rc(ci->getZExtValue());
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (cf->getType()->isDoubleTy()) return rc(fromD(cf->getValueAPF().convertToDouble()));
    if (cf->getType()->isFloatTy()) { float f = cf->getValueAPF().convertToFloat(); uint32_t b; memcpy(&b, &f, 4); return rc(b); }
    engineError("unsupported floating constant");
  }
  if (isa<ConstantPointerNull>(c)) return rc(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
      Reg r = rc(0);
      unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
      r.agg = new std::vector<Reg>();
      for (unsigned i = 0; i < n; i++) r.agg->push_back(evalConst(c->getAggregateElement(i)));
      return r;
    }
    return rc(0);
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataArray>(c)) {
    Reg r = rc(0);
    r.agg = new std::vector<Reg>();
    for (unsigned i = 0; c->getAggregateElement(i); i++) r.agg->push_back(evalConst(c->getAggregateElement(i)));
    return r;
  }
  if (auto* f = dyn_cast<Function>(c)) return rc(fnAddr(f));
  if (auto* g = dyn_cast<GlobalVariable>(c)) return rc(globalAddr(g));
  if (auto* al = dyn_cast<GlobalAlias>(c)) return evalConst(al->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) engineError("constant gep");
        return rc(evalInt(ce->getOperand(0)) + off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return evalConst(ce->getOperand(0));
      case Instruction::Trunc: return rc(maskw(evalInt(ce->getOperand(0)), ce->getType()->getIntegerBitWidth()));
      case Instruction::Add: return rc(evalInt(ce->getOperand(0)) + evalInt(ce->getOperand(1)));
      case Instruction::Sub: return rc(evalInt(ce->getOperand(0)) - evalInt(ce->getOperand(1)));
      case Instruction::Xor: return rc(evalInt(ce->getOperand(0)) ^ evalInt(ce->getOperand(1)));
      case Instruction::And: return rc(evalInt(ce->getOperand(0)) & evalInt(ce->getOperand(1)));
      case Instruction::ICmp: {
        u64 a = evalInt(ce->getOperand(0)), b = evalInt(ce->getOperand(1));
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: return rc(a == b);
          case CmpInst::ICMP_NE: return rc(a != b);
          case CmpInst::ICMP_UGT: return rc(a > b);
          case CmpInst::ICMP_ULT: return rc(a < b);
          default: break;
        }
        break;
      }
      default: break;
    }
    engineError(std::string("constant expression ") + ce->getOpcodeName());
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  engineError("constant " + os.str());
}
static void initMem(u64 a, Constant const* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* s = dyn_cast<ConstantStruct>(c)) {
    StructLayout const* sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(a + sl->getElementOffset(i), s->getOperand(i));
    return;
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = d->getRawDataValues();
    memcpy((void*)a, r.data(), r.size());
    return;
  }
  if (auto* ar = dyn_cast<ConstantArray>(c)) {
    u64 es = DL->getTypeAllocSize(ar->getType()->getElementType());
    for (unsigned i = 0; i < ar->getNumOperands(); i++) initMem(a + i * es, ar->getOperand(i));
    return;
  }
  Reg r = evalConst(c);
  memcpy((void*)a, &r.c, DL->getTypeStoreSize(t));
}

static Fn* prep(Fn* fn) {
  if (fn->ready) return fn;
  fn->ready = true;
  Function const* f = fn->f;
  std::unordered_map<Value const*, int> num;
  for (auto& a : f->args()) num[&a] = fn->nregs++;
  unsigned bi = 0;
  for (auto& b : *f) {
    fn->bidx[&b] = bi++;
    for (auto& i : b) if (!i.getType()->isVoidTy()) num[&i] = fn->nregs++;
  }
  auto opn = [&](Value const* v) {
    Opn o; o.reg = -1; o.k = rc(0);
    if (auto it = num.find(v); it != num.end()) { o.reg = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) o.k = evalConst(c);
    return o;
  };
  for (auto& b : *f) {
    fn->blk.emplace_back();
    Blk& bl = fn->blk.back();
    bl.nphi = 0;
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      Ins in; in.op = i.getOpcode(); in.I = &i; in.dst = -1; in.w = 0; in.goff = 0; in.isFP = false; in.sz = 0;
      Type* t = i.getType();
      if (!t->isVoidTy()) {
        in.dst = num[&i];
        in.isFP = t->isDoubleTy() || t->isFloatTy();
        if (t->isVectorTy()) engineError("vector instruction in " + f->getName().str());
        if (t->isSized() && !t->isStructTy() && !t->isArrayTy()) { in.w = DL->getTypeSizeInBits(t); in.sz = DL->getTypeStoreSize(t); }
      }
      if (isa<PHINode>(i)) bl.nphi++;
      if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) {
          if (isa<MetadataAsValue>(a)) { Opn o; o.reg = -1; o.k = rc(0); in.o.push_back(o); }
          else in.o.push_back(opn(a));
        }
        in.o.push_back(opn(cb->getCalledOperand()));
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        in.o.push_back(opn(g->getPointerOperand()));
        for (auto gi = gep_type_begin(*g), e = gep_type_end(*g); gi != e; ++gi) {
          Value* idx = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) {
            in.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            i64 sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) in.goff += ci->getSExtValue() * sc;
            else { in.gidx.push_back({(int)in.o.size(), sc}); in.o.push_back(opn(idx)); }
          }
        }
      } else if (auto* st = dyn_cast<StoreInst>(&i)) {
        in.o.push_back(opn(st->getValueOperand())); in.o.push_back(opn(st->getPointerOperand()));
        in.sz = DL->getTypeStoreSize(st->getValueOperand()->getType());
        in.w = DL->getTypeSizeInBits(st->getValueOperand()->getType());
      } else {
        for (auto& o : i.operands())
          if (!isa<BasicBlock>(o)) in.o.push_back(opn(o)); else in.o.push_back(Opn{-1, rc(0)});
      }
      bl.ins.push_back(in);
    }
  }
  return fn;
}

// ------------------------------------------------------------------ floating point on symbolic values
static const double EPS = 1.1102230246251568e-16;  // slightly above 2^-53
static FpVal fpOf(Val const& v) {
  if (v.s) { if (v.s->k != SFP) engineError("integer bits used as a symbolic double"); return *v.s->f; }
  double d = asD(v.c);
  FpVal f; f.N = Poly(mpq_class(d)); f.D = Poly(mpq_class(1)); f.lo = f.hi = d; f.nonneg = d >= 0;
  double a = std::fabs(d);
  if (a > 1e-6 && a < 1e6 && std::ldexp(a, 24) != std::floor(std::ldexp(a, 24))) {
    // the double next to a simple fraction (such as 1.0/3): use the fraction, the difference is rounding error
    mpq_class x(a), p0(0), q0(1), p1(1), q1(0), r = x;
    for (int i = 0; i < 12; i++) {
      mpz_class ip; mpz_fdiv_q(ip.get_mpz_t(), r.get_num().get_mpz_t(), r.get_den().get_mpz_t());
      mpq_class p = ip * p1 + p0, q = ip * q1 + q0;
      if (q > 4096) break;
      p0 = p1; q0 = q1; p1 = p; q1 = q;
      mpq_class fr = p / q, df = fr - x; if (df < 0) df = -df;
      if (df <= x * mpq_class(EPS)) {
        f.N = Poly(d < 0 ? mpq_class(-fr) : fr);
        f.err = df.get_d() * (1 + 1e-15); f.lo = d - f.err; f.hi = d + f.err;
        break;
      }
      r -= ip; if (r == 0) break;
      r = 1 / r;
    }
  }
  return f;
}
static bool isOne(Poly const& p) { return p.isConst() && p.constVal() == 1; }
static double maxabs(FpVal const& f) { return std::max(std::fabs(f.lo), std::fabs(f.hi)); }
static bool latticeExact(FpVal const& f) {
  if (!isOne(f.D)) return false;
  int k;
  if (!F->dyadic(f.N, &k)) return false;
  double m = maxabs(f);
  return m == 0 || std::ldexp(m, k) <= 9007199254740992.0;
}
static Val mkFP(FpVal f) {
  if (f.N.isConst() && f.D.isConst()) {
    mpq_class q = f.N.constVal() / f.D.constVal();
    double d = q.get_d();
    if (f.err == 0 && mpq_class(d) == q) return mk(fromD(d));
    f.N = Poly(q); f.D = Poly(mpq_class(1));
    double e = std::fabs(d) * 4e-16;
    f.lo = d - e; f.hi = d + e;
    f.nonneg = q >= 0 && (f.nonneg || f.lo - f.err > 0);
  }
  Val v;
  v.s = new Sym(SFP, 64, C.bool_val(true));
  v.s->f = new FpVal(f);
  return v;
}
static void normFrac(FpVal& f) {
  if (f.D.isConst()) {
    mpq_class c = f.D.constVal();
    if (c != 1) { f.N = Fp::scale(f.N, 1 / c); f.D = Poly(mpq_class(1)); }
    return;
  }
  if (f.N.isZero()) { f.D = Poly(mpq_class(1)); return; }
  // rationalize a denominator that is a single term with square roots
  if (f.D.t.size() == 1) {
    Mono m = f.D.t.begin()->first; Poly k(mpq_class(1)); bool any = false;
    for (auto const& ve : m) if (F->vars[ve.first].isSqrt) { k = F->mul(k, F->var(ve.first)); any = true; }
    if (any) { f.N = F->mul(f.N, k); f.D = F->mul(f.D, k); normFrac(f); return; }
  }
  Poly q;
  if (F->divides(f.N, f.D, &q)) { f.N = q; f.D = Poly(mpq_class(1)); return; }
  if (F->divides(f.D, f.N, &q) && !q.isConst()) {
    f.N = Poly(mpq_class(1)); f.D = q;
  }
  // scale so that the leading coefficient of D is 1 (keeps equal denominators identical)
  mpq_class c = f.D.t.begin()->second;
  if (c != 1) { f.N = Fp::scale(f.N, 1 / c); f.D = Fp::scale(f.D, 1 / c); }
}
static void tighten(FpVal& f) {
  if (isOne(f.D)) {
    double l, h; F->itv(f.N, &l, &h);
    f.lo = std::max(f.lo, l); f.hi = std::min(f.hi, h);
  }
  if (f.nonneg && f.lo < 0) f.lo = 0;
  if (f.lo > f.hi) std::swap(f.lo, f.hi);
}
static void wid(double& lo, double& hi) { lo -= std::fabs(lo) * 4e-16 + 1e-300; hi += std::fabs(hi) * 4e-16 + 1e-300; }
static void roundErr(FpVal& f, double inherited) {
  if (inherited == 0 && latticeExact(f)) { f.err = 0; return; }
  f.err = (inherited + EPS * (maxabs(f) + inherited) + 1e-320) * (1 + 1e-12);
}
static Val fpSpecial(unsigned op, double a, double b) {
  switch (op) {
    case Instruction::FAdd: return mk(fromD(a + b));
    case Instruction::FSub: return mk(fromD(a - b));
    case Instruction::FMul: return mk(fromD(a * b));
    default: return mk(fromD(a / b));
  }
}
static z3::expr fracCond(Poly const& N, Poly const& D, Rel rel) {
  // N/D rel 0 with D != 0
  if (D.isConst()) return F->cond(D.constVal() > 0 ? N : Fp::scale(N, -1), rel);
  if (rel == EQ) return F->cond(N, EQ);
  double l, h; F->itv(D, &l, &h);
  if (l > 0) return F->cond(N, rel);
  if (h < 0) return F->cond(Fp::scale(N, -1), rel);
  z3::expr dn = F->cond(D, LT);
  return z3::ite(dn, F->cond(Fp::scale(N, -1), rel), F->cond(N, rel));
}
// R rel c, c rational, R the exact real
static z3::expr relConst(FpVal const& f, Rel rel, mpq_class const& c) {
  if (c != 0 && rel != EQ && !f.D.isConst() && !F->hasSqrt(f.N) && !F->hasSqrt(f.D)) {
    // N takes multiples of a quantum; when |c| max|D| is below it, comparing with c is comparing with 0
    Poly q; mpq_class k; Fp::content(f.N, &q, &k);
    mpq_class qu = 1 / k, c0 = f.N.constVal();
    if (mpq_class(c0 / qu).get_den() == 1) {
      double l, h; F->itv(f.D, &l, &h);
      mpq_class m(std::max(std::fabs(l), std::fabs(h)));
      if (abs(c) * m < qu) return fracCond(f.N, f.D, c > 0 ? LE : LT);
    }
  }
  Poly n = F->add(f.N, Fp::scale(f.D, c), -1);
  return fracCond(n, f.D, rel);
}
static mpq_class qd(double d) { return mpq_class(d); }
// power of two next to x (small coefficients keep the queries small)
static mpq_class roundPow2(double x, bool up) {
  if (x <= 0) return mpq_class(0);
  int e; double m = std::frexp(x, &e);  // x = m 2^e, m in [1/2,1)
  if (up && m > 0.5) return qd(std::ldexp(1.0, e));
  return qd(std::ldexp(1.0, e - 1));
}
static std::vector<Poly> zeroGuard(FpVal const& f) {
  if (f.err == 0 && !f.N.isConst()) return std::vector<Poly>(1, f.N);
  return f.zg;
}
static void guardConstraint(FpVal const& f, z3::expr const& bb, bool atZero) {
  if (f.zg.empty()) return;
  z3::expr all = C.bool_val(true);
  for (Poly const& p : f.zg) all = all && F->cond(p, EQ);
  addConstraint(z3::implies(all, atZero ? bb : !bb));
}
static Val fpCmpZero(FpVal const& f, Rel rel) {  // f rel 0, as the program would decide it
  if (getenv("SVE_POLY")) { std::string z; for (auto& kv : f.N.t) { z += kv.second.get_str(); for (auto& ve : kv.first) z += "*v" + std::to_string(ve.first) + (ve.second > 1 ? "^" + std::to_string(ve.second) : ""); z += " "; } say("CMP err=%g %s\n", f.err, z.c_str()); }
  if (f.err == 0) {
    if (rel != EQ) { if (f.hi < 0) return mk(1); if (f.lo > 0) return mk(0); }
    if (rel == EQ && (f.hi < 0 || f.lo > 0)) return mk(0);
    return mkBool(fracCond(f.N, f.D, rel));
  }
  if (rel == LT && f.nonneg) return mk(0);
  double e = f.err;
  if (rel == EQ) {
    if (f.lo > e || f.hi < -e) return mk(0);
    mpq_class E = roundPow2(e, true);
    z3::expr pt = relConst(f, LE, E) && !relConst(f, LT, -E);
    pt = pt.simplify();
    if (pt.is_false()) return mk(0);
    z3::expr bb(C, Z3_mk_fresh_const(C, "amb", C.bool_sort()));
    addConstraint(z3::implies(bb, pt));
    guardConstraint(f, bb, true);
    return mkBool(bb);
  }
  if (f.hi < -e) return mk(1);
  if (f.lo > e) return mk(0);
  mpq_class E = roundPow2(e, true);
  z3::expr pt = relConst(f, rel == LT ? LT : LE, E).simplify();      // R < e  (possible)
  z3::expr pf = !(relConst(f, rel == LT ? LT : LE, -E).simplify());  // R >= -e
  pf = pf.simplify();
  if (pt.is_false()) return mk(0);
  if (pf.is_false()) return mk(1);
  z3::expr bb(C, Z3_mk_fresh_const(C, "amb", C.bool_sort()));
  addConstraint(z3::implies(bb, pt));
  addConstraint(z3::implies(!bb, pf));
  guardConstraint(f, bb, rel == LE);
  return mkBool(bb);
}
static FpVal fpSub(FpVal const& a, FpVal const& b, int sign) {
  FpVal r;
  if (a.D == b.D) { r.N = Fp::add(a.N, b.N, sign); r.D = a.D; }
  else { r.N = Fp::add(F->mul(a.N, b.D), F->mul(b.N, a.D), sign); r.D = F->mul(a.D, b.D); }
  r.lo = sign > 0 ? a.lo + b.lo : a.lo - b.hi;
  r.hi = sign > 0 ? a.hi + b.hi : a.hi - b.lo;
  wid(r.lo, r.hi);
  r.nonneg = sign > 0 && a.nonneg && b.nonneg;
  normFrac(r);
  tighten(r);
  return r;
}
static bool sameFp(FpVal const& a, FpVal const& b) { return a.N == b.N && a.D == b.D; }
// lower bound (> 0) of |N/D| given that it is not zero; 0 if none can be shown
static double absLower(FpVal const& f) {
  if (f.lo > 0) return f.lo;
  if (f.hi < 0) return -f.hi;
  int k;
  if (isOne(f.D) && F->dyadic(f.N, &k)) return std::ldexp(1.0, -k) * (1 - 1e-12);
  // ask the solver
  for (int e = 0; e <= 60; e += 3) {
    mpq_class q(1); q /= mpz_class(1) << e;
    z3::expr small = relConst(f, LT, q) && !relConst(f, LE, -q);
    z3::check_result r = checkWith(small.simplify());
    if (r == z3::unsat) return std::ldexp(1.0, -e) * (1 - 1e-12);
    if (r == z3::unknown) return 0;
  }
  return 0;
}
// narrows the range of an exact value by what the path condition says about its polynomial
static void applyRange(FpVal& f) {
  if (!isOne(f.D) || f.N.isConst() || F->hasSqrt(f.N)) return;
  Poly q; mpq_class k; Fp::content(f.N, &q, &k);
  z3::expr e = F->cond(q, LE).simplify();  // q <= 0
  bool neg = false;
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT) { e = e.arg(0); neg = true; }  // stated about -q
  z3::expr t(C); mpz_class n; bool le;
  if (!boundAtom(e, &t, &n, &le) || !le) return;
  auto it = ranges.find(Z3_get_ast_id(C, t));
  if (it == ranges.end()) return;
  Rng r = it->second;
  if (neg) { Rng s; s.hasLo = r.hasHi; s.lo = -r.hi; s.hasHi = r.hasLo; s.hi = -r.lo; r = s; }
  mpq_class c = f.N.constVal();
  if (r.hasLo) { double d = mpq_class(mpq_class(r.lo) / k + c).get_d(); d -= std::fabs(d) * 4e-16; if (d > f.lo) f.lo = d; }
  if (r.hasHi) { double d = mpq_class(mpq_class(r.hi) / k + c).get_d(); d += std::fabs(d) * 4e-16; if (d < f.hi) f.hi = d; }
}
static Val fpDiv(Val const& va, Val const& vb) {
  FpVal a = fpOf(va), b = fpOf(vb);
  if (!vb.s) {
    double d = asD(vb.c);
    FpVal r = a; r.sqn = 0;
    mpq_class q(d);
    r.N = Fp::scale(a.N, 1 / q);
    double c1 = a.lo / d, c2 = a.hi / d;
    r.lo = std::min(c1, c2); r.hi = std::max(c1, c2); wid(r.lo, r.hi);
    r.nonneg = a.nonneg && d > 0;
    tighten(r);
    roundErr(r, a.err / std::fabs(d));
    if (r.err > 0) r.zg = zeroGuard(a);
    return mkFP(r);
  }
  // zero denominator?
  if (b.err == 0 && !(b.lo > 0) && !(b.hi < 0)) {
    z3::expr z = fracCond(b.N, b.D, EQ).simplify();
    if (decide(z)) {  // 0 in the denominator: IEEE special value (sign of zero not modelled: +0)
      if (!va.s) return mk(fromD(asD(va.c) / 0.0));
      Val iz = fpCmpZero(a, EQ);
      if (decideV(iz)) return mk(fromD(std::nan("")));
      Val ng = fpCmpZero(a, LT);
      return mk(fromD(decideV(ng) ? -INFINITY : INFINITY));
    }
  }
  double m = absLower(b);
  if (!(m > b.err)) engineError("division by a value that may be within rounding error of zero");
  double mm = m - b.err;
  FpVal r;
  r.N = F->mul(a.N, b.D); r.D = F->mul(a.D, b.N);
  // sign of denominator: keep as is (fracCond handles it)
  double qmax = maxabs(a) / m;
  if (b.lo > 0) {
    double bl = std::max(b.lo, m), bh = b.hi;
    double c1 = a.lo / bl, c2 = a.lo / bh, c3 = a.hi / bl, c4 = a.hi / bh;
    r.lo = std::min(std::min(c1, c2), std::min(c3, c4)); r.hi = std::max(std::max(c1, c2), std::max(c3, c4));
  } else if (b.nonneg) { r.lo = a.lo < 0 ? a.lo / m : 0; r.hi = a.hi > 0 ? a.hi / m : 0; }
  else { r.lo = -qmax; r.hi = qmax; }
  wid(r.lo, r.hi);
  r.nonneg = a.nonneg && b.nonneg;
  if (r.nonneg && r.lo < 0) r.lo = 0;
  normFrac(r);
  tighten(r);
  double inh = (a.err + maxabs(r) * b.err) / mm;
  if (a.err == 0 && b.err == 0) inh = 0;
  roundErr(r, inh);
  r.zg.clear();
  if (r.err > 0 && va.s) r.zg = zeroGuard(a);
  return mkFP(r);
}
static bool keepRoots = false;  // roots of constants stay algebraic numbers
static Val fpSqrt(Val const& v) {
  FpVal a;
  if (!v.s) {
    double d = asD(v.c), q = std::sqrt(d);
    if (!keepRoots || !(d > 0) || !std::isfinite(d) || mpq_class(q) * mpq_class(q) == mpq_class(d) ||
        mpz_sizeinbase(mpq_class(d).get_num().get_mpz_t(), 2) > 40 || mpz_sizeinbase(mpq_class(d).get_den().get_mpz_t(), 2) > 40)
      return mk(fromD(q));
    a.N = Poly(mpq_class(d)); a.D = Poly(mpq_class(1)); a.lo = a.hi = d; a.nonneg = true;
  } else a = *v.s->f;
  if (!a.nonneg) {
    Val ng = fpCmpZero(a, LT);
    if (decideV(ng)) return mk(fromD(std::nan("")));
  }
  if (a.N.isZero()) return mk(0);
  applyRange(a);
  FpVal r; r.nonneg = true;
  double alo = std::max(0.0, a.lo), ahi = std::max(0.0, a.hi);
  r.lo = std::sqrt(alo) * (1 - 1e-15); r.hi = std::sqrt(ahi) * (1 + 1e-15) + 1e-300;
  Poly P = a.D.isConst() ? a.N : F->mul(a.N, a.D);
  // P rational polynomial -> content
  mpz_class lcm = 1, g = 0;
  for (auto const& kv : P.t) { mpz_class l; mpz_lcm(l.get_mpz_t(), lcm.get_mpz_t(), kv.second.get_den().get_mpz_t()); lcm = l; }
  for (auto const& kv : P.t) { mpq_class c = kv.second * lcm; mpz_class gg; mpz_gcd(gg.get_mpz_t(), g.get_mpz_t(), c.get_num().get_mpz_t()); g = gg; }
  // P = (g/lcm) * Q ; sqrt(P) = sqrt(g*lcm)/lcm * sqrt(Q)
  mpq_class f(lcm, g); f.canonicalize();
  Poly Q = Fp::scale(P, f);
  mpz_class k = g * lcm, sq = 1;  // extract square factors of k
  for (unsigned p = 2; p < 2000; p++) { mpz_class pp = p * p; while (k % pp == 0) { k /= pp; sq *= p; } if (pp > k) break; }
  if (mpz_perfect_square_p(k.get_mpz_t())) { mpz_class t; mpz_sqrt(t.get_mpz_t(), k.get_mpz_t()); sq *= t; k = 1; }
  mpq_class coef(sq, lcm); coef.canonicalize();
  Poly root, N;
  if (k == 1 && Q.isConst() && Q.constVal() == 1) N = Poly(coef);
  else if (k == 1 && F->perfectSquare(Q, &root)) {
    // |root|: decide the sign
    double l, h; F->itv(root, &l, &h);
    bool neg = l >= 0 ? false : h <= 0 ? true : decide(F->cond(root, LT).simplify());
    N = Fp::scale(root, neg ? mpq_class(-coef) : coef);
  } else {
    uint32_t sv = F->sqrtVar(Fp::scale(Q, mpq_class(k)));
    N = Fp::scale(F->var(sv), coef);
  }
  r.N = N; r.D = a.D.isConst() ? Poly(mpq_class(1)) : a.D;
  if (!a.D.isConst()) {
    double l, h; F->itv(a.D, &l, &h);
    bool neg = l > 0 ? false : h < 0 ? true : decide(F->cond(a.D, LT).simplify());
    if (neg) r.N = Fp::scale(r.N, -1);
  }
  normFrac(r); tighten(r); applyRange(r);
  double inh = 0;
  if (a.err > 0) {
    inh = std::sqrt(a.err);
    double low = std::max(a.lo, r.lo > 0 ? r.lo * r.lo * (1 - 1e-14) : 0);
    if (!(low > a.err)) {
      for (int e = 0; e <= 40; e += 4) {
        mpq_class q(1); q /= mpz_class(1) << e;
        if (q.get_d() <= a.err * 4) break;
        if (checkWith(relConst(a, LT, q).simplify()) == z3::unsat) { low = q.get_d() * (1 - 1e-12); break; }
      }
    }
    if (low > a.err) inh = std::min(inh, a.err / (std::sqrt(low) + std::sqrt(low - a.err)));
  }
  roundErr(r, inh);
  return mkFP(r);
}
static Val fpNeg(Val const& v) {
  if (!v.s) return mk(v.c ^ (1ull << 63));
  FpVal f = fpOf(v);
  f.N = Fp::scale(f.N, -1);
  double l = -f.hi, h = -f.lo; f.lo = l; f.hi = h; f.nonneg = false; f.sqn = 0;
  return mkFP(f);
}
static Val fpBin(unsigned op, Val const& a, Val const& b) {
  if (!a.s && !b.s) return fpSpecial(op, asD(a.c), asD(b.c));
  // concrete special values
  for (int side = 0; side < 2; side++) {
    Val const& k = side ? b : a;
    if (k.s) continue;
    double d = asD(k.c);
    if (std::isnan(d)) return mk(fromD(d));
    if (std::isinf(d)) {
      Val const& o = side ? a : b;
      switch (op) {
        case Instruction::FAdd: return mk(fromD(d));
        case Instruction::FSub: return mk(fromD(side ? -d : d));
        case Instruction::FMul: case Instruction::FDiv: {
          if (op == Instruction::FDiv && side) return mk(0);
          FpVal f = fpOf(o);
          if (op == Instruction::FMul && decideV(fpCmpZero(f, EQ))) return mk(fromD(std::nan("")));
          bool ng = decideV(fpCmpZero(f, LT));
          return mk(fromD(ng ? -d : d));
        }
      }
    }
    if (d == 0) {
      if (op == Instruction::FMul) return mk(0);
      if (op == Instruction::FAdd) return side ? a : b;
      if (op == Instruction::FSub) return side ? a : fpNeg(b);
      if (op == Instruction::FDiv && side) {
        FpVal f = fpOf(a);
        if (decideV(fpCmpZero(f, EQ))) return mk(fromD(std::nan("")));
        bool ng = decideV(fpCmpZero(f, LT));
        return mk(fromD((ng ? -1.0 : 1.0) / d));
      }
    }
    if (d == 1 && op == Instruction::FMul) return side ? a : b;
  }
  if (op == Instruction::FDiv) return fpDiv(a, b);
  FpVal fa = fpOf(a), fb = fpOf(b), r;
  if (op == Instruction::FMul) {
    r.N = F->mul(fa.N, fb.N);
    r.D = isOne(fa.D) ? fb.D : isOne(fb.D) ? fa.D : F->mul(fa.D, fb.D);
    double c1 = fa.lo * fb.lo, c2 = fa.lo * fb.hi, c3 = fa.hi * fb.lo, c4 = fa.hi * fb.hi;
    r.lo = std::min(std::min(c1, c2), std::min(c3, c4)); r.hi = std::max(std::max(c1, c2), std::max(c3, c4));
    wid(r.lo, r.hi);
    r.nonneg = (fa.nonneg && fb.nonneg) || (sameFp(fa, fb) && ((fa.err == 0 && fb.err == 0) || a.s == b.s));
    if (r.nonneg && r.lo < 0) r.lo = 0;
    normFrac(r); tighten(r);
    double inh = fa.err == 0 && fb.err == 0 ? 0 : maxabs(fa) * fb.err + maxabs(fb) * fa.err + fa.err * fb.err;
    roundErr(r, inh);
    if (r.err > 0) r.zg = fa.err == 0 ? zeroGuard(fa) : fb.err == 0 ? zeroGuard(fb) : !fa.zg.empty() ? fa.zg : fb.zg;
    if (a.s && a.s == b.s && fa.err > 0) { r.sqn = 1; r.sqd = fa.err; }
    return mkFP(r);
  }
  r = fpSub(fa, fb, op == Instruction::FAdd ? 1 : -1);
  roundErr(r, fa.err + fb.err);
  if (r.err > 0) {
    r.zg = zeroGuard(fa);
    std::vector<Poly> g = zeroGuard(fb);
    if (r.zg.empty() || g.empty() || r.zg.size() + g.size() > 4) r.zg.clear();
    else r.zg.insert(r.zg.end(), g.begin(), g.end());
  }
  if (op == Instruction::FAdd && fa.sqn && fb.sqn) { r.sqn = fa.sqn + fb.sqn; r.sqd = std::max(fa.sqd, fb.sqd); }
  return mkFP(r);
}
static Val boolNot(Val const& v) { return v.s ? mkBool(!toBool(v)) : mk(!(v.c & 1)); }
static Val fpCmp(CmpInst::Predicate p, Val const& a, Val const& b) {
  if (p == CmpInst::FCMP_TRUE) return mk(1);
  if (p == CmpInst::FCMP_FALSE) return mk(0);
  bool spec = false; double x = 0, y = 0;
  if (!a.s) { x = asD(a.c); if (!std::isfinite(x)) spec = true; }
  if (!b.s) { y = asD(b.c); if (!std::isfinite(y)) spec = true; }
  if ((!a.s && !b.s) || spec) {
    if (a.s) x = 0;
    if (b.s) y = 0;
    bool un = std::isnan(x) || std::isnan(y), r;
    switch (p) {
      case CmpInst::FCMP_OEQ: r = x == y; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_UNE: r = un || x != y; break;
      case CmpInst::FCMP_OLT: r = x < y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_OLE: r = x <= y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break;
      case CmpInst::FCMP_OGT: r = x > y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_OGE: r = x >= y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      default: r = un; break;
    }
    return mk(r);
  }
  if (p == CmpInst::FCMP_ORD) return mk(1);
  if (p == CmpInst::FCMP_UNO) return mk(0);
  if (!a.s && x == 0) return fpCmp(CmpInst::getSwappedPredicate(p), b, a);
  FpVal fa = fpOf(a), fb = fpOf(b);
  bool exactEq = sameFp(fa, fb) && fa.err == 0 && fb.err == 0;
  if (a.s && b.s && a.s == b.s) exactEq = true;
  FpVal d = fpSub(fa, fb, -1);
  d.err = fa.err + fb.err;
  if (!b.s && y == 0) { d.nonneg = fa.nonneg; d.zg = fa.zg; }
  // sum of squares against a positive constant: only values near the constant can be misjudged
  for (int side = 0; side < 2; side++) {
    FpVal const& q = side ? fb : fa; double c = side ? x : y;
    if ((side ? a.s : b.s) || !q.sqn || q.sqn > 3 || !(c > 0) || q.sqd > 0.05 * std::sqrt(c)) continue;
    double E = q.sqn * (4 * std::sqrt(c) * q.sqd + q.sqd * q.sqd) + 40 * EPS * c;
    if (E < c) d.err = std::min(d.err, E);
  }
  if (exactEq) { d.N = Poly(); d.err = 0; d.lo = d.hi = 0; d.D = Poly(mpq_class(1)); }
  switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fpCmpZero(d, EQ);
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return boolNot(fpCmpZero(d, EQ));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fpCmpZero(d, LT);
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fpCmpZero(d, LE);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return boolNot(fpCmpZero(d, LE));
    default: return boolNot(fpCmpZero(d, LT));
  }
}
// |a-b| <= tol, without branching
static Val fpClose(Val const& a, Val const& b, double tol) {
  Val d = fpBin(Instruction::FSub, a, b);
  if (!d.s) return mk(std::fabs(asD(d.c)) <= tol);
  // the native difference may be off by the accumulated error; treat the test on the exact
  // difference with the error counted against the claim
  FpVal f = *d.s->f;
  if (f.err > tol) engineError("rounding error bound exceeds the tolerance of a closeness check");
  if (f.hi + f.err <= tol && f.lo - f.err >= -tol) return mk(1);
  mpq_class t = roundPow2(tol - f.err, false);
  return mkBool(relConst(f, LE, t) && !relConst(f, LT, -t));
}
static Val fpAbs(Val const& v) {
  if (!v.s) return mk(v.c & ~(1ull << 63));
  FpVal f = *v.s->f;
  if (f.nonneg) return v;
  Val ng = fpCmpZero(f, LT);
  Val r = decideV(ng) ? fpNeg(v) : v;
  if (r.s) { FpVal g = *r.s->f; if (g.err == 0) g.nonneg = true; applyRange(g); r = mkFP(g); }
  return r;
}
static Val fpPow(Val const& a, Val const& b) {
  if (!a.s && !b.s) return mk(fromD(std::pow(asD(a.c), asD(b.c))));
  if (b.s) engineError("pow with symbolic exponent");
  double e = asD(b.c);
  double n = std::floor(std::fabs(e));
  if (std::fabs(e) - n != 0 && std::fabs(e) - n != 0.5 || n > 8) engineError("pow with unsupported exponent");
  Val x = mk(fromD(1.0));
  for (int i = 0; i < (int)n; i++) x = fpBin(Instruction::FMul, x, a);
  if (std::fabs(e) != n) x = n ? fpBin(Instruction::FMul, x, fpSqrt(a)) : fpSqrt(a);
  return e < 0 ? fpBin(Instruction::FDiv, mk(fromD(1.0)), x) : x;
}
// integer part in the given rounding direction as a fresh integer variable; mode: 'f' floor, 'c' ceil, 't' trunc
static uint32_t roundVar(FpVal const& f, char mode) {
  double lo = f.lo - f.err, hi = f.hi + f.err;
  mpz_class l, h;
  { mpf_class x(lo), y(hi); mpf_class fx = floor(x), cy = ceil(y); l = mpz_class(fx); h = mpz_class(cy); }
  uint32_t v = F->newIntVar("round" + std::to_string(F->vars.size()), l - 1, h + 1, false);
  Var& vv = F->vars[v];
  unsigned bw = vv.u.get_sort().bv_size();
  mpz_class rng = vv.hi - vv.lo;
  addConstraint(z3::ule(vv.u, C.bv_val(rng.get_str().c_str(), bw)));
  // t = v * D - N relation: with err e
  Poly vD = F->mul(F->var(v), f.D);
  auto geq = [&](Poly const& n, mpq_class c) { return !fracCond(Fp::add(n, Fp::scale(f.D, c), -1), f.D, LT); };  // n/D >= c
  auto gt = [&](Poly const& n, mpq_class c) { return !fracCond(Fp::add(n, Fp::scale(f.D, c), -1), f.D, LE); };
  Poly diff = Fp::add(f.N, vD, -1);  // R - v (times D)
  Poly ndiff = Fp::scale(diff, -1);
  mpq_class e = qd(f.err);
  z3::expr fl = geq(diff, -e) && (f.err == 0 ? gt(ndiff, -1) : geq(ndiff, -1 - e));   // v <= R < v+1
  z3::expr ce = geq(ndiff, -e) && (f.err == 0 ? gt(diff, -1) : geq(diff, -1 - e));    // v >= R > v-1
  if (mode == 'f') addConstraint(fl);
  else if (mode == 'c') addConstraint(ce);
  else {
    if (f.lo >= 0 || f.nonneg) addConstraint(fl);
    else {
      z3::expr neg = fracCond(f.N, f.D, LT);
      addConstraint(z3::ite(neg, ce, fl));
    }
  }
  return v;
}
static std::map<unsigned, uint32_t> astVar;  // z3 ast id of a bit-vector -> integer variable
static std::vector<z3::expr> keepAlive;
static FpVal fpFromVar(uint32_t v) {
  FpVal f; f.N = F->var(v); f.D = Poly(mpq_class(1));
  f.lo = F->vars[v].blo; f.hi = F->vars[v].bhi; wid(f.lo, f.hi);
  f.nonneg = F->vars[v].lo >= 0;
  return f;
}
static Val intToFP(Val const& v, unsigned w, bool sgn) {
  if (!v.s) return mk(fromD(sgn ? (double)sx(v.c, w) : (double)v.c));
  if (v.s->k == SBOOL) {
    uint32_t id = F->newIntVar("b2d" + std::to_string(F->vars.size()), 0, 1, false);
    addConstraint((F->vars[id].u == C.bv_val(1, 1)) == v.s->e);
    return mkFP(fpFromVar(id));
  }
  z3::expr e = toBV(v, w);
  auto it = astVar.find(Z3_get_ast_id(C, e));
  if (it != astVar.end()) return mkFP(fpFromVar(it->second));
  // find bounds
  i64 lo = 0, hi = 0;
  bool fits = false;
  z3::expr es = sgn ? z3::sext(e, 64 - w + 2) : z3::zext(e, 64 - w + 2);
  unsigned W = 66;
  for (int k = 1; k <= 40; k += 3) {
    i64 b = (i64)1 << k;
    z3::expr out = z3::sgt(es, C.bv_val((int64_t)b, W)) || z3::slt(es, C.bv_val((int64_t)-b, W));
    if (checkWith(out.simplify()) == z3::unsat) { lo = -b; hi = b; fits = true; break; }
  }
  if (!fits) engineError("unbounded integer converted to double");
  if (checkWith(z3::slt(es, C.bv_val((int64_t)0, W)).simplify()) == z3::unsat) lo = 0;
  uint32_t id = F->newIntVar("i2d" + std::to_string(F->vars.size()), mpz_class((long)lo), mpz_class((long)hi), false);
  addConstraint(F->varBV(id, W) == es);
  astVar[Z3_get_ast_id(C, e)] = id;
  keepAlive.push_back(e);
  return mkFP(fpFromVar(id));
}
static Val fpToInt(Val const& v, unsigned w, bool sgn) {
  if (!v.s) { double d = asD(v.c); return mk(maskw(sgn ? (u64)(i64)d : (u64)d, w)); }
  FpVal f = *v.s->f;
  int k;
  bool intval = isOne(f.D) && f.err == 0 && F->dyadic(f.N, &k) && k <= 0;
  if (f.lo < -9.2e18 || f.hi > 9.2e18) engineError("double to integer out of range");
  if (intval) return mkBV(F->polyBV(f.N, 64 > w ? 64 : w).extract(w - 1, 0));
  uint32_t id = roundVar(f, 't');
  z3::expr e = F->varBV(id, w).simplify();
  astVar[Z3_get_ast_id(C, e)] = id; keepAlive.push_back(e);
  return mkBV(e);
}
static Val fpRound(Val const& v, char mode) {
  if (mode == 'r') {   // to nearest, halves away from zero
    if (!v.s) return mk(fromD(std::round(asD(v.c))));
    Val h = mk(fromD(0.5));
    if (decideV(fpCmpZero(fpOf(v), LT))) return fpNeg(fpRound(fpBin(Instruction::FAdd, fpNeg(v), h), 'f'));
    return fpRound(fpBin(Instruction::FAdd, v, h), 'f');
  }
  if (!v.s) {
    double d = asD(v.c);
    return mk(fromD(mode == 'f' ? std::floor(d) : mode == 'c' ? std::ceil(d) : std::trunc(d)));
  }
  FpVal f = *v.s->f; int k;
  if (isOne(f.D) && f.err == 0 && F->dyadic(f.N, &k) && k <= 0) return v;
  return mkFP(fpFromVar(roundVar(f, mode)));
}

#include "interp.inc"
