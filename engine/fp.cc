#include "fp.h"
#include <algorithm>
#include <stdexcept>

unsigned Fp::needBits(mpz_class const& lo, mpz_class const& hi) {
  // smallest w such that lo, hi fit in signed w bits
  unsigned w = 1;
  auto bits = [](mpz_class const& v) -> unsigned {
    if (v >= 0) return v == 0 ? 1 : mpz_sizeinbase(v.get_mpz_t(), 2) + 1;
    mpz_class m = -v - 1;
    return m == 0 ? 1 : mpz_sizeinbase(m.get_mpz_t(), 2) + 1;
  };
  return std::max(w, std::max(bits(lo), bits(hi)));
}

uint32_t Fp::newIntVar(std::string const& name, mpz_class lo, mpz_class hi, bool isInput) {
  Var v(C);
  v.name = name; v.lo = lo; v.hi = hi; v.isInput = isInput;
  mpz_class range = hi - lo;
  unsigned b = range == 0 ? 1 : mpz_sizeinbase(range.get_mpz_t(), 2);
  v.u = C.bv_const(("u_" + std::to_string(vars.size()) + "_" + name).c_str(), b);
  v.blo = lo.get_d(); v.bhi = hi.get_d();
  vars.push_back(v);
  return vars.size() - 1;
}

z3::expr Fp::varBV(uint32_t id, unsigned width) {
  Var& v = vars[id];
  unsigned b = v.u.get_sort().bv_size();
  z3::expr e = b < width ? z3::zext(v.u, width - b) : (b == width ? v.u : v.u.extract(width - 1, 0));
  if (v.lo == 0) return e;
  mpz_class m = v.lo;
  mpz_class mod = mpz_class(1) << width;
  m = ((m % mod) + mod) % mod;
  return e + C.bv_val(m.get_str().c_str(), width);
}

Poly Fp::add(Poly const& a, Poly const& b, int sign) {
  Poly r = a;
  for (auto const& kv : b.t) {
    mpq_class& c = r.t[kv.first];
    if (sign > 0) c += kv.second; else c -= kv.second;
    if (c == 0) r.t.erase(kv.first);
  }
  return r;
}
Poly Fp::scale(Poly const& a, mpq_class const& c) {
  Poly r;
  if (c == 0) return r;
  for (auto const& kv : a.t) r.t[kv.first] = kv.second * c;
  return r;
}

Poly Fp::mul(Poly const& a, Poly const& b) {
  Poly r;
  std::vector<std::pair<Mono, mpq_class>> deferred;
  for (auto const& x : a.t)
    for (auto const& y : b.t) {
      Mono m;
      size_t i = 0, j = 0;
      std::vector<uint32_t> expand;  // sqrt vars whose square must be replaced
      auto push = [&](uint32_t v, uint32_t e) {
        if (vars[v].isSqrt) {
          for (uint32_t k = 0; k < e / 2; k++) expand.push_back(v);
          if (e % 2) m.push_back({v, 1});
        } else if (vars[v].lo == 0 && vars[v].hi == 1) {
          m.push_back({v, 1});
        } else {
          m.push_back({v, e});
        }
      };
      while (i < x.first.size() || j < y.first.size()) {
        if (j >= y.first.size() || (i < x.first.size() && x.first[i].first < y.first[j].first)) {
          push(x.first[i].first, x.first[i].second); i++;
        } else if (i >= x.first.size() || y.first[j].first < x.first[i].first) {
          push(y.first[j].first, y.first[j].second); j++;
        } else {
          push(x.first[i].first, x.first[i].second + y.first[j].second); i++; j++;
        }
      }
      mpq_class c = x.second * y.second;
      if (expand.empty()) {
        mpq_class& d = r.t[m];
        d += c;
        if (d == 0) r.t.erase(m);
      } else {
        Poly p;
        p.t[m] = c;
        for (uint32_t v : expand) p = mul(p, vars[v].radicand);
        r = add(r, p);
      }
    }
  return r;
}

bool Fp::hasSqrt(Poly const& p) const {
  for (auto const& kv : p.t)
    for (auto const& ve : kv.first)
      if (vars[ve.first].isSqrt) return true;
  return false;
}

// Graded order used for division and square roots: compare total degree, then map order.
static uint32_t deg(Mono const& m) { uint32_t d = 0; for (auto const& x : m) d += x.second; return d; }
static bool lexLess(Mono const& a, Mono const& b) {
  // true graded-lex comparison (a monomial order)
  uint32_t da = deg(a), db = deg(b);
  if (da != db) return da < db;
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (a[i].first != b[j].first) return a[i].first > b[j].first;  // the one with the smaller var is larger
    if (a[i].second != b[j].second) return a[i].second < b[j].second;
    i++; j++;
  }
  return false;
}
static Mono const& leadMono(Poly const& p) {
  Mono const* best = nullptr;
  for (auto const& kv : p.t) if (!best || lexLess(*best, kv.first)) best = &kv.first;
  return *best;
}
static bool monoDiv(Mono const& a, Mono const& b, Mono* q) {
  q->clear();
  size_t j = 0;
  for (auto const& x : a) {
    uint32_t e = x.second;
    if (j < b.size() && b[j].first == x.first) {
      if (b[j].second > e) return false;
      e -= b[j].second; j++;
    } else if (j < b.size() && b[j].first < x.first) return false;
    if (e) q->push_back({x.first, e});
  }
  return j == b.size();
}
static bool plainVars(Fp* f, Poly const& p) {
  // ordinary polynomial ring only: no roots, no 0/1 variables (x^2 == x)
  for (auto const& kv : p.t)
    for (auto const& ve : kv.first) {
      Var const& v = f->vars[ve.first];
      if (v.isSqrt || (v.lo == 0 && v.hi == 1)) return false;
    }
  return true;
}
bool Fp::divides(Poly const& num, Poly const& den, Poly* quot) {
  if (den.isZero() || den.t.size() > 60 || num.t.size() > 400) return false;
  if (!plainVars(this, num) || !plainVars(this, den)) return false;
  Poly r = num, q;
  Mono const lm = leadMono(den);
  mpq_class lc = den.t.at(lm);
  int steps = 0;
  while (!r.isZero()) {
    if (++steps > 400) return false;
    Mono const rm = leadMono(r);
    Mono d;
    if (!monoDiv(rm, lm, &d)) return false;
    Poly t;
    t.t[d] = r.t.at(rm) / lc;
    q = add(q, t);
    r = add(r, mul(t, den), -1);
  }
  *quot = q;
  return true;
}
bool Fp::perfectSquare(Poly const& p, Poly* root) {
  if (p.isZero()) { *root = p; return true; }
  if (p.t.size() > 200 || !plainVars(this, p)) return false;
  // leading term must be a square
  auto sqrtq = [](mpq_class const& c, mpq_class* r) {
    if (c < 0) return false;
    mpz_class n = c.get_num(), d = c.get_den();
    if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
    mpz_class a, b; mpz_sqrt(a.get_mpz_t(), n.get_mpz_t()); mpz_sqrt(b.get_mpz_t(), d.get_mpz_t());
    *r = mpq_class(a, b); r->canonicalize();
    return true;
  };
  Mono lm = leadMono(p), hm;
  for (auto const& x : lm) { if (x.second % 2) return false; hm.push_back({x.first, x.second / 2}); }
  mpq_class hc;
  if (!sqrtq(p.t.at(lm), &hc)) return false;
  Poly r; r.t[hm] = hc;
  Poly rem = add(p, mul(r, r), -1);
  int steps = 0;
  while (!rem.isZero()) {
    if (++steps > 60) return false;
    Mono m = leadMono(rem), d;
    if (!monoDiv(m, hm, &d)) return false;
    if (!lexLess(d, hm)) return false;
    Poly t; t.t[d] = rem.t.at(m) / (2 * hc);
    // rem -= 2 r t + t^2
    rem = add(rem, scale(mul(r, t), 2), -1);
    rem = add(rem, mul(t, t), -1);
    r = add(r, t);
  }
  *root = r;
  return true;
}

static void widen(double* lo, double* hi) {
  *lo -= std::fabs(*lo) * 4e-16 + 1e-300;
  *hi += std::fabs(*hi) * 4e-16 + 1e-300;
}
void Fp::itv(Poly const& p, double* lo, double* hi) {
  double L = 0, H = 0;
  for (auto const& kv : p.t) {
    double l = 1, h = 1;
    for (auto const& ve : kv.first) {
      double a = vars[ve.first].blo, b = vars[ve.first].bhi;
      double pl, ph;
      if (ve.second % 2 == 0) {
        double m1 = std::pow(std::fabs(a), ve.second), m2 = std::pow(std::fabs(b), ve.second);
        pl = (a <= 0 && b >= 0) ? 0 : std::min(m1, m2);
        ph = std::max(m1, m2);
      } else {
        pl = std::pow(a, ve.second); ph = std::pow(b, ve.second);
      }
      widen(&pl, &ph);
      double c1 = l * pl, c2 = l * ph, c3 = h * pl, c4 = h * ph;
      l = std::min(std::min(c1, c2), std::min(c3, c4));
      h = std::max(std::max(c1, c2), std::max(c3, c4));
      widen(&l, &h);
    }
    double c = kv.second.get_d();
    double cl = c, ch = c;
    widen(&cl, &ch);
    double c1 = l * cl, c2 = l * ch, c3 = h * cl, c4 = h * ch;
    l = std::min(std::min(c1, c2), std::min(c3, c4));
    h = std::max(std::max(c1, c2), std::max(c3, c4));
    L += l; H += h;
    widen(&L, &H);
  }
  *lo = L; *hi = H;
}

bool Fp::dyadic(Poly const& p, int* k) const {
  int kk = -100000;
  for (auto const& kv : p.t) {
    for (auto const& ve : kv.first) if (vars[ve.first].isSqrt) return false;
    mpz_class d = kv.second.get_den();
    size_t tz = mpz_scan1(d.get_mpz_t(), 0);
    if (mpz_sizeinbase(d.get_mpz_t(), 2) != tz + 1) return false;
    int e = (int)tz;
    if (e == 0) {
      size_t z = mpz_scan1(kv.second.get_num().get_mpz_t(), 0);
      e = -(int)z;
    }
    kk = std::max(kk, e);
  }
  *k = kk == -100000 ? 0 : kk;
  return true;
}

Fp::BVE Fp::build(std::vector<std::pair<Mono, mpz_class>> const& terms) {
  auto cst = [&](mpz_class const& c) {
    unsigned w = needBits(c, c);
    mpz_class mod = mpz_class(1) << w;
    mpz_class m = ((c % mod) + mod) % mod;
    return BVE{C.bv_val(m.get_str().c_str(), w), w, c, c};
  };
  if (terms.empty()) return cst(0);
  if (terms.size() == 1 && terms[0].first.empty()) return cst(terms[0].second);
  auto it = bveCache.find(terms);
  if (it != bveCache.end()) return it->second;
  auto fit = [&](BVE const& b, unsigned w) {
    if (w == b.w) return b.e;
    if (w > b.w) return z3::sext(b.e, w - b.w);
    return b.e.extract(w - 1, 0);
  };
  // most frequent variable
  std::map<uint32_t, int> cnt;
  for (auto const& t : terms) for (auto const& ve : t.first) cnt[ve.first]++;
  uint32_t bv = cnt.begin()->first; int bc = 0;
  for (auto const& c : cnt) if (c.second > bc) { bc = c.second; bv = c.first; }
  std::vector<std::pair<Mono, mpz_class>> A, B;
  for (auto const& t : terms) {
    bool has = false;
    Mono m;
    for (auto const& ve : t.first) {
      if (ve.first == bv) { has = true; if (ve.second > 1) m.push_back({ve.first, ve.second - 1}); }
      else m.push_back(ve);
    }
    if (has) A.push_back({m, t.second}); else B.push_back(t);
  }
  BVE a = build(A);
  Var& v = vars[bv];
  unsigned wx = needBits(v.lo, v.hi);
  BVE x{varBV(bv, wx), wx, v.lo, v.hi};
  // a * x
  mpz_class c1 = a.lo * x.lo, c2 = a.lo * x.hi, c3 = a.hi * x.lo, c4 = a.hi * x.hi;
  mpz_class lo = std::min(std::min(c1, c2), std::min(c3, c4)), hi = std::max(std::max(c1, c2), std::max(c3, c4));
  unsigned w = needBits(lo, hi);
  BVE prod{C.bv_val(0, 1), w, lo, hi};
  if (a.lo == a.hi && a.lo == 1) prod.e = fit(x, w);
  else prod.e = fit(a, w) * fit(x, w);
  BVE r = prod;
  if (!B.empty()) {
    BVE b = build(B);
    mpz_class l2 = lo + b.lo, h2 = hi + b.hi;
    unsigned w2 = needBits(l2, h2);
    r = BVE{fit(prod, w2) + fit(b, w2), w2, l2, h2};
  }
  bveCache.emplace(terms, r);
  return r;
}

static std::vector<std::pair<Mono, mpz_class>> intTerms(Poly const& p) {
  std::vector<std::pair<Mono, mpz_class>> v;
  for (auto const& kv : p.t) {
    if (kv.second.get_den() != 1) throw std::runtime_error("intTerms: not integer");
    v.push_back({kv.first, kv.second.get_num()});
  }
  return v;
}
z3::expr Fp::polyBV(Poly const& p, unsigned width) {
  BVE b = build(intTerms(p));
  if (b.w < width) return z3::sext(b.e, width - b.w);
  if (b.w > width) return b.e.extract(width - 1, 0);
  return b.e;
}
void Fp::intRange(Poly const& p, mpz_class* lo, mpz_class* hi) {
  BVE b = build(intTerms(p));
  *lo = b.lo; *hi = b.hi;
}

// non-constant part of p is q / f, q with coprime integer coefficients, f > 0
void Fp::content(Poly const& p, Poly* q, mpq_class* f) {
  mpz_class lcm = 1, g = 0;
  for (auto const& kv : p.t) {
    if (kv.first.empty()) continue;
    mpz_class l; mpz_lcm(l.get_mpz_t(), lcm.get_mpz_t(), kv.second.get_den().get_mpz_t()); lcm = l;
  }
  for (auto const& kv : p.t) {
    if (kv.first.empty()) continue;
    mpq_class c = kv.second * lcm;
    mpz_class gg; mpz_gcd(gg.get_mpz_t(), g.get_mpz_t(), c.get_num().get_mpz_t()); g = gg;
  }
  *f = mpq_class(lcm, g); f->canonicalize();
  for (auto const& kv : p.t) if (!kv.first.empty()) q->t[kv.first] = kv.second * *f;
}
z3::expr Fp::cond(Poly const& p, Rel rel) {
  if (p.isConst()) {
    mpq_class c = p.constVal();
    bool r = rel == LT ? c < 0 : rel == LE ? c <= 0 : c == 0;
    return C.bool_val(r);
  }
  // eliminate square roots, newest first
  uint32_t sv = 0; bool has = false;
  for (auto const& kv : p.t)
    for (auto const& ve : kv.first)
      if (vars[ve.first].isSqrt && (!has || ve.first > sv)) { sv = ve.first; has = true; }
  if (has) {
    double lo, hi;
    itv(p, &lo, &hi);
    if (rel == LT) { if (hi < 0) return C.bool_val(true); if (lo > 0) return C.bool_val(false); }
    if (rel == LE) { if (hi < 0) return C.bool_val(true); if (lo > 0) return C.bool_val(false); }
    if (rel == EQ) { if (hi < 0 || lo > 0) return C.bool_val(false); }
    Poly A, B;
    for (auto const& kv : p.t) {
      Mono m; bool h = false;
      for (auto const& ve : kv.first) if (ve.first == sv) h = true; else m.push_back(ve);
      if (h) B.t[m] = kv.second; else A.t[m] = kv.second;
    }
    Poly const P = vars[sv].radicand;
    Poly A2 = mul(A, A), B2P = mul(mul(B, B), P);
    if (P.isConst() && A.isConst() && !A.isZero() && !hasSqrt(B) && !B.isConst()) {
      // B sqrt(k) + a rel 0  with constants a != 0, k > 0 (sqrt(k) irrational): B stays below an irrational bound
      if (rel == EQ) return C.bool_val(false);
      Poly q; mpq_class f;
      content(B, &q, &f);
      mpf_class bound = (-mpf_class(A.constVal(), 512) / sqrt(mpf_class(P.constVal(), 512)) - mpf_class(B.constVal(), 512)) * mpf_class(f, 512);
      mpf_class fl = floor(bound), fr = bound - fl;
      if (fr > 1e-60 && fr < 1 - 1e-60) return cond(add(q, Poly(mpq_class(mpz_class(fl))), -1), LE);
    }
    Poly diff = add(B2P, A2, -1);  // B^2 P - A^2
    if (A.isZero()) {  // sign of B (where P == 0 the value is 0)
      if (rel == EQ) return cond(B, EQ) || cond(P, EQ);
      if (rel == LT) return cond(B, LT) && !cond(P, LE);
      return cond(B, LE) || cond(P, LE);
    }
    if (rel == EQ) return cond(diff, EQ) && cond(mul(A, B), LE);
    z3::expr An = cond(A, LT), Al = cond(A, LE), Bn = cond(B, LT), Bl = cond(B, LE);
    if (rel == LT)
      return (An && Bl) || (An && !Bl && cond(diff, LT)) ||
             (!An && Bn && cond(scale(diff, -1), LT));
    return (Al && Bl) || (Al && !Bl && cond(diff, LE)) ||
           (!Al && Bn && cond(scale(diff, -1), LE));
  }
  // q = sum of non-constant terms, integer coefficients with gcd 1;  q rel bound
  Poly q; mpq_class f;
  content(p, &q, &f);
  mpq_class bound = -(p.constVal() * f);
  mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), bound.get_num().get_mpz_t(), bound.get_den().get_mpz_t());
  bool isInt = bound.get_den() == 1;
  if (rel == EQ && !isInt) return C.bool_val(false);
  mpz_class b = fl;                    // LE: q <= floor(bound)
  if (rel == LT && isInt) b = fl - 1;  // LT: q <= ceil(bound)-1
  // EQ canonical sign: make the first coefficient positive
  if (rel == EQ && q.t.begin()->second < 0) { q = scale(q, -1); b = -b; }
  // canonical sign for inequalities too:  q <= b  iff  not (-q <= -b-1)
  if (rel != EQ && q.t.begin()->second < 0) {
    Poly nq = scale(q, -1);
    return !cond(add(nq, Poly(mpq_class(b + 1))), LE);
  }
  BVE e = build(intTerms(q));
  if (rel == EQ) {
    if (b < e.lo || b > e.hi) return C.bool_val(false);
  } else {
    if (e.hi <= b) return C.bool_val(true);
    if (e.lo > b) return C.bool_val(false);
  }
  mpz_class mod = mpz_class(1) << e.w;
  mpz_class m = ((b % mod) + mod) % mod;
  z3::expr bvc = C.bv_val(m.get_str().c_str(), e.w);
  if (rel == EQ) {
    bool lin = true;
    for (auto const& kv : q.t) if (kv.first.size() > 1 || (kv.first.size() == 1 && kv.first[0].second > 1)) lin = false;
    if (lin) return e.e == bvc;
    Poly qb = add(q, Poly(mpq_class(b)), -1);
    return cond(qb, LE) && !cond(qb, LT);  // shares its atoms with inequalities on the same polynomial
  }
  return z3::sle(e.e, bvc);
}

uint32_t Fp::sqrtVar(Poly const& P) {
  auto it = sqrtCache.find(P);
  if (it != sqrtCache.end()) return it->second;
  Var v(C);
  v.isSqrt = true; v.radicand = P; v.name = "sqrt";
  double lo, hi;
  itv(P, &lo, &hi);
  v.blo = lo > 0 ? std::sqrt(lo) : 0;
  v.bhi = hi > 0 ? std::sqrt(hi) : 0;
  widen(&v.blo, &v.bhi);
  if (v.blo < 0) v.blo = 0;
  vars.push_back(v);
  sqrtCache[P] = vars.size() - 1;
  return vars.size() - 1;
}

mpf_class Fp::evalPolyHi(Poly const& p, std::vector<mpz_class> const& assign) {
  mpf_class s(0, 256);
  for (auto const& kv : p.t) {
    mpf_class m(kv.second, 256);
    for (auto const& ve : kv.first) {
      mpf_class x(0, 256);
      if (vars[ve.first].isSqrt) {
        mpf_class r = evalPolyHi(vars[ve.first].radicand, assign);
        if (r < 0) r = 0;
        x = sqrt(r);
      } else x = mpf_class(assign[ve.first], 256);
      for (uint32_t k = 0; k < ve.second; k++) m *= x;
    }
    s += m;
  }
  return s;
}
double Fp::evalPoly(Poly const& p, std::vector<mpz_class> const& assign) { return evalPolyHi(p, assign).get_d(); }
