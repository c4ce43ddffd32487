// Exact real semantics for symbolic doubles: quotients of polynomials with
// rational coefficients over integer-valued solver variables and square roots,
// with a bound on the rounding error of the double the program computes.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>

typedef std::vector<std::pair<uint32_t, uint32_t>> Mono;  // (var, exponent), sorted by var

struct Poly {
  std::map<Mono, mpq_class> t;
  Poly() {}
  explicit Poly(mpq_class const& c) { if (c != 0) t[Mono()] = c; }
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
  mpq_class constVal() const {
    auto it = t.find(Mono());
    return it == t.end() ? mpq_class(0) : it->second;
  }
  bool operator==(Poly const& o) const { return t == o.t; }
  bool operator<(Poly const& o) const { return t < o.t; }
};

struct Var {
  bool isSqrt = false;
  std::string name;       // input name (integer variables)
  bool isInput = false;
  mpz_class lo, hi;       // integer variables: inclusive bounds
  z3::expr u;             // integer variables: value == lo + zext(u)
  Poly radicand;          // square-root variables: value == sqrt(radicand) >= 0
  double blo = 0, bhi = 0;
  explicit Var(z3::context& c) : u(c) {}
};

struct FpVal {
  Poly N, D;
  double err = 0;         // |program's double - N/D| <= err
  double lo = 0, hi = 0;  // N/D lies in [lo, hi]
  bool nonneg = false;    // N/D >= 0 and the computed double >= 0 are known
  int sqn = 0;            // > 0: a sum of sqn squares of values known up to sqd
  double sqd = 0;
  std::vector<Poly> zg;   // if not empty: the computed double is exactly 0 where all of these vanish
};

enum Rel { LT, LE, EQ };

class Fp {
 public:
  z3::context& C;
  std::vector<Var> vars;
  explicit Fp(z3::context& c) : C(c) {}

  uint32_t newIntVar(std::string const& name, mpz_class lo, mpz_class hi, bool isInput);
  z3::expr varBV(uint32_t v, unsigned width);      // two's complement value in width bits
  static unsigned needBits(mpz_class const& lo, mpz_class const& hi);

  static Poly add(Poly const& a, Poly const& b, int sign = 1);
  Poly mul(Poly const& a, Poly const& b);
  static Poly scale(Poly const& a, mpq_class const& c);
  Poly var(uint32_t v) { Poly p; p.t[Mono{{v, 1}}] = 1; return p; }
  bool divides(Poly const& num, Poly const& den, Poly* quot);
  bool perfectSquare(Poly const& p, Poly* root);
  bool hasSqrt(Poly const& p) const;

  void itv(Poly const& p, double* lo, double* hi);
  z3::expr cond(Poly const& p, Rel rel);           // p rel 0
  static void content(Poly const& p, Poly* q, mpq_class* f);
  bool dyadic(Poly const& p, int* k) const;         // all coefficients multiples of 2^-k; no roots
  z3::expr polyBV(Poly const& p, unsigned width);  // integer polynomial value in width bits
  void intRange(Poly const& p, mpz_class* lo, mpz_class* hi);
  uint32_t sqrtVar(Poly const& intPoly);           // square-free content, integer coefficients
  double evalPoly(Poly const& p, std::vector<mpz_class> const& assign);
  mpf_class evalPolyHi(Poly const& p, std::vector<mpz_class> const& assign);

 private:
  struct BVE { z3::expr e; unsigned w; mpz_class lo, hi; };
  BVE build(std::vector<std::pair<Mono, mpz_class>> const& terms);
  std::map<std::vector<std::pair<Mono, mpz_class>>, BVE> bveCache;
  std::map<Poly, uint32_t> sqrtCache;
};
