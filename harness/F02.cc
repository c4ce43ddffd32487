// Error behaviour and messages.
//@ sources: geom err
//@ quick: -DLL=2 -DPP=2
//@ thorough: -DLL=3 -DPP=3
//@ bounds: any sequence of up to 3 mode selections (raise, abort, either spelling) followed by an error reported from the caller's own code, from a region, from the geometric model or as a non-message exception; messages made of up to 3 pieces (thorough 4), each an arbitrary printable string of up to 2 characters (thorough 3) (as C string, string object or appended data), an integer from -12..12 or the extremes, or one of seven doubles (later pieces: fewer numbers)
#include "sv.h"
#include <string>
#include <cstring>
#include <vector>
#include "errors.hh"
#include "BoxRegion.hh"
#include "LabeledSetRegion.hh"
#include "GeometricModel.hh"
using namespace JaliGeometry;
static std::string piece() {
  int n = sv_concretize(sv_int("len", 0, LL));
  std::string s(n, 'x');
  for (int i = 0; i < n; i++) s[i] = sv_int("ch", 32, 126);
  return s;
}
static bool eq(const char* a, std::string const& b) {
  for (size_t i = 0; i < b.size(); i++) if (a[i] != b[i]) return false;
  return a[b.size()] == 0;
}
static void messages() {
  std::string want;
  Errors::Message* m;
  int how = sv_concretize(sv_int("ctor", 0, 3));
  if (how == 0) m = new Errors::Message();
  else { want = piece(); m = how == 1 ? new Errors::Message(want.c_str()) : new Errors::Message(want); }
  int n = sv_concretize(sv_int("pieces", 0, how == 3 ? PP : 2));
  static const double D[7] = {0, 1, -2.5, 1e10, 1e-7, 0.1, 123456789.0};
  static const char* DS[7] = {"0", "1", "-2.5", "1e+10", "1e-07", "0.1", "1.23457e+08"};
  for (int i = 0; i < n; i++) {
    int k = sv_concretize(sv_int("kind", 0, 6));
    if (k < 4) {
      std::string s = piece();
      if (k == 0) *m << s.c_str(); else if (k == 1) *m << s; else if (k == 2) m->add_data(s.c_str()); else m->add_data(s);
      want = want + s;
    } else if (k < 6) {
      int v = sv_concretize(k == 4 ? sv_int("v", i ? -1 : -12, i ? 1 : 12) : sv_int("big", 0, i ? 0 : 3));
      if (k == 5) v = v == 0 ? 2147483647 : v == 1 ? -2147483647 - 1 : v == 2 ? 1000 : -99999;
      Errors::Message& r = (*m << v);
      sv_check(&r == m, "append-returns-the-message");
      std::string t; bool neg = v < 0; unsigned u = neg ? 0u - (unsigned)v : v;
      do { t.insert(t.begin(), '0' + u % 10); u /= 10; } while (u);
      want = want + (neg ? "-" : "") + t;
    } else {
      int v = sv_concretize(sv_int("d", i ? 2 : 0, i ? 3 : 6));
      *m << D[v];
      want = want + DS[v];
    }
  }
  sv_check(eq(m->what(), want), "message-is-its-pieces");
  Errors::Message c(*m);
  sv_check(eq(c.what(), want), "copy-has-the-same-text");
  try { Exceptions::Jali_throw(*m); sv_check(false, "raises"); }
  catch (Exceptions::Jali_exception& e) {
    sv_check(eq(e.what(), want), "thrown-message-has-the-text");
    sv_check(dynamic_cast<Errors::Message*>(&e) != nullptr, "thrown-type");
  }
  sv_obs_i("n", want.size());
}
extern "C" void sv_main() {
  if (sv_concretize(sv_bool("messages"))) { messages(); return; }
  Exceptions::Exception_action cur = Exceptions::RAISE;
  sv_check(Exceptions::exception_behavior() == cur, "raising-by-default");
  int n = sv_concretize(sv_int("switches", 0, 3));
  for (int i = 0; i < n; i++) {
    int s = sv_concretize(sv_int("switch", 0, 3));
    cur = s & 1 ? Exceptions::ABORT : Exceptions::RAISE;
    if (s == 0) Exceptions::set_exception_behavior_raise();
    if (s == 1) Exceptions::set_exception_behavior_abort();
    if (s > 1) Exceptions::set_exception_behavior(cur);
    sv_check(Exceptions::exception_behavior() == cur, "mode-reported-back");
  }
  int from = sv_concretize(sv_int("from", 0, 4));
  std::string txt = "lost " + piece();
  bool got = false;
  GeometricModel gm(2);
  LabeledSetRegion lab("l", 1, "CELL", "f", "g", "h");
  sv_expect_abort(cur == Exceptions::ABORT);
  try {
    if (from == 0) { Errors::Message m(txt); Exceptions::Jali_throw(m); }
    if (from == 1) BoxRegion r("b", 1, Point(0, 0), Point(1, 1, 1));
    if (from == 2) gm.Add_Region(&lab);
    if (from == 3) lab.inside(Point(0, 0));
    if (from == 4) Exceptions::Jali_throw(Errors::CutTimeStep());
    sv_check(false, "error-not-ignored");
  }
  catch (Errors::Message& m) { got = from != 4; if (from == 0) sv_check(eq(m.what(), txt), "exception-carries-the-message"); else sv_check(m.message_.size() > 10, "library-error-has-a-text"); }
  catch (Errors::CutTimeStep&) { got = from == 4; }
  sv_check(cur == Exceptions::RAISE, "abort-mode-ends-the-program");
  sv_check(got, "exception-arrives");
  sv_obs_i("from", from);
}
