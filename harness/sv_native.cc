// Native runtime: runs the same harness, compiled together with the real
// sources, on concrete inputs (one line "name#k=value;..." per run).
#include "sv.h"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <map>
#include <string>
static std::map<std::string, long> in;
static std::map<std::string, int> cnt;
static FILE* out;
static bool expAbort = false;
static long get(const char* name, long lo, long hi) {
  std::string k = std::string(name) + "#" + std::to_string(cnt[name]++);
  auto it = in.find(k);
  long v = it == in.end() ? lo : it->second;
  if (v < lo || v > hi) { fprintf(out, "BAD-INPUT %s\n", k.c_str()); fflush(out); _exit(3); }
  return v;
}
extern "C" {
int sv_int(const char* n, int lo, int hi) { return get(n, lo, hi); }
bool sv_bool(const char* n) { return get(n, 0, 1); }
double sv_grid(const char* n, int lo, int hi, int k) { return std::ldexp((double)get(n, lo, hi), -k); }
int sv_concretize(int v) { return v; }
void sv_assume(bool c) { if (!c) { fprintf(out, "ASSUME-FALSE\n"); fflush(out); _exit(0); } }
void sv_check(bool c, const char* l) { if (!c) { fprintf(out, "CHECK-FAILED %s\n", l); fflush(out); } }
bool sv_close(double a, double b, double t) { return std::fabs(a - b) <= t; }
void sv_check_close(double a, double b, double t, const char* l) {
  if (!(std::fabs(a - b) <= t)) { fprintf(out, "CHECK-FAILED %s (%.17g vs %.17g)\n", l, a, b); fflush(out); }
}
void sv_cover(const char* l) { }
void sv_obs_i(const char* n, long v) { fprintf(out, "OBS %s i %ld\n", n, v); }
void sv_obs_d(const char* n, double v) { fprintf(out, "OBS %s d %.17g\n", n, v); }
void sv_expect_abort(int on) { expAbort = on; }
void sv_end() { fprintf(out, "END\n"); fflush(out); _exit(0); }
int sv_symbolic() { return 0; }
void sv_print(const char* s, long v) { fprintf(out, "PRINT %s %ld\n", s, v); }
void sv_print_d(const char* s, double v) { fprintf(out, "PRINT %s %.17g\n", s, v); }
}
static void onAbort(int) {
  fprintf(out, expAbort ? "END\n" : "CRASH abort\n"); fflush(out); _exit(expAbort ? 0 : 4);
}
int main(int argc, char** argv) {
  out = fdopen(dup(1), "w");
  freopen("/dev/null", "w", stdout);
  if (!getenv("SV_KEEP_STDERR")) freopen("/dev/null", "w", stderr);
  std::string line;
  int n = 0;
  while (std::getline(std::cin, line)) {
    fprintf(out, "RUN %d\n", n++); fflush(out);
    pid_t p = fork();
    if (p == 0) {
      signal(SIGABRT, onAbort);
      alarm(argc > 1 ? atoi(argv[1]) : 120);
      size_t i = 0;
      while (i < line.size()) {
        size_t e = line.find('=', i), f = line.find(';', i);
        if (e == std::string::npos || f == std::string::npos) break;
        in[line.substr(i, e - i)] = atol(line.substr(e + 1, f - e - 1).c_str());
        i = f + 1;
      }
      try { sv_main(); }
      catch (std::exception const& e) { fprintf(out, "CRASH uncaught %s\n", typeid(e).name()); fflush(out); _exit(5); }
      catch (...) { fprintf(out, "CRASH uncaught\n"); fflush(out); _exit(5); }
      fprintf(out, "END\n"); fflush(out);
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) fprintf(out, "CRASH signal %d\n", WTERMSIG(st));
    else if (WEXITSTATUS(st) != 0) fprintf(out, "CRASH exit %d\n", WEXITSTATUS(st));
    fprintf(out, "DONE\n"); fflush(out);
  }
  return 0;
}
