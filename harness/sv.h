// Interface between the harnesses and the symbolic executor (engine/) or the
// native replay runtime (sv_native.cc).
#pragma once
#include <cstddef>
#include <stddef.h>
extern "C" {
int sv_int(const char* name, int lo, int hi);              // symbolic integer in [lo,hi]
bool sv_bool(const char* name);                            // symbolic truth value
double sv_grid(const char* name, int lo, int hi, int log2den);  // k / 2^log2den, k symbolic in [lo,hi]
int sv_concretize(int v);                                  // one path per feasible value
void sv_assume(bool c);
void sv_check(bool c, const char* label);                  // assertion decided by the solver
void sv_check_close(double a, double b, double tol, const char* label);
bool sv_close(double a, double b, double tol);
void sv_cover(const char* label);
void sv_obs_i(const char* name, long v);                   // observed value, compared with the native run
void sv_obs_d(const char* name, double v);
void sv_expect_abort(int on);
void sv_end();
int sv_symbolic();
void sv_print(const char* s, long v);
void sv_print_d(const char* s, double v);
void sv_main();
}
