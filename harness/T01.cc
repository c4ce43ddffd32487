// Block partitioning is an exact disjoint cover of the structured grid.
//@ sources: err block
//@ bounds: any number of blocks, an arbitrary cell of the grid; grid sizes
//@ bounds_quick: 1D n<=14, 2D nx,ny<=5, 3D nx,ny,nz<=3
//@ bounds_thorough: 1D n<=48, 2D nx,ny<=9, 3D nx,ny,nz<=5
//@ quick: -DN1=14 -DN2=5 -DN3=3
//@ thorough: -DN1=48 -DN2=9 -DN3=5
//@ engine: --steps 4000000
#include "sv.h"
#include <array>
#include <vector>
#include "block_partition.hh"

extern "C" void sv_main() {
  int dim = sv_concretize(sv_int("dim", 1, 3));
  int mx = dim == 1 ? N1 : dim == 2 ? N2 : N3;
  int nc[3] = {1, 1, 1};
  int total = 1;
  for (int i = 0; i < dim; i++) {
    nc[i] = sv_concretize(sv_int("n", 1, mx));
    total *= nc[i];
  }
  int nb = sv_int("blocks", -1, total + 2);
  double domain[6] = {0, 1, 0, 2, 0, 3};
  std::vector<std::array<int, 3>> start, num;
  int rc = Jali::block_partition_regular_mesh(dim, domain, nc, nb, &start, &num);
  if (nb < 1 || nb > total) {
    sv_cover("unusable-request");
    sv_check(rc == 0, "unusable-request-refused");
    return;
  }
  sv_check(rc == 1, "success-reported");
  sv_check((int)start.size() == nb && (int)num.size() == nb, "block-count");
  long vol = 0;
  for (size_t b = 0; b < num.size(); b++) {
    long v = 1;
    for (int d = 0; d < dim; d++) {
      sv_check(num[b][d] >= 1, "non-empty");
      sv_check(start[b][d] >= 0 && start[b][d] + num[b][d] <= nc[d], "inside-grid");
      v *= num[b][d];
    }
    for (int d = dim; d < 3; d++) sv_check(start[b][d] == 0 && num[b][d] == 0, "unused-direction");
    vol += v;
  }
  sv_check(vol == total, "volume");
  // an arbitrary cell lies in exactly one block
  int c[3] = {0, 0, 0};
  for (int d = 0; d < dim; d++) c[d] = sv_int("c", 0, nc[d] - 1);
  int cnt = 0;
  for (size_t b = 0; b < num.size(); b++) {
    bool in = true;
    for (int d = 0; d < dim; d++) in = in & (c[d] >= start[b][d]) & (c[d] < start[b][d] + num[b][d]);
    cnt += in;
  }
  sv_check(cnt == 1, "cell-in-exactly-one-block");
  sv_obs_i("nb", num.size());
  for (size_t b = 0; b < num.size(); b++) for (int d = 0; d < 3; d++) { sv_obs_i("s", start[b][d]); sv_obs_i("m", num[b][d]); }
}
