// Serial stand-ins for the MPI, METIS and Zoltan entry points the library calls.
#include <cstring>
#include <cstdlib>
extern "C" {
char ompi_mpi_comm_world[1024], ompi_mpi_comm_self[1024], ompi_mpi_comm_null[1024];
char ompi_mpi_int[1024], ompi_mpi_double[1024], ompi_mpi_byte[1024], ompi_mpi_char[1024], ompi_mpi_unsigned[1024], ompi_mpi_long[1024];
char ompi_mpi_op_sum[1024], ompi_mpi_op_max[1024], ompi_mpi_op_min[1024], ompi_mpi_op_lor[1024], ompi_mpi_op_land[1024];
static size_t dtsize(void* d) {
  if (d == ompi_mpi_double || d == ompi_mpi_long) return 8;
  if (d == ompi_mpi_byte || d == ompi_mpi_char) return 1;
  return 4;
}
int MPI_Comm_size(void*, int* n) { *n = 1; return 0; }
int MPI_Comm_rank(void*, int* r) { *r = 0; return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Barrier(void*) { return 0; }
int MPI_Abort(void*, int) { abort(); }
int MPI_Allreduce(void const* s, void* r, int n, void* d, void*, void*) { memcpy(r, s, n * dtsize(d)); return 0; }
int MPI_Bcast(void*, int, void*, int, void*) { return 0; }
}
// METIS may answer with any labelling of the vertices: one symbolic part
// number per vertex; the graph it is handed is checked to be well formed.
#include "sv.h"
int metis_calls = 0;
extern "C" {
int METIS_SetDefaultOptions(int* o) { for (int i = 0; i < 40; i++) o[i] = -1; return 1; }
static int metis_any(int* nv, int* xadj, int* adj, int* np, int* cut, int* part) {
  int n = *nv;
  bool ok = xadj[0] == 0;
  for (int i = 0; i < n; i++) {
    ok = ok && xadj[i + 1] >= xadj[i];
    for (int j = xadj[i]; ok && j < xadj[i + 1]; j++) {
      int k = adj[j];
      bool back = false;
      if (k >= 0 && k < n && k != i) for (int l = xadj[k]; l < xadj[k + 1]; l++) if (adj[l] == i) back = true;
      ok = ok && back;
    }
  }
  sv_check(ok, "graph-handed-to-METIS");
  for (int i = 0; i < n; i++) { char nm[8] = {'p', 'a', 'r', 't', (char)('0' + i / 10), (char)('0' + i % 10), 0}; part[i] = sv_int(nm, 0, *np - 1); }
  *cut = 0; metis_calls++;
  return 1;
}
int METIS_PartGraphRecursive(int* nv, int*, int* xadj, int* adj, int*, int*, int*, int* np, float*, float*, int*, int* cut, int* part) { return metis_any(nv, xadj, adj, np, cut, part); }
int METIS_PartGraphKway(int* nv, int*, int* xadj, int* adj, int*, int*, int*, int* np, float*, float*, int*, int* cut, int* part) { return metis_any(nv, xadj, adj, np, cut, part); }
}
