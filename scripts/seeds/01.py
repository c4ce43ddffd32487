SEEDS=[]
def S(**k): SEEDS.append(k)
S(id="t01-odd-split-offset", prop="T01", libs="block",
  edits=[("src/mesh/block_partition.cc","blimits[ib2][dir] = blimits[ib][dir] + ncells1;","blimits[ib2][dir] = blimits[ib][dir] + (dir == 2 ? ncells2 : ncells1);")],
  needs="a 3D grid whose uneven splitting reaches the z direction with an odd number of cells in a block",
  breaks="the second child of an odd z split starts one layer too late: a layer of cells is in no block and blocks stick out of the grid",
  demo=r'''
#include "block_partition.hh"
#include <cstdio>
int main() {
  double dom[6] = {0,1,0,1,0,1};
  int bad = 0;
  for (int nz = 1; nz < 8; nz++) for (int nb = 1; nb <= 3*nz; nb++) {
    int n[3] = {1, 3, nz};
    std::vector<std::array<int,3>> s, c;
    if (!Jali::block_partition_regular_mesh(3, dom, n, nb, &s, &c)) { bad++; continue; }
    std::vector<int> hit(3*nz, 0);
    for (size_t b = 0; b < s.size(); b++)
      for (int j = 0; j < c[b][1]; j++) for (int k = 0; k < c[b][2]; k++) {
        int y = s[b][1]+j, z = s[b][2]+k;
        if (y >= 3 || z >= nz || y < 0 || z < 0) bad++; else hit[y*nz+z]++;
      }
    for (int h : hit) if (h != 1) bad++;
    if ((int)s.size() != nb) bad++;
  }
  printf("%d problems\n", bad);
  return bad != 0;
}
''')
S(id="g03-vertex-level", prop="G03", libs="geom",
  edits=[("src/geometry/Geometry.cc","(coords[ip1].y() > y && coords[i].y() <= y)) &&","(coords[ip1].y() > y && coords[i].y() < y)) &&")],
  needs="a query point at exactly the height of a polygon vertex where the boundary passes upwards on its right",
  breaks="point_in_polygon misses the crossing, interior points level with a vertex are reported outside",
  demo=r'''
#include "Geometry.hh"
#include <cstdio>
using JaliGeometry::Point;
int main() {
  std::vector<Point> p = {Point(0,-2), Point(2,0), Point(0,2), Point(-2,0)};
  int bad = 0;
  for (int i = -15; i <= 15; i++) {
    if (!JaliGeometry::point_in_polygon(Point(i/8.0, 0.0), p)) bad++;
    if (JaliGeometry::point_in_polygon(Point(i > 0 ? 2+i/8.0 : i/8.0-3, 0.0), p)) bad++;
  }
  printf("%d problems\n", bad);
  return bad != 0;
}
''')
S(id="g04-box-reversed-corner", prop="G04", libs="geom",
  edits=[("src/geometry/BoxRegion.cc","return  (x0+tol >= x && x >= x1-tol) ||","return  (x0-tol >= x && x >= x1-tol) ||")],
  needs="a box given by corners that are reversed in some direction and a point on its upper face in that direction",
  breaks="points on the upper faces of a box given by reversed corners are reported outside",
  demo=r'''
#include "BoxRegion.hh"
#include <cstdio>
using JaliGeometry::Point;
int main() {
  int bad = 0;
  for (int m = 0; m < 4; m++) {
    Point a(m&1 ? 3.0 : 1.0, m&2 ? 5.0 : 2.0), b(m&1 ? 1.0 : 3.0, m&2 ? 2.0 : 5.0);
    JaliGeometry::BoxRegion r("b", 1, a, b, JaliGeometry::LifeCycle_type::PERMANENT);
    for (int i = 0; i <= 8; i++) for (int j = 0; j <= 12; j++)
      if (!r.inside(Point(1 + i/4.0, 2 + j/4.0))) bad++;
  }
  printf("%d problems\n", bad);
  return bad != 0;
}
''')
S(id="g06-find-longer-name", prop="G06", libs="geom",
  edits=[("src/geometry/GeometricModel.cc","      RegionPtr r = Regions[i];\n      if (r->name() == name)","      RegionPtr r = Regions[i];\n      if (r->name().compare(0, name.size(), name) == 0)")],
  needs="a model with a region whose name extends the name that is looked up",
  breaks="FindRegion(name) returns a region of another name",
  demo=r'''
#include "GeometricModel.hh"
#include "BoxRegion.hh"
#include <cstdio>
using namespace JaliGeometry;
int main() {
  GeometricModel gm(2);
  BoxRegion a("box10", 1, Point(0.,0.), Point(1.,1.), LifeCycle_type::PERMANENT), b("box1", 2, Point(0.,0.), Point(2.,1.), LifeCycle_type::PERMANENT);
  gm.Add_Region(&a); gm.Add_Region(&b);
  int bad = (gm.FindRegion("box1") != &b) + (gm.FindRegion("box10") != &a) + (gm.FindRegion("box") != nullptr);
  printf("%d problems\n", bad);
  return bad != 0;
}
''')
S(id="f02-int-message-cut", prop="F02", libs="err",
  edits=[("src/error_handling/errors.cc",'''  snprintf(number, 23, "%d", datum);''','''  snprintf(number, 11, "%d", datum);''')],
  needs="an eleven-character integer (below -999999999) in an error message",
  breaks="the last digit of the number is missing from the message",
  demo=r'''
#include "errors.hh"
#include <cstdio>
#include <climits>
#include <string>
int main() {
  int bad = 0;
  for (int v : {0, 7, -7, INT_MAX, INT_MIN, -999999999, -1000000000, 123456789}) {
    Errors::Message m("n ");
    m << v << " end";
    if (std::string(m.what()) != "n " + std::to_string(v) + " end") bad++;
  }
  printf("%d problems\n", bad);
  return bad != 0;
}
''')
S(id="g02-wrong-centre-weight", prop="G02", libs="geom",
  edits=[("src/geometry/Geometry.cc","          (*centroid) += area_temp*(coords[i]+coords[(i+1)%np]+center)/3.0;","          (*centroid) += 0.5*(v3[0] < 0.0 ? -area_temp : area_temp)*(coords[i]+coords[(i+1)%np]+center)/1.5;")],
  needs="a 3D polygon whose normal points to negative x",
  breaks="the centroid of a polygon in space is mirrored when its normal has a negative x component",
  demo=r'''
#include "Geometry.hh"
#include <cstdio>
#include <cmath>
using JaliGeometry::Point;
int main() {
  int bad = 0;
  for (int rev = 0; rev < 2; rev++) {
    std::vector<Point> p = {Point(1.,0.,0.), Point(1.,2.,0.), Point(1.,2.,1.), Point(1.,0.,1.)};
    if (rev) std::swap(p[1], p[3]);
    double a; Point c(3), n(3);
    JaliGeometry::polygon_get_area_centroid_normal(p, &a, &c, &n);
    if (std::fabs(a-2) > 1e-12 || norm(c-Point(1.,1.,.5)) > 1e-12 || std::fabs(norm(n)-2) > 1e-12) bad++;
  }
  printf("%d problems\n", bad);
  return bad != 0;
}
''')
S(id="g07-minus-1d", prop="G07", libs="geom",
  edits=[("src/geometry/Point.hh","    for (int i = 0; i < d; i++) xyz[i] -= p[i];","    for (int i = d; i-- > 0; ) xyz[i] -= p[d-1 > i && &p == this ? i+1 : i];")],
  needs="subtracting a point of two or three dimensions from itself in place",
  breaks="p -= p does not give zero: it reads a coordinate that has already been changed",
  demo=r'''
#include "Point.hh"
#include <cstdio>
using JaliGeometry::Point;
int main() {
  Point p(3.0, 4.0, 5.0), q(1.0, 2.0), r(1.0, 1.0, 1.0);
  p -= p; q -= q; r += r; r -= Point(1.0, 1.0, 1.0);
  int bad = (p[0] != 0) + (p[1] != 0) + (p[2] != 0) + (q[0] != 0) + (q[1] != 0) + (r[0] != 1) + (r[2] != 1);
  printf("%d problems\n", bad);
  return bad != 0;
}
''')
