// E07: angles and neighbour predicate.
#include "pbt.hpp"
#include <pcl/point_types.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/neighbor.hpp"

namespace
{
struct V {double x, y;};
V direction(pbt::Case & c)
{
  switch (c.below(6)) {
    case 0: return {static_cast<double>(c.range(0, 6)) - 3, static_cast<double>(c.range(0, 6)) - 3};
    case 1: return {c.num(100.), c.num(100.)};
    case 2: {const double a = c.real(-M_PI, M_PI), r = c.pos(1e-3, 1e3); return {r * std::cos(a), r * std::sin(a)};}
    case 3: return {c.num(100.), 0.};
    case 4: return {0., c.num(100.)};
    default: {const double r = c.pos(1e-20, 1e20); return {r * c.real(-1, 1), r * c.real(-1, 1)};}
  }
}
double reference(const V & a, const V & b)
{
  const long double ax = a.x, ay = a.y, bx = b.x, by = b.y;
  return static_cast<double>(std::atan2(std::fabs(ax * by - ay * bx), ax * bx + ay * by));
}
// the second vector: anything, parallel, anti-parallel, nearly parallel
V partner(pbt::Case & c, const V & a)
{
  switch (c.below(4)) {
    case 0: return direction(c);
    case 1: {const double s = c.pos(1e-6, 1e6); return {a.x * s, a.y * s};}
    case 2: {const double s = -c.pos(1e-6, 1e6); return {a.x * s, a.y * s};}
    default: {
      const double t = std::ldexp(c.real(-1, 1), -static_cast<int>(c.below(50))), s = c.coin() ? 1. : -1.;
      return {s * (a.x * std::cos(t) - a.y * std::sin(t)), s * (a.x * std::sin(t) + a.y * std::cos(t))};
    }
  }
}
bool zero(const V & v) {return v.x == 0. && v.y == 0.;}
bool normal_square(const V & v) {const double s = v.x * v.x + v.y * v.y; return s > 1e-290;}
const double TOL = 1e-7;   // acos loses half of the digits near 0 and pi
}  // namespace

PROP(angle_is_exact_symmetric_and_scale_free, 1500000)
{
  const V a = direction(c), b = partner(c, a);
  if (zero(a) || zero(b) || !normal_square(a) || !normal_square(b)) {throw pbt::Discard{};}
  c.note() << "(" << a.x << ", " << a.y << ") (" << b.x << ", " << b.y << ")";
  const double r = CalcRadian(a.x, a.y, b.x, b.y);
  CHECK(r >= 0. && r <= M_PI, << "angle " << r << " of (" << a.x << ", " << a.y << ") (" << b.x << ", " << b.y << ")");
  CHECK_NEAR(r, reference(a, b), TOL, 0.);
  CHECK_NEAR(CalcRadian(b.x, b.y, a.x, a.y), r, TOL, 0.);
  const double s = c.pos(1e-5, 1e5), t = c.pos(1e-5, 1e5);
  CHECK_NEAR(CalcRadian(a.x * s, a.y * s, b.x * t, b.y * t), r, TOL, 0.);
  const double z = CalcRadian(a.x, a.y, a.x, a.y);
  CHECK(z >= 0. && z <= TOL, << "angle of a direction with itself is " << z << " for (" << a.x << ", " << a.y << ")");
  c.nontrivial(r > 1e-6 && r < M_PI - 1e-6);
  c.label("parallel", r < 1e-6);
  c.label("anti-parallel", r > M_PI - 1e-6);
}

PROP(two_zero_vectors_are_rejected, 4)
{
  const double x = c.coin() ? 0. : -0., y = c.coin() ? 0. : -0.;
  CHECK_THROWS(CalcRadian(x, y, 0., 0.));
  CHECK_THROWS(CalcRadian(0., 0., x, y));
  c.nontrivial();
}

namespace
{
pcl::PointCloud<PointXYZIR>::Ptr line(pbt::Case & c, int n)
{
  pcl::PointCloud<PointXYZIR>::Ptr cloud(new pcl::PointCloud<PointXYZIR>);
  double a = c.real(-M_PI, M_PI);
  for (int i = 0; i < n; i++) {
    PointXYZIR p;
    const V d = c.chance(1, 4) ? direction(c) : V{10 * std::cos(a), 10 * std::sin(a)};
    a += c.pick({0.01, 0.02, 0.05, 0.5, 0.});
    p.x = d.x; p.y = d.y; p.z = c.num(5.); p.ring = c.below(4); p.intensity = c.num(5.);
    cloud->push_back(p);
  }
  return cloud;
}
}  // namespace

PROP(neighbours_exactly_below_the_threshold, 200000)
{
  const int n = c.size(2, 30);
  auto cloud = line(c, n);
  std::vector<int> idx(c.size(2, 30));
  for (auto & i : idx) {i = c.below(n);}
  const double thr = c.pick({0.03, 0.015, 0.1, 1.0, 2.0, 3.2, 0.});
  const MappedPoints<PointXYZIR> points(cloud, idx);
  const NeighborCheckXY<PointXYZIR> is_neighbor(points, thr);
  const int m = idx.size();
  CHECK_EQ(is_neighbor.size(), m);
  auto expect = [&](const NeighborCheckXY<PointXYZIR> & f, int i, int j, int offset) {
      const auto & p = cloud->at(idx[offset + i]); const auto & q = cloud->at(idx[offset + j]);
      const V a{p.x, p.y}, b{q.x, q.y};
      if (zero(a) && zero(b)) {CHECK_THROWS(f(i, j)); return;}
      if (zero(a) || zero(b)) {CHECK(!f(i, j), << "the origin has no direction"); return;}
      if (!normal_square(a) || !normal_square(b)) {f(i, j); return;}
      const double r = reference(a, b);
      if (std::fabs(r - thr) < TOL) {f(i, j); return;}
      CHECK_EQ(f(i, j), r < thr, << "angle " << r << " threshold " << thr << " at " << i << ", " << j);
      CHECK_EQ(f(j, i), r < thr, << "angle " << r << " threshold " << thr << " at " << j << ", " << i);
      CHECK_EQ(IsNeighborXY(p, q, thr), r < thr);
    };
  for (int k = 0; k < 20; k++) {
    const int i = c.below(m);
    expect(is_neighbor, i, c.coin() && i + 1 < m ? i + 1 : static_cast<int>(c.below(m)), 0);
  }
  // indices outside of the line
  for (int bad : {-1, m, -1 - static_cast<int>(c.below(1000)), m + static_cast<int>(c.below(1000))}) {
    CHECK_THROWS(is_neighbor(bad, 0)); CHECK_THROWS(is_neighbor(0, bad));
  }
  // a slice is the same predicate on shifted indices
  const int b = c.below(m + 1), e = c.range(b, m);
  c.note() << "n=" << m << " threshold " << thr << " slice [" << b << ", " << e << ")";
  if (e - b < 2) {CHECK_THROWS(is_neighbor.Slice(b, e)); return;}
  const auto part = is_neighbor.Slice(b, e);
  CHECK_EQ(part.size(), e - b);
  for (int k = 0; k < 10; k++) {
    const int i = c.below(e - b);
    expect(part, i, c.below(e - b), b);
  }
  CHECK_THROWS(part(e - b, 0)); CHECK_THROWS(part(0, e - b)); CHECK_THROWS(part(-1, 0)); CHECK_THROWS(part(0, -1));
  c.nontrivial(m > 2 && e - b < m);
}

PROP(lines_of_less_than_two_points_are_rejected, 200)
{
  auto cloud = line(c, 3);
  std::vector<int> idx(c.below(2), 1);
  CHECK_THROWS((NeighborCheckXY<PointXYZIR>(MappedPoints<PointXYZIR>(cloud, idx), 0.1)));
  c.note() << idx.size();
  c.nontrivial(idx.size() == 1);
}
