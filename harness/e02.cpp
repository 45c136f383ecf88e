// E02: curvature of a scan line against a literal second-difference reference.
#include "pbt.hpp"
#include <algorithm>
#include <numeric>
#include <pcl/point_types.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_extraction/convolution.hpp"
#include "lidar_feature_extraction/curvature.hpp"
#include "lidar_feature_extraction/range.hpp"

namespace
{
std::vector<double> ranges_of(pbt::Case & c, int n)
{
  std::vector<double> v(n);
  switch (c.below(6)) {
    case 0: for (auto & x : v) {x = static_cast<double>(c.below(10));} break;
    case 1: for (auto & x : v) {x = c.num(100.);} break;
    case 2: {   // linear
      const double a = c.below(20), b = static_cast<double>(c.range(0, 8)) - 4;
      for (int i = 0; i < n; i++) {v[i] = a + b * i;}
      break;
    }
    case 3: for (auto & x : v) {x = 20. + std::ldexp(c.real(-1, 1), -static_cast<int>(c.below(20)));} break;
    case 4: {   // steps
      double r = 5.;
      for (auto & x : v) {if (c.chance(1, 5)) {r = c.pos(0.1, 100.);} x = r;}
      break;
    }
    default: for (auto & x : v) {x = std::ldexp(c.real(0, 1), static_cast<int>(c.below(40)) - 20);} break;
  }
  return v;
}
// error allowed in one window sum: the terms may be added in any order
double slack(const std::vector<double> & r, int i, int p)
{
  double s = 2. * p * std::fabs(r[i]);
  for (int k = -p; k <= p; k++) {if (k) {s += std::fabs(r[i + k]);}}
  return s * 1e-13;
}
double window(const std::vector<double> & r, int i, int p)
{
  long double s = -2.0L * p * r[i];
  for (int k = 1; k <= p; k++) {s += static_cast<long double>(r[i - k]) + r[i + k];}
  return static_cast<double>(s);
}
}  // namespace

static void check_curvature(pbt::Case & c, int p, int n)
{
  const auto r = ranges_of(c, n);
  c.note() << "padding " << p << " ranges " << pbt::show(r);
  const auto k = CalcCurvature(r, p);
  CHECK_EQ(static_cast<int>(k.size()), n);
  for (int i = 0; i < n; i++) {
    if (i < p || i >= n - p) {
      CHECK(k[i] == 0., << "border " << i << " is " << k[i]);
      continue;
    }
    const double w = window(r, i, p), d = slack(r, i, p);
    CHECK(k[i] >= 0., << i);
    CHECK(std::fabs(k[i] - w * w) <= 2 * std::fabs(w) * d + d * d, << "at " << i << ": " << k[i] << " expected " << w * w);
  }
  c.nontrivial(n > 2 * p + 1);
  c.label("minimal length", n == 2 * p + 1);
  c.label("padding > 5", p > 5);
}

PROP(curvature_equals_second_difference, 400000)
{
  const int p = c.chance(1, 4) ? c.range(1, 20) : c.range(1, 5);
  check_curvature(c, p, c.size(2 * p + 1, 2 * p + 60, 2 * p + 3000));
}

PROP(curvature_of_very_long_lines, 80)
{
  const int p = c.range(1, 20), n = c.range(5000, 100000);
  pbt::Case b = c.bulk();
  check_curvature(b, p, n);
  c.note() << n << " points, padding " << p;
  c.nontrivial();
}

PROP(short_lines_are_rejected, 60000)
{
  const int p = c.range(1, 30);
  const int n = c.below(2 * p + 1);
  const auto r = ranges_of(c, n);
  c.note() << "padding " << p << " n " << n;
  CHECK_THROWS(CalcCurvature(r, p));
  c.nontrivial(n > 0);
}

PROP(scale_offset_and_mirror, 150000)
{
  const int p = c.range(1, 8);
  const int n = c.size(2 * p + 1, 2 * p + 40, 2 * p + 2000);
  const auto r = ranges_of(c, n);
  const double s = c.pick({2., 0.5, 4., -1., 0., 3.}), o = c.below(100);
  auto scaled = r, shifted = r, mirrored = r;
  for (auto & x : scaled) {x *= s;}
  for (auto & x : shifted) {x += o;}
  std::reverse(mirrored.begin(), mirrored.end());
  const auto k = CalcCurvature(r, p), ks = CalcCurvature(scaled, p), ko = CalcCurvature(shifted, p), km = CalcCurvature(mirrored, p);
  c.note() << "padding " << p << " scale " << s << " offset " << o << " ranges " << pbt::show(r);
  for (int i = 0; i < n; i++) {
    if (i < p || i >= n - p) {CHECK(k[i] == 0. && ks[i] == 0. && ko[i] == 0. && km[i] == 0.); continue;}
    const double w = std::fabs(window(r, i, p)), d = 4 * (1 + std::fabs(s)) * (slack(r, i, p) + slack(shifted, i, p));
    const double tol = 2 * w * d * (1 + std::fabs(s)) + d * d;
    CHECK_NEAR(ks[i], s * s * k[i], tol, 0., << i);
    CHECK_NEAR(ko[i], k[i], tol, 0., << i);
    CHECK_NEAR(km[n - 1 - i], k[i], tol, 0., << i);
  }
  c.nontrivial(n > 2 * p + 1);
}

PROP(convolution_is_the_windowed_inner_product, 200000)
{
  const int p = c.range(0, 10);
  const int n = c.size(0, 60);
  const auto r = ranges_of(c, n);
  std::vector<double> w(2 * p + 1);
  for (auto & x : w) {x = c.num(5.);}
  c.note() << "weights " << pbt::show(w) << " input " << pbt::show(r);
  if (n < 2 * p + 1) {CHECK_THROWS(Convolution1D(r, w)); return;}
  const auto k = Convolution1D(r, w);
  CHECK_EQ(static_cast<int>(k.size()), n);
  for (int i = 0; i < n; i++) {
    if (i < p || i >= n - p) {CHECK(k[i] == 0., << i); continue;}
    long double s = 0; double m = 0;
    for (int j = 0; j < 2 * p + 1; j++) {s += static_cast<long double>(w[j]) * r[i - p + j]; m += std::fabs(w[j] * r[i - p + j]);}
    CHECK_NEAR(k[i], static_cast<double>(s), m * 1e-13, 0., << i);
  }
  c.nontrivial(p > 0 && n > 2 * p + 1);
  c.label("asymmetric kernel", p > 0 && w.front() != w.back());
}

PROP(weights_are_one_and_minus_twice_the_padding, 2000)
{
  const int p = c.range(1, 200);
  const auto w = MakeWeight(p);
  CHECK_EQ(static_cast<int>(w.size()), 2 * p + 1);
  for (int i = 0; i < 2 * p + 1; i++) {CHECK(w[i] == (i == p ? -2. * p : 1.), << i);}
  c.note() << p;
  c.nontrivial();
}

PROP(range_is_the_horizontal_distance_of_each_point, 200000)
{
  const int total = c.size(1, 40);
  pcl::PointCloud<PointXYZIR>::Ptr cloud(new pcl::PointCloud<PointXYZIR>);
  for (int i = 0; i < total; i++) {
    PointXYZIR p; p.x = c.num(100.); p.y = c.num(100.); p.z = c.num(100.); p.intensity = c.num(100.); p.ring = c.below(64);
    cloud->push_back(p);
  }
  std::vector<int> idx(c.size(0, 40));
  for (auto & i : idx) {i = c.below(total);}
  const MappedPoints<PointXYZIR> points(cloud, idx);
  const Range<PointXYZIR> range(points);
  const int n = idx.size();
  CHECK_EQ(range.size(), n);
  std::vector<double> expected(n);
  for (int i = 0; i < n; i++) {
    expected[i] = std::hypot(static_cast<double>(cloud->at(idx[i]).x), static_cast<double>(cloud->at(idx[i]).y));
    CHECK_NEAR(range(i), expected[i], 0., 1e-14, << i);
  }
  const int b = c.below(n + 1), e = c.range(b, n);
  const std::vector<double> part = range(b, e);
  c.note() << "n " << n << " part [" << b << ", " << e << ")";
  CHECK_EQ(static_cast<int>(part.size()), e - b);
  for (int i = b; i < e; i++) {CHECK_NEAR(part[i - b], expected[i], 0., 1e-14, << "index " << i << " of [" << b << ", " << e << ")");}
  c.nontrivial(b > 0 && e > b + 1);
}

PROP(range_gate_is_the_closed_interval, 60000)
{
  const double v = c.num(10.), lo = c.coin() ? v : c.num(10.), hi = c.coin() ? v : c.num(10.);
  CHECK_EQ(IsInInclusiveRange(v, lo, hi), (v >= lo && v <= hi), << v << " " << lo << " " << hi);
  c.note() << v << " in [" << lo << ", " << hi << "]";
  c.nontrivial(lo <= hi);
}
