// E01: scan lines.
#include "pbt.hpp"
#include <algorithm>
#include <set>
#include <pcl/point_cloud.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#include "lidar_feature_extraction/ring.hpp"

namespace
{
struct P {float x, y;};

// 0: below the x axis, 1: positive x axis (and the origin), 2: above, 3: negative x axis
int sector(const P & p)
{
  if (p.y < 0) {return 0;}
  if (p.y > 0) {return 2;}
  return p.x < 0 ? 3 : 1;
}
// exact comparison of atan2(y, x), for coordinates whose products are exact in long double
int azimuth_order(const P & a, const P & b)
{
  const int sa = sector(a), sb = sector(b);
  if (sa != sb) {return sa < sb ? -1 : 1;}
  if (sa == 1 || sa == 3) {return 0;}
  const long double d = static_cast<long double>(a.x) * b.y - static_cast<long double>(a.y) * b.x;
  return d > 0 ? -1 : d < 0 ? 1 : 0;
}
P lattice(pbt::Case & c)
{
  P p{static_cast<float>(c.range(-4, 4)), static_cast<float>(c.range(-4, 4))};
  const float s = c.pick({1.f, 0.5f, 4.f});
  return {p.x * s + 0.f, p.y * s + 0.f};
}
float plus0(float v) {return v == 0.f ? 0.f : v;}
P free_point(pbt::Case & c)
{
  switch (c.below(6)) {
    case 0: return lattice(c);
    case 5: {   // any magnitude
      const double r = std::pow(10., c.real(-30., 30.)), t = c.real(-M_PI, M_PI);
      return {plus0(static_cast<float>(r * std::cos(t))), plus0(static_cast<float>(r * std::sin(t)))};
    }
    case 1: return {static_cast<float>(c.pos(1e-2, 1e2)), 0.f};
    case 2: return {static_cast<float>(-c.pos(1e-2, 1e2)), 0.f};
    default: {
      const double r = c.pos(1e-2, 1e2), t = c.real(-M_PI, M_PI);
      return {plus0(static_cast<float>(r * std::cos(t))), plus0(static_cast<float>(r * std::sin(t)))};
    }
  }
}
using Cloud = pcl::PointCloud<PointXYZIR>;

Cloud::Ptr cloud_of(pbt::Case & c, bool exact, int n)
{
  Cloud::Ptr cl(new Cloud());
  const int kind = c.below(4);
  const int n_rings = c.pick({1, 2, 3, 16, 64});
  const int ring0 = c.pick({0, 1, 100, 65536 - 64});
  for (int i = 0; i < n; i++) {
    P p = exact ? lattice(c) : free_point(c);
    if (kind == 1) {p.y = 0.f;}                                   // everything on one axis
    if (kind == 2) {p.x = std::fabs(p.x); p.y = 0.f;}
    const int ring = kind == 3 ? static_cast<int>(c.below(65536)) : ring0 + static_cast<int>(c.below(n_rings));
    cl->push_back(PointXYZIR(p.x, p.y, static_cast<float>(c.num(10.)), static_cast<float>(i), static_cast<std::uint16_t>(ring)));
  }
  return cl;
}
Cloud::Ptr cloud(pbt::Case & c, bool exact, int max_size) {return cloud_of(c, exact, c.size(0, max_size, 20 * max_size));}
}  // namespace

PROP(azimuth_comparison_is_the_atan2_order, 400000)
{
  const AHasSmallerPolarAngleThanB<P> less{};
  const P a = lattice(c), b = lattice(c);
  c.note() << "(" << a.x << ", " << a.y << ") (" << b.x << ", " << b.y << ")";
  CHECK(less(a, b) == (azimuth_order(a, b) < 0), << "a = (" << a.x << ", " << a.y << ") b = (" << b.x << ", " << b.y << ")");
  CHECK(!(less(a, b) && less(b, a)), << "a = (" << a.x << ", " << a.y << ") b = (" << b.x << ", " << b.y << ")");
  const P f = free_point(c), g = free_point(c);
  const double af = std::atan2(f.y, f.x), ag = std::atan2(g.y, g.x);
  if (std::fabs(af - ag) > 1e-5) {
    CHECK(less(f, g) == (af < ag), << "f = (" << f.x << ", " << f.y << ") g = (" << g.x << ", " << g.y << ")");
  }
  c.nontrivial(azimuth_order(a, b) != 0 || sector(a) == sector(b));
  c.label("same ray", azimuth_order(a, b) == 0);
  c.label("axis", sector(a) == 1 || sector(a) == 3);
}

// Several returns of one beam (nearly the same direction), and coordinates of any magnitude a float has: std::sort needs a
// strict weak order, and directions which really differ have to be told apart.
PROP(azimuth_comparison_is_a_strict_weak_order, 150000)
{
  const AHasSmallerPolarAngleThanB<P> less{};
  const bool beam = c.chance(2, 3);
  const double t = c.real(-M_PI, M_PI);
  auto magnitude = [&] {return beam ? c.pos(1e-2, 1e2) : std::pow(10., c.real(-30., 30.));};
  const int n = 8;
  std::vector<P> p;
  for (int i = 0; i < n; i++) {
    const double r = magnitude();
    if (beam) {
      const double u = t + 1e-7 * static_cast<double>(c.range(-1, 1));
      p.push_back({plus0(static_cast<float>(r * std::cos(u))), plus0(static_cast<float>(r * std::sin(u)))});
    } else {
      const double x = c.pick({0., 1., -1., r, -r}), y = c.pick({0., 1., -1., magnitude(), -magnitude()});
      p.push_back({plus0(static_cast<float>(x)), plus0(static_cast<float>(y))});
    }
  }
  auto text = [&](int i) {char b[80]; std::snprintf(b, sizeof(b), "(%.9g, %.9g)", p[i].x, p[i].y); return std::string(b);};
  bool l[8][8];
  for (int i = 0; i < n; i++) {for (int j = 0; j < n; j++) {l[i][j] = less(p[i], p[j]);}}
  for (int i = 0; i < n; i++) {
    CHECK(!l[i][i], << text(i) << " before itself");
    for (int j = 0; j < n; j++) {
      CHECK(!(l[i][j] && l[j][i]), << text(i) << " and " << text(j) << " are both before the other");
      const double ai = std::atan2(static_cast<double>(p[i].y), static_cast<double>(p[i].x)), aj = std::atan2(static_cast<double>(p[j].y), static_cast<double>(p[j].x));
      if (std::fabs(ai - aj) > 1e-5) {CHECK(l[i][j] == (ai < aj), << text(i) << " and " << text(j));}
      for (int k = 0; k < n; k++) {
        CHECK(!(l[i][j] && l[j][k]) || l[i][k], << text(i) << " before " << text(j) << " before " << text(k) << ", but not the first before the last");
        CHECK(!(l[i][k]) || l[i][j] || l[j][k], << text(i) << " before " << text(k) << ", but " << text(j) << " equal to both");
      }
    }
  }
  c.nontrivial(l[0][1] || l[1][0]);
  c.label("one beam", beam);
}

static void check_lines(pbt::Case & c, const Cloud::Ptr & cl, bool exact)
{
  const std::vector<PointXYZIR> before(cl->points.begin(), cl->points.end());
  const auto rings = ExtractAngleSortedRings(*cl);
  std::map<int, std::vector<int>> expected;
  for (std::size_t i = 0; i < before.size(); i++) {expected[before[i].ring].push_back(static_cast<int>(i));}
  CHECK_EQ(rings.size(), expected.size(), << "number of lines");
  std::size_t longest = 0;
  for (const auto & [ring, want] : expected) {
    const auto it = rings.find(ring);
    CHECK(it != rings.end(), << "ring " << ring << " is missing");
    std::vector<int> got = it->second;
    longest = std::max(longest, got.size());
    for (std::size_t i = 1; i < got.size(); i++) {
      CHECK(got[i - 1] >= 0 && got[i - 1] < static_cast<int>(before.size()), << "index " << got[i - 1]);
      CHECK(got[i] >= 0 && got[i] < static_cast<int>(before.size()), << "index " << got[i]);
      const PointXYZIR & a = before[got[i - 1]], & b = before[got[i]];
      if (exact) {
        CHECK(azimuth_order({a.x, a.y}, {b.x, b.y}) <= 0, << "ring " << ring << ": (" << a.x << ", " << a.y << ") before (" << b.x << ", " << b.y << ")");
      } else {
        CHECK(std::atan2(a.y, a.x) <= std::atan2(b.y, b.x) + 1e-5, << "ring " << ring << ": (" << a.x << ", " << a.y << ") before (" << b.x << ", " << b.y << ")");
      }
    }
    std::sort(got.begin(), got.end());
    CHECK(got == want, << "ring " << ring << ": indices " << pbt::show(got) << " expected " << pbt::show(want));
    // the view on the line visits exactly these points, in this order
    const MappedPoints<PointXYZIR> view(cl, it->second);
    CHECK_EQ(view.size(), static_cast<int>(want.size()));
    for (int i = 0; i < view.size(); i++) {
      const PointXYZIR p = view.at(i), & q = before[it->second[i]];
      CHECK(p.x == q.x && p.y == q.y && p.z == q.z && p.intensity == q.intensity && p.ring == q.ring, << "ring " << ring << " element " << i);
    }
  }
  for (std::size_t i = 0; i < before.size(); i++) {
    CHECK(cl->points[i].x == before[i].x && cl->points[i].intensity == before[i].intensity, << "the cloud was modified");
  }
  c.nontrivial(rings.size() > 1 && longest > 2);
  c.label("more than 16 points in a line", longest > 16);
  c.label("many rings", rings.size() > 20);
}

PROP(every_point_is_in_its_ring_in_azimuth_order, 6000)
{
  const bool exact = c.coin();
  const Cloud::Ptr cl = cloud(c, exact, 300);
  check_lines(c, cl, exact);
}

// as many points as a real sensor returns
PROP(scans_of_full_size, 24)
{
  const int n = static_cast<int>(c.range(20000, 150000));
  pbt::Case b = c.bulk();
  check_lines(b, cloud_of(b, false, n), false);
  c.note() << n << " points";
  c.nontrivial(b.nontrivial_);
}

PROP(sparse_lines_are_removed_exactly, 30000)
{
  std::unordered_map<int, std::vector<int>> rings;
  const int n = c.size(0, 40);
  for (int i = 0; i < n; i++) {
    const int id = static_cast<int>(c.below(65536));
    const int len = c.size(0, 12);
    std::vector<int> v;
    for (int j = 0; j < len; j++) {v.push_back(static_cast<int>(c.below(1000)));}
    rings[id] = v;
  }
  const auto before = rings;
  const int min = static_cast<int>(c.range(0, 14)) - 1;
  RemoveSparseRings(rings, min);
  std::size_t kept = 0;
  for (const auto & [id, v] : before) {
    const bool keep = static_cast<int>(v.size()) >= min;
    kept += keep;
    CHECK(rings.count(id) == (keep ? 1u : 0u), << "ring with " << v.size() << " points, minimum " << min);
    if (keep) {CHECK(rings.at(id) == v, << "ring " << id << " was changed");}
  }
  CHECK_EQ(rings.size(), kept);
  c.nontrivial(kept > 0 && kept < before.size());
}

PROP(views_of_a_line_alias_the_selected_points, 20000)
{
  const Cloud::Ptr cl = cloud(c, false, 60);
  std::vector<int> idx;
  if (!cl->empty()) {for (int i = 0, n = c.size(0, 80); i < n; i++) {idx.push_back(static_cast<int>(c.below(cl->size())));}}
  const MappedPoints<PointXYZIR> view(cl, idx);
  CHECK_EQ(view.size(), static_cast<int>(idx.size()));
  for (std::size_t i = 0; i < idx.size(); i++) {CHECK_EQ(view.at(i).intensity, static_cast<float>(idx[i]));}
  CHECK_THROWS(view.at(static_cast<int>(idx.size())));
  CHECK_THROWS(view.at(-1 - static_cast<int>(c.below(5))));
  const int b = static_cast<int>(c.range(0, idx.size())), e = static_cast<int>(c.range(b, idx.size()));
  const MappedPoints<PointXYZIR> s = view.Slice(b, e);
  CHECK_EQ(s.size(), e - b);
  for (int i = 0; i < e - b; i++) {CHECK_EQ(s.at(i).intensity, static_cast<float>(idx[b + i]), << "slice [" << b << ", " << e << ") element " << i);}
  CHECK_THROWS(s.at(e - b));
  c.nontrivial(e - b > 1 && e - b < static_cast<int>(idx.size()));
}

PROP(ring_field_detection, 20000)
{
  std::vector<sensor_msgs::msg::PointField> fields;
  bool any = false;
  for (int i = 0, n = c.size(0, 8); i < n; i++) {
    sensor_msgs::msg::PointField f;
    f.name = c.pick({std::string("x"), std::string("rings"), std::string("Ring"), std::string("ring"), std::string("rin"), std::string("")});
    f.offset = 4 * i;
    any = any || f.name == "ring";
    fields.push_back(f);
  }
  CHECK_EQ(RingIsAvailable(fields), any);
  c.nontrivial(fields.size() > 1);
}
