// E08: colouring.
#include "pbt.hpp"
#include <set>
#include <pcl/point_types.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_extraction/color_points.hpp"

namespace
{
// The kinds a viewer can tell apart; edge and surface features share one colour.
int kind(PointLabel l)
{
  switch (l) {
    case PointLabel::Default: return 0;
    case PointLabel::Edge: case PointLabel::Surface: return 1;
    case PointLabel::EdgeNeighbor: case PointLabel::SurfaceNeighbor: return 2;
    case PointLabel::OutOfRange: return 3;
    case PointLabel::Occluded: return 4;
    default: return 5;
  }
}
struct Setup
{
  pcl::PointCloud<PointXYZIR>::Ptr cloud{new pcl::PointCloud<PointXYZIR>()};
  std::vector<int> idx;
};
Setup setup(pbt::Case & c)
{
  Setup s;
  const int n = c.size(0, 60, 2000);
  for (int i = 0; i < n; i++) {
    s.cloud->push_back(PointXYZIR(static_cast<float>(c.num(1e3)), static_cast<float>(c.num(1e3)), static_cast<float>(c.num(1e3)), static_cast<float>(i), 1));
  }
  for (const auto i : c.permutation(n)) {s.idx.push_back(static_cast<int>(i));}
  if (n) {s.idx.resize(c.range(0, n));}
  return s;
}
}  // namespace

PROP(label_colours, 20000)
{
  const Setup s = setup(c);
  std::vector<PointLabel> labels;
  for (std::size_t i = 0; i < s.idx.size(); i++) {labels.push_back(static_cast<PointLabel>(c.below(8)));}
  const auto out = ColorPointsByLabel(MappedPoints<PointXYZIR>(s.cloud, s.idx), labels);
  CHECK_EQ(out->size(), s.idx.size());
  for (std::size_t i = 0; i < s.idx.size(); i++) {
    const auto & p = out->points[i];
    const auto & q = s.cloud->points[s.idx[i]];
    CHECK(p.x == q.x && p.y == q.y && p.z == q.z, << "point " << i << " moved");
    const auto rgb = LabelToColor(labels[i]);
    CHECK_EQ(rgb.size(), 3u);
    CHECK(p.r == rgb[0] && p.g == rgb[1] && p.b == rgb[2] && p.a == 255, << "point " << i << " colour");
    for (std::size_t j = 0; j < i; j++) {
      const auto & o = out->points[j];
      const bool same = o.r == p.r && o.g == p.g && o.b == p.b;
      CHECK(same == (kind(labels[i]) == kind(labels[j])), << "labels " << static_cast<int>(labels[i]) << " and " << static_cast<int>(labels[j]));
    }
  }
  const int bad = static_cast<int>(c.range(8, 255));
  CHECK_THROWS(LabelToColor(static_cast<PointLabel>(bad)), << " label " << bad);
  c.nontrivial(s.idx.size() > 2);
}

PROP(value_colours, 100000)
{
  double min = c.num(50.), max = min + c.pos(1e-3, 100.);
  const double w = max - min;
  const double value = c.pick({min, max, min + w * c.real(0, 1), min + w * c.real(-1, 2), min - 10 * w, max + 10 * w});
  const auto rgb = ValueToColor(value, min, max);
  CHECK_EQ(rgb.size(), 3u);
  CHECK(rgb[0] == rgb[1] && rgb[1] == rgb[2], << "not a grey value");
  const double t = std::min(1., std::max(0., (value - min) / w));
  CHECK(std::fabs(static_cast<double>(rgb[0]) - 255. * t) <= 1. + 1e-6, << "value " << value << " in [" << min << ", " << max << "] maps to " << static_cast<int>(rgb[0]) << " expected about " << 255. * t);
  // the ends of the ramp
  CHECK_EQ(static_cast<int>(ValueToColor(min, min, max)[0]), 0, << "[" << min << ", " << max << "]");
  CHECK(ValueToColor(max, min, max)[0] >= 254, << "[" << min << ", " << max << "]");   // one step for rounding
  // monotone
  const double v2 = value + c.pos(1e-6, 10.) * w;
  CHECK(ValueToColor(v2, min, max)[0] >= rgb[0], << v2 << " maps below " << value << " in [" << min << ", " << max << "]");
  // clamped
  CHECK_EQ(static_cast<int>(ValueToColor(min - c.pos(1e-3, 1e3), min, max)[0]), 0);
  CHECK(ValueToColor(max + c.pos(1e-3, 1e3), min, max)[0] >= 254);
  // shift
  const double d = c.num(50.);
  CHECK(std::abs(static_cast<int>(ValueToColor(value + d, min + d, max + d)[0]) - static_cast<int>(rgb[0])) <= 1, << "shift by " << d);
  c.note() << value << " in [" << min << ", " << max << "] -> " << static_cast<int>(rgb[0]);
  c.nontrivial(min != 0. && value > min && value < max);
}

PROP(value_coloured_clouds, 10000)
{
  const Setup s = setup(c);
  const double min = c.num(5.), max = min + c.pos(0.1, 10.);
  std::vector<double> v;
  for (std::size_t i = 0; i < s.idx.size(); i++) {v.push_back(c.real(min - 1, max + 1));}
  const auto out = ColorPointsByValue(MappedPoints<PointXYZIR>(s.cloud, s.idx), v, min, max);
  CHECK_EQ(out->size(), s.idx.size());
  for (std::size_t i = 0; i < s.idx.size(); i++) {
    const auto & p = out->points[i];
    const auto & q = s.cloud->points[s.idx[i]];
    CHECK(p.x == q.x && p.y == q.y && p.z == q.z, << "point " << i << " moved");
    const auto rgb = ValueToColor(v[i], min, max);
    CHECK(p.r == rgb[0] && p.g == rgb[1] && p.b == rgb[2] && p.a == 255, << "point " << i << " colour");
  }
  c.nontrivial(s.idx.size() > 2);
}

HUGE_PROP(value_coloured_clouds, 16, 20000, 100000);
