// E05: occluded, out-of-range and parallel-beam points.
#include "pbt.hpp"
#include <algorithm>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"

namespace
{
using Labels = std::vector<PointLabel>;
std::string show(const Labels & l)
{
  std::string s;
  for (const auto v : l) {s += ".EeSsrop"[std::min(7, static_cast<int>(v))];}
  return s;
}
const double NB = 2. * M_PI / 180.;

// A scan line whose ranges and neighbourhoods are known by construction.
struct Line
{
  pcl::PointCloud<PointXYZIR>::Ptr cloud{new pcl::PointCloud<PointXYZIR>()};
  std::vector<double> r;
  std::vector<char> link;
  bool exact = false;
  int n() const {return static_cast<int>(r.size());}
  MappedPoints<PointXYZIR> points(bool mirrored = false) const
  {
    std::vector<int> idx(r.size());
    for (std::size_t i = 0; i < r.size(); i++) {idx[i] = static_cast<int>(mirrored ? r.size() - 1 - i : i);}
    return MappedPoints<PointXYZIR>(cloud, idx);
  }
};
int long_line = 0;    // when set, the length of every line
Line line(pbt::Case & c, int min_n, int max_n)
{
  Line l;
  l.exact = c.coin();
  const int n = long_line ? long_line : min_n + static_cast<int>(c.size(0, max_n - min_n, std::max(max_n - min_n, 1500), 200));
  const int breaks = c.pick({1, 3, 8});
  const int jumps = c.pick({2, 4, 10});
  double r = 1. + static_cast<double>(c.below(33)) / 4., a = -3.;
  int dir = 0;
  for (int i = 0; i < n; i++) {
    bool broken = false;
    if (i > 0) {
      broken = breaks > 1 && c.chance(1, breaks);
      l.link.push_back(!broken);
      if (c.chance(1, jumps)) {r = 0.25 + static_cast<double>(c.below(65)) / 4.;}
      else if (c.chance(1, 4)) {r += c.pick({0.25, -0.25, 0.5, -0.5});}
      if (r < 0.25) {r = 0.25;}
    }
    double x, y;
    if (l.exact) {
      if (broken) {dir = (dir + static_cast<int>(c.range(1, 3))) % 4;}
      const double xs[] = {r, 0., -r, 0.}, ys[] = {0., r, 0., -r};
      x = xs[dir];
      y = ys[dir];
    } else {
      a += broken ? c.real(2.5, 40.) * M_PI / 180. : c.real(0.05, 1.7) * M_PI / 180.;
      x = r * std::cos(a);
      y = r * std::sin(a);
    }
    l.cloud->push_back(PointXYZIR(static_cast<float>(x), static_cast<float>(y), static_cast<float>(c.num(3.)), 0.f, 0));
    l.r.push_back(l.exact ? r : std::hypot(static_cast<double>(static_cast<float>(x)), static_cast<double>(static_cast<float>(y))));
  }
  return l;
}
Labels initial(pbt::Case & c, int n)
{
  Labels l(n, PointLabel::Default);
  for (auto & v : l) {if (c.chance(1, 4)) {v = static_cast<PointLabel>(c.below(8));}}
  return l;
}
// thresholds hit the quarter grid exactly only on exact lines
double off_grid(pbt::Case & c, bool exact)
{
  const double t = static_cast<double>(c.range(0, 16)) / 4.;
  return exact && c.coin() ? t : t + 0.1;
}
// the marks of one direction: from point i to its successor
void occlude(std::vector<char> & mark, const std::vector<double> & r, const std::vector<char> & link, int padding, double thr)
{
  const int n = static_cast<int>(r.size());
  for (int i = 0; i + 1 < n; i++) {
    if (!link[i] || !(r[i + 1] > r[i] + thr)) {continue;}
    if (i + 1 + padding > n - 1) {continue;}                   // the far side leaves the line
    for (int j = i + 1; j <= i + 1 + padding; j++) {
      mark[j] = 1;
      if (j + 1 < n && !link[j]) {break;}
    }
  }
}
template<class T> std::vector<T> reversed(std::vector<T> v) {std::reverse(v.begin(), v.end()); return v;}
}  // namespace

static void check_occluded(pbt::Case & c)
{
  const int padding = static_cast<int>(c.range(0, 6));
  const Line l = line(c, std::max(2, padding + 1), 80);
  const double thr = off_grid(c, l.exact);
  Labels labels = initial(c, l.n());
  const Labels before = labels;
  std::vector<char> fwd(l.n(), 0), bwd(l.n(), 0);
  occlude(fwd, l.r, l.link, padding, thr);
  occlude(bwd, reversed(l.r), reversed(l.link), padding, thr);
  bwd = reversed(bwd);
  LabelOccludedPoints(labels, NeighborCheckXY<PointXYZIR>(l.points(), NB), Range<PointXYZIR>(l.points()), padding, thr);
  int marked = 0;
  Labels want = before;
  for (int i = 0; i < l.n(); i++) {if (fwd[i] || bwd[i]) {want[i] = PointLabel::Occluded; marked++;}}
  CHECK(labels == want, << show(labels) << " expected " << show(want) << " ranges " << pbt::show(l.r) << " padding " << padding << " threshold " << thr);
  // mirrored line
  Labels m = reversed(before);
  LabelOccludedPoints(m, NeighborCheckXY<PointXYZIR>(l.points(true), NB), Range<PointXYZIR>(l.points(true)), padding, thr);
  CHECK(reversed(m) == labels, << "mirrored line: " << show(reversed(m)) << " vs " << show(labels));
  c.note() << "n=" << l.n() << " padding=" << padding << " thr=" << thr << " " << show(before) << " -> " << show(labels);
  c.nontrivial(marked > 0 && marked < l.n());
  c.label("exact", l.exact);
  c.label("broken", std::count(l.link.begin(), l.link.end(), 0) > 0);
}

static void check_out_of_range(pbt::Case & c)
{
  const Line l = line(c, 1, 60);
  double lo = off_grid(c, l.exact), hi = lo + off_grid(c, l.exact);
  if (c.chance(1, 10)) {std::swap(lo, hi);}
  if (!l.exact) {   // stay clear of rounding at the limits
    for (const double r : l.r) {if (std::fabs(r - lo) < 1e-6 || std::fabs(r - hi) < 1e-6) {throw pbt::Discard{};}}
  }
  Labels labels = initial(c, l.n());
  const Labels before = labels;
  LabelOutOfRange(labels, Range<PointXYZIR>(l.points()), lo, hi);
  int out = 0;
  for (int i = 0; i < l.n(); i++) {
    const bool o = l.r[i] < lo || l.r[i] > hi;
    out += o;
    CHECK(labels[i] == (o ? PointLabel::OutOfRange : before[i]), << "range " << l.r[i] << " interval [" << lo << ", " << hi << "]");
  }
  c.nontrivial(out > 0 && out < l.n());
}

static void check_parallel_beam(pbt::Case & c)
{
  const Line l = line(c, 1, 60);
  const double thr = c.pick({0.02, 0.25, 0.5, 0.125, 1., 0.1, 0.});
  Labels labels = initial(c, l.n());
  const Labels before = labels;
  Labels want = before;
  int marked = 0;
  for (int i = 1; i + 1 < l.n(); i++) {
    const double a = std::fabs(l.r[i - 1] - l.r[i]), b = std::fabs(l.r[i + 1] - l.r[i]), t = thr * l.r[i];
    for (const double d : {a, b}) {
      const bool near = std::fabs(d - t) < 1e-5 * std::max(l.r[i], 1e-3);
      if (near && !(l.exact && d == t && thr * 8. == std::floor(thr * 8.))) {throw pbt::Discard{};}
    }
    if (a > t && b > t) {want[i] = PointLabel::ParallelBeam; marked++;}
  }
  LabelParallelBeamPoints(labels, Range<PointXYZIR>(l.points()), thr);
  CHECK(labels == want, << show(labels) << " expected " << show(want) << " ranges " << pbt::show(l.r) << " ratio " << thr);
  Labels m = reversed(before);
  LabelParallelBeamPoints(m, Range<PointXYZIR>(l.points(true)), thr);
  CHECK(reversed(m) == labels, << "mirrored line: " << show(reversed(m)) << " vs " << show(labels));
  c.nontrivial(marked > 0 && marked + 2 < l.n());
}

PROP(occluded_points, 40000) {check_occluded(c);}
PROP(out_of_range_points, 40000) {check_out_of_range(c);}
PROP(parallel_beam_points, 40000) {check_parallel_beam(c);}

PROP(very_long_lines, 60)
{
  const int n = static_cast<int>(c.range(1500, 70000));
  const int kind = static_cast<int>(c.below(3));
  pbt::Case b = c.bulk();
  struct Length {explicit Length(int k) {long_line = k;} ~Length() {long_line = 0;}} length(n);
  (kind == 0 ? check_occluded : kind == 1 ? check_out_of_range : check_parallel_beam)(b);
  c.note() << n << " points";
  c.nontrivial(b.nontrivial_);
}
