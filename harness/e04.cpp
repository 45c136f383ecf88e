// E04: greedy edge and surface labelling.
#include "pbt.hpp"
#include <algorithm>
#include <numeric>
#include <set>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_extraction/fill.hpp"
#include "lidar_feature_extraction/label.hpp"

namespace
{
using Labels = std::vector<PointLabel>;
std::string show(const Labels & l)
{
  std::string s;
  for (const auto v : l) {s += ".EeSsrop"[std::min(7, static_cast<int>(v))];}
  return s;
}
const PointLabel ALL[] = {PointLabel::Default, PointLabel::Edge, PointLabel::EdgeNeighbor, PointLabel::Surface,
  PointLabel::SurfaceNeighbor, PointLabel::OutOfRange, PointLabel::Occluded, PointLabel::ParallelBeam};

// points i and i + 1 are linked iff link[i]
using Links = std::vector<char>;

void model_mark(Labels & l, const Links & link, int offset, int i, int padding, PointLabel label)
{
  const int n = static_cast<int>(l.size());
  for (int j = i; j > 0 && i - j < padding && link[offset + j - 1]; ) {l[--j] = label;}
  for (int j = i; j + 1 < n && j - i < padding && link[offset + j]; ) {l[++j] = label;}
}
// greedy selection on l[0..n): order given by key (ascending)
void model_select(
  Labels & l, const std::vector<double> & curv, const Links & link, int offset, int padding, double thr, bool edge)
{
  std::vector<int> idx(l.size());
  std::iota(idx.begin(), idx.end(), 0);
  std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) {return edge ? curv[a] > curv[b] : curv[a] < curv[b];});
  for (const int i : idx) {
    if (l[i] != PointLabel::Default) {continue;}
    if (edge ? !(curv[i] >= thr) : !(curv[i] <= thr)) {continue;}
    model_mark(l, link, offset, i, padding, edge ? PointLabel::EdgeNeighbor : PointLabel::SurfaceNeighbor);
    l[i] = edge ? PointLabel::Edge : PointLabel::Surface;
  }
}
Links links(pbt::Case & c, int n)
{
  Links k(std::max(0, n - 1));
  const int den = c.pick({1, 2, 4, 10});
  for (auto & v : k) {v = !(den > 1 && c.chance(1, den));}
  return k;
}
// Being neighbours is a property of adjacent points only: it is not transitive (the angle between the ends of a chain of
// neighbours may be large) and points apart may be close. Pairs that are not adjacent get any answer, the same each time.
class LinkCheck : public NeighborCheckBase
{
public:
  LinkCheck(const Links & k, int n, unsigned far)
  : k_(k), n_(n), far_(far) {}
  bool operator()(const int a, const int b) const override
  {
    const int i = std::min(a, b), j = std::max(a, b);
    if (i < 0 || j >= n_) {throw std::out_of_range("index outside the line");}
    if (i == j) {return true;}
    if (i + 1 == j) {return k_[i];}
    return far_ < 2 ? far_ == 1 : (static_cast<unsigned>(i * 31 + j * 17) * 2654435761u * far_ >> 16) & 1;
  }
  int size() const override {return n_;}

private:
  Links k_;
  int n_;
  unsigned far_;
};
LinkCheck check_of(pbt::Case & c, const Links & k, int n) {return LinkCheck(k, n, static_cast<unsigned>(c.below(5)));}
std::vector<double> curvature(pbt::Case & c, int n, bool distinct)
{
  std::vector<double> v(n);
  if (distinct) {
    const auto p = c.permutation(n);
    const double base = c.pick({0., 0., 0.5, -3.}), step = c.pick({1., 0.125, 1e-6});
    for (int i = 0; i < n; i++) {v[i] = base + step * p[i];}
  } else {
    const int k = c.pick({2, 3, 8});
    for (auto & x : v) {x = static_cast<double>(c.below(k));}
  }
  return v;
}
double threshold(pbt::Case & c, const std::vector<double> & curv)
{
  if (curv.empty() || c.chance(1, 10)) {return c.num(10.);}
  const double v = curv[c.below(curv.size())];
  return c.pick({v, v, std::nextafter(v, 1e9), std::nextafter(v, -1e9), v - 0.5, v + 0.5});
}
Labels initial(pbt::Case & c, int n)
{
  Labels l(n, PointLabel::Default);
  if (c.chance(1, 3)) {for (auto & v : l) {if (c.chance(1, 5)) {v = ALL[c.below(8)];}}}
  return l;
}
}  // namespace

PROP(fill_marks_exactly_the_unbroken_window, 200000)
{
  const int n = c.size(1, 30), kind = static_cast<int>(c.below(3));
  const Links k = links(c, n);
  const LinkCheck nb = check_of(c, k, n);
  Labels l = initial(c, n), want = l;
  const PointLabel v = ALL[c.below(8)];
  if (kind == 0) {
    const int i = static_cast<int>(c.below(n)), padding = static_cast<int>(c.below(12));
    model_mark(want, k, 0, i, padding, v);
    want[i] = v;
    FillNeighbors(l, nb, i, padding, v);
    CHECK(l == want, << "FillNeighbors at " << i << " padding " << padding << ": " << show(l) << " expected " << show(want));
    c.nontrivial(padding > 0 && n > 2);
  } else if (kind == 1) {
    const int b = static_cast<int>(c.below(n)), e = static_cast<int>(c.range(b + 1, n));
    for (int i = b; i < e; i++) {want[i] = v; if (i + 1 < e && !k[i]) {break;}}
    FillFromLeft(l, nb, b, e, v);
    CHECK(l == want, << "FillFromLeft [" << b << ", " << e << "): " << show(l) << " expected " << show(want));
    c.nontrivial(e - b > 1);
  } else {
    const int e = static_cast<int>(c.below(n)), b = static_cast<int>(c.range(0, e)) - 1;
    for (int i = e; i > b; i--) {want[i] = v; if (i - 1 > b && !k[i - 1]) {break;}}
    FillFromRight(l, nb, b, e, v);
    CHECK(l == want, << "FillFromRight (" << b << ", " << e << "]: " << show(l) << " expected " << show(want));
    c.nontrivial(e - b > 1);
  }
}

PROP(fill_rejects_ranges_outside_the_line, 60000)
{
  const int n = c.size(1, 20);
  const Links k = links(c, n);
  const LinkCheck nb = check_of(c, k, n);
  Labels l = initial(c, n);
  const Labels before = l;
  const PointLabel v = PointLabel::Occluded;
  const int over = static_cast<int>(c.range(1, 5));
  switch (c.below(4)) {
    case 0: CHECK_THROWS(FillFromLeft(l, nb, static_cast<int>(c.below(n)), n + over, v)); break;
    case 1: CHECK_THROWS(FillFromLeft(l, nb, -over, static_cast<int>(c.range(1, n)), v)); break;
    case 2: CHECK_THROWS(FillFromRight(l, nb, static_cast<int>(c.range(0, n)) - 1, n - 1 + over, v)); break;
    default: CHECK_THROWS(FillFromRight(l, nb, -1 - over, static_cast<int>(c.below(n)), v)); break;
  }
  CHECK(l == before, << "labels changed by a rejected fill: " << show(before) << " -> " << show(l));
  c.nontrivial(n > 1);
}

static void check_selection(pbt::Case & c, int n)
{
  const int pe = static_cast<int>(c.below(8));
  const int ps = c.chance(1, 5) ? static_cast<int>(c.below(8)) : pe;
  const Links k = links(c, n);
  const LinkCheck nb = check_of(c, k, n);
  const std::vector<double> curv = curvature(c, n, true);
  const double te = threshold(c, curv), ts = c.coin() ? te : threshold(c, curv);
  Labels l = initial(c, n), want = l;
  c.note() << "n=" << n << " padding=" << pe << "/" << ps << " thr=" << te << "/" << ts << " curv=" << pbt::show(curv) << " labels " << show(l);
  model_select(want, curv, k, 0, pe, te, true);
  EdgeLabel(pe, te).Assign(l, curv, nb);
  CHECK(l == want, << "edges " << show(l) << " expected " << show(want) << " curvature " << pbt::show(curv) << " threshold " << te << " padding " << pe);
  model_select(want, curv, k, 0, ps, ts, false);
  SurfaceLabel(ps, ts).Assign(l, curv, nb);
  CHECK(l == want, << "surfaces " << show(l) << " expected " << show(want) << " curvature " << pbt::show(curv) << " threshold " << ts << " padding " << ps);
  const auto ne = std::count(l.begin(), l.end(), PointLabel::Edge), ns = std::count(l.begin(), l.end(), PointLabel::Surface);
  c.nontrivial(ne + ns > 1 && pe > 0);
  c.label("edges and surfaces", ne > 0 && ns > 0);
  c.label("broken line", std::count(k.begin(), k.end(), 0) > 0);
}

PROP(greedy_selection_equals_the_model, 120000) {check_selection(c, static_cast<int>(c.size(1, 60, 1000, 150)));}

PROP(selection_in_very_long_lines, 40)
{
  const int n = static_cast<int>(c.range(2000, 70000));
  pbt::Case b = c.bulk();
  check_selection(b, n);
  c.note() << n << " points";
  c.nontrivial(b.nontrivial_);
}

// with equal curvature values the order is free, the guarantees are not
PROP(selection_invariants_with_ties, 80000)
{
  const int n = c.size(1, 60, 1000, 150), p = static_cast<int>(c.below(7));
  const Links k = links(c, n);
  const LinkCheck nb = check_of(c, k, n);
  const std::vector<double> curv = curvature(c, n, c.chance(1, 4));
  const double te = threshold(c, curv), ts = c.coin() ? te : threshold(c, curv);
  const Labels init(n, PointLabel::Default);
  Labels l = init;
  EdgeLabel(p, te).Assign(l, curv, nb);
  const Labels mid = l;
  SurfaceLabel(p, ts).Assign(l, curv, nb);
  auto linked = [&](int a, int b) {   // unbroken
      for (int i = std::min(a, b); i < std::max(a, b); i++) {if (!k[i]) {return false;}}
      return true;
    };
  for (int i = 0; i < n; i++) {
    const std::string at = " at " + std::to_string(i) + " of " + show(l) + " curvature " + pbt::show(curv);
    CHECK(mid[i] == PointLabel::Default || mid[i] == PointLabel::Edge || mid[i] == PointLabel::EdgeNeighbor, << at);
    if (mid[i] == PointLabel::Edge) {
      CHECK(curv[i] >= te, << "edge below the threshold " << te << at);
      CHECK(l[i] == PointLabel::Edge, << "edge overwritten" << at);
    }
    if (l[i] == PointLabel::Surface) {CHECK(curv[i] <= ts && mid[i] == PointLabel::Default, << "bad surface" << at);}
    CHECK(!(mid[i] == PointLabel::Default && curv[i] >= te), << "edge candidate left unlabelled" << at);
    CHECK(!(l[i] == PointLabel::Default && curv[i] <= ts), << "surface candidate left unlabelled" << at);
    bool by_edge = false, by_surface = false;
    for (int j = std::max(0, i - p); j <= std::min(n - 1, i + p); j++) {
      if (j == i || !linked(i, j)) {continue;}
      if (mid[j] == PointLabel::Edge) {
        CHECK(mid[i] == PointLabel::EdgeNeighbor, << "point " << i << " in the window of edge " << j << " is not its neighbour" << at);
        by_edge = by_edge || curv[j] >= curv[i];
      }
      if (l[j] == PointLabel::Surface) {
        CHECK(l[i] == PointLabel::SurfaceNeighbor, << "point in the window of surface " << j << " is not its neighbour" << at);
        by_surface = by_surface || curv[j] <= curv[i] || mid[i] == PointLabel::EdgeNeighbor;
      }
    }
    if (mid[i] == PointLabel::EdgeNeighbor && curv[i] >= te) {CHECK(by_edge, << "suppressed without a stronger edge" << at);}
    if (l[i] == PointLabel::SurfaceNeighbor && mid[i] == PointLabel::Default && curv[i] <= ts) {CHECK(by_surface, << "suppressed without a flatter surface" << at);}
    if (mid[i] == PointLabel::EdgeNeighbor) {
      bool any = false;
      for (int j = std::max(0, i - p); j <= std::min(n - 1, i + p); j++) {any = any || (mid[j] == PointLabel::Edge && linked(i, j));}
      CHECK(any, << "neighbour of no edge" << at);
    }
  }
  c.nontrivial(p > 0 && n > 3);
}

PROP(blocks_are_labelled_independently, 20000)
{
  const int padding = static_cast<int>(c.range(1, 5)), blocks = static_cast<int>(c.range(1, 6));
  const int n = 2 * padding + 2 * blocks + static_cast<int>(c.size(0, 60, 1500, 150));
  const Links k = links(c, n);
  // neighbours differ by less than 0.1 rad, also where the ends of a chain of them differ by more
  pcl::PointCloud<PointXYZIR>::Ptr cl(new pcl::PointCloud<PointXYZIR>());
  std::vector<int> idx(n);
  double dir = c.real(-3., 3.);
  for (int i = 0; i < n; i++) {
    if (i > 0) {dir += (c.coin() ? 1. : -1.) * (k[i - 1] ? c.pick({0., 0.05, 0.09}) : c.pick({0.11, 0.2, 1.5, 3.1}));}
    const double r = static_cast<double>(1 + c.below(40));
    cl->push_back(PointXYZIR(static_cast<float>(r * std::cos(dir)), static_cast<float>(r * std::sin(dir)), 0.f, 0.f, 0));
    idx[i] = i;
  }
  const MappedPoints<PointXYZIR> pts(cl, idx);
  const NeighborCheckXY<PointXYZIR> nb(pts, 0.1);
  const std::vector<double> curv = curvature(c, n, true);
  const double te = threshold(c, curv), ts = c.coin() ? te : threshold(c, curv);
  const PaddedIndexRange range(n, blocks, padding);
  Labels l = initial(c, n), want = l;
  const std::string start = show(l);
  AssignLabel(l, curv, nb, range, EdgeLabel(padding, te), SurfaceLabel(padding, ts));
  // independent block borders: contiguous, even
  for (int j = 0; j < blocks; j++) {
    const int b = range.Begin(j), e = range.End(j);
    Labels part(want.begin() + b, want.begin() + e);
    const std::vector<double> cv(curv.begin() + b, curv.begin() + e);
    model_select(part, cv, k, b, padding, te, true);
    model_select(part, cv, k, b, padding, ts, false);
    std::copy(part.begin(), part.end(), want.begin() + b);
  }
  CHECK(l == want, << show(l) << " expected " << show(want) << " from " << start << " blocks " << blocks << " padding " << padding << " curvature " << pbt::show(curv) << " thresholds " << te << ", " << ts);
  for (int i = 0; i < padding; i++) {CHECK(show(l)[i] == start[i] && show(l)[n - 1 - i] == start[n - 1 - i], << "padding was labelled");}
  c.nontrivial(blocks > 1);
  c.label("broken line", std::count(k.begin(), k.end(), 0) > 0);
}

PROP(argsort_is_a_sorting_permutation, 60000)
{
  const int n = c.size(0, 100, 2000);
  const std::vector<double> v = c.coin() ? curvature(c, n, true) : curvature(c, n, false);
  const std::vector<int> s = Argsort(v.begin(), v.end());
  CHECK_EQ(s.size(), v.size());
  for (int i = 1; i < n; i++) {CHECK(v.at(s[i - 1]) <= v.at(s[i]), << "position " << i << " of " << pbt::show(v));}
  CHECK_EQ(std::set<int>(s.begin(), s.end()).size(), v.size());
  for (const int i : s) {CHECK(i >= 0 && i < n);}
  c.nontrivial(n > 2);
}

PROP(fresh_labels_are_default, 2000)
{
  const int n = c.size(0, 200, 2000);
  const Labels l = InitLabels(n);
  CHECK_EQ(l.size(), static_cast<std::size_t>(n));
  for (const auto v : l) {CHECK(v == PointLabel::Default);}
  c.nontrivial(n > 0);
}

HUGE_PROP(argsort_is_a_sorting_permutation, 16, 20000, 100000);
HUGE_PROP(blocks_are_labelled_independently, 24, 2000, 70000);
