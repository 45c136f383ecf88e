// L03: robust statistics.
#include "gen.hpp"
#include <algorithm>
#include "lidar_feature_library/stats.hpp"
#include "lidar_feature_localization/robust.hpp"

namespace
{
using Eigen::VectorXd;
double median(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  const std::size_t n = v.size();
  return n % 2 ? v[n / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]);
}
double mad(const std::vector<double> & v)
{
  const double m = median(v);
  std::vector<double> d;
  for (const double x : v) {d.push_back(std::fabs(x - m));}
  return median(d);
}
const double B = 1.482602218505602;   // 1 / inverse normal CDF (3/4)
std::vector<double> sample(pbt::Case & c)
{
  std::vector<double> v;
  const int n = static_cast<int>(c.size(1, 60, 3000)), kind = static_cast<int>(c.below(4));
  for (int i = 0; i < n; i++) {
    switch (kind) {
      case 0: v.push_back(static_cast<double>(c.below(5))); break;         // many ties
      case 1: v.push_back(c.num(100.)); break;
      case 2: v.push_back(c.pos(1e-8, 1e8)); break;
      default: v.push_back(c.chance(1, 5) ? c.num(1e6) : c.real(-1, 1)); break;
    }
  }
  return v;
}
VectorXd eig(const std::vector<double> & v) {return VectorXd::Map(v.data(), v.size());}
double size_of(const std::vector<double> & v) {double m = 0; for (const double x : v) {m = std::max(m, std::fabs(x));} return m;}
}  // namespace

PROP(median_and_deviation_equal_their_definitions, 60000)
{
  const std::vector<double> v = sample(c);
  const VectorXd x = eig(v);
  const double tol = 1e-12 * (1. + size_of(v));
  CHECK_NEAR(Median(x), median(v), tol, 0., << pbt::show(v));
  CHECK_NEAR(Median(Eigen::ArrayXd(x.array())), median(v), tol, 0., << pbt::show(v));
  CHECK_NEAR(MedianAbsoluteDeviation(x), mad(v), tol, 0., << pbt::show(v));
  CHECK_NEAR(Scale(x), B * mad(v), 2 * tol, 1e-9, << pbt::show(v));
  CHECK(x == eig(v), << "the sample was modified");
  // order
  VectorXd p(x.size());
  const auto perm = c.permutation(v.size());
  for (std::size_t i = 0; i < perm.size(); i++) {p(i) = x(perm[i]);}
  CHECK_NEAR(Median(p), Median(x), tol, 0.);
  CHECK_NEAR(Scale(p), Scale(x), tol, 1e-12);
  // shift and scale
  const double d = c.num(100.), k = c.num(10.);
  const double t2 = 1e-11 * (1. + size_of(v)) * (1. + std::fabs(k)) + 1e-11 * std::fabs(d);
  CHECK_NEAR(Median(((k * x).array() + d).matrix().eval()), k * Median(x) + d, t2, 0., << "k " << k << " d " << d);
  CHECK_NEAR(Scale(((k * x).array() + d).matrix().eval()), std::fabs(k) * Scale(x), t2, 0., << "k " << k << " d " << d);
  c.nontrivial(v.size() > 2 && mad(v) > 0.);
  c.label("even", v.size() % 2 == 0);
  c.label("zero scale", mad(v) == 0.);
}

PROP(scale_ignores_a_minority_of_outliers, 60000)
{
  const int n = static_cast<int>(c.size(3, 41, 800)), bad = static_cast<int>(c.range(0, (n - 1) / 2));
  std::vector<double> v;
  double lo = 1e9, hi = -1e9;
  for (int i = 0; i < n - bad; i++) {v.push_back(c.real(-1, 1)); lo = std::min(lo, v.back()); hi = std::max(hi, v.back());}
  for (int i = 0; i < bad; i++) {v.push_back(c.pos(1e2, 1e12) * (c.coin() ? 1 : -1));}
  const auto perm = c.permutation(v.size());
  VectorXd x(n);
  for (int i = 0; i < n; i++) {x(i) = v[perm[i]];}
  CHECK(Median(x) >= lo && Median(x) <= hi, << "median " << Median(x) << " outside the inliers [" << lo << ", " << hi << "] with " << bad << " outliers of " << n);
  CHECK(Scale(x) <= B * (hi - lo) * (1 + 1e-9), << "scale " << Scale(x) << " of inliers [" << lo << ", " << hi << "] with " << bad << " outliers of " << n);
  c.nontrivial(bad > 0);
}

PROP(huber_loss, 150000)
{
  const double k = c.coin() ? 1.345 : c.pos(1e-3, 1e3);
  const double x = c.pick({0., 1., 1. - 1e-9, 1. + 1e-9, 0.5, 2.}) * k * (c.coin() ? 1. : c.pos(1e-6, 1e3));   // residual, e = x^2
  const double e = x * x;
  const double want = e < k * k ? e : 2 * k * std::sqrt(e) - k * k;      // x^2 inside, 2k|x| - k^2 outside
  CHECK_NEAR(Huber(e, k), want, 1e-300, 1e-9, << "e " << e << " k " << k);
  CHECK_NEAR(HuberDerivative(e, k), e <= k * k ? 1. : k / x, 0., 1e-9, << "e " << e << " k " << k);
  // default threshold
  CHECK_NEAR(Huber(e), Huber(e, 1.345), 0., 0.);
  CHECK_NEAR(HuberDerivative(e), HuberDerivative(e, 1.345), 0., 0.);
  // continuity at the threshold, loss and slope
  const double a = k * k * (1 - 1e-10), b = k * k * (1 + 1e-10);
  CHECK_NEAR(Huber(a, k), Huber(b, k), 0., 1e-9, << "jump at the threshold " << k);
  CHECK_NEAR(HuberDerivative(a, k), HuberDerivative(b, k), 0., 1e-9, << "kink at the threshold " << k);
  // the derivative is the slope
  const double h = 1e-6 * (e + 1e-3 * k * k);
  if (e > 2 * h && std::fabs(e - k * k) > 2 * h) {
    CHECK_NEAR(HuberDerivative(e, k), (Huber(e + h, k) - Huber(e - h, k)) / (2 * h), 1e-5, 1e-5, << "e " << e << " k " << k);
  }
  // weights
  const double w = HuberDerivative(e, k), e2 = e + c.pos(1e-6, 1e6);
  CHECK(w > 0. && w <= 1., << "weight " << w);
  CHECK(HuberDerivative(e2, k) <= w, << "weight rises from " << e << " to " << e2);
  CHECK(Huber(e2, k) > Huber(e, k) - 1e-12 * Huber(e, k), << "loss falls from " << e << " to " << e2);
  c.nontrivial(e > 0.);
  c.label("outside", e > k * k);
}

PROP(empty_samples_are_rejected, 50)
{
  const VectorXd none(0);
  CHECK_THROWS(Median(none));
  CHECK_THROWS(Median(Eigen::ArrayXd(none.array())));
  CHECK_THROWS(MedianAbsoluteDeviation(none));
  CHECK_THROWS(Scale(none));
  c.nontrivial();
}

HUGE_PROP(median_and_deviation_equal_their_definitions, 40, 10000, 140000);
HUGE_PROP(scale_ignores_a_minority_of_outliers, 40, 10000, 140000);
