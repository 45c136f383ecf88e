// B03: views, index sorting, filtering, numeric helpers.
#include "gen.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <list>
#include <set>
#include <pcl/point_types.h>
#include "lidar_feature_extraction/algorithm.hpp"
#include "lidar_feature_extraction/iterator.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/range_message.hpp"
#include "lidar_feature_library/algorithm.hpp"
#include "lidar_feature_library/degree_to_radian.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/numeric.hpp"
#include "lidar_feature_library/random.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_library/stats.hpp"
#include "lidar_feature_localization/filter.hpp"
#include "lidar_feature_localization/math.hpp"
#include "lidar_feature_localization/rad2deg.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
using Eigen::Vector3d;
const double INF = std::numeric_limits<double>::infinity();

template<class Span>
bool rejected(Span & s, int i)
{
  try {(void)s.at(i);} catch (const std::out_of_range &) {return true;}
  return false;
}
std::vector<double> values(pbt::Case & c, int n)
{
  std::vector<double> v;
  const bool ties = c.coin();
  for (int i = 0; i < n; i++) {v.push_back(ties ? static_cast<double>(c.range(-3, 3)) : c.num(1e6));}
  return v;
}
}  // namespace

// a history of reads and writes through overlapping views, against plain indices
PROP(views_alias_their_range, 60000)
{
  const int n = static_cast<int>(c.size(0, 30));
  std::vector<int> v(n), model(n);
  for (int i = 0; i < n; i++) {v[i] = model[i] = static_cast<int>(c.range(-100, 100));}
  struct View {int b, e;};
  std::vector<View> views;
  for (int k = 0; k < 3; k++) {const int b = static_cast<int>(c.range(0, n)); views.push_back({b, static_cast<int>(c.range(b, n))});}
  bool wrote = false;
  for (int k = static_cast<int>(c.size(1, 20)); k > 0; k--) {
    const View w = views[c.below(3)];
    span<int> s(v.begin() + w.b, v.begin() + w.e);
    const const_span<int> k_(v.cbegin() + w.b, v.cbegin() + w.e);
    const int size = w.e - w.b;
    CHECK_EQ(s.size(), size); CHECK_EQ(k_.size(), size);
    CHECK(s.begin() == v.begin() + w.b && s.end() == v.begin() + w.e && k_.begin() == v.cbegin() + w.b && k_.end() == v.cbegin() + w.e, << "limits of the view");
    const int i = static_cast<int>(c.pick<std::int64_t>({c.range(0, 30), c.range(-3, size + 3), -1, size, size - 1, 0, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}));
    if (i < 0 || i >= size) {
      CHECK(rejected(s, i), << "index " << i << " of a view of " << size << " accepted");
      CHECK(rejected(k_, i), << "index " << i << " of a read-only view of " << size << " accepted");
    } else {
      CHECK_EQ(k_.at(i), model[w.b + i], << "element " << i); CHECK_EQ(s.at(i), model[w.b + i], << "element " << i);
      const int x = static_cast<int>(c.range(-100, 100));
      s.at(i) = x; model[w.b + i] = x;
      wrote = true;
      CHECK(&s.at(i) == &v[w.b + i], << "not an alias");
    }
    CHECK(std::vector<int>(s.begin(), s.end()) == std::vector<int>(model.begin() + w.b, model.begin() + w.e), << "iteration");
    CHECK(v == model, << "elements outside the view changed");
  }
  c.nontrivial(wrote);
}

PROP(index_sorting, 60000)
{
  const int n = static_cast<int>(c.size(0, 60, 2000));
  const std::vector<double> v = values(c, n);
  const std::vector<int> order = Argsort(v.begin(), v.end());
  CHECK_EQ(order.size(), v.size());
  std::set<int> seen(order.begin(), order.end());
  CHECK(static_cast<int>(seen.size()) == n && (n == 0 || (*seen.begin() == 0 && *seen.rbegin() == n - 1)), << "not a permutation: " << pbt::show(order));
  for (int i = 1; i < n; i++) {CHECK(v[order[i - 1]] <= v[order[i]], << "not sorted at " << i << " " << pbt::show(v));}
  // sub-ranges count from their first element
  const int b = static_cast<int>(c.range(0, n)), e = static_cast<int>(c.range(b, n));
  const auto part = Argsort(v.begin() + b, v.begin() + e);
  CHECK_EQ(static_cast<int>(part.size()), e - b);
  for (std::size_t i = 1; i < part.size(); i++) {CHECK(v[b + part[i - 1]] <= v[b + part[i]], << "sub-range not sorted");}
  CHECK(std::set<int>(part.begin(), part.end()).size() == part.size(), << "sub-range: not a permutation");
  for (const int i : part) {CHECK(0 <= i && i < e - b, << "sub-range: index " << i << " of " << e - b);}
  const auto is = irange(n);
  CHECK_EQ(static_cast<int>(is.size()), n);
  for (int i = 0; i < n; i++) {CHECK_EQ(is[i], i);}
  c.nontrivial(n > 2);
}

PROP(selection_by_flag_index_and_value, 60000)
{
  const int n = static_cast<int>(c.size(0, 40, 800));
  const std::vector<double> v = values(c, n);
  std::vector<bool> flags(n);
  std::vector<double> kept;
  for (int i = 0; i < n; i++) {flags[i] = c.coin(); if (flags[i]) {kept.push_back(v[i]);}}
  CHECK(Filter(flags, v) == kept, << "filtered " << pbt::show(v));
  std::vector<Vector3d> points;
  for (int i = 0; i < n; i++) {points.push_back(Vector3d(v[i], i, -i));}
  const auto some = Filter(flags, points);
  CHECK_EQ(some.size(), kept.size());
  for (std::size_t i = 0; i < some.size(); i++) {CHECK_EQ(some[i](0), kept[i]);}
  // gather
  std::vector<std::size_t> indices;
  std::vector<double> want;
  if (n > 0) {for (int k = static_cast<int>(c.size(0, 30)); k > 0; k--) {indices.push_back(c.below(n)); want.push_back(v[indices.back()]);}}
  CHECK(GetByIndices(indices, v) == want, << "gathered " << pbt::show(v));
  std::vector<std::size_t> bad = indices;
  bad.insert(bad.begin() + c.below(bad.size() + 1), n + c.below(3));
  CHECK_THROWS(GetByIndices(bad, v), << "index beyond the end accepted");
  // find
  std::vector<int> labels;
  for (int i = 0; i < n; i++) {labels.push_back(static_cast<int>(c.below(3)));}
  for (int l = 0; l < 4; l++) {
    std::vector<std::size_t> at;
    for (int i = 0; i < n; i++) {if (labels[i] == l) {at.push_back(i);}}
    CHECK(GetIndicesByValue(labels, l) == at, << "positions of " << l << " in " << pbt::show(labels));
  }
  c.nontrivial(!kept.empty() && static_cast<int>(kept.size()) < n);
}

PROP(matrices_from_sequences, 40000)
{
  const int n = static_cast<int>(c.size(0, 20)), k = static_cast<int>(c.range(1, 5));
  const auto v = values(c, n);
  const VectorXd e = VectorToEigen(v);
  CHECK_EQ(static_cast<int>(e.size()), n);
  for (int i = 0; i < n; i++) {CHECK_EQ(e(i), v[i]);}
  const MatrixXd M = gen::matrix(c, n, k, 100.);
  std::vector<std::uint64_t> rows;
  if (n > 0) {for (int i = static_cast<int>(c.size(0, 20)); i > 0; i--) {rows.push_back(c.below(n));}}
  const MatrixXd G = GetRows(M, rows);
  CHECK(G.rows() == static_cast<int>(rows.size()) && G.cols() == k, << "size of the selected rows");
  for (std::size_t i = 0; i < rows.size(); i++) {CHECK(G.row(i) == M.row(rows[i]), << "row " << i);}
  std::vector<Vector3d> vs;
  std::vector<Eigen::Matrix<double, 2, 3>> ms;
  for (int i = 0; i < n; i++) {vs.push_back(gen::vec3(c, 10.)); ms.push_back(gen::matrix(c, 2, 3, 10.));}
  const MatrixXd X = VectorsToEigen<3>(vs), Y = HorizontalStack<2, 3>(ms);
  CHECK(X.rows() == n && X.cols() == 3 && Y.rows() == 2 * n && Y.cols() == 3, << "sizes");
  for (int i = 0; i < n; i++) {
    CHECK(X.row(i).transpose() == vs[i], << "vector " << i);
    CHECK((Y.block<2, 3>(2 * i, 0) == ms[i]), << "matrix " << i);
  }
  // covariance arrays are row-major and round-trip
  std::array<double, 36> a;
  for (auto & x : a) {x = c.num(100.);}
  const Matrix6d C = GetEigenCovariance(a);
  for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {CHECK_EQ(C(i, j), a[6 * i + j], << i << " " << j);}}
  CHECK(FromEigenCovariance(C) == a, << "round trip");
  // the text of a matrix holds its elements
  std::istringstream text(EigenToString(M));
  for (int i = 0; i < n; i++) {for (int j = 0; j < k; j++) {double x = NAN; text >> x; CHECK_NEAR(x, M(i, j), 1e-3, 1e-4, << "text of " << gen::str(M));}}
  c.nontrivial(n > 1 && rows.size() > 1);
}

PROP(non_finite_elements_are_found, 60000)
{
  const int r = static_cast<int>(c.range(1, 6)), k = static_cast<int>(c.range(1, 6));
  MatrixXd M = gen::matrix(c, r, k, c.pick({1., 1e300}));
  if (c.chance(1, 4)) {M(c.below(r), c.below(k)) = c.pick({std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min()});}
  CHECK(!HasInf(M) && !HasNan(M), << "finite matrix " << gen::str(M));
  const double bad = c.pick({INF, -INF, std::nan("")});
  M(c.below(r), c.below(k)) = bad;
  CHECK_EQ(HasInf(M), std::isinf(bad), << gen::str(M)); CHECK_EQ(HasNan(M), std::isnan(bad), << gen::str(M));
  if (r * k > 1 && c.coin()) {
    const int i = static_cast<int>(c.below(r)), j = static_cast<int>(c.below(k));
    const bool over = (std::isnan(M(i, j)) || std::isinf(M(i, j)));
    if (!over) {M(i, j) = std::isnan(bad) ? INF : std::nan(""); CHECK(HasInf(M) && HasNan(M), << gen::str(M));}
  }
  c.nontrivial(r * k > 1);
}

PROP(numeric_definitions, 100000)
{
  const double d = c.num(c.pick({1., 360., 1e5}));
  CHECK_NEAR(DegreeToRadian(d), d / 180. * 3.14159265358979323846, 0., 4e-16, << d);
  const MatrixXd A = gen::matrix(c, static_cast<int>(c.range(1, 3)), static_cast<int>(c.range(1, 3)), 10.);
  CHECK_MAT(Rad2Deg(A), A / 3.14159265358979323846 * 180., 0., 1e-15);
  CHECK_MAT(Rad2Deg(MatrixXd::Constant(1, 1, DegreeToRadian(d))), MatrixXd::Constant(1, 1, d), 0., 1e-15, << "round trip");
  Vector3d v(c.num(10.), c.num(10.), c.num(10.));
  if (c.chance(1, 3)) {v(c.below(3)) = v(c.below(3));}
  std::array<double, 3> s{v(0), v(1), v(2)};
  std::sort(s.begin(), s.end());
  CHECK(SortThreeValues(v) == Vector3d(s[0], s[1], s[2]), << gen::str(v));
  // inner product of any two sequences
  const int n = static_cast<int>(c.size(0, 20));
  const auto a = values(c, n), b = values(c, n);
  long double dot = 0, scale = 0;
  for (int i = 0; i < n; i++) {dot += static_cast<long double>(a[i]) * b[i]; scale += std::fabs(a[i] * b[i]);}
  const std::list<double> l(b.begin(), b.end());
  CHECK_NEAR(InnerProduct(a.begin(), a.end(), l.begin()), static_cast<double>(dot), 1e-15 * (n + 1) * static_cast<double>(scale), 0., << pbt::show(a) << pbt::show(b));
  CHECK_NEAR(XYNorm(v(0), v(1)), std::hypot(v(0), v(1)), 0., 1e-15, << gen::str(v));
  const int x = static_cast<int>(c.range(-100, 100)), y = static_cast<int>(c.range(-100, 100));
  const std::string l1 = "a (which is " + std::to_string(x) + ") ", l2 = " b (which is " + std::to_string(y) + ")";
  CHECK_EQ(RangeMessageLargerThanOrEqualTo("a", "b", x, y), l1 + ">=" + l2); CHECK_EQ(RangeMessageSmallerThanOrEqualTo("a", "b", x, y), l1 + "<=" + l2);
  CHECK_EQ(RangeMessageLargerThan("a", "b", x, y), l1 + ">" + l2); CHECK_EQ(RangeMessageSmallerThan("a", "b", x, y), l1 + "<" + l2);
  c.nontrivial(n > 1 && v(0) != v(1));
}

PROP(spread_and_median, 60000)
{
  const int n = static_cast<int>(c.size(1, 50, 3000));
  auto v = values(c, n);
  const double offset = c.chance(1, 3) ? c.pick({1e3, 1e6, -1e9}) : 0.;      // far from zero compared with the spread
  for (double & x : v) {x += offset;}
  const VectorXd e = Eigen::Map<const VectorXd>(v.data(), n);
  auto s = v;
  std::sort(s.begin(), s.end());
  const double median = n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2.;
  CHECK_EQ(Median(e), median, << pbt::show(v)); CHECK_EQ(Median(Eigen::ArrayXd(e.array())), median, << pbt::show(v));
  if (n > 1) {
    long double mean = 0, sum = 0, peak = 0;
    for (const double x : v) {mean += x / static_cast<long double>(n); peak = std::max<long double>(peak, std::fabs(x));}
    for (const double x : v) {sum += (x - mean) * (x - mean);}
    CHECK_NEAR(SampleStandardDeviation(e), static_cast<double>(std::sqrt(sum / (n - 1))), 1e-13 * static_cast<double>(peak), 1e-12, << pbt::show(v));
  }
  CHECK_THROWS(Median(VectorXd()), << "median of nothing");
  CHECK_THROWS(Median(Eigen::ArrayXd()), << "median of nothing");
  c.nontrivial(n > 2);
}

PROP(random_indices_are_a_permutation, 20000)
{
  const std::size_t n = c.size(0, 200);
  const auto a = RandomizedUniqueIndices(n);
  CHECK_EQ(a.size(), n);
  std::vector<bool> seen(n, false);
  for (const std::size_t i : a) {CHECK(i < n && !seen[i], << "index " << i << " repeated or out of range, size " << n); seen[i] = true;}
  if (n >= 60) {
    // two shuffles of 60 or more agree with probability below 1e-80
    CHECK(RandomizedUniqueIndices(n) != a, << "the same order twice, size " << n);
  }
  c.nontrivial(n > 2);
}

PROP(normal_distribution_is_an_affine_image_of_the_standard_one, 20000)
{
  const double mean = c.num(100.), stddev = c.pos(1e-3, 100.);
  NormalDistribution<double> d(mean, stddev), standard(0., 1.);
  double sum = 0., square = 0.;
  const int n = static_cast<int>(c.pick({20, 20, 20, 2000}));
  for (int i = 0; i < n; i++) {
    const double x = d(), z = standard();
    CHECK_NEAR(x, mean + stddev * z, 1e-12 * (std::fabs(mean) + stddev * (1. + std::fabs(z))), 0., << "draw " << i);
    sum += z; square += z * z;
  }
  if (n == 2000) {
    CHECK(std::fabs(sum / n) < 0.2 && std::fabs(square / n - 1.) < 0.25, << "mean " << sum / n << ", second moment " << square / n << " of " << n << " standard draws");
  }
  c.nontrivial(mean != 0.);
}

// least squares: the residual is orthogonal to the columns
PROP(linear_solve, 40000)
{
  const int k = static_cast<int>(c.range(1, 6)), n = k + static_cast<int>(c.range(0, 6));
  MatrixXd A = gen::matrix(c, n, k, 3.);
  for (int i = 0; i < k; i++) {A(i, i) += A(i, i) < 0. ? -10. : 10.;}
  if (Eigen::JacobiSVD<MatrixXd>(A).singularValues()(k - 1) < 0.05) {throw pbt::Discard{};}
  const VectorXd b = gen::vec(c, n, 10.), x = SolveLinear(A, b);
  CHECK_EQ(static_cast<int>(x.size()), k);
  CHECK_MAT(A.transpose() * (A * x - b), VectorXd::Zero(k), 1e-9, 0., << gen::str(A) << gen::str(b));
  c.nontrivial(k > 1);
}
