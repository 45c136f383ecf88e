// L01: the weighted Gauss-Newton step.
#include "gen.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/degenerate.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
using Eigen::Vector3d;
using Mat76 = Eigen::Matrix<double, 7, 6>;

struct Problem
{
  std::vector<MatrixXd> J;
  std::vector<VectorXd> r;
  std::vector<double> w;
  void add(const MatrixXd & j, const VectorXd & x, double weight) {J.push_back(j); r.push_back(x); w.push_back(weight);}
  VectorXd weights() const {return VectorXd::Map(w.data(), w.size());}
};
Problem problem(pbt::Case & c, int rank_limit)
{
  Problem p;
  const int n = static_cast<int>(c.size(rank_limit < 7 ? 1 : 3, 30, 400));
  const MatrixXd basis = gen::matrix(c, 7, rank_limit, 3.);
  for (int i = 0; i < n; i++) {
    const int k = static_cast<int>(c.range(1, 3));
    const MatrixXd j = rank_limit < 7 ? (gen::matrix(c, k, rank_limit, 3.) * basis.transpose()).eval() : gen::matrix(c, k, 7, 10.);
    p.add(j, gen::vec(c, k, 10.), c.chance(1, 3) ? 1. : c.pos(1e-2, 1.));
  }
  return p;
}
MatrixXd normal_matrix(const Problem & p, bool weighted)
{
  MatrixXd A = MatrixXd::Zero(7, 7);
  for (std::size_t i = 0; i < p.J.size(); i++) {A += (weighted ? p.w[i] : 1.) * p.J[i].transpose() * p.J[i];}
  return A;
}
Mat76 tangent(const Eigen::Quaterniond & q)
{
  // derivative of q * (1, d / 2) with respect to d, and identity for the translation
  Mat76 M = Mat76::Zero();
  for (int k = 0; k < 3; k++) {
    const Eigen::Quaterniond e(0, k == 0, k == 1, k == 2);
    const Eigen::Quaterniond d = q * e;
    M(0, k) = 0.5 * d.w(); M(1, k) = 0.5 * d.x(); M(2, k) = 0.5 * d.y(); M(3, k) = 0.5 * d.z();
    M(4 + k, 3 + k) = 1.;
  }
  return M;
}
// minimiser of sum w |r + J M d|^2 by QR of the stacked system; cond: its condition number
VectorXd minimiser(const Problem & p, const Mat76 & M, double & cond)
{
  int rows = 0;
  for (const auto & j : p.J) {rows += static_cast<int>(j.rows());}
  MatrixXd A(rows, 6);
  VectorXd b(rows);
  int at = 0;
  for (std::size_t i = 0; i < p.J.size(); i++) {
    const int k = static_cast<int>(p.J[i].rows());
    A.middleRows(at, k) = std::sqrt(p.w[i]) * p.J[i] * M;
    b.segment(at, k) = -std::sqrt(p.w[i]) * p.r[i];
    at += k;
  }
  const Eigen::JacobiSVD<MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
  const auto s = svd.singularValues();
  cond = s.size() < 6 || s(5) <= 0. ? 1e300 : s(0) / s(5);
  return svd.solve(b);
}
}  // namespace

PROP(update_is_the_weighted_least_squares_minimiser, 30000)
{
  Problem p = problem(c, 7);
  const Eigen::Quaterniond q = gen::quat(c);
  const Mat76 M = MakeM(q);
  CHECK_MAT(M, tangent(q), 1e-12, 0., << "tangent map");
  const double lowest = Eigen::SelfAdjointEigenSolver<MatrixXd>(normal_matrix(p, false)).eigenvalues().cwiseAbs().minCoeff();
  double cond;
  const VectorXd want = minimiser(p, M, cond);
  if (lowest < 0.11 || cond > 1e3) {throw pbt::Discard{};}
  const double tol = 1e-9 * (1. + want.norm()) * cond;
  const VectorXd got = WeightedUpdate(M, p.weights(), p.J, p.r);
  CHECK_MAT(got, want, tol, 0., << "condition " << cond);
  // order of the residuals
  Problem perm;
  for (const auto i : c.permutation(p.J.size())) {perm.add(p.J[i], p.r[i], p.w[i]);}
  CHECK_MAT(WeightedUpdate(M, perm.weights(), perm.J, perm.r), got, tol, 0., << "permuted residuals");
  // one residual vector split into its rows
  Problem split;
  for (std::size_t i = 0; i < p.J.size(); i++) {
    for (int k = 0; k < p.J[i].rows(); k++) {split.add(p.J[i].row(k), p.r[i].segment(k, 1), p.w[i]);}
  }
  CHECK_MAT(WeightedUpdate(M, split.weights(), split.J, split.r), got, tol, 0., << "split residuals");
  // residuals of weight zero
  Problem more = p;
  for (int i = 0, k = static_cast<int>(c.range(1, 3)); i < k; i++) {more.add(gen::matrix(c, 2, 7, 10.), gen::vec(c, 2, 100.), 0.);}
  CHECK_MAT(WeightedUpdate(M, more.weights(), more.J, more.r), got, tol, 0., << "residuals of weight zero added");
  // common factor of all weights
  Problem scaled = p;
  const double f = c.coin() ? c.pos(1e-2, 1e2) : std::ldexp(1., static_cast<int>(c.range(-60, 20)));
  for (auto & w : scaled.w) {w *= f;}
  CHECK_MAT(WeightedUpdate(M, scaled.weights(), scaled.J, scaled.r), got, tol, 0., << "weights times " << f);
  // a residual in a unit a thousand times smaller, its weight a million times smaller, is the same residual
  Problem units = p;
  for (std::size_t i = 0; i < p.J.size(); i++) {
    const int e = c.chance(1, 3) ? static_cast<int>(c.range(0, 25)) : 0;
    units.J[i] *= std::ldexp(1., e); units.r[i] *= std::ldexp(1., e); units.w[i] *= std::ldexp(1., -2 * e);
  }
  // (as long as rounding cannot move the smallest eigenvalue to the limit)
  if (normal_matrix(units, false).trace() * 1e-13 < 1e-2) {
    CHECK_MAT(WeightedUpdate(M, units.weights(), units.J, units.r), got, tol, 0., << "residuals in other units");
  }
  // residual zero: no update
  Problem zero = p;
  for (auto & r : zero.r) {r.setZero();}
  CHECK_MAT(WeightedUpdate(M, zero.weights(), zero.J, zero.r), VectorXd::Zero(6), 1e-300, 0.);
  // as a step of the pose
  const auto [dq, dt] = CalcUpdate(q, p.weights(), p.J, p.r);
  const Vector3d th = want.head(3);
  const double a = th.norm();
  const Eigen::Quaterniond e(Eigen::AngleAxisd(a, a > 0 ? Vector3d(th / a) : Vector3d(1, 0, 0)));
  CHECK_NEAR(dq.norm(), 1., 1e-12, 0.);
  CHECK(std::fabs(dq.dot(e)) > 1. - 1e-9 - tol, << "rotation step");
  CHECK_MAT(dt, want.tail(3), tol, 0.);
  c.note() << p.J.size() << " residuals, condition " << cond;
  c.nontrivial(p.J.size() > 3 && want.norm() > 1e-6);
}

PROP(degenerate_problems_give_no_update, 20000)
{
  const int rank = static_cast<int>(c.range(0, 6));
  Problem p = rank > 0 && c.chance(4, 5) ? problem(c, rank) : problem(c, 7);
  if (c.chance(1, 4)) {for (auto & j : p.J) {j *= std::ldexp(1., -static_cast<int>(c.below(12)));}}
  const Eigen::Quaterniond q = gen::quat(c);
  const Mat76 M = MakeM(q);
  const double lowest = Eigen::SelfAdjointEigenSolver<MatrixXd>(normal_matrix(p, false)).eigenvalues().cwiseAbs().minCoeff();
  const Vector6d dx = WeightedUpdate(M, p.weights(), p.J, p.r);
  CHECK(dx.allFinite(), << "update " << gen::str(dx));
  if (lowest < 0.1 * (1. - 1e-6)) {
    CHECK(dx == Vector6d::Zero(), << "smallest eigenvalue " << lowest << ", update " << gen::str(dx));
    const auto [dq, dt] = CalcUpdate(q, p.weights(), p.J, p.r);
    CHECK(dq.w() == 1. && dq.vec().norm() == 0. && dt.norm() == 0., << "pose step of a degenerate problem");
    c.nontrivial(p.J.size() > 1);
    c.label("degenerate");
  } else if (lowest > 0.1 * (1. + 1e-6)) {
    double g = 0.;
    for (std::size_t i = 0; i < p.J.size(); i++) {g = std::max(g, (M.transpose() * p.J[i].transpose() * p.r[i]).norm());}
    c.label("regular");
  }
}

PROP(errors_and_weights_of_residuals, 60000)
{
  const int n = static_cast<int>(c.size(1, 40, 400));
  std::vector<VectorXd> r;
  for (int i = 0; i < n; i++) {r.push_back(gen::vec(c, static_cast<int>(c.range(1, 3)), c.pick({1., 1e-3, 1e3})));}
  const VectorXd e = ComputeErrors(r);
  CHECK_EQ(e.size(), static_cast<Eigen::Index>(n));
  for (int i = 0; i < n; i++) {CHECK_NEAR(e(i), r[i].squaredNorm(), 1e-300, 1e-12);}
  const auto [normalized, scale] = NormalizeErrorScale(e);
  CHECK_NEAR(scale, Scale(e), 1e-300, 1e-12);
  CHECK_EQ(normalized.size(), e.size());
  if (scale > 1e-9) {CHECK_MAT(normalized, e / scale, 1e-300, 1e-6);}
  const VectorXd w = ComputeWeights(normalized);
  CHECK_EQ(w.size(), e.size());
  for (int i = 0; i < n; i++) {
    CHECK(w(i) > 0. && w(i) <= 1., << "weight " << w(i) << " of normalised error " << normalized(i));
    for (int k = 0; k < n; k++) {if (e(i) < e(k)) {CHECK(w(i) >= w(k), << "errors " << e(i) << " < " << e(k) << " weights " << w(i) << ", " << w(k));}}
  }
  c.nontrivial(n > 2);
}
