// L10: covariance, principal axes, degeneracy.
#include "gen.hpp"
#include <algorithm>
#include "lidar_feature_localization/degenerate.hpp"
#include "lidar_feature_localization/edge.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
using Eigen::Vector3d;
MatrixXd points(pbt::Case & c, int dim)
{
  const int n = static_cast<int>(c.size(1, 40, 2000));
  MatrixXd X = gen::matrix(c, n, dim, c.pick({1., 100., 1e-3}));
  if (c.chance(1, 4)) {   // on a line
    const VectorXd u = gen::vec(c, dim, 2.), m = gen::vec(c, dim, 10.);
    for (int i = 0; i < n; i++) {X.row(i) = (m + c.num(5.) * u).transpose();}
  }
  return X;
}
Eigen::Matrix3d rotation(pbt::Case & c) {return gen::quat(c).toRotationMatrix();}
}  // namespace

PROP(mean_and_covariance_of_points, 30000)
{
  const int dim = static_cast<int>(c.range(1, 5));
  const MatrixXd X = points(c, dim);
  const int n = static_cast<int>(X.rows());
  const auto [mean, cov] = CalcMeanAndCovariance(X);
  CHECK(mean.size() == dim && cov.rows() == dim && cov.cols() == dim, << "size");
  VectorXd m = VectorXd::Zero(dim);
  for (int i = 0; i < n; i++) {m += X.row(i).transpose() / n;}
  MatrixXd C = MatrixXd::Zero(dim, dim);
  for (int i = 0; i < n; i++) {const VectorXd d = X.row(i).transpose() - m; C += d * d.transpose() / n;}
  const double s = 1. + X.cwiseAbs().maxCoeff(), tol = 1e-12 * s * s;
  CHECK_MAT(mean, m, 1e-12 * s, 0.);
  CHECK_MAT(Center(X), m, 1e-12 * s, 0.);
  CHECK_MAT(cov, C, tol, 0.);
  CHECK_MAT(cov, cov.transpose().eval(), tol, 0., << "symmetry");
  CHECK(gen::min_eig(cov) > -tol, << "not positive semi-definite");
  // shift, scale, order
  const VectorXd d = gen::vec(c, dim, 50.);
  const double k = c.num(5.);
  MatrixXd Y(n, dim);
  const auto perm = c.permutation(n);
  for (int i = 0; i < n; i++) {Y.row(i) = k * X.row(perm[i]) + d.transpose();}
  const auto [mean2, cov2] = CalcMeanAndCovariance(Y);
  const double s2 = (s * (1. + std::fabs(k)) + 50.);
  CHECK_MAT(mean2, k * m + d, 1e-11 * s2, 0., << "shifted and scaled mean");
  CHECK_MAT(cov2, k * k * C, 1e-11 * s2 * s2, 0., << "shifted and scaled covariance");
  c.nontrivial(n > 2 && dim > 1);
}

// Points whose spread is small compared with their distance from the origin (map coordinates, stamps): the covariance
// depends on the spread only. Coordinates are exact, the reference is computed from the small parts alone.
PROP(covariance_far_from_the_origin, 20000)
{
  const int dim = static_cast<int>(c.range(1, 4)), n = static_cast<int>(c.size(1, 40));
  MatrixXd small(n, dim), X(n, dim);
  VectorXd offset(dim);
  for (int j = 0; j < dim; j++) {offset(j) = std::round(c.pick({0., 1e3, 1e5, 1e7, c.pos(1., 1e8)})) * (c.coin() ? 1. : -1.);}
  for (int i = 0; i < n; i++) {for (int j = 0; j < dim; j++) {
    small(i, j) = (static_cast<double>(c.below(33)) - 16.) / 64.;
    X(i, j) = small(i, j) + offset(j);
  }}
  const VectorXd m = small.colwise().mean().transpose();
  MatrixXd C = MatrixXd::Zero(dim, dim);
  for (int i = 0; i < n; i++) {const VectorXd d = small.row(i).transpose() - m; C += d * d.transpose() / n;}
  const auto [mean, cov] = CalcMeanAndCovariance(X);
  const double e = 1e-15 * (n + 4.) * (1. + offset.cwiseAbs().maxCoeff());
  CHECK_MAT(mean, offset + m, e, 0.);
  CHECK_MAT(cov, C, 1e-12 + e * (1. + e), 0., << "offset " << gen::str(offset) << " points " << n);
  c.nontrivial(n > 2 && offset.cwiseAbs().maxCoeff() > 999.);
}

PROP(principal_components, 60000)
{
  Vector3d ev(c.pos(1e-4, 1e3), c.pos(1e-4, 1e3), c.pos(1e-4, 1e3));
  if (c.chance(1, 4)) {ev(0) = 0.;}
  if (c.chance(1, 6)) {ev(1) = ev(0);}
  if (c.chance(1, 8)) {ev(2) = ev(1);}
  const Eigen::Matrix3d R = c.chance(1, 5) ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : rotation(c);
  Eigen::Matrix3d C = R * ev.asDiagonal() * R.transpose();
  C = (0.5 * (C + C.transpose())).eval();
  const auto [values, vectors] = PrincipalComponents(C);
  std::sort(ev.data(), ev.data() + 3);
  const double tol = 1e-6 * ev(2);
  CHECK_MAT(values, ev, tol, 0., << "eigenvalues of " << gen::str(C));
  CHECK(values(0) <= values(1) + tol && values(1) <= values(2) + tol, << "order " << gen::str(values));
  for (int i = 0; i < 3; i++) {
    CHECK_NEAR(vectors.col(i).norm(), 1., 1e-6, 0., << "length of column " << i);
    // inside the eigenspace of a repeated eigenvalue every vector is an eigenvector, orthogonal or not
    for (int j = 0; j < i; j++) {
      if (ev(i) - ev(j) > 1e-3 * ev(2)) {
        CHECK_NEAR(vectors.col(i).dot(vectors.col(j)), 0., 1e-4, 0., << "columns " << i << " and " << j << " are not orthogonal for " << gen::str(C));
      }
    }
  }
  for (int i = 0; i < 3; i++) {
    CHECK_MAT(C * vectors.col(i), values(i) * vectors.col(i), 10 * tol, 0., << "column " << i << " is no eigenvector of " << gen::str(C));
  }
  c.nontrivial(ev(2) > 1.01 * ev(1));
}

PROP(reliability_of_the_principal_axis, 60000)
{
  const double mid = c.pick({0., 1., 0.5, c.pos(1e-3, 1e3)}), low = mid * c.real(0, 1);
  const double f = c.pick({1., 2., 2.999999, 3., 3.000001, 4., 100.});
  const double top = mid == 0. ? c.pick({0., 1.}) : mid * f;
  Vector3d v(low, mid, top);
  const auto p = c.permutation(3);
  const Vector3d w(v(p[0]), v(p[1]), v(p[2]));
  if (f == 3. && mid != 1. && mid != 0.5 && mid != 0.) {throw pbt::Discard{};}   // rounding of 3 * mid
  CHECK(PrincipalIsReliable(w) == (top > 3. * mid), << "eigenvalues " << gen::str(w));
  c.nontrivial(mid > 0.);
}

PROP(degeneracy, 40000)
{
  const int n = static_cast<int>(c.range(1, 7));
  VectorXd ev(n);
  for (int i = 0; i < n; i++) {ev(i) = c.pos(1e-3, 1e3);}
  if (c.chance(1, 5)) {ev(c.below(n)) = 0.;}
  MatrixXd Q = MatrixXd::Identity(n, n);
  if (c.chance(3, 4)) {Q = Eigen::HouseholderQR<MatrixXd>(gen::matrix(c, n, n, 2.) + 3. * MatrixXd::Identity(n, n)).householderQ();}
  const MatrixXd C = Q * ev.asDiagonal() * Q.transpose();
  const double thr = c.pick({0.1, 0.1, c.pos(1e-3, 1e3)});
  const double lowest = ev.minCoeff();
  if (std::fabs(lowest - thr) < 1e-9 * (1. + ev.maxCoeff())) {throw pbt::Discard{};}
  CHECK(IsDegenerate(C, thr) == (lowest < thr), << "smallest eigenvalue " << lowest << " threshold " << thr);
  if (std::fabs(lowest - 0.1) > 1e-9 * (1. + ev.maxCoeff())) {CHECK(IsDegenerate(C) == (lowest < 0.1), << "smallest eigenvalue " << lowest << " default threshold");}
  c.nontrivial(n > 1);
  c.label("degenerate", lowest < thr);
}

PROP(triplet_cross_and_xyz_block, 30000)
{
  const Vector3d p0 = gen::vec3(c, 10.), p1 = gen::vec3(c, 10.), p2 = gen::vec3(c, 10.);
  const Vector3d d = p2 - p1, n = (p0 - p1).cross(p0 - p2);
  CHECK_MAT(TripletCross(p0, p1, p2), d.cross(n), 1e-9, 1e-9);
  CHECK_NEAR(TripletCross(p0, p1, p2).dot(d), 0., 1e-6, 0., << "not orthogonal to the line");
  const int r = static_cast<int>(c.range(1, 6)), k = static_cast<int>(c.range(3, 6));
  const MatrixXd X = gen::matrix(c, r, k, 10.);
  const MatrixXd b = GetXYZ(X);
  CHECK(b.rows() == r && b.cols() == 3, << "size");
  for (int i = 0; i < r; i++) {for (int j = 0; j < 3; j++) {CHECK(b(i, j) == X(i, j), << "element " << i << ", " << j);}}
  c.nontrivial();
}

HUGE_PROP(mean_and_covariance_of_points, 24, 10000, 140000);
