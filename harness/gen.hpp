// Generators and helpers shared by the harnesses that use Eigen.
#pragma once
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/Geometry>
#include "pbt.hpp"

namespace gen
{
using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::Vector3d;

inline MatrixXd matrix(pbt::Case & c, int r, int k, double m)
{
  MatrixXd M(r, k);
  for (int i = 0; i < r; i++) {for (int j = 0; j < k; j++) {M(i, j) = c.num(m);}}
  return M;
}
inline VectorXd vec(pbt::Case & c, int n, double m)
{
  VectorXd v(n);
  for (int i = 0; i < n; i++) {v(i) = c.num(m);}
  return v;
}
inline Vector3d vec3(pbt::Case & c, double m) {return vec(c, 3, m);}
// symmetric positive (semi-)definite with added diagonal eps
inline MatrixXd spd(pbt::Case & c, int n, double m, double eps)
{
  const MatrixXd L = matrix(c, n, n, m);
  return L * L.transpose() + eps * MatrixXd::Identity(n, n);
}
inline Vector3d unit3(pbt::Case & c)
{
  Vector3d v;
  switch (c.below(3)) {
    case 0: v = Vector3d::Unit(c.below(3)); break;
    default: v = Vector3d(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)); break;
  }
  if (v.norm() < 1e-3) {v = Vector3d(0, 0, 1);}
  return v.normalized();
}
// angle: special values and everything in between
inline double angle(pbt::Case & c, double max)
{
  switch (c.below(5)) {
    case 0: return 0.;
    case 1: return c.real(-max, max);
    case 2: return std::ldexp(c.real(-1, 1), -static_cast<int>(c.below(40)));
    case 3: return c.pick({M_PI_2, -M_PI_2, M_PI_4, M_PI / 3}) * (max < M_PI_2 ? max / M_PI_2 : 1.);
    default: return max * (1. - std::ldexp(c.real(0, 1), -static_cast<int>(c.below(30)))) * (c.coin() ? 1 : -1);
  }
}
inline Eigen::Quaterniond quat(pbt::Case & c, double max_angle = M_PI)
{
  const Vector3d a = unit3(c);
  Eigen::Quaterniond q(Eigen::AngleAxisd(angle(c, max_angle), a));
  q.normalize();
  if (c.coin()) {q.coeffs() = -q.coeffs();}
  return q;
}
inline Eigen::Isometry3d iso(pbt::Case & c, double m, double max_angle = M_PI)
{
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  T.linear() = quat(c, max_angle).toRotationMatrix();
  T.translation() = vec3(c, m);
  return T;
}
template<class D>
inline std::string str(const Eigen::MatrixBase<D> & m)
{
  std::ostringstream s; s.precision(17);
  s << m.format(Eigen::IOFormat(Eigen::FullPrecision, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]"));
  return s.str();
}
template<class A, class B>
inline bool near(const Eigen::MatrixBase<A> & a, const Eigen::MatrixBase<B> & b, double abs_tol, double rel_tol = 0.)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {return false;}
  for (int i = 0; i < a.rows(); i++) {
    for (int j = 0; j < a.cols(); j++) {
      if (!pbt::nearly(a(i, j), b(i, j), abs_tol, rel_tol)) {return false;}
    }
  }
  return true;
}
inline MatrixXd symmetrised(const MatrixXd & P) {return 0.5 * (P + P.transpose());}
inline double min_eig(const MatrixXd & P)
{
  return Eigen::SelfAdjointEigenSolver<MatrixXd>(symmetrised(P)).eigenvalues().minCoeff();
}
}  // namespace gen

#define CHECK_MAT(a, b, abs_tol, rel_tol, ...) \
  do {const Eigen::MatrixXd pbt_A = (a); const Eigen::MatrixXd pbt_B = (b); \
    CHECK(gen::near(pbt_A, pbt_B, (abs_tol), (rel_tol)), << #a " ~ " #b ": " << gen::str(pbt_A) << " vs " << gen::str(pbt_B) << " " __VA_ARGS__);} while (0)
