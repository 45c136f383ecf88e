// R01: rotation algebra.
#include "gen.hpp"
#include <array>
#include "lidar_feature_localization/jacobian.hpp"
#include "lidar_feature_localization/posevec.hpp"
#include "rotationlib/hat.hpp"
#include "rotationlib/jacobian/quaternion.hpp"
#include "rotationlib/quaternion.hpp"

namespace
{
using Eigen::Matrix3d;
using Eigen::Matrix4d;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using Eigen::Vector4d;
// independent quaternion arithmetic, order w x y z
using Q = std::array<double, 4>;
Q mul(const Q & a, const Q & b)
{
  return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
    a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
}
Q of(const Quaterniond & q) {return {q.w(), q.x(), q.y(), q.z()};}
Vector4d v4(const Q & q) {return Vector4d(q[0], q[1], q[2], q[3]);}
Vector3d sandwich(const Q & q, const Vector3d & p)   // q p q*, any q
{
  const Q r = mul(mul(q, {0., p(0), p(1), p(2)}), {q[0], -q[1], -q[2], -q[3]});
  return Vector3d(r[1], r[2], r[3]);
}
Vector3d cross(const Vector3d & a, const Vector3d & b)
{
  return Vector3d(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
}
Vector3d rodrigues(const Vector3d & axis, double angle, const Vector3d & p)
{
  return p * std::cos(angle) + cross(axis, p) * std::sin(angle) + axis * (axis(0) * p(0) + axis(1) * p(1) + axis(2) * p(2)) * (1. - std::cos(angle));
}
Quaterniond any_quat(pbt::Case & c)
{
  if (c.coin()) {return gen::quat(c);}
  return Quaterniond(c.num(5.), c.num(5.), c.num(5.), c.num(5.));
}
}  // namespace

PROP(cross_product_matrix, 60000)
{
  const double m = c.pick({1., 1e-6, 1e6});
  const Vector3d v = gen::vec3(c, m), w = gen::vec3(c, m), u = gen::vec3(c, 10.);
  const Matrix3d H = rotationlib::Hat(v);
  CHECK_MAT(H * u, cross(v, u), 1e-14 * m * 100., 0.);
  CHECK_MAT(H.transpose(), -H, 0., 0., << "antisymmetry");
  CHECK_MAT(H * v, Vector3d::Zero(), 0., 1e-14 * m * m * 10., << "the axis is not in the kernel");
  CHECK_MAT(rotationlib::Hat(Vector3d(v + w)), H + rotationlib::Hat(w), 1e-15 * m * 10., 0., << "additivity");
  CHECK_MAT(Vector3d(H(2, 1), H(0, 2), H(1, 0)), v, 0., 0., << "inverse");
  // commutator
  const Matrix3d K = rotationlib::Hat(w);
  CHECK_MAT(H * K - K * H, rotationlib::Hat(cross(v, w)), 1e-14 * m * m * 10., 0., << "commutator");
  c.nontrivial(v.cwiseAbs().minCoeff() > 0. && u.cwiseAbs().minCoeff() > 0.);
}

PROP(quaternion_products, 60000)
{
  const Quaterniond p = any_quat(c), q = any_quat(c), r = any_quat(c);
  const Q a = of(p), b = of(q);
  // component order
  const Vector4d x = gen::vec(c, 4, 10.);
  const Quaterniond f = rotationlib::FromWXYZ(x);
  CHECK(f.w() == x(0) && f.x() == x(1) && f.y() == x(2) && f.z() == x(3), << "FromWXYZ " << gen::str(x));
  CHECK_MAT(rotationlib::ToWXYZ(f), x, 0., 0., << "round trip");
  CHECK_MAT(rotationlib::ToWXYZ(p), v4(a), 0., 0.);
  // the matrices multiply
  const Vector4d pq = v4(mul(a, b));
  const Matrix4d L = rotationlib::LeftMultiplicationMatrix(p), R = rotationlib::RightMultiplicationMatrix(q);
  const double tol = 1e-13 * (1. + p.norm() * q.norm() * (1. + r.norm()));
  CHECK_MAT(L * v4(b), pq, tol, 0., << "left product of " << gen::str(v4(a)) << " and " << gen::str(v4(b)));
  CHECK_MAT(R * v4(a), pq, tol, 0., << "right product of " << gen::str(v4(a)) << " and " << gen::str(v4(b)));
  CHECK_MAT(L * R, R * L, tol * (1. + p.norm()), 0., << "associativity");
  CHECK_MAT(L * rotationlib::LeftMultiplicationMatrix(q), rotationlib::LeftMultiplicationMatrix(p * q), tol, 0., << "left homomorphism");
  CHECK_MAT(rotationlib::RightMultiplicationMatrix(q) * rotationlib::RightMultiplicationMatrix(p), rotationlib::RightMultiplicationMatrix(p * q), tol, 0.,
    << "right antihomomorphism");
  CHECK_MAT(rotationlib::LeftMultiplicationMatrix(p.conjugate()), L.transpose(), 0., 0., << "conjugate");
  CHECK_MAT(rotationlib::RightMultiplicationMatrix(q.conjugate()), R.transpose(), 0., 0., << "conjugate");
  CHECK_MAT(L.transpose() * L, Matrix4d::Identity() * p.squaredNorm(), 1e-13 * (1. + p.squaredNorm()), 0., << "norm");
  CHECK_MAT(rotationlib::LeftMultiplicationMatrix(Quaterniond::Identity()), Matrix4d::Identity(), 0., 0., << "identity");
  CHECK_MAT(rotationlib::RightMultiplicationMatrix(Quaterniond::Identity()), Matrix4d::Identity(), 0., 0., << "identity");
  c.nontrivial((v4(a).array() != 0.).all() && (v4(b).array() != 0.).all());
}

PROP(roll_pitch_yaw, 60000)
{
  const double k = c.pick({1., 1., 4.});
  const double roll = k * gen::angle(c, M_PI), pitch = k * gen::angle(c, M_PI), yaw = k * gen::angle(c, M_PI);
  const Quaterniond q = rotationlib::RPYToQuaternionXYZ(roll, pitch, yaw);
  const std::string in = pbt::show(roll) + " " + pbt::show(pitch) + " " + pbt::show(yaw);
  CHECK_NEAR(q.norm(), 1., 1e-14, 0., << in);
  // roll about x first, then pitch about y, then yaw about z, all fixed axes
  const Vector3d p = gen::vec3(c, 10.);
  const Vector3d want = rodrigues(Vector3d::UnitZ(), yaw, rodrigues(Vector3d::UnitY(), pitch, rodrigues(Vector3d::UnitX(), roll, p)));
  CHECK_MAT(sandwich(of(q), p), want, 1e-13 * (1. + p.norm()), 0., << "roll, pitch, yaw " << in);
  // sign is continuous: half angles, not merely the right rotation
  const Q half = mul(mul({std::cos(yaw / 2), 0, 0, std::sin(yaw / 2)}, {std::cos(pitch / 2), 0, std::sin(pitch / 2), 0}), {std::cos(roll / 2), std::sin(roll / 2), 0, 0});
  const double s = v4(half).dot(v4(of(q))) < 0. ? -1. : 1.;
  CHECK_MAT(v4(of(q)) * s, v4(half), 1e-14, 0., << "roll, pitch, yaw " << in);
  const Quaterniond none = rotationlib::RPYToQuaternionXYZ(0., 0., 0.);
  CHECK(none.w() == 1. && none.vec().isZero(0.), << "zero angles give " << gen::str(v4(of(none))));
  c.nontrivial(std::fabs(std::sin(roll)) > 1e-6 && std::fabs(std::sin(pitch)) > 1e-6 && std::fabs(std::sin(yaw)) > 1e-6);
}

PROP(jacobian_of_rotated_point, 60000)
{
  const Quaterniond q = any_quat(c);
  const Vector3d p = gen::vec3(c, c.pick({1., 100., 1e-3}));
  // q p q* is quadratic in q: the central difference is exact for every step
  const double h = c.pick({1., 0.5, 2.});
  const Eigen::Matrix<double, 3, 4> J = rotationlib::DRpDq(q, p);
  for (int i = 0; i < 4; i++) {
    Q a = of(q), b = of(q);
    a[i] += h; b[i] -= h;
    const Vector3d d = (sandwich(a, p) - sandwich(b, p)) / (2. * h);
    CHECK_MAT(J.col(i), d, 1e-13 * (1. + p.norm()) * (3. + q.norm()) * (3. + q.norm()), 0., << "derivative " << i << " at " << gen::str(v4(of(q))) << " of " << gen::str(p));
  }
  // homogeneity: J q = 2 q p q*
  CHECK_MAT(J * v4(of(q)), 2. * sandwich(of(q), p), 1e-13 * (1. + p.norm()) * (1. + q.squaredNorm()), 0., << "Euler's identity");
  c.nontrivial((v4(of(q)).array() != 0.).all() && (p.array() != 0.).all());
}

PROP(rotation_vectors, 60000)
{
  const Vector3d axis = gen::unit3(c);
  double angle = c.pick({1., 1., 3.}) * gen::angle(c, M_PI);
  if (c.chance(1, 8)) {angle = c.pick({1e-8, 1e-9, 9.9e-9, 1.01e-8, 1e-12, 1e-300, M_PI, 2 * M_PI});}
  const Vector3d theta = axis * angle;
  const Quaterniond q = AngleAxisToQuaternion(theta);
  const std::string in = "rotation vector " + gen::str(theta);
  CHECK(v4(of(q)).allFinite(), << in);
  CHECK_NEAR(q.norm(), 1., 1e-14, 0., << in);
  CHECK_NEAR(q.w(), std::cos(angle / 2), 1e-13, 0., << in);
  CHECK_MAT(q.vec(), axis * std::sin(angle / 2), 6e-9 * (std::fabs(angle) < 1.001e-8) + 1e-13, 0., << in);
  const Vector3d p = gen::vec3(c, 10.);
  CHECK_MAT(sandwich(of(q), p), rodrigues(axis, angle, p), (1e-13 + (std::fabs(angle) < 1.001e-8) * 1.1e-8) * (1. + p.norm()), 0., << in);
  // one parameter group, inverse
  const double t = c.real(-2., 2.);
  const Quaterniond r = AngleAxisToQuaternion(theta * t), s = AngleAxisToQuaternion(Vector3d(theta * (1. + t)));
  CHECK_MAT(v4(mul(of(q), of(r))), v4(of(s)), 3e-8 * (std::fabs(angle) * std::min({1., std::fabs(t), std::fabs(1. + t)}) < 1.001e-8) + 1e-12, 0., << in << " times " << t);
  const Quaterniond back = AngleAxisToQuaternion(-theta);
  CHECK_MAT(v4(of(back)), v4(of(q.conjugate())), 1e-15, 0., << "inverse of " << in);
  // integrating a constant rate in steps
  if (c.chance(1, 4)) {
    const int n = static_cast<int>(c.range(1, 50));
    Q x = {1, 0, 0, 0};
    const Q step = of(AngleAxisToQuaternion(theta / n));
    for (int i = 0; i < n; i++) {x = mul(x, step);}
    CHECK_MAT(v4(x), v4(of(q)), 1e-12 + n * 6e-9 * (std::fabs(angle) / n < 1.001e-8), 0., << n << " steps of " << in);
  }
  CHECK(AngleAxisToQuaternion(Vector3d::Zero()).coeffs() == Quaterniond::Identity().coeffs(), << "zero rotation");
  // logarithm
  if (std::fabs(angle) > 1.001e-8 && std::fabs(angle) < M_PI) {
    const Vector3d log = 2. * std::atan2(q.vec().norm(), q.w()) / q.vec().norm() * q.vec();
    CHECK_MAT(log, theta, 1e-12, 0., << "logarithm");
  }
  c.nontrivial(std::fabs(std::sin(angle)) > 1e-9);
}

PROP(pose_of_quaternion_and_translation, 60000)
{
  const Quaterniond q = gen::quat(c), r = gen::quat(c);
  const Vector3d t = gen::vec3(c, 1000.), s = gen::vec3(c, 1000.), p = gen::vec3(c, 100.);
  const Eigen::Isometry3d T = MakePose(q, t);
  const double tol = 1e-12 * (1. + t.norm() + s.norm() + p.norm());
  CHECK_MAT(T * p, sandwich(of(q), p) + t, tol, 0.);
  CHECK(T.matrix().row(3) == Eigen::RowVector4d(0., 0., 0., 1.), << "last row " << gen::str(T.matrix()));
  CHECK_MAT(T.linear() * T.linear().transpose(), Matrix3d::Identity(), 1e-14, 0., << "not orthogonal");
  CHECK_NEAR(T.linear().determinant(), 1., 1e-14, 0.);
  CHECK_MAT((T * T.inverse()).matrix(), Matrix4d::Identity(), tol, 0., << "inverse");
  CHECK_MAT((T * MakePose(r, s)).matrix(), MakePose(q * r, q * s + t).matrix(), tol, 0., << "composition");
  Quaterniond minus;
  minus.coeffs() = -q.coeffs();
  CHECK_MAT(MakePose(minus, t).matrix(), T.matrix(), 0., 0., << "sign of the quaternion");
  c.nontrivial(std::fabs(q.w()) < 1. && t.norm() > 0.);
}

PROP(jacobian_rows, 30000)
{
  const int n = static_cast<int>(c.size(0, 12, 300, 200));
  const Quaterniond q = gen::quat(c);
  std::vector<Vector3d> points, coeffs;
  for (int i = 0; i < n; i++) {points.push_back(gen::vec3(c, 100.)); coeffs.push_back(gen::vec3(c, 2.));}
  const Eigen::MatrixXd J = MakeJacobian(points, coeffs, q);
  CHECK(J.rows() == n && J.cols() == 7, << "size");
  // row i is the derivative of coeff . (q p q* + t)
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < 4; k++) {
      Q a = of(q), b = of(q);
      a[k] += 1.; b[k] -= 1.;
      const double d = coeffs[i].dot(sandwich(a, points[i]) - sandwich(b, points[i])) / 2.;
      CHECK_NEAR(J(i, k), d, 1e-11 * (1. + points[i].norm()), 0., << "row " << i << " column " << k);
    }
    CHECK_MAT(J.row(i).tail(3), coeffs[i].transpose(), 0., 0., << "translation part of row " << i);
  }
  // a single row leaves the others alone
  if (n > 0) {
    Eigen::MatrixXd K = gen::matrix(c, n, 7, 3.);
    const Eigen::MatrixXd before = K;
    const int i = static_cast<int>(c.below(n));
    FillJacobianRow(K, i, rotationlib::DRpDq(q, points[i]), coeffs[i]);
    for (int j = 0; j < n; j++) {
      CHECK_MAT(K.row(j), (j == i ? J : before).row(j), 1e-12 * (j == i) * (1. + points[i].norm()), 0., << "row " << j << " after filling " << i);
    }
  }
  c.nontrivial(n > 1);
}
