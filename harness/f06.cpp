// F06: filter covariances to message covariances and back.
#include "gen.hpp"
#include "ekf_localizer/covariance.hpp"
#include "ekf_localizer/pose_measurement.hpp"
#include "ekf_localizer/twist_measurement.hpp"

namespace
{
using gen::MatrixXd;
Matrix6d distinct(pbt::Case & c)
{
  Matrix6d P = gen::matrix(c, 6, 6, 100.);
  if (c.coin()) {P = gen::spd(c, 6, 3., 0.1);} else {for (int i = 0; i < 36; i++) {P(i / 6, i % 6) += 1000. * (i + 1);}}
  return P;
}
const int MESSAGE_POSE[3] = {0, 1, 5};   // x, y, yaw of (x, y, z, roll, pitch, yaw)
const int MESSAGE_TWIST[2] = {0, 5};     // vx, wz
}  // namespace

PROP(pose_covariance_message, 30000)
{
  const Matrix6d P = distinct(c);
  const auto m = EKFCovarianceToPoseMessageCovariance(P);
  double want[36] = {0};
  for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {want[6 * MESSAGE_POSE[i] + MESSAGE_POSE[j]] = P(i, j);}}
  for (int k = 0; k < 36; k++) {CHECK_EQ(m[k], want[k], << "entry " << k / 6 << "," << k % 6 << " of the pose covariance");}
  // written and read back
  CHECK_MAT(PoseMeasurementCovariance(m, 1), P.topLeftCorner(3, 3), 0., 0., << "read back");
  CHECK_MAT(PoseCovariance(P), P.topLeftCorner(3, 3), 0., 0., << "pose block");
  c.nontrivial();
}

PROP(twist_covariance_message, 30000)
{
  const Matrix6d P = distinct(c);
  const auto m = EKFCovarianceToTwistMessageCovariance(P);
  double want[36] = {0};
  for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {want[6 * MESSAGE_TWIST[i] + MESSAGE_TWIST[j]] = P(4 + i, 4 + j);}}
  for (int k = 0; k < 36; k++) {CHECK_EQ(m[k], want[k], << "entry " << k / 6 << "," << k % 6 << " of the twist covariance");}
  CHECK_MAT(TwistMeasurementCovariance(m, 1), P.bottomRightCorner(2, 2), 0., 0., << "read back");
  CHECK_MAT(TwistCovariance(P), P.bottomRightCorner(2, 2), 0., 0., << "twist block");
  c.nontrivial();
}

PROP(reading_message_covariances, 30000)
{
  std::array<double, 36> m;
  for (int i = 0; i < 36; i++) {m[i] = c.num(10.) + 100. * (i + 1);}
  const std::size_t steps = static_cast<std::size_t>(c.range(1, 50));
  const Eigen::Matrix3d R = PoseMeasurementCovariance(m, steps);
  const Eigen::Matrix2d T = TwistMeasurementCovariance(m, steps);
  for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {CHECK_NEAR(R(i, j), m[6 * MESSAGE_POSE[i] + MESSAGE_POSE[j]] * steps, 0., 1e-15, << "pose R " << i << "," << j);}}
  for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {CHECK_NEAR(T(i, j), m[6 * MESSAGE_TWIST[i] + MESSAGE_TWIST[j]] * steps, 0., 1e-15, << "twist R " << i << "," << j);}}
  c.nontrivial(steps > 1);
}

PROP(measured_part_of_the_state, 20000)
{
  Vector6d x;
  for (int i = 0; i < 6; i++) {x(i) = c.num(100.) + 1000. * i;}
  CHECK_MAT(Eigen::Vector3d(PoseMeasurementMatrix() * x), Eigen::Vector3d(x(0), x(1), x(2)), 0., 1e-15, << "pose measurement matrix");
  CHECK_MAT(Eigen::Vector2d(TwistMeasurementMatrix() * x), Eigen::Vector2d(x(4), x(5)), 0., 1e-15, << "twist measurement matrix");
  CHECK_MAT(GetPoseState(x), Eigen::Vector3d(x(0), x(1), x(2)), 0., 0.);
  CHECK_MAT(GetTwistState(x), Eigen::Vector2d(x(4), x(5)), 0., 0.);
  geometry_msgs::msg::Pose pose;
  const double roll = c.real(-1.5, 1.5), pitch = c.real(-1.4, 1.4), yaw = c.real(-M_PI, M_PI);
  const Eigen::Quaterniond q = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX());
  const double sign = c.coin() ? 1. : -1.;
  pose.position.x = x(0); pose.position.y = x(1); pose.position.z = x(2);
  pose.orientation.w = sign * q.w(); pose.orientation.x = sign * q.x(); pose.orientation.y = sign * q.y(); pose.orientation.z = sign * q.z();
  const Eigen::Vector3d y = PoseMeasurementVector(pose);
  CHECK_EQ(y(0), x(0)); CHECK_EQ(y(1), x(1));
  CHECK(std::fabs(std::remainder(y(2) - yaw, 2 * M_PI)) < 1e-9, << "yaw " << y(2) << " of a pose with yaw " << yaw);
  CHECK(std::fabs(y(2)) <= M_PI);
  geometry_msgs::msg::Twist t;
  t.linear.x = x(4); t.linear.y = 1.; t.angular.z = x(5); t.angular.x = 2.;
  CHECK_MAT(TwistMeasurementVector(t), Eigen::Vector2d(x(4), x(5)), 0., 0., << "twist measurement");
  c.nontrivial();
}
