// B01: geometry, cloud and marker message conversions.
#include "gen.hpp"
#include <rclcpp/rclcpp.hpp>
#include <pcl/point_cloud.h>
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/ros_msg.hpp"
#include "lidar_feature_localization/subscriber.hpp"

namespace
{
using Eigen::Isometry3d;
using Eigen::Quaterniond;
using Eigen::Vector3d;

double any(pbt::Case & c) {return c.pick({1., 1e-12, 1e6, 1e12, 1e-300}) * c.num(100.);}
Vector3d any_vec(pbt::Case & c) {return Vector3d(any(c), any(c), any(c));}
rclcpp::Time any_time(pbt::Case & c)
{
  const auto sec = static_cast<std::int32_t>(c.pick<std::int64_t>({0, 1, 1660000000LL, 2147483647LL, c.range(0, 2147483647LL)}));
  const auto ns = static_cast<std::uint32_t>(c.pick<std::int64_t>({0, 1, 999999999LL, c.range(0, 999999999LL)}));
  return rclcpp::Time(sec, ns, RCL_ROS_TIME);
}
std::string any_frame(pbt::Case & c)
{
  std::string s;
  for (std::int64_t n = c.size(0, 12); n > 0; n--) {s += c.pick({'a', 'm', '/', '_', '%', ' ', 'z'});}
  return s;
}
Isometry3d pose(pbt::Case & c)
{
  Isometry3d p = gen::iso(c, 1000.);
  if (c.chance(1, 4)) {
    // half turns about the axes and their neighbourhood
    const double a = M_PI + c.pick({0., 1e-9, -1e-9, 1e-4});
    p.linear() = Eigen::AngleAxisd(a, c.pick({0, 1}) ? gen::unit3(c) : Vector3d(Vector3d::Unit(static_cast<int>(c.below(3))))).toRotationMatrix();
  }
  return p;
}
void check_stamp(const builtin_interfaces::msg::Time & got, const rclcpp::Time & want)
{
  CHECK_EQ(static_cast<std::int64_t>(got.sec) * 1000000000 + got.nanosec, want.nanoseconds(), << "stamp");
}
void check_header(const std_msgs::msg::Header & h, const rclcpp::Time & t, const std::string & frame) {check_stamp(h.stamp, t); CHECK_EQ(h.frame_id, frame);}
void check_pose(const geometry_msgs::msg::Pose & m, const Isometry3d & p)
{
  CHECK_EQ(m.position.x, p.translation()(0)); CHECK_EQ(m.position.y, p.translation()(1)); CHECK_EQ(m.position.z, p.translation()(2));
  const Quaterniond q(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z);
  CHECK_NEAR(q.norm(), 1., 1e-12, 0.);
  CHECK_MAT(q.toRotationMatrix(), p.linear(), 1e-9, 0., << "rotation");
}
void check_covariance(const std::array<double, 36> & got, const Eigen::MatrixXd & want)
{
  for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {CHECK_EQ(got[6 * i + j], want(i, j), << "row " << i << " column " << j);}}
}
Matrix6d any_covariance(pbt::Case & c)
{
  Matrix6d m;
  for (int i = 0; i < 36; i++) {m(i / 6, i % 6) = any(c) + i;}
  return m;
}
template<class T> void fill(T & p, pbt::Case & c)
{
  p.x = static_cast<float>(c.num(100.)); p.y = static_cast<float>(c.num(100.)); p.z = static_cast<float>(c.num(100.));
}
void random_point(pcl::PointXYZ & p, pbt::Case & c) {fill(p, c);}
void random_point(PointXYZIR & p, pbt::Case & c) {fill(p, c); p.intensity = static_cast<float>(c.num(255.)); p.ring = static_cast<std::uint16_t>(c.below(65536));}
void random_point(PointXYZCR & p, pbt::Case & c) {fill(p, c); p.curvature = static_cast<float>(c.num(9.)); p.ring = static_cast<std::uint16_t>(c.below(65536));}
bool same(const pcl::PointXYZ & a, const pcl::PointXYZ & b) {return a.x == b.x && a.y == b.y && a.z == b.z;}
bool same(const PointXYZIR & a, const PointXYZIR & b) {return a.x == b.x && a.y == b.y && a.z == b.z && a.intensity == b.intensity && a.ring == b.ring;}
bool same(const PointXYZCR & a, const PointXYZCR & b) {return a.x == b.x && a.y == b.y && a.z == b.z && a.curvature == b.curvature && a.ring == b.ring;}

template<class T> void cloud_round_trip(pbt::Case & c)
{
  typename pcl::PointCloud<T>::Ptr cloud(new pcl::PointCloud<T>());
  const auto w = c.size(0, 40), h = c.pick<std::int64_t>({1, 1, 2, 5});
  for (std::int64_t i = 0; i < w * h; i++) {T p; random_point(p, c); cloud->push_back(p);}
  if (h > 1 && w > 0) {cloud->width = static_cast<std::uint32_t>(w); cloud->height = static_cast<std::uint32_t>(h);}
  cloud->header.frame_id = "before";
  const auto t = any_time(c);
  const auto frame = any_frame(c);
  const pcl::PointCloud<T> kept = *cloud;
  const auto m = ToRosMsg<T>(cloud, t, frame);
  check_header(m.header, t, frame);
  CHECK_EQ(m.width * m.height, cloud->size(), << "points in the message"); if (!cloud->empty()) {CHECK_EQ(m.height, cloud->height);}
  const auto plain = ToRosMsg<T>(cloud);
  CHECK(plain.data == m.data && plain.width == m.width && plain.height == m.height && plain.point_step == m.point_step, << "the stamp changes the points");
  const auto back = GetPointCloud<T>(m);
  CHECK_EQ(back->size(), cloud->size()); if (!cloud->empty()) {CHECK_EQ(back->width, cloud->width); CHECK_EQ(back->height, cloud->height);}
  for (std::size_t i = 0; i < back->size(); i++) {
    CHECK(same((*back)[i], (*cloud)[i]), << "point " << i << " of " << cloud->size());
    CHECK(same((*cloud)[i], kept[i]), << "input changed");
  }
  // a message with its fields in another order and gaps between them
  const auto repeated = GetPointCloud<T>(m);
  CHECK(repeated.get() != back.get() && repeated->size() == back->size(), << "reading a message twice");
  c.nontrivial(cloud->size() > 1);
}
}  // namespace

PROP(poses_round_trip, 120000)
{
  const Isometry3d p = pose(c);
  const auto t = any_time(c);
  const auto frame = any_frame(c), child = any_frame(c);
  const Matrix6d P = any_covariance(c);
  check_pose(MakePose(p), p);
  CHECK_MAT(GetIsometry3d(MakePose(p)).matrix(), p.matrix(), 1e-9, 1e-12, << "pose round trip");
  const auto ps = MakePoseStamped(p, t, frame);
  check_header(ps.header, t, frame); check_pose(ps.pose, p);
  const auto pc = MakePoseWithCovariance(p, P);
  check_pose(pc.pose, p); check_covariance(pc.covariance, P);
  const auto pcs = MakePoseWithCovarianceStamped(p, P, t, frame);
  check_header(pcs.header, t, frame); check_pose(pcs.pose.pose, p); check_covariance(pcs.pose.covariance, P);
  const auto tf = MakeTransformStamped(p, t, frame, child);
  check_header(tf.header, t, frame); CHECK_EQ(tf.child_frame_id, child);
  geometry_msgs::msg::Pose as;
  as.position.x = tf.transform.translation.x; as.position.y = tf.transform.translation.y; as.position.z = tf.transform.translation.z;
  as.orientation = tf.transform.rotation;
  check_pose(as, p);
  CHECK_MAT(ToVector3d(tf.transform.translation), p.translation(), 0., 0., << "translation");
  CHECK_MAT(ToQuaterniond(tf.transform.rotation).toRotationMatrix(), p.linear(), 1e-9, 0., << "rotation");
  // message first
  geometry_msgs::msg::Pose m;
  const Quaterniond q = gen::quat(c);
  const Vector3d v = any_vec(c);
  m.position = MakePoint(v);
  m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); m.orientation.w = q.w();
  const Isometry3d got = GetIsometry3d(m);
  CHECK_MAT(got.translation(), v, 0., 0., << "position"); CHECK_MAT(got.linear(), q.toRotationMatrix(), 1e-12, 0., << "orientation");
  CHECK_MAT(got.matrix().row(3), Eigen::RowVector4d(0, 0, 0, 1), 0., 0., << "last row");
  const auto again = MakePose(got);
  const double sign = again.orientation.w * q.w() + again.orientation.x * q.x() + again.orientation.y * q.y() + again.orientation.z * q.z() < 0 ? -1. : 1.;
  CHECK_NEAR(sign * again.orientation.x, q.x(), 1e-7, 0.); CHECK_NEAR(sign * again.orientation.y, q.y(), 1e-7, 0.);
  CHECK_NEAR(sign * again.orientation.z, q.z(), 1e-7, 0.); CHECK_NEAR(sign * again.orientation.w, q.w(), 1e-7, 0.);
  c.nontrivial(Eigen::AngleAxisd(p.linear()).angle() > 0.1 && !frame.empty() && frame != child);
}

PROP(components_are_copied, 200000)
{
  const Vector3d a = any_vec(c), b = any_vec(c);
  const auto t = any_time(c);
  const auto frame = any_frame(c);
  const auto p = MakePoint(a);
  CHECK(p.x == a(0) && p.y == a(1) && p.z == a(2), << "point"); CHECK_MAT(ToVector3d(p), a, 0., 0.);
  const auto v = MakeVector3(a);
  CHECK(v.x == a(0) && v.y == a(1) && v.z == a(2), << "vector"); CHECK_MAT(ToVector3d(v), a, 0., 0.);
  const auto w = MakeTwist(a, b);
  CHECK_MAT(ToVector3d(w.linear), a, 0., 0., << "linear"); CHECK_MAT(ToVector3d(w.angular), b, 0., 0., << "angular");
  const auto s = MakeTwistStamped(a, b, t, frame);
  check_header(s.header, t, frame);
  CHECK_MAT(ToVector3d(s.twist.linear), a, 0., 0., << "linear"); CHECK_MAT(ToVector3d(s.twist.angular), b, 0., 0., << "angular");
  geometry_msgs::msg::Quaternion q;
  q.x = any(c); q.y = any(c); q.z = any(c); q.w = any(c);
  const Quaterniond e = ToQuaterniond(q);
  CHECK(e.x() == q.x && e.y() == q.y && e.z() == q.z && e.w() == q.w, << "quaternion");
  // stamps
  const double ns = Nanoseconds(t);
  CHECK_NEAR(ns, static_cast<double>(t.nanoseconds()), 0., 2e-16, << "nanoseconds");
  const rclcpp::Time u = any_time(c);
  CHECK(t.nanoseconds() >= u.nanoseconds() || ns <= Nanoseconds(u), << "stamps change their order");
  const Matrix6d P = any_covariance(c);
  check_covariance(FromEigenCovariance(P), P);
  c.nontrivial(a != b && a(0) != a(1) && a(1) != a(2) && a(0) != a(2));
}

PROP(clouds_round_trip, 60000)
{
  switch (c.below(3)) {
    case 0: cloud_round_trip<pcl::PointXYZ>(c); break;
    case 1: cloud_round_trip<PointXYZIR>(c); break;
    default: cloud_round_trip<PointXYZCR>(c); break;
  }
}

PROP(markers_hold_the_lines, 60000)
{
  const auto t = any_time(c);
  const auto frame = any_frame(c);
  auto m = InitLines(t, frame);
  check_header(m.header, t, frame);
  CHECK_EQ(static_cast<int>(m.type), static_cast<int>(visualization_msgs::msg::Marker::LINE_LIST));
  CHECK_EQ(m.points.size(), 0u);
  float width = static_cast<float>(m.scale.x);
  std::array<float, 4> color{m.color.r, m.color.g, m.color.b, m.color.a};
  std::vector<Vector3d> want;
  auto unit = [&] {return static_cast<float>(c.pick({0., 1., c.real(0., 1.)}));};
  for (std::int64_t n = c.size(0, 25, 600, 400); n > 0; n--) {
    switch (c.below(4)) {
      case 0: width = unit(); SetWidth(m, width); break;
      case 1: color = {unit(), unit(), unit(), unit()}; SetColor(m, color[0], color[1], color[2], color[3]); break;
      default: {
        // lines may be points, follow each other, or be repeated
        const Vector3d a = c.chance(1, 5) && !want.empty() ? want[c.below(want.size())] : any_vec(c);
        const Vector3d b = c.chance(1, 6) ? a : c.chance(1, 8) && !want.empty() ? want[c.below(want.size())] : any_vec(c);
        AddLine(m, a, b);
        want.push_back(a); want.push_back(b);
      }
    }
    CHECK_EQ(static_cast<float>(m.scale.x), width, << "width");
    CHECK(m.color.r == color[0] && m.color.g == color[1] && m.color.b == color[2] && m.color.a == color[3], << "color");
    CHECK_EQ(m.points.size(), want.size(), << "two points per line");
    for (std::size_t i = 0; i < want.size(); i++) {CHECK_MAT(ToVector3d(m.points[i]), want[i], 0., 0., << "end " << i % 2 << " of line " << i / 2);}
    check_header(m.header, t, frame);
  }
  c.nontrivial(want.size() > 2);
}
