// M01: the map builder and the mapping application.
#include "gen.hpp"
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <rclcpp/rclcpp.hpp>
#include <pcl/io/pcd_io.h>
#include "lidar_feature_localization/map_io.hpp"

#define main app_main
#include "../src/mapping.cpp"   // found through -I <repo>/mapping/include
#undef main

namespace
{
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Cloud = pcl::PointCloud<PointXYZCR>;
using geometry_msgs::msg::PoseStamped;
using sensor_msgs::msg::PointCloud2;

builtin_interfaces::msg::Time stamp_of(std::int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<std::int32_t>(ns / 1000000000); t.nanosec = static_cast<std::uint32_t>(ns % 1000000000);
  return t;
}
struct Want {Vector3d p; float curvature; std::uint16_t ring;};
// what has been inserted so far
struct Model
{
  std::vector<Want> points;
  std::vector<Isometry3d> inserted;
  int accumulated = 0;        // scans that were inserted only because small motions added up
  Isometry3d before = Isometry3d::Identity();
  int skipped = 0;
  // false: the pose is too close to a threshold to say
  bool add(const Cloud & cloud, const Isometry3d & pose)
  {
    if (cloud.empty()) {return true;}
    if (!points.empty()) {
      const Isometry3d & last = inserted.back();
      const double d = (pose.translation() - last.translation()).norm();
      // sine of half of the angle between the two
      const double s = std::abs(std::sin(Eigen::AngleAxisd(Eigen::Matrix3d(last.linear().transpose() * pose.linear())).angle() / 2.));
      if (std::abs(d - 1.) < 1e-6 || std::abs(s - 0.1) < 1e-6) {return false;}
      const bool small = d < 1. && s < 0.1;
      const double step = (pose.translation() - before.translation()).norm();
      if (small) {skipped++; before = pose; return true;}
      if (step < 0.9) {accumulated++;}
    }
    for (const auto & p : cloud) {points.push_back({pose * Vector3d(p.x, p.y, p.z), p.curvature, p.ring});}
    inserted.push_back(pose);
    before = pose;
    return true;
  }
};
void check_map(const Cloud & map, const Model & m, const std::string & what)
{
  CHECK_EQ(map.size(), m.points.size(), << "points in the map, " << what);
  for (std::size_t i = 0; i < map.size(); i++) {
    CHECK_MAT(Vector3d(map[i].x, map[i].y, map[i].z), m.points[i].p, 1e-4, 1e-6, << "point " << i << ", " << what);
    CHECK_EQ(map[i].curvature, m.points[i].curvature, << "point " << i << ", " << what); CHECK_EQ(map[i].ring, m.points[i].ring, << "point " << i << ", " << what);
  }
}
Cloud scan(pbt::Case & c)
{
  Cloud s;
  for (std::int64_t n = c.size(0, 5, 400, 500); n > 0; n--) {
    PointXYZCR p;
    p.x = static_cast<float>(c.num(30.)); p.y = static_cast<float>(c.num(30.)); p.z = static_cast<float>(c.num(5.));
    p.curvature = static_cast<float>(c.num(9.)); p.ring = static_cast<std::uint16_t>(c.below(128));
    s.push_back(p);
  }
  return s;
}
// a drive of small and large steps, turns on the spot and returns to earlier places
struct Drive
{
  Isometry3d now;
  std::vector<Isometry3d> visited;
  explicit Drive(pbt::Case & c) : now(c.coin() ? gen::iso(c, 100.) : Isometry3d::Identity()) {}
  Isometry3d next(pbt::Case & c)
  {
    Isometry3d d = Isometry3d::Identity();
    switch (c.below(6)) {
      case 0: break;
      case 1: d.translation() = c.real(0., 0.7) * gen::unit3(c); break;
      case 2: d.translation() = c.pick({0.5, 0.9, 0.999, 1.001, 1.5}) * gen::unit3(c); break;
      case 3: d.linear() = Eigen::AngleAxisd(c.pick({0.05, 0.1, 0.15, 0.199, 0.202, 0.5, 3.1}), gen::unit3(c)).toRotationMatrix(); break;
      case 4: d.translation() = c.real(0., 0.9) * gen::unit3(c); d.linear() = Eigen::AngleAxisd(c.real(-0.19, 0.19), gen::unit3(c)).toRotationMatrix(); break;
      default:
        if (!visited.empty()) {return now = visited[c.below(visited.size())];}
    }
    now = now * d;
    visited.push_back(now);
    return now;
  }
};
PoseStamped pose_message(pbt::Case & c, const Isometry3d & p, std::int64_t ns)
{
  const Eigen::Quaterniond q(p.linear());
  const double s = c.coin() ? 1. : -1.;
  PoseStamped m;
  m.header.stamp = stamp_of(ns); m.header.frame_id = "map";
  m.pose.position.x = p.translation()(0); m.pose.position.y = p.translation()(1); m.pose.position.z = p.translation()(2);
  m.pose.orientation.x = s * q.x(); m.pose.orientation.y = s * q.y(); m.pose.orientation.z = s * q.z(); m.pose.orientation.w = s * q.w();
  return m;
}
PointCloud2 cloud_message(const Cloud & s, std::int64_t ns)
{
  PointCloud2 m;
  pcl::toROSMsg(s, m);
  m.header.stamp = stamp_of(ns);
  return m;
}
struct Scratch
{
  char dir[64] = "/tmp/verif_m01_XXXXXX";
  char old[4096];
  Scratch()
  {
    if (!getcwd(old, sizeof(old)) || !mkdtemp(dir) || chdir(dir) != 0) {std::abort();}
    if (mkdir("maps", 0700) != 0) {std::abort();}
  }
  ~Scratch()
  {
    std::remove("maps/edge.pcd"); rmdir("maps");
    if (chdir(old) != 0) {std::abort();}
    rmdir(dir);
  }
  static bool saved() {return access("maps/edge.pcd", F_OK) == 0;}
  static void check_file(const Model & m, const std::string & what)
  {
    CHECK_EQ(saved(), !m.points.empty(), << "map file written, " << what);
    if (!saved()) {return;}
    Cloud got;
    CHECK_EQ(pcl::io::loadPCDFile("maps/edge.pcd", got), 0, << what);
    check_map(got, m, "saved, " + what);
  }
};
}  // namespace

PROP(builder_inserts_moved_scans, 60000)
{
  ros_stub::reset();
  MapBuilder<PointXYZCR> builder;
  Model model;
  Drive drive(c);
  std::string history;
  for (std::int64_t n = c.size(1, 30, 400, 100), k = 0; k < n; k++) {
    const Cloud s = scan(c);
    const Isometry3d p = drive.next(c);
    if (!model.add(s, p)) {throw pbt::Discard{};}
    history += std::to_string(s.size()) + " points at (" + pbt::show(p.translation()(0)) + " " + pbt::show(p.translation()(1)) + " " + pbt::show(p.translation()(2)) + "); ";
    // stamps do not matter here: unset, repeated and decreasing ones too
    const std::int64_t stamp = c.chance(1, 3) ? c.pick<std::int64_t>({0, 1000, 1000000000 - k, 2147483647LL * 1000000000}) : 1000 + k;
    builder.Callback(
      std::make_shared<const PointCloud2>(cloud_message(s, stamp)), std::make_shared<const PoseStamped>(pose_message(c, p, stamp)));
    check_map(*builder.map_->map_ptr_, model, history);
    CHECK_EQ(builder.map_->IsEmpty(), model.points.empty());
  }
  if (c.chance(1, 20)) {
    Scratch scratch;
    builder.SaveMap("maps/edge.pcd");
    scratch.check_file(model, history);
    c.label("saved");
  }
  c.note() << model.inserted.size() << " inserted, " << model.skipped << " skipped: " << history;
  c.label(model.accumulated ? "small motions added up" : "large motions only");
  c.nontrivial(model.inserted.size() > 1 && model.skipped > 0);
}

PROP(small_means_below_both_thresholds, 200000)
{
  const Isometry3d a = gen::iso(c, 50.);
  Isometry3d d = Isometry3d::Identity();
  const double length = c.pick({0., c.real(0., 3.), c.real(0.99, 1.01)}), angle = c.pick({0., c.real(0., 3.14), c.real(0.15, 0.25)});
  d.translation() = length * gen::unit3(c);
  d.linear() = Eigen::AngleAxisd(angle, gen::unit3(c)).toRotationMatrix();
  const double tt = c.pick({1., length, c.real(0.1, 2.)}), rt = c.pick({0.1, c.real(0.01, 0.9)});
  if (std::abs(length - tt) < 1e-9 || std::abs(std::sin(angle / 2.) - rt) < 1e-9) {
    throw pbt::Discard{};
  }
  const bool want = length < tt && std::sin(angle / 2.) < rt;
  CHECK_EQ(PoseDiffIsSufficientlySmall(a, a * d, tt, rt), want, << length << " m of " << tt << ", half sine " << std::sin(angle / 2.) << " of " << rt);
  CHECK_EQ(PoseDiffIsSufficientlySmall(a * d, a, tt, rt), want, << "the other way round");
  const Isometry3d g = gen::iso(c, 50.);
  CHECK_EQ(PoseDiffIsSufficientlySmall(g * a, g * a * d, tt, rt), want, << "in another frame");
  c.nontrivial(length > 0. && angle > 0.);
}

PROP(a_map_is_saved_whole_or_not_at_all, 1500)
{
  ros_stub::reset();
  Scratch scratch;
  Model model;
  Cloud::Ptr map(new Cloud());
  for (std::int64_t n = c.chance(1, 4) ? 0 : c.size(0, 60, 3000); n > 0; n--) {
    const Cloud s = scan(c);
    *map += s;
    for (const auto & p : s) {model.points.push_back({Vector3d(p.x, p.y, p.z), p.curvature, p.ring});}
  }
  SaveMapIfNotEmpty<PointXYZCR>("maps/edge.pcd", map);
  scratch.check_file(model, std::to_string(map->size()) + " points");
  CHECK_EQ(map->size(), model.points.size(), << "the map itself");
  CHECK_EQ(ros_stub::state().format_errors, 0, << ros_stub::state().bad_format);
  c.label(map->empty() ? "empty map" : "map saved");
  c.nontrivial(map->size() > 1);
}

PROP(application_saves_the_map, 1500)
{
  ros_stub::reset();
  Scratch scratch;
  Model model;
  std::string history;
  ros_stub::state().spin_hook = [&] {
    Drive drive(c);
    struct Half {std::int64_t t; std::shared_ptr<Cloud> cloud; std::shared_ptr<Isometry3d> pose;};
    std::int64_t t = 1000000000;
    for (std::int64_t n = c.size(0, 15, 300, 60); n > 0; n--) {
      t += c.range(1, 200000000);
      const Cloud s = scan(c);
      const Isometry3d p = drive.next(c);
      const int what = static_cast<int>(c.below(8));       // 6: no pose for the cloud, 7: no cloud for the pose
      if (what < 6 && !model.add(s, p)) {throw pbt::Discard{};}
      history += std::to_string(s.size()) + (what == 6 ? " points without pose; " : what == 7 ? " points never sent; " : " points; ");
      if (c.coin()) {
        if (what != 7) {ros_stub::send<PointCloud2>("scan_edge", cloud_message(s, t));}
        if (what != 6) {ros_stub::send<PoseStamped>("pose", pose_message(c, p, t));}
      } else {
        if (what != 6) {ros_stub::send<PoseStamped>("pose", pose_message(c, p, t));}
        if (what != 7) {ros_stub::send<PointCloud2>("scan_edge", cloud_message(s, t));}
      }
    }
  };
  char name[] = "mapping";
  char * argv[] = {name, nullptr};
  CHECK_EQ(app_main(1, argv), 0);
  scratch.check_file(model, history);
  CHECK_EQ(ros_stub::state().format_errors, 0, << ros_stub::state().bad_format);
  c.label(model.points.empty() ? "empty map" : "map saved");
  c.nontrivial(model.inserted.size() > 1);
}


HUGE_PROP(a_map_is_saved_whole_or_not_at_all, 16, 1000, 8000);
