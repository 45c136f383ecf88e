// P01: the path generator.
#include "gen.hpp"
#include <memory>
#include <vector>
#include <rclcpp/rclcpp.hpp>

#define main app_main
#include "../src/node.cpp"     // found through -I <repo>/path_generator/include
#undef main

namespace
{
using geometry_msgs::msg::PoseStamped;
using geometry_msgs::msg::PoseWithCovarianceStamped;
using nav_msgs::msg::Path;

std_msgs::msg::Header any_header(pbt::Case & c)
{
  std_msgs::msg::Header h;
  h.stamp.sec = static_cast<std::int32_t>(c.pick<std::int64_t>({0, 1, c.range(0, 2147483647)}));
  h.stamp.nanosec = static_cast<std::uint32_t>(c.pick<std::int64_t>({0, 999999999, c.range(0, 999999999)}));
  h.frame_id = c.pick<std::string>({"map", "", "odom", "/map"});
  return h;
}
geometry_msgs::msg::Pose any_pose(pbt::Case & c)
{
  geometry_msgs::msg::Pose p;
  p.position.x = c.num(1e6); p.position.y = c.num(100.); p.position.z = c.num(10.);
  p.orientation.x = c.num(1.); p.orientation.y = c.num(1.); p.orientation.z = c.num(1.); p.orientation.w = c.num(1.);
  return p;
}
void check(const Path & path, const std::vector<PoseStamped> & want)
{
  CHECK(path.header == want.back().header, << "header of path " << want.size());
  CHECK_EQ(path.poses.size(), want.size(), << "poses in the path");
  for (std::size_t i = 0; i < want.size(); i++) {
    CHECK(path.poses[i].header == want[i].header, << "header of pose " << i << " of " << want.size());
    CHECK(path.poses[i].pose == want[i].pose, << "pose " << i << " of " << want.size());
  }
}
// one history through a node that listens to messages of type M
template<class M, class Send>
void history(pbt::Case & c, const std::string & path_topic, Send send)
{
  ros_stub::Recorder<Path> out(path_topic);
  std::vector<PoseStamped> want;
  const bool repeats = c.coin();
  for (std::int64_t n = c.size(0, 60, 250); n > 0; n--) {
    PoseStamped p;
    p.header = any_header(c); p.pose = any_pose(c);
    if (repeats && !want.empty() && c.coin()) {p = want[c.below(want.size())];}       // the same pose again is another pose
    if (repeats && !want.empty() && c.chance(1, 3)) {p.header = want.back().header;}
    want.push_back(p);
    send(p);
    CHECK_EQ(out.msgs.size(), want.size(), << "paths after " << want.size() << " poses");
    check(out.msgs.back(), want);
  }
  // earlier messages are what they were
  for (std::size_t i = 0; i < out.msgs.size(); i++) {check(out.msgs[i], std::vector<PoseStamped>(want.begin(), want.begin() + static_cast<std::ptrdiff_t>(i) + 1));}
  ros_stub::Recorder<Path> late(path_topic, true);
  CHECK_EQ(late.msgs.empty(), want.empty(), << "a late listener gets the last path");
  if (!want.empty()) {check(late.msgs.back(), want);}
  c.nontrivial(want.size() > 2);
}
PoseWithCovarianceStamped with_covariance(pbt::Case & c, const PoseStamped & p)
{
  PoseWithCovarianceStamped m;
  m.header = p.header; m.pose.pose = p.pose;
  for (double & x : m.pose.covariance) {x = c.num(9.);}
  return m;
}
}  // namespace

PROP(every_pose_extends_the_path, 8000)
{
  ros_stub::reset();
  const std::string path_topic = c.pick<std::string>({"path", "some/path"}), pose_topic = c.pick<std::string>({"pose", "estimated_pose"});
  if (c.coin()) {
    auto node = std::make_shared<FromPose>(path_topic, pose_topic);
    history<PoseStamped>(c, path_topic, [&](const PoseStamped & p) {ros_stub::send<PoseStamped>(pose_topic, p);});
  } else {
    auto node = std::make_shared<FromPoseWithCovariance>(path_topic, pose_topic);
    history<PoseWithCovarianceStamped>(c, path_topic, [&](const PoseStamped & p) {ros_stub::send<PoseWithCovarianceStamped>(pose_topic, with_covariance(c, p));});
  }
}

PROP(two_generators_do_not_mix, 4000)
{
  ros_stub::reset();
  auto a = std::make_shared<FromPose>("path_a", "pose_a");
  auto b = std::make_shared<FromPoseWithCovariance>("path_b", "pose_b");
  ros_stub::Recorder<Path> oa("path_a"), ob("path_b");
  std::vector<PoseStamped> wa, wb;
  for (std::int64_t n = c.size(1, 40); n > 0; n--) {
    PoseStamped p;
    p.header = any_header(c); p.pose = any_pose(c);
    if (c.coin()) {wa.push_back(p); ros_stub::send<PoseStamped>("pose_a", p);} else {wb.push_back(p); ros_stub::send<PoseWithCovarianceStamped>("pose_b", with_covariance(c, p));}
    CHECK_EQ(oa.msgs.size(), wa.size()); CHECK_EQ(ob.msgs.size(), wb.size());
  }
  if (!wa.empty()) {check(oa.msgs.back(), wa);}
  if (!wb.empty()) {check(ob.msgs.back(), wb);}
  c.nontrivial(wa.size() > 1 && wb.size() > 1);
}

PROP(application_listens_to_poses_with_covariance, 4000)
{
  ros_stub::reset();
  bool spun = false;
  ros_stub::state().spin_hook = [&] {
    spun = true;
    history<PoseWithCovarianceStamped>(c, "path", [&](const PoseStamped & p) {ros_stub::send<PoseWithCovarianceStamped>("pose", with_covariance(c, p));});
  };
  char name[] = "path_generator";
  char * argv[] = {name, nullptr};
  CHECK_EQ(app_main(1, argv), 0); CHECK(spun, << "the node was never run");
}

// a path never reaches an end
PROP(long_journeys_are_kept_whole, 40)
{
  ros_stub::reset();
  auto node = std::make_shared<FromPose>("path", "pose");
  ros_stub::Recorder<Path> out("path");
  std::vector<PoseStamped> want;
  PoseStamped p;
  p.header = any_header(c); p.pose = any_pose(c);
  const std::int64_t n = c.chance(1, 30) ? c.range(3000, 11000) : c.range(500, 3000);
  const double step = c.pick({0., 1e-3, 0.5});
  for (std::int64_t k = 0; k < n; k++) {
    p.header.stamp.nanosec = static_cast<std::uint32_t>(k);
    p.pose.position.x += step;
    want.push_back(p);
    ros_stub::send<PoseStamped>("pose", p);
    CHECK_EQ(out.msgs.size(), 1u, << "paths for pose " << k);
    const Path & path = out.msgs.back();
    CHECK(path.header == p.header, << "header of path " << k);
    CHECK_EQ(path.poses.size(), want.size(), << "poses in path " << k);
    if (k + 1 == n || k % 512 == 0) {check(path, want);}
    out.msgs.clear();
  }
  c.nontrivial(n > 1000);
}
