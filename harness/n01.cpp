// N01: the map loader and the viewer frame at the centroid of the map.
#include "gen.hpp"
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#include <unistd.h>
#include <rclcpp/rclcpp.hpp>
#include <pcl/io/pcd_io.h>
#include <pcl_conversions/pcl_conversions.h>
#include "lidar_feature_library/point_type.hpp"

std::shared_ptr<rclcpp::Node> ros_stub_make_node_MapLoaderNode(const rclcpp::NodeOptions &);
std::shared_ptr<rclcpp::Node> ros_stub_make_node_MapTFGeneratorNode(const rclcpp::NodeOptions &);

namespace
{
using sensor_msgs::msg::PointCloud2;

struct Scratch
{
  char dir[64] = "/tmp/verif_n01_XXXXXX";
  Scratch() {if (!mkdtemp(dir)) {std::abort();}}
  ~Scratch() {std::remove(file().c_str()); rmdir(dir);}
  std::string file() const {return std::string(dir) + "/map.pcd";}
};
template<class T> void fill(T & p, pbt::Case & c, double m)
{
  p.x = static_cast<float>(c.num(m)); p.y = static_cast<float>(c.num(m)); p.z = static_cast<float>(c.num(m));
}
template<class T> pcl::PointCloud<T> cloud_of(pbt::Case & c, double m, int most)
{
  pcl::PointCloud<T> s;
  for (std::int64_t n = c.size(0, most, 20 * most, 200); n > 0; n--) {T p; fill(p, c, m); s.push_back(p);}
  return s;
}
// the value of a single-precision field of a point
float field(const PointCloud2 & m, std::size_t i, const char * name)
{
  for (const auto & f : m.fields) {
    if (f.name.compare(name) != 0) {continue;}
    float v;
    CHECK(f.datatype == sensor_msgs::msg::PointField::FLOAT32, << name << " is not single precision");
    CHECK(i * m.point_step + f.offset + 4 <= m.data.size(), << "point " << i << " is outside the data");
    std::memcpy(&v, m.data.data() + i * m.point_step + f.offset, 4);
    return v;
  }
  CHECK(false, << "no field " << name);
  return 0.f;
}
template<class T> int ring_of(const T & p) {return p.ring;}
template<> int ring_of(const pcl::PointXYZ &) {return -1;}
template<class T> void set_ring(T & p, int r) {p.ring = static_cast<std::uint16_t>(r);}
template<> void set_ring(pcl::PointXYZ &, int) {}

template<class T> void load(pbt::Case & c, const std::string & path)
{
  auto map = cloud_of<T>(c, c.pick({1., 1e3, 1e5}), 200);
  if (map.empty()) {T p; fill(p, c, 9.); map.push_back(p);}
  for (auto & p : map) {set_ring(p, static_cast<int>(c.below(128)));}
  const int format = static_cast<int>(c.below(3));
  if (format == 0) {
    pcl::io::savePCDFileBinary(path, map);
  } else if (format == 1) {
    pcl::io::savePCDFileBinaryCompressed(path, map);
  } else {
    pcl::PCDWriter().writeASCII(path, map, 9);
  }
  rclcpp::NodeOptions options;
  options.append_parameter_override("pcd_filename", rclcpp::Parameter("pcd_filename", path));
  ros_stub::Recorder<PointCloud2> early("map_topic");
  auto node = ros_stub_make_node_MapLoaderNode(options);
  ros_stub::Recorder<PointCloud2> late("map_topic", true), later("map_topic", true);
  CHECK_EQ(early.msgs.size(), 1u, << "maps published"); CHECK_EQ(late.msgs.size(), 1u, << "maps for a late listener"); CHECK_EQ(later.msgs.size(), 1u);
  for (const PointCloud2 * m : {&early.msgs[0], &late.msgs[0], &later.msgs[0]}) {
    CHECK_EQ(m->header.frame_id, std::string("map"));
    CHECK_EQ(m->width * m->height, map.size(), << "points");
    CHECK_EQ(m->data.size(), map.size() * m->point_step, << "bytes of " << map.size() << " points");
    for (std::size_t i = 0; i < map.size(); i++) {
      CHECK(field(*m, i, "x") == map[i].x && field(*m, i, "y") == map[i].y && field(*m, i, "z") == map[i].z, << "point " << i << " of " << map.size() << " in format " << format);
    }
    pcl::PointCloud<T> back;
    pcl::fromROSMsg(*m, back);
    CHECK_EQ(back.size(), map.size());
    for (std::size_t i = 0; i < map.size(); i++) {CHECK_EQ(ring_of(back[i]), ring_of(map[i]), << "ring of point " << i);}
  }
  c.note() << map.size() << " points in format " << format;
  c.nontrivial(map.size() > 1);
}
}  // namespace

PROP(loader_publishes_the_file, 4000)
{
  ros_stub::reset();
  Scratch scratch;
  switch (c.below(3)) {
    case 0: load<pcl::PointXYZ>(c, scratch.file()); break;
    case 1: load<PointXYZIR>(c, scratch.file()); break;
    default: load<PointXYZCR>(c, scratch.file()); break;
  }
}

PROP(loader_needs_a_file_name, 400)
{
  ros_stub::reset();
  ros_stub::Recorder<PointCloud2> early("map_topic");
  rclcpp::NodeOptions options;
  if (c.coin()) {options.append_parameter_override("pcd_filename", rclcpp::Parameter("pcd_filename", ""));}
  if (c.coin()) {options.append_parameter_override("filename", rclcpp::Parameter("filename", "map.pcd"));}
  CHECK_THROWS(ros_stub_make_node_MapLoaderNode(options), << "accepted no file name");
  ros_stub::Recorder<PointCloud2> late("map_topic", true);
  CHECK(early.msgs.empty() && late.msgs.empty(), << "published without a file name");
  c.nontrivial();
}

PROP(viewer_frame_is_at_the_centroid, 60000)
{
  ros_stub::reset();
  rclcpp::NodeOptions options;
  std::string map_frame = "map", viewer_frame = "viewer";
  if (c.coin()) {map_frame = c.pick<std::string>({"world", "m", "a/b"}); options.append_parameter_override("map_frame", rclcpp::Parameter("map_frame", map_frame));}
  if (c.coin()) {viewer_frame = c.pick<std::string>({"view", "v", "map"}); options.append_parameter_override("viewer_frame", rclcpp::Parameter("viewer_frame", viewer_frame));}
  auto node = ros_stub_make_node_MapTFGeneratorNode(options);
  CHECK(ros_stub::state().sent_static_tf.empty(), << "a transform without a map");
  std::size_t sent = 0, most = 0;
  for (std::int64_t n = c.huge_hi_ > 0 ? 1 : c.size(1, 5, 60, 200); n > 0; n--) {
    const double m = c.pick({1., 100., 1e5});
    auto s = cloud_of<pcl::PointXYZ>(c, m, 120);
    const double shift = c.pick({0., 1e3, -1e5});
    std::array<long double, 3> sum{0, 0, 0};
    double scale = 0.;
    for (auto & p : s) {
      p.x += static_cast<float>(shift); p.y -= static_cast<float>(shift / 3.);
      sum[0] += p.x; sum[1] += p.y; sum[2] += p.z;
      scale = std::max({scale, std::abs(static_cast<double>(p.x)), std::abs(static_cast<double>(p.y)), std::abs(static_cast<double>(p.z))});
    }
    PointCloud2 msg;
    if (c.coin()) {
      pcl::toROSMsg(s, msg);
    } else {
      pcl::PointCloud<PointXYZIR> r;
      for (const auto & p : s) {PointXYZIR q; q.x = p.x; q.y = p.y; q.z = p.z; q.intensity = 7.f; q.ring = 3; r.push_back(q);}
      pcl::toROSMsg(r, msg);
    }
    msg.header.frame_id = "ignored";
    ros_stub::state().now_ns = 1000000000 + c.range(0, 1000000000000LL);
    rclcpp::rmw_like_qos latched;
    latched.transient_local = true;
    ros_stub::deliver<PointCloud2>("/pointcloud_map", latched, msg);
    const auto & tfs = ros_stub::state().sent_static_tf;
    for (const auto & t : tfs) {
      const auto & v = t.transform.translation;
      CHECK(std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z), << "translation " << v.x << ", " << v.y << ", " << v.z << " after a map of " << s.size() << " points");
    }
    if (s.empty()) {CHECK_EQ(tfs.size(), sent, << "a transform for an empty map"); continue;}
    sent++;
    most = std::max(most, s.size());
    CHECK_EQ(tfs.size(), sent, << "transforms after " << sent << " maps");
    const auto & t = tfs.back();
    CHECK_EQ(t.header.frame_id, map_frame); CHECK_EQ(t.child_frame_id, viewer_frame);
    CHECK_EQ(static_cast<std::int64_t>(t.header.stamp.sec) * 1000000000 + t.header.stamp.nanosec, ros_stub::state().now_ns, << "stamp");
    const double k = static_cast<double>(s.size());
    const double tol = 1e-9 * (1. + scale);
    CHECK_NEAR(t.transform.translation.x, static_cast<double>(sum[0] / k), tol, 0., << "x of the centroid of " << s.size() << " points");
    CHECK_NEAR(t.transform.translation.y, static_cast<double>(sum[1] / k), tol, 0., << "y of the centroid of " << s.size() << " points");
    CHECK_NEAR(t.transform.translation.z, static_cast<double>(sum[2] / k), tol, 0., << "z of the centroid of " << s.size() << " points");
    const auto & q = t.transform.rotation;
    CHECK(q.x == 0. && q.y == 0. && q.z == 0. && std::abs(q.w) == 1., << "rotation " << q.x << ", " << q.y << ", " << q.z << ", " << q.w);
  }
  c.nontrivial(sent > 0 && most > 1);
}

HUGE_PROP(loader_publishes_the_file, 16, 20000, 140000);
HUGE_PROP(viewer_frame_is_at_the_centroid, 32, 20000, 250000);
