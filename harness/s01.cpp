// S01: the whole chain: scans -> extraction -> mapping -> maps on disk -> extraction, localisation and EKF.
#include "gen.hpp"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <memory>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <geometry_msgs/msg/twist_with_covariance_stamped.hpp>
#include <nav_msgs/msg/odometry.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <pcl/io/pcd_io.h>
#include <pcl/point_cloud.h>
#include <pcl_conversions/pcl_conversions.h>
#include "lidar_feature_library/point_type.hpp"

int extraction_main(int, char **);
int mapping_main(int, char **);
int localization_main(int, char **);
int ekf_main(int, char **);

namespace
{
using Eigen::Isometry3d;
using Eigen::Vector2d;
using Eigen::Vector3d;
using geometry_msgs::msg::PoseStamped;
using geometry_msgs::msg::PoseWithCovarianceStamped;
using geometry_msgs::msg::TwistWithCovarianceStamped;
using nav_msgs::msg::Odometry;
using sensor_msgs::msg::PointCloud2;

builtin_interfaces::msg::Time stamp_of(std::int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<std::int32_t>(ns / 1000000000); t.nanosec = static_cast<std::uint32_t>(ns % 1000000000);
  return t;
}
struct Box {Vector2d centre, half; double turn, height;};
// a hall with a floor, four walls and pillars
struct World
{
  Vector2d half;
  double height = 6.;
  std::vector<Box> boxes;
  Isometry3d pose = Isometry3d::Identity();   // of the hall in the map

  static bool slab(const Vector2d & o, const Vector2d & d, const Vector2d & h, double & in, double & out)
  {
    in = -1e9; out = 1e9;
    for (int i = 0; i < 2; i++) {
      if (std::fabs(d(i)) < 1e-12) {if (std::fabs(o(i)) > h(i)) {return false;} continue;}
      double a = (-h(i) - o(i)) / d(i), b = (h(i) - o(i)) / d(i);
      if (a > b) {std::swap(a, b);}
      in = std::max(in, a); out = std::min(out, b);
    }
    return in <= out;
  }
  // distance along a ray in the hall's frame, negative: nothing hit
  double cast(const Vector3d & o, const Vector3d & d) const
  {
    double best = 1e9, in, out;
    if (d.z() < -1e-9) {best = -o.z() / d.z();}
    const Vector2d o2 = o.head(2), d2 = d.head(2);
    if (slab(o2, d2, half, in, out) && out > 0 && out < best) {best = o.z() + out * d.z() < height ? out : best;}
    for (const auto & b : boxes) {
      const Eigen::Rotation2Dd R(-b.turn);
      if (slab(R * (o2 - b.centre), R * d2, b.half, in, out) && in > 0 && in < best && o.z() + in * d.z() < b.height) {best = in;}
    }
    return best < 1e8 ? best : -1.;
  }
  bool free(const Vector2d & p, double margin) const
  {
    if (std::fabs(p.x()) > half.x() - margin || std::fabs(p.y()) > half.y() - margin) {return false;}
    for (const auto & b : boxes) {
      const Vector2d q = Eigen::Rotation2Dd(-b.turn) * (p - b.centre);
      if (std::fabs(q.x()) < b.half.x() + margin && std::fabs(q.y()) < b.half.y() + margin) {return false;}
    }
    return true;
  }
};
struct Sensor {int rings = 16, columns = 720; double low = -0.35, high = 0.25, noise = 0.;};
World world(pbt::Case & c)
{
  World w;
  w.half = Vector2d(c.real(8., 18.), c.real(6., 14.));
  for (std::int64_t n = c.range(4, 9); n > 0; n--) {
    Box b;
    b.half = Vector2d(c.real(0.2, 0.8), c.real(0.2, 0.8));
    b.centre = Vector2d(c.real(-1., 1.) * (w.half.x() - 1.5), c.real(-1., 1.) * (w.half.y() - 1.5));
    b.turn = c.real(-M_PI, M_PI); b.height = 6.;
    w.boxes.push_back(b);
  }
  w.pose.linear() = Eigen::AngleAxisd(c.real(-M_PI, M_PI), Vector3d::UnitZ()).toRotationMatrix();
  w.pose.translation() = Vector3d(c.real(-100., 100.), c.real(-100., 100.), c.real(-10., 10.));
  return w;
}
// the scan taken at this pose of the hall's frame
PointCloud2 scan(pbt::Case & c, const World & w, const Sensor & s, const Isometry3d & at, std::int64_t ns)
{
  pcl::PointCloud<PointXYZIR> cloud;
  std::mt19937 noise(static_cast<unsigned>(c.below(1u << 30)));
  std::normal_distribution<double> n(0., 1.);
  for (int k = 0; k < s.columns; k++) {
    for (int r = 0; r < s.rings; r++) {
      const double a = 2 * M_PI * (k + 0.5) / s.columns - M_PI, e = s.low + (s.high - s.low) * r / (s.rings - 1);
      const Vector3d d(std::cos(e) * std::cos(a), std::cos(e) * std::sin(a), std::sin(e));
      double t = w.cast(at.translation(), at.linear() * d);
      if (t <= 0.) {continue;}
      t += s.noise * n(noise);
      cloud.push_back(PointXYZIR(static_cast<float>(t * d.x()), static_cast<float>(t * d.y()), static_cast<float>(t * d.z()), 7.f, static_cast<std::uint16_t>(r)));
    }
  }
  PointCloud2 m;
  pcl::toROSMsg(cloud, m);
  m.header.stamp = stamp_of(ns); m.header.frame_id = "lidar";
  return m;
}
Isometry3d planar(double x, double y, double yaw)
{
  Isometry3d p = Isometry3d::Identity();
  p.translation() = Vector3d(x, y, 1.7); p.linear() = Eigen::AngleAxisd(yaw, Vector3d::UnitZ()).toRotationMatrix();
  return p;
}
geometry_msgs::msg::Pose message(const Isometry3d & p)
{
  const Eigen::Quaterniond q(p.linear());
  geometry_msgs::msg::Pose m;
  m.position.x = p.translation()(0); m.position.y = p.translation()(1); m.position.z = p.translation()(2);
  m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); m.orientation.w = q.w();
  return m;
}
Isometry3d read(const geometry_msgs::msg::Pose & m)
{
  Isometry3d p = Isometry3d::Identity();
  p.linear() = Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z).toRotationMatrix();
  p.translation() = Vector3d(m.position.x, m.position.y, m.position.z);
  return p;
}
double angle(const Isometry3d & a, const Isometry3d & b) {return Eigen::AngleAxisd(Eigen::Matrix3d(a.linear().transpose() * b.linear())).angle();}

struct Scratch
{
  char dir[64] = "/tmp/verif_s01_XXXXXX";
  char old[4096];
  Scratch()
  {
    if (!getcwd(old, sizeof(old)) || !mkdtemp(dir) || chdir(dir) != 0) {std::abort();}
    if (mkdir("maps", 0700) != 0) {std::abort();}
  }
  ~Scratch()
  {
    std::remove("maps/edge.pcd"); std::remove("maps/surface.pcd"); rmdir("maps");
    if (chdir(old) != 0) {std::abort();}
    rmdir(dir);
  }
};
// runs these programs side by side, as a launch file does, while body drives them
void together(std::vector<int (*)(int, char **)> mains, const std::function<void()> & body)
{
  std::size_t next = 0;
  std::vector<int> codes(mains.size(), -1);
  std::function<void()> step = [&] {
      if (next == mains.size()) {body(); return;}
      const std::size_t i = next++;
      char name[] = "program";
      char * argv[] = {name, nullptr};
      codes[i] = mains[i](1, argv);
    };
  ros_stub::state().spin_hook = step;
  step();
  ros_stub::state().spin_hook = nullptr;
  for (std::size_t i = 0; i < codes.size(); i++) {CHECK_EQ(codes[i], 0, << "program " << i << " failed");}
}
// the parameters of the launch files
void launch_parameters()
{
  auto & p = ros_stub::state().params;
  p["convolution_padding"] = std::int64_t{2}; p["neighbor_degree_threshold"] = 3.0; p["distance_diff_threshold"] = 0.3;
  p["parallel_beam_min_range_ratio"] = 0.02; p["edge_threshold"] = 50.0; p["min_range"] = 0.1; p["max_range"] = 1000.0; p["n_blocks"] = std::int64_t{6};
}
// forwards what one program publishes to the topic another one listens on
template<class M> void forward(ros_stub::Recorder<M> & from, std::size_t & done, const std::string & to)
{
  for (; done < from.msgs.size(); done++) {ros_stub::send<M>(to, M(from.msgs[done]));}
}


// a mapped hall
struct Mapped {World w; Sensor s; std::vector<Isometry3d> stops; std::int64_t now = 1600000000LL * 1000000000LL; std::size_t edge = 0, surface = 0;};

// drives through a hall with the extraction and the mapping program; the surface map is collected from the published surfaces
Mapped build_maps(pbt::Case & c)
{
  Mapped m;
  const World & w = m.w = world(c);
  m.s.columns = static_cast<int>(c.pick({480, 600, 720}));
  m.s.noise = c.pick({0., 0.005, 0.02});
  Vector2d p = Vector2d::Zero();
  for (int tries = 0; tries < 50 && !w.free(p, 1.); tries++) {p = Vector2d(c.real(-1., 1.) * (w.half.x() - 1.), c.real(-1., 1.) * (w.half.y() - 1.));}
  if (!w.free(p, 1.)) {throw pbt::Discard{};}
  double yaw = c.real(-M_PI, M_PI);
  for (int k = 0; k < 60 && m.stops.size() < 9; k++) {
    const Vector2d q = p + 1.5 * Vector2d(std::cos(yaw), std::sin(yaw));
    if (w.free(q, 1.)) {p = q; m.stops.push_back(planar(p.x(), p.y(), yaw)); yaw += c.real(-0.4, 0.4);} else {yaw += c.real(0.5, 1.5);}
  }
  if (m.stops.size() < 5) {throw pbt::Discard{};}
  pcl::PointCloud<pcl::PointXYZ> surface, edge;
  std::size_t edges = 0;
  launch_parameters();
  together({extraction_main, mapping_main}, [&] {
      ros_stub::Recorder<PointCloud2> e("scan_edge"), f("scan_surface");
      for (const auto & at : m.stops) {
        m.now += 500000000;
        const Isometry3d T = w.pose * at;
        PoseStamped pose;
        pose.header.stamp = stamp_of(m.now); pose.header.frame_id = "map"; pose.pose = message(T);
        const PointCloud2 points = scan(c, w, m.s, at, m.now);
        const bool pose_first = c.coin();
        if (pose_first) {ros_stub::send("pose", pose);}
        ros_stub::send("points_raw", points);
        if (!pose_first) {ros_stub::send("pose", pose);}
        CHECK(!e.msgs.empty() && !f.msgs.empty(), << "no features published");
        pcl::PointCloud<pcl::PointXYZ> flat, sharp;
        pcl::fromROSMsg(f.msgs.back(), flat); pcl::fromROSMsg(e.msgs.back(), sharp);
        for (const auto & q : flat) {
          const Vector3d v = T * Vector3d(q.x, q.y, q.z);
          surface.push_back(pcl::PointXYZ(static_cast<float>(v.x()), static_cast<float>(v.y()), static_cast<float>(v.z())));
        }
        edges += sharp.size();
      }
    });
  pcl::io::savePCDFileBinary("maps/surface.pcd", surface);
  if (edges == 0) {throw pbt::Discard{};}
  CHECK(pcl::io::loadPCDFile("maps/edge.pcd", edge) == 0, << "no edge map");
  CHECK_EQ(edge.size(), edges, << "edge points in the map of a drive with steps of 1.5 m");
  m.edge = edge.size(); m.surface = surface.size();
  // few features: not a place where this can be expected to work
  if (m.edge < 50 || m.surface < 1000) {throw pbt::Discard{};}
  return m;
}
double middle(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  return v[v.size() / 2];
}
void report(const char * what, double d, double a, double before)
{
  if (std::getenv("S01_ERRORS")) {std::printf("%s %.4f m %.4f rad (prior %.3f)\n", what, d, a, before);}
}
}  // namespace

PROP(a_mapped_place_is_recognised, 140)
{
  ros_stub::reset();
  Scratch scratch;
  Mapped m = build_maps(c);
  const World & w = m.w;
  // localisation at other places and headings
  int better = 0;
  std::vector<double> distances, angles;
  // how far off the priors are: as an odometry would be, or much more
  const bool far = c.coin();
  const double t = far ? 1. : 0.2, turn = far ? 0.14 : 0.02;
  launch_parameters();
  together({extraction_main, localization_main}, [&] {
      ros_stub::Recorder<PoseWithCovarianceStamped> out("estimated_pose");
      for (int k = 0; k < 5; k++) {
        const Isometry3d & near = m.stops[c.below(m.stops.size())];
        const Isometry3d at = planar(near.translation().x() + c.real(-.4, .4), near.translation().y() + c.real(-.4, .4),
            std::atan2(near.linear()(1, 0), near.linear()(0, 0)) + c.real(-1., 1.));
        const Isometry3d truth = w.pose * at;
        const Isometry3d prior = truth * Eigen::Translation3d(c.real(-t, t), c.real(-t, t), c.real(-t, t) / 2) *
          Eigen::AngleAxisd(c.real(-turn, turn), Vector3d::UnitZ()) * Eigen::AngleAxisd(c.real(-0.02, 0.02), gen::unit3(c));
        m.now += 500000000;
        Odometry o;
        o.header.stamp = stamp_of(m.now); o.header.frame_id = "map"; o.pose.pose = message(prior);
        ros_stub::send("optimization_start_odom", o);
        const std::size_t n = out.msgs.size();
        ros_stub::send("points_raw", scan(c, w, m.s, at, m.now));
        CHECK_EQ(out.msgs.size(), n + 1, << "poses for a scan");
        const Isometry3d got = read(out.msgs.back().pose.pose);
        const double d = (got.translation() - truth.translation()).norm(), a = angle(got, truth);
        const double off = (prior.translation() - truth.translation()).norm();
        report("place", d, a, off);
        CHECK(d < 0.5 && a < 0.15, << "scan " << k << " located " << d << " m and " << a << " rad away from where it was taken (prior " << off << " m away)");
        if (d < 0.5 * off) {better++;}
        distances.push_back(d); angles.push_back(a);
      }
      CHECK(middle(distances) < 0.05 && middle(angles) < 0.02, << "the middle one of " << distances.size() << " located poses is " << middle(distances) << " m and " << middle(angles) << " rad away from the truth");
      report("places", middle(distances), middle(angles), 0);
    });
  c.note() << m.stops.size() << " mapped stops, " << m.edge << " edge and " << m.surface << " surface points, " << m.w.boxes.size() << " pillars, noise " << m.s.noise;
  c.label("far priors", far);
  c.nontrivial(better >= 4);
}

PROP(a_drive_is_tracked, 100)
{
  ros_stub::reset();
  Scratch scratch;
  Mapped m = build_maps(c);
  const World & w = m.w;
  launch_parameters();
  auto & st = ros_stub::state();
  st.now_ns = m.now;
  together({extraction_main, localization_main, ekf_main}, [&] {
      ros_stub::Recorder<PoseWithCovarianceStamped> located("estimated_pose");
      ros_stub::Recorder<Odometry> odom("ekf_odom");
      std::size_t located_sent = 0, odom_sent = 0;
      // along the mapped route at constant speed
      const double speed = c.real(0.5, 3.);
      std::size_t leg = 0;
      Isometry3d at = m.stops[0];
      const double seconds = 2.;
      const bool sure = c.coin();     // whether the initial pose claims to be better than the localiser
      double initial = 0., last = 0., yaw_error = 0.;
      std::vector<double> distances, angles;
      PoseWithCovarianceStamped start;
      const Isometry3d first = w.pose * at * Eigen::Translation3d(c.real(-.2, .2), c.real(-.2, .2), 0.) * Eigen::AngleAxisd(c.real(-0.02, 0.02), Vector3d::UnitZ());
      start.header.frame_id = "map"; start.header.stamp = stamp_of(st.now_ns); start.pose.pose = message(first);
      for (int i = 0; i < 6; i++) {start.pose.covariance[7 * i] = i < 3 ? (sure ? 0.1 : 10.) : (sure ? 0.01 : 1.);}
      initial = (first.translation() - (w.pose * at).translation()).norm();
      ros_stub::send("initialpose", start);
      for (int tick = 0; tick < seconds * 50; tick++) {
        // towards the next stop
        const Vector2d to = (m.stops[std::min(leg + 1, m.stops.size() - 1)].translation() - at.translation()).head(2);
        double v = 0., wz = 0.;
        if (to.norm() < 0.2 && leg + 2 < m.stops.size()) {leg++;}
        const double yaw = std::atan2(at.linear()(1, 0), at.linear()(0, 0));
        const double turn = std::remainder(std::atan2(to.y(), to.x()) - yaw, 2 * M_PI);
        if (leg + 2 < m.stops.size() || to.norm() > 0.2) {wz = std::max(-1., std::min(1., 3. * turn)); v = speed * std::max(0., std::cos(turn));}
        const double dt = 0.02;
        at = planar(at.translation().x() + v * std::cos(yaw) * dt, at.translation().y() + v * std::sin(yaw) * dt, yaw + wz * dt);
        st.now_ns += 20000000;
        TwistWithCovarianceStamped t;
        t.header.frame_id = "base_link"; t.header.stamp = stamp_of(st.now_ns);
        t.twist.twist.linear.x = v; t.twist.twist.angular.z = wz;
        for (int i = 0; i < 6; i++) {t.twist.covariance[7 * i] = 0.01;}
        ros_stub::send("in_twist_with_covariance", t);
        ros_stub::fire_timers();
        forward(odom, odom_sent, "optimization_start_odom");
        if (tick % 10 == 9) {
          ros_stub::send("points_raw", scan(c, w, m.s, at, st.now_ns));
          forward(located, located_sent, "in_pose_with_covariance");
          const Isometry3d truth = w.pose * at;
          CHECK(!located.msgs.empty() && !odom.msgs.empty());
          const Isometry3d a = read(located.msgs.back().pose.pose), b = read(odom.msgs.back().pose.pose);
          report("located", (a.translation() - truth.translation()).norm(), angle(a, truth), 0.);
          const double d = (a.translation() - truth.translation()).norm();
          last = (b.translation() - truth.translation()).norm(); yaw_error = angle(b, truth);
          report(sure ? "tracked" : "converging", last, yaw_error, tick);
          distances.push_back(d); angles.push_back(angle(a, truth));
          CHECK(d < 0.3 && angle(a, truth) < 0.1, << "located " << d << " m and " << angle(a, truth) << " rad away from the truth at tick " << tick);
          CHECK(last < initial + 0.1 && yaw_error < 0.15, << "the filter is " << last << " m and " << yaw_error << " rad away from the truth at tick " << tick << ", initially " << initial);
        }
      }
      report("drive", middle(distances), middle(angles), 0);
      CHECK(middle(distances) < 0.05 && middle(angles) < 0.02, << "the middle one of " << distances.size() << " located poses is " << middle(distances) << " m and " << middle(angles) << " rad away from the truth");
      if (!sure) {CHECK(last < 0.1 && yaw_error < 0.08, << "the filter is still " << last << " m and " << yaw_error << " rad away from the truth, initially " << initial);}
      c.note() << "initial error " << initial << " m, " << (sure ? "sure" : "unsure") << ", in the end " << last << " m, " << speed << " m/s";
      c.nontrivial(last < 0.7 * initial);
    });
}
