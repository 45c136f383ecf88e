// L09: the localisation node: priors and scan pairs in, poses and transforms out.
#include "gen.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <tuple>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>

#define main app_main
#include "../app/localization.cpp"   // the application itself (found through -I <repo>/localization/include)
#undef main

namespace
{
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using geometry_msgs::msg::PoseWithCovarianceStamped;
using sensor_msgs::msg::PointCloud2;

builtin_interfaces::msg::Time stamp_of(std::int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<std::int32_t>(ns / 1000000000); t.nanosec = static_cast<std::uint32_t>(ns % 1000000000);
  return t;
}
std::int64_t ns_of(const builtin_interfaces::msg::Time & t) {return static_cast<std::int64_t>(t.sec) * 1000000000 + t.nanosec;}
geometry_msgs::msg::Pose pose_message(pbt::Case & c, const Isometry3d & p)
{
  const Eigen::Quaterniond q(p.linear());
  const double s = c.coin() ? 1. : -1.;   // both signs are the same rotation
  geometry_msgs::msg::Pose m;
  m.position.x = p.translation()(0); m.position.y = p.translation()(1); m.position.z = p.translation()(2);
  m.orientation.x = s * q.x(); m.orientation.y = s * q.y(); m.orientation.z = s * q.z(); m.orientation.w = s * q.w();
  return m;
}
Isometry3d read(const Vector3d & t, const geometry_msgs::msg::Quaternion & q)
{
  Isometry3d p = Isometry3d::Identity();
  p.linear() = Eigen::Quaterniond(q.w, q.x, q.y, q.z).toRotationMatrix();
  p.translation() = t;
  return p;
}
double norm(const geometry_msgs::msg::Quaternion & q) {return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);}
PointCloud2 cloud_message(const Cloud & cloud, std::int64_t ns)
{
  PointCloud2 m;
  pcl::toROSMsg(cloud, m);
  m.header.stamp = stamp_of(ns);
  m.header.frame_id = "lidar";
  return m;
}
Cloud small_cloud(pbt::Case & c)
{
  Cloud s;
  for (std::int64_t n = c.size(0, 4); n > 0; n--) {s.push_back(pcl::PointXYZ(static_cast<float>(c.num(9.)), static_cast<float>(c.num(9.)), static_cast<float>(c.num(9.))));}
  return s;
}
bool same(const Cloud & a, const Cloud & b)
{
  if (a.size() != b.size()) {return false;}
  for (std::size_t i = 0; i < a.size(); i++) {if (a[i].x != b[i].x || a[i].y != b[i].y || a[i].z != b[i].z) {return false;}}
  return true;
}

// what the node asked of its localiser
struct Call {Isometry3d prior; Cloud edge, surface;};
struct Log
{
  std::vector<Call> updates;
  bool started = false;
  Isometry3d prior = Isometry3d::Identity(), result = Isometry3d::Identity();
  std::vector<Isometry3d> moves;       // the localiser's answer: the prior moved by the k-th of these
  std::vector<bool> converged;         // ... and whether it reports success
};
class Recording
{
public:
  explicit Recording(const std::shared_ptr<Log> & log) : log_(log) {}
  void Init(const Isometry3d & pose) {log_->prior = log_->result = pose; log_->started = true;}
  bool IsInitialized() const {return log_->started;}
  template<class Scan> bool Update(const Scan & scan)
  {
    log_->updates.push_back({log_->prior, *std::get<0>(scan), *std::get<1>(scan)});
    log_->result = log_->prior * log_->moves[log_->updates.size() % log_->moves.size()];
    return log_->converged[log_->updates.size() % log_->converged.size()];
  }
  Isometry3d Get() const {return log_->result;}

private:
  std::shared_ptr<Log> log_;
};

void check_output(
  const PoseWithCovarianceStamped & m, const geometry_msgs::msg::TransformStamped & t, const builtin_interfaces::msg::Time & stamp,
  const Isometry3d & want, const std::string & what)
{
  CHECK(m.header.stamp == stamp, << "pose stamp " << ns_of(m.header.stamp) << " for the scan of " << ns_of(stamp) << ", " << what);
  CHECK_EQ(m.header.frame_id, std::string("map"), << what);
  CHECK(t.header.stamp == stamp, << "transform stamp " << ns_of(t.header.stamp) << " for the scan of " << ns_of(stamp) << ", " << what);
  CHECK_EQ(t.header.frame_id, std::string("map"), << what);
  CHECK_EQ(t.child_frame_id, std::string("lidar_feature_base_link"), << what);
  const auto & q = m.pose.pose.orientation;
  CHECK_NEAR(norm(q), 1., 1e-9, 0., << "quaternion of the pose, " << what); CHECK_NEAR(norm(t.transform.rotation), 1., 1e-9, 0., << "quaternion of the transform, " << what);
  const Isometry3d pose = read(Vector3d(m.pose.pose.position.x, m.pose.pose.position.y, m.pose.pose.position.z), q);
  const Isometry3d transform = read(Vector3d(t.transform.translation.x, t.transform.translation.y, t.transform.translation.z), t.transform.rotation);
  CHECK_MAT(pose.matrix(), transform.matrix(), 1e-9, 1e-9, << "pose and transform differ, " << what);
  CHECK_MAT(pose.matrix(), want.matrix(), 1e-9, 1e-9, << "not the localiser's pose, " << what);
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      CHECK_NEAR(m.pose.covariance[6 * i + j], i != j ? 0. : i < 3 ? 1. : 0.1, 1e-12, 0., << "covariance " << i << ", " << j);
    }
  }
}
}  // namespace

PROP(every_scan_starts_from_its_closest_prior, 60000)
{
  ros_stub::reset();
  auto log = std::make_shared<Log>();
  for (int i = 0; i < 5; i++) {log->moves.push_back(gen::iso(c, 3.));}
  for (int i = 0; i < 7; i++) {log->converged.push_back(!c.coin());}
  Recording recording(log);
  const std::string pose_topic = "estimated_pose";
  ros_stub::Recorder<PoseWithCovarianceStamped> poses(pose_topic);
  auto node = std::make_shared<LocalizationSubscriber<Recording, pcl::PointXYZ>>(recording);
  ros_stub::Recorder<PoseWithCovarianceStamped> out(pose_topic);
  auto & tf = ros_stub::state().sent_tf;

  std::map<double, Isometry3d> priors;           // by stamp, the last one of a stamp counts
  std::map<std::int64_t, std::pair<std::shared_ptr<Cloud>, std::shared_ptr<Cloud>>> halves;
  const std::int64_t base = c.pick<std::int64_t>({0, 1000000000, 1660000000LL * 1000000000LL});
  const std::int64_t unit = c.pick<std::int64_t>({1000000, 100000000, 1000000000, 512});
  auto any_stamp = [&] {return base + unit * c.range(0, 60) + (c.chance(1, 3) ? c.range(0, 900) : 0);};
  std::size_t expected = 0, without = 0, later = 0;
  std::string history;
  const std::int64_t steps = c.size(1, 30, 400, 100);
  std::int64_t last_scan = -1;
  for (std::int64_t s = 0; s < steps; s++) {
    const int kind = static_cast<int>(c.below(10));
    if (kind < 4) {
      const std::int64_t t = any_stamp();
      Isometry3d p = gen::iso(c, 50.);
      if (!priors.empty() && c.chance(1, 3)) {   // a vehicle that hardly moves
        p = priors.rbegin()->second;
        p.translation() += c.pick({0., 1e-4, 0.05}) * gen::unit3(c);
      }
      history += "prior " + std::to_string(t - base) + "; ";
      if (c.coin()) {
        nav_msgs::msg::Odometry m;
        m.header.stamp = stamp_of(t); m.header.frame_id = "map"; m.pose.pose = pose_message(c, p);
        ros_stub::send<nav_msgs::msg::Odometry>("optimization_start_odom", m);
      } else {
        geometry_msgs::msg::PoseStamped m;
        m.header.stamp = stamp_of(t); m.header.frame_id = "map"; m.pose = pose_message(c, p);
        ros_stub::send<geometry_msgs::msg::PoseStamped>("optimization_start_pose", m);
      }
      priors[static_cast<double>(t)] = p;
    } else {
      // a scan: both halves now, or one half now and the other some time later
      std::int64_t t = any_stamp();
      if (last_scan >= 0 && c.chance(1, 2)) {t = last_scan + unit * c.range(0, 3);}
      const bool edge_first = c.coin(), both = kind < 8;
      for (int h = 0; h < (both ? 2 : 1); h++) {
        const bool edge = (h == 0) == edge_first;
        auto & pair = halves[t];
        auto cloud = std::make_shared<Cloud>(small_cloud(c));
        (edge ? pair.first : pair.second) = cloud;
        const bool complete = pair.first && pair.second;
        Cloud e, f;
        if (complete) {e = *pair.first; f = *pair.second;}
        const std::size_t before = out.msgs.size(), tf_before = tf.size(), calls = log->updates.size();
        history += std::string(edge ? "edge " : "surface ") + std::to_string(t - base) + "; ";
        ros_stub::send<PointCloud2>(edge ? "scan_edge" : "scan_surface", cloud_message(*cloud, t));
        if (!complete) {
          CHECK_EQ(out.msgs.size(), before, << "published for half a scan; " << history); CHECK_EQ(tf.size(), tf_before, << history);
          if (halves.size() > 10) {halves.erase(halves.begin());}
          continue;
        }
        halves.erase(halves.begin(), halves.upper_bound(t));
        if (priors.empty()) {
          CHECK_EQ(out.msgs.size(), before, << "published without any prior; " << history); CHECK_EQ(tf.size(), tf_before, << history);
          without++;
          continue;
        }
        CHECK_EQ(out.msgs.size(), before + 1, << "poses published for one scan; " << history);
        CHECK_EQ(tf.size(), tf_before + 1, << "transforms published for one scan; " << history);
        CHECK_EQ(log->updates.size(), calls + 1, << "updates for one scan; " << history);
        const Call & call = log->updates.back();
        CHECK(same(call.edge, e) && same(call.surface, f), << "not the clouds of the scan; " << history);
        double best = std::numeric_limits<double>::infinity();
        for (const auto & [u, p] : priors) {best = std::min(best, std::abs(u - static_cast<double>(t)));}
        bool found = false;
        std::string close;
        for (const auto & [u, p] : priors) {
          if (std::abs(u - static_cast<double>(t)) > best) {continue;}
          found = found || pbt::nearly((p.matrix() - call.prior.matrix()).cwiseAbs().maxCoeff(), 0., 1e-9, 0.);
          close += " " + std::to_string(static_cast<std::int64_t>(u) - base);
        }
        CHECK(found, << "scan " << t - base << " not started from its closest prior (" << close << "); " << history);
        check_output(out.msgs.back(), tf.back(), stamp_of(t), log->result, history);
        expected++;
        if (last_scan >= 0 && t > last_scan) {later++;}
        last_scan = t;
      }
    }
  }
  CHECK_EQ(out.msgs.size(), expected, << history); CHECK_EQ(tf.size(), expected, << history); CHECK_EQ(poses.msgs.size(), expected, << history);
  CHECK_EQ(ros_stub::state().format_errors, 0, << ros_stub::state().bad_format);
  c.label(without ? "scan without prior" : "prior first");
  c.note() << expected << " poses from " << priors.size() << " priors: " << history;
  c.nontrivial(expected > 1 && later > 0 && priors.size() > 1);
}

// the application with its maps, its localiser and its node
namespace
{
void put(Cloud & cloud, const Vector3d & p) {cloud.push_back(pcl::PointXYZ(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2))));}
struct Scratch
{
  char dir[64] = "/tmp/verif_l09_XXXXXX";
  char old[4096];
  Scratch()
  {
    if (!getcwd(old, sizeof(old)) || !mkdtemp(dir) || chdir(dir) != 0) {std::abort();}
    if (mkdir("maps", 0700) != 0) {std::abort();}
  }
  ~Scratch()
  {
    std::remove("maps/edge.pcd"); std::remove("maps/surface.pcd"); rmdir("maps");
    if (chdir(old) != 0) {std::abort();}
    rmdir(dir);
  }
};
}  // namespace

PROP(localiser_starts_from_each_prior_it_is_given, 1500)
{
  Cloud::Ptr edge(new Cloud()), surface(new Cloud());
  const Vector3d far = c.pick({0., 0., 300., 5000.}) * gen::unit3(c);
  for (int i = 0; i < 40; i++) {
    put(*edge, far + Vector3d(3. * (i % 3) + 0.01 * c.below(9), 2. * (i % 2), 0.2 * i));
    put(*surface, far + Vector3d(0.5 * (i % 8), 0.6 * (i / 8), 0.001 * c.below(9)));
  }
  const int iterations = static_cast<int>(c.range(0, 4));
  Localizer<PointToVector, PointType> kept(edge, surface, iterations);
  Isometry3d last = gen::iso(c, 1.);
  last.translation() += far;
  int close = 0;
  for (std::int64_t k = 0, n = c.range(1, 5); k < n; k++) {
    Isometry3d prior = last;
    const double step = c.pick({0., 1e-6, 1e-3, 0.1, 2.});
    prior.translation() += step * gen::unit3(c);
    prior.linear() = prior.linear() * Eigen::AngleAxisd(c.pick({0., 1e-7, 1e-4, 0.01, 1.}), gen::unit3(c)).toRotationMatrix();
    if (step < 0.2 && k > 0) {close++;}
    kept.Init(prior);
    CHECK(kept.IsInitialized());
    CHECK_MAT(kept.Get().matrix(), prior.matrix(), 1e-9, 0., << "Init does not set the pose, scan " << k << ", step " << step);
    Cloud::Ptr e(new Cloud()), s(new Cloud());
    const Isometry3d inv = prior.inverse();
    for (std::int64_t i = c.below(8); i > 0; i--) {put(*e, inv * edge->at(c.below(edge->size())).getVector3fMap().cast<double>() + 0.05 * gen::unit3(c));}
    for (std::int64_t i = c.below(8); i > 0; i--) {put(*s, inv * surface->at(c.below(surface->size())).getVector3fMap().cast<double>() + 0.05 * gen::unit3(c));}
    const EdgeSurfaceScan scan{e, s};
    const bool ok = kept.Update(scan);
    Localizer<PointToVector, PointType> fresh(edge, surface, iterations);
    fresh.Init(prior);
    const bool want = fresh.Update(scan);
    CHECK_EQ(ok, want, << "success of scan " << k);
    const Eigen::Matrix4d a = kept.Get().matrix(), b = fresh.Get().matrix();
    CHECK((a.array() == b.array() || (a.array().isNaN() && b.array().isNaN())).all(), << "scan " << k << " depends on the scans before: " << gen::str(a) << " fresh " << gen::str(b));
    last = b.allFinite() && !c.chance(1, 3) ? kept.Get() : prior;
  }
  c.nontrivial(close > 0 && iterations > 0);
}

PROP(application_localises_against_its_maps, 240)
{
  ros_stub::reset();
  Scratch scratch;
  const bool edge_map = !c.chance(1, 8), surface_map = !c.chance(1, 8);
  Cloud edge, surface;
  struct Pole {Vector3d o; Vector3d u;};
  struct Patch {Vector3d o, u, v;};
  std::vector<Pole> poles;
  std::vector<Patch> patches;
  const double turn = c.real(-3., 3.);
  const Eigen::Matrix3d R = Eigen::AngleAxisd(turn, Vector3d::UnitZ()).toRotationMatrix();
  patches.push_back({R * Vector3d(-5, -5, 0), R * Vector3d::UnitX(), R * Vector3d::UnitY()});
  for (int i = 0; i < 3; i++) {
    const double a = 2 * M_PI * i / 3.;
    const Vector3d n(std::cos(a), std::sin(a), 0.), along(-n(1), n(0), 0.);
    patches.push_back({R * Vector3d(9. * n + Vector3d(0, 0, 2) - 5. * along), R * along, Vector3d::UnitZ()});
    poles.push_back({R * Vector3d(12. * std::cos(a + 1.), 12. * std::sin(a + 1.), 1.), Vector3d::UnitZ()});
  }
  for (const auto & p : patches) {for (double a = 0; a <= 10.; a += 0.5) {for (double b = 0; b <= 10.; b += 0.5) {put(surface, p.o + (a + 1e-3 * c.below(99)) * p.u + (b + 1e-3 * c.below(99)) * p.v);}}}
  for (const auto & p : poles) {for (double a = 0; a <= 4.; a += 0.1) {put(edge, p.o + a * p.u);}}
  if (edge_map) {pcl::io::savePCDFileBinary("maps/edge.pcd", edge);}
  if (surface_map) {pcl::io::savePCDFileBinary("maps/surface.pcd", surface);}
  const std::string pose_topic = "estimated_pose";
  bool spun = false;
  ros_stub::state().spin_hook = [&] {
    spun = true;
    ros_stub::Recorder<PoseWithCovarianceStamped> out(pose_topic);
    for (std::int64_t k = 0, n = c.range(1, 3); k < n; k++) {
      Isometry3d truth = Isometry3d::Identity();
      truth.linear() = Eigen::AngleAxisd(c.real(-3., 3.), Vector3d::UnitZ()).toRotationMatrix();
      truth.translation() = Vector3d(c.real(-2., 2.), c.real(-2., 2.), 2.);
      Cloud e, s;
      const Isometry3d inv = truth.inverse();
      for (int i = 0; i < 24; i++) {const auto & p = poles[i % 3]; put(e, inv * Vector3d(p.o + (1. + 2e-3 * c.below(1000)) * p.u));}
      for (int i = 0; i < 80; i++) {const auto & p = patches[i % 4]; put(s, inv * Vector3d(p.o + (1. + 8e-3 * c.below(1000)) * p.u + (1. + 8e-3 * c.below(1000)) * p.v));}
      const Isometry3d prior = truth * Eigen::Translation3d(Vector3d(c.real(-.3, .3), c.real(-.3, .3), c.real(-.3, .3))) *
        Eigen::AngleAxisd(c.real(-0.03, 0.03), gen::unit3(c));
      const std::int64_t t = 1000000000LL * (10 + 5 * k);
      // a wrong prior of another time must not matter
      for (int d : {-1, 1}) {
        geometry_msgs::msg::PoseStamped w;
        w.header.stamp = stamp_of(t + d * 1500000000LL); w.pose = pose_message(c, truth * Eigen::Translation3d(Vector3d(5, 5, 5)));
        ros_stub::send<geometry_msgs::msg::PoseStamped>("optimization_start_pose", w);
      }
      nav_msgs::msg::Odometry m;
      m.header.stamp = stamp_of(t + c.range(-20000000, 20000000)); m.pose.pose = pose_message(c, prior);
      ros_stub::send<nav_msgs::msg::Odometry>("optimization_start_odom", m);
      ros_stub::send<PointCloud2>("scan_edge", cloud_message(e, t));
      ros_stub::send<PointCloud2>("scan_surface", cloud_message(s, t));
      CHECK_EQ(out.msgs.size(), static_cast<std::size_t>(k + 1), << "poses after " << k + 1 << " scans");
      CHECK_EQ(ros_stub::state().sent_tf.size(), out.msgs.size());
      const auto & got = out.msgs.back().pose.pose;
      const Isometry3d pose = read(Vector3d(got.position.x, got.position.y, got.position.z), got.orientation);
      check_output(out.msgs.back(), ros_stub::state().sent_tf.back(), stamp_of(t), pose, "application");
      const double ep = (pose.translation() - truth.translation()).norm();
      const double er = Eigen::AngleAxisd(Eigen::Matrix3d(pose.linear().transpose() * truth.linear())).angle();
      CHECK(ep < 1e-3 && er < 1e-3, << "scan " << k << " located " << ep << " m and " << er << " rad away from where it was taken");
    }
  };
  char name[] = "localization";
  char * argv[] = {name, nullptr};
  const int rc = app_main(1, argv);
  if (edge_map && surface_map) {
    CHECK_EQ(rc, 0); CHECK(spun, << "the node was never run");
  } else {
    CHECK(rc != 0, << "reported success without its maps"); CHECK(!spun, << "ran without its maps");
  }
  c.label(spun ? "both maps" : "map missing");
  c.nontrivial(spun);
}
