// F02: fusion of delayed, gated, smoothed pose and twist measurements.
#include "ref_ekf.hpp"
#include <limits>
#include <rclcpp/rclcpp.hpp>
#include "ekf_localizer/pose_measurement.hpp"
#include "ekf_localizer/twist_measurement.hpp"
#include "ekf_localizer/warning.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
const double INF = std::numeric_limits<double>::infinity();

geometry_msgs::msg::Quaternion yaw_quaternion(pbt::Case & c, double yaw)
{
  const double sign = c.coin() ? 1. : -1.;
  geometry_msgs::msg::Quaternion q;
  q.x = 0.; q.y = 0.;
  q.z = sign * std::sin(yaw / 2.); q.w = sign * std::cos(yaw / 2.);
  return q;
}
builtin_interfaces::msg::Time stamp_of(std::int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<std::int32_t>(ns / 1000000000); t.nanosec = static_cast<std::uint32_t>(ns % 1000000000);
  return t;
}
void compare(const TimeDelayKalmanFilter & f, const ref::Filter & r, const std::string & when)
{
  const double rounding = 1e-11 * r.spread, sp = 1e-8 * (1e-3 + r.P.cwiseAbs().maxCoeff()) + rounding;
  for (int d = 0; d < r.m; d++) {
    VectorXd got = f.getX(d), want = r.x(d);
    got(2) = want(2) + ref::wrapped(got(2) - want(2));
    CHECK_MAT(got, want, 1e-9 * (1. + want.cwiseAbs().maxCoeff()) + rounding, 0., << "state " << d << " steps ago, " << when);
  }
  CHECK_MAT(f.getLatestP(), r.p(), sp, 0., << "covariance, spread " << r.spread << ", " << when);
}
struct World
{
  rclcpp::Node node{"ekf"};
  Warning warning{&node};
  std::shared_ptr<TimeDelayKalmanFilter> ekf;
  ref::Filter model;
  std::unique_ptr<PoseMeasurement> pose;
  std::unique_ptr<TwistMeasurement> twist;
  ref::Fusion rp, rt;
  std::int64_t now = 0;
  double dt = 0.02;
  std::string log;
};
void history(pbt::Case & c, bool with_pose, bool with_twist)
{
  ros_stub::reset();
  World w;
  const int stack = static_cast<int>(c.pick({1, 2, 3, 5, 8}));
  VectorXd x0(6);
  x0 << c.num(100.), c.num(100.), c.pick({0., 3.1, -3.1, c.real(-3.14, 3.14)}), c.real(-0.1, 0.1), c.num(10.), c.num(1.);
  MatrixXd P0 = gen::spd(c, 6, 1., 0.05);
  w.ekf = std::make_shared<TimeDelayKalmanFilter>(x0, P0, stack);
  w.model = ref::Filter(x0, P0, stack);
  const int ps = static_cast<int>(c.pick({1, 2, 5})), ts = static_cast<int>(c.pick({1, 2, 5}));
  const double pg = c.pick({1e4, 1e4, 3., 0.5}), tg = c.pick({1e4, 1e4, 3., 0.5});
  const std::string frame = c.pick({"map", "odom%s", ""});
  w.pose = std::make_unique<PoseMeasurement>(w.warning, frame, stack, pg, ps);
  w.twist = std::make_unique<TwistMeasurement>(w.warning, stack, tg, ts);
  w.rp = {{0, 1, 2}, true, ps, ps, pg, {}};
  w.rt = {{4, 5}, false, ts, ts, tg, {}};
  w.dt = c.pick({0.02, 0.1, 0.5});
  w.now = 1000000000LL * c.range(100, 2000);
  const MatrixXd Q = VectorXd((VectorXd(6) << 0., 0., 1e-4, 1e-6, 1e-2, 4e-4).finished()).asDiagonal();
  const int n = static_cast<int>(c.size(1, 20, 300, 100));
  int most = 0;
  for (int k = 0; k < n; k++) {
    const auto op = c.below(10);
    if (op < 5 && (with_pose || with_twist)) {
      const bool p = with_pose && (!with_twist || c.coin());
      const int d = static_cast<int>(c.range(0, stack + 1));
      std::int64_t stamp = w.now - static_cast<std::int64_t>((d + c.real(-0.4, 0.4)) * w.dt * 1e9);
      if (c.chance(1, 12)) {stamp = w.now - 1000000000LL * 90;}           // far too old
      if (c.chance(1, 12)) {stamp = w.now + 1000000000LL * c.range(1, 5);}  // from the future
      const VectorXd x = w.model.x(0);
      const double spread = c.pick({0.05, 1., 20.});
      const std::string id = c.chance(1, 6) ? c.pick({"", "other", "100%n", "a%sb"}) : p ? frame : std::string("base_link");
      MatrixXd R = gen::spd(c, p ? 3 : 2, 0.5, 0.05);
      if (c.chance(1, 15)) {R(c.below(R.rows()), c.below(R.cols())) = std::nan("");}
      std::array<double, 36> cov;
      for (auto & v : cov) {v = 777.;}
      VectorXd y(p ? 3 : 2);
      if (p) {
        y << x(0) + spread * c.normal(), x(1) + spread * c.normal(), 0.;
        const double yaw = c.coin() ? x(2) + 0.2 * c.normal() : c.real(-M_PI, M_PI);
        y(2) = ref::wrapped(yaw);
        if (c.chance(1, 10)) {y(c.below(2)) = c.pick({INF, -INF, std::nan("")});}
        auto m = std::make_shared<PoseWithCovarianceStamped>();
        m->header.stamp = stamp_of(stamp);
        m->header.frame_id = id;
        m->pose.pose.position.x = y(0); m->pose.pose.position.y = y(1); m->pose.pose.position.z = 5.;
        m->pose.pose.orientation = yaw_quaternion(c, y(2));
        if (c.chance(1, 20)) {m->pose.pose.orientation.z = std::nan(""); y(2) = std::nan("");}
        const int e[3] = {0, 1, 5};
        for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {cov[6 * e[i] + e[j]] = R(i, j);}}
        m->pose.covariance = cov;
        w.pose->Push(m);
        w.rp.pending.push_back({y, R, stamp, 0});
      } else {
        y << x(4) + spread * c.normal(), x(5) + 0.1 * spread * c.normal();
        if (c.chance(1, 10)) {y(c.below(2)) = c.pick({INF, -INF, std::nan("")});}
        auto m = std::make_shared<TwistWithCovarianceStamped>();
        m->header.stamp = stamp_of(stamp);
        m->header.frame_id = id;
        m->twist.twist.linear.x = y(0); m->twist.twist.angular.z = y(1);
        m->twist.twist.linear.y = std::nan(""); m->twist.twist.angular.x = 9.;
        const int e[2] = {0, 5};
        for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {cov[6 * e[i] + e[j]] = R(i, j);}}
        m->twist.covariance = cov;
        w.twist->Push(m);
        w.rt.pending.push_back({y, R, stamp, 0});
      }
      w.log += p ? " pose" : " twist";
      continue;
    }
    if (op == 9 && c.chance(1, 3)) {
      if (c.coin()) {w.pose->Clear(); w.rp.pending.clear(); w.log += " clear(pose)";} else {w.twist->Clear(); w.rt.pending.clear(); w.log += " clear(twist)";}
      continue;
    }
    // a tick: predict, then fuse what is pending
    w.dt = c.chance(1, 10) ? c.pick({0., 1., 0.05}) : w.dt;
    if (w.dt == 0. && c.coin()) {w.dt = 0.02;}
    w.now += static_cast<std::int64_t>(w.dt * 1e9);
    const VectorXd x = w.model.x(0), x_next = ref::unicycle(x, w.dt);
    const MatrixXd A = ref::unicycle_jacobian(x, w.dt);
    w.ekf->predict(x_next, A, Q);
    w.model.predict(x_next, A, Q);
    most = std::max<int>(most, static_cast<int>(w.rp.pending.size() + w.rt.pending.size()));
    w.log += " tick";
    const rclcpp::Time t(w.now, RCL_ROS_TIME);
    if (!w.rp.tick(w.model, w.now, w.dt)) {throw pbt::Discard{};}
    w.pose->Update(w.ekf, t, w.dt);
    compare(*w.ekf, w.model, "after the poses of operation " + std::to_string(k) + " of" + w.log);
    if (!w.rt.tick(w.model, w.now, w.dt)) {throw pbt::Discard{};}
    w.twist->Update(w.ekf, t, w.dt);
    compare(*w.ekf, w.model, "after the twists of operation " + std::to_string(k) + " of" + w.log);
    CHECK_EQ(ros_stub::state().format_errors, 0, << "warning text used as a format: " << ros_stub::state().bad_format);
    if (w.model.X.cwiseAbs().maxCoeff() > 1e5 || w.model.P.cwiseAbs().maxCoeff() > 1e5) {break;}
  }
  const int fused = w.rp.fused + w.rt.fused;
  c.note() << "stack " << stack << ", smoothing " << ps << "/" << ts << ", gates " << pg << "/" << tg << ":" << w.log << "; fused " << fused <<
    ", skipped " << w.rp.skipped + w.rt.skipped;
  c.label("delayed", w.rp.delayed + w.rt.delayed > 0);
  c.label("skipped", w.rp.skipped + w.rt.skipped > 0);
  c.label("yaw across the wrap", w.rp.wrapped_innovations > 0);
  c.label("several pending", most > 1);
  c.nontrivial(fused > 0 && most > 1);
}
}  // namespace

PROP(poses_follow_the_rules, 12000) {history(c, true, false);}
PROP(twists_follow_the_rules, 12000) {history(c, false, true);}
PROP(poses_and_twists_follow_the_rules, 12000) {history(c, true, true);}
