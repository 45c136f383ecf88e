// F05: the EKF node, messages and ticks in, odometry and transforms out.
#include "ref_ekf.hpp"
#include <limits>
#include <rclcpp/rclcpp.hpp>
#include "ekf_localizer/ekf_localizer.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
using Eigen::Quaterniond;
using Eigen::Vector3d;
const double INF = std::numeric_limits<double>::infinity();

// scalar filter of height, roll and pitch
struct Scalar
{
  bool ready = false;
  double x = 0., variance = 0., rate = 0.;
  std::int64_t stamp = 0;
  void init(double v, double var, std::int64_t t) {x = v; variance = var; stamp = t; ready = true;}
  void update(double v, double var, std::int64_t t)
  {
    if (!std::isfinite(v) || !std::isfinite(var) || var < 0.) {return;}
    if (!ready) {init(v, var, t); return;}
    const double dt = static_cast<double>(t - stamp) * 1e-9, prior = variance + rate * rate * dt * dt;
    if (prior + var > 0.) {
      x += prior / (prior + var) * (v - x);
      variance = prior * var / (prior + var);
    } else {
      variance = 0.;
    }
    stamp = t;
  }
};
struct Params
{
  double frequency = 50., pose_gate = 10000., twist_gate = 10000., yaw = 0.005, bias = 0.001, vx = 5., wz = 1.;
  int stack = 50, pose_steps = 5, twist_steps = 2;
  bool estimate_bias = true;
  std::string frame = "map";
};
Params params(pbt::Case & c)
{
  Params p;
  auto & s = ros_stub::state().params;
  // the default stack is deep and slow: sometimes
  if (!c.chance(1, 25)) {p.stack = static_cast<int>(c.pick({4, 1, 2, 8})); s["extend_state_step"] = static_cast<std::int64_t>(p.stack);}
  if (c.coin()) {
    p.frequency = c.pick({50., 10., 2., 0.05});
    p.pose_gate = c.pick({10000., 4., 1.});
    p.twist_gate = c.pick({10000., 4., 1.});
    p.pose_steps = static_cast<int>(c.pick({1, 2, 5}));
    p.twist_steps = static_cast<int>(c.pick({1, 2, 5}));
    p.estimate_bias = c.coin();
    p.yaw = c.pos(1e-3, 0.5); p.bias = c.pos(1e-3, 0.1); p.vx = c.pos(0.1, 10.); p.wz = c.pos(0.1, 5.);
    p.frame = c.pick({"map", "/map", "world"});
    s["predict_frequency"] = p.frequency;
    s["pose_gate_dist"] = p.pose_gate; s["twist_gate_dist"] = p.twist_gate;
    s["pose_smoothing_steps"] = static_cast<std::int64_t>(p.pose_steps);
    s["twist_smoothing_steps"] = static_cast<std::int64_t>(p.twist_steps);
    s["enable_yaw_bias_estimation"] = p.estimate_bias;
    s["proc_stddev_yaw_c"] = p.yaw; s["proc_stddev_yaw_bias_c"] = p.bias; s["proc_stddev_vx_c"] = p.vx; s["proc_stddev_wz_c"] = p.wz;
    s["pose_frame_id"] = p.frame;
  }
  return p;
}
std::string bare(const std::string & s) {return s.substr(0, 1) == "/" ? s.substr(1) : s;}
builtin_interfaces::msg::Time stamp_of(std::int64_t ns)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<std::int32_t>(ns / 1000000000); t.nanosec = static_cast<std::uint32_t>(ns % 1000000000);
  return t;
}
Quaterniond rotation(double roll, double pitch, double yaw)
{
  return Eigen::AngleAxisd(yaw, Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Vector3d::UnitX());
}
geometry_msgs::msg::Quaternion message(const Quaterniond & q)
{
  geometry_msgs::msg::Quaternion m;
  m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w();
  return m;
}
void check_pose(const Vector3d & p, const Quaterniond & q, const Vector3d & want_p, const Quaterniond & want_q, double rounding, const std::string & what)
{
  CHECK(p.allFinite() && q.coeffs().allFinite(), << what << ": not finite");
  CHECK_NEAR(q.norm(), 1., 1e-9, 0., << what << ": not a unit quaternion");
  CHECK_MAT(p, want_p, 1e-9 * (1. + want_p.norm()) + rounding, 0., << what << ": position");
  CHECK(std::fabs(std::fabs(q.dot(want_q)) - 1.) < 1e-9, << what << ": orientation " << gen::str(q.coeffs().transpose()) << " want " << gen::str(want_q.coeffs().transpose()));
}
}  // namespace

PROP(node_follows_the_filter, 5000)
{
  ros_stub::reset();
  auto & st = ros_stub::state();
  const Params p = params(c);
  st.now_ns = 1000000000LL * c.range(2000, 5000);
  // a frame related to the pose frame by a planar motion
  const Vector3d shift(c.num(100.), c.num(100.), c.num(10.));
  const double turn = c.coin() ? 0. : c.real(-3., 3.);
  geometry_msgs::msg::TransformStamped tf;
  tf.header.frame_id = bare(p.frame); tf.child_frame_id = "viewer";
  tf.transform.translation.x = shift.x(); tf.transform.translation.y = shift.y(); tf.transform.translation.z = shift.z();
  tf.transform.rotation = message(rotation(0., 0., turn));
  st.tf[{bare(p.frame), "viewer"}] = tf;

  auto node = std::make_shared<EKFLocalizer>("ekf_localizer", rclcpp::NodeOptions());
  ros_stub::Recorder<nav_msgs::msg::Odometry> odom("ekf_odom");
  CHECK_EQ(ros_stub::timer_count(), static_cast<std::size_t>(1), << "timers");
  const double period = 1. / std::max(p.frequency, 0.1);
  CHECK_NEAR(st.timers.front().lock()->period_ns * 1e-9, period, 1e-8, 0., << "period of the timer");

  ref::Filter filter;
  bool initialised = false;
  Scalar z, roll, pitch;
  z.rate = 1.; roll.rate = pitch.rate = 0.1;
  ref::Fusion poses{{0, 1, 2}, true, p.pose_steps, p.pose_steps, p.pose_gate, {}}, twists{{4, 5}, false, p.twist_steps, p.twist_steps, p.twist_gate, {}};
  bool ticked = false;
  std::int64_t last = 0;
  std::size_t published = 0, resets = 0, ticks_after_reset = 0;
  std::string log;
  const int n = static_cast<int>(c.size(1, 30, 300, 100));
  std::int64_t pose_stamp = st.now_ns - 1000000;
  for (int k = 0; k < n; k++) {
    const auto op = c.below(12);
    if (op < 2 || (k == 0 && c.chance(2, 3))) {
      // initial pose, possibly in a frame nobody knows
      const std::string frame = c.pick({p.frame, bare(p.frame), "/" + bare(p.frame), std::string("viewer"), std::string("/viewer"), std::string("nowhere"), std::string("")});
      PoseWithCovarianceStamped m;
      const double far_ = c.chance(1, 4) ? 1e6 : 1000.;   // maps in metres from a distant origin
      const Vector3d t(c.num(far_), c.num(far_), c.num(far_ > 1e5 ? 1e4 : 10.));
      const double r0 = c.real(-1., 1.), p0 = c.real(-1., 1.), y0 = c.real(-3.14, 3.14);
      m.header.frame_id = frame; m.header.stamp = stamp_of(st.now_ns - c.pick<std::int64_t>({0, 1000000}));
      m.pose.pose.position.x = t.x(); m.pose.pose.position.y = t.y(); m.pose.pose.position.z = t.z();
      m.pose.pose.orientation = message(rotation(r0, p0, y0));
      for (int i = 0; i < 36; i++) {m.pose.covariance[i] = 0.25;}
      const double vx = c.pos(1e-3, 10.), vy = c.pos(1e-3, 10.), vyaw = c.pos(1e-3, 1.), vz = c.pick({0., 0.3}), vr = c.pick({0., 0.1}), vp = c.pick({0., 0.1});
      const double var[6] = {vx, vy, vz, vr, vp, vyaw};
      for (int i = 0; i < 6; i++) {m.pose.covariance[7 * i] = var[i];}
      ros_stub::send("initialpose", m);
      log += " init(" + frame + ")";
      const std::string child = bare(frame);
      if (child == bare(p.frame) || child == "viewer") {
        const bool moved = child == "viewer";
        const Vector3d at = moved ? Vector3d(rotation(0., 0., turn) * t + shift) : t;
        VectorXd x0 = VectorXd::Zero(6);
        x0.head(3) << at.x(), at.y(), y0 + (moved ? turn : 0.);
        filter = ref::Filter(x0, VectorXd((VectorXd(6) << vx, vy, vyaw, 1e-4, 1e-2, 1e-2).finished()).asDiagonal(), p.stack);
        initialised = true;
        const std::int64_t ns = static_cast<std::int64_t>(m.header.stamp.sec) * 1000000000 + m.header.stamp.nanosec;
        z.init(at.z(), vz, ns); roll.init(r0, vr, ns); pitch.init(p0, vp, ns);
        poses.pending.clear(); twists.pending.clear();
        resets++;
        ticks_after_reset = 0;
      }
    } else if (op < 5) {
      PoseWithCovarianceStamped m;
      // messages may share a stamp and be late
      if (!c.chance(1, 4)) {pose_stamp = st.now_ns - static_cast<std::int64_t>(c.pick({0., 0.3, 1.2, 2.7, 30., -0.3}) * period * 1e9);}
      const VectorXd x = initialised ? filter.x() : VectorXd(VectorXd::Zero(6));
      const double s = c.pick({0.1, 2., 30.});
      VectorXd y(3);
      y << x(0) + s * c.normal(), x(1) + s * c.normal(), ref::wrapped(x(2) + (c.coin() ? 0.2 : 2.) * c.normal());
      double h = c.num(c.chance(1, 4) ? 1e4 : 10.), r0 = c.real(-1., 1.), p0 = c.real(-1., 1.);
      MatrixXd R = gen::spd(c, 3, 0.5, 0.05);
      double var[3] = {c.pick({0., 0.3}), c.pick({0., 0.1}), c.pick({0., 0.1})};
      m.header.frame_id = c.chance(1, 6) ? "wrong%s" : p.frame;
      m.header.stamp = stamp_of(pose_stamp);
      Quaterniond q = rotation(r0, p0, y(2));
      switch (c.below(14)) {   // broken measurements
        case 13: y(c.below(2)) = c.pick({std::nan(""), INF, -INF}); break;
        case 12: h = c.pick({std::nan(""), INF}); break;
        case 11: q.z() = std::nan(""); y(2) = r0 = p0 = std::nan(""); break;
        case 10: var[c.below(3)] = c.pick({std::nan(""), INF, -0.5}); break;
        default: break;
      }
      m.pose.pose.position.x = y(0); m.pose.pose.position.y = y(1); m.pose.pose.position.z = h;
      m.pose.pose.orientation = message(q);
      const int e[3] = {0, 1, 5};
      for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {m.pose.covariance[6 * e[i] + e[j]] = R(i, j);}}
      for (int i = 0; i < 3; i++) {m.pose.covariance[7 * (2 + i)] = var[i];}
      ros_stub::send("in_pose_with_covariance", m);
      log += " pose";
      poses.pending.push_back({y, R, pose_stamp, 0});
      z.update(h, var[0], pose_stamp); roll.update(r0, var[1], pose_stamp); pitch.update(p0, var[2], pose_stamp);
    } else if (op < 7) {
      TwistWithCovarianceStamped m;
      const std::int64_t stamp = st.now_ns - static_cast<std::int64_t>(c.pick({0., 0.3, 1.2, 2.7, 30., -0.3}) * period * 1e9);
      const VectorXd x = initialised ? filter.x() : VectorXd(VectorXd::Zero(6));
      VectorXd y(2);
      y << x(4) + c.pick({0.1, 3.}) * c.normal(), x(5) + 0.3 * c.normal();
      if (c.chance(1, 10)) {y(c.below(2)) = c.pick({std::nan(""), INF});}
      const MatrixXd R = gen::spd(c, 2, 0.5, 0.05);
      m.header.frame_id = "base_link"; m.header.stamp = stamp_of(stamp);
      m.twist.twist.linear.x = y(0); m.twist.twist.angular.z = y(1);
      const int e[2] = {0, 5};
      for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {m.twist.covariance[6 * e[i] + e[j]] = R(i, j);}}
      ros_stub::send("in_twist_with_covariance", m);
      log += " twist";
      twists.pending.push_back({y, R, stamp, 0});
    } else {
      const double step = c.pick({period, period, 1.3 * period, 0., 12., -0.5 * period});
      st.now_ns += static_cast<std::int64_t>(step * 1e9);
      const std::size_t tf_before = st.sent_tf.size();
      ros_stub::fire_timers();
      log += " tick(" + pbt::show(step) + ")";
      const std::string when = log + ", stack " + std::to_string(p.stack);
      const double seconds = static_cast<double>(st.now_ns) * 1e-9;
      if (!initialised || (ticked && st.now_ns < last)) {
        CHECK_EQ(odom.msgs.size(), published, << "published " << (initialised ? "although the clock went back:" : "before an initial pose:") << when);
        CHECK_EQ(st.sent_tf.size(), tf_before, << "transform sent " << (initialised ? "although the clock went back:" : "before an initial pose:") << when);
        continue;
      }
      double dt = period;
      if (ticked) {dt = std::min(seconds - static_cast<double>(last) * 1e-9, 10.);}
      if (dt < 1e-9) {dt = 0.;}
      ticked = true;
      last = st.now_ns;
      published++;
      ticks_after_reset++;
      const VectorXd x = filter.x();
      VectorXd noise = VectorXd::Zero(6);
      const double stddev[4] = {p.yaw, p.estimate_bias ? p.bias : 0., p.vx, p.wz};
      for (int i = 0; i < 4; i++) {noise(2 + i) = stddev[i] * dt * stddev[i] * dt;}
      filter.predict(ref::unicycle(x, dt), ref::unicycle_jacobian(x, dt), MatrixXd(noise.asDiagonal()));
      if (!poses.tick(filter, st.now_ns, dt) || !twists.tick(filter, st.now_ns, dt)) {throw pbt::Discard{};}
      CHECK_EQ(odom.msgs.size(), published, << "one odometry message per tick:" << when);
      CHECK_EQ(st.sent_tf.size(), tf_before + 1, << "one transform per tick:" << when);
      const auto & o = odom.msgs.back();
      const auto & t = st.sent_tf.back();
      CHECK_EQ(o.header.frame_id, p.frame); CHECK_EQ(o.child_frame_id, std::string("base_link"));
      CHECK_EQ(t.header.frame_id, p.frame); CHECK_EQ(t.child_frame_id, std::string("base_link"));
      CHECK(o.header.stamp == stamp_of(st.now_ns) && t.header.stamp == stamp_of(st.now_ns), << "stamps are not the time of the tick");
      const VectorXd e = filter.x();
      const double rounding = 1e-11 * filter.spread;
      const Vector3d at(e(0), e(1), z.x);
      const Quaterniond q = rotation(roll.x, pitch.x, e(2) + e(3));
      const auto & op_ = o.pose.pose;
      check_pose(Vector3d(op_.position.x, op_.position.y, op_.position.z), Quaterniond(op_.orientation.w, op_.orientation.x, op_.orientation.y, op_.orientation.z), at, q, rounding, "odometry after" + when);
      const auto & tp = t.transform;
      check_pose(Vector3d(tp.translation.x, tp.translation.y, tp.translation.z), Quaterniond(tp.rotation.w, tp.rotation.x, tp.rotation.y, tp.rotation.z), at, q, rounding, "transform after" + when);
      const auto & tw = o.twist.twist;
      CHECK_NEAR(tw.linear.x, e(4), 1e-9 + rounding, 1e-9, << "velocity after" << when);
      CHECK_NEAR(tw.angular.z, e(5), 1e-9 + rounding, 1e-9, << "yaw rate after" << when);
      CHECK(tw.linear.y == 0. && tw.linear.z == 0. && tw.angular.x == 0. && tw.angular.y == 0., << "other velocities");
      const MatrixXd P = filter.p();
      MatrixXd want_pose = MatrixXd::Zero(6, 6), want_twist = want_pose;
      const int ep[3] = {0, 1, 5}, et[2] = {0, 5};
      for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {want_pose(ep[i], ep[j]) = P(i, j);}}
      for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {want_twist(et[i], et[j]) = P(4 + i, 4 + j);}}
      const double tol = 1e-8 * (1e-3 + filter.P.cwiseAbs().maxCoeff()) + rounding;
      CHECK_MAT(MatrixXd((Eigen::Map<const Eigen::Matrix<double, 6, 6, Eigen::RowMajor>>(o.pose.covariance.data()))), want_pose, tol, 0., << "pose covariance after" << when);
      CHECK_MAT(MatrixXd((Eigen::Map<const Eigen::Matrix<double, 6, 6, Eigen::RowMajor>>(o.twist.covariance.data()))), want_twist, tol, 0., << "twist covariance after" << when);
      if (filter.X.cwiseAbs().maxCoeff() > 1e6 || filter.P.cwiseAbs().maxCoeff() > 1e4) {break;}
    }
    CHECK_EQ(st.format_errors, 0, << "log text used as a format: " << st.bad_format);
  }
  if (!initialised) {CHECK(odom.msgs.empty() && st.sent_tf.empty(), << "published before an initial pose:" << log);}
  c.note() << log << "; fused " << poses.fused << " poses, " << twists.fused << " twists, skipped " << poses.skipped + twists.skipped;
  c.label("delayed", poses.delayed + twists.delayed > 0);
  c.label("reset while running", resets > 1);
  c.label("yaw across the wrap", poses.wrapped_innovations > 0);
  c.nontrivial(published > 1 && poses.fused + twists.fused > 0);
}
