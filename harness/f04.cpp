// F04: update interval, delays, gating distance, checks and name helper.
#include "gen.hpp"
#include <limits>
#include <stdexcept>
#include <rclcpp/rclcpp.hpp>
#include "ekf_localizer/check.hpp"
#include "ekf_localizer/delay.hpp"
#include "ekf_localizer/mahalanobis.hpp"
#include "ekf_localizer/string.hpp"
#include "ekf_localizer/update_interval.hpp"
#include "ekf_localizer/warning.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
const double INF = std::numeric_limits<double>::infinity();
std::string text(pbt::Case & c)
{
  std::string s;
  const int n = static_cast<int>(c.size(0, 8, 300, 100));
  for (int i = 0; i < n; i++) {s += c.pick<char>({'/', 'a', '_', '%', 's', 'd', 'n', '{', '}', '.', ' '});}
  return s;
}
}  // namespace

PROP(update_interval, 30000)
{
  const double f = c.pick({50., 10., 0.1, 0.05, 0., -1., 1e-9, 1e4, c.real(0.01, 200.)});
  UpdateInterval u(f);
  double t = c.coin() ? c.real(0., 2e9) : c.real(0., 10.);
  const double tol = 1e-12;
  CHECK_NEAR(u.Compute(t), 1. / std::max(f, 0.1), 0., tol, << "first interval for " << f << " Hz");
  CHECK_NEAR(ComputeInterval(f), 1. / std::max(f, 0.1), 0., tol, << "interval of " << f << " Hz");
  const int n = static_cast<int>(c.size(1, 12, 400, 100));
  int jumps = 0;
  for (int i = 0; i < n; i++) {
    const double d = c.pick({0., 0.02, 1e-6, 9.99, 10., 10.5, 1e5, -0.02, -1e-6, -100., c.real(0., 1.)});
    const double now = t + d;
    if (now < t) {
      // a clock that moved backwards is rejected and the last tick stays the reference
      CHECK_THROWS(u.Compute(now), << "clock moved back from " << pbt::show(t) << " to " << pbt::show(now));
      jumps++;
      continue;
    }
    const double dt = u.Compute(now);
    CHECK_NEAR(dt, std::min(now - t, 10.), 1e-12, tol, << "interval between " << pbt::show(t) << " and " << pbt::show(now));
    CHECK(dt >= 0. && dt <= 10. * (1 + tol));
    t = now;
  }
  c.label("clock moved backwards", jumps > 0);
  c.nontrivial(n > 1);
}

PROP(delay_step, 60000)
{
  const double dt = c.pick({0.02, 0.1, 10., 1e-3, 1. / 3., c.pos(1e-6, 10.)});
  double delay = c.pick({0., 0.5 * dt, c.real(0., 60.) * dt, c.real(0., 2.), c.real(-10., 0.), -INF, INF, 1e12, 1e300, 3e9 * dt, c.pos(1e-9, 1e9)});
  const int step = ComputeDelayStep(delay, dt);
  CHECK(step >= 0, << "negative step " << step << " for a delay of " << delay);
  if (delay <= 0.) {CHECK_EQ(step, 0, << "delay " << delay); return;}
  const double exact = delay / dt;
  if (exact >= 2147483647.5) {
    CHECK(step >= 2147483520, << "delay " << delay << " at " << dt << " gives step " << step);
    c.label("saturated");
    c.nontrivial();
    return;
  }
  // the nearest whole step; single precision is enough for the division
  CHECK(std::fabs(step - exact) <= 0.5 + 1e-6 * exact, << "delay " << delay << " at " << dt << " gives step " << step);
  c.nontrivial(step > 0);
}

PROP(delay_of_no_interval, 2000)
{
  // two ticks at the same time of the clock: any positive delay is too far, none is no step
  const double delay = c.pick({0., -1., -INF, 1e-9, 0.5, INF});
  const int step = ComputeDelayStep(delay, 0.);
  if (delay <= 0.) {CHECK_EQ(step, 0, << "delay " << delay << " over no interval");} else {CHECK(step > 1000000, << "delay " << delay << " over no interval gives step " << step);}
  c.nontrivial(delay > 0.);
}

PROP(delay_time, 20000)
{
  const std::int64_t a = c.range(0, 4000000000000000000), b = c.coin() ? c.range(0, 2000000000LL * 1000000000LL) : a % 2000000000000000000 - c.range(-1000000000, 1000000000);
  if (b < 0) {throw pbt::Discard{};}
  const double got = ComputeDelayTime(rclcpp::Time(a, RCL_ROS_TIME), rclcpp::Time(b, RCL_ROS_TIME));
  CHECK_NEAR(got, static_cast<double>((static_cast<long double>(a) - b) * 1e-9L), 1e-9, 1e-14, << a << " - " << b);
  c.nontrivial(a != b);
}

PROP(mahalanobis_distance, 40000)
{
  const int n = static_cast<int>(c.range(1, 6));
  const MatrixXd L = gen::matrix(c, n, n, 1.);
  const double s = c.pick({1., 1e-3, 1e3});
  const MatrixXd C = s * (L * L.transpose() + c.pick({1., 0.1, 1e-2}) * MatrixXd::Identity(n, n));
  const VectorXd x = gen::vec(c, n, 10.), y = c.chance(1, 8) ? x : gen::vec(c, n, 10.);
  // |L^-1 d|^2 for C = L L'
  const VectorXd w = C.llt().matrixL().solve(x - y);
  const double want = w.squaredNorm();
  const double got = SquaredMahalanobis(x, y, C);
  CHECK_NEAR(got, want, 1e-12, 1e-8, << "distance of " << gen::str(x.transpose()) << " and " << gen::str(y.transpose()) << " under " << gen::str(C));
  CHECK_NEAR(SquaredMahalanobis(y, x, C), got, 1e-12, 1e-8, << "not symmetric");
  const double gate = c.pick({0., std::sqrt(want) * 1.001 + 1e-9, std::sqrt(want) * 0.999, c.pos(1e-3, 1e3)});
  if (std::fabs(gate * gate - want) > 1e-7 * want || want == 0.) {CHECK_EQ(MahalanobisGate(gate, x, y, C), want <= gate * gate, << "gate " << gate << " distance " << std::sqrt(want));}
  c.nontrivial(n > 1 && want > 0.);
}

PROP(checks, 20000)
{
  ros_stub::reset();
  rclcpp::Node node("n");
  const Warning w(&node);
  auto & st = ros_stub::state();
  int expected = 0;
  const auto verdict = [&](bool got, bool want, const char * what) {
      CHECK_EQ(got, want, << what);
      expected += !want;
      CHECK_EQ(st.warnings + st.errors, expected, << "warnings after " << what);
      CHECK_EQ(st.format_errors, 0, << "the text of a warning was used as a format: '" << st.bad_format << "'");
    };
  const std::string a = text(c), b = c.coin() ? a : text(c);
  verdict(CheckFrameId(w, a, b), a == b, "frame id");
  if (a != b) {
    CHECK(st.last_message.find(a) != std::string::npos && st.last_message.find(b) != std::string::npos, << "frames '" << a << "' and '" << b << "' are not in the warning '" << st.last_message << "'");
  }
  const double t = c.pick({0., 0.1, -0.1, -1e-12, 1e9, INF, -INF, std::nan("")});
  verdict(CheckDelayTime(w, t), t >= 0., "delay time");
  const int k = static_cast<int>(c.range(0, 60)), m = static_cast<int>(c.pick<std::int64_t>({k, k + 1, c.range(0, 60)}));
  verdict(CheckDelayStep(w, k, m), k < m, "delay step");
  MatrixXd M = gen::matrix(c, static_cast<int>(c.range(1, 4)), static_cast<int>(c.range(1, 4)), 1e3);
  bool bad = false;
  if (c.coin()) {M(c.below(M.rows()), c.below(M.cols())) = c.pick({INF, -INF, std::nan("")}); bad = true;}
  verdict(CheckMeasurementMatrixNanInf(w, M), !bad, "NaN or Inf");
  const VectorXd x = gen::vec(c, 2, 10.), y = gen::vec(c, 2, 10.);
  const double gate = c.pos(0.1, 30.), d2 = (x - y).squaredNorm() / 4.;
  if (std::fabs(d2 - gate * gate) > 1e-6) {verdict(CheckMahalanobisGate(w, gate, x, y, 4. * MatrixXd::Identity(2, 2)), d2 <= gate * gate, "gate");}
  c.nontrivial(a != b && bad);
}

PROP(erase_begin_slash, 20000)
{
  const std::string s = text(c), got = EraseBeginSlash(s);
  const std::string want = s.substr(0, 1) == "/" ? s.substr(1) : s;
  CHECK_EQ(got, want, << "of '" << s << "'");
  c.nontrivial(got != s);
  c.label("empty", s.empty());
}
