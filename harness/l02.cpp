// L02: the optimiser's loop.
#include "gen.hpp"
#include <memory>
#include <algorithm>
#include "lidar_feature_localization/alignment.hpp"
#include "lidar_feature_localization/optimizer.hpp"

namespace
{
using Eigen::Isometry3d;
using Eigen::Vector3d;
using gen::MatrixXd;
using gen::VectorXd;
using Points = std::tuple<MatrixXd, MatrixXd>;

struct Call {Isometry3d pose; std::vector<MatrixXd> J; std::vector<VectorXd> r;};
// the alignment problem, recording what the optimiser asks
struct Recording
{
  std::shared_ptr<std::vector<Call>> calls = std::make_shared<std::vector<Call>>();
  AlignmentProblem problem;
  std::tuple<std::vector<MatrixXd>, std::vector<VectorXd>> Make(const Points & p, const Isometry3d & pose) const
  {
    const auto jr = problem.Make(p, pose);
    calls->push_back({pose, std::get<0>(jr), std::get<1>(jr)});
    return jr;
  }
};
double median(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  const std::size_t n = v.size();
  return n % 2 ? v[n / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]);
}
double scale_of(const std::vector<double> & e)
{
  const double m = median(e);
  std::vector<double> d;
  for (const double x : e) {d.push_back(std::fabs(x - m));}
  return 1.482602218505602 * median(d);
}
std::vector<double> errors(const Call & c)
{
  std::vector<double> e;
  for (const auto & r : c.r) {e.push_back(r.squaredNorm());}
  return e;
}
double sum(const std::vector<double> & v) {double s = 0; for (const double x : v) {s += x;} return s;}
bool rigid(const Isometry3d & T)
{
  return T.matrix().allFinite() && (T.linear() * T.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-9 &&
         std::fabs(T.linear().determinant() - 1.) < 1e-9 && (T.matrix().row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() == 0.;
}
struct Step {Vector3d theta, t; bool degenerate; double cond; bool ambiguous;};
// Gauss-Newton step with Huber weights of the scale-normalised squared errors
Step reference_step(const Call & c)
{
  const auto e = errors(c);
  const double s = scale_of(e) + 1e-16, k = 1.345;
  MatrixXd D = MatrixXd::Zero(7, 7), H = MatrixXd::Zero(6, 6);
  VectorXd g = VectorXd::Zero(6);
  const Eigen::Quaterniond q(c.pose.linear());
  Eigen::Matrix<double, 7, 6> M = Eigen::Matrix<double, 7, 6>::Zero();
  for (int a = 0; a < 3; a++) {
    const Eigen::Quaterniond d = q * Eigen::Quaterniond(0, a == 0, a == 1, a == 2);
    M.col(a).head(4) << 0.5 * d.w(), 0.5 * d.x(), 0.5 * d.y(), 0.5 * d.z();
    M(4 + a, 3 + a) = 1.;
  }
  for (std::size_t i = 0; i < c.J.size(); i++) {
    const double x = e[i] / s, w = x < k * k ? 1. : k / std::sqrt(x);
    D += c.J[i].transpose() * c.J[i];
    const MatrixXd JM = c.J[i] * M;
    H += w * JM.transpose() * JM;
    g += w * JM.transpose() * c.r[i];
  }
  const double lowest = Eigen::SelfAdjointEigenSolver<MatrixXd>(D).eigenvalues().cwiseAbs().minCoeff();
  if (lowest < 0.1) {return {Vector3d::Zero(), Vector3d::Zero(), true, 1., std::fabs(lowest - 0.1) < 1e-7};}
  const Eigen::JacobiSVD<MatrixXd> svd(H, Eigen::ComputeThinU | Eigen::ComputeThinV);
  const VectorXd x = -svd.solve(g);
  return {x.head(3), x.tail(3), false, svd.singularValues()(0) / svd.singularValues()(5), std::fabs(lowest - 0.1) < 1e-7};
}
// rounding of the normal equations; a turn of less than 1e-8 rad counts as none
double step_tolerance(const Step & s) {return 1e-9 + 1e-14 * s.cond + (s.theta.norm() < 3e-8 ? 2. * s.theta.norm() : 0.);}
Isometry3d apply(const Isometry3d & T, const Step & s)
{
  Isometry3d r = T;
  const double a = s.theta.norm();
  if (a > 0.) {r.linear() = T.linear() * Eigen::AngleAxisd(a, s.theta / a).toRotationMatrix();}
  r.translation() = T.translation() + s.t;
  return r;
}
double distance(const Isometry3d & a, const Isometry3d & b)
{
  return (a.linear() - b.linear()).norm() + (a.translation() - b.translation()).norm();
}
struct Setup {Points x; Isometry3d truth, start; int max_iter; bool exact;};
Setup setup(pbt::Case & c, bool near)
{
  Setup s;
  const int n = static_cast<int>(near ? c.chance(1, 50) ? c.range(31, 400) : c.range(6, 30) : c.size(0, 25, 400, 50));
  s.truth = gen::iso(c, 20.);
  if (c.chance(1, 3)) {  // where the quaternion of a rotation matrix changes its sign
    s.truth.linear() = Eigen::AngleAxisd(2. * M_PI / 3. + c.real(-0.05, 0.05), c.pick({Vector3d(0, 0, 1), Vector3d(0, 0, -1), gen::unit3(c)}).normalized()).toRotationMatrix();
  }
  MatrixXd A(n, 3), B(n, 3);
  const double noise = near ? 0. : c.pick({0., 0., 1e-3, 0.1});
  const bool flat = !near && c.chance(1, 6);
  for (int i = 0; i < n; i++) {
    Vector3d p(c.real(-10, 10), c.real(-10, 10), c.real(-10, 10));
    if (flat) {p *= 1e-3;}
    A.row(i) = p.transpose();
    Vector3d y = s.truth * p + noise * Vector3d(c.normal(), c.normal(), c.normal());
    if (!near && c.chance(1, 8)) {y += Vector3d(c.real(-30, 30), c.real(-30, 30), c.real(-30, 30));}
    B.row(i) = y.transpose();
  }
  s.x = std::make_tuple(A, B);
  const double rot = near ? 0.15 : c.pick({0.05, 0.5, 3.}), tr = near ? 0.5 : c.pick({0.1, 2., 30.});
  Isometry3d d = Isometry3d::Identity();
  d.linear() = gen::quat(c, rot).toRotationMatrix();
  d.translation() = gen::vec3(c, tr);
  s.start = c.chance(1, 10) ? s.truth : s.truth * d;
  s.max_iter = near ? 20 : static_cast<int>(c.pick({20, 20, 5, 2, 1, 0}));
  s.exact = noise == 0.;
  return s;
}
}  // namespace

PROP(every_run_follows_the_stated_loop, 4000)
{
  const Setup s = setup(c, false);
  Recording rec;
  const OptimizationResult res = Optimizer<Recording, Points>(rec, s.max_iter).Run(s.x, s.start);
  const auto & calls = *rec.calls;
  const std::string state = "calls " + std::to_string(calls.size()) + " of " + std::to_string(s.max_iter) + " message '" + res.message + "'";
  CHECK(static_cast<int>(calls.size()) <= s.max_iter, << state);
  CHECK(rigid(res.pose), << "not rigid: " << gen::str(res.pose.matrix()) << " " << state);
  CHECK(res.iteration >= 0 && res.iteration <= s.max_iter, << "iteration " << res.iteration << " " << state);
  if (s.max_iter == 0) {
    CHECK(!res.success && distance(res.pose, s.start) < 1e-9, << "no iteration allowed");
    return;
  }
  CHECK(!calls.empty() && distance(calls[0].pose, s.start) < 1e-9, << "first evaluation is not at the initial pose");
  if (std::get<0>(s.x).rows() == 0) {
    CHECK(!res.success, << state);
    CHECK(calls.size() == 1 && distance(res.pose, s.start) < 1e-9, << "empty problem: " << state);
    CHECK(res.error == 0. && res.error_scale == 0., << "error of an empty problem " << res.error);
    c.label("empty");
    return;
  }
  // every evaluation but the first is one Gauss-Newton step after the previous one
  std::vector<double> err, sc;
  for (const auto & k : calls) {err.push_back(sum(errors(k))); sc.push_back(scale_of(errors(k)));}
  for (std::size_t i = 0; i + 1 < calls.size(); i++) {
    const Step st = reference_step(calls[i]);
    CHECK(rigid(calls[i + 1].pose), << "evaluation " << i + 1 << " at a pose that is not rigid");
    if (st.ambiguous || st.cond > 1e8) {continue;}
    const Isometry3d want = apply(calls[i].pose, st);
    CHECK(distance(calls[i + 1].pose, want) < step_tolerance(st) * (1. + st.t.norm() + want.translation().norm()),
      << "step " << i << " differs from the reference by " << distance(calls[i + 1].pose, want) << " " << state);
    // it went on: no stop rule applied
    CHECK(st.theta.norm() > 1.9e-3 || st.t.norm() > 0.99e-3, << "no stop after a step of " << st.theta.norm() << " rad, " << st.t.norm() << " m");
    if (i > 0) {
      CHECK(err[i] <= err[i - 1] * (1 + 1e-9) + 1e-20, << "continued after the error rose from " << err[i - 1] << " to " << err[i]);
      CHECK(sc[i] <= sc[i - 1] * (1 + 1e-9) + 1e-20, << "continued after the scale rose from " << sc[i - 1] << " to " << sc[i]);
    }
  }
  const std::size_t n = calls.size() - 1;
  const double tol_e = 1e-9 * err[n] + 1e-20;
  CHECK_NEAR(res.error, err[n], tol_e, 0., << "reported error, " << state);
  CHECK_NEAR(res.error_scale, sc[n], 1e-9 * err[n] + 1e-20, 0., << "reported scale, " << state);
  const bool unmoved = distance(res.pose, calls[n].pose) < 1e-12;
  const bool rose = n > 0 && (err[n] > err[n - 1] || sc[n] > sc[n - 1]);
  const bool clearly_rose = n > 0 && (err[n] > err[n - 1] * (1 + 1e-9) + 1e-20 || sc[n] > sc[n - 1] * (1 + 1e-9) + 1e-20);
  const Step st = reference_step(calls[n]);
  const bool small = 2. * std::sin(st.theta.norm() / 2.) < 2e-3 && st.t.norm() < 1e-3;
  const bool clear_small = st.theta.norm() < 1.99e-3 && st.t.norm() < 0.999e-3;
  if (clearly_rose) {
    CHECK(unmoved && res.success, << "stopped by a larger error or scale: " << state);
    c.label("stopped by rising error or scale");
  } else if (!(rose && unmoved) && !st.ambiguous && st.cond < 1e8) {
    const Isometry3d want = apply(calls[n].pose, st);
    CHECK(distance(res.pose, want) < step_tolerance(st) * (1. + st.t.norm() + want.translation().norm()),
      << "final pose is off the reference step by " << distance(res.pose, want) << " condition " << st.cond << " " << state);
    if (clear_small) {CHECK(res.success, << "converged but reported as failed: " << state);}
    if (!small && st.theta.norm() > 2.01e-3) {CHECK(!res.success && static_cast<int>(calls.size()) == s.max_iter, << "reported as converged after a large step: " << state);}
    c.label("converged", res.success);
    c.label("iteration limit", !res.success);
    c.label("degenerate", st.degenerate);
  }
  c.note() << std::get<0>(s.x).rows() << " points, " << state << ", errors " << pbt::show(err);
  c.nontrivial(calls.size() > 1);
  c.label("exact correspondences", s.exact);
}

PROP(recovers_the_transform_of_exact_correspondences, 2500)
{
  const Setup s = setup(c, true);
  const MatrixXd & A = std::get<0>(s.x);
  const MatrixXd D = A.rowwise() - A.colwise().mean();
  if (Eigen::SelfAdjointEigenSolver<MatrixXd>(D.transpose() * D / A.rows()).eigenvalues()(0) < 2.) {throw pbt::Discard{};}
  const OptimizationResult res = Optimizer<AlignmentProblem, Points>(AlignmentProblem()).Run(s.x, s.start);
  CHECK(res.success, << "message " << res.message);
  CHECK(rigid(res.pose));
  CHECK(distance(res.pose, s.truth) < 2e-2, << "off by " << distance(res.pose, s.truth) << " after " << res.iteration << " iterations, '" << res.message << "'");
  c.nontrivial(distance(s.start, s.truth) > 1e-2);
  c.label("stopped early", distance(res.pose, s.truth) > 1e-4);
}

PROP(the_exact_solution_is_a_fixed_point, 2500)
{
  Setup s = setup(c, true);
  MatrixXd & B = std::get<1>(s.x);
  const MatrixXd & A = std::get<0>(s.x);
  for (int i = 0; i < A.rows(); i++) {B.row(i) = (s.truth * Vector3d(A.row(i).transpose())).transpose();}
  const OptimizationResult res = Optimizer<AlignmentProblem, Points>(AlignmentProblem()).Run(s.x, s.truth);
  CHECK(res.success, << res.message);
  CHECK(distance(res.pose, s.truth) < 1e-9, << "moved by " << distance(res.pose, s.truth));
  CHECK(res.error < 1e-20, << "error " << res.error);
  c.nontrivial();
}

PROP(convergence_rule, 100000)
{
  const double a = c.pick({0., 0.5e-3, 1.9e-3, 2.1e-3, 0.1, -1.9e-3}), t = c.pick({0., 0.9e-3, 1.1e-3, 1.});
  const Eigen::Quaterniond q(Eigen::AngleAxisd(a, gen::unit3(c)));
  const Vector3d dt = t * gen::unit3(c);
  CHECK(CheckConvergence(q, dt) == (std::fabs(std::sin(a / 2.)) < 1e-3 && dt.norm() < 1e-3), << "angle " << a << " translation " << t);
  c.nontrivial();
}
