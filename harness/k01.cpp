// K01: the linear Kalman filter against an independent recursion (Joseph form, solver-based gain).
#include "gen.hpp"
#include "kalman_filter/kalman_filter.hpp"
#include "kalman_filter/matrix_size.hpp"
#include <memory>

using Eigen::MatrixXd; using Eigen::VectorXd;

namespace
{
struct Ref
{
  VectorXd x; MatrixXd P;
  mutable double top = 1., spread = 0.;
  void predict(const MatrixXd & A, const MatrixXd & B, const MatrixXd & Q, const VectorXd & u)
  {
    x = (A * x + B * u).eval();
    P = (A * P * A.transpose() + Q).eval();
  }
  void update(const MatrixXd & C, const MatrixXd & R, const VectorXd & y)
  {
    const MatrixXd S = C * P * C.transpose() + R;
    const MatrixXd K = S.transpose().ldlt().solve(C * P.transpose()).transpose();
    const MatrixXd I = MatrixXd::Identity(P.rows(), P.cols()) - K * C;
    x = (x + K * (y - C * x)).eval();
    P = (I * P * I.transpose() + K * R * K.transpose()).eval();
  }
};

struct Model { int n, m, p; MatrixXd A, B, C, Q, R, P0; VectorXd x0; };

Model make_model(pbt::Case & c)
{
  Model M;
  M.n = c.range(1, 6); M.m = c.range(1, 4); M.p = c.range(1, 4);
  M.A = gen::matrix(c, M.n, M.n, 1.2) / std::sqrt(M.n) + 0.3 * MatrixXd::Identity(M.n, M.n);
  M.B = gen::matrix(c, M.n, M.p, 2.);
  M.C = gen::matrix(c, M.m, M.n, 2.);
  M.Q = gen::spd(c, M.n, 0.5, 1e-3);
  M.R = gen::spd(c, M.m, 0.7, 0.05);
  M.P0 = gen::spd(c, M.n, 1.5, 1e-2);
  M.x0 = gen::vec(c, M.n, 10.);
  return M;
}

void compare(const KalmanFilter & kf, const Ref & r, int n, const char * what)
{
  // rounding: relative to the largest state and to the largest covariance (over the smallest measurement noise) of the history
  r.top = std::max(r.top, 1 + r.x.cwiseAbs().maxCoeff()); r.spread = std::max(r.spread, r.P.norm());
  const double tol = (1e-8 + 1e-12 * r.spread) * r.top;
  for (int i = 0; i < n; i++) {CHECK_NEAR(kf.getXelement(i), r.x(i), tol, 0, << what << " i=" << i);}
}
}  // namespace

PROP(history_matches_kalman_recursion, 60000)
{
  const Model M = make_model(c);
  KalmanFilter kf(M.x0, M.A, M.B, M.C, M.Q, M.R, M.P0);
  Ref r{M.x0, M.P0};
  compare(kf, r, M.n, "initial");
  const int steps = c.size(1, 25, 300);
  int updates = 0, predicts = 0, inits = 0;
  c.note() << "n=" << M.n << " m=" << M.m << " A=" << gen::str(M.A) << " C=" << gen::str(M.C) << " ops:";
  for (int k = 0; k < steps; k++) {
    switch (c.below(8)) {
      case 0: case 1: case 2: {
          const VectorXd u = gen::vec(c, M.p, 3.);
          kf.predict(u); r.predict(M.A, M.B, M.Q, u); predicts++;
          c.note() << " predict" << gen::str(u.transpose());
          compare(kf, r, M.n, "predict"); break;
        }
      case 3: {
          const MatrixXd A = gen::matrix(c, M.n, M.n, 1.) / std::sqrt(M.n), Q = gen::spd(c, M.n, 0.5, 1e-3);
          const int p = c.range(1, 4);
          const MatrixXd B = gen::matrix(c, M.n, p, 2.);
          const VectorXd u = gen::vec(c, p, 3.);
          kf.predict(u, A, B, Q); r.predict(A, B, Q, u); predicts++;
          c.note() << " predict(A,B,Q)";
          compare(kf, r, M.n, "predict(A,B,Q)"); break;
        }
      case 4: {
          const VectorXd x = gen::vec(c, M.n, 10.); const MatrixXd P = gen::spd(c, M.n, 1., 1e-2);
          kf.init(x, P); r.x = x; r.P = P; inits++;
          c.note() << " init";
          compare(kf, r, M.n, "init"); break;
        }
      default: {
          VectorXd y = gen::vec(c, M.m, 20.);
          const bool innovation_free = c.chance(1, 6);
          if (innovation_free) {y = M.C * r.x;}
          const VectorXd before = r.x;
          kf.update(y); r.update(M.C, M.R, y); updates++;
          c.note() << " update" << gen::str(y.transpose());
          compare(kf, r, M.n, "update");
          if (innovation_free) {
            for (int i = 0; i < M.n; i++) {
              CHECK_NEAR(kf.getXelement(i), before(i), 1e-6 * (1 + before.cwiseAbs().maxCoeff()), 0, << "zero innovation");
            }
          }
        }
    }
  }
  c.nontrivial(updates > 0 && predicts > 0);
  c.label("init in history", inits > 0);
  c.label("several updates", updates > 1);
}

// The covariance is only visible through the gains, so probe it: two filters with the same
// history, then measurements from every direction must move the states as the reference says.
PROP(covariance_probed_by_unit_measurements, 40000)
{
  Model M = make_model(c);
  M.m = M.n;
  M.C = MatrixXd::Identity(M.n, M.n);
  M.R = gen::spd(c, M.n, 0.3, 0.05);
  Ref r{M.x0, M.P0};
  KalmanFilter kf(M.x0, M.A, M.B, M.C, M.Q, M.R, M.P0);
  const int steps = c.size(1, 15, 150, 100);
  for (int k = 0; k < steps; k++) {
    if (c.coin()) {
      const VectorXd u = gen::vec(c, M.p, 3.);
      kf.predict(u); r.predict(M.A, M.B, M.Q, u);
    } else {
      const MatrixXd before = r.P;
      const VectorXd y = gen::vec(c, M.n, 10.);
      kf.update(y); r.update(M.C, M.R, y);
      CHECK(gen::min_eig(before - r.P) > -1e-9 * (1 + before.norm()), << "reference sanity");
    }
    compare(kf, r, M.n, "step");
  }
  for (int i = 0; i < M.n; i++) {
    VectorXd y = r.x; y(i) += 1.;
    kf.update(y); r.update(M.C, M.R, y);
    compare(kf, r, M.n, "probe");
  }
  c.note() << "n=" << M.n << " steps=" << steps;
  c.nontrivial(M.n > 1);
}

// The building blocks of the recursion that the header offers.
PROP(free_functions_are_the_equations, 60000)
{
  const Model M = make_model(c);
  const VectorXd u = gen::vec(c, M.p, 3.), y = gen::vec(c, M.m, 5.);
  const double s = 10 * (1 + M.P0.norm()) * (1 + M.A.norm() * M.A.norm());
  const VectorXd x1 = predictNextState(M.x0, u, M.A, M.B);
  for (int i = 0; i < M.n; i++) {
    double v = 0;
    for (int j = 0; j < M.n; j++) {v += M.A(i, j) * M.x0(j);}
    for (int j = 0; j < M.p; j++) {v += M.B(i, j) * u(j);}
    CHECK_NEAR(x1(i), v, 1e-10, 1e-10);
  }
  const MatrixXd P1 = predictNextCovariance(M.P0, M.A, M.Q);
  CHECK_MAT(P1, P1.transpose(), 1e-10 * s, 0);
  CHECK_MAT(P1 - M.Q, M.A * M.P0 * M.A.transpose(), 1e-10 * s, 0);
  CHECK(gen::min_eig(P1) > -1e-9 * s);
  const MatrixXd K = calcKalmanGain(P1, M.C, M.R);
  // K (C P C' + R) = P C'
  CHECK_MAT(K * (M.C * P1 * M.C.transpose() + M.R), P1 * M.C.transpose(), 1e-7 * s, 1e-7);
  const VectorXd x2 = updateState(x1, y, M.C, K);
  CHECK_MAT(x2 - x1, K * (y - M.C * x1), 1e-9 * s, 1e-9);
  const MatrixXd P2 = updateCovariance(P1, M.C, K);
  const MatrixXd I = MatrixXd::Identity(M.n, M.n) - K * M.C;
  CHECK_MAT(P2, I * P1 * I.transpose() + K * M.R * K.transpose(), 1e-7 * s, 1e-7);
  CHECK(gen::min_eig(P1 - P2) > -1e-7 * s, << "update increased the covariance");
  CHECK(gen::min_eig(P2) > -1e-7 * s, << "covariance not positive semi-definite");
  CHECK(!hasZeroElements(P2) && hasZeroElements(MatrixXd(0, M.n)) && hasZeroElements(MatrixXd(M.n, 0)));
  c.note() << "n=" << M.n << " m=" << M.m << " P0=" << gen::str(M.P0);
  c.nontrivial(M.n > 1);
}

PROP(objects_are_independent_and_destructible, 8000)
{
  const Model M = make_model(c), N = make_model(c);
  auto a = std::make_unique<KalmanFilter>(M.x0, M.A, M.B, M.C, M.Q, M.R, M.P0);
  Ref r{M.x0, M.P0};
  {
    KalmanFilter b(N.x0, N.A, N.B, N.C, N.Q, N.R, N.P0);
    b.predict(VectorXd::Ones(N.p));
    b.update(VectorXd::Ones(N.m));
  }
  a->predict(VectorXd::Ones(M.p)); r.predict(M.A, M.B, M.Q, VectorXd::Ones(M.p));
  KalmanFilter copy(*a);
  a->update(VectorXd::Ones(M.m));
  a.reset();
  compare(copy, r, M.n, "copy");
  copy.update(VectorXd::Ones(M.m)); r.update(M.C, M.R, VectorXd::Ones(M.m));
  compare(copy, r, M.n, "copy after update");
  c.note() << "n=" << M.n << " and n=" << N.n;
  c.nontrivial();
}

// A gain that is not finite must be refused and leave the state as it was.
PROP(non_finite_gain_is_rejected, 8000)
{
  Model M = make_model(c);
  MatrixXd C = M.C, R = M.R;
  const int kind = c.below(3);
  if (kind == 0) {C.setZero(); R.setZero();}
  if (kind == 1) {R(c.below(M.m), c.below(M.m)) = std::numeric_limits<double>::quiet_NaN();}
  if (kind == 2) {C(c.below(M.m), c.below(M.n)) = std::numeric_limits<double>::quiet_NaN();}
  KalmanFilter kf(M.x0, M.A, M.B, C, M.Q, R, M.P0);
  CHECK_THROWS(kf.update(VectorXd::Ones(M.m)));
  for (int i = 0; i < M.n; i++) {CHECK_EQ(kf.getXelement(i), M.x0(i));}
  c.note() << "kind=" << kind;
  c.nontrivial();
}

// Covariances measured in another unit: all of them times the same factor leave gains and states as they are.
PROP(states_do_not_depend_on_the_unit_of_the_covariances, 20000)
{
  const Model M = make_model(c);
  const double unit = std::ldexp(1., 2 * c.range(-25, 25));
  KalmanFilter a(M.x0, M.A, M.B, M.C, M.Q, M.R, M.P0), b(M.x0, M.A, M.B, M.C, M.Q * unit, M.R * unit, M.P0 * unit);
  Ref r{M.x0, M.P0};
  const int steps = c.size(1, 15, 150, 100);
  int updates = 0;
  for (int k = 0; k < steps; k++) {
    if (c.coin()) {
      const VectorXd u = gen::vec(c, M.p, 3.);
      a.predict(u); b.predict(u); r.predict(M.A, M.B, M.Q, u);
    } else {
      const VectorXd y = gen::vec(c, M.m, 20.);
      a.update(y); b.update(y); r.update(M.C, M.R, y); updates++;
    }
    compare(a, r, M.n, "step");
    compare(b, r, M.n, "step in another unit");
  }
  c.note() << "n=" << M.n << " m=" << M.m << " unit " << unit << " steps " << steps;
  c.nontrivial(updates > 0 && unit != 1.);
}
