// K02: TimeDelayKalmanFilter against a Kalman filter on the explicitly stacked state.
#include "gen.hpp"
#include <cassert>
#include <stdexcept>
#include <tuple>
#include "kalman_filter/time_delay_kalman_filter.hpp"

using Eigen::MatrixXd; using Eigen::VectorXd;

namespace
{
struct Ref
{
  int n, m;
  VectorXd X; MatrixXd P;
  Ref(const VectorXd & x0, const MatrixXd & P0, int m_) : n(x0.size()), m(m_), X(n * m_), P(MatrixXd::Zero(n * m_, n * m_))
  {
    for (int i = 0; i < m; i++) {X.segment(i * n, n) = x0; P.block(i * n, i * n, n, n) = P0;}
  }
  void predict(const VectorXd & x_next, const MatrixXd & A, const MatrixXd & Q)
  {
    MatrixXd F = MatrixXd::Zero(n * m, n * m), G = F;
    F.block(0, 0, n, n) = A;
    for (int i = 1; i < m; i++) {F.block(i * n, (i - 1) * n, n, n).setIdentity();}
    G.block(0, 0, n, n) = Q;
    VectorXd Y = F * X;
    Y.head(n) = x_next;
    X = Y;
    P = (F * P * F.transpose() + G).eval();
  }
  void update(const VectorXd & y, const MatrixXd & C, const MatrixXd & R, int d)
  {
    MatrixXd D = MatrixXd::Zero(C.rows(), n * m);
    for (int i = 0; i < C.rows(); i++) {for (int j = 0; j < n; j++) {D(i, d * n + j) = C(i, j);}}
    const MatrixXd S = D * P * D.transpose() + R;
    const MatrixXd K = S.transpose().ldlt().solve(D * P.transpose()).transpose();
    const MatrixXd I = MatrixXd::Identity(n * m, n * m) - K * D;
    X = (X + K * (y - D * X)).eval();
    P = (I * P * I.transpose() + K * R * K.transpose()).eval();
  }
};

void compare(const TimeDelayKalmanFilter & kf, const Ref & r, const char * what)
{
  const double sx = 1e-7 * (1 + r.X.cwiseAbs().maxCoeff()), sp = 1e-7 * (1 + r.P.cwiseAbs().maxCoeff());
  CHECK_MAT(kf.getLatestX(), r.X.head(r.n), sx, 0, << what);
  CHECK_MAT(kf.getLatestP(), r.P.block(0, 0, r.n, r.n), sp, 0, << what);
  for (int d = 0; d < r.m; d++) {CHECK_MAT(kf.getX(d), r.X.segment(d * r.n, r.n), sx, 0, << what << " delay " << d);}
}
}  // namespace

PROP(history_matches_stacked_filter, 24000)
{
  const int n = c.range(1, 4), m = c.chance(1, 3) ? c.range(1, 12) : c.range(1, 5);
  const VectorXd x0 = gen::vec(c, n, 10.);
  const MatrixXd P0 = gen::spd(c, n, 1., 1e-2);
  TimeDelayKalmanFilter kf(x0, P0, m);
  Ref r(x0, P0, m);
  compare(kf, r, "initial");
  const int steps = c.size(1, 25, 150, 100);
  bool delayed_after_predict = false, late_after_many = false;
  int predicts = 0, updates = 0;
  c.note() << "n=" << n << " stack=" << m << " ops:";
  for (int k = 0; k < steps; k++) {
    if (c.coin()) {
      const MatrixXd A = gen::matrix(c, n, n, 1.2) / std::sqrt(n) + 0.3 * MatrixXd::Identity(n, n);
      const MatrixXd Q = gen::spd(c, n, 0.5, 1e-3);
      // the predicted state may come from a nonlinear model
      const VectorXd x_next = c.coin() ? VectorXd(A * r.X.head(n)) : gen::vec(c, n, 10.);
      kf.predict(x_next, A, Q);
      r.predict(x_next, A, Q);
      predicts++;
      c.note() << " predict";
      compare(kf, r, "predict");
    } else {
      const int q = c.range(1, 3);
      const int d = c.below(m);
      const MatrixXd C = gen::matrix(c, q, n, 2.), R = gen::spd(c, q, 0.7, 0.05);
      const VectorXd y = gen::vec(c, q, 10.);
      const MatrixXd P_before = kf.getLatestP();
      CHECK_NO_THROW(kf.update(y, C, R, d));
      r.update(y, C, R, d);
      updates++;
      c.note() << " update(d=" << d << ")";
      compare(kf, r, "update");
      CHECK(gen::min_eig(P_before - kf.getLatestP()) > -1e-7 * (1 + P_before.norm()), << "update increased the covariance");
      delayed_after_predict = delayed_after_predict || (d > 0 && predicts > 0);
      late_after_many = late_after_many || (d > 0 && predicts > 1 && updates > 1);
    }
  }
  c.nontrivial(delayed_after_predict);
  c.label("delayed update after several predictions and an update", late_after_many);
  c.label("stack of one", m == 1);
}

PROP(rejected_updates_change_nothing, 12000)
{
  const int n = c.range(1, 4), m = c.range(1, 6);
  const VectorXd x0 = gen::vec(c, n, 10.);
  const MatrixXd P0 = gen::spd(c, n, 1., 1e-2);
  TimeDelayKalmanFilter kf(x0, P0, m);
  Ref r(x0, P0, m);
  const int steps = c.size(0, 8, 100, 100);
  bool rejected = false;
  for (int k = 0; k <= steps; k++) {
    const int q = c.range(1, 3);
    const MatrixXd C = gen::matrix(c, q, n, 2.), R = gen::spd(c, q, 0.7, 0.05);
    const VectorXd y = gen::vec(c, q, 10.);
    const int op = c.below(5);
    c.note() << op << " ";
    if (op == 0) {
      const MatrixXd A = gen::matrix(c, n, n, 1.), Q = gen::spd(c, n, 0.5, 1e-3);
      kf.predict(A * x0, A, Q); r.predict(A * x0, A, Q);
    } else if (op == 1) {
      const int d = c.below(m);
      kf.update(y, C, R, d); r.update(y, C, R, d);
    } else if (op == 2) {
      const int d = c.coin() ? m : m + static_cast<int>(c.below(1000000));
      CHECK_THROWS(kf.update(y, C, R, d), << "delay " << d << " stack " << m);
      rejected = true;
    } else if (op == 3) {
      CHECK_THROWS(kf.update(y, MatrixXd::Zero(q, n), MatrixXd::Zero(q, q), c.below(m)));
      rejected = true;
    } else {
      MatrixXd R2 = R;
      R2(c.below(q), c.below(q)) = c.pick({std::nan(""), std::numeric_limits<double>::quiet_NaN()});
      CHECK_THROWS(kf.update(y, C, R2, c.below(m)));
      rejected = true;
    }
    compare(kf, r, "after op");
  }
  c.nontrivial(rejected && steps > 0);
}

// Delay zero on a stack of one is an ordinary Kalman update of the current state.
PROP(delay_zero_is_an_ordinary_update, 20000)
{
  const int n = c.range(1, 5), m = c.range(1, 8), q = c.range(1, 3);
  const VectorXd x0 = gen::vec(c, n, 10.);
  const MatrixXd P0 = gen::spd(c, n, 1., 1e-2);
  TimeDelayKalmanFilter big(x0, P0, m), small(x0, P0, 1);
  const int steps = c.size(1, 10, 100, 100);
  for (int k = 0; k < steps; k++) {
    if (c.coin()) {
      const MatrixXd A = gen::matrix(c, n, n, 1.2) / std::sqrt(n), Q = gen::spd(c, n, 0.5, 1e-3);
      const VectorXd x = gen::vec(c, n, 10.);
      big.predict(x, A, Q); small.predict(x, A, Q);
    } else {
      const MatrixXd C = gen::matrix(c, q, n, 2.), R = gen::spd(c, q, 0.7, 0.05);
      const VectorXd y = gen::vec(c, q, 10.);
      big.update(y, C, R, 0); small.update(y, C, R, 0);
    }
    CHECK_MAT(big.getLatestX(), small.getLatestX(), 1e-7, 1e-7);
    CHECK_MAT(big.getLatestP(), small.getLatestP(), 1e-7, 1e-7);
  }
  c.note() << "n=" << n << " stack=" << m << " steps=" << steps;
  c.nontrivial(m > 1 && steps > 1);
}

// Updates at the same delay commute.
PROP(updates_commute, 12000)
{
  const int n = c.range(1, 4), m = c.range(2, 6);
  const VectorXd x0 = gen::vec(c, n, 5.);
  const MatrixXd P0 = gen::spd(c, n, 1., 1e-2);
  TimeDelayKalmanFilter a(x0, P0, m), b(x0, P0, m);
  const int k = c.range(1, 6);
  for (int i = 0; i < k; i++) {
    const MatrixXd A = gen::matrix(c, n, n, 1.2) / std::sqrt(n), Q = gen::spd(c, n, 0.5, 1e-3);
    const VectorXd x = gen::vec(c, n, 5.);
    a.predict(x, A, Q); b.predict(x, A, Q);
  }
  const int d1 = c.below(m), d2 = c.below(m);
  const MatrixXd C1 = gen::matrix(c, 2, n, 2.), R1 = gen::spd(c, 2, 0.7, 0.05);
  const MatrixXd C2 = gen::matrix(c, 1, n, 2.), R2 = gen::spd(c, 1, 0.7, 0.05);
  const VectorXd y1 = gen::vec(c, 2, 5.), y2 = gen::vec(c, 1, 5.);
  a.update(y1, C1, R1, d1); a.update(y2, C2, R2, d2);
  b.update(y2, C2, R2, d2); b.update(y1, C1, R1, d1);
  const double s = 1e-6 * (1 + a.getLatestX().norm() + a.getLatestP().norm());
  CHECK_MAT(a.getLatestP(), b.getLatestP(), s, 0);
  for (int d = 0; d < m; d++) {CHECK_MAT(a.getX(d), b.getX(d), s * 10, 0);}
  c.note() << "n=" << n << " d1=" << d1 << " d2=" << d2;
  c.nontrivial(d1 != d2);
}

// Covariances measured in another unit: all of them times the same factor leave the states as they are.
PROP(states_do_not_depend_on_the_unit_of_the_covariances, 10000)
{
  const int n = c.range(1, 4), m = c.range(1, 6);
  const double unit = std::ldexp(1., 2 * c.range(-25, 25));
  const VectorXd x0 = gen::vec(c, n, 10.);
  const MatrixXd P0 = gen::spd(c, n, 1., 1e-2);
  TimeDelayKalmanFilter a(x0, P0, m), b(x0, P0 * unit, m);
  Ref r(x0, P0, m);
  const int steps = c.size(1, 15, 150, 100);
  int updates = 0;
  for (int k = 0; k < steps; k++) {
    if (c.coin()) {
      const MatrixXd A = gen::matrix(c, n, n, 1.2) / std::sqrt(n) + 0.3 * MatrixXd::Identity(n, n), Q = gen::spd(c, n, 0.5, 1e-3);
      const VectorXd x = A * r.X.head(n);
      a.predict(x, A, Q); b.predict(x, A, Q * unit); r.predict(x, A, Q);
    } else {
      const int q = c.range(1, 3), d = c.below(m);
      const MatrixXd C = gen::matrix(c, q, n, 2.), R = gen::spd(c, q, 0.7, 0.05);
      const VectorXd y = gen::vec(c, q, 10.);
      a.update(y, C, R, d); b.update(y, C, R * unit, d); r.update(y, C, R, d); updates++;
    }
    const double sx = 1e-7 * (1 + r.X.cwiseAbs().maxCoeff()), sp = 1e-7 * (1 + r.P.cwiseAbs().maxCoeff());
    for (int d = 0; d < m; d++) {
      CHECK_MAT(a.getX(d), r.X.segment(d * n, n), sx, 0, << "delay " << d);
      CHECK_MAT(b.getX(d), r.X.segment(d * n, n), sx, 0, << "in another unit, delay " << d);
    }
    CHECK_MAT(MatrixXd(b.getLatestP() / unit), r.P.topLeftCorner(n, n), sp, 0, << "covariance in another unit");
  }
  c.note() << "n=" << n << " stack " << m << " unit " << unit << " steps " << steps;
  c.nontrivial(updates > 0 && unit != 1.);
}
