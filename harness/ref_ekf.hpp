// Reference model of the EKF's filter and measurement fusion, on the explicitly stacked state.
#pragma once
#include "gen.hpp"
#include <deque>
#include <string>

namespace ref
{
using Eigen::MatrixXd;
using Eigen::VectorXd;

inline double wrapped(double a) {return std::remainder(a, 2. * M_PI);}

struct Filter
{
  int n = 6, m = 0;
  VectorXd X; MatrixXd P;
  double spread = 0.;   // the largest element the covariance has had, for rounding errors
  Filter() = default;
  Filter(const VectorXd & x0, const MatrixXd & P0, int m_) : n(static_cast<int>(x0.size())), m(m_), X(n * m), P(MatrixXd::Zero(n * m, n * m))
  {
    for (int i = 0; i < m; i++) {X.segment(i * n, n) = x0; P.block(i * n, i * n, n, n) = P0;}
  }
  VectorXd x(int d = 0) const {return X.segment(d * n, n);}
  MatrixXd p() const {return P.topLeftCorner(n, n);}
  void predict(const VectorXd & x_next, const MatrixXd & A, const MatrixXd & Q)
  {
    const int k = n * (m - 1);
    MatrixXd N(n * m, n * m);
    N.topLeftCorner(n, n) = A * p() * A.transpose() + Q;
    if (k > 0) {
      N.topRightCorner(n, k) = A * P.topLeftCorner(n, k);
      N.bottomLeftCorner(k, n) = P.topLeftCorner(k, n) * A.transpose();
      N.bottomRightCorner(k, k) = P.topLeftCorner(k, k);
      const VectorXd tail = X.head(k);
      X.tail(k) = tail;
    }
    X.head(n) = x_next;
    P = N;
    spread = std::max(spread, P.cwiseAbs().maxCoeff());
  }
  // measured state entries, innovation
  bool update(const std::vector<int> & idx, const VectorXd & innovation, const MatrixXd & R, int d)
  {
    const int q = static_cast<int>(idx.size());
    MatrixXd PD(n * m, q), S(q, q);
    for (int j = 0; j < q; j++) {PD.col(j) = P.col(d * n + idx[j]);}
    for (int i = 0; i < q; i++) {S.row(i) = PD.row(d * n + idx[i]);}
    S += R;
    const MatrixXd K = S.transpose().colPivHouseholderQr().solve(PD.transpose()).transpose();
    if (!K.allFinite()) {return false;}
    X += K * innovation;
    MatrixXd DP(q, n * m);
    for (int i = 0; i < q; i++) {DP.row(i) = P.row(d * n + idx[i]);}
    P = (P - K * DP).eval();
    return true;
  }
};

inline VectorXd unicycle(const VectorXd & x, double dt)
{
  VectorXd y = x;
  y(0) += x(4) * std::cos(x(2) + x(3)) * dt;
  y(1) += x(4) * std::sin(x(2) + x(3)) * dt;
  y(2) = wrapped(x(2) + x(5) * dt);
  return y;
}
inline MatrixXd unicycle_jacobian(const VectorXd & x, double dt)
{
  MatrixXd A = MatrixXd::Identity(6, 6);
  const double s = std::sin(x(2) + x(3)), k = std::cos(x(2) + x(3));
  A(0, 2) = A(0, 3) = -x(4) * s * dt;
  A(1, 2) = A(1, 3) = x(4) * k * dt;
  A(0, 4) = k * dt; A(1, 4) = s * dt; A(2, 5) = dt;
  return A;
}

struct Message {VectorXd y; MatrixXd R; std::int64_t stamp; int returned;};
// pending measurements of one kind; the rules by which they reach the filter
struct Fusion
{
  std::vector<int> idx;     // measured entries of the state
  bool angle;               // the last one is an angle
  int steps, allotted;      // smoothing
  double gate;
  std::deque<Message> pending;
  int fused = 0, skipped = 0, delayed = 0, wrapped_innovations = 0;
  // false: a decision is too close to call
  bool tick(Filter & f, std::int64_t now, double dt)
  {
    const std::size_t n = pending.size();
    for (std::size_t i = 0; i < n; i++) {
      Message msg = pending.front();
      pending.pop_front();
      if (++msg.returned < allotted) {pending.push_back(msg);}
      const double delay = static_cast<double>(now - msg.stamp) * 1e-9;
      double step = 0.;
      if (delay > 0.) {
        if (dt == 0.) {skipped++; continue;}
        const double s = delay / dt;
        if (std::fabs(s - std::floor(s) - 0.5) < 1e-3) {return false;}
        step = std::floor(s + 0.5);
      }
      if (step >= f.m || !msg.y.allFinite()) {skipped++; continue;}
      const int d = static_cast<int>(step), q = static_cast<int>(idx.size());
      VectorXd e(q);
      MatrixXd Py(q, q);
      for (int a = 0; a < q; a++) {
        e(a) = msg.y(a) - f.x(d)(idx[a]);
        for (int b = 0; b < q; b++) {Py(a, b) = f.P(idx[a], idx[b]);}
      }
      if (angle) {
        const double w = wrapped(e(q - 1));
        if (std::fabs(w) > M_PI - 1e-6) {return false;}
        wrapped_innovations += std::fabs(w - e(q - 1)) > 1.;
        e(q - 1) = w;
      }
      const Eigen::SelfAdjointEigenSolver<MatrixXd> eig(0.5 * (Py + Py.transpose()));
      if (eig.eigenvalues()(0) <= 1e-9 * eig.eigenvalues()(q - 1)) {return false;}
      const double d2 = e.dot(eig.eigenvectors() * (eig.eigenvectors().transpose() * e).cwiseQuotient(eig.eigenvalues()));
      if (std::fabs(d2 - gate * gate) < 1e-5 * gate * gate) {return false;}
      if (d2 > gate * gate) {skipped++; continue;}
      if (!msg.R.allFinite() || !f.update(idx, e, msg.R * static_cast<double>(steps), d)) {skipped++; continue;}
      fused++;
      delayed += d > 0;
    }
    return true;
  }
};
}  // namespace ref
