// F01: motion model, its Jacobian and its noise.
#include "gen.hpp"
#include "ekf_localizer/state_index.hpp"
#include "ekf_localizer/state_transition.hpp"
#if __has_include("ekf_localizer/normalize_yaw.hpp")
// the header holds a second definition, which callers may inline
#define normalizeYaw inlinedNormalizeYaw
#include "ekf_localizer/normalize_yaw.hpp"
#undef normalizeYaw
#else
inline double inlinedNormalizeYaw(const double a) {return normalizeYaw(a);}
#endif

namespace
{
using gen::MatrixXd;
double wrapped(double a) {return std::remainder(a, 2. * M_PI);}
double any_angle(pbt::Case & c)
{
  switch (c.below(5)) {
    case 0: return c.pick({0., M_PI, -M_PI, M_PI / 2, -M_PI / 2, 2 * M_PI, 3 * M_PI, -3 * M_PI});
    case 1: return c.real(-M_PI, M_PI);
    case 2: return c.real(-100., 100.);
    case 3: return c.num(1e6);
    default: return c.pick({M_PI, -M_PI}) + std::ldexp(c.real(-1., 1.), -static_cast<int>(c.below(50)));
  }
}
Vector6d state(pbt::Case & c)
{
  Vector6d x;
  x << c.num(1e4), c.num(1e4), any_angle(c), c.coin() ? c.real(-0.5, 0.5) : any_angle(c), c.num(50.), c.num(5.);
  return x;
}
double step(pbt::Case & c) {return c.pick({0., 0.02, 0.1, 1., 10., c.real(0., 10.)});}
}  // namespace

PROP(normalised_angle_is_equivalent, 60000)
{
  const double a = any_angle(c), n = normalizeYaw(a);
  CHECK(std::fabs(n) <= M_PI + 1e-14 * (1. + std::fabs(a)), << "normalised " << pbt::show(a) << " to " << pbt::show(n));
  const double tol = 1e-15 * (8. + std::fabs(a));
  CHECK(std::fabs(wrapped(n - a)) <= tol + 1e-12, << pbt::show(n) << " is not equivalent to " << pbt::show(a));
  CHECK(std::fabs(wrapped(normalizeYaw(n) - n)) <= 1e-12, << "normalising twice: " << pbt::show(a));
  CHECK(std::fabs(wrapped(inlinedNormalizeYaw(a) - n)) <= 2 * tol + 1e-12, << "the two definitions disagree for " << pbt::show(a));
  if (std::fabs(a) < M_PI - 1e-9) {CHECK_NEAR(n, a, 1e-14, 0., << "an angle in range was changed");}
  c.nontrivial(std::fabs(a) > M_PI);
}

PROP(prediction_is_unicycle_motion, 60000)
{
  const Vector6d x = state(c);
  const double dt = step(c);
  const Vector6d y = predictNextState(x, dt);
  // in complex numbers: position + v dt exp(i (yaw + bias))
  const long double psi = static_cast<long double>(x(2)) + x(3), d = static_cast<long double>(x(4)) * dt;
  const double tol = 1e-12 * (1. + std::fabs(x(0)) + std::fabs(x(1)) + std::fabs(static_cast<double>(d)) * (1. + std::fabs(x(2)) + std::fabs(x(3))));
  CHECK_NEAR(y(0), static_cast<double>(x(0) + d * std::cos(psi)), tol, 0., << "x after " << dt << " s from " << gen::str(x.transpose()));
  CHECK_NEAR(y(1), static_cast<double>(x(1) + d * std::sin(psi)), tol, 0., << "y after " << dt << " s from " << gen::str(x.transpose()));
  CHECK(std::fabs(y(2)) <= M_PI + 1e-14 * (1. + std::fabs(x(2)) + std::fabs(x(5) * dt)), << "yaw " << pbt::show(y(2)));
  CHECK(std::fabs(wrapped(y(2) - (x(2) + x(5) * dt))) < 1e-12 * (1. + std::fabs(x(2)) + std::fabs(x(5) * dt)) + 1e-12, << "yaw after " << dt << " s: " << y(2));
  CHECK_EQ(y(3), x(3), << "yaw bias");
  CHECK_EQ(y(4), x(4), << "velocity");
  CHECK_EQ(y(5), x(5), << "yaw rate");
  CHECK(y.allFinite());
  c.nontrivial(dt > 0. && x(4) != 0.);
}

PROP(transition_matrix_is_the_derivative, 60000)
{
  Vector6d x = state(c);
  x(0) = c.num(50.); x(1) = c.num(50.); x(2) = wrapped(x(2)); x(3) = wrapped(x(3));
  const double dt = step(c), h = 1e-3;
  const Matrix6d A = createStateTransitionMatrix(x, dt);
  for (int k = 0; k < 6; k++) {
    Vector6d col[2];
    for (int m = 0; m < 2; m++) {
      Vector6d p = x, q = x;
      p(k) += (m + 1) * h; q(k) -= (m + 1) * h;
      Vector6d d = predictNextState(p, dt) - predictNextState(q, dt);
      d(2) = wrapped(d(2));
      col[m] = d / (2 * (m + 1) * h);
    }
    const Vector6d want = (4. * col[0] - col[1]) / 3.;
    CHECK_MAT(A.col(k), want, 1e-8 * (1. + std::fabs(x(4)) * dt + std::fabs(x(0)) + std::fabs(x(1))), 0., << "column " << k << " of the transition matrix at " << gen::str(x.transpose()) << ", dt " << dt);
  }
  // no time, no change
  CHECK_MAT(createStateTransitionMatrix(x, 0.), Matrix6d::Identity(), 1e-15, 0., << "dt = 0");
  c.nontrivial(dt > 0. && x(4) != 0.);
}

PROP(process_noise, 20000)
{
  const Eigen::Vector4d v(c.pos(1e-12, 1e6), c.coin() ? 0. : c.pos(1e-12, 1e6), c.pos(1e-12, 1e6), c.pos(1e-12, 1e6));
  const Matrix6d Q = processNoiseCovariance(v);
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      const double want = i == j && i >= 2 ? v(i - 2) : 0.;
      CHECK_EQ(Q(i, j), want, << "process noise entry " << i << "," << j);
    }
  }
  c.nontrivial();
}
