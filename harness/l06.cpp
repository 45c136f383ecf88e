// L06: scan-to-map localisation.
#include "gen.hpp"
#include <memory>
#include <tuple>
#include <vector>
#include <rclcpp/rclcpp.hpp>
#include <pcl/point_cloud.h>
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"

namespace
{
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using Loc = Localizer<PointXYZToVector, pcl::PointXYZ>;
using Problem = LOAMOptimizationProblem<PointXYZToVector>;
using Terms = std::tuple<std::vector<Eigen::MatrixXd>, std::vector<Eigen::VectorXd>>;

void put(Cloud & cloud, const Vector3d & p)
{
  cloud.push_back(pcl::PointXYZ(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2))));
}
// flat patches and straight poles, far enough apart that neighbours never mix
struct World
{
  struct Patch {Vector3d o, u, v; double a, b;};
  struct Pole {Vector3d o, u; double a;};
  std::vector<Patch> patches;
  std::vector<Pole> poles;
  Cloud::Ptr edge{new Cloud()}, surface{new Cloud()};
};
World world(pbt::Case & c, const Isometry3d & T)
{
  World w;
  const double turn = c.real(-3., 3.);
  const Eigen::Matrix3d R = Eigen::AngleAxisd(turn, Vector3d::UnitZ()).toRotationMatrix();
  w.patches.push_back({Vector3d(-5, -5, 0), Vector3d::UnitX(), Vector3d::UnitY(), 10., 10.});
  const int walls = static_cast<int>(c.range(3, 5));
  for (int i = 0; i < walls; i++) {
    // the first three walls fix the position along both horizontal axes
    const double a = 2 * M_PI * i / walls + c.real(-0.2, 0.2);
    const Vector3d n(std::cos(a), std::sin(a), 0.), along(-n(1), n(0), c.real(-0.1, 0.1));
    w.patches.push_back({8. * n + Vector3d(0, 0, 3.) - 3. * along.normalized(), along.normalized(), Vector3d(c.real(-0.2, 0.2), 0.1, 1.).normalized(), 6., 4.});
  }
  const int poles = static_cast<int>(c.range(3, 7));
  for (int i = 0; i < poles; i++) {
    const double a = 2 * M_PI * (i + 0.5) / poles;
    const Vector3d d = i % 3 == 2 ? Vector3d(std::cos(a), std::sin(a), 0.4) : Vector3d(c.real(-0.3, 0.3), c.real(-0.3, 0.3), 1.);
    w.poles.push_back({Vector3d(12. * std::cos(a), 12. * std::sin(a), 1.), d.normalized(), 4.});
  }
  for (auto & p : w.patches) {
    p.o = T * Vector3d(R * p.o); p.u = T.linear() * R * p.u; p.v = T.linear() * R * p.v;
    for (double a = 0.; a <= p.a; a += 0.5) {for (double b = 0.; b <= p.b; b += 0.5) {put(*w.surface, p.o + (a + 0.001 * c.below(100)) * p.u + (b + 0.001 * c.below(100)) * p.v);}}
  }
  for (auto & p : w.poles) {
    p.o = T * Vector3d(R * p.o); p.u = T.linear() * R * p.u;
    for (double a = 0.; a <= p.a; a += 0.1) {put(*w.edge, p.o + a * p.u);}
  }
  return w;
}
EdgeSurfaceScan scan_from(pbt::Case & c, const World & w, const Isometry3d & pose, int edges, int surfaces)
{
  Cloud::Ptr e(new Cloud()), s(new Cloud());
  const Isometry3d inv = pose.inverse();
  for (int i = 0; i < edges; i++) {
    const auto & p = w.poles[i % w.poles.size()];
    put(*e, inv * Vector3d(p.o + p.a * (0.25 + 0.5 * static_cast<double>(c.below(1000)) / 1000.) * p.u));
  }
  for (int i = 0; i < surfaces; i++) {
    const auto & p = w.patches[i % w.patches.size()];
    put(*s, inv * Vector3d(p.o + p.a * (0.1 + 0.8 * static_cast<double>(c.below(1000)) / 1000.) * p.u + p.b * (0.1 + 0.8 * static_cast<double>(c.below(1000)) / 1000.) * p.v));
  }
  return {e, s};
}
double position_error(const Isometry3d & a, const Isometry3d & b) {return (a.translation() - b.translation()).norm();}
double rotation_error(const Isometry3d & a, const Isometry3d & b) {return Eigen::AngleAxisd(Eigen::Matrix3d(a.linear().transpose() * b.linear())).angle();}
bool same(const Isometry3d & a, const Isometry3d & b) {return a.matrix() == b.matrix();}
Isometry3d offset(pbt::Case & c, double m, double angle)
{
  Isometry3d d = Isometry3d::Identity();
  d.linear() = Eigen::AngleAxisd(c.real(-angle, angle), gen::unit3(c)).toRotationMatrix();
  d.translation() = m * Vector3d(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));
  return d;
}
}  // namespace

PROP(localiser_finds_the_pose_of_the_scan, 1200)
{
  const Isometry3d T = c.coin() ? gen::iso(c, 50.) : Isometry3d::Identity();
  const World w = world(c, T);
  const Isometry3d truth = T * [&]() {Isometry3d p = offset(c, 2., 3.); p.translation()(2) += 2.; return p;}();
  const auto scan = scan_from(c, w, truth, static_cast<int>(c.range(30, 60)), static_cast<int>(c.range(120, 250)));
  const Isometry3d prior = truth * offset(c, c.pick({0., 0.05, 0.2, 0.4}), c.pick({0., 0.01, 0.05}));
  Loc loc(w.edge, w.surface, 40);
  CHECK(!loc.IsInitialized(), << "initialised without a pose");
  loc.Init(prior);
  CHECK(loc.IsInitialized(), << "not initialised"); CHECK_MAT(loc.Get().matrix(), prior.matrix(), 1e-12, 1e-12, << "Init does not set the pose");
  const bool ok = loc.Update(scan);
  const Isometry3d got = loc.Get();
  const double ep = position_error(got, truth), er = rotation_error(got, truth);
  const double pp = position_error(prior, truth), pr = rotation_error(prior, truth);
  CHECK(ok, << "no success from a prior off by " << pp << " m, " << pr << " rad");
  CHECK(got.matrix().allFinite() && (got.linear() * got.linear().transpose()).isApprox(Eigen::Matrix3d::Identity(), 1e-9), << "not a rigid transform: " << gen::str(got.matrix()));
  CHECK(ep < 3e-4 && er < 1e-4, << "off by " << ep << " m, " << er << " rad from a prior off by " << pp << " m, " << pr << " rad");
  // again: same answer, after whatever came in between
  if (c.coin()) {
    loc.Init(truth * offset(c, 0.3, 0.03));
    loc.Update(scan_from(c, w, truth * offset(c, 0.5, 0.1), 12, 40));
  }
  loc.Init(prior);
  CHECK_MAT(loc.Get().matrix(), prior.matrix(), 1e-12, 1e-12, << "Init does not set the pose");
  const bool again = loc.Update(scan);
  CHECK(again == ok && same(loc.Get(), got), << "another answer for the same scan and prior: " << gen::str(loc.Get().matrix()) << " and " << gen::str(got.matrix()));
  Loc fresh(w.edge, w.surface, 40);
  fresh.Init(prior);
  fresh.Update(scan);
  CHECK(same(fresh.Get(), got), << "another localiser, another answer");
  // without Init the last pose is the prior: the pose is a fixed point
  loc.Update(scan);
  CHECK(position_error(loc.Get(), truth) < 3e-4 && rotation_error(loc.Get(), truth) < 1e-4, << "left the pose on the second update");
  c.note() << "prior off by " << pp << " m, " << pr << " rad; result " << ep << " m, " << er << " rad";
  c.nontrivial(pp > 0.01);
}

PROP(combined_problem_is_edge_then_surface, 2000)
{
  const World w = world(c, Isometry3d::Identity());
  const int ne = static_cast<int>(c.size(0, 25)), ns = static_cast<int>(c.size(0, 60)), k = static_cast<int>(c.range(5, 20));
  const Isometry3d pose = gen::iso(c, 3.);
  const auto scan = scan_from(c, w, pose, ne, ns);
  const Isometry3d at = pose * offset(c, 1., 0.3);
  const Terms both = Problem(w.edge, w.surface, k).Make(scan, at);
  const Terms e = Edge<PointXYZToVector>(w.edge, k).Make(std::get<0>(scan), at);
  const Terms s = Surface<PointXYZToVector>(w.surface, k).Make(std::get<1>(scan), at);
  const auto & [J, r] = both;
  const std::size_t n1 = std::get<1>(e).size(), n2 = std::get<1>(s).size();
  CHECK_EQ(J.size(), r.size()); CHECK_EQ(r.size(), n1 + n2, << "terms"); CHECK_EQ(n1, std::get<0>(scan)->size(), << "edge terms");
  CHECK_EQ(n2 > 0, ns > 0, << "surface terms");
  for (std::size_t i = 0; i < r.size(); i++) {
    const auto & wantJ = i < n1 ? std::get<0>(e)[i] : std::get<0>(s)[i - n1];
    const auto & wantr = i < n1 ? std::get<1>(e)[i] : std::get<1>(s)[i - n1];
    CHECK_MAT(J[i], wantJ, 1e-12, 1e-12, << "Jacobian " << i << " of " << n1 << " edges and " << n2 << " surfaces");
    CHECK_MAT(r[i], wantr, 1e-12, 1e-12, << "residual " << i << " of " << n1 << " edges and " << n2 << " surfaces");
  }
  // the localiser optimises this problem with fifteen neighbours and its own limit
  const int limit = static_cast<int>(c.range(0, 6));
  const Optimizer<Problem, EdgeSurfaceScan> optimizer(Problem(w.edge, w.surface, 15), limit);
  Loc loc(w.edge, w.surface, limit);
  if (c.coin()) {loc.Init(at);} else {loc.Init(Isometry3d::Identity()); loc.Init(at);}
  const bool ok = loc.Update(scan);
  const OptimizationResult want = optimizer.Run(scan, at);
  CHECK_EQ(ok, want.success, << "success with " << limit << " iterations, " << r.size() << " terms");
  CHECK_MAT(loc.Get().matrix(), want.pose.matrix(), 1e-9, 1e-9, << "pose with " << limit << " iterations");
  if (r.empty()) {
    CHECK(!ok, << "success without a point");
    CHECK_MAT(loc.Get().matrix(), at.matrix(), 1e-12, 0., << "moved without a point");
  }
  c.label("one part empty", (n1 == 0) != (n2 == 0));
  c.nontrivial(n1 > 0 && n2 > 0);
}

// moving map and prior by one transform moves the estimate by it, and the frame of the sensor is as good as any
PROP(estimates_move_with_the_map, 500)
{
  const World w = world(c, Isometry3d::Identity());
  const Isometry3d truth = [&]() {Isometry3d p = offset(c, 2., 3.); p.translation()(2) += 2.; return p;}();
  const auto scan = scan_from(c, w, truth, 40, 160);
  const Isometry3d prior = truth * offset(c, 0.2, 0.03);
  Isometry3d T = Isometry3d::Identity();
  if (c.coin()) {T = gen::iso(c, 30.);} else {T.translation() = Vector3d(static_cast<double>(c.range(-50, 50)), static_cast<double>(c.range(-50, 50)), static_cast<double>(c.range(-5, 5)));}
  Cloud::Ptr e(new Cloud()), s(new Cloud());
  for (const auto & p : *w.edge) {put(*e, T * Vector3d(p.x, p.y, p.z));}
  for (const auto & p : *w.surface) {put(*s, T * Vector3d(p.x, p.y, p.z));}
  Loc a(w.edge, w.surface, 40), b(e, s, 40);
  a.Init(prior); b.Init(T * prior);
  const bool ra = a.Update(scan), rb = b.Update(scan);
  CHECK(ra && rb, << "no success");
  CHECK_MAT(b.Get().matrix(), (T * a.Get()).matrix(), 5e-4, 0., << "map moved by " << gen::str(T.matrix()));
  c.nontrivial(T.translation().norm() > 1.);
}

// a few points that belong to nothing in the map do not drag the estimate along
PROP(outliers_do_not_move_the_estimate, 400)
{
  const World w = world(c, Isometry3d::Identity());
  const Isometry3d truth = [&]() {Isometry3d p = offset(c, 2., 3.); p.translation()(2) += 2.; return p;}();
  auto scan = scan_from(c, w, truth, 60, 250);
  for (int i = 0; i < 3; i++) {
    put(*std::get<0>(scan), Vector3d(c.real(-8, 8), c.real(-8, 8), c.real(-1, 2)));
    put(*std::get<1>(scan), Vector3d(c.real(-4, 4), c.real(-4, 4), c.real(0., 2.)));
  }
  const Isometry3d prior = truth * offset(c, 0.2, 0.03);
  Loc loc(w.edge, w.surface, 40);
  loc.Init(prior);
  loc.Update(scan);
  const double ep = position_error(loc.Get(), truth), er = rotation_error(loc.Get(), truth);
  CHECK(ep < 0.15 && er < 0.04, << "off by " << ep << " m, " << er << " rad from a prior off by " << position_error(prior, truth) << " m: six of 310 points are outliers");
  c.nontrivial(true);
}
