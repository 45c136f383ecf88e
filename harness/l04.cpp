// L04: residuals and Jacobians of the alignment, edge and surface problems.
#include "gen.hpp"
#include <algorithm>
#include <functional>
#include "lidar_feature_library/downsample.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_localization/alignment.hpp"
#include "lidar_feature_localization/edge.hpp"
#include "lidar_feature_localization/edge_surface_scan.hpp"
#include "lidar_feature_localization/jacobian.hpp"
#include "lidar_feature_localization/loam_optimization_problem.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"
#include "lidar_feature_localization/surface.hpp"

namespace
{
using Eigen::Isometry3d;
using Eigen::Matrix3d;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using gen::MatrixXd;
using gen::VectorXd;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using Residual = std::function<VectorXd(const Isometry3d &)>;

// d(quaternion, translation) / d(local rotation vector, translation)
Eigen::Matrix<double, 7, 6> tangent(const Quaterniond & q)
{
  Eigen::Matrix<double, 7, 6> M = Eigen::Matrix<double, 7, 6>::Zero();
  for (int a = 0; a < 3; a++) {
    const Quaterniond d = q * Quaterniond(0, a == 0, a == 1, a == 2);
    M.col(a).head(4) << 0.5 * d.w(), 0.5 * d.x(), 0.5 * d.y(), 0.5 * d.z();
    M(4 + a, 3 + a) = 1.;
  }
  return M;
}
Isometry3d moved(const Isometry3d & T, int k, double h)
{
  Isometry3d r = T;
  if (k < 3) {r.linear() = T.linear() * Eigen::AngleAxisd(h, Vector3d::Unit(k)).toRotationMatrix();} else {r.translation()(k - 3) += h;}
  return r;
}
// central differences, extrapolated
MatrixXd derivative(const Residual & f, const Isometry3d & T)
{
  const double h = 1e-3;
  MatrixXd D(f(T).size(), 6);
  for (int k = 0; k < 6; k++) {
    const VectorXd a = (f(moved(T, k, h)) - f(moved(T, k, -h))) / (2 * h), b = (f(moved(T, k, 2 * h)) - f(moved(T, k, -2 * h))) / (4 * h);
    D.col(k) = (4. * a - b) / 3.;
  }
  return D;
}
// as the optimiser linearises: the quaternion of the pose's rotation matrix
MatrixXd on_tangent(const MatrixXd & J, const Isometry3d & T) {return J * tangent(Quaterniond(T.linear()));}
void check_jacobian(const MatrixXd & J, const Residual & f, const Isometry3d & T, double tol, const std::string & what)
{
  CHECK(J.cols() == 7 && J.rows() == f(T).size(), << what << ": shape " << J.rows() << "x" << J.cols());
  const MatrixXd want = derivative(f, T);
  CHECK_MAT(on_tangent(J, T), want, tol, 0., << what << ": Jacobian is not the derivative of the residual at " << gen::str(T.matrix()));
}
double size_of(const Isometry3d & T, const Vector3d & p) {return 1. + p.norm() + T.translation().norm();}
template<class P> Vector3d xyz(const P & p) {return Vector3d(p.x, p.y, p.z);}
double dyadic(pbt::Case & c, int lo, int hi) {return static_cast<double>(c.range(lo * 8, hi * 8)) / 8.;}
Vector3d dyadic3(pbt::Case & c, int m) {return Vector3d(dyadic(c, -m, m), dyadic(c, -m, m), dyadic(c, -m, m));}
// pose whose rotation is exact when asked so that planes and lines stay exact
Isometry3d pose(pbt::Case & c, double m) {return gen::iso(c, m);}

// brute force: the k nearest rows; false if the choice is not unique
bool nearest(const MatrixXd & X, const VectorXd & q, int k, MatrixXd & out)
{
  std::vector<std::pair<double, int>> d;
  for (int i = 0; i < X.rows(); i++) {d.push_back({(X.row(i).transpose() - q).squaredNorm(), i});}
  std::sort(d.begin(), d.end());
  k = std::min<int>(k, static_cast<int>(X.rows()));
  out.resize(k, 3);
  for (int i = 0; i < k; i++) {out.row(i) = X.row(d[i].second).head(3);}
  return k == X.rows() || d[k].first - d[k - 1].first > 1e-9 * (1. + d[k].first);
}
struct Spectrum {Vector3d mean, values; Matrix3d vectors;};
Spectrum spectrum(const MatrixXd & X)
{
  const Vector3d m = X.colwise().mean().transpose();
  const MatrixXd D = X.rowwise() - m.transpose();
  const Eigen::SelfAdjointEigenSolver<Matrix3d> s(Matrix3d(D.transpose() * D / X.rows()));
  return {m, s.eigenvalues(), s.eigenvectors()};
}
pcl::PointXYZ point(const Vector3d & p, pcl::PointXYZ *) {return pcl::PointXYZ(static_cast<float>(p.x()), static_cast<float>(p.y()), static_cast<float>(p.z()));}
PointXYZCR point(const Vector3d & p, PointXYZCR *)
{
  PointXYZCR r;
  r.x = static_cast<float>(p.x()); r.y = static_cast<float>(p.y()); r.z = static_cast<float>(p.z());
  r.curvature = 1.f; r.ring = 0;
  return r;
}
// a few lines (or blobs) of points in the map frame
template<class PointType>
typename pcl::PointCloud<PointType>::Ptr line_map(pbt::Case & c, bool exact)
{
  typename pcl::PointCloud<PointType>::Ptr map(new pcl::PointCloud<PointType>());
  const int lines = static_cast<int>(c.range(1, 3));
  for (int l = 0; l < lines; l++) {
    const Vector3d base = dyadic3(c, 20) + Vector3d(100. * l, 0, 0);
    Vector3d dir = dyadic3(c, 1) / 2.;
    if (dir.norm() < 0.1) {dir = Vector3d(0, 0.25, 0);}
    if (c.chance(1, 4)) {                                                // nearly along an axis
      dir = 0.25 * Vector3d::Unit(c.below(3));
      const double unit = c.pick({64., 512., 2048.});
      for (int k = 0; k < 3; k++) {dir(k) += c.range(-3, 3) / unit;}
    }
    const int n = static_cast<int>(c.range(4, 30));
    for (int i = 0; i < n; i++) {
      Vector3d p = base + (i - n / 2) * dir;
      if (!exact) {p += 0.05 * Vector3d(c.normal(), c.normal(), c.normal());}
      PointType t = point(p, static_cast<PointType *>(nullptr));
      map->push_back(t);
    }
  }
  return map;
}
template<class PointToVector>
MatrixXd matrix_of(const pcl::PointCloud<typename PointToVector::PointType> & m)
{
  MatrixXd X(m.size(), PointToVector::NumDimension());
  for (std::size_t i = 0; i < m.size(); i++) {X.row(i) = PointToVector::Convert(m.at(i)).transpose();}
  return X;
}

template<class PointToVector>
void edges(pbt::Case & c)
{
  using PointType = typename PointToVector::PointType;
  const bool exact = c.coin();
  const auto map = line_map<PointType>(c, exact);
  const int k = static_cast<int>(c.pick({5, 8, 15, 40}));
  const Isometry3d T = pose(c, 20.);
  const Edge<PointToVector> problem(map, k);
  typename pcl::PointCloud<PointType>::Ptr scan(new pcl::PointCloud<PointType>());
  const int n = static_cast<int>(c.size(0, 8));
  for (int i = 0; i < n; i++) {
    const Vector3d on_map = xyz(map->at(c.below(map->size()))) + c.pick({0., 0.1, 1.}) * Vector3d(c.normal(), c.normal(), c.normal());
    scan->push_back(point(T.inverse() * on_map, static_cast<PointType *>(nullptr)));
  }
  const auto [J, r] = problem.Make(scan, T);
  CHECK_EQ(J.size(), scan->size(), << "one Jacobian per point");
  CHECK_EQ(r.size(), scan->size(), << "one residual per point");
  const MatrixXd X = matrix_of<PointToVector>(*map);
  int used = 0;
  for (int i = 0; i < n; i++) {
    CHECK(J[i].rows() == 3 && J[i].cols() == 7 && r[i].size() == 3, << "shape");
    CHECK(J[i].allFinite() && r[i].allFinite(), << "not finite");
    VectorXd q = PointToVector::Convert(scan->at(i));
    const Vector3d p = xyz(scan->at(i));
    q.head(3) = T * p;
    MatrixXd N;
    if (!nearest(X, q, k, N)) {c.label("ambiguous neighbours"); continue;}
    const Spectrum s = spectrum(N);
    if (s.values(2) < 1e-3 || s.values(2) < 3. * s.values(1)) {c.label("no line"); continue;}
    used++;
    const Vector3d u = s.vectors.col(2);
    const double sign = Vector3d(r[i]).dot(2. * u.cross(T * p - s.mean)) >= 0. ? 1. : -1.;
    const Residual f = [&](const Isometry3d & S) {return VectorXd(sign * 2. * u.cross(S * p - s.mean));};
    const double lever = size_of(Isometry3d::Identity(), T * p - s.mean);
    CHECK_MAT(r[i], f(T), 1e-6 * lever, 0., << "edge residual, point " << i << ", k = " << k);
    const MatrixXd got = on_tangent(J[i], T), want = derivative(f, T);
    const double tol = 1e-6 * size_of(T, p);
    const bool equal = gen::near(got, want, tol);
    // a vanishing residual leaves the direction of the line open
    const bool flipped = f(T).norm() < 1e-6 * lever && gen::near(got, -want, tol);
    CHECK(equal || flipped, << "edge Jacobian of point " << i << ": got " << gen::str(got) << " want " << gen::str(want));
    c.note() << "edge r " << gen::str(r[i].transpose());
  }
  c.label("exact lines", exact && used > 0);
  c.nontrivial(used > 0);
}

// scan points in voxels of their own, so that downsampling keeps them
struct Planes {Cloud::Ptr map; std::vector<Vector3d> base, normal;};
Planes planes(pbt::Case & c)
{
  Planes s;
  s.map = Cloud::Ptr(new Cloud());
  const int n = static_cast<int>(c.range(1, 3));
  for (int l = 0; l < n; l++) {
    Vector3d a = dyadic3(c, 1), b = dyadic3(c, 1);
    switch (c.below(3)) {
      case 0: a = Vector3d(0.5, 0, 0); b = Vector3d(0, 0.5, 0); break;  // ground
      case 1: a = Vector3d(0.5, 0, 0); b = Vector3d(0, 0, 0.5); break;  // wall
      default: break;
    }
    if (c.chance(1, 3)) {                                                // barely tilted, still exact
      const double unit = c.pick({64., 512., 2048.});
      for (int k = 0; k < 3; k++) {a(k) += c.range(-3, 3) / unit; b(k) += c.range(-3, 3) / unit;}
    }
    const Vector3d normal = a.cross(b);
    if (normal.norm() < 0.2 * a.norm() * b.norm() || a.norm() < 0.2 || b.norm() < 0.2) {throw pbt::Discard{};}
    // the first patch may contain, or pass near, the origin of the map
    Vector3d base = dyadic3(c, 20) + Vector3d(100. * l, 0, 0);
    if (l == 0 && c.chance(1, 3)) {base = c.range(-8, 8) * a + c.range(-8, 8) * b + (c.coin() ? Vector3d(0, 0, 0) : Vector3d(normal / 1024.));}
    for (int i = -4; i <= 4; i++) {
      for (int j = -4; j <= 4; j++) {s.map->push_back(point(base + i * a + j * b, static_cast<pcl::PointXYZ *>(nullptr)));}
    }
    s.base.push_back(base);
    s.normal.push_back(normal.normalized());
  }
  return s;
}
Cloud::Ptr surface_scan(pbt::Case & c, const Planes & s, const Isometry3d & T)
{
  Cloud::Ptr scan(new Cloud());
  const int n = static_cast<int>(c.size(0, 8));
  for (int i = 0; i < n; i++) {
    const Vector3d on_map = xyz(s.map->at(c.below(s.map->size()))) + c.pick({0., 0.05, 0.3}) * Vector3d(c.normal(), c.normal(), c.normal());
    scan->push_back(point(T.inverse() * on_map, static_cast<pcl::PointXYZ *>(nullptr)));
  }
  return scan;
}
}  // namespace

PROP(alignment, 20000)
{
  const int n = static_cast<int>(c.size(0, 10));
  const Isometry3d T = pose(c, 50.);
  MatrixXd A(n, 3), B(n, 3);
  for (int i = 0; i < n; i++) {A.row(i) = gen::vec3(c, 50.).transpose(); B.row(i) = c.chance(1, 4) ? (T * Vector3d(A.row(i).transpose())).transpose() : Eigen::RowVector3d(gen::vec3(c, 50.).transpose());}
  const auto [J, r] = AlignmentProblem().Make(std::make_tuple(A, B), T);
  CHECK_EQ(J.size(), static_cast<std::size_t>(n));
  CHECK_EQ(r.size(), static_cast<std::size_t>(n));
  for (int i = 0; i < n; i++) {
    const Vector3d a = A.row(i), b = B.row(i);
    const Residual f = [&](const Isometry3d & S) {return VectorXd(S * a - b);};
    CHECK_MAT(r[i], f(T), 1e-9 * size_of(T, a), 0., << "alignment residual");
    check_jacobian(J[i], f, T, 1e-7 * size_of(T, a), "alignment");
  }
  c.nontrivial(n > 0);
}

PROP(edge_of_two_points, 40000)
{
  const Isometry3d T = pose(c, 50.);
  const Vector3d p0 = gen::vec3(c, 50.), m = gen::vec3(c, 50.), u = c.pick({1., 0.01, 30.}) * gen::unit3(c);
  const Vector3d p1 = m - u, p2 = m + u;
  const Residual f = [&](const Isometry3d & S) {return VectorXd(MakeEdgeResidual(S, p0, p1, p2));};
  const Vector3d r = f(T), p = T * p0;
  const double len = (p2 - p1).norm(), dist = (p - m - u.normalized().dot(p - m) * u.normalized()).norm();
  const double scale = size_of(T, p0) + m.norm() + u.norm();
  CHECK_NEAR(r.norm(), len * dist, 1e-11 * scale * scale, 0., << "edge residual is not the offset from the line times its length");
  CHECK(std::fabs(r.dot(u.normalized())) <= 1e-9 * scale * scale, << "edge residual along the line");
  CHECK_MAT(Vector3d(-r), Vector3d(MakeEdgeResidual(T, p0, p2, p1)), 1e-9 * scale * scale, 0., << "orientation");
  // moving the point along the line changes nothing; a point on the line has no residual
  Isometry3d S = T;
  S.translation() += c.real(-30, 30) * u.normalized();
  CHECK_MAT(Vector3d(MakeEdgeResidual(S, p0, p1, p2)), r, 1e-9 * (scale + 30) * (scale + 30), 0., << "moved along the line");
  const Vector3d on = m + c.real(-3, 3) * u;
  CHECK(MakeEdgeResidual(Isometry3d::Identity(), on, p1, p2).norm() < 1e-11 * scale * scale, << "a point on the line has a residual");
  const double ch = (MakeEdgeResidual(T, p0, p1, p2) - Vector3d((p - p1).cross(p - p2))).norm();
  CHECK(ch < 1e-9 * scale * scale);
  check_jacobian(MakeEdgeJacobianRow(Quaterniond(T.linear()), p0, p1, p2), f, T, 1e-7 * scale * len, "edge");
  c.nontrivial(dist > 1e-6);
}

PROP(edge_problem_xyz, 3000) {edges<PointXYZToVector>(c);}
PROP(edge_problem_xyzcr, 1500)
{
  if (c.coin()) {edges<PointXYZCRToVector>(c);} else {edges<PointXYZCRToXYZVector>(c);}
}

PROP(plane_functions, 30000)
{
  // a plane away from the origin: w . x = -1
  const Vector3d n = gen::unit3(c);
  const double d = c.real(0.5, 50.) * (c.coin() ? 1 : -1);
  const Vector3d x = gen::vec3(c, 50.), w = n / d;      // n . x + d = 0
  const double want = std::fabs(n.dot(x) + d);
  const double got = SignedPointPlaneDistance(w, x);
  CHECK_NEAR(std::fabs(got), want, 1e-9 * (1 + x.norm() + std::fabs(d)), 0., << "distance to a plane");
  CHECK_NEAR(PointPlaneDistance(w, x), want, 1e-9 * (1 + x.norm() + std::fabs(d)), 0., << "unsigned distance");
  CHECK(SignedPointPlaneDistance(w, Vector3d::Zero()) > 0., << "the origin is on the positive side");
  if (want > 1e-6) {CHECK((got > 0) == (n.dot(x) / d + 1. > 0.), << "side of the plane");}
  const VectorXd v = SignedPointPlaneDistanceVector1d(w, x);
  CHECK(v.size() == 1 && pbt::nearly(v(0), got, 1e-12, 1e-12), << "vector of one distance");
  // in-plane motion changes nothing
  Vector3d t = n.cross(gen::unit3(c)) * c.real(-20, 20);
  CHECK_NEAR(SignedPointPlaneDistance(w, Vector3d(x + t)), got, 1e-9 * (100 + x.norm() + std::fabs(d)), 0., << "moved along the plane");
  // fit to points of the plane
  const Vector3d e1 = n.unitOrthogonal(), e2 = n.cross(e1);
  const int rows = static_cast<int>(c.range(3, 20));
  MatrixXd X(rows, 3);
  for (int i = 0; i < rows; i++) {X.row(i) = (-d * n + c.real(-5, 5) * e1 + c.real(-5, 5) * e2).transpose();}
  if (spectrum(X).values(1) > 0.5) {
    CHECK_MAT(Vector3d(EstimatePlaneCoefficients(X)), w, 1e-8 * (1 + w.norm()) , 1e-7, << "plane fitted to " << rows << " exact points");
    const double off = c.pick({0., 0.1, 0.19, 0.21, 1.});
    X.row(c.below(rows)) += off * (c.coin() ? 1. : -1.) * n.transpose();
    CHECK_EQ(CheckPointsDistributeAlongPlane(X, w), off < 0.2, << "a point " << off << " m off the plane");
    c.nontrivial();
  }
  const Isometry3d T = pose(c, 50.);
  const Residual f = [&](const Isometry3d & S) {return SignedPointPlaneDistanceVector1d(w, S * x);};
  check_jacobian(MakeJacobianRow(w, Quaterniond(T.linear()), x), f, T, 1e-7 * size_of(T, x), "point to plane");
}

PROP(stacked_plane_jacobian, 20000)
{
  const int n = static_cast<int>(c.size(0, 10));
  const Isometry3d T = pose(c, 50.);
  std::vector<Vector3d> points, coeffs;
  for (int i = 0; i < n; i++) {points.push_back(gen::vec3(c, 50.)); coeffs.push_back(gen::vec3(c, 3.));}
  const Residual f = [&](const Isometry3d & S) {
      VectorXd r(n);
      for (int i = 0; i < n; i++) {r(i) = coeffs[i].dot(S * points[i]);}
      return r;
    };
  check_jacobian(MakeJacobian(points, coeffs, Quaterniond(T.linear())), f, T, 1e-6 * (200. + T.translation().norm()), "stacked");
  c.nontrivial(n > 1);
}

PROP(surface_problem, 3000)
{
  const Planes s = planes(c);
  const int k = static_cast<int>(c.pick({5, 8, 15, 30}));
  const Isometry3d T = pose(c, 20.);
  const Cloud::Ptr scan = surface_scan(c, s, T);
  const Surface<PointXYZToVector> problem(s.map, k);
  const auto [J, r] = problem.Make(scan, T);
  const Cloud::Ptr down = scan->empty() ? Cloud::Ptr(new Cloud()) : Downsample<pcl::PointXYZ>(scan, 1.0);
  CHECK_EQ(r.size(), down->size(), << "one residual per downsampled point");
  CHECK_EQ(J.size(), down->size(), << "one Jacobian per downsampled point");
  const MatrixXd X = matrix_of<PointXYZToVector>(*s.map);
  int used = 0;
  bool origin = false;
  for (std::size_t i = 0; i < down->size(); i++) {
    CHECK(J[i].rows() == 1 && J[i].cols() == 7 && r[i].size() == 1, << "shape");
    const Vector3d p = xyz(down->at(i));
    MatrixXd N;
    if (!nearest(X, T * p, k, N)) {c.label("ambiguous neighbours"); continue;}
    const Spectrum sp = spectrum(N);
    if (sp.values(0) > 1e-9 || sp.values(1) < 0.02) {c.label("no plane"); continue;}
    used++;
    const Vector3d u = sp.vectors.col(0);
    origin = origin || std::fabs(u.dot(sp.mean)) < 1e-2;
    const double sign = r[i](0) * u.dot(T * p - sp.mean) >= 0. ? 1. : -1.;
    const Residual f = [&](const Isometry3d & S) {return VectorXd(VectorXd::Constant(1, sign * u.dot(S * p - sp.mean)));};
    const double tol = 1e-5 * (1. + (T * p - sp.mean).norm() + (T * p).norm());
    CHECK_MAT(r[i], f(T), tol, 0., << "distance of point " << gen::str((T * p).transpose()) << " to the plane of " << k << " neighbours through " <<
      gen::str(sp.mean.transpose()) << " with normal " << gen::str(u.transpose()));
    const MatrixXd got = on_tangent(J[i], T), want = derivative(f, T);
    const double jtol = 1e-5 * (size_of(T, p) + sp.mean.norm());
    const bool equal = gen::near(got, want, jtol), flipped = f(T).norm() < tol && gen::near(got, -want, jtol);
    CHECK(equal || flipped, << "surface Jacobian of point " << i << ": got " << gen::str(got) << " want " << gen::str(want));
  }
  c.label("plane through the origin of the map", origin);
  c.nontrivial(used > 0);
  c.note() << down->size() << " points, k = " << k << ", " << used << " planes";
}

// rows of a point: the same whatever else is in the scan and whatever was asked before
void same_rows(const MatrixXd & Ja, const VectorXd & ra, const MatrixXd & Jb, const VectorXd & rb, double scale, const std::string & what)
{
  CHECK(Ja.rows() == Jb.rows() && Ja.cols() == Jb.cols() && ra.size() == rb.size(), << what << ": shape");
  const double tol = 1e-6 * scale;
  const bool equal = gen::near(Ja, Jb, tol) && gen::near(ra, rb, tol), flipped = gen::near(Ja, -Jb, tol) && gen::near(ra, -rb, tol);
  CHECK(equal || flipped, << what << ": residual " << gen::str(ra.transpose()) << " alone " << gen::str(rb.transpose()));
}
PROP(each_point_on_its_own, 3000)
{
  Cloud::Ptr map(new Cloud());
  const double size = c.pick({0.02, 0.3, 5.}), spread = c.pick({0., 1e-3, 0.05});
  const int lines = static_cast<int>(c.range(1, 5));
  for (int l = 0; l < lines; l++) {
    const Vector3d base = size * Vector3d(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)), dir = size * gen::unit3(c);
    const int n = static_cast<int>(c.range(3, 12));
    for (int i = 0; i < n; i++) {
      map->push_back(point(base + c.real(-1, 1) * dir + spread * size * Vector3d(c.normal(), c.normal(), c.normal()), static_cast<pcl::PointXYZ *>(nullptr)));
    }
  }
  const MatrixXd X = matrix_of<PointXYZToVector>(*map);
  const int k = static_cast<int>(c.pick({3, 5, 8}));
  const Edge<PointXYZToVector> edge(map, k);
  const Surface<PointXYZToVector> surface(map, k);
  Isometry3d T = pose(c, 5.);
  Cloud::Ptr scan(new Cloud());
  const int n = static_cast<int>(c.range(1, 10));
  for (int i = 0; i < n; i++) {
    const Vector3d on = scan->empty() || c.coin() ? xyz(map->at(c.below(map->size()))) : Vector3d(T * xyz(scan->back()));
    scan->push_back(point(T.inverse() * (on + c.pick({0., 1e-4, 0.03, 0.3}) * Vector3d(c.normal(), c.normal(), c.normal())), static_cast<pcl::PointXYZ *>(nullptr)));
  }
  int used = 0;
  for (int turn = 0; turn < 3; turn++) {
    const auto [J, r] = edge.Make(scan, T);
    for (int i = 0; i < n; i++) {
      Cloud::Ptr one(new Cloud());
      one->push_back(scan->at(i));
      MatrixXd N;
      const Vector3d q = T * xyz(scan->at(i));
      if (!nearest(X, q, k, N)) {continue;}
      const Spectrum s = spectrum(N);
      if (s.values(2) < 1e-12 || s.values(2) < 1.2 * s.values(1)) {continue;}
      // a map object of its own, so that nothing can be left from other points
      const auto [J1, r1] = Edge<PointXYZToVector>(map, k).Make(one, T);
      same_rows(J.at(i), r.at(i), J1.at(0), r1.at(0), size_of(T, q), "edge point " + std::to_string(i) + " of " + std::to_string(n));
      used++;
    }
    const Cloud::Ptr down = Downsample<pcl::PointXYZ>(scan, 1.0);
    const auto [Js, rs] = surface.Make(scan, T);
    for (std::size_t i = 0; i < down->size() && i < Js.size(); i++) {
      Cloud::Ptr one(new Cloud());
      one->push_back(down->at(i));
      MatrixXd N;
      const Vector3d q = T * xyz(down->at(i));
      if (!nearest(X, q, k, N)) {continue;}
      const Spectrum s = spectrum(N);
      if (s.values(1) < 1e-8 || s.values(1) < 1.2 * s.values(0)) {continue;}
      const auto [J1, r1] = Surface<PointXYZToVector>(map, k).Make(one, T);
      CHECK_EQ(J1.size(), 1U);
      // downsampling a single point may move it by rounding
      same_rows(Js.at(i), rs.at(i), J1.at(0), r1.at(0), 10. * size_of(T, q), "surface point " + std::to_string(i));
    }
    T = pose(c, 5.);
    T.translation() += 0.1 * size * gen::unit3(c);
  }
  c.nontrivial(n > 1 && used > 1);
}

PROP(edges_and_surfaces_together, 1000)
{
  const Planes s = planes(c);
  const Cloud::Ptr edge_map = line_map<pcl::PointXYZ>(c, false);
  const int k = static_cast<int>(c.pick({5, 15}));
  const Isometry3d T = pose(c, 20.);
  const Cloud::Ptr surface = surface_scan(c, s, T);
  Cloud::Ptr edge(new Cloud());
  const int n = static_cast<int>(c.size(0, 6));
  for (int i = 0; i < n; i++) {edge->push_back(point(T.inverse() * xyz(edge_map->at(c.below(edge_map->size()))), static_cast<pcl::PointXYZ *>(nullptr)));}
  const LOAMOptimizationProblem<PointXYZToVector> problem(edge_map, s.map, k);
  const auto [J, r] = problem.Make(EdgeSurfaceScan(edge, surface), T);
  const auto [Je, re] = Edge<PointXYZToVector>(edge_map, k).Make(edge, T);
  const auto [Js, rs] = Surface<PointXYZToVector>(s.map, k).Make(surface, T);
  CHECK_EQ(J.size(), Je.size() + Js.size(), << "Jacobians of edges and surfaces");
  CHECK_EQ(r.size(), re.size() + rs.size(), << "residuals of edges and surfaces");
  const auto matches = [&](bool edge_first) {
      for (std::size_t i = 0; i < J.size(); i++) {
        const std::size_t ne = re.size(), ns = rs.size();
        const bool is_edge = edge_first ? i < ne : i >= ns;
        const std::size_t j = edge_first ? (is_edge ? i : i - ne) : (is_edge ? i - ns : i);
        const MatrixXd & A = is_edge ? Je[j] : Js[j];
        const VectorXd & b = is_edge ? re[j] : rs[j];
        if (J[i].rows() != A.rows() || r[i].size() != b.size() || !gen::near(J[i], A, 1e-9, 1e-9) || !gen::near(r[i], b, 1e-9, 1e-9)) {return false;}
      }
      return true;
    };
  CHECK(matches(true) || matches(false), << "the problem is not the edge and the surface problem together");
  c.nontrivial(!re.empty() && !rs.empty());
}
