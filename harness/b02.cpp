// B02: point types, transforms, downsampling.
#include "gen.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <map>
#include <pcl/point_cloud.h>
#include "lidar_feature_library/convert_point_cloud_type.hpp"
#include "lidar_feature_library/downsample.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/pcl_utils.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_localization/pointcloud_to_matrix.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
using Eigen::Quaterniond;
using Eigen::Vector3d;
template<class T> using Cloud = pcl::PointCloud<T>;

float coordinate(pbt::Case & c, double m) {return static_cast<float>(c.num(m));}
template<class T>
typename Cloud<T>::Ptr cloud_of(pbt::Case & c, int n, double m)
{
  typename Cloud<T>::Ptr cloud(new Cloud<T>());
  for (int i = 0; i < n; i++) {
    T p;
    p.x = coordinate(c, m); p.y = coordinate(c, m); p.z = coordinate(c, m);
    cloud->push_back(p);
  }
  return cloud;
}
void set(PointXYZIR & p, float a, std::uint16_t r) {p.intensity = a; p.ring = r;}
void set(PointXYZCR & p, float a, std::uint16_t r) {p.curvature = a; p.ring = r;}
Vector3d turned(const Quaterniond & q, const Vector3d & p)   // independent of Eigen's rotation matrices
{
  const Vector3d v = q.vec(), t = 2. * v.cross(p);
  return p + q.w() * t + v.cross(t);
}
template<class T>
void check_transformed(pbt::Case & c)
{
  const int n = static_cast<int>(c.size(0, 40, 1500));
  const double m = c.pick({1., 100.});
  auto cloud = cloud_of<T>(c, n, m);
  cloud->header.frame_id = "f"; cloud->header.stamp = c.below(1000);
  const Quaterniond q = gen::quat(c);
  const Vector3d t = gen::vec3(c, 100.);
  const Cloud<T> before = *cloud;
  const auto moved = TransformPointCloud<T>(Eigen::Affine3d(MakeIsometry3d(q, t)), cloud);
  CHECK_EQ(moved->size(), cloud->size());
  CHECK(moved.get() != cloud.get(), << "the input itself");
  for (int i = 0; i < n; i++) {
    const Vector3d p(before[i].x, before[i].y, before[i].z), want = turned(q, p) + t;
    const double tol = 3e-6 * (1. + p.norm() + t.norm());
    CHECK_MAT(GetXYZ(moved->at(i)), want, tol, 0., << "point " << i << " " << gen::str(p) << " by " << gen::str(q.coeffs()) << " " << gen::str(t));
    CHECK(cloud->at(i).x == before[i].x && cloud->at(i).y == before[i].y && cloud->at(i).z == before[i].z, << "the input changed");
  }
  // and back
  const auto back = TransformPointCloud<T>(Eigen::Affine3d(MakeIsometry3d(q, t).inverse()), moved);
  for (int i = 0; i < n; i++) {CHECK_MAT(GetXYZ(back->at(i)), GetXYZ(before[i]), 1e-5 * (1. + 2 * m + t.norm()), 0., << "round trip of point " << i);}
  c.nontrivial(n > 1 && std::fabs(q.w()) < 1.);
}
template<class S, class T>
void check_converted(pbt::Case & c)
{
  const int n = static_cast<int>(c.size(0, 40, 1500));
  auto cloud = cloud_of<S>(c, n, c.pick({1., 1e4}));
  cloud->header.frame_id = c.pick({"lidar", ""}); cloud->header.stamp = c.below(1000); cloud->header.seq = static_cast<std::uint32_t>(c.below(10));
  const auto out = ConvertPointCloudType<S, T>(cloud);
  CHECK_EQ(out->size(), cloud->size()); CHECK_EQ(out->width, cloud->width); CHECK_EQ(out->height, cloud->height);
  CHECK_EQ(out->header.frame_id, cloud->header.frame_id); CHECK_EQ(out->header.stamp, cloud->header.stamp);
  for (int i = 0; i < n; i++) {
    CHECK(out->at(i).x == cloud->at(i).x && out->at(i).y == cloud->at(i).y && out->at(i).z == cloud->at(i).z, << "point " << i << " of " << n);
  }
  c.nontrivial(n > 1);
}
}  // namespace

PROP(rigid_transforms_form_a_group, 60000)
{
  Quaterniond q = gen::quat(c), r = gen::quat(c);
  const Vector3d t = gen::vec3(c, 1000.), s = gen::vec3(c, 1000.), p = gen::vec3(c, 100.);
  const Eigen::Isometry3d T = MakeIsometry3d(q, t), S = MakeIsometry3d(r, s);
  const double tol = 1e-12 * (1. + t.norm() + s.norm() + p.norm());
  CHECK_MAT(T * p, turned(q, p) + t, tol, 0., << gen::str(q.coeffs()) << gen::str(t));
  CHECK(T.translation() == t, << "translation"); CHECK(T.matrix().row(3) == Eigen::RowVector4d(0., 0., 0., 1.), << "last row");
  CHECK_MAT((T * T.inverse()).matrix(), Eigen::Matrix4d::Identity(), tol, 0., << "inverse");
  CHECK_MAT((T * S).matrix(), MakeIsometry3d((q * r).normalized(), turned(q, s) + t).matrix(), tol, 0., << "composition");
  CHECK_MAT(T.linear() * T.linear().transpose(), Eigen::Matrix3d::Identity(), 1e-14, 0., << "orthogonality");
  CHECK(MakeIsometry3d(Quaterniond::Identity(), Vector3d::Zero()).matrix() == Eigen::Matrix4d::Identity(), << "identity");
  // vectors with further elements: only x, y, z move
  const int d = static_cast<int>(c.range(3, 8));
  VectorXd v = gen::vec(c, d, 100.);
  const VectorXd w = TransformXYZ(T, v);
  CHECK_EQ(static_cast<int>(w.size()), d);
  CHECK_MAT(w.head(3), turned(q, v.head(3)) + t, 1e-12 * (1. + t.norm() + v.norm()), 0.);
  for (int i = 3; i < d; i++) {CHECK_EQ(w(i), v(i), << "element " << i);}
  c.nontrivial(std::fabs(q.w()) < 1. && t.norm() > 0. && d > 3);
}

PROP(clouds_are_transformed_point_by_point, 12000)
{
  switch (c.below(3)) {
    case 0: check_transformed<pcl::PointXYZ>(c); break;
    case 1: check_transformed<PointXYZCR>(c); break;
    default: check_transformed<PointXYZIR>(c); break;
  }
}

PROP(other_fields_survive_a_transform, 8000)
{
  const int n = static_cast<int>(c.size(0, 20, 800));
  auto cloud = cloud_of<PointXYZIR>(c, n, 10.);
  for (auto & p : *cloud) {set(p, coordinate(c, 100.), static_cast<std::uint16_t>(c.below(65536)));}
  const auto moved = TransformPointCloud<PointXYZIR>(Eigen::Affine3d(gen::iso(c, 10.)), cloud);
  for (int i = 0; i < n; i++) {
    CHECK_EQ(moved->at(i).intensity, cloud->at(i).intensity, << "point " << i); CHECK_EQ(moved->at(i).ring, cloud->at(i).ring, << "point " << i);
  }
  c.nontrivial(n > 1);
}

PROP(conversion_keeps_every_coordinate, 12000)
{
  switch (c.below(5)) {
    case 0: check_converted<PointXYZIR, pcl::PointXYZ>(c); break;
    case 1: check_converted<PointXYZCR, pcl::PointXYZ>(c); break;
    case 2: check_converted<pcl::PointXYZ, PointXYZCR>(c); break;
    case 3: check_converted<PointXYZIR, PointXYZCR>(c); break;
    default: check_converted<pcl::PointXYZ, pcl::PointXYZ>(c); break;
  }
}

PROP(shared_fields_survive_conversion, 8000)
{
  const int n = static_cast<int>(c.size(0, 20, 800));
  auto cloud = cloud_of<PointXYZIR>(c, n, 10.);
  for (auto & p : *cloud) {set(p, coordinate(c, 100.), static_cast<std::uint16_t>(c.below(65536)));}
  const auto same = ConvertPointCloudType<PointXYZIR, PointXYZIR>(cloud);
  const auto rings = ConvertPointCloudType<PointXYZIR, PointXYZCR>(cloud);
  const auto xyz = ToPointXYZ<PointXYZIR>(cloud);
  CHECK_EQ(xyz->size(), cloud->size());
  for (int i = 0; i < n; i++) {
    CHECK(same->at(i).intensity == cloud->at(i).intensity && same->at(i).ring == cloud->at(i).ring, << "point " << i);
    CHECK_EQ(rings->at(i).ring, cloud->at(i).ring, << "point " << i); CHECK_EQ(rings->at(i).curvature, 0.f, << "point " << i);
    CHECK(xyz->at(i).x == cloud->at(i).x && xyz->at(i).y == cloud->at(i).y && xyz->at(i).z == cloud->at(i).z, << "point " << i);
  }
  c.nontrivial(n > 1);
}

PROP(point_records, 30000)
{
  const float x = coordinate(c, 100.), y = coordinate(c, 100.), z = coordinate(c, 100.), a = coordinate(c, 100.);
  const std::uint16_t r = static_cast<std::uint16_t>(c.below(65536));
  const PointXYZIR i(x, y, z, a, r);
  const PointXYZCR k(x, y, z, a, r);
  CHECK(i.x == x && i.y == y && i.z == z && i.intensity == a && i.ring == r && i.data[3] == 1.f, << "PointXYZIR");
  CHECK(k.x == x && k.y == y && k.z == z && k.curvature == a && k.ring == r && k.data[3] == 1.f, << "PointXYZCR");
  const PointXYZIR i0; const PointXYZCR k0;
  CHECK(i0.x == 0.f && i0.y == 0.f && i0.z == 0.f && i0.intensity == 0.f && i0.ring == 0 && i0.data[3] == 1.f, << "default PointXYZIR");
  CHECK(k0.x == 0.f && k0.y == 0.f && k0.z == 0.f && k0.curvature == 0.f && k0.ring == 0 && k0.data[3] == 1.f, << "default PointXYZCR");
  const Vector3d v(x, y, z);
  CHECK(GetXYZ(i) == v && GetXYZ(k) == v && GetXYZ(pcl::PointXYZ(x, y, z)) == v, << "GetXYZ");
  const pcl::PointXYZ m = MakePointXYZ(v);
  CHECK(m.x == x && m.y == y && m.z == z, << "MakePointXYZ");
  CHECK(PointXYZToVector::Convert(m) == VectorXd(v) && PointXYZCRToXYZVector::Convert(k) == VectorXd(v), << "point to vector");
  CHECK(PointXYZCRToVector::Convert(k) == VectorXd(Eigen::Vector4d(x, y, z, a)), << "point to vector with curvature");
  CHECK_EQ(PointXYZToVector::NumDimension(), static_cast<std::size_t>(3)); CHECK_EQ(PointXYZCRToXYZVector::NumDimension(), static_cast<std::size_t>(3));
  CHECK_EQ(PointXYZCRToVector::NumDimension(), static_cast<std::size_t>(4));
  c.nontrivial(x != 0.f && y != 0.f && z != 0.f && a != 0.f);
}

PROP(clouds_as_matrices, 20000)
{
  const int n = static_cast<int>(c.size(0, 30, 1000));
  const auto cloud = cloud_of<pcl::PointXYZ>(c, n, 100.);
  const MatrixXd M = PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(cloud);
  CHECK(M.rows() == n && M.cols() == 3, << "size");
  const auto vs = PointsToEigen(std::vector<pcl::PointXYZ>(cloud->begin(), cloud->end()));
  CHECK_EQ(static_cast<int>(vs.size()), n);
  for (int i = 0; i < n; i++) {
    const Vector3d p(cloud->at(i).x, cloud->at(i).y, cloud->at(i).z);
    CHECK(M.row(i).transpose() == p && vs[i] == p, << "row " << i);
  }
  auto rings = cloud_of<PointXYZCR>(c, n, 100.);
  for (auto & p : *rings) {set(p, coordinate(c, 5.), 3);}
  const MatrixXd R = PointCloudToMatrix<PointXYZCRToVector, PointXYZCR>(rings);
  CHECK(R.rows() == n && R.cols() == 4, << "size");
  for (int i = 0; i < n; i++) {CHECK(R.row(i).transpose() == Eigen::Vector4d(rings->at(i).x, rings->at(i).y, rings->at(i).z, rings->at(i).curvature), << "row " << i);}
  std::vector<int> pick;
  if (n > 0) {for (int k = static_cast<int>(c.size(0, 20, 800)); k > 0; k--) {pick.push_back(static_cast<int>(c.below(n)));}}
  const MatrixXd G = Get(cloud, pick);
  CHECK(G.rows() == static_cast<int>(pick.size()) && G.cols() == 3, << "size of the selection");
  for (std::size_t i = 0; i < pick.size(); i++) {CHECK(G.row(i) == M.row(pick[i]), << "selected row " << i);}
  if (n == 0) {CHECK_THROWS(ThrowsIfPointCloudIsEmpty<pcl::PointXYZ>(cloud), << "empty cloud accepted");} else {
    CHECK_NO_THROW(ThrowsIfPointCloudIsEmpty<pcl::PointXYZ>(cloud));
    pick.push_back(n + static_cast<int>(c.below(3)));
    CHECK_THROWS(Get(cloud, pick), << "index beyond the end accepted");
  }
  c.nontrivial(n > 1 && pick.size() > 1);
}

// points are placed away from the borders of the voxels
PROP(downsampling_averages_each_voxel, 12000)
{
  const float leaf = static_cast<float>(c.pick({1., 0.2, 0.5, 2., 0.1, 10.}));
  const int n = static_cast<int>(c.size(0, 120, 3000)), spread = static_cast<int>(c.pick({1, 2, 4, 50}));
  Cloud<pcl::PointXYZ>::Ptr cloud(new Cloud<pcl::PointXYZ>());
  std::map<std::array<int, 3>, std::vector<Vector3d>> voxels;
  for (int i = 0; i < n; i++) {
    if (c.chance(1, 60)) {cloud->push_back(pcl::PointXYZ(std::nanf(""), 0.f, 1.f)); cloud->is_dense = false; continue;}
    std::array<int, 3> k;
    Vector3d p;
    for (int j = 0; j < 3; j++) {k[j] = static_cast<int>(c.range(-spread, spread)); p(j) = static_cast<float>((k[j] + c.real(0.05, 0.95)) * leaf);}
    cloud->push_back(pcl::PointXYZ(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(p(2))));
    voxels[k].push_back(p);
  }
  const Cloud<pcl::PointXYZ> before = *cloud;
  const auto out = Downsample<pcl::PointXYZ>(cloud, leaf);
  CHECK_EQ(out->size(), voxels.size(), << "points from " << n << " with leaf " << leaf);
  CHECK_EQ(cloud->size(), before.size(), << "the input changed");
  std::map<std::array<int, 3>, Vector3d> got;
  for (const auto & p : *out) {
    const Vector3d v(p.x, p.y, p.z);
    CHECK(v.allFinite(), << "not finite");
    got[{static_cast<int>(std::floor(v(0) / leaf)), static_cast<int>(std::floor(v(1) / leaf)), static_cast<int>(std::floor(v(2) / leaf))}] = v;
  }
  for (const auto & [k, ps] : voxels) {
    CHECK(got.count(k) == 1, << "no point for voxel " << k[0] << " " << k[1] << " " << k[2] << ", leaf " << leaf);
    Vector3d mean = Vector3d::Zero(), lo = ps[0], hi = ps[0];
    for (const auto & p : ps) {mean += p / static_cast<double>(ps.size()); lo = lo.cwiseMin(p); hi = hi.cwiseMax(p);}
    const double tol = 1e-5 * leaf * (1 + spread);
    CHECK_MAT(got[k], mean, tol, 0., << "centroid of " << ps.size() << " points");
    CHECK((got[k].array() >= lo.array() - tol).all() && (got[k].array() <= hi.array() + tol).all(), << "outside the box of its points");
  }
  c.nontrivial(voxels.size() > 1 && static_cast<int>(voxels.size()) < n);
}

HUGE_PROP(clouds_are_transformed_point_by_point, 16, 20000, 140000);
HUGE_PROP(conversion_keeps_every_coordinate, 16, 20000, 140000);
HUGE_PROP(clouds_as_matrices, 8, 20000, 140000);
HUGE_PROP(downsampling_averages_each_voxel, 16, 20000, 140000);
