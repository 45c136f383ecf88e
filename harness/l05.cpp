// L05: nearest neighbours against brute force.
#include "gen.hpp"
#include <algorithm>
#include "lidar_feature_localization/kdtree.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"

namespace
{
using gen::MatrixXd;
using gen::VectorXd;
MatrixXd cloud(pbt::Case & c, int dim)
{
  const int n = static_cast<int>(c.size(1, 150, 2000)), kind = static_cast<int>(c.below(4));
  MatrixXd X(n, dim);
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < dim; k++) {
      X(i, k) = kind == 0 ? static_cast<double>(c.range(0, 3)) : kind == 1 ? c.real(-50, 50) : kind == 2 ? c.num(1e3) : k == 0 ? c.real(-50, 50) : 1.;
    }
  }
  return X;
}
VectorXd query(pbt::Case & c, const MatrixXd & X, const double unit = 1.)
{
  VectorXd q = unit * gen::vec(c, static_cast<int>(X.cols()), c.pick({60., 1e3, 1e4}));
  if (c.chance(1, 3)) {q = X.row(c.below(X.rows())).transpose();}
  return q;
}
void check(const MatrixXd & X, const VectorXd & q, int k, const MatrixXd & rows, const std::vector<double> & dist)
{
  const int want_n = std::min<int>(k, static_cast<int>(X.rows()));
  CHECK_EQ(rows.rows(), static_cast<Eigen::Index>(want_n), << "number of neighbours for k = " << k << " in a map of " << X.rows());
  CHECK_EQ(dist.size(), static_cast<std::size_t>(want_n), << "number of distances");
  CHECK_EQ(rows.cols(), X.cols());
  std::vector<double> all;
  for (int i = 0; i < X.rows(); i++) {all.push_back((X.row(i).transpose() - q).squaredNorm());}
  std::vector<double> sorted = all;
  std::sort(sorted.begin(), sorted.end());
  std::vector<char> used(X.rows(), 0);
  std::vector<int> order(X.rows());
  for (int i = 0; i < X.rows(); i++) {order[i] = i;}
  std::sort(order.begin(), order.end(), [&](int a, int b) {return all[a] < all[b];});
  for (int i = 0; i < want_n; i++) {
    if (i > 0) {CHECK(dist[i - 1] <= dist[i], << "distances not sorted: " << pbt::show(dist));}
    CHECK_NEAR(dist[i], sorted[i], 1e-300, 1e-12, << "distance " << i << " for k = " << k << " in a map of " << X.rows());
    bool found = false;
    // the points at about this distance
    const auto from = std::lower_bound(order.begin(), order.end(), dist[i] - 1e-300 - 1e-12 * dist[i], [&](int j, double d) {return all[j] < d;});
    for (auto it = from; it != order.end() && !found; ++it) {
      if (all[*it] > dist[i] + 1e-300 + 1e-12 * dist[i] && !pbt::nearly(all[*it], dist[i], 1e-300, 1e-12)) {break;}
      if (!used[*it] && X.row(*it) == rows.row(i)) {used[*it] = 1; found = true;}
    }
    CHECK(found, << "neighbour " << i << " " << gen::str(rows.row(i)) << " is not a (further) point of the map at that distance");
  }
}
}  // namespace

PROP(neighbours_equal_brute_force, 20000)
{
  const int dim = static_cast<int>(c.range(1, 5));
  const double unit = c.chance(1, 3) ? c.pick({1e-7, 1e-4, 1e5}) : 1.;   // the answer does not depend on the unit of length
  const MatrixXd X = unit * cloud(c, dim);
  const KDTreeEigen tree(X, static_cast<int>(c.pick({1, 2, 10, 50})));
  const int n = static_cast<int>(c.range(1, 4));
  std::vector<std::pair<VectorXd, int>> queries;
  const std::int64_t most = std::min<std::int64_t>(X.rows(), 3000);   // insertion into the result is quadratic
  for (int i = 0; i < n; i++) {
    const VectorXd q = query(c, X, unit);
    const int k = static_cast<int>(c.pick<std::int64_t>({1, 2, 15, c.range(1, most), most, most + c.range(1, 5)}));
    const auto [rows, dist] = tree.NearestKSearch(q, k);
    check(X, q, k, rows, dist);
    queries.push_back({q, k});
    c.label("more neighbours asked than points", k > X.rows());
  }
  // an answer does not depend on the queries before it
  const auto & [q, k] = queries[0];
  const auto [r1, d1] = tree.NearestKSearch(q, k);
  const auto [r2, d2] = KDTreeEigen(X, 10).NearestKSearch(q, k);
  CHECK(d1.size() == d2.size(), << "answer changed");
  for (std::size_t i = 0; i < d1.size(); i++) {CHECK_NEAR(d1[i], d2[i], 1e-300, 1e-12, << "answer changed");}
  check(X, q, k, r1, d1);
  c.note() << X.rows() << " points in " << dim << " dimensions, k = " << k;
  c.nontrivial(X.rows() > 10 && dim > 1);
}

PROP(tree_of_a_cloud, 3000)
{
  const int n = static_cast<int>(c.size(1, 60));
  pcl::PointCloud<PointXYZCR>::Ptr cl(new pcl::PointCloud<PointXYZCR>());
  pcl::PointCloud<pcl::PointXYZ>::Ptr xyz(new pcl::PointCloud<pcl::PointXYZ>());
  for (int i = 0; i < n; i++) {
    const PointXYZCR p(static_cast<float>(c.num(30.)), static_cast<float>(c.num(30.)), static_cast<float>(c.num(30.)), static_cast<float>(c.num(30.)), 3);
    cl->push_back(p);
    xyz->push_back(pcl::PointXYZ(p.x, p.y, p.z));
  }
  const MatrixXd m4 = PointCloudToMatrix<PointXYZCRToVector, PointXYZCR>(cl), m3 = PointCloudToMatrix<PointXYZCRToXYZVector, PointXYZCR>(cl),
    mx = PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(xyz);
  CHECK(m4.rows() == n && m4.cols() == 4 && m3.rows() == n && m3.cols() == 3 && mx.rows() == n && mx.cols() == 3, << "matrix size");
  for (int i = 0; i < n; i++) {
    const auto & p = cl->points[i];
    CHECK(m4(i, 0) == p.x && m4(i, 1) == p.y && m4(i, 2) == p.z && m4(i, 3) == p.curvature, << "row " << i);
    CHECK(m3.row(i) == m4.row(i).head(3) && mx.row(i) == m3.row(i), << "row " << i);
  }
  const int k = static_cast<int>(c.range(1, n));
  const VectorXd q4 = query(c, m4), q3 = query(c, m3);
  const auto [r4, d4] = MakeKDTree<PointXYZCRToVector, PointXYZCR>(cl)->NearestKSearch(q4, k);
  check(m4, q4, k, r4, d4);
  const auto [r3, d3] = MakeKDTree<PointXYZToVector, pcl::PointXYZ>(xyz)->NearestKSearch(q3, k);
  check(m3, q3, k, r3, d3);
  c.nontrivial(n > 3);
}

HUGE_PROP(neighbours_equal_brute_force, 24, 10000, 60000);
