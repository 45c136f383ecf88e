// The installed nanoflann (1.5) under the names of the version /repo is written for (1.3).
#pragma once
#define KDTreeEigenMatrixAdaptor KDTreeEigenMatrixAdaptorInstalled
#include "/usr/include/nanoflann.hpp"
#undef KDTreeEigenMatrixAdaptor
namespace nanoflann
{
struct SearchParams : SearchParameters
{
  explicit SearchParams(int = 32, float eps = 0, bool sorted = true) : SearchParameters(eps, sorted) {}
};
template<class MatrixType, int32_t DIM = -1, class Distance = nanoflann::metric_L2, bool row_major = true>
struct KDTreeEigenMatrixAdaptor : KDTreeEigenMatrixAdaptorInstalled<MatrixType, DIM, Distance, row_major>
{
  using Base = KDTreeEigenMatrixAdaptorInstalled<MatrixType, DIM, Distance, row_major>;
  typename Base::index_t * index;
  template<class D>
  KDTreeEigenMatrixAdaptor(const D dimensionality, const std::reference_wrapper<const MatrixType> & mat, const int leaf_max_size = 10)
  : Base(dimensionality, mat, leaf_max_size), index(this->index_)
  {
  }
};
}  // namespace nanoflann
