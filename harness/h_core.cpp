// Containers: rasters, tiled rasters, caches, layout files, timers, queues.
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/common/ManagedVector.hpp>
#include <richdem/common/Layoutfile.hpp>
#include <richdem/common/ProgressBar.hpp>
#include <richdem/common/timer.hpp>
#include <richdem/common/memory.hpp>
#include <richdem/common/random.hpp>
#include <richdem/common/grid_cell.hpp>
#include <richdem/common/disjoint_dense_int_set.hpp>
#include <richdem/common/gdal.hpp>
#include <richdem/common/loaders.hpp>
#include <richdem/common/radix_heap.hpp>
#include <richdem/common/math.hpp>
#include <richdem/common/version.hpp>
#include <richdem/tiled/A2Array2D.hpp>
#include <richdem/tiled/lru.hpp>
#include <map>
namespace richdem {
template class Array2D<double>;
template class Array2D<float>;
template class Array2D<uint8_t>;
template class Array3D<float>;
template class ManagedVector<double>;
template class ManagedVector<int>;
template class A2Array2D<float>;
template class A2Array2D<uint8_t>;
template struct GridCellZ<double>;
template struct GridCellZ<float>;
template struct GridCellZ<int>;
template struct GridCellZk_low<double>;
template struct GridCellZk_high<double>;
template struct GridCellZk_low<float>;
template struct GridCellZk_high<float>;
template struct GridCellZk_low<int>;
template struct GridCellZk_high<int>;
template class GridCellZk_high_pq<double>;
template class GridCellZk_low_pq<double>;
template class LRU<int*>;
}
using namespace richdem;
void extra(){
  (void)0; auto mk = Array2D<double>::make_from_template(Array2D<float>());

  Array2D<int> wi; Array2D<float> a; Array2D<float> b(wi, 3.f); Array2D<double> d(a, 1.0);
  Array3D<float> c(a); a.resize(wi); 
  GridCellZ_pq<double> q; q.emplace(1,2,3.0); q.push(GridCellZ<double>(1,2,3)); (void)q.top(); q.pop();
  A2Array2D<uint8_t> t("x", A2Array2D<float>("l",1), 3);
}
