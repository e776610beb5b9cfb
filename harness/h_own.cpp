// Owners of raster memory: everything that can hold, hand over, resize or free a buffer.
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/common/ManagedVector.hpp>
#include <richdem/tiled/A2Array2D.hpp>
namespace richdem {
template class ManagedVector<double>;
template class ManagedVector<int>;
template class Array2D<double>;
template class Array3D<float>;
template class A2Array2D<float>;
}
using namespace richdem;
void own(ManagedVector<double> &d, const ManagedVector<int> &i, Array2D<double> &a, const Array2D<float> &f){
  ManagedVector<double> e(i), g(std::move(d));
  e = i; e = std::move(g); e = d;
  Array2D<double> b(f, 1.0), c(a), h(std::move(a));
  b.resize(f, 1.0); b = c; b = std::move(h);
  Array3D<float> p(a), q(p); q.resize(p);
}
