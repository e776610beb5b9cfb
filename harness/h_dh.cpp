// Depression hierarchy and fill-spill-merge.
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
using namespace richdem;
using namespace richdem::dephier;
template<class T> void all(){
  Array2D<T> dem; Array2D<dh_label_t> label; Array2D<flowdir_t> fd; Array2D<double> wtd;
  auto deps = GetDepressionHierarchy<T,Topology::D8>(dem, label, fd);
  auto deps4 = GetDepressionHierarchy<T,Topology::D4>(dem, label, fd);
  FillSpillMerge(dem, label, fd, deps, wtd);
  ResetDH(deps);
  LastLayer(label, dem, deps);
}
template void all<double>();
