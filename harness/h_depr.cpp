// Instantiates the depression-handling algorithms so that their bodies can be analysed.
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/Barnes2014.hpp>
#include <richdem/depressions/Lindsay2016.hpp>
#include <richdem/depressions/Wei2018.hpp>
#include <richdem/depressions/Zhou2016.hpp>
using namespace richdem;
template<class T> void all(){
  Array2D<T> dem; Array2D<d8_flowdir_t> fd; Array2D<uint8_t> pm; Array2D<int32_t> lab;
  FillDepressions<Topology::D8>(dem); FillDepressions<Topology::D4>(dem);
  FillDepressionsEpsilon<Topology::D8>(dem); FillDepressionsEpsilon<Topology::D4>(dem);
  BreachDepressions<Topology::D8>(dem); BreachDepressions<Topology::D4>(dem);
  (void)HasDepressions<Topology::D8>(dem); (void)HasDepressions<Topology::D4>(dem);
  PriorityFlood_Original<Topology::D8>(dem); PriorityFlood_Original<Topology::D4>(dem);
  PriorityFlood_Barnes2014<Topology::D8>(dem); PriorityFlood_Barnes2014<Topology::D4>(dem);
  PriorityFloodFlowdirs_Barnes2014(dem, fd);
  pit_mask<Topology::D8>(dem, pm); pit_mask<Topology::D4>(dem, pm);
  PriorityFloodWatersheds_Barnes2014<Topology::D8>(dem, lab, true); PriorityFloodWatersheds_Barnes2014<Topology::D4>(dem, lab, true);
  PriorityFlood_Barnes2014_max_dep<Topology::D8>(dem, T(1)); PriorityFlood_Barnes2014_max_dep<Topology::D4>(dem, T(1));
  PriorityFlood_Wei2018(dem); PriorityFlood_Zhou2016(dem);
  Lindsay2016(dem, LindsayMode::COMPLETE_BREACHING, true, true, 1u, T(1));
}
template void all<double>();
