// The older flat-resolution headers used by the command-line programs.
#include <richdem/common/Array2D.hpp>
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
using namespace richdem;
template<class T> void all(){
  Array2D<T> dem; Array2D<int32_t> mask, labels; Array2D<uint8_t> fd; Array2D<float> dfd;
  barnes_flat_resolution_d8(dem, fd, true);
  resolve_flats_barnes_dinf(dem, dfd);
}
template void all<double>();
