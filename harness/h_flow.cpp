// Flow metrics, flow accumulation, D8/D-infinity methods.
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/flow_accumulation_generic.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
#include <richdem/misc/conversion.hpp>
using namespace richdem;
template<class T> void all(){
  Array2D<T> dem; Array2D<double> accum; Array3D<float> props; Array2D<d8_flowdir_t> fd; Array2D<float> dfd; Array2D<uint8_t> fd8;
  FM_Tarboton(dem,props); FM_Dinfinity(dem,props); FM_Holmgren(dem,props,1.0); FM_Quinn(dem,props); FM_Freeman(dem,props,1.0);
  FM_FairfieldLeymarie<Topology::D8>(dem,props); FM_FairfieldLeymarie<Topology::D4>(dem,props); FM_Rho8(dem,props); FM_Rho4(dem,props);
  FM_OCallaghan<Topology::D8>(dem,props); FM_OCallaghan<Topology::D4>(dem,props); FM_D8(dem,props); FM_D4(dem,props);
  FA_Tarboton(dem,accum); FA_Dinfinity(dem,accum); FA_Holmgren(dem,accum,1.0); FA_Quinn(dem,accum); FA_Freeman(dem,accum,1.0);
  FA_FairfieldLeymarieD8(dem,accum); FA_FairfieldLeymarieD4(dem,accum); FA_Rho8(dem,accum); FA_Rho4(dem,accum);
  FA_OCallaghanD8(dem,accum); FA_OCallaghanD4(dem,accum); FA_D8(dem,accum); FA_D4(dem,accum);
  FlowAccumulation(props, accum);
  d8_flow_directions(dem, fd);
  d8_flow_accum(fd, accum);
  dinf_flow_directions(dem, dfd);
  dinf_upslope_area(dfd, accum);
  convert_arc_flowdirs_to_richdem_d8(fd8, fd8);
}
template void all<double>();
