// Terrain attributes, flats, miscellaneous methods.
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/flats/Barnes2014.hpp>
#include <richdem/flats/find_flats.hpp>
#include <richdem/terrain_generation.hpp>
using namespace richdem;
template<class T> void all(){
  Array2D<T> dem; Array2D<double> acc; Array2D<float> out; Array2D<int8_t> fl; Array2D<int32_t> mask, labels; Array2D<uint32_t> lab;
  TA_SPI(acc, out, acc); TA_CTI(acc, out, acc);
  TA_slope_riserun(dem,out,1.f); TA_slope_percentage(dem,out,1.f); TA_slope_degrees(dem,out,1.f); TA_slope_radians(dem,out,1.f);
  TA_aspect(dem,out,1.f); TA_curvature(dem,out,1.f); TA_planform_curvature(dem,out,1.f); TA_profile_curvature(dem,out,1.f);
  (void)dem_surface_area(dem, 1.0); 
  (void)Perimeter(dem, PerimType::CELL_COUNT);
  std::vector<size_t> seeds; BucketFill<Topology::D8>(dem, lab, T(0), 1u, seeds);
  BucketFillFromEdges<Topology::D8>(dem, lab, T(0), 1u);
  BucketFillFromEdges<Topology::D4>(dem, lab, T(0), 1u);
  FindFlats(dem, fl); 
  GetFlatMask(dem, mask, labels);
  ResolveFlatsEpsilon(dem);
}
template void all<double>();
