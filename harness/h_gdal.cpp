// What maps raster element types to stored data types, for every element type the Python package and the programs use.
#include <richdem/common/Array2D.hpp>
#include <richdem/common/gdal.hpp>
#include <richdem/common/loaders.hpp>
#include <richdem/tiled/A2Array2D.hpp>
using namespace richdem;
template<class T> void one(){
  (void)NativeTypeToGDAL<T>();
  Array2D<T> a; LoadGDAL("x", a); SaveGDAL(a, "x");
  Array2D<T> b("x"); b.saveGDAL("y", "", 0, 0, false);
  int32_t h, w; T nd; double g[6]; getGDALHeader("x", h, w, nd, g);
  A2Array2D<T> t("x", 3); t.saveUnifiedGDAL("x");
}
template void one<uint8_t>();
template void one<uint16_t>();
template void one<int16_t>();
template void one<uint32_t>();
template void one<int32_t>();
template void one<float>();
template void one<double>();
void others(){ (void)NativeTypeToGDAL<int8_t>(); (void)NativeTypeToGDAL<int64_t>(); (void)NativeTypeToGDAL<uint64_t>(); }
