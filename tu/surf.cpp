// Translation unit handed to clang: only includes the real sources and requests instantiations.
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/volume/volume.cpp"
template class NRLib::Grid2D<double>;
template class NRLib::ConstantSurface<double>;
template class NRLib::RegularSurface<double>;
template class NRLib::RegularSurfaceRotated<double>;
