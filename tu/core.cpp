// Translation unit handed to clang: only includes the real sources and requests instantiations.
#include "nrlib/fft/fft.cpp"
#include "nrlib/fft/fftgrid2d.cpp"
#include "nrlib/fft/fftgrid3d.cpp"
#include "nrlib/variogram/variogram.cpp"
#include "nrlib/variogram/variogramtypes.cpp"
#include "nrlib/variogram/gaussianfield.cpp"
#include "nrlib/variogram/fftcovgrid.cpp"
#include "nrlib/random/random.cpp"
#include "nrlib/random/randomgenerator.cpp"
template class NRLib::FFTGrid2D<double>;
template class NRLib::FFTGrid3D<double>;
template class NRLib::Grid<double>;
template class NRLib::Grid2D<double>;
