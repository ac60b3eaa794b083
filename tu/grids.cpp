// Translation unit handed to clang: only includes the real headers and requests instantiations.
#include <limits>
#include <cmath>
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/grid/grid4d.hpp"
#include "nrlib/grid/grid5d.hpp"
#include "nrlib/grid/grid2dgeneral.hpp"
template class NRLib::Grid<double>;
template class NRLib::Grid2D<double>;
template class NRLib::Grid4D<double>;
template class NRLib::Grid5D<double>;
template class NRLib::Grid2DGeneral<double>;
