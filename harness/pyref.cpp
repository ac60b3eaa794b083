// reference view of the core simulation for the Python harness: field values by (i,j,k), C order of nested lists
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include <memory>
namespace py = pybind11;
using NRLib::Variogram;
static const Variogram::Type TY[] = {Variogram::CONSTANT, Variogram::EXPONENTIAL, Variogram::SPHERICAL, Variogram::GAUSSIAN,
  Variogram::GENERAL_EXPONENTIAL, Variogram::MATERN32, Variogram::MATERN52, Variogram::MATERN72};
typedef std::vector<double> vd;
// values[i + nx*(j + ny*k)]
static vd field(int dim, unsigned long seed, int ty, double power, double rx, double ry, double rz, double azi, double dip,
                std::vector<size_t> n, vd d, std::vector<int> pad, vd s) {
  std::unique_ptr<Variogram> v(Variogram::Create(TY[ty], power, rx, ry, rz, azi, dip, 1.0));
  NRLib::Random::Initialize(seed);
  vd out;
  if (dim == 1) { out.resize(n[0]); NRLib::Simulate1DGaussianField(*v, n[0], d[0], out, NULL, pad[0], s[0]); }
  else if (dim == 2) {
    std::vector<NRLib::Grid2D<double> > g;
    NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], 1, g, NULL, pad[0], pad[1], s[0], s[1]);
    for (size_t j = 0; j < n[1]; ++j) for (size_t i = 0; i < n[0]; ++i) out.push_back(g[0](i, j));
  }
  else {
    std::vector<NRLib::Grid<double> > g;
    NRLib::Simulate3DGaussianField(*v, n[0], d[0], n[1], d[1], n[2], d[2], 1, g, pad[0], pad[1], pad[2], s[0], s[1], s[2]);
    for (size_t k = 0; k < n[2]; ++k) for (size_t j = 0; j < n[1]; ++j) for (size_t i = 0; i < n[0]; ++i) out.push_back(g[0](i, j, k));
  }
  return out;
}
PYBIND11_MODULE(_ref, m) { m.def("field", &field); }
