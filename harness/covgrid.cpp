// executable specification of the periodic covariance grid and its smoothing
#include "common.hpp"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include <memory>
#include <map>
using NRLib::Variogram;
static const Variogram::Type TY[] = {Variogram::CONSTANT, Variogram::EXPONENTIAL, Variogram::SPHERICAL, Variogram::GAUSSIAN,
  Variogram::GENERAL_EXPONENTIAL, Variogram::MATERN32, Variogram::MATERN52, Variogram::MATERN72};
int main() {
  return run_cases([](Case& c) {
    std::string kind = c.s();
    int dim = (int)c.i();
    int ty = (int)c.i();
    double power = c.d(), rx = c.d(), ry = c.d(), rz = c.d(), azi = c.d(), dip = c.d(), sd = c.d();
    std::unique_ptr<Variogram> v(Variogram::Create(TY[ty], power, rx, ry, rz, azi, dip, sd));
    int n[3] = {1, 1, 1};
    double d[3] = {1, 1, 1}, s[3] = {1, 1, 1};
    for (int k = 0; k < dim; ++k) { n[k] = (int)c.i(); d[k] = c.d(); s[k] = c.d(); }
    const double H = 3.14 / 2;
    double ca = cos(azi), sa = sin(azi), cd = cos(dip), sdp = sin(dip);
    double ax[3] = {std::max({fabs(rx * cd * ca), fabs(ry * cos(azi + H)), fabs(rz * cos(dip + H) * ca)}),
                    std::max({fabs(rx * cd * sa), fabs(ry * sin(azi + H)), fabs(rz * cos(dip + H) * sa)}),
                    std::max({fabs(rx * sdp), 0.0, fabs(rz * sin(dip + H))})};
    std::vector<double> c1; NRLib::Grid2D<double> c2; NRLib::Grid<double> c3;
    if (dim == 1) { c1 = NRLib::FFTCovGrid1D(*v, n[0], d[0], s[0]).GetCov(); if ((int)c1.size() != n[0]) return (void)c.fail("wrong size"); }
    if (dim == 2) { c2 = NRLib::FFTCovGrid2D(*v, n[0], d[0], n[1], d[1], s[0], s[1]).GetCov(); if ((int)c2.GetNI() != n[0] || (int)c2.GetNJ() != n[1]) return (void)c.fail("wrong size"); }
    if (dim == 3) { c3 = NRLib::FFTCovGrid3D(*v, n[0], d[0], n[1], d[1], n[2], d[2], s[0], s[1], s[2]).GetCov();
      if ((int)c3.GetNI() != n[0] || (int)c3.GetNJ() != n[1] || (int)c3.GetNK() != n[2]) return (void)c.fail("wrong size"); }
    for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
      int id[3] = {i, j, k};
      double o[3], want = 1;
      for (int a = 0; a < dim; ++a) {
        o[a] = (2 * id[a] < n[a] ? id[a] : id[a] - n[a]) * d[a];
        if (s[a] < 0.99999) want *= pow(s[a], o[a] * o[a] / (ax[a] * ax[a]));
      }
      double cv = dim == 1 ? v->GetCov(o[0]) : dim == 2 ? v->GetCov(o[0], o[1]) : v->GetCov(o[0], o[1], o[2]);
      double got = dim == 1 ? c1[i] : dim == 2 ? c2(i, j) : c3(i, j, k);
      want *= cv;
      if (std::isnan(cv)) continue;  // decided by C01/C02
      if (!(std::fabs(got - want) <= 1e-9 * (sd * sd) + 1e-300)) {
        c.fail("entry (" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ") is " + num(got) + ", expected " + num(want));
        return;
      }
    }
  });
}
