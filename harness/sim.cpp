// executable specification of the simulation: noise filtered by the root of the covariance spectrum (naive DFT)
#include "common.hpp"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include <memory>
using NRLib::Variogram;
typedef std::complex<double> cd;
typedef std::vector<double> vd;
static const double PI2 = 6.283185307179586476925286766559;
static const Variogram::Type TY[] = {Variogram::CONSTANT, Variogram::EXPONENTIAL, Variogram::SPHERICAL, Variogram::GAUSSIAN,
  Variogram::GENERAL_EXPONENTIAL, Variogram::MATERN32, Variogram::MATERN52, Variogram::MATERN72};
static void dft(std::vector<cd>& a, const long* n, int sign) {
  std::vector<cd> b(a.size());
  size_t stride = 1;
  for (int ax = 0; ax < 3; ++ax) {
    size_t m = n[ax];
    if (m > 1) {
      std::vector<cd> w(m);
      for (size_t t = 0; t < m; ++t) w[t] = std::polar(1.0, sign * PI2 * t / m);
      for (size_t p = 0; p < a.size(); ++p) {
        size_t k = p / stride % m, base = p - k * stride;
        cd s = 0;
        for (size_t t = 0; t < m; ++t) s += a[base + t * stride] * w[t * k % m];
        b[p] = s;
      }
      a = b;
    }
    stride *= m;
  }
}
static long fftsize(long m, bool even) {
  for (;; ++m) {
    long x = m;
    for (long p : {2, 3, 5, 7}) while (x % p == 0) x /= p;
    if (x == 1 && (!even || m % 2 == 0)) return m;
  }
}
int main() {
  return run_cases([](Case& c) {
    std::string kind = c.s();
    int dim = (int)c.i(), ty = (int)c.i();
    double power = c.d(), rx = c.d(), ry = c.d(), rz = c.d(), azi = c.d(), dip = c.d(), sd = c.d();
    std::unique_ptr<Variogram> v(Variogram::Create(TY[ty], power, rx, ry, rz, azi, dip, sd));
    long n[3] = {1, 1, 1}, tot[3] = {1, 1, 1};
    int pad[3] = {0, 0, 0};
    double d[3] = {1, 1, 1}, s[3] = {1, 1, 1};
    for (int k = 0; k < dim; ++k) { n[k] = c.i(); d[k] = c.d(); pad[k] = (int)c.i(); s[k] = c.d(); }
    int fields = (int)c.i(), rgmode = (int)c.i();
    unsigned long seed = (unsigned long)c.i();
    if (dim == 1) fields = 1;
    // ---- documented default padding and FFT size
    double rg[3] = {rx, ry, rz};
    if (dim > 1) { rg[0] = std::max(rx, ry); rg[1] = azi == 0 ? ry : rg[0]; }
    double ratios[] = {1, 2.33, 1.92, 6.67, 4 + (power - 1.5) * 5.34, 4, 4.76, 5.26};
    size_t N = 1;
    for (int k = 0; k < dim; ++k) {
      long p = pad[k] >= 0 ? pad[k] : std::max((long)(ratios[ty] * rg[k] / d[k] - n[k]), (long)(rg[k] / d[k])) + 1;
      tot[k] = fftsize(n[k] + p, k == 0 && dim > 1);
      N *= tot[k];
    }
    if (N > 60000) return;
    // ---- reference
    const double H = 3.14 / 2;
    double ca = cos(azi), sa = sin(azi), cdp = cos(dip), sdp = sin(dip);
    double ax[3] = {std::max({fabs(rx * cdp * ca), fabs(ry * cos(azi + H)), fabs(rz * cos(dip + H) * ca)}),
                    std::max({fabs(rx * cdp * sa), fabs(ry * sin(azi + H)), fabs(rz * cos(dip + H) * sa)}),
                    std::max({fabs(rx * sdp), 0.0, fabs(rz * sin(dip + H))})};
    std::vector<cd> cov(N);
    for (long k = 0; k < tot[2]; ++k) for (long j = 0; j < tot[1]; ++j) for (long i = 0; i < tot[0]; ++i) {
      long id[3] = {i, j, k};
      double o[3], w = 1;
      for (int a = 0; a < dim; ++a) {
        o[a] = (2 * id[a] < tot[a] ? id[a] : id[a] - tot[a]) * d[a];
        if (s[a] < 0.99999) w *= pow(s[a], o[a] * o[a] / (ax[a] * ax[a]));
      }
      w *= dim == 1 ? v->GetCov(o[0]) : dim == 2 ? v->GetCov(o[0], o[1]) : v->GetCov(o[0], o[1], o[2]);
      if (std::isnan(w)) return;   // decided by C01/C02
      cov[i + tot[0] * (j + (size_t)tot[1] * k)] = w;
    }
    dft(cov, tot, -1);
    double mx = 0;
    for (auto& z : cov) mx = std::max(mx, z.real());
    NRLib::RandomGenerator gen;
    NRLib::RandomGenerator mine(seed + 77);
    NRLib::Random::Initialize(seed);
    unsigned long next_seed = 0;
    vd noise_all;
    if (dim == 3) { for (size_t q = 0; q < N * fields; ++q) noise_all.push_back(NRLib::Random::Norm01()); }
    else {
      if (rgmode == 1) gen = NRLib::RandomGenerator(seed + 77);
      else if (rgmode == 2 && dim == 2) { gen = NRLib::RandomGenerator(seed); fields = 1; }
      else gen.Initialize(NRLib::Random::DrawUint32());
      for (size_t q = 0; q < N * fields; ++q) noise_all.push_back(gen.Norm01());
    }
    double after = NRLib::Random::Unif01();
    double after_gen = rgmode == 1 ? gen.Unif01() : 0;
    (void)next_seed;
    std::vector<vd> want;
    for (int m = 0; m < fields; ++m) {
      std::vector<cd> x(N);
      size_t q = N * m;
      for (long i = 0; i < tot[0]; ++i) for (long j = 0; j < tot[1]; ++j) for (long k = 0; k < tot[2]; ++k) x[i + tot[0] * (j + (size_t)tot[1] * k)] = noise_all[q++];
      dft(x, tot, -1);
      for (size_t p = 0; p < N; ++p) x[p] *= std::sqrt(std::max(cov[p].real(), 0.0)) / (double)N;
      dft(x, tot, +1);
      vd r;
      for (long k = 0; k < n[2]; ++k) for (long j = 0; j < n[1]; ++j) for (long i = 0; i < n[0]; ++i) r.push_back(x[i + tot[0] * (j + (size_t)tot[1] * k)].real());
      want.push_back(r);
    }
    // ---- the real code
    NRLib::Random::Initialize(seed);
    std::vector<vd> got;
    NRLib::RandomGenerator* rgp = rgmode == 1 ? &mine : NULL;
    if (dim == 1) {
      vd out(n[0]);
      if (s[0] != 1) NRLib::Simulate1DGaussianField(*v, n[0], d[0], out, rgp, pad[0], s[0]);
      else if (pad[0] != -1) NRLib::Simulate1DGaussianField(*v, n[0], d[0], out, rgp, pad[0]);
      else if (rgp) NRLib::Simulate1DGaussianField(*v, n[0], d[0], out, rgp);
      else NRLib::Simulate1DGaussianField(*v, n[0], d[0], out);
      got.push_back(out);
    }
    else if (dim == 2) {
      std::vector<NRLib::Grid2D<double> > out;
      if (rgmode == 2) { NRLib::Grid2D<double> g; NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], g); out.push_back(g); }
      else if (s[1] != 1) NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], fields, out, rgp, pad[0], pad[1], s[0], s[1]);
      else if (s[0] != 1) NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], fields, out, rgp, pad[0], pad[1], s[0]);
      else if (pad[1] != -1) NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], fields, out, rgp, pad[0], pad[1]);
      else if (pad[0] != -1) NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], fields, out, rgp, pad[0]);
      else if (rgp) NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], fields, out, rgp);
      else NRLib::Simulate2DGaussianField(*v, n[0], d[0], n[1], d[1], fields, out);
      for (auto& g : out) {
        if ((long)g.GetNI() != n[0] || (long)g.GetNJ() != n[1]) return (void)c.fail("field has the wrong size");
        vd r;
        for (long j = 0; j < n[1]; ++j) for (long i = 0; i < n[0]; ++i) r.push_back(g(i, j));
        got.push_back(r);
      }
    }
    else {
      std::vector<NRLib::Grid<double> > out;
      bool one = s[0] == 1 && s[1] == 1 && s[2] == 1, aut = pad[0] == -1 && pad[1] == -1 && pad[2] == -1;
      if (one && aut) NRLib::Simulate3DGaussianField(*v, n[0], d[0], n[1], d[1], n[2], d[2], fields, out);
      else if (one) NRLib::Simulate3DGaussianField(*v, n[0], d[0], n[1], d[1], n[2], d[2], fields, out, pad[0], pad[1], pad[2]);
      else if (s[2] == 1) NRLib::Simulate3DGaussianField(*v, n[0], d[0], n[1], d[1], n[2], d[2], fields, out, pad[0], pad[1], pad[2], s[0], s[1]);
      else NRLib::Simulate3DGaussianField(*v, n[0], d[0], n[1], d[1], n[2], d[2], fields, out, pad[0], pad[1], pad[2], s[0], s[1], s[2]);
      for (auto& g : out) {
        if ((long)g.GetNI() != n[0] || (long)g.GetNJ() != n[1] || (long)g.GetNK() != n[2]) return (void)c.fail("field has the wrong size");
        vd r;
        for (long k = 0; k < n[2]; ++k) for (long j = 0; j < n[1]; ++j) for (long i = 0; i < n[0]; ++i) r.push_back(g(i, j, k));
        got.push_back(r);
      }
    }
    if (got.size() != want.size()) return (void)c.fail("wrong number of fields");
    // a spectrum value of rounding size changes sign with the order of summation: root of rounding error per frequency
    double tol = 4 * std::sqrt(mx * 1e-14 * 1) + 1e-9 * sd;
    for (size_t m = 0; m < got.size(); ++m) {
      if (got[m].size() != want[m].size()) return (void)c.fail("field has the wrong size");
      for (size_t p = 0; p < got[m].size(); ++p)
        if (!(std::fabs(got[m][p] - want[m][p]) <= tol))
          return (void)c.fail("field " + std::to_string(m) + " node " + std::to_string(p) + " is " + num(got[m][p]) + ", expected " + num(want[m][p]));
    }
    if (NRLib::Random::Unif01() != after) return (void)c.fail("simulation consumes a different number of draws from the global stream");
    if (rgmode == 1 && dim < 3 && mine.Unif01() != after_gen) return (void)c.fail("simulation consumes a different number of draws from the caller's generator");
  });
}
