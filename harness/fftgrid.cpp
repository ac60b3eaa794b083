// executable specification of the FFT grids and the 1D transform, against a naive DFT
#include "common.hpp"
#include "nrlib/fft/fft.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include <random>
typedef std::complex<double> cd;
typedef std::vector<double> vd;
static const double PI2 = 6.283185307179586476925286766559;
// unnormalised DFT of a grid with first index fastest
static std::vector<cd> dft(const vd& x, const int* n) {
  std::vector<cd> a(x.begin(), x.end()), b(a.size());
  int stride = 1;
  for (int ax = 0; ax < 3; ++ax) {
    int m = n[ax];
    if (m > 1) {
      std::vector<cd> w(m);
      for (int t = 0; t < m; ++t) w[t] = std::polar(1.0, -PI2 * t / m);
      for (size_t p = 0; p < a.size(); ++p) {
        size_t k = p / stride % m, base = p - k * stride;
        cd s = 0;
        for (int t = 0; t < m; ++t) s += a[base + (size_t)t * stride] * w[(size_t)t * k % m];
        b[p] = s;
      }
      a = b;
    }
    stride *= m;
  }
  return a;
}
static bool near(cd a, cd b, double s) { return std::abs(a - b) <= 1e-9 * s; }
struct A2 {
  typedef NRLib::FFTGrid2D<double> G;
  static G* make(const int* n, const int* p, bool s) { return new G(n[0], n[1], p[0], p[1], s); }
  static void tot(const G& g, int* t) { t[0] = g.GetNItot(); t[1] = g.GetNJtot(); t[2] = 1; }
  static void cn(const G& g, int* t) { t[0] = g.GetComplexNI(); t[1] = g.GetComplexNJ(); t[2] = 1; }
  static void rn(const G& g, int* t) { t[0] = g.GetRealNI(); t[1] = g.GetRealNJ(); t[2] = 1; }
  static void init(G& g, const int* t, const vd& x) { NRLib::Grid2D<double> v(t[0], t[1]); for (int j = 0; j < t[1]; ++j) for (int i = 0; i < t[0]; ++i) v(i, j) = x[i + (size_t)t[0] * j]; g.Initialize(v); }
  static double real(const G& g, int i, int j, int) { return g.Real(i, j); }
  static cd cplx(const G& g, int i, int j, int) { return g.Complex(i, j); }
  static vd crop(const G& g, int* s) { NRLib::Grid2D<double> v = g.GetRealGrid(); s[0] = v.GetNI(); s[1] = v.GetNJ(); s[2] = 1; vd r; for (int j = 0; j < s[1]; ++j) for (int i = 0; i < s[0]; ++i) r.push_back(v(i, j)); return r; }
};
struct A3 {
  typedef NRLib::FFTGrid3D<double> G;
  static G* make(const int* n, const int* p, bool s) { return new G(n[0], n[1], n[2], p[0], p[1], p[2], s); }
  static void tot(const G& g, int* t) { t[0] = g.GetNItot(); t[1] = g.GetNJtot(); t[2] = g.GetNKtot(); }
  static void cn(const G& g, int* t) { t[0] = g.GetComplexNI(); t[1] = g.GetComplexNJ(); t[2] = g.GetComplexNK(); }
  static void rn(const G& g, int* t) { t[0] = g.GetRealNI(); t[1] = g.GetRealNJ(); t[2] = g.GetRealNK(); }
  static void init(G& g, const int* t, const vd& x) { NRLib::Grid<double> v(t[0], t[1], t[2]); for (int k = 0; k < t[2]; ++k) for (int j = 0; j < t[1]; ++j) for (int i = 0; i < t[0]; ++i) v(i, j, k) = x[i + (size_t)t[0] * (j + (size_t)t[1] * k)]; g.Initialize(v); }
  static double real(const G& g, int i, int j, int k) { return g.Real(i, j, k); }
  static cd cplx(const G& g, int i, int j, int k) { return g.Complex(i, j, k); }
  static vd crop(const G& g, int* s) { NRLib::Grid<double> v = g.GetRealGrid(); s[0] = v.GetNI(); s[1] = v.GetNJ(); s[2] = v.GetNK(); vd r; for (int k = 0; k < s[2]; ++k) for (int j = 0; j < s[1]; ++j) for (int i = 0; i < s[0]; ++i) r.push_back(v(i, j, k)); return r; }
};
template <class A> void grid(Case& c, const int* n, const int* p, bool scale, int seed, int dim) {
  std::unique_ptr<typename A::G> g(A::make(n, p, scale));
  int t[3], cn[3], rn[3];
  A::tot(*g, t); A::cn(*g, cn); A::rn(*g, rn);
  for (int k = 0; k < dim; ++k) {
    if (t[k] < n[k] + p[k]) return (void)c.fail("total size below size + padding");
    if (rn[k] != n[k]) return (void)c.fail("unpadded size");
    if (cn[k] != (k == 0 ? t[0] / 2 + 1 : t[k])) return (void)c.fail("half-spectrum size");
    int z = NRLib::FindNewSizeWithPadding(n[k] + p[k], k == 0);
    if (z != t[k]) return (void)c.fail("total size is not the next FFT-friendly size");
  }
  size_t nt = (size_t)t[0] * t[1] * t[2], nc = (size_t)cn[0] * cn[1] * cn[2];
  for (size_t q = 0; q < nt; ++q) if (g->RealData()[q] != 0) return (void)c.fail("real data not zero at start");
  for (size_t q = 0; q < nc; ++q) if (g->ComplexData()[q] != cd(0)) return (void)c.fail("complex data not zero at start");
  std::mt19937 rng(seed);
  std::normal_distribution<double> N;
  vd x(nt);
  for (auto& v : x) v = N(rng);
  A::init(*g, t, x);
  for (size_t q = 0; q < nt; ++q) if (g->RealData()[q] != x[q]) return (void)c.fail("Initialize: node " + std::to_string(q));
  for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i)
    if (A::real(*g, i, j, k) != x[i + (size_t)t[0] * (j + (size_t)t[1] * k)]) return (void)c.fail("Real(i,j,k)");
  g->DoFFT();
  double s = scale ? 1 / std::sqrt((double)nt) : 1, mag = std::sqrt((double)nt) * s * 10;
  std::vector<cd> F = dft(x, t);
  for (int k = 0; k < cn[2]; ++k) for (int j = 0; j < cn[1]; ++j) for (int i = 0; i < cn[0]; ++i) {
    cd want = F[i + (size_t)t[0] * (j + (size_t)t[1] * k)] * s, got = g->ComplexData()[i + (size_t)cn[0] * (j + (size_t)cn[1] * k)];
    if (!near(got, want, mag)) return (void)c.fail("forward transform at (" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + "): " + num(got.real()) + " " + num(got.imag()) + " expected " + num(want.real()) + " " + num(want.imag()));
    if (A::cplx(*g, i, j, k) != got) return (void)c.fail("Complex(i,j,k)");
  }
  g->DoInverseFFT();
  for (size_t q = 0; q < nt; ++q) if (!(std::fabs(g->RealData()[q] - x[q]) <= 1e-9)) return (void)c.fail("round trip: node " + std::to_string(q) + " " + num(g->RealData()[q]) + " expected " + num(x[q]));
  int sz[3];
  vd r = A::crop(*g, sz);
  for (int k = 0; k < 3; ++k) if (sz[k] != n[k]) return (void)c.fail("GetRealGrid: size");
  size_t q = 0;
  for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i)
    if (r[q++] != g->RealData()[i + (size_t)t[0] * (j + (size_t)t[1] * k)]) return (void)c.fail("GetRealGrid: value");
}
template <class A> void conv(Case& c, const int* n, const int* p, int seed, int kind) {
  std::unique_ptr<typename A::G> g(A::make(n, p, true)), h(A::make(n, p, false));
  int t[3];
  A::tot(*g, t);
  size_t nt = (size_t)t[0] * t[1] * t[2];
  std::mt19937 rng(seed);
  std::normal_distribution<double> N;
  vd x(nt), y(nt);
  for (auto& v : x) v = N(rng);
  for (auto& v : y) v = N(rng);
  if (kind == 1) {  // covariance filter: non-negative spectrum
    vd z(nt, 0.0);
    for (int k = 0; k < t[2]; ++k) for (int j = 0; j < t[1]; ++j) for (int i = 0; i < t[0]; ++i) {
      double a = std::min(i, t[0] - i), b = std::min(j, t[1] - j), d = std::min(k, t[2] - k);
      z[i + (size_t)t[0] * (j + (size_t)t[1] * k)] = std::exp(-2.0 * (a + b + d)) + (a + b + d == 0 ? 2.0 : 0.0);
    }
    y = z;
  }
  A::init(*g, t, x); A::init(*h, t, y);
  if (kind == 0) g->Convolve(*h); else g->ConvolveCovariance(*h);
  std::vector<cd> X = dft(x, t), Y = dft(y, t);
  if (kind == 1) for (auto& v : Y) v = std::sqrt(cd(v.real(), 0));
  std::vector<cd> Z(nt);
  for (size_t q = 0; q < nt; ++q) Z[q] = std::conj(X[q] * Y[q]);
  vd re(nt), im(nt);
  for (size_t q = 0; q < nt; ++q) { re[q] = Z[q].real(); im[q] = Z[q].imag(); }
  std::vector<cd> a = dft(re, t), b = dft(im, t);
  double mag = 1;
  for (size_t q = 0; q < nt; ++q) mag = std::max(mag, std::abs(Y[q]));
  for (size_t q = 0; q < nt; ++q) {
    double want = (a[q].real() - b[q].imag()) / (double)nt;
    double got = g->RealData()[q];
    if (!(std::fabs(got - want) <= 1e-8 * mag)) return (void)c.fail("convolution: node " + std::to_string(q) + " " + num(got) + " expected " + num(want));
  }
}
int main() {
  return run_cases([](Case& c) {
    std::string k = c.s();
    int n[3] = {1, 1, 1}, p[3] = {0, 0, 0};
    if (k == "grid" || k == "conv") {
      int dim = (int)c.i();
      for (int a = 0; a < dim; ++a) { n[a] = (int)c.i(); p[a] = (int)c.i(); }
      int s = (int)c.i(), seed = (int)c.i();
      if (k == "grid") { if (dim == 2) grid<A2>(c, n, p, s, seed, 2); else grid<A3>(c, n, p, s, seed, 3); }
      else { if (dim == 2) conv<A2>(c, n, p, seed, s); else conv<A3>(c, n, p, seed, s); }
    }
    else if (k == "nofft") {
      for (int a = 0; a < 3; ++a) { n[a] = (int)c.i(); p[a] = (int)c.i(); }
      std::mt19937 rng((int)c.i());
      std::normal_distribution<double> N;
      NRLib::FFTGrid3D<double> g(n[0], n[1], n[2], p[0], p[1], p[2], true), h(n[0], n[1], n[2], p[0], p[1], p[2], false);
      size_t nc = g.GetComplexNI() * g.GetComplexNJ() * g.GetComplexNK();
      std::vector<cd> a(nc), b(nc);
      for (size_t q = 0; q < nc; ++q) { g.ComplexData()[q] = a[q] = cd(N(rng), N(rng)); h.ComplexData()[q] = b[q] = cd(N(rng), N(rng)); }
      g.ConvolveNoFFT(h);
      for (size_t q = 0; q < nc; ++q) if (!near(g.ComplexData()[q], a[q] * b[q], 10)) return (void)c.fail("ConvolveNoFFT at " + std::to_string(q));
      NRLib::Grid<double> v(n[0], n[1], n[2]);
      for (auto& x : v) x = N(rng);
      g.InitializeConstant(3.5);
      int t[3] = {(int)g.GetNItot(), (int)g.GetNJtot(), (int)g.GetNKtot()};
      for (size_t q = 0; q < (size_t)t[0] * t[1] * t[2]; ++q) if (g.RealData()[q] != 3.5) return (void)c.fail("InitializeConstant");
      g.InitializePadZero(v);
      for (int k = 0; k < t[2]; ++k) for (int j = 0; j < t[1]; ++j) for (int i = 0; i < t[0]; ++i) {
        double want = i < n[0] && j < n[1] && k < n[2] ? v(i, j, k) : 0.0;
        size_t q = i + (size_t)t[0] * (j + (size_t)t[1] * k);
        if (g.RealData()[q] != want) return (void)c.fail("InitializePadZero");
        int ci = i ? i - t[0] : 0, cj = j ? j - t[1] : 0, ck = k ? k - t[2] : 0;
        if (&g.RealCyclic(ci, cj, ck) != g.RealData() + q || &g.RealCyclic(i, cj, k) != g.RealData() + q || &g.RealCyclic(ci, j, k) != g.RealData() + q) return (void)c.fail("RealCyclic");
      }
    }
    else if (k == "one") {
      int m = (int)c.i(), pad = (int)c.i(), s = (int)c.i(), seed = (int)c.i();
      std::mt19937 rng(seed);
      std::normal_distribution<double> N;
      vd x(m);
      for (auto& v : x) v = N(rng);
      std::vector<cd> out;
      NRLib::ComputeFFT1D(x, out, s != 0, pad);
      int tot = pad == 0 ? m : (int)NRLib::FindNewSizeWithPadding(m + (pad < 0 ? m : pad));
      if ((int)out.size() != tot) return (void)c.fail("output length " + std::to_string(out.size()));
      vd y(x);
      int pp = tot - m;
      for (int i = 0; i < pp; ++i) { double t = pp == 1 ? 1.0 : (double)i / (pp - 1); y.push_back(x[0] * t + (1 - t) * x[m - 1]); }
      int nn[3] = {tot, 1, 1};
      std::vector<cd> F = dft(y, nn);
      double sc = s ? 1 / std::sqrt((double)tot) : 1;
      for (int i = 0; i <= tot / 2; ++i) if (i < tot && !near(out[i], F[i] * sc, 10 * std::sqrt((double)tot) * sc)) return (void)c.fail("spectrum at " + std::to_string(i) + ": " + num(out[i].real()) + " expected " + num(F[i].real() * sc));
      vd r(m);
      NRLib::ComputeFFTInv1D(out, r, s != 0);
      for (int i = 0; i < m; ++i) if (!(std::fabs(r[i] - x[i]) <= 1e-9)) return (void)c.fail("round trip at " + std::to_string(i));
    }
  });
}
