// executable specification of the normal deviates: scripted uniform numbers, independent implementation
#define private public
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/random/random.hpp"
#undef private
#include "common.hpp"
#include <random>
static const int L = 380;
static void script(dsfmt_t& m, const std::vector<double>& u) {
  double* d = &m.status[0].d[0];
  for (int i = 0; i < L; ++i) d[i] = 1.0 + u[i];
  m.idx = 0;
}
struct Ran {};
static double spec(const std::vector<double>& u, size_t& k) {
  auto next = [&]() { if (k + 1 >= (size_t)L) throw Ran(); return u[k++]; };
  double a = next();
  if (a < 0.8638) { double x = next(); x += next(); x += next(); return 2 * x - 3; }
  if (a < 0.9745) { double x = next(); x += next(); return 1.5 * (x - 1); }
  if (a < 0.9973002039) for (;;) {
    double x = 6 * next() - 3, y = next(), ax = std::fabs(x);
    // residual of the standard normal density after the first two parts
    double f1 = ax < 1 ? (3 - x * x) / 8 : (3 - ax) * (3 - ax) / 16, f2 = ax < 1.5 ? 4.0 / 9 * (1.5 - ax) : 0;
    double g = (0.3989422804014327 * std::exp(-x * x / 2) - 0.8638 * f1 - (0.9745 - 0.8638) * f2) / (0.9973002039 - 0.9745);
    if (std::fabs(0.358 * y - g) < 1e-5) throw Ran();   // too close to the acceptance boundary for a comparison
    if (0.358 * y <= g) return x;
  }
  for (;;) {
    double v1 = 2 * next() - 1, v2 = 2 * next() - 1, w = v1 * v1 + v2 * v2;
    if (w >= 1 || w == 0) continue;
    double c = std::sqrt((9 - 2 * std::log(w)) / w);
    if (std::fabs(std::fabs(c * v1) - 3) < 1e-9 || std::fabs(std::fabs(c * v2) - 3) < 1e-9) throw Ran();
    if (std::fabs(c * v1) > 3) return c * v1;
    if (std::fabs(c * v2) > 3) return c * v2;
  }
}
int main() {
  return run_cases([](Case& c) {
    std::string kind = c.s();
    if (kind == "script") {
      std::string which = c.s();
      unsigned seed = (unsigned)c.i();
      std::mt19937_64 r(seed);
      std::vector<double> u(L);
      for (auto& x : u) x = (r() >> 12) * 0x1p-52;
      std::string s;
      size_t n = 0;
      while ((c.in >> s) && n < (size_t)L) u[n++] = std::strtod(s.c_str(), nullptr);
      size_t k = 0;
      double want;
      try { want = spec(u, k); } catch (Ran&) { return; }
      double got; int used;
      if (which == "object") { NRLib::RandomGenerator g(1); script(g.dsfmt, u); got = g.Norm01(); used = g.dsfmt.idx; }
      else { NRLib::Random::Initialize(1); script(dsfmt_global_data, u); got = NRLib::Random::Norm01(); used = dsfmt_global_data.idx; }
      if (!close(got, want, 1e-9, 1e-12)) return (void)c.fail("deviate " + num(got) + ", expected " + num(want));
      if (used != (int)k) return (void)c.fail("uses " + std::to_string(used) + " uniform numbers, expected " + std::to_string(k));
    }
    else if (kind == "same") {     // both implementations on the same stream
      unsigned long seed = (unsigned long)c.i();
      long n = c.i();
      NRLib::RandomGenerator g(seed);
      NRLib::Random::Initialize(seed);
      for (long q = 0; q < n; ++q) {
        double a = g.Norm01(), b = NRLib::Random::Norm01();
        if (a != b) return (void)c.fail("deviate " + std::to_string(q) + " differs between the global and the object generator");
        if (!std::isfinite(a)) return (void)c.fail("deviate " + std::to_string(q) + " is not finite");
      }
    }
  });
}
