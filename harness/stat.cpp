// executable specification of the summary statistics
#include "common.hpp"
#include <random>
#include <list>
#include <vector>
#include <string>
#include "nrlib/statistics/statistics.hpp"
typedef std::mt19937_64 E;
static bool missing(double x) { return x == -999.0 || x > 90.; }
struct Miss { bool operator()(double x) const { return missing(x); } };
template <class F> static double run(F f, bool& thrown) { thrown = false; try { return f(); } catch (NRLib::NoDataError&) { thrown = true; } catch (NRLib::InvalidDataError&) { thrown = true; } return 0; }
static bool eq(double a, double b) { return close(a, b, 1e-9, 1e-9); }
template <class C> static void stats(Case& c, const C& v, const std::vector<double>& w, E& e) {
  const size_t n = v.size(); std::vector<double> x(v.begin(), v.end()), p; for (double z : x) if (!missing(z)) p.push_back(z);
  const std::vector<double>* data[2] = {&x, &p}; Miss m; auto b = v.begin(), z = v.end();
  if (NRLib::Count(b, z) != (int)n || NRLib::Count(b, z, m) != (int)p.size()) c.fail("count of " + std::to_string(n));
  double sum[2], mean[2], var[2];
  for (int k = 0; k < 2; ++k) { sum[k] = 0; for (double y : *data[k]) sum[k] += y; const double q = data[k]->size(); mean[k] = q ? sum[k] / q : 0; var[k] = 0; for (double y : *data[k]) var[k] += (y - mean[k]) * (y - mean[k]); var[k] = q > 1 ? var[k] / (q - 1) : 0; }
  if (!eq(NRLib::Sum(b, z), sum[0]) || !eq(NRLib::Sum(b, z, m), sum[1])) c.fail("sum");
  for (int t = 0; t < 2; ++t) { bool th; double r;
    r = run([&] { return NRLib::Mean(b, z, t == 1); }, th); if (th != (n == 0 && t) || !eq(r, mean[0])) c.fail("mean is " + num(r) + " expected " + num(mean[0]));
    r = run([&] { return NRLib::Mean(b, z, m, t == 1); }, th); if (th != (p.empty() && t) || !eq(r, mean[1])) c.fail("mean with missing values is " + num(r) + " expected " + num(mean[1]));
    r = run([&] { return NRLib::Var(b, z, t == 1); }, th); if (th != (n == 0 && t) || !eq(r, var[0])) c.fail("variance is " + num(r) + " expected " + num(var[0]));
    r = run([&] { return NRLib::Var(b, z, m, t == 1); }, th); if (th != (p.empty() && t) || !eq(r, var[1])) c.fail("variance with missing values is " + num(r) + " expected " + num(var[1]));
    double cov = 0; bool ok = w.size() == n && n > 0; if (ok && n > 1) { double mw = 0; for (double y : w) mw += y; mw /= n; for (size_t i = 0; i < n; ++i) cov += (x[i] - mean[0]) * (w[i] - mw); cov /= n - 1.; }
    r = run([&] { return NRLib::Cov(b, z, w.begin(), w.end(), t == 1); }, th); if (th != (!ok && t) || !eq(r, cov)) c.fail("covariance of " + std::to_string(n) + " and " + std::to_string(w.size()) + " is " + num(r) + " expected " + num(cov));
    r = run([&] { return NRLib::Cov(b, z, b, z, t == 1); }, th); if (th != (n == 0 && t) || !eq(r, var[0])) c.fail("covariance with itself is " + num(r) + " expected " + num(var[0])); }
  bool th; double r = run([&] { return NRLib::Mean(v); }, th); if (th != (n == 0) || !eq(r, mean[0])) c.fail("mean of a collection"); r = run([&] { return NRLib::Mean(v, m); }, th); if (th != p.empty() || !eq(r, mean[1])) c.fail("mean of a collection with missing values");
  r = run([&] { return NRLib::Var(v); }, th); if (th != (n == 0) || !eq(r, var[0])) c.fail("variance of a collection"); r = run([&] { return NRLib::Var(v, m); }, th); if (th != p.empty() || !eq(r, var[1])) c.fail("variance of a collection with missing values");
  r = run([&] { return NRLib::Mean(b, z); }, th); if (th != (n == 0) || !eq(r, mean[0])) c.fail("mean, refusing by default"); r = run([&] { return NRLib::Mean(b, z, m); }, th); if (th != p.empty() || !eq(r, mean[1])) c.fail("mean with missing values, refusing by default");
  r = run([&] { return NRLib::Var(b, z); }, th); if (th != (n == 0) || !eq(r, var[0])) c.fail("variance, refusing by default"); r = run([&] { return NRLib::Var(b, z, m); }, th); if (th != p.empty() || !eq(r, var[1])) c.fail("variance with missing values, refusing by default");
  r = run([&] { return NRLib::Cov(b, z, w.begin(), w.end()); }, th); if (th != (n == 0 || w.size() != n)) c.fail("covariance, refusing by default");
  r = run([&] { return NRLib::Cov(v, v); }, th); if (th != (n == 0) || !eq(r, var[0])) c.fail("covariance of collections");
  auto lo = NRLib::MinElement(b, z), hi = NRLib::MaxElement(b, z); if ((lo == z) != (n == 0) || (hi == z) != (n == 0)) c.fail("extremes"); else if (n) for (double y : x) if (y < *lo || y > *hi) c.fail("extremes");
  lo = NRLib::MinElement(b, z, m); hi = NRLib::MaxElement(b, z, m); if ((lo == z) != p.empty() || (hi == z) != p.empty()) c.fail("extremes of present values"); else if (!p.empty()) { if (missing(*lo) || missing(*hi)) c.fail("extreme is missing"); for (double y : p) if (y < *lo || y > *hi) c.fail("extremes of present values"); }
}
static void one(Case& c) {
  c.s(); E e((unsigned long)c.i() * 7919 + 11); const int n = e() % 3 ? e() % 12 : e() % 3; std::vector<double> v; const int mode = e() % 3;
  auto draw = [&]() { double u = std::uniform_real_distribution<double>(-20, 20)(e); if (mode == 1) u = std::floor(u / 7); unsigned k = e() % 8; return k == 0 ? -999. : k == 1 ? 95. + u : u; };
  for (int k = 0; k < n; ++k) v.push_back(e() % 60 == 0 || mode == 2 ? (e() % 5 ? -999. : draw()) : draw()); std::vector<double> w; int k2 = e() % 4 ? n : e() % 5; for (int k = 0; k < k2; ++k) w.push_back(draw());
  stats(c, v, w, e); if (e() % 4 == 0) stats(c, std::list<double>(v.begin(), v.end()), w, e);
}
int main() { return run_cases(one); }
