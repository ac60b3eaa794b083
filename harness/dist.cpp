// executable specification of the probability distributions
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/random/uniform.hpp"
#include "nrlib/random/splituniform.hpp"
#include "nrlib/random/triangular.hpp"
#include "nrlib/random/delta.hpp"
#include "nrlib/random/normal.hpp"
#include "nrlib/random/lognormal.hpp"
#include "nrlib/random/fractal.hpp"
#include "nrlib/random/chisquared.hpp"
#include "nrlib/random/beta.hpp"
#include "nrlib/random/betawithendmass.hpp"
#include "nrlib/random/generaldiscrete.hpp"
#include "nrlib/random/binomial.hpp"
#include "nrlib/random/poisson.hpp"
#include "nrlib/random/functions.hpp"
#include "nrlib/random/gamma.hpp"
#include "common.hpp"
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/binomial.hpp>
#include <boost/math/distributions/poisson.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <memory>
#include <random>
using namespace NRLib;
typedef std::vector<double> Vec;
typedef std::unique_ptr<Distribution<double>> Dp;
static const double pi = 3.14159265358979323846;

struct Ref {                                   // density (NaN where it is not pinned), cumulative probability, quantile
  std::function<double(double)> pdf, cdf, quant;
  std::vector<double> marks;
  bool ends, deviate, loose;
};
static double phi(double z) { return std::erfc(-z / std::sqrt(2.0)) / 2; }

static Ref ref(const std::string& k, const Vec& v) {
  Ref r; r.ends = true; r.deviate = r.loose = false; r.marks = v;
  const double N = std::nan("");
  if (k == "Uniform") {
    double a = v[0], b = v[1];
    r.pdf = [=](double x) { return x == a || x == b ? N : x < a || x > b ? 0.0 : 1 / (b - a); };
    r.cdf = [=](double x) { return x <= a ? 0.0 : x >= b ? 1.0 : (x - a) / (b - a); };
    r.quant = [=](double p) { return a + p * (b - a); };
  } else if (k == "SplitUniform") {
    double a = v[0], m = v[1], b = v[2];
    r.pdf = [=](double x) { return x == a || x == b || x == m ? N : x < a || x > b ? 0.0 : x < m ? .5 / (m - a) : .5 / (b - m); };
    r.cdf = [=](double x) { return x <= a ? 0.0 : x >= b ? 1.0 : x <= m ? .5 * (x - a) / (m - a) : .5 + .5 * (x - m) / (b - m); };
    r.quant = [=](double p) { return p <= .5 ? a + 2 * p * (m - a) : m + (2 * p - 1) * (b - m); };
  } else if (k == "Triangular") {
    double a = v[0], m = v[1], b = v[2];
    r.pdf = [=](double x) { return x == a || x == b ? N : x < a || x > b ? 0.0 : x == m ? 2 / (b - a) : x < m ? 2 * (x - a) / (m - a) / (b - a) : 2 * (b - x) / (b - m) / (b - a); };
    r.cdf = [=](double x) { return x <= a ? 0.0 : x >= b ? 1.0 : x <= m ? (x - a) / (m - a) * ((x - a) / (b - a)) : 1 - (b - x) / (b - m) * ((b - x) / (b - a)); };
    r.quant = [=](double p) { double p0 = (m - a) / (b - a); return p <= p0 ? a + std::sqrt(p * (m - a) * (b - a)) : b - std::sqrt((1 - p) * (b - m) * (b - a)); };
    r.loose = true;
  } else if (k == "Delta") {
    double a = v[0];
    r.pdf = [=](double x) { return x == a ? N : 0.0; };
    r.cdf = [=](double x) { return x < a ? 0.0 : 1.0; };
    r.quant = [=](double) { return a; };
  } else if (k == "Normal") {
    double m = v[0], s = v[1];
    r.pdf = [=](double x) { double z = (x - m) / s; return std::exp(-z * z / 2) / std::sqrt(2 * pi) / s; };
    r.cdf = [=](double x) { return phi((x - m) / s); };
    r.quant = [=](double p) { return m - s * std::sqrt(2.0) * boost::math::erfc_inv(2 * p); };
    r.ends = false; r.deviate = true; r.marks = {m - s, m, m + 3 * s};
  } else if (k == "LogNormal") {
    double m = v[0], s = v[1];
    r.pdf = [=](double x) { if (x < 0) return 0.0; if (x == 0) return 0.0; double z = (std::log(x) - m) / s; return std::exp(-z * z / 2) / std::sqrt(2 * pi) / s / x; };
    r.cdf = [=](double x) { return x <= 0 ? 0.0 : phi((std::log(x) - m) / s); };
    r.quant = [=](double p) { return std::exp(m - s * std::sqrt(2.0) * boost::math::erfc_inv(2 * p)); };
    r.ends = false; r.deviate = true; r.marks = {0, -1, std::exp(m), std::exp(m - s), std::exp(m + s)};
  } else if (k == "Fractal") {
    double a = v[0], b = v[1], d = v[2], A = std::pow(a, -d), B = std::pow(b, -d);
    r.pdf = [=](double x) { return x == a || x == b ? N : x < a || x > b ? 0.0 : d * std::pow(x, -d - 1) / (A - B); };
    r.cdf = [=](double x) { return x <= a ? 0.0 : x >= b ? 1.0 : (A - std::pow(x, -d)) / (A - B); };
    r.quant = [=](double p) { return std::pow(A - p * (A - B), -1 / d); };
    r.marks = {a, b, (a + b) / 2};
  } else if (k == "ChiSquared") {
    double n = v[0];
    r.pdf = [=](double x) { return x < 0 ? 0.0 : x == 0 ? (n == 2 ? .5 : n > 2 ? 0.0 : N) : boost::math::pdf(boost::math::chi_squared(n), x); };
    r.cdf = [=](double x) { return x <= 0 ? 0.0 : boost::math::cdf(boost::math::chi_squared(n), x); };
    r.quant = [=](double p) { return boost::math::quantile(boost::math::chi_squared(n), p); };
    r.ends = false; r.loose = true; r.marks = {0, n, n / 2, 2 * n, -1};
  }
  return r;
}
static int npar(const std::string& k) { return k == "Delta" || k == "ChiSquared" ? 1 : k == "Uniform" || k == "Normal" || k == "LogNormal" ? 2 : 3; }
static void setp(Distribution<double>* d, const Vec& v) {
  if (auto* o = dynamic_cast<Uniform*>(d)) o->SetParameters(v[0], v[1]);
  else if (auto* o = dynamic_cast<SplitUniform*>(d)) o->SetParameters(v[0], v[1], v[2]);
  else if (auto* o = dynamic_cast<Triangular*>(d)) o->SetParameters(v[0], v[1], v[2]);
  else if (auto* o = dynamic_cast<Delta*>(d)) o->SetParameters(v[0]);
  else if (auto* o = dynamic_cast<Normal*>(d)) o->SetParameters(v[0], v[1]);
  else if (auto* o = dynamic_cast<LogNormal*>(d)) o->SetParameters(v[0], v[1]);
}
static Distribution<double>* make(const std::string& k, const Vec* v) {
  if (k == "Uniform") return v ? new Uniform((*v)[0], (*v)[1]) : new Uniform();
  if (k == "SplitUniform") return v ? new SplitUniform((*v)[0], (*v)[1], (*v)[2]) : new SplitUniform();
  if (k == "Triangular") return v ? new Triangular((*v)[0], (*v)[1], (*v)[2]) : new Triangular();
  if (k == "Delta") return v ? new Delta((*v)[0]) : new Delta();
  if (k == "Normal") return v ? new Normal((*v)[0], (*v)[1]) : new Normal();
  if (k == "LogNormal") return v ? new LogNormal((*v)[0], (*v)[1]) : new LogNormal();
  if (k == "Fractal") return new Fractal((*v)[0], (*v)[1], (*v)[2]);
  return new ChiSquared((*v)[0]);
}
static Vec defaults(const std::string& k) {
  if (k == "SplitUniform") return {0, .5, 1};
  if (k == "Triangular") return {-1, 0, 1};
  if (k == "Delta") return {0};
  return {0, 1};
}
static bool valid(const std::string& k, const Vec& v) {
  for (double x : v) if (!std::isfinite(x)) return false;
  if (k == "Uniform") return v[0] < v[1];
  if (k == "SplitUniform") return v[0] < v[1] && v[1] < v[2];
  if (k == "Triangular") return v[0] <= v[1] && v[1] <= v[2] && v[0] < v[2];
  if (k == "Delta") return true;
  if (k == "Normal" || k == "LogNormal") return v[1] > 0;
  if (k == "Fractal") return v[0] > 0 && v[0] < v[1] && v[2] > 0;
  return v[0] > 0;
}
typedef std::mt19937_64 G;
static double U(G& g, double a = 0, double b = 1) { return a + (b - a) * std::uniform_real_distribution<double>()(g); }
static Vec rnd(const std::string& k, G& g) {
  double s = std::pow(10.0, U(g, -3, 3)), a = U(g, -2, 2) * s, b = a + U(g, .1, 2) * s, c = b + U(g, .1, 2) * s;
  if (g() % 4 == 0) { a = double(int(U(g, -3, 3))); b = a + 1; c = b + 1 + int(U(g, 0, 2)); }
  if (k == "Uniform") return {a, b};
  if (k == "SplitUniform") return {a, b, c};
  if (k == "Triangular") { int z = g() % 5; return {a, z == 0 ? a : z == 1 ? c : b, c}; }
  if (k == "Delta") return {a};
  if (k == "Normal") return {a, c - a};
  if (k == "LogNormal") return {U(g, -2, 2), U(g, .1, 1.5)};
  if (k == "Fractal") { double m = U(g, .01, 5); return {m, m * U(g, 1.2, 50), U(g, .3, 4)}; }
  if (g() % 3 == 0) return {double(1 + g() % 40)};
  return {U(g, .6, 150)};
}

static void look(Case& c, Distribution<double>* d, const std::string& k, const Vec& v, Vec xs, Vec ps, unsigned long seed) {
  Ref r = ref(k, v);
  double span = npar(k) > 1 && k != "Normal" && k != "LogNormal" && k != "Fractal" ? v.back() - v[0] : 1;
  for (double m : r.marks) { xs.push_back(m); xs.push_back(m + 1e-3 * span); xs.push_back(m - 1e-3 * span); xs.push_back(m + span * .4); }
  double scale = 0;
  for (double a : v) scale = std::max(scale, std::fabs(a));
  for (double x : xs) {
    double p = d->Pdf(x), want = r.pdf(x), rel = r.loose ? 1e-6 : 1e-9, near = 1e-9 * (1 + scale);
    bool edge = false;                        // rounding moves the edge of a piece
    if (k == "Uniform" || k == "SplitUniform" || k == "Triangular") for (double m : r.marks) edge = edge || (x != m && std::fabs(x - m) < near);
    if (edge) continue;
    if (!(p >= 0)) { c.fail("density " + num(p) + " at " + num(x)); return; }
    if (!std::isnan(want) && !close(p, want, rel, 1e-300 + (r.loose ? 1e-9 : 0))) { c.fail("density " + num(p) + " at " + num(x) + ", not " + num(want)); return; }
    double f = d->Cdf(x);
    if (!close(f, r.cdf(x), 1e-8, r.loose ? 1e-8 : 1e-10)) { c.fail("cumulative probability " + num(f) + " at " + num(x) + ", not " + num(r.cdf(x))); return; }
  }
  if (r.ends) { ps.push_back(0); ps.push_back(1); }
  ps.push_back(.5); ps.push_back(.25); ps.push_back(.9);
  for (double p : ps) {
    double y = d->Quantile(p), want = r.quant(p);
    if (!close(y, want, r.loose ? 1e-5 : 1e-8, (k == "Fractal" || k == "ChiSquared" || k == "LogNormal" ? 1e-12 : 1e-8 * std::max(scale, 1e-300)))) { c.fail("quantile " + num(y) + " of " + num(p) + ", not " + num(want)); return; }
  }
  Random::Initialize(seed);
  double n0 = r.deviate ? Random::Norm01() : Random::Unif01(), n1 = Random::Unif01();
  Random::Initialize(seed);
  double y = d->Draw(), u1 = Random::Unif01();
  auto wants = [&](double n) { return k == "Normal" ? v[0] + v[1] * n : k == "LogNormal" ? std::exp(v[0] + v[1] * n) : n == 0 && !r.ends ? y : r.quant(n); };
  if (!close(y, wants(n0), r.loose ? 1e-5 : 1e-8, 1e-8 * (1e-300 + scale))) { c.fail("draw " + num(y) + ", not " + num(wants(n0))); return; }
  if (u1 != n1) { c.fail("a draw takes one number of the global generator"); return; }
  RandomGenerator a, b;
  a.Initialize(seed + 1); b.Initialize(seed + 1);
  n0 = r.deviate ? a.Norm01() : a.Unif01(); n1 = a.Unif01();
  y = d->Draw(b);
  if (!close(y, wants(n0), r.loose ? 1e-5 : 1e-8, 1e-8 * (1e-300 + scale))) { c.fail("draw from an object " + num(y) + ", not " + num(wants(n0))); return; }
  if (b.Unif01() != n1) { c.fail("a draw takes one number of the generator given"); return; }
}

static void smooth(Case& c, const std::string& k, const std::string& how, Vec v, const Vec& old, double x, double p, unsigned long seed) {
  Dp d, e;
  if (how == "default") { v = defaults(k); d.reset(make(k, nullptr)); }
  else if (how == "set") { d.reset(make(k, &old)); setp(d.get(), v); }
  else d.reset(make(k, &v));
  if (how == "clone") { e.reset(d->Clone()); setp(d.get(), old); std::swap(d, e); }
  look(c, d.get(), k, v, {x}, p > 0 && p < 1 ? Vec{p} : Vec(), seed);
}

template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

static void truncated(Case& c, G& g) {
  double mu = U(g, -5, 5), sd = U(g, .05, 3), lo = mu + sd * U(g, -4, 4), hi = lo + sd * U(g, .01, 4);
  const double lo0 = lo, hi0 = hi;
  switch (g() % 8) { case 0: lo = mu + sd * U(g, 9, 40); hi = lo + sd * U(g, .01, 4); break; case 1: hi = mu - sd * U(g, 9, 40); lo = hi - sd * U(g, .01, 4); break; case 2: hi = lo + sd * 1e-14; break; case 3: hi = lo; }   // windows with no probability left
  unsigned long seed = g() % 1000000;
  Normal n(mu, sd);
  for (int k = 0; k < 5; ++k) {
    Random::Initialize(seed + k);
    RandomGenerator a; a.Initialize(seed + k);
    double y = n.DrawLowerTruncated(lo), y2 = n.DrawLowerTruncated(lo, a);
    if (!(y >= lo - 1e-12 * (1 + std::fabs(lo))) || !std::isfinite(y)) { c.fail("lower truncated draw " + num(y) + " below " + num(lo)); return; }
    if (y != y2) { c.fail("lower truncated draw depends on the kind of generator"); return; }
    Random::Initialize(seed + k); a.Initialize(seed + k);
    double u = Random::Unif01Open(); Random::Initialize(seed + k);
    double F = n.Cdf(lo), want = F < .999 ? n.Quantile(F + u * (1 - F)) : 0;
    y = n.DrawLowerTruncated(lo);
    if (F < .999 && std::fabs(n.Cdf(y) - (F + u * (1 - F))) > 1e-6) { c.fail("lower truncated draw " + num(y) + ", not " + num(want)); return; }
    Random::Initialize(seed + k);
    y = n.DrawUpperTruncated(hi); y2 = n.DrawUpperTruncated(hi, a);
    if (!(y <= hi + 1e-12 * (1 + std::fabs(hi))) || !std::isfinite(y)) { c.fail("upper truncated draw " + num(y) + " above " + num(hi)); return; }
    if (y != y2) { c.fail("upper truncated draw depends on the kind of generator"); return; }
    Random::Initialize(seed + k); a.Initialize(seed + k);
    double G_ = 1 - n.Cdf(hi);
    if (G_ < .999 && std::fabs((1 - n.Cdf(y)) - (G_ + u * (1 - G_))) > 1e-6) { c.fail("upper truncated draw " + num(y)); return; }
    y = n.DrawTwoSidedTruncated(lo, hi); y2 = n.DrawTwoSidedTruncated(lo, hi, a);
    if (!(y >= lo - 1e-12 * (1 + std::fabs(lo)) && y <= hi + 1e-12 * (1 + std::fabs(hi)))) { c.fail("two-sided truncated draw " + num(y) + " outside " + num(lo) + " " + num(hi)); return; }
    if (y != y2) { c.fail("two-sided truncated draw depends on the kind of generator"); return; }
    double H = n.Cdf(hi);
    if (H - F > 1e-3 && std::fabs(n.Cdf(y) - (F + u * (H - F))) > 1e-6) { c.fail("two-sided truncated draw " + num(y)); return; }
  }
  Normal z(mu, 0);
  RandomGenerator a; a.Initialize(seed);
  if (!throws([&] { z.DrawLowerTruncated(mu + 1); }) || !throws([&] { z.DrawUpperTruncated(mu - 1); }) || !throws([&] { z.DrawTwoSidedTruncated(mu + 1, mu + 2); }) ||
      !throws([&] { n.DrawTwoSidedTruncated(1, 0); }) || !throws([&] { n.DrawTwoSidedTruncated(1, 0, a); }) || !throws([&] { z.DrawLowerTruncated(mu + 1, a); }) || !throws([&] { z.DrawUpperTruncated(mu - 1, a); }))
    { c.fail("impossible truncation accepted"); return; }
  if (z.DrawLowerTruncated(mu - 1) != mu || z.DrawUpperTruncated(mu + 1) != mu || z.DrawTwoSidedTruncated(mu - 1, mu + 1) != mu) { c.fail("draw without variance is not the mean"); return; }
  double p = U(g, .0001, .9999), y = n.PhiInverse(p);
  if (std::fabs(n.Cdf(y) - p) > 1e-7) { c.fail("PhiInverse(" + num(p) + ") = " + num(y)); return; }
  if (!close(Normal::Quantile01(p), -std::sqrt(2.0) * boost::math::erfc_inv(2 * p), 1e-8, 1e-10)) { c.fail("Quantile01"); return; }
  lo = lo0; hi = hi0;
  double x = U(g, lo, hi), S = n.Cdf(hi) - n.Cdf(lo);
  if (!close(n.Potential(x), -std::log(n.Pdf(x)), 1e-8, 1e-8)) { c.fail("Potential is not minus the logarithm of the density"); return; }
  if (S > 1e-4 && !close(n.PotentialTwoSidedTruncated(x, lo, hi), -std::log(n.Pdf(x) / S), 1e-8, 1e-8)) { c.fail("PotentialTwoSidedTruncated"); return; }
  double ax = std::fabs(x) + .1, S0 = 1 - n.Cdf(0), S1 = 1 - n.Cdf(lo);
  if (S0 > 1e-4 && !close(n.PotentialZeroTruncated(ax), -std::log(n.Pdf(ax) / S0), 1e-8, 1e-8)) { c.fail("PotentialZeroTruncated"); return; }
  if (S1 > 1e-4 && !close(n.PotentialLowerTruncated(ax, lo), -std::log(n.Pdf(ax) / S1), 1e-8, 1e-8)) { c.fail("PotentialLowerTruncated"); return; }
}

template <class D_> static void discrete_quantile(Case& c, const D_& d, int last, double p) {
  int y = d.Quantile(p);
  if (y < 0 || y > last) { c.fail("quantile " + num(y) + " of " + num(p) + " is no outcome"); return; }
  if (y > 0 && !(d.Cdf(y - 1) < p)) { c.fail("quantile " + num(y) + " of " + num(p) + " is too large"); return; }
  if (y < last && !(d.Cdf(y) >= p)) { c.fail("quantile " + num(y) + " of " + num(p) + " is too small"); return; }
}

static void general(Case& c, G& g) {
  size_t n = 1 + g() % 12;
  if (g() % 6 == 0) n = 200;
  Vec h(n);
  double s = 0;
  for (auto& x : h) { x = g() % 4 == 0 ? 0 : g() % 2 ? .1 : U(g, 0, 5); s += x; }
  if (s == 0) { h[g() % n] = 2; s = 2; }
  GeneralDiscrete d0(h);
  std::unique_ptr<Distribution<int>> cl(d0.Clone());
  GeneralDiscrete d = d0;
  if (d.GetN() != n) { c.fail("number of outcomes"); return; }
  double cum = 0;
  for (size_t i = 0; i < n; ++i) {
    cum += h[i] / s;
    if (!close(d.Pdf(i), h[i] / s) || !close(d.Cdf(i), cum, 1e-9, 1e-9) || cl->Pdf(i) != d.Pdf(i) || cl->Cdf(i) != d.Cdf(i)) { c.fail("probability of outcome " + num(i)); return; }
    if (d.Pdf(i) > 1e-9 && d.Quantile(d.Cdf(i)) != int(i)) { c.fail("quantile is not the inverse at outcome " + num(i)); return; }
  }
  for (double p : {0.0, 1.0, U(g), U(g), std::nextafter(1.0, 0.0)}) { discrete_quantile(c, d, int(n) - 1, p); if (cl->Quantile(p) != d.Quantile(p)) c.fail("clone"); if (!c.ok()) return; }
  unsigned long seed = g() % 100000;
  Random::Initialize(seed); double u = Random::Unif01(); Random::Initialize(seed);
  RandomGenerator a; a.Initialize(seed);
  if (d.Draw() != d.Quantile(u) || d.Draw(a) != d.Quantile(u)) c.fail("draw");
}

static void binomial(Case& c, G& g) {
  int n = g() % 60;
  double p = g() % 8 == 0 ? double(g() % 2) : g() % 4 == 0 ? .5 : U(g, .02, .98);
  Binomial b(n, p);
  std::unique_ptr<Distribution<int>> cl(b.Clone());
  boost::math::binomial_distribution<> w(n, p);
  for (int x = -2; x <= n + 2; ++x) {
    double f = x < 0 || x > n ? 0 : p == 0 ? x == 0 : p == 1 ? x == n : boost::math::pdf(w, x), F = x < 0 ? 0 : x >= n ? 1 : p == 0 ? 1 : p == 1 ? 0 : boost::math::cdf(w, x);
    if (!close(b.Pdf(x), f, 1e-7, 1e-12) || !close(b.Cdf(x), F, 1e-7, 1e-9)) { c.fail("probability of " + num(x) + " of " + num(n) + ": " + num(b.Pdf(x)) + " " + num(b.Cdf(x)) + ", not " + num(f) + " " + num(F)); return; }
    if (x >= 0 && x <= n && f > 1e-9 && b.Quantile(std::min(1.0, b.Cdf(x))) != x && b.Cdf(x) <= 1) { c.fail("quantile is not the inverse at " + num(x)); return; }
  }
  for (double q : {0.0, 1.0, U(g), U(g), U(g)}) { discrete_quantile(c, b, n, q); if (cl->Quantile(q) != b.Quantile(q)) c.fail("clone"); if (!c.ok()) return; }
  unsigned long seed = g() % 100000;
  Random::Initialize(seed); double u = Random::Unif01(); Random::Initialize(seed);
  RandomGenerator a; a.Initialize(seed);
  if (b.Draw() != b.Quantile(u) || b.Draw(a) != b.Quantile(u)) c.fail("draw");
}

static void poisson(Case& c, G& g) {
  double l = g() % 2 ? U(g, .05, 9.99) : U(g, 10, 150);
  Poisson b(l);
  std::unique_ptr<Distribution<int>> cl(b.Clone());
  boost::math::poisson_distribution<> w(l);
  int last = int(l + 20 * std::sqrt(l) + 20);
  for (int x = -1; x <= last; ++x) {
    double f = x < 0 ? 0 : boost::math::pdf(w, x), F = x < 0 ? 0 : boost::math::cdf(w, x);
    if (!close(b.Pdf(x), f, 1e-8, 1e-13) || !close(b.Cdf(x), F, 1e-7, 1e-8) || cl->Pdf(x) != b.Pdf(x) || cl->Cdf(x) != b.Cdf(x)) { c.fail("probability of " + num(x) + ": " + num(b.Pdf(x)) + " " + num(b.Cdf(x)) + ", not " + num(f) + " " + num(F)); return; }
    if (x >= 0 && f > 1e-6 && F < .999 && std::abs(b.Quantile(b.Cdf(x)) - x) > 0) { c.fail("quantile is not the inverse at " + num(x)); return; }
  }
  for (double q : {0.0, .999, U(g), U(g)}) { discrete_quantile(c, b, 100000, q); if (!c.ok()) return; }
  unsigned long seed = g() % 100000;
  Random::Initialize(seed);
  RandomGenerator a; a.Initialize(seed);
  double s = 0, s2 = 0;
  int m = 3000;
  for (int k = 0; k < m; ++k) {
    int y = b.Draw();
    if (y < 0) { c.fail("negative draw"); return; }
    if (b.Draw(a) != y) { c.fail("draw depends on the kind of generator"); return; }
    s += y; s2 += (y - l) * (y - l);
  }
  if (std::fabs(s / m - l) > 6 * std::sqrt(l / m)) { c.fail("mean of the draws " + num(s / m)); return; }
  if (std::fabs(s2 / m / l - 1) > 7 * std::sqrt((2 + 1 / l) / m)) { c.fail("variance of the draws " + num(s2 / m)); return; }
  if (l < 10) {
    Random::Initialize(seed); double u = Random::Unif01(), F = 0; Random::Initialize(seed);
    int y = b.Draw();
    if (!(boost::math::cdf(w, y) >= u - 1e-9) || (y > 0 && !(boost::math::cdf(w, y - 1) <= u + 1e-9))) { c.fail("draw is not the quantile of the uniform number"); return; }
  }
}

static void beta(Case& c, G& g) {
  double lo = U(g, -3, 3), hi = lo + U(g, .2, 4), A = U(g, .5, 6), B = U(g, .5, 6);
  int nx = g() % 3 ? 20 + g() % 300 : 200;
  Beta b = nx == 200 ? Beta(lo, hi, A, B) : Beta(lo, hi, A, B, nx);
  std::unique_ptr<Distribution<double>> cl(b.Clone());
  if (b.GetMinVal() != lo || b.GetMaxVal() != hi || !close(b.GetInterval(), hi - lo)) { c.fail("limits"); return; }
  Vec f(nx), F(nx + 1);
  double s = 0, dx = (hi - lo) / nx;
  for (int i = 0; i < nx; ++i) { double x = (i + .5) / nx; f[i] = std::pow(x, A - 1) * std::pow(1 - x, B - 1); s += f[i]; }
  for (int i = 0; i < nx; ++i) F[i + 1] = F[i] + f[i] / s;
  double pm = 0, p2 = 0;
  if (g() % 2) { pm = U(g, 0, .5); p2 = U(g, 0, .5); }
  BetaWithEndMass e(lo, hi, pm, p2, A, B, nx);
  double mid = 1 - pm - p2;
  if (e.GetMinVal() != lo || e.GetMaxVal() != hi || !close(e.GetInterval(), hi - lo)) { c.fail("limits"); return; }
  for (int t = 0; t < 40; ++t) {
    double y = U(g, .001, nx - .001);
    if (std::fabs(y - std::round(y)) < 1e-3) continue;
    int i = int(y);
    double x = lo + y * dx, P = f[i] / s / dx, C = F[i] + (y - i) * (F[i + 1] - F[i]);
    if (!close(b.Pdf(x), P, 1e-7)) { c.fail("density " + num(b.Pdf(x)) + " in cell " + num(y) + ", not " + num(P)); return; }
    if (!close(b.Cdf(x), C, 1e-7, 1e-9)) { c.fail("cumulative probability " + num(b.Cdf(x)) + ", not " + num(C)); return; }
    if (cl->Pdf(x) != b.Pdf(x) || cl->Cdf(x) != b.Cdf(x) || cl->Quantile(C) != b.Quantile(C)) { c.fail("clone"); return; }
    if (!close(e.Pdf(x), mid * P, 1e-7) || !close(e.Cdf(x), pm + mid * C, 1e-7, 1e-9)) { c.fail("distribution with end masses at " + num(x)); return; }
  }
  if (b.Pdf(lo - .1) != 0 || b.Pdf(hi + .1) != 0 || b.Cdf(lo) != 0 || b.Cdf(hi) != 1 || b.Cdf(lo - 1) != 0 || b.Cdf(hi + 1) != 1 || b.Quantile(0) != lo || b.Quantile(1) != hi) { c.fail("ends"); return; }
  if (e.Pdf(lo - .1) != 0 || e.Pdf(hi + .1) != 0 || e.Cdf(lo - 1) != 0 || e.Cdf(hi) != 1 || e.Cdf(hi + 1) != 1 || e.Quantile(0) != lo || e.Quantile(1) != hi || !close(e.Cdf(lo), pm, 1e-9, 1e-12)) { c.fail("ends with masses"); return; }
  if (pm > 0 && (e.Quantile(pm * .99) != lo || e.Quantile(1 - p2 * .99) != hi)) { c.fail("end masses"); return; }
  double last = lo;
  for (int k = 1; k < nx; ++k) {              // at the nodes of its table the quantile is the inverse
    double p = double(k) / nx, x = b.Quantile(p + 1e-13);
    if (x < last - 1e-9) { c.fail("quantile decreases"); return; }
    last = x;
    if (std::fabs(b.Cdf(x) - p) > 1e-6) { c.fail("Cdf(Quantile(" + num(p) + ")) = " + num(b.Cdf(x))); return; }
    double xe = e.Quantile(pm + mid * p + 1e-13);
    if (mid > .01 && std::fabs(xe - x) > 1e-6 * (hi - lo) * nx) { c.fail("quantile with end masses " + num(xe) + ", not " + num(x)); return; }
    double q2 = p + .37 / nx, xa = b.Quantile(p + 1e-13), xb = k + 1 < nx ? b.Quantile(double(k + 1) / nx + 1e-13) : hi;
    if (k + 1 < nx && !close(b.Quantile(q2), .63 * xa + .37 * xb, 1e-6, 1e-6)) { c.fail("quantile between the nodes of its table"); return; }
  }
}

static void fractal(Case& c, G& g) {
  Vec v = rnd("Fractal", g);
  Fractal f(v[0], v[1], v[2]);
  if (f.GetMin() != v[0]) { c.fail("minimum"); return; }
  double a = U(g, 0, .6), b = a + U(g, .05, .4);
  unsigned long seed = g() % 100000;
  Random::Initialize(seed); double u = Random::Unif01();
  Random::Initialize(seed); double y = f.DrawFromUpperQuantile(a);
  if (!close(f.Cdf(y), 1 - u * (1 - a), 1e-8, 1e-8)) { c.fail("draw above a quantile"); return; }
  double lim = v[0] * U(g, 1.01, 1.15);
  Random::Initialize(seed); y = f.DrawFromUpperQuantile(0, true, lim);
  if (y < lim * (1 - 1e-9)) { c.fail("draw below the limit"); return; }
  if (!close(f.Cdf(y), 1 - u * (1 - f.Cdf(lim)), 1e-8, 1e-8)) { c.fail("draw above a limit"); return; }
  Random::Initialize(seed); y = f.DrawFromLowerQuantile(b);
  if (!close(f.Cdf(y), u * b, 1e-8, 1e-8)) { c.fail("draw below a quantile"); return; }
  Random::Initialize(seed); y = f.DrawFromMiddleQuantile(a, b);
  if (!close(f.Cdf(y), a + u * (b - a), 1e-8, 1e-8)) c.fail("draw between quantiles");
}

static void special(Case& c, G& g) {
  double z = g() % 2 ? U(g, -4, 4) : std::pow(10.0, U(g, -8, 1)), t = U(g, 1e-6, 1.999999), a = std::pow(10.0, U(g, -1, 2.5)), x = a * std::pow(10.0, U(g, -1, .6));
  if (!close(NRLib::erf(z), std::erf(z), 1e-10, 1e-14) || !close(NRLib::erfc(z), std::erfc(z), 1e-9, 1e-300)) { c.fail("error function at " + num(z)); return; }
  if (!close(NRLib::erfc_inv(t), boost::math::erfc_inv(t), 1e-8, 1e-10)) { c.fail("inverse complementary error function at " + num(t)); return; }
  if (!close(NRLib::erf_inv(t - 1), boost::math::erf_inv(t - 1), 1e-8, 1e-10)) { c.fail("inverse error function at " + num(t - 1)); return; }
  if (!throws([] { NRLib::erfc_inv(0); }) || !throws([] { NRLib::erfc_inv(2); }) || !throws([] { NRLib::erf_inv(1); }) || !throws([] { NRLib::erf_inv(-1); })) { c.fail("infinite value accepted"); return; }
  if (!close(gammln(a), std::lgamma(a), 1e-9, 1e-9)) { c.fail("gammln at " + num(a)); return; }
  if (!close(gammp(a, x), boost::math::gamma_p(a, x), 1e-7, 1e-9)) { c.fail("gammp at " + num(a) + " " + num(x)); return; }
  int n = g() % 60, k = n ? g() % (n + 1) : 0;
  double w = std::round(std::exp(std::lgamma(n + 1) - std::lgamma(k + 1) - std::lgamma(n - k + 1)));
  if (!close(bico(n, k), w, 1e-9)) { c.fail("bico " + num(n) + " " + num(k)); return; }
}

int main() {
  return run_cases([](Case& c) {
    std::string k = c.s();
    if (k == "at") {                          // at CLASS HOW parameters old-parameters x p
      std::string cls = c.s(), how = c.s();
      Vec v(npar(cls)), o(npar(cls));
      for (auto& x : v) x = c.d();
      for (auto& x : o) x = c.d();
      double x = c.d(), p = c.d();
      if (!valid(cls, v) || !valid(cls, o) || !std::isfinite(x)) return;
      smooth(c, cls, how, v, o, x, p, 7);
      return;
    }
    G g(c.i());
    if (k == "truncated") truncated(c, g);
    else if (k == "general") general(c, g);
    else if (k == "binomial") binomial(c, g);
    else if (k == "poisson") poisson(c, g);
    else if (k == "beta") beta(c, g);
    else if (k == "fractal") fractal(c, g);
    else if (k == "special") special(c, g);
    else {
      Vec v = rnd(k, g), o = rnd(k, g);
      static const char* H[] = {"constructed", "clone", "set", "default"};
      std::string how = H[g() % (k == "Fractal" || k == "ChiSquared" ? 2 : 4)];
      Vec w = how == "default" ? defaults(k) : v;
      Ref r = ref(k, w);
      double p = U(g, .001, .999);
      smooth(c, k, how, v, o, r.quant(p), p, g() % 100000);
    }
  });
}
