// histories of modifications of a variogram against a freshly built one
#include "common.hpp"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
#include <memory>
#include <map>
using NRLib::Variogram;
static const std::map<std::string, Variogram::Type> types = {{"CONSTANT", Variogram::CONSTANT}, {"EXPONENTIAL", Variogram::EXPONENTIAL},
  {"SPHERICAL", Variogram::SPHERICAL}, {"GAUSSIAN", Variogram::GAUSSIAN}, {"GENERAL_EXPONENTIAL", Variogram::GENERAL_EXPONENTIAL},
  {"MATERN32", Variogram::MATERN32}, {"MATERN52", Variogram::MATERN52}, {"MATERN72", Variogram::MATERN72}};
struct P { std::string t; double power, rx, ry, rz, azi, dip, sd; };
static Variogram* make(const P& p) { return Variogram::Create(types.at(p.t), p.power, p.rx, p.ry, p.rz, p.azi, p.dip, p.sd); }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-11 * (1 + std::fabs(b)); }
static void cmp(Case& c, const Variogram& v, const P& p, const std::string& when) {
  std::unique_ptr<Variogram> w(make(p));
  auto chk = [&](double a, double b, const char* what) { if (!same(a, b)) c.fail(when + ": " + what + " is " + num(a) + ", expected " + num(b)); };
  chk(v.GetRangeX(), p.rx, "range x"); chk(v.GetRangeY(), p.ry, "range y"); chk(v.GetRangeZ(), p.rz, "range z");
  chk(v.GetAzimuthAngle(), p.azi, "azimuth"); chk(v.GetDipAngle(), p.dip, "dip"); chk(v.GetStdDev(), std::fabs(p.sd), "std dev");
  for (double s : {0.1, 0.5, 1.3}) {
    double x = s * p.rx, y = 0.7 * s * p.ry, z = -0.4 * s * p.rz;
    chk(v.GetCorr(x, y, z), w->GetCorr(x, y, z), "corr 3D"); chk(v.GetCorr(x, y), w->GetCorr(x, y), "corr 2D"); chk(v.GetCorr(x), w->GetCorr(x), "corr 1D");
    chk(v.GetCorr(0, y, 0), w->GetCorr(0, y, 0), "corr along y"); chk(v.GetCorr(0, 0, z), w->GetCorr(0, 0, z), "corr along z");
    chk(v.GetCov(x, y, z), w->GetCov(x, y, z), "covariance"); chk(v.GetVariogram(x, y), w->GetVariogram(x, y), "variogram");
  }
  if (v.GetMinimumRangeToGridRatio() != w->GetMinimumRangeToGridRatio()) c.fail(when + ": range to grid ratio differs");
  if (v.GetName() != w->GetName()) c.fail(when + ": type differs");
}
// the first n parameters given, the rest omitted
template <class T> static Variogram* ctor(const P& p, int n) {
  switch (n) {
    case 0: return new T();
    case 1: return new T(p.rx);
    case 2: return new T(p.rx, p.ry);
    case 3: return new T(p.rx, p.ry, p.rz);
    case 4: return new T(p.rx, p.ry, p.rz, p.azi);
    case 5: return new T(p.rx, p.ry, p.rz, p.azi, p.dip);
    default: return new T(p.rx, p.ry, p.rz, p.azi, p.dip, p.sd);
  }
}
static Variogram* genexp(const P& p, int n) {
  switch (n) {
    case 0: return new NRLib::GenExpVario();
    case 1: case 2: return new NRLib::GenExpVario(p.power, p.rx);
    case 3: return new NRLib::GenExpVario(p.power, p.rx, p.ry);
    case 4: return new NRLib::GenExpVario(p.power, p.rx, p.ry, p.rz);
    case 5: return new NRLib::GenExpVario(p.power, p.rx, p.ry, p.rz, p.azi);
    case 6: return new NRLib::GenExpVario(p.power, p.rx, p.ry, p.rz, p.azi, p.dip);
    default: return new NRLib::GenExpVario(p.power, p.rx, p.ry, p.rz, p.azi, p.dip, p.sd);
  }
}
static Variogram* create(const P& p, int n) {
  Variogram::Type t = types.at(p.t);
  switch (n) {
    case 0: return Variogram::Create(t);
    case 1: return Variogram::Create(t, p.power);
    case 2: return Variogram::Create(t, p.power, p.rx);
    case 3: return Variogram::Create(t, p.power, p.rx, p.ry);
    case 4: return Variogram::Create(t, p.power, p.rx, p.ry, p.rz);
    case 5: return Variogram::Create(t, p.power, p.rx, p.ry, p.rz, p.azi);
    case 6: return Variogram::Create(t, p.power, p.rx, p.ry, p.rz, p.azi, p.dip);
    default: return Variogram::Create(t, p.power, p.rx, p.ry, p.rz, p.azi, p.dip, p.sd);
  }
}
static P omit(const P& p, int n) {
  P r = {p.t, 1.5, 1, 1, 1, 0, 0, 1};
  double P::*f[] = {&P::power, &P::rx, &P::ry, &P::rz, &P::azi, &P::dip, &P::sd};
  for (int i = 0; i < n; i++) r.*f[i] = p.*f[i];
  return r;
}
static void built(Case& c) {
  P p; p.t = c.s(); int n = c.i(); p.power = c.d(); p.rx = c.d(); p.ry = c.d(); p.rz = c.d(); p.azi = c.d(); p.dip = c.d(); p.sd = c.d();
  std::unique_ptr<Variogram> v(create(p, n));
  cmp(c, *v, omit(p, n), "Create with " + std::to_string(n) + " parameters");
  if (!c.ok()) return;
  int m = p.t == "GENERAL_EXPONENTIAL" ? (n == 1 ? 2 : n) : std::min(n, 6) + 1;
  P w = omit(p, m);
  if (p.t == "GENERAL_EXPONENTIAL") { v.reset(genexp(p, n)); if (n == 0) w.power = 1; }
  else if (p.t == "CONSTANT") v.reset(ctor<NRLib::ConstVario>(p, n));
  else if (p.t == "EXPONENTIAL") v.reset(ctor<NRLib::ExpVario>(p, n));
  else if (p.t == "SPHERICAL") v.reset(ctor<NRLib::SphVario>(p, n));
  else if (p.t == "GAUSSIAN") v.reset(ctor<NRLib::GauVario>(p, n));
  else if (p.t == "MATERN32") v.reset(ctor<NRLib::Matern32Vario>(p, n));
  else if (p.t == "MATERN52") v.reset(ctor<NRLib::Matern52Vario>(p, n));
  else v.reset(ctor<NRLib::Matern72Vario>(p, n));
  cmp(c, *v, w, "constructor with " + std::to_string(n) + " parameters");
}
int main() {
  return run_cases([](Case& c) {
    if (c.s() == "built") { built(c); return; }
    P p; p.t = c.s(); p.power = c.d(); p.rx = c.d(); p.ry = c.d(); p.rz = c.d(); p.azi = c.d(); p.dip = c.d(); p.sd = c.d();
    std::unique_ptr<Variogram> v(make(p));
    std::vector<std::pair<std::unique_ptr<Variogram>, P>> old;
    std::string op;
    while (c.in >> op) {
      double a = c.d(), b = c.d(), d = c.d();
      P n = p;
      bool reject = false, thrown = false;
      try {
        if (op == "SetRangeX") { n.rx = a; reject = a <= 0; v->SetRangeX(a); }
        else if (op == "SetRangeY") { n.ry = a; reject = a <= 0; v->SetRangeY(a); }
        else if (op == "SetRangeZ") { n.rz = a; reject = a <= 0; v->SetRangeZ(a); }
        else if (op == "LimitRangeX") { n.rx = std::min(p.rx, a); v->LimitRangeX(a); }
        else if (op == "LimitRangeY") { n.ry = std::min(p.ry, a); v->LimitRangeY(a); }
        else if (op == "LimitRangeZ") { n.rz = std::min(p.rz, a); v->LimitRangeZ(a); }
        else if (op == "SetRanges") { n.rx = a; n.ry = b; n.rz = d; reject = a <= 0 || b <= 0 || d <= 0; v->SetRanges(a, b, d); }
        else if (op == "SetAngles") { n.azi = a; n.dip = b; v->SetAngles(a, b); }
        else if (op == "RotateAngles") { n.azi += a; n.dip += b; v->RotateAngles(a, b); }
        else if (op == "SetStdDev") { n.sd = a; v->SetStdDev(a); }
        else if (op == "Clone") { std::unique_ptr<Variogram> w(v->Clone()); old.emplace_back(std::move(v), p); v = std::move(w); }
      } catch (const std::exception&) { thrown = true; }
      if (reject != thrown) { c.fail(op + (thrown ? ": valid argument rejected" : ": non-positive range accepted")); return; }
      if (!thrown) p = n;
      cmp(c, *v, p, "after " + op + (thrown ? " (rejected)" : ""));
      for (auto& o : old) cmp(c, *o.first, o.second, "earlier object after " + op + " on its clone");
      if (!c.ok()) return;
    }
  });
}
