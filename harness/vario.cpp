// executable specification of the correlation functions
#include "common.hpp"
#include "nrlib/variogram/variogram.hpp"
#include <memory>
#include <map>
using NRLib::Variogram;
typedef long double ld;
static const std::map<std::string, Variogram::Type> types = {{"CONSTANT", Variogram::CONSTANT}, {"EXPONENTIAL", Variogram::EXPONENTIAL},
  {"SPHERICAL", Variogram::SPHERICAL}, {"GAUSSIAN", Variogram::GAUSSIAN}, {"GENERAL_EXPONENTIAL", Variogram::GENERAL_EXPONENTIAL},
  {"MATERN32", Variogram::MATERN32}, {"MATERN52", Variogram::MATERN52}, {"MATERN72", Variogram::MATERN72}};

static ld corr1d(const std::string& t, ld d, ld p) {
  if (t == "CONSTANT") return 1;
  if (t == "EXPONENTIAL") return expl(-3 * d);
  if (t == "GAUSSIAN") return expl(-3 * d * d);
  if (t == "GENERAL_EXPONENTIAL") return expl(-3 * powl(d, p));
  if (t == "SPHERICAL") return d < 1 ? 1 - 1.5L * d + 0.5L * d * d * d : 0;
  ld s;
  if (t == "MATERN32") { s = 4.744L * d; return expl(-s) * (1 + s); }
  if (t == "MATERN52") { s = 5.918L * d; return expl(-s) * (1 + s + s * s / 3); }
  s = 6.877L * d; return expl(-s) * (1 + s + 2 * s * s / 5 + s * s * s / 15);
}
struct V {
  std::string t; double power, rx, ry, rz, azi, dip, sd;
  std::unique_ptr<Variogram> v;
  ld dist(ld x, ld y, ld z) const {
    ld ca = cosl(azi), sa = sinl(azi), cd = cosl(dip), s = sinl(dip);
    ld u = x * ca * cd + y * sa * cd + z * s, w = -x * sa + y * ca, q = -x * ca * s - y * sa * s + z * cd;
    return sqrtl(u * u / ((ld)rx * rx) + w * w / ((ld)ry * ry) + q * q / ((ld)rz * rz));
  }
  // admissible relative error of the squared distance: cancellation between terms of size |h|^2 / rmin^2
  ld cond(ld x, ld y, ld z) const {
    ld rm = std::min(rx, std::min(ry, rz)), h2 = x * x + y * y + z * z, d = dist(x, y, z);
    return d > 0 ? h2 / (rm * rm) / (d * d) : 1;
  }
};
static V get(Case& c) {
  V v; v.t = c.s(); v.power = c.d(); v.rx = c.d(); v.ry = c.d(); v.rz = c.d(); v.azi = c.d(); v.dip = c.d(); v.sd = c.d();
  v.v.reset(Variogram::Create(types.at(v.t), v.power, v.rx, v.ry, v.rz, v.azi, v.dip, v.sd));
  return v;
}
static void eq(Case& c, double got, double want, double tol, const char* what) {
  if (!(std::fabs(got - want) <= tol)) c.fail(std::string(what) + " is " + num(got) + ", expected " + num(want));
}
int main() {
  return run_cases([](Case& c) {
    std::string k = c.s();
    V v = get(c);
    double x = c.d(), y = c.d(), z = c.d();
    ld k3 = v.cond(x, y, z);
    bool degenerate = k3 > 1e9L;  // the squared distance is all cancellation: outside the exact-arithmetic statement
    if (k == "corr") {
      double hs[3][3] = {{x, y, z}, {x, y, 0}, {x, 0, 0}};
      for (int n = 3; n >= 1 && c.ok(); --n) {
        double* h = hs[3 - n];
        ld d = v.dist(h[0], h[1], h[2]);
        ld kk = v.cond(h[0], h[1], h[2]);
        if (kk > 1e9L) continue;
        ld want = corr1d(v.t, d, v.power);
        // sensitivity to a relative distance error e
        ld e = 1e-14L * kk + 1e-13L;
        ld lo = corr1d(v.t, d * (1 + e), v.power), hi = corr1d(v.t, d * (1 - e), v.power);
        double tol = 1e-12 + (double)(std::fabs((double)(hi - want)) + std::fabs((double)(want - lo)));
        double got = n == 3 ? v.v->GetCorr(x, y, z) : n == 2 ? v.v->GetCorr(x, y) : v.v->GetCorr(x);
        const char* nm = n == 3 ? "corr(dx,dy,dz)" : n == 2 ? "corr(dx,dy)" : "corr(dx)";
        eq(c, got, (double)want, tol, nm);
        if (!c.ok()) break;
        double var = v.sd * v.sd;
        double cov = n == 3 ? v.v->GetCov(x, y, z) : n == 2 ? v.v->GetCov(x, y) : v.v->GetCov(x);
        double vg = n == 3 ? v.v->GetVariogram(x, y, z) : n == 2 ? v.v->GetVariogram(x, y) : v.v->GetVariogram(x);
        eq(c, cov, var * got, 1e-12 * (1 + var), "covariance");
        eq(c, vg, var * (1 - got), 1e-12 * (1 + var), "variogram");
        double cp = n == 3 ? v.v->GetCorrpoint(1, 2, 3, 1 + x, 2 + y, 3 + z) : n == 2 ? v.v->GetCorrpoint(1, 2, 1 + x, 2 + y) : v.v->GetCorrpoint(1, 1 + x);
        double cq = n == 3 ? v.v->GetCorr((1 + x) - 1, (2 + y) - 2, (3 + z) - 3) : n == 2 ? v.v->GetCorr((1 + x) - 1, (2 + y) - 2) : v.v->GetCorr((1 + x) - 1);
        if (!std::isnan(cq)) {
          eq(c, cp, cq, 1e-12, "point form of corr");
          double vp = n == 3 ? v.v->GetCovpoint(1, 2, 3, 1 + x, 2 + y, 3 + z) : n == 2 ? v.v->GetCovpoint(1, 2, 1 + x, 2 + y) : v.v->GetCovpoint(1, 1 + x);
          eq(c, vp, var * cq, 1e-12 * (1 + var), "point form of the covariance");
        }
      }
    }
    else if (k == "laws") {
      double t = c.d();
      double var = v.sd * v.sd;
      for (int n = 1; n <= 3 && c.ok(); ++n) {
        auto f = [&](double a, double b, double d) { return n == 3 ? v.v->GetCorr(a, b, d) : n == 2 ? v.v->GetCorr(a, b) : v.v->GetCorr(a); };
        std::string dim = std::to_string(n) + "D ";
        if (f(0, 0, 0) != 1.0) c.fail(dim + "corr at zero offset is " + num(f(0, 0, 0)));
        ld kk = v.cond(x, n > 1 ? y : 0, n > 2 ? z : 0);
        if (kk > 1e9L) continue;
        double a = f(x, y, z), b = f(-x, -y, -z), g = f(t * x, t * y, t * z);
        if (!(a >= -1e-15 && a <= 1 + 1e-15)) c.fail(dim + "corr outside [0,1]: " + num(a));
        if (!(std::fabs(a - b) <= 1e-14)) c.fail(dim + "corr not even: " + num(a) + " vs " + num(b));
        double tol = 1e-12 + 1e-13 * (double)kk;
        if (!(g <= a + tol)) c.fail(dim + "corr increases along the ray: " + num(a) + " -> " + num(g) + " at factor " + num(t));
        double cov = n == 3 ? v.v->GetCov(x, y, z) : n == 2 ? v.v->GetCov(x, y) : v.v->GetCov(x);
        double vg = n == 3 ? v.v->GetVariogram(x, y, z) : n == 2 ? v.v->GetVariogram(x, y) : v.v->GetVariogram(x);
        eq(c, cov, var * a, 1e-12 * (1 + var), "covariance");
        eq(c, vg, var - cov, 1e-11 * (1 + var), "variogram");
        if (!(std::fabs(cov) <= var * (1 + 1e-12))) c.fail(dim + "covariance exceeds the variance");
      }
    }
    (void)degenerate;
  });
}
