// executable specification of the volume
#include "common.hpp"
#include <random>
#include <typeinfo>
#include "nrlib/volume/volume.hpp"
#include "nrlib/surface/regularsurface.hpp"
using namespace NRLib;
typedef std::mt19937_64 E;
static double uni(E& e, double a, double b) { return std::uniform_real_distribution<double>(a, b)(e); }
// a tilted plane, missing beyond a line
class Plane : public Surface<double> { public: double a, b, k, cut, m; bool covers;
  Surface<double>* Clone() const { return new Plane(*this); }
  double GetZ(double x, double y) const { return x > cut ? m : a * x + b * y + k; }
  bool IsMissing(double v) const { return v == m; }
  mutable double r[4];
  bool EnclosesRectangle(double x0, double x1, double y0, double y1) const { seen[0] = x0; seen[1] = x1; seen[2] = y0; seen[3] = y1; return covers; }
  bool IsInsideSurface(double, double) const { return true; }
  void Add(double c) { k += c; } void Multiply(double c) { a *= c; b *= c; k *= c; }
  double Min() const { return k - 1000; } double Max() const { return k + 1000; }
  double GetXMin() const { return -1e9; } double GetYMin() const { return -1e9; } double GetXMax() const { return 1e9; } double GetYMax() const { return 1e9; }
  static double seen[4];
};
double Plane::seen[4];
struct Vol : Volume { Vol() {} using Volume::Volume; using Volume::GlobalToLocalCoord; using Volume::LocalToGlobalCoord;
  Vol(const Vol& o) : Volume(o) {} Vol& operator=(const Vol& o) { Volume::operator=(o); return *this; } };
static Plane plane(E& e, double base) { Plane p; p.a = uni(e, -.2, .2); p.b = uni(e, -.2, .2); p.k = base; p.cut = 1e9; p.m = -999; p.covers = true; return p; }
struct P { double x0, y0, lx, ly, ang, tol; Plane t, b; };
static bool eq(double a, double b) { return close(a, b, 1e-9, 1e-8); }
static void glob(const P& p, double u, double v, double& x, double& y) { x = p.x0 + std::cos(p.ang) * u - std::sin(p.ang) * v; y = p.y0 + std::sin(p.ang) * u + std::cos(p.ang) * v; }
static double thick(const P& p) { double m = 0; if (p.lx > 0 || p.ly > 0) for (int i = 0; i < 100; ++i) for (int j = 0; j < 100; ++j) { double x, y; glob(p, p.lx * i / 100, p.ly * j / 100, x, y);
  double a = p.t.GetZ(x, y), b = p.b.GetZ(x, y); if (a != p.t.m && b != p.b.m) m = std::max(m, b - a); } return m; }
static bool same(Case& c, Vol& v, const P& p, const std::string& w, bool lz = true) {
  if (v.GetXMin() != p.x0 || v.GetYMin() != p.y0 || v.GetLX() != p.lx || v.GetLY() != p.ly || v.GetAngle() != p.ang) return c.fail(w + ": geometry");
  if (v.GetTolerance() != p.tol) return c.fail(w + ": tolerance is " + num(v.GetTolerance()) + " expected " + num(p.tol));
  double x, y; glob(p, .3 * p.lx, .6 * p.ly, x, y);
  if (v.GetTopSurface().GetZ(x, y) != p.t.GetZ(x, y) || v.GetBotSurface().GetZ(x, y) != p.b.GetZ(x, y)) return c.fail(w + ": surfaces");
  if (lz && !eq(v.GetLZ(), thick(p))) return c.fail(w + ": height is " + num(v.GetLZ()) + " expected " + num(thick(p)));
  return true;
}
static P rnd(E& e) { P p; p.x0 = uni(e, -500, 500); p.y0 = uni(e, -500, 500); p.lx = uni(e, 1, 300); p.ly = uni(e, 1, 300); p.ang = uni(e, -7, 7); if (e() % 6 == 0) p.ang = 0;
  p.tol = uni(e, 0, 3); p.t = plane(e, uni(e, 900, 1000)); p.b = plane(e, uni(e, 1000, 1300)); if (e() % 3 == 0) p.t.cut = p.x0 + uni(e, -100, 100); if (e() % 3 == 0) p.b.cut = p.x0 + uni(e, -100, 100); return p; }
static void one(Case& c) {
  c.s(); E e((unsigned long)c.i() * 7907 + 5); P p = rnd(e);
  Vol v(p.x0, p.y0, p.lx, p.ly, p.t, p.b, p.ang); if (v.GetTolerance() != 1e-6) c.fail("default tolerance"); v.SetTolerance(p.tol); same(c, v, p, "built");
  for (int k = 0; k < 20 && c.ok(); ++k) { double u = uni(e, -.5, 1.5) * p.lx, w = uni(e, -.5, 1.5) * p.ly, x, y, a, b, gx, gy;
    if (k % 3 == 0) u = (k % 2 ? -1 : 1) * uni(e, 0, 2) * p.tol + (k % 2 ? 0 : p.lx); glob(p, u, w, x, y);
    v.LocalToGlobalCoord(u, w, gx, gy); if (!eq(gx, x) || !eq(gy, y)) c.fail("LocalToGlobalCoord"); v.GlobalToLocalCoord(x, y, a, b); if (!eq(a, u) || !eq(b, w)) c.fail("GlobalToLocalCoord");
    v.GetXYFromRelative(u / p.lx, w / p.ly, gx, gy); if (!eq(gx, x) || !eq(gy, y)) c.fail("GetXYFromRelative");
    double g = 1e-6; auto far = [&](double s, double t) { return std::fabs(s - t) > g; };
    if (far(u, 0) && far(u, p.lx) && far(w, 0) && far(w, p.ly)) { bool in = u > 0 && u < p.lx && w > 0 && w < p.ly; if ((v.IsInside(x, y) != 0) != in) c.fail("IsInside");
      double zt = p.t.GetZ(x, y), zb = p.b.GetZ(x, y), z = uni(e, 850, 1350), tz = uni(e, 0, 60); if (far(z, zt) && far(z, zb) && v.IsInside(x, y, z) != (in && z > zt && z < zb)) c.fail("IsInside with depth");
      if (far(z, zt - tz) && far(z, zb + tz) && v.IsInsideZTolerance(x, y, z, tz) != (in && z > zt - tz && z < zb + tz)) c.fail("IsInsideZTolerance"); }
    if (far(u, -p.tol) && far(u, p.lx + p.tol) && far(w, -p.tol) && far(w, p.ly + p.tol)) { bool in = u > -p.tol && u < p.lx + p.tol && w > -p.tol && w < p.ly + p.tol;
      if ((v.IsInsideTolerance(x, y) != 0) != in) c.fail("IsInsideTolerance"); } }
  { double x, y, z, gx, gy; v.FindCenter(x, y, z); glob(p, p.lx / 2, p.ly / 2, gx, gy); if (!eq(x, gx) || !eq(y, gy)) c.fail("FindCenter is (" + num(x) + "," + num(y) + "), the middle of the area is (" + num(gx) + "," + num(gy) + ")");
    if (std::fabs(gx - p.t.cut) > 1e-6 && std::fabs(gx - p.b.cut) > 1e-6 && !eq(z, (p.t.GetZ(gx, gy) + p.b.GetZ(gx, gy)) / 2)) c.fail("FindCenter depth"); }
  { size_t nx = 1 + e() % 8, ny = 1 + e() % 8; double lo[2], hi[2]; bool any[2] = {false, false}, edge = false; const Plane* s[2] = {&p.t, &p.b};
    for (int q = 0; q < 2; ++q) { lo[q] = hi[q] = s[q]->m; for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) { double x, y; glob(p, (i + .5) * p.lx / nx, (j + .5) * p.ly / ny, x, y);
      if (std::fabs(x - s[q]->cut) < 1e-6) edge = true; double z = s[q]->GetZ(x, y); if (z == s[q]->m) continue; if (!any[q] || z < lo[q]) lo[q] = z; if (!any[q] || z > hi[q]) hi[q] = z; any[q] = true; } }
    if (!edge && (!eq(v.GetTopZMin(nx, ny), lo[0]) || !eq(v.GetTopZMax(nx, ny), hi[0]) || !eq(v.GetBotZMin(nx, ny), lo[1]) || !eq(v.GetBotZMax(nx, ny), hi[1]) || !eq(v.GetZMin(nx, ny), lo[0]) || !eq(v.GetZMax(nx, ny), hi[1]))) c.fail("extremes on " + std::to_string(nx) + " x " + std::to_string(ny)); }
  { double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; for (int a = 0; a < 4; ++a) { double q[2]; glob(p, (a & 1) * p.lx, (a >> 1) * p.ly, q[0], q[1]); for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); } }
    Plane s = p.t; for (int t = 0; t < 2; ++t) { s.covers = t; if (v.CheckSurface(s) != (t == 1)) c.fail("CheckSurface result"); if (!eq(Plane::seen[0], lo[0]) || !eq(Plane::seen[1], hi[0]) || !eq(Plane::seen[2], lo[1]) || !eq(Plane::seen[3], hi[1])) c.fail("CheckSurface rectangle"); }
    Vol u(v); u.SetTolerance(p.tol); bool thrown = false; s.covers = false; try { u.SetSurfaces(s, p.b, false); } catch (const std::exception&) { thrown = true; } if (!thrown) c.fail("surface not covering the area accepted"); }
  { Vol u(v); same(c, u, p, "copy"); P o = rnd(e); Vol w(o.x0, o.y0, o.lx, o.ly, o.t, o.b, o.ang); w.SetTolerance(o.tol); Vol keep(w); w = v; same(c, w, p, "assignment"); same(c, v, p, "source of the assignment"); same(c, keep, o, "copy kept");
    w = w; same(c, w, p, "self assignment"); }
  { P o = rnd(e); Vol u(v); u.SetTolerance(p.tol); P q(p); q.x0 = o.x0; q.y0 = o.y0; q.lx = o.lx; q.ly = o.ly; u.SetDimensions(o.x0, o.y0, o.lx, o.ly); same(c, u, q, "SetDimensions"); q.ang = o.ang; u.SetAngle(o.ang); same(c, u, q, "SetAngle");
    q.t = o.t; q.b = o.b; u.SetSurfaces(o.t, o.b); same(c, u, q, "SetSurfaces"); Plane e1 = plane(e, 5), e2 = plane(e, 6); u.SetSurfaces(p.t, p.b, e1, e2); q.t = p.t; q.b = p.b; same(c, u, q, "SetSurfaces with erosion");
    if (u.GetErosionTop().GetZ(1, 2) != e1.GetZ(1, 2) || u.GetErosionBot().GetZ(1, 2) != e2.GetZ(1, 2)) c.fail("erosion surfaces"); Vol w(u); if (w.GetErosionTop().GetZ(1, 2) != e1.GetZ(1, 2) || w.GetErosionBot().GetZ(1, 2) != e2.GetZ(1, 2)) c.fail("erosion surfaces of a copy"); }
  { double z0 = uni(e, 0, 9), lz = uni(e, 1, 50); Vol u(p.x0, p.y0, z0, p.lx, p.ly, lz, p.ang); if (!eq(u.GetTopSurface().GetZ(1, 2), z0) || !eq(u.GetBotSurface().GetZ(3, 4), z0 + lz) || u.GetLZ() != lz) c.fail("flat volume"); }
  { Vol u; u.SetSurfaces(p.t, p.b); if (u.GetTopZMin(3, 3) != p.t.Min() || u.GetTopZMax(3, 3) != p.t.Max() || u.GetBotZMin(2, 2) != p.b.Min() || u.GetZMax(2, 2) != p.b.Max()) c.fail("extremes without area"); }
}
int main() { return run_cases(one); }
