// executable specification of the surfaces
#include "common.hpp"
#include <limits>
#include <random>
#include <memory>
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
using namespace NRLib;
typedef std::mt19937_64 E;
static double uni(E& e, double a, double b) { return std::uniform_real_distribution<double>(a, b)(e); }
static int below(E& e, int n) { return (int)(e() % n); }
struct Ref {            // the surface as a table
  double x0, y0, lx, ly, ang, dx, dy, miss; int ni, nj; std::vector<double> z;
  void steps() { dx = ni > 1 ? lx / (ni - 1) : 1.0; dy = nj > 1 ? ly / (nj - 1) : 1.0; }
  double at(int i, int j) const { return i < 0 || j < 0 || i >= ni || j >= nj ? miss : z[i + (size_t)ni * j]; }
  void glob(double u, double v, double& x, double& y) const { double c = std::cos(ang), s = std::sin(ang); x = x0 + c * u - s * v; y = y0 + s * u + c * v; }
  double val(int i, int j, double a, double b, bool inside) const {
    double w[4] = {(1 - a) * (1 - b), a * (1 - b), (1 - a) * b, a * b}, z4[4] = {at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1)};
    double t = 0, s = 0; int n = 0;
    for (int k = 0; k < 4; ++k) if (z4[k] != miss) { t += w[k]; s += w[k] * z4[k]; ++n; }
    if (n == 0 || t == 0 || (inside && n < 4)) return miss;
    return s / t;
  }
};
static double pick(E& e, double lo, double hi) { return std::ldexp(std::floor(uni(e, lo, hi) * 16), -4); }
static Ref make(E& e, bool rot, double pm) {
  Ref r; r.ni = 1 + below(e, 7); r.nj = 1 + below(e, 7);
  if (below(e, 4)) { r.ni = std::max(2, r.ni); r.nj = std::max(2, r.nj); }
  r.x0 = pick(e, -50, 50); r.y0 = pick(e, -50, 50);
  double sx = std::ldexp(1.0 + below(e, 7), -2), sy = std::ldexp(1.0 + below(e, 7), -2);
  r.lx = sx * std::max(1, r.ni - 1); r.ly = sy * std::max(1, r.nj - 1);
  r.ang = rot ? uni(e, -7, 7) : 0.0; if (rot && !below(e, 6)) r.ang = below(e, 4) * std::acos(-1.0) / 2;
  r.steps(); double ms[4] = {-999.0, 77.7, 1e30, -555.25}; r.miss = ms[below(e, 4)];
  for (int k = 0; k < r.ni * r.nj; ++k) { double v = pick(e, -20, 20); r.z.push_back(uni(e, 0, 1) < pm ? r.miss : v); }
  return r;
}
static void fill(Surface<double>*, const Ref&) {}
template <class T> void load(T& s, const Ref& r) {
  s.SetMissingValue(r.miss);
  for (int j = 0; j < r.nj; ++j) for (int i = 0; i < r.ni; ++i) s(i, j) = r.z[i + (size_t)r.ni * j];
}
static RegularSurface<double> plain(const Ref& r) { RegularSurface<double> s(r.x0, r.y0, r.lx, r.ly, r.ni, r.nj, 3.25); load(s, r); return s; }
static RegularSurfaceRotated<double> rotated(const Ref& r) { RegularSurfaceRotated<double> s(r.x0, r.y0, r.lx, r.ly, r.ni, r.nj, r.ang, 3.25); load(s, r); return s; }

template <class T> bool same(Case& c, const T& s, const Ref& r, const std::string& what) {
  if ((int)s.GetNI() != r.ni || (int)s.GetNJ() != r.nj || (int)s.GetN() != r.ni * r.nj) return c.fail(what + ": size");
  if (s.GetLengthX() != r.lx || s.GetLengthY() != r.ly) return c.fail(what + ": length");
  if (!close(s.GetDX(), r.dx) || !close(s.GetDY(), r.dy)) return c.fail(what + ": step " + num(s.GetDX()) + " expected " + num(r.dx));
  if (s.GetMissingValue() != r.miss) return c.fail(what + ": missing value");
  for (int j = 0; j < r.nj; ++j) for (int i = 0; i < r.ni; ++i) {
    size_t k = i + (size_t)r.ni * j; double x, y, gx, gy; r.glob(i * r.dx, j * r.dy, gx, gy);
    if (s(i, j) != r.z[k] && !close(s(i, j), r.z[k], 1e-12)) return c.fail(what + ": node " + std::to_string(i) + "," + std::to_string(j) + " is " + num(s(i, j)) + " expected " + num(r.z[k]));
    s.GetXY(i, j, x, y); if (!close(x, gx, 1e-9, 1e-9) || !close(y, gy, 1e-9, 1e-9)) return c.fail(what + ": position of a node");
    s.GetXY(k, x, y); if (!close(x, gx, 1e-9, 1e-9) || !close(y, gy, 1e-9, 1e-9)) return c.fail(what + ": position of a node by flat index");
    if (s.IsMissingAt(i, j) != (r.z[k] == r.miss)) return c.fail(what + ": IsMissingAt");
  }
  return true;
}
template <class T> bool box(Case& c, const T& s, const Ref& r, const std::string& what) {
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { double p[2]; r.glob(a * r.lx, b * r.ly, p[0], p[1]);
    for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); } }
  if (!close(s.GetXMin(), lo[0], 1e-9, 1e-9) || !close(s.GetYMin(), lo[1], 1e-9, 1e-9) || !close(s.GetXMax(), hi[0], 1e-9, 1e-9) || !close(s.GetYMax(), hi[1], 1e-9, 1e-9))
    return c.fail(what + ": box is " + num(s.GetXMin()) + ".." + num(s.GetXMax()) + " x " + num(s.GetYMin()) + ".." + num(s.GetYMax()) + ", corners span " +
                  num(lo[0]) + ".." + num(hi[0]) + " x " + num(lo[1]) + ".." + num(hi[1]));
  return true;
}
template <class T> bool points(Case& c, const T& s, const Ref& r, E& e, bool exact) {
  for (int k = 0; k < 40; ++k) {
    int i = below(e, r.ni + 3) - 2, j = below(e, r.nj + 3) - 2; double a, b, x, y;
    if (exact) { a = below(e, 3) ? std::ldexp(below(e, 8), -3) : 0; b = below(e, 3) ? std::ldexp(below(e, 8), -3) : 0; }
    else { a = uni(e, .02, .98); b = uni(e, .02, .98); }
    r.glob((i + a) * r.dx, (j + b) * r.dy, x, y);
    double w = r.val(i, j, a, b, false), g = s.GetZ(x, y);
    if (w == r.miss ? g != r.miss : !close(g, w, 1e-7, 1e-7)) return c.fail("GetZ(" + num(x) + "," + num(y) + ") is " + num(g) + " expected " + num(w));
    w = r.val(i, j, a, b, true); g = s.GetZInside(x, y);
    if (w == r.miss ? g != r.miss : !close(g, w, 1e-7, 1e-7)) return c.fail("GetZInside(" + num(x) + "," + num(y) + ") is " + num(g) + " expected " + num(w));
    double u = (i + a) * r.dx, v = (j + b) * r.dy;
    if (exact || (std::fabs(u - r.lx) > 1e-6 && std::fabs(v - r.ly) > 1e-6)) {
      bool in = u >= 0 && u <= r.lx && v >= 0 && v <= r.ly;
      if (s.IsInsideSurface(x, y) != in) return c.fail("IsInsideSurface");
    }
  }
  return true;
}
// any other surface
class Plane : public Surface<double> { public: double a, b, k, m, cut;
  Surface<double>* Clone() const { return new Plane(*this); }
  double f(double x, double y) const { return x > cut ? m : a * x + b * y + k; }
  double GetZ(double x, double y) const { return f(x, y); } double GetZInside(double x, double y) const { return f(x, y); }
  bool IsInsideSurface(double, double) const { return true; } bool EnclosesRectangle(double, double, double, double) const { return true; }
  void Add(double) {} void Subtract(double) {} void Multiply(double) {} void Assign(double) {} bool AddNonConform(const Surface<double>*) { return true; }
  bool SubtractNonConform(const Surface<double>*) { return true; } bool MultiplyNonConform(const Surface<double>*) { return true; } bool DivideNonConform(const Surface<double>*) { return true; }
  double Min() const { return 0; } double Max() const { return 0; } double Avg() const { return 0; } double Avg(int&) const { return 0; }
  bool IsMissing(double v) const { return v == m; } double GetMissingValue() const { return m; } void SetMissingValue(double) {}
  double GetXMin() const { return 0; } double GetXMax() const { return 0; } double GetYMin() const { return 0; } double GetYMax() const { return 0; }
};
template <class T> void arith(Case& c, const T& s, const Ref& r, E& e) {
  double k = pick(e, -3, 3);
  auto each = [&](const std::string& what, std::function<void(T&)> op, std::function<double(double)> f) {
    T t(s); Ref q(r); op(t); for (double& z : q.z) if (z != r.miss || what == "Assign") z = f(z); for (double& z : q.z) (void)z; same(c, t, q, what); };
  each("Assign", [&](T& t) { t.Assign(k); }, [&](double) { return k; });
  each("Add", [&](T& t) { t.Add(k); }, [&](double z) { return z + k; });
  each("Subtract", [&](T& t) { t.Subtract(k); }, [&](double z) { return z - k; });
  each("Multiply", [&](T& t) { t.Multiply(k); }, [&](double z) { return z * k; });
  Plane p; p.a = uni(e, -2, 2); p.b = uni(e, -2, 2); p.k = uni(e, -2, 2); p.m = 1e20; p.cut = r.x0 + uni(e, -1, 1) * r.lx + 1e-3;
  for (int o = 0; o < 4; ++o) {
    T t(s); Ref q(r); const char* nm[4] = {"AddNonConform", "SubtractNonConform", "MultiplyNonConform", "DivideNonConform"};
    if (o == 0) t.AddNonConform(&p); else if (o == 1) t.SubtractNonConform(&p); else if (o == 2) t.MultiplyNonConform(&p); else t.DivideNonConform(&p);
    bool skip = false;
    for (int j = 0; j < r.nj; ++j) for (int i = 0; i < r.ni; ++i) { double& z = q.z[i + (size_t)r.ni * j]; if (z == r.miss) continue; double x, y; r.glob(i * r.dx, j * r.dy, x, y);
      if (std::fabs(x - p.cut) < 1e-6) skip = true;
      double v = p.f(x, y); if (v == p.m) z = r.miss; else z = o == 0 ? z + v : o == 1 ? z - v : o == 2 ? z * v : z / v; if (std::fabs(v) < 1e-6) skip = true; }
    if (!skip) { for (size_t n = 0; n < q.z.size(); ++n) { double g = t(n); if (q.z[n] == r.miss ? g != r.miss : !close(g, q.z[n], 1e-7, 1e-7)) { c.fail(std::string(nm[o]) + ": node " + std::to_string(n) + " is " + num(g) + " expected " + num(q.z[n])); return; } } }
  }
}
template <class T> void stats(Case& c, const T& s, const Ref& r) {
  double lo = r.miss, hi = r.miss, sum = 0; int n = 0;
  for (double z : r.z) if (z != r.miss) { if (!n || z < lo) lo = z; if (!n || z > hi) hi = z; sum += z; ++n; }
  if (s.Min() != lo) c.fail("Min is " + num(s.Min()) + " expected " + num(lo));
  if (s.Max() != hi) c.fail("Max is " + num(s.Max()) + " expected " + num(hi));
  int k = -5; double a = s.Avg(k), want = n ? sum / n : r.miss;
  if (k != n || !close(a, want, 1e-10, 1e-10) || !close(s.Avg(), want, 1e-10, 1e-10)) c.fail("Avg is " + num(a) + " of " + std::to_string(k) + ", expected " + num(want) + " of " + std::to_string(n));
}
static void one(Case& c) {
  std::string kind = c.s(); unsigned long seed = (unsigned long)c.i(); E e(seed * 7919 + 13);
  double pm[4] = {0, 0, .25, .6}; double p = pm[below(e, 4)]; if (!below(e, 12)) p = 1.0;
  { Ref r = make(e, false, p); RegularSurface<double> s = plain(r);
    same(c, s, r, "built"); box(c, s, r, "built"); points(c, s, r, e, true); if (r.ni > 1 && r.nj > 1) points(c, s, r, e, false); stats(c, s, r); arith(c, s, r, e);
    size_t i = 99, j = 99; double z = s.MinNode(i, j); if (i >= (size_t)r.ni || j >= (size_t)r.nj || s(i, j) != z || z != s.Min()) c.fail("MinNode");
    z = s.MaxNode(i, j); if (i >= (size_t)r.ni || j >= (size_t)r.nj || s(i, j) != z || z != s.Max()) c.fail("MaxNode");
    for (int k = 0; k < 20 && c.ok(); ++k) {
      int ci = below(e, r.ni + 2) - 1, cj = below(e, r.nj + 2) - 1; double a = std::ldexp(below(e, 16), -4), b = std::ldexp(below(e, 16), -4), x = r.x0 + (ci + a) * r.dx, y = r.y0 + (cj + b) * r.dy;
      int gi = 77, gj = 77; s.FindGeneralIndex(x, y, gi, gj); if (gi != ci || gj != cj) c.fail("FindGeneralIndex");
      s.FindNearestNodeIndex(x, y, i, j); int wi = std::min(std::max(ci + (a >= .5), 0), r.ni - 1), wj = std::min(std::max(cj + (b >= .5), 0), r.nj - 1);
      if ((int)i != wi || (int)j != wj) c.fail("FindNearestNodeIndex");
      if (s.IsInsideSurface(x, y)) { double fi, fj; s.FindIndex(x, y, i, j); s.FindContIndex(x, y, fi, fj);
        if ((int)i != ci || (int)j != cj || (int)s.FindI(x) != ci || (int)s.FindJ(y) != cj) c.fail("FindIndex"); if (!close(fi, ci + a) || !close(fj, cj + b)) c.fail("FindContIndex"); }
      double q0 = x, q1 = x + uni(e, 0, r.lx), q2 = y, q3 = y + uni(e, 0, r.ly);
      if (s.EnclosesRectangle(q0, q1, q2, q3) != (q0 >= r.x0 && q1 <= r.x0 + r.lx && q2 >= r.y0 && q3 <= r.y0 + r.ly)) c.fail("EnclosesRectangle");
    }
    for (int k = 0; k < 5 && c.ok(); ++k) { RegularSurface<double> t(s); Ref q(r); int a = below(e, r.ni), b = below(e, r.nj); double sum = 0; int n = 0;
      for (int di = -1; di < 2; ++di) for (int dj = -1; dj < 2; ++dj) if ((di || dj) && r.at(a + di, b + dj) != r.miss) { sum += r.at(a + di, b + dj); ++n; }
      bool got = t.CreateNeighbourAvg(a, b); q.z[a + (size_t)r.ni * b] = n ? sum / n : r.miss; if (got != (n > 0)) c.fail("CreateNeighbourAvg result"); 
      for (size_t m = 0; m < q.z.size(); ++m) if (!close(t(m), q.z[m], 1e-10, 1e-10)) c.fail("CreateNeighbourAvg node " + std::to_string(m)); }
    { RegularSurface<double> t(s); Ref o = make(e, false, .2), q(r); q.x0 = o.x0; q.y0 = o.y0; q.lx = o.lx; q.ly = o.ly; q.steps(); t.SetDimensions(o.x0, o.y0, o.lx, o.ly); same(c, t, q, "SetDimensions"); box(c, t, q, "SetDimensions"); }
    { RegularSurface<double> t(s); Ref o = make(e, false, .2), q(r); q.ni = o.ni; q.nj = o.nj; q.z.assign((size_t)o.ni * o.nj, 1.5); q.steps(); t.Resize(o.ni, o.nj, 1.5); same(c, t, q, "Resize"); }
    { Ref o = make(e, false, .2); RegularSurface<double> t = plain(o), u(s); t.Swap(u); same(c, t, r, "Swap"); same(c, u, o, "Swap other"); box(c, t, r, "Swap"); box(c, u, o, "Swap other"); }
    { RegularSurface<double> t(s); Surface<double>* k = t.Clone(); t.Assign(5.0); t.SetMissingValue(17.0); same(c, dynamic_cast<RegularSurface<double>&>(*k), r, "Clone"); box(c, dynamic_cast<RegularSurface<double>&>(*k), r, "Clone"); delete k; }
    { double z = pick(e, -3, 3), a = pick(e, -3, 3), b = pick(e, -3, 3); ConstantSurface<double> k(z); Surface<double>* q = k.Clone(); k.Add(a); k.Multiply(b);
      if (k.GetZ() != (z + a) * b || k.GetZ(z, a) != (z + a) * b || k.Min() != (z + a) * b || k.Max() != (z + a) * b || q->GetZ(1, 2) != z || !q->IsInsideSurface(a, b) || !q->EnclosesRectangle(a, b, a, b)
          || q->GetXMin() > -1e300 || q->GetYMin() > -1e300 || q->GetXMax() < 1e300 || q->GetYMax() < 1e300) c.fail("ConstantSurface"); delete q; }
    { Grid2D<double> g(r.ni, r.nj); for (size_t m = 0; m < g.GetN(); ++m) g(m) = r.z[m]; RegularSurface<double> t(r.x0, r.y0, r.lx, r.ly, g); t.SetMissingValue(r.miss); same(c, t, r, "built from grid"); } }
  { Ref r = make(e, true, p); RegularSurfaceRotated<double> s = rotated(r);
    same(c, s, r, "rotated built"); box(c, s, r, "rotated built"); if (r.ni > 1 && r.nj > 1) points(c, s, r, e, false); stats(c, s, r); arith(c, s, r, e);
    if (s.GetXRef() != r.x0 || s.GetYRef() != r.y0 || s.GetAngle() != r.ang) c.fail("rotated reference point");
    { RegularSurfaceRotated<double> t(s); Ref o = make(e, true, .2), q(r); q.x0 = o.x0; q.y0 = o.y0; q.lx = o.lx; q.ly = o.ly; q.steps(); t.SetDimensions(o.x0, o.y0, o.lx, o.ly); same(c, t, q, "rotated SetDimensions"); box(c, t, q, "rotated SetDimensions"); }
    { RegularSurfaceRotated<double> t(s); Ref o = make(e, true, .2), q(r); q.ang = o.ang; t.SetAngle(o.ang); same(c, t, q, "rotated SetAngle"); box(c, t, q, "rotated SetAngle"); }
    { RegularSurfaceRotated<double> t(s); Ref o = make(e, true, .2), q(r); q.ni = o.ni; q.nj = o.nj; q.z.assign((size_t)o.ni * o.nj, 1.5); q.steps(); t.Resize(o.ni, o.nj, 1.5); same(c, t, q, "rotated Resize"); box(c, t, q, "rotated Resize"); }
    { RegularSurfaceRotated<double> t(s); Surface<double>* k = t.Clone(); t.Assign(5.0); t.SetMissingValue(17.0); t.SetAngle(.1); same(c, dynamic_cast<RegularSurfaceRotated<double>&>(*k), r, "rotated Clone"); box(c, dynamic_cast<RegularSurfaceRotated<double>&>(*k), r, "rotated Clone"); delete k; }
    for (int k = 0; k < 10; ++k) { double q0 = s.GetXMin() + uni(e, -.3, .8) * (s.GetXMax() - s.GetXMin()), q1 = q0 + uni(e, 0, .5) * (s.GetXMax() - s.GetXMin()), q2 = s.GetYMin() + uni(e, -.3, .8) * (s.GetYMax() - s.GetYMin()), q3 = q2 + uni(e, 0, .5) * (s.GetYMax() - s.GetYMin());
      if (s.EnclosesRectangle(q0, q1, q2, q3) != (q0 >= s.GetXMin() && q1 <= s.GetXMax() && q2 >= s.GetYMin() && q3 <= s.GetYMax())) c.fail("rotated EnclosesRectangle"); }
    { Ref o(r); o.ang = 0; RegularSurfaceRotated<double> t(plain(o), r.ang); same(c, t, r, "rotated from plain"); box(c, t, r, "rotated from plain");
      Grid2D<double> g(r.ni, r.nj); for (size_t m = 0; m < g.GetN(); ++m) g(m) = r.z[m]; RegularSurfaceRotated<double> u(r.x0, r.y0, r.lx, r.ly, g, r.ang); u.SetMissingValue(r.miss); same(c, u, r, "rotated from grid"); box(c, u, r, "rotated from grid"); }
    { RegularSurface<double> t = s.ResampleSurface();
      for (size_t i = 0; i < t.GetNI() && c.ok(); ++i) for (size_t j = 0; j < t.GetNJ() && c.ok(); ++j) { double x, y; t.GetXY(i, j, x, y); double h = 1e-9 * (1 + std::fabs(x) + std::fabs(y));
        // rounding at an edge of the area may decide between a value and missing
        double w = s.GetZ(x, y); bool edge = false; for (int k = 0; k < 4; ++k) { double q = s.GetZ(x + (k < 2 ? h : -h), y + (k % 2 ? h : -h)); if ((q == r.miss) != (w == r.miss) || (w != r.miss && std::fabs(q - w) > 1e-3)) edge = true; }
        if (!edge && (w == r.miss ? t(i, j) != t.GetMissingValue() : !close(t(i, j), w, 1e-6, 1e-5))) c.fail("ResampleSurface: node " + std::to_string(i) + "," + std::to_string(j) + " at " + num(x) + "," + num(y) + " is " + num(t(i, j)) + ", the surface there is " + num(w)); }
      if (!close(t.GetXMin(), s.GetXMin()) || !close(t.GetXMax(), s.GetXMax(), 1e-9, 1e-9) || !close(t.GetYMin(), s.GetYMin()) || !close(t.GetYMax(), s.GetYMax(), 1e-9, 1e-9)) c.fail("ResampleSurface: area"); } }
}
int main() { return run_cases(one); }
