// executable specification of polygons
#include "common.hpp"
#include <random>
#include <cmath>
#include <vector>
#include "nrlib/geometry/point.hpp"
#include "nrlib/geometry/polygon.hpp"
using NRLib::Point; using NRLib::Polygon;
typedef std::mt19937_64 E;
static double uni(E& e, double a, double b) { return std::uniform_real_distribution<double>(a, b)(e); }
typedef std::vector<std::pair<double, double> > L;
static double seg(double x, double y, double ax, double ay, double bx, double by) { double ux = bx - ax, uy = by - ay, uu = ux * ux + uy * uy; double t = uu > 0 ? ((x - ax) * ux + (y - ay) * uy) / uu : 0; t = std::min(1., std::max(0., t)); return std::hypot(x - ax - t * ux, y - ay - t * uy); }
static double step(const L& p, size_t i, size_t j) { return std::hypot(p[i].first - p[j].first, p[i].second - p[j].second); }
static double area2(const L& p) { double s = 0; for (size_t i = 0; i < p.size(); ++i) { size_t j = (i + 1) % p.size(); s += p[i].first * p[j].second - p[i].second * p[j].first; } return s; }
static double turn(const L& p, size_t i) { size_t n = p.size(), j = (i + 1) % n, k = (i + 2) % n; return (p[j].first - p[i].first) * (p[k].second - p[j].second) - (p[j].second - p[i].second) * (p[k].first - p[j].first); }
static void one(Case& c) {
  c.s(); E e((unsigned long)c.i() * 7919 + 5); int kind = e() % 4; size_t n = 1 + e() % 9; L p; double sh = e() % 2 ? 0 : (double)(e() % 40) - 20;
  if (kind == 0) for (size_t i = 0; i < n; ++i) p.push_back({double(e() % 9) - 4 + sh, double(e() % 9) - 4 - sh});            // lattice
  else if (kind == 1) for (size_t i = 0; i < n; ++i) p.push_back({uni(e, -4, 4) + sh, uni(e, -4, 4) - sh});
  else { n += 2; bool rev = e() % 2; double r0 = uni(e, 1, 4), a0 = uni(e, 0, 6); std::vector<double> a; for (size_t i = 0; i < n; ++i) a.push_back(a0 + 6.283185307 * (i + uni(e, 0, .8)) / n); for (size_t i = 0; i < n; ++i) { double q = a[rev ? n - 1 - i : i], r = kind == 2 ? r0 : r0 * uni(e, .2, 1.5); p.push_back({sh + r * std::cos(q), r * std::sin(q) - sh}); } }
  Polygon g; std::string w = " of"; for (auto& q : p) { g.AddPoint(Point(q.first, q.second, 0)); w += " (" + num(q.first) + "," + num(q.second) + ")"; }
  const Polygon& k = g; if (g.GetSize() != n || Polygon().GetSize() != 0 || Polygon(n).GetSize() != n) return (void)c.fail("size" + w);
  for (size_t i = 0; i < n; ++i) if (k(i).x != p[i].first || k[i].y != p[i].second || g(i).x != p[i].first || g[i].y != p[i].second) c.fail("points" + w);
  { std::vector<Point> v(3), z; const std::vector<Point>& r = k.GetPoints(v); if (&r != &v || v.size() != n) c.fail("GetPoints" + w); std::vector<Point>& r2 = g.GetPoints(z, true); if (&r2 != &z || z.size() != n + 1) return (void)c.fail("closed GetPoints" + w); for (size_t i = 0; i <= n; ++i) if (!(z[i] == k[i % n]) || (i < n && !(v[i] == k[i]))) c.fail("GetPoints" + w); std::vector<Point> y(2); if (!Polygon().GetPoints(y, true).empty()) c.fail("points of an empty polygon"); }
  if (Polygon().IsInsidePolygonXY(0, 0)) c.fail("inside of an empty polygon");
  for (int q = 0; q < 12 && c.ok(); ++q) {   // even-odd rule with a ray in another direction
    double x = sh + (e() % 2 ? double(e() % 9) - 4 : uni(e, -5, 5)), y = e() % 3 ? -sh + (e() % 2 ? double(e() % 9) - 4 : uni(e, -5, 5)) : p[e() % n].second; bool on = false, in = false;
    for (size_t i = 0, j = n - 1; i < n; j = i++) { if (seg(x, y, p[i].first, p[i].second, p[j].first, p[j].second) < 1e-7) on = true; double ax = p[i].first, bx = p[j].first; if ((ax > x) != (bx > x)) if ((x - ax) / (bx - ax) * (p[j].second - p[i].second) + p[i].second > y) in = !in; }
    if (!on && (k.IsInsidePolygonXY(x, y) != in || k.IsInsidePolygonXY(Point(x, y, 3)) != in)) c.fail("(" + num(x) + "," + num(y) + ") inside" + w); }
  double A = area2(p); if (std::fabs(A) > 1e-7 && g.IsCounterclockwise() != (A > 0)) c.fail("orientation" + w);
  double b[4] = {7, 7, 7, 7}; g.XYExtent(b[0], b[1], b[2], b[3]); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } if (b[0] != x0 || b[1] != x1 || b[2] != y0 || b[3] != y1) c.fail("extent" + w);
  double C = 0; for (size_t i = 0; i < n; ++i) C += step(p, i, (i + 1) % n); if (!close(k.GetCircumferenceXY(), C, 1e-9, 1e-9)) c.fail("circumference" + w);
  { size_t i = e() % n, j = e() % n; double d = 0; for (size_t q = std::min(i, j); q < std::max(i, j); ++q) d += step(p, q, q + 1); if (!close(k.DistanceBetweenPointsXY(i, j), std::min(d, C - d), 1e-9, 1e-9)) c.fail("distance along the border" + w); }
  { size_t i = e() % n, f = 0; while (!(k[f] == k[i])) ++f; if (k.FindPointPosition(k[i]) != f || k.FindPointPosition(Point(100, 100, 0)) != n) c.fail("position" + w); }
  if (n >= 3 && std::fabs(A) > 1e-6) { bool cv = true, near = false; for (size_t i = 0; i < n; ++i) { double t = turn(p, i) * (A > 0 ? 1 : -1); if (t < 0) cv = false; if (std::fabs(t) < 1e-9 && kind) near = true; } if (!near && g.IsConvex() != cv) c.fail("convexity" + w);
    if (kind >= 2 && !near) { Polygon m = g; m.MakeConvex(); size_t f = 0, q = 0; for (; f < n && q < m.GetSize(); ++f) if (m[q] == k[f]) ++q; if (q != m.GetSize() || q < 3 || !m.IsConvex()) c.fail("made convex" + w); if (cv && m.GetSize() != n) c.fail("a convex polygon is changed" + w); } }
}
int main() { return run_cases(one); }
