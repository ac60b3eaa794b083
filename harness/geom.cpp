// executable specification of points, lines, planes, triangles and transformations
#include "common.hpp"
#include <random>
#include <functional>
#include "nrlib/geometry/point.hpp"
#include "nrlib/geometry/line.hpp"
#include "nrlib/geometry/plane.hpp"
#include "nrlib/geometry/triangle.hpp"
#include "nrlib/geometry/transformation.hpp"
using NRLib::Point; using NRLib::Line; using NRLib::Plane; using NRLib::Triangle; using NRLib::Transformation;
typedef std::mt19937_64 E;
static double uni(E& e, double a, double b) { return std::uniform_real_distribution<double>(a, b)(e); }
struct V { double x, y, z; };
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator*(double t, V a) { return {t * a.x, t * a.y, t * a.z}; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(V a) { return std::sqrt(dot(a, a)); }
static Point P(V a) { return Point(a.x, a.y, a.z); }
static V W(const Point& p) { return {p.x, p.y, p.z}; }
static bool eq(double a, double b) { return close(a, b, 1e-8, 1e-8); }
static bool same(V a, V b, double t = 1e-7) { return len(a - b) <= t * (1 + len(a) + len(b)); }
static std::string str(V a) { return "(" + num(a.x) + "," + num(a.y) + "," + num(a.z) + ")"; }
static V rnd(E& e, bool grid) { if (grid) return {double((int)(e() % 7) - 3), double((int)(e() % 7) - 3), double((int)(e() % 7) - 3)}; return {uni(e, -5, 5), uni(e, -5, 5), uni(e, -5, 5)}; }
static double clampp(double t, bool e1, bool e2) { if (e1 && t < 0) t = 0; if (e2 && t > 1) t = 1; return t; }
static double toline(V x, V p, V u, bool e1, bool e2) { double uu = dot(u, u); if (uu == 0) return len(x - p); double t = clampp(dot(x - p, u) / uu, e1, e2); return len(x - p - t * u); }
// least distance of two lines: a free solution inside, or an end of one against the other
static double lines(V p, V u, const bool* f, V r, V v, const bool* g) {
  double best = 1e300; double a = dot(u, u), b = dot(u, v), c = dot(v, v); V w = p - r; double d = dot(u, w), e = dot(v, w), dd = a * c - b * b;
  if (dd > 1e-12 * a * c && a > 0 && c > 0) { double s = (b * e - c * d) / dd, t = (a * e - b * d) / dd; if (clampp(s, f[0], f[1]) == s && clampp(t, g[0], g[1]) == t) best = len(w + s * u - t * v); }
  else { if (!f[0] && !f[1]) best = std::min(best, toline(r, p, u, false, false)); if (!g[0] && !g[1]) best = std::min(best, toline(p, r, v, false, false));
    if (a == 0) best = std::min(best, toline(p, r, v, g[0], g[1])); if (c == 0) best = std::min(best, toline(r, p, u, f[0], f[1]));
    if ((f[0] != f[1]) && (g[0] != g[1]) && a > 0 && c > 0) { /* two rays: covered by their ends or facing */ } }
  if (f[0]) best = std::min(best, toline(p, r, v, g[0], g[1])); if (f[1]) best = std::min(best, toline(p + u, r, v, g[0], g[1]));
  if (g[0]) best = std::min(best, toline(r, p, u, f[0], f[1])); if (g[1]) best = std::min(best, toline(r + v, p, u, f[0], f[1]));
  return best;
}
static void points(Case& c, E& e, bool grid) {
  V a = rnd(e, grid), b = rnd(e, grid), d = rnd(e, grid); double t = grid ? double((int)(e() % 7) - 3) + .5 : uni(e, -4, 4); const Point A = P(a), B = P(b), D = P(d);
  if (!same(W(A + B), a + b) || !same(W(A - B), a - b) || !same(W(t * A), t * a) || !same(W(A * t), t * a) || !same(W(A / t), 1 / t * a) || !same(W(-A), -1. * a)) return (void)c.fail("point arithmetic");
  Point x = A; if (!same(W(x += B), a + b) || !same(W(x), a + b)) c.fail("operator+="); x = A; if (!same(W(x -= B), a - b) || !same(W(x), a - b)) c.fail("operator-=");
  x = A; if (!same(W(x *= t), t * a) || !same(W(x), t * a)) c.fail("operator*="); x = A; if (!same(W(x /= t), 1 / t * a) || !same(W(x), 1 / t * a)) c.fail("operator/=");
  if (!eq(A.Dot(B), dot(a, b)) || !eq(NRLib::Dot(A, B), dot(a, b)) || !same(W(A.Cross(B)), cross(a, b)) || !same(W(NRLib::Cross(A, B)), cross(a, b))) c.fail("products of vectors");
  if (!eq(A.Norm(), len(a)) || !eq(NRLib::Norm(A), len(a)) || !eq(A.GetDistance(B), len(a - b)) || !eq(A.GetDistanceXY(B), std::hypot(a.x - b.x, a.y - b.y))) c.fail("lengths");
  if ((A == B) != (a.x == b.x && a.y == b.y && a.z == b.z) || (A != B) == (A == B) || !(A == Point(A))) c.fail("equality");
  { double tol = std::pow(10., uni(e, -6, -1)); V n = a; double* q[3] = {&n.x, &n.y, &n.z}; bool in = true; const double f[3] = {a.x, a.y, a.z};
    for (int k = 0; k < 3; ++k) { double r = uni(e, 0, 2.4) < 2 ? uni(e, -.95, .95) : uni(e, 1.05, 2.); double s = std::fabs(f[k]) < 1 ? tol : tol * std::fabs(f[k]); *q[k] += r * s; if (std::fabs(r) > 1) in = false; }
    if (P(n).IsEqual(A, tol) != in) c.fail("IsEqual"); }
  V n = W(A.GetNormalized()); x = A; x.Normalize(); if (!same(n, W(x))) c.fail("Normalize"); if (len(a) == 0 ? len(n) != 0 : !(eq(len(n), 1) && same(len(a) * n, a))) c.fail("GetNormalized");
  if (len(a) > 0 && len(b) > 0) { double g = A.GetAngle(B); if (!(std::fabs(g - std::atan2(len(cross(a, b)), dot(a, b))) < 1e-6)) c.fail("angle of " + str(a) + " and " + str(b) + " is " + num(g)); } else if (A.GetAngle(B) != 0) c.fail("angle with zero");
  { V k = uni(e, .1, 9) * a; double g = A.GetAngle(P(k)); if (len(a) > 0 && !(std::fabs(g) < 1e-6)) c.fail("angle of " + str(a) + " and " + str(k) + " is " + num(g)); g = A.GetAngle(P(-1. * k)); if (len(a) > 0 && !(std::fabs(g - std::acos(-1.)) < 1e-6)) c.fail("angle of opposite vectors is " + num(g)); }
  if (!eq(A.LeftFromLineXY(B, D), (d.x - b.x) * (a.y - b.y) - (a.x - b.x) * (d.y - b.y))) c.fail("LeftFromLineXY");
  std::vector<Point> l; double L = 0; int m = e() % 6; for (int k = 0; k < m; ++k) { l.push_back(P(rnd(e, grid))); if (k) L += len(W(l[k]) - W(l[k - 1])); } if (!eq(Point::CalculatePointVectorLength(l), L)) c.fail("length of a list");
  bool in = false; for (auto& q : l) in = in || (q.x == a.x && q.y == a.y && q.z == a.z); if (A.IsInList(l) != in) c.fail("IsInList"); l.insert(l.begin() + e() % (l.size() + 1), A); if (!A.IsInList(l)) c.fail("IsInList of a member");
  Point y = A, z = B; y.Swap(z); if (!(y == B) || !(z == A)) c.fail("Swap");
  double det = dot(d, cross(a, b)); if (std::fabs(det) > 1e-2) { double q; Point s1, s2, s3; NRLib::NRLibPrivate::Matrix3DInverse(A, B, D, q, s1, s2, s3); if (!eq(q, det)) c.fail("determinant"); V du[3] = {{s1.x, s2.x, s3.x}, {s1.y, s2.y, s3.y}, {s1.z, s2.z, s3.z}}, v[3] = {a, b, d};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (std::fabs(dot(du[i], v[j]) - (i == j)) > 1e-6) c.fail("inverse matrix"); }
}
static void lineops(Case& c, E& e, bool grid) {
  for (int k = 0; k < 12 && c.ok(); ++k) {
    V p = rnd(e, grid), u = rnd(e, grid), r = rnd(e, grid), v = rnd(e, grid), x = rnd(e, grid); bool f[2] = {e() % 2 == 0, e() % 2 == 0}, g[2] = {e() % 2 == 0, e() % 2 == 0};
    if (e() % 4 == 0) v = (e() % 2 ? 2. : -1.) * u; if (e() % 12 == 0) { u = V{0, 0, 0}; f[0] = f[1] = true; } if (e() % 12 == 0) { v = V{0, 0, 0}; g[0] = g[1] = true; }
    if (dot(u, u) == 0) f[0] = f[1] = true; if (dot(v, v) == 0) g[0] = g[1] = true;
    std::string w = " for " + str(p) + " + s" + str(u) + (f[0] ? " end" : "") + (f[1] ? " End" : "") + ", " + str(r) + " + t" + str(v) + (g[0] ? " end" : "") + (g[1] ? " End" : "") + ", point " + str(x);
    Line l(P(p), P(p + u), f[0], f[1]), m; m.SetPt(P(r), P(r + v), g[0], g[1]); Point o1, o2;
    if (!same(W(l.GetPt1()), p) || !same(W(m.GetPt2()), r + v) || l.IsEndPt1() != f[0] || l.IsEndPt2() != f[1] || m.GetPt1(o1) != g[0] || m.GetPt2(o2) != g[1] || !same(W(o1), r) || !same(W(o2), r + v)) c.fail("parts of a line");
    if (f[0] && f[1] ? !eq(l.GetLength(), len(u)) : l.GetLength() < 1e300) c.fail("length of a line"); if (len(u) > 0 && !same(W(l.GetDir()), 1 / len(u) * u)) c.fail("direction");
    double D = toline(x, p, u, f[0], f[1]); V q = W(l.FindProjection(P(x))); if (!eq(l.FindDistance(P(x)), D) || !eq(len(q - x), D) || !(toline(q, p, u, f[0], f[1]) < 1e-6)) c.fail("nearest point " + str(q) + w);
    if (l.IsPointOnLine(P(x), D * 1.001 + 1e-5) == false || (D > 1e-3 && l.IsPointOnLine(P(x), D * .999))) c.fail("IsPointOnLine" + w);
    if (len(u) > 0) { if (!eq(l.FindParameter(P(x)), dot(x - p, u) / dot(u, u))) c.fail("FindParameter" + w); bool right; double z = cross(u, x - p).z; double dd = l.FindDistanceAndSide(P(x), right); if (!eq(dd, D)) c.fail("distance with side" + w); if (std::fabs(z) > 1e-6 && right != (z < 0)) c.fail("side" + w); }
    double a = dot(u, u), b = dot(v, v), dd = a * b - dot(u, v) * dot(u, v); bool par = a > 0 && b > 0 && len(cross(u, v)) == 0;
    if (a == 0 || b == 0 || (par && grid) || dd > 1e-4 * a * b) { double want = lines(p, u, f, r, v, g), got = l.FindDistance(m, o1, o2);
      // every pair of allowed points, sampled
      if (!(std::fabs(got - want) < 1e-6 * (1 + want))) c.fail("distance of lines is " + num(got) + " expected " + num(want) + w); if (!eq(l.FindDistance(m), got) || !eq(o1.GetDistance(o2), got)) c.fail("nearest points" + w);
      if (!(toline(W(o1), p, u, f[0], f[1]) < 1e-6) || !(toline(W(o2), r, v, g[0], g[1]) < 1e-6)) c.fail("nearest points off the lines" + w); }
    if (a > 0 && b > 0) { double sn = len(cross(u, v)) / std::sqrt(a * b); if (!l.IsParallel(m, sn * 1.01 + 1e-9) || (sn > 1e-3 && l.IsParallel(m, sn * .99))) c.fail("IsParallel" + w); V k{double(1 << e() % 3), 0, 0}; V k2{0, k.x, 0}; k = e() % 2 ? k : k2;
      Line y(P(p), P(p + k), true, true), z(P(r), P(r - 2. * k), true, true); if (!y.IsParallel(z)) c.fail("IsParallel without limit for " + str(k)); }
    if (par) { double lim = 1e-3; double o = std::min(std::min(toline(r, p, u, f[0], f[1]), toline(r + v, p, u, f[0], f[1])), std::min(toline(p, r, v, g[0], g[1]), toline(p + u, r, v, g[0], g[1]))); if (l.IsOverLapping(m, lim) != (o < lim)) c.fail("IsOverLapping" + w); }
    double den = u.x * v.y - u.y * v.x; bool inf = e() % 2; Point o(9, 9, 9); bool hit = l.IntersectXY(m, o, inf); if (std::fabs(den) > 1e-3) { double s = ((r.x - p.x) * v.y - (r.y - p.y) * v.x) / den, t = ((r.x - p.x) * u.y - (r.y - p.y) * u.x) / den; auto away = [](double h) { return std::fabs(h) > 1e-9 && std::fabs(h - 1) > 1e-9; };
      if (away(t) && (inf || away(s))) { bool in = t > 0 && t < 1 && (inf || (s > 0 && s < 1)); if (hit != in || !same(W(o), in ? V{p.x + s * u.x, p.y + s * u.y, 0} : V{0, 0, 0})) c.fail("IntersectXY" + w); } } else if (den == 0 && (hit || len(W(o)) != 0)) c.fail("IntersectXY of parallel lines" + w);
    Line xy = l.LineXY(); if (!same(W(xy.GetPt1()), V{p.x, p.y, 0}) || !same(W(xy.GetPt2()), V{p.x + u.x, p.y + u.y, 0}) || xy.IsEndPt1() != f[0] || xy.IsEndPt2() != f[1]) c.fail("LineXY");
    if (a > 0) { Line i = Line::InfiniteLine(P(p), P(u)), y = Line::Ray(P(p), P(u)), s = Line::Segment(P(p), P(u)); if (i.IsEndPt1() || i.IsEndPt2() || !y.IsEndPt1() || y.IsEndPt2() || !s.IsEndPt1() || !s.IsEndPt2() || !same(W(i.GetPt2()), p + u) || !same(W(y.GetPt2()), p + u) || !same(W(s.GetPt2()), u)) c.fail("kinds of lines");
      double an = uni(e, -7, 7); i = Line::InfiniteLine(P(p), an); if (!same(W(i.GetDir()), V{std::cos(an), std::sin(an), 0}) || i.IsEndPt1() || i.IsEndPt2() || !same(W(i.GetPt1()), p)) c.fail("line by angle"); }
  }
}
static void planes(Case& c, E& e, bool grid) {
  V r = rnd(e, grid), n = rnd(e, grid), x = rnd(e, grid), a = rnd(e, grid), b = rnd(e, grid); if (len(n) < .1) return; Plane p(P(r), P(n)); V m = 1 / len(n) * n; double h = dot(m, x - r);
  if (!same(W(p.GetNormalVector()), m) || !same(W(p.GetRefPoint()), r)) c.fail("plane"); if (!eq(p.FindDistance(P(x)), std::fabs(h)) || !same(W(p.FindProjection(P(x))), x - h * m)) c.fail("distance to a plane");
  if (std::fabs(h) > 1e-9 && p.IsOnPositiveSide(P(x)) != (h > 0)) c.fail("side of a plane"); if (!p.IsPointOnPlane(P(x), std::fabs(h) * 1.001 + 1e-9) || (std::fabs(h) > 1e-3 && p.IsPointOnPlane(P(x), std::fabs(h) * .999))) c.fail("IsPointOnPlane");
  V u = rnd(e, grid); bool f[2] = {e() % 2 == 0, e() % 2 == 0}; if (len(u) > 0) { Line l(P(x), P(x + u), f[0], f[1]); double b_ = dot(m, u), lim = e() % 2 ? 0. : 1e-3; Point o; if (std::fabs(b_) > 2e-3) { double t = -h / b_; V q = x + t * u; bool in = !(f[0] && t < 0) && !(f[1] && t > 1); if (p.IsParallel(l, lim)) c.fail("IsParallel to a plane"); if (!same(W(p.FindIntersection(l)), q)) c.fail("plane and line");
      if (std::fabs(t) > 1e-9 && std::fabs(t - 1) > 1e-9 && (p.FindIntersection(l, o, lim) != in || (in && !same(W(o), q)))) c.fail("plane and bounded line"); } else if (std::fabs(b_) < 1e-12 && (!p.IsParallel(l, 1e-6) || p.FindIntersection(l, o, 1e-6))) c.fail("line parallel to a plane"); }
  V k = cross(n, b); if (len(b) > .1 && len(k) > .1) { Plane q(P(a), P(b)); Line l = p.FindIntersection(q); V s = W(l.GetPt1()), t = W(l.GetPt2()); if (l.IsEndPt1() || l.IsEndPt2() || len(t - s) < 1e-9) c.fail("line of two planes"); for (V y : {s, t, s + 3. * (t - s)}) if (p.FindDistance(P(y)) > 1e-6 * (1 + len(y)) || q.FindDistance(P(y)) > 1e-6 * (1 + len(y))) c.fail("line of two planes"); }
  { Plane q(P(a), P(n)), q2(P(r), P(n)); Line l = q.FindIntersection(q2); if (len(W(l.GetPt1()) - W(l.GetPt2())) > 1e-9) c.fail("parallel planes"); }
  V y = cross(x - r, a - r); if (len(y) > .1) { Plane q(P(r), P(x), P(a)); if (!same(W(q.GetNormalVector()), 1 / len(y) * y)) c.fail("plane of three points"); for (V z : {r, x, a}) if (q.FindDistance(P(z)) > 1e-7) c.fail("plane of three points"); }
}
static void exact(Case& c, E& e) {   // edges and ends in numbers without rounding
  auto pick = [&e](std::initializer_list<double> l) { return *(l.begin() + e() % l.size()); };
  V ax[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; int k0 = e() % 3; V X = ax[k0], Y = ax[(k0 + 1) % 3], Z = ax[(k0 + 2) % 3]; V p = rnd(e, true);
  for (int k = 0; k < 12 && c.ok(); ++k) {
    double h = pick({1, 2, 4}), s = pick({-.25, 0, .25, .5, 1, 1.25}), q = pick({-.25, 0, .25, .5, .75, 1}), r = pick({-.5, 0, .5, 1, 1.5}); bool f[2] = {e() % 2 == 0, e() % 2 == 0}, edge = e() % 2;
    V u = h * X, v = pick({1, 2, -2}) * Y, d = pick({1, 2, -4}) * Z; V x = p + s * u + q * v, a = x - r * d; Line l(P(a), P(a + d), f[0], f[1]); Point o; Triangle t(P(p), P(p + u), P(p + v)), t2; t2.SetCornerPoints(P(p), P(p + u), P(p + v));
    std::string w = " for s " + num(s) + " t " + num(q) + " r " + num(r) + (edge ? " edge" : "") + (f[0] ? " end" : "") + (f[1] ? " End" : "");
    bool on = !(f[0] && r < 0) && !(f[1] && r > 1), in = on && (edge ? s >= 0 && q >= 0 && s + q <= 1 : s > 0 && q > 0 && s + q < 1); if (t.FindIntersection(l, o, edge) != in || (in && !same(W(o), x))) c.fail("triangle and line" + w); if (t2.FindIntersection(l, o, edge) != in) c.fail("corner points set" + w);
    Plane z(P(p), P(pick({1, 2, -4}) * Z)); if (z.FindIntersection(l, o) != on || (on && !same(W(o), x))) c.fail("plane and line" + w); if (z.IsParallel(l) || !z.IsPointOnPlane(P(x)) || z.IsPointOnPlane(P(x + d)) || z.IsOnPositiveSide(P(x))) c.fail("plane" + w);
    Line y(P(a), P(a + u)); if (!z.IsParallel(y) || z.FindIntersection(y, o)) c.fail("parallel line" + w); if (!y.IsEndPt1() || !y.IsEndPt2()) c.fail("a line of two points is a segment"); y.SetPt(P(p), P(p + d)); if (!y.IsEndPt1() || !y.IsEndPt2()) c.fail("a line set to two points is a segment");
    if (!y.IsParallel(l) || Line(P(p), P(p + u)).IsParallel(l) || Line(P(p), P(p + d + .0001220703125 * u)).IsParallel(l)) c.fail("parallel without limit" + w); if (!y.IsPointOnLine(P(p)) || !y.IsPointOnLine(P(p + .5 * d)) || y.IsPointOnLine(P(p + .125 * u)) || y.IsPointOnLine(P(p - .5 * d))) c.fail("point on a line" + w);
    if (!y.IsOverLapping(Line(P(p + .5 * d), P(p + 2. * d))) || y.IsOverLapping(Line(P(p + 1.5 * d), P(p + 2. * d))) || y.IsOverLapping(Line(P(p + .5 * u), P(p + d + .5 * u)))) c.fail("overlap" + w);
    // lines of the horizontal plane that meet at their parameters s and r
    V g{pick({1, 2, -4}), 0, 1}, m{0, pick({1, -2, 4}), 2}; if (e() % 2) std::swap(g, m); V b = p - s * g, j = p - r * m; j.z = 7; bool inf = e() % 2, hit = r >= 0 && r <= 1 && (inf || (s >= 0 && s <= 1)); Line l1(P(b), P(b + g)), l2(P(j), P(j + m));
    if (l1.IntersectXY(l2, o, inf) != hit || !same(W(o), hit ? V{p.x, p.y, 0} : V{0, 0, 0})) c.fail("IntersectXY" + w); if (!inf && l1.IntersectXY(l2, o) != hit) c.fail("IntersectXY of segments" + w);
  }
}
static void triangles(Case& c, E& e, bool grid) {
  exact(c, e);
  V p = rnd(e, grid), u = rnd(e, grid), v = rnd(e, grid), d = rnd(e, grid); V n = cross(u, v); if (len(n) < .3 || std::fabs(dot(n, d)) < .3) return; Triangle t(P(p), P(p + u), P(p + v));
  for (int k = 0; k < 8 && c.ok(); ++k) { double s = uni(e, -.5, 1.3), q = uni(e, -.5, 1.3), r = uni(e, -1, 2); bool f[2] = {e() % 2 == 0, e() % 2 == 0}, edge = e() % 2; V x = p + s * u + q * v, a = x - r * d; Line l(P(a), P(a + d), f[0], f[1]); Point o;
    auto away = [](double h) { return std::fabs(h) > 1e-7; }; if (!away(s) || !away(q) || !away(s + q - 1) || !away(r) || !away(r - 1)) continue;
    bool in = s > 0 && q > 0 && s + q < 1 && !(f[0] && r < 0) && !(f[1] && r > 1); bool hit = t.FindIntersection(l, o, edge); if (hit != in || (in && !same(W(o), x))) c.fail("triangle and line");
    double near = t.FindNearestPoint(l, o), want = 1e300; bool ff[2] = {true, true}; if (in) want = 0; else { want = std::min(want, lines(p, u, ff, a, d, f)); want = std::min(want, lines(p, v, ff, a, d, f)); want = std::min(want, lines(p + u, v - u, ff, a, d, f)); }
    if (in ? near != 0 || !same(W(o), x) : !eq(near, want)) c.fail("nearest point of a triangle"); if (!in) { double dist = toline(W(o), a, d, f[0], f[1]); if (!eq(dist, near)) c.fail("nearest point of a triangle, its distance"); V m = 1 / len(n) * n; V y = W(o) - p; double D = dot(n, n); double s1 = dot(cross(y, v), n) / D, q1 = dot(cross(u, y), n) / D; if (std::fabs(dot(m, y)) > 1e-6 || s1 < -1e-6 || q1 < -1e-6 || s1 + q1 > 1 + 1e-6) c.fail("nearest point outside the triangle"); } }
}
static void transf(Case& c, E& e, bool grid) {
  Transformation t; V x = rnd(e, grid), y = x; Point p = P(x); t.Transform(p); if (!same(W(p), x)) c.fail("new transformation"); int n = e() % 7;
  std::string w; for (int k = 0; k < n; ++k) { double a = uni(e, -2, 2), b = uni(e, -2, 2), cs = std::cos(a), sn = std::sin(a); int op = e() % 15; w += " " + std::to_string(op); V z = y;
    Transformation* r = 0;
    switch (op) { case 0: r = &t.TranslateX(a); y.x += a; break; case 1: r = &t.TranslateY(a); y.y += a; break; case 2: r = &t.TranslateZ(a); y.z += a; break; case 3: r = &t.StretchX(a); y.x *= a; break; case 4: r = &t.StretchY(a); y.y *= a; break; case 5: r = &t.StretchZ(a); y.z *= a; break;
      case 6: r = &t.RotateX(a); y = {z.x, cs * z.y - sn * z.z, sn * z.y + cs * z.z}; break; case 7: r = &t.RotateY(a); y = {cs * z.x + sn * z.z, z.y, cs * z.z - sn * z.x}; break; case 8: r = &t.RotateZ(a); y = {cs * z.x - sn * z.y, sn * z.x + cs * z.y, z.z}; break;
      case 9: r = &t.ShearXY(a, b); y = {z.x + a * z.z, z.y + b * z.z, z.z}; break; case 10: r = &t.ShearXZ(a, b); y = {z.x + a * z.y, z.y, z.z + b * z.y}; break; case 11: r = &t.ShearYZ(a, b); y = {z.x, z.y + a * z.x, z.z + b * z.x}; break;
      case 12: r = &t.MirrorXY(); y.z = -z.z; break; case 13: r = &t.MirrorXZ(); y.y = -z.y; break; default: r = &t.MirrorYZ(); y.x = -z.x; }
    if (r != &t) c.fail("result of a transformation"); }
  p = P(x); t.Transform(p); if (!same(W(p), y)) c.fail("transformations" + w + " of " + str(x) + " give " + str(W(p)) + " expected " + str(y));
}
static void one(Case& c) {
  std::string k = c.s(); E e((unsigned long)c.i() * 7919 + 11); bool grid = e() % 2;
  if (k == "points") points(c, e, grid); else if (k == "lines") lineops(c, e, grid); else if (k == "planes") planes(c, e, grid); else if (k == "triangles") triangles(c, e, grid); else transf(c, e, grid);
}
int main() { return run_cases(one); }
