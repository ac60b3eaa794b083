// executable specification of the seismic geometry: positions, inline/crossline numbers, cells
#include "common.hpp"
#include <random>
#include "nrlib/segy/segygeometry.hpp"
#include "nrlib/segy/segytrace.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
using namespace NRLib;
typedef std::mt19937_64 E;
typedef std::string S;
static double uni(E& e, double a, double b) { return std::uniform_real_distribution<double>(a, b)(e); }
static int pick(E& e, int a, int b) { return a + (int)(e() % (unsigned)(b - a + 1)); }
// the specification: cells (u, v) in a rotated frame; inlines along the first axis or the second, upwards or downwards
static double sc(double t) { double r = std::cos(t); return std::fabs(r) < 1e-9 ? 0 : std::fabs(std::fabs(r) - 1) < 1e-14 ? (r > 0 ? 1 : -1) : r; }
static double ss(double t) { double r = std::sin(t); return std::fabs(r) < 1e-9 ? 0 : std::fabs(std::fabs(r) - 1) < 1e-14 ? (r > 0 ? 1 : -1) : r; }
struct P { double x0, y0, dx, dy, rot; int nx, ny, il0, xl0, a, b, si, sx; bool first;
  void glob(double u, double v, double& x, double& y) const { x = x0 + sc(rot) * u * dx - ss(rot) * v * dy; y = y0 + ss(rot) * u * dx + sc(rot) * v * dy; }
  void lines(double u, double v, double& il, double& xl) const { il = il0 + si * a * ((first ? u : v) - .5); xl = xl0 + sx * b * ((first ? v : u) - .5); }
  int nil() const { return first ? nx : ny; } int nxl() const { return first ? ny : nx; }
  int minil() const { return si > 0 ? il0 : il0 - (nil() - 1) * a; } int maxil() const { return minil() + (nil() - 1) * a; }
  int minxl() const { return sx > 0 ? xl0 : xl0 - (nxl() - 1) * b; } int maxxl() const { return minxl() + (nxl() - 1) * b; } };
static bool near(double a, double b, double t) { return std::fabs(a - b) <= t; }
static bool throws_index(const SegyGeometry& g, int il, int xl) { size_t i, j; try { g.FindIndex(il, xl, i, j); } catch (Exception&) { return true; } return false; }
static double awrap(double a) { return std::remainder(a, 2 * 3.14159265358979323846); }
static void verify(Case& c, const SegyGeometry& g, const P& p, E& e, const S& w) {
  double sc = std::max(p.dx * p.nx, p.dy * p.ny) + std::fabs(p.x0) + std::fabs(p.y0) + 1, tx = 1e-8 * sc;
  auto bad = [&](const S& s) { c.fail(w + ": " + s); };
  if ((int)g.GetNx() != p.nx || (int)g.GetNy() != p.ny) return bad("size " + std::to_string(g.GetNx()) + "x" + std::to_string(g.GetNy()) + " expected " + std::to_string(p.nx) + "x" + std::to_string(p.ny));
  if (!near(g.GetX0(), p.x0, tx) || !near(g.GetY0(), p.y0, tx) || !close(g.GetDx(), p.dx, 1e-8) || !close(g.GetDy(), p.dy, 1e-8) || !near(awrap(g.GetAngle() - p.rot), 0, 1e-8)) return bad("position");
  if (!close(g.Getlx(), p.nx * p.dx, 1e-8) || !close(g.Getly(), p.ny * p.dy, 1e-8)) return bad("length");
  if (!near(g.GetCosRot(), std::cos(p.rot), 1e-9) || !near(g.GetSinRot(), std::sin(p.rot), 1e-9)) return bad("angle");
  if (g.GetIL0() != p.il0 || g.GetXL0() != p.xl0 || g.GetMinIL() != p.minil() || g.GetMaxIL() != p.maxil() || g.GetMinXL() != p.minxl() || g.GetMaxXL() != p.maxxl()) return bad("ranges of lines");
  if ((p.nil() > 1 && g.GetILStep() != p.a) || (p.nxl() > 1 && g.GetXLStep() != p.b)) return bad("steps");
  if (g.GetFirstAxisIL() != p.first) return bad("first axis");
  for (int t = 0; t < 30 && c.ok(); ++t) {
    int i = pick(e, 0, p.nx - 1), j = pick(e, 0, p.ny - 1); if (t == 0) { i = p.nx - 1; j = p.ny - 1; } if (t == 1) { i = 0; j = p.ny - 1; } if (t == 2) { i = p.nx - 1; j = 0; }
    int il, xl; double dil, dxl; size_t I, J; g.FindILXL((size_t)i, (size_t)j, il, xl); p.lines(i + .5, j + .5, dil, dxl); if (il != (int)std::lround(dil) || xl != (int)std::lround(dxl)) return bad("FindILXL of a cell");
    try { g.FindIndex(il, xl, I, J); if ((int)I != i || (int)J != j) return bad("FindIndex of line numbers"); } catch (Exception&) { return bad("line numbers of a cell refused"); }
    double x, y, X, Y; g.FindXYFromIJ(i, j, x, y); p.glob(i + .5, j + .5, X, Y); if (!near(x, X, tx) || !near(y, Y, tx)) return bad("FindXYFromIJ");
    g.FindXYFromILXL(il, xl, x, y); if (!near(x, X, tx) || !near(y, Y, tx)) return bad("FindXYFromILXL"); }
  for (int s = -1; s < 2; s += 2) { int il = s < 0 ? p.minil() - p.a : p.maxil() + p.a, xl = s < 0 ? p.minxl() - p.b : p.maxxl() + p.b; int mi = p.minil() + p.a * pick(e, 0, p.nil() - 1), mx = p.minxl() + p.b * pick(e, 0, p.nxl() - 1);
    if (p.nil() > 1 && !throws_index(g, il, mx)) return bad("inline " + std::to_string(il) + " outside the data accepted"); if (p.nxl() > 1 && !throws_index(g, mi, xl)) return bad("crossline " + std::to_string(xl) + " outside the data accepted"); }
  for (int t = 0; t < 40 && c.ok(); ++t) {
    double u = uni(e, -.5, p.nx + .5), v = uni(e, -.5, p.ny + .5), x, y, il, xl, L, M, a, b; if (t % 5 == 0) u = (e() % 2 ? 0 : p.nx) + uni(e, -1e-3, 1e-3); if (t % 5 == 1) v = (e() % 2 ? 0 : p.ny) + uni(e, -1e-3, 1e-3);
    p.glob(u, v, x, y); p.lines(u, v, L, M); g.FindContILXL(x, y, il, xl); double tl = 1e-8 * (1 + std::max(p.a, p.b)) * (1 + sc / std::min(p.dx, p.dy)); if (!near(il, L, tl) || !near(xl, M, tl)) return bad("FindContILXL");
    g.FindXYFromContILXL(L, M, a, b); if (!near(a, x, tx) || !near(b, y, tx)) return bad("FindXYFromContILXL");
    int wi, wx; g.FindILXL(x, y, wi, wx); auto whole = [&](double s, int r) { return std::fabs(s + .5 - std::floor(s + .5 + .5)) < 1e-5 || r == (int)std::floor(s + .5); }; if (!whole(L, wi) || !whole(M, wx)) return bad("FindILXL at a position: " + num(L) + " " + num(M) + " gave " + std::to_string(wi) + " " + std::to_string(wx));
    bool dir = !((p.nil() == 1 && p.si < 0) || (p.nxl() == 1 && p.sx < 0)); if (!dir) continue;
    double tc = 1e-7; auto off = [&](double s, double r) { return std::fabs(s - r) > tc; }; bool in = u >= 0 && u < p.nx && v >= 0 && v < p.ny; double fu, fv;
    g.FindContIndexFromContILXL(L, M, a, b); if (off(a, u) || off(b, v)) return bad("FindContIndexFromContILXL"); bool r = g.FindContIndex(x, y, fu, fv); if (off(fu, u) || off(fv, v)) return bad("FindContIndex");
    if (!off(u, 0) || !off(u, p.nx) || !off(v, 0) || !off(v, p.ny)) continue; if (r != in || g.IsInside(x, y) != in) return bad("inside test at (" + num(u) + "," + num(v) + ")");
    bool thr = false; size_t I = 0, J = 0, K = 0; try { g.FindIndex(x, y, I, J); K = g.FindIndex(x, y); } catch (Exception&) { thr = true; } if (thr == in) return bad("FindIndex at (" + num(u) + "," + num(v) + ")");
    if (in && off(u, std::round(u)) && off(v, std::round(v)) && ((int)I != (int)u || (int)J != (int)v || K != (size_t)(int)v * p.nx + (int)u)) return bad("cell of a position"); }
}
static P rnd(E& e) { P p; p.x0 = uni(e, -500, 500); p.y0 = uni(e, -500, 500); if (e() % 4 == 0) { p.x0 *= 1000; p.y0 *= 1000; } p.dx = uni(e, .5, 60); p.dy = uni(e, .5, 60); p.rot = uni(e, -3.1, 3.1); if (e() % 4 == 0) p.rot = (int)(e() % 5) * 1.5707963267948966 - 3.14159265358979;
  if (e() % 6 == 0) p.rot = 0; p.nx = pick(e, 1, 12); p.ny = pick(e, 1, 12); p.il0 = pick(e, -60, 200); p.xl0 = pick(e, -60, 200); p.a = pick(e, 1, 5); p.b = pick(e, 1, 5); p.si = e() % 2 ? 1 : -1; p.sx = e() % 2 ? 1 : -1; p.first = e() % 2; return p; }
static SegyGeometry make(const P& p) { double c = std::cos(p.rot), s = std::sin(p.rot), A = p.si * p.a, B = p.sx * p.b; double ux = c / p.dx, uy = s / p.dx, vx = -s / p.dy, vy = c / p.dy;
  return SegyGeometry(p.x0, p.y0, p.dx, p.dy, p.nx, p.ny, p.il0 - .5 * A, p.xl0 - .5 * B, A * (p.first ? ux : vx), A * (p.first ? uy : vy), B * (p.first ? vx : ux), B * (p.first ? vy : uy), p.rot); }
static void plain(P& p) { p.il0 = p.xl0 = 0; p.a = p.b = p.si = p.sx = 1; p.first = false; }
static void one(Case& c) {
  S k = c.s(); E e((unsigned long)c.i() * 6271 + 11); P p = rnd(e);
  if (k == "build") { SegyGeometry g = make(p); verify(c, g, p, e, "built"); SegyGeometry h(&g); verify(c, h, p, e, "copy"); SegyGeometry f(g); verify(c, f, p, e, "copied"); return; }
  if (k == "plain") { plain(p); { SegyGeometry g(p.x0, p.y0, p.dx, p.dy, p.nx, p.ny, p.rot); verify(c, g, p, e, "plain"); }
    { RegularSurfaceRotated<double> s(p.x0, p.y0, p.nx * p.dx, p.ny * p.dy, p.nx + 1, p.ny + 1, p.rot); SegyGeometry g(s); verify(c, g, p, e, "from a rotated surface"); }
    { P r = p; r.rot = 0; RegularSurface<double> s(p.x0, p.y0, p.nx * p.dx, p.ny * p.dy, p.nx + 1, p.ny + 1); SegyGeometry g(s); verify(c, g, r, e, "from a surface"); } return; }
  if (k == "part") { SegyGeometry g = make(p); int lo[2] = {p.minil(), p.minxl()}, hi[2] = {p.maxil(), p.maxxl()}, n[2] = {p.nil(), p.nxl()}, st[2] = {p.a, p.b}, ask[6], cnt[2], mul[2]; bool moved = false, inter = false;
    if ((p.nil() == 1 && p.si < 0) || (p.nxl() == 1 && p.sx < 0)) return; int kind = pick(e, 0, 3);
    for (int t = 0; t < 2; ++t) { int f = pick(e, 0, n[t] - 1); mul[t] = pick(e, 1, 3); cnt[t] = 1 + pick(e, 0, (n[t] - 1 - f) / mul[t]); ask[2 * t] = lo[t] + f * st[t]; ask[2 * t + 1] = ask[2 * t] + (cnt[t] - 1) * mul[t] * st[t]; ask[4 + t] = mul[t] * st[t]; if (mul[t] == 1 && e() % 2) ask[4 + t] = -1; }
    std::vector<int> q; bool al, in;
    if (kind == 0) { for (int t = 0; t < 4; ++t) { q.assign(ask, ask + 6); q[t] = e() % 2 ? lo[t / 2] - pick(e, 1, 9) : hi[t / 2] + pick(e, 1, 9); bool thr = false; try { delete g.GetILXLSubGeometry(q, in, al); } catch (Exception&) { thr = true; } if (!thr) return (void)c.fail("part outside the data accepted"); } return; }
    if (kind == 1) { q.assign(ask, ask + 6); SegyGeometry* h = g.GetILXLSubGeometry(q, in, al); if (in || al) c.fail("part on the lines of the data changed"); P r = p; int dd[2] = {mul[0], mul[1]};
      r.a = p.a * dd[0]; r.b = p.b * dd[1]; r.dx = p.dx * (p.first ? dd[0] : dd[1]); r.dy = p.dy * (p.first ? dd[1] : dd[0]); r.nx = p.first ? cnt[0] : cnt[1]; r.ny = p.first ? cnt[1] : cnt[0]; r.il0 = p.si > 0 ? ask[0] : ask[1]; r.xl0 = p.sx > 0 ? ask[2] : ask[3];
      double il = r.il0 - .5 * p.si * r.a, xl = r.xl0 - .5 * p.sx * r.b; double u = (il - p.il0) / (p.si * p.a) + .5, v = (xl - p.xl0) / (p.sx * p.b) + .5; if (!p.first) std::swap(u, v); p.glob(u, v, r.x0, r.y0);
      // (a part with one line has no direction of its own)
      if (r.nil() == 1) r.si = p.si; verify(c, *h, r, e, "part"); delete h; return; }
    // any request inside: the result stays inside the data, with the asked step, on lines of the data where no interpolation is needed
    for (int t = 0; t < 2; ++t) { int a = pick(e, lo[t], hi[t]), b = pick(e, lo[t], hi[t]); ask[2 * t] = std::min(a, b); ask[2 * t + 1] = std::max(a, b); ask[4 + t] = kind == 2 ? mul[t] * st[t] : pick(e, 1, 3 * st[t]); inter = inter || ask[4 + t] % st[t]; }
    q.assign(ask, ask + 6); SegyGeometry* h = g.GetILXLSubGeometry(q, in, al); if (in != inter) c.fail("interpolation flag");
    int glo[2] = {h->GetMinIL(), h->GetMinXL()}, ghi[2] = {h->GetMaxIL(), h->GetMaxXL()}, gs[2] = {h->GetILStep(), h->GetXLStep()};
    for (int t = 0; t < 2 && c.ok(); ++t) { if (glo[t] < lo[t] || ghi[t] > hi[t] || glo[t] > ghi[t]) c.fail("part leaves the data: " + std::to_string(glo[t]) + ".." + std::to_string(ghi[t])); if (gs[t] != ask[4 + t]) c.fail("step of the part");
      if (!inter && (glo[t] - lo[t]) % st[t]) c.fail("part starts beside the lines of the data"); if (inter && glo[t] != ask[2 * t]) c.fail("start moved"); if (std::abs(glo[t] - ask[2 * t]) >= st[t]) c.fail("start moved by a line or more"); if (glo[t] != ask[2 * t] || ghi[t] != ask[2 * t + 1]) moved = true; }
    if (al != moved) c.fail("alignment flag"); delete h; return; }
  if (k == "area") { SegyGeometry g = make(p); P r = rnd(e); double x, y; p.glob(uni(e, -.3, 1.2) * p.nx, uni(e, -.3, 1.2) * p.ny, x, y); r.x0 = x; r.y0 = y; SegyGeometry t = make(r); std::vector<int> A = g.findAreaILXL(&t);
    if (A.size() != 6 || A[4] != p.a || A[5] != p.b) return (void)c.fail("steps of the area"); int lo[2] = {p.minil(), p.minxl()}, hi[2] = {p.maxil(), p.maxxl()}, st[2] = {p.a, p.b};
    for (int q = 0; q < 2; ++q) { if (A[2 * q] < lo[q] || A[2 * q + 1] > hi[q]) c.fail("area leaves the data"); if ((A[2 * q] - lo[q]) % st[q] || (hi[q] - A[2 * q + 1]) % st[q]) c.fail("area beside the lines of the data"); }
    double mn[2] = {1e300, 1e300}, mx[2] = {-1e300, -1e300};
    for (int s = 0; s < 4; ++s) { r.glob((s & 1) * r.nx, (s >> 1) * r.ny, x, y); double L[2]; g.FindContILXL(x, y, L[0], L[1]); for (int q = 0; q < 2; ++q) { mn[q] = std::min(mn[q], L[q]); mx[q] = std::max(mx[q], L[q]); } }
    for (int q = 0; q < 2 && c.ok(); ++q) { if (mn[q] >= lo[q] && A[2 * q] > mn[q]) c.fail("area starts too late"); if (mx[q] <= hi[q] && A[2 * q + 1] < mx[q]) c.fail("area ends too early"); 
      if (mn[q] > lo[q] + st[q] && A[2 * q] < mn[q] - st[q] - 1) c.fail("area starts too early"); if (mx[q] < hi[q] - st[q] && A[2 * q + 1] > mx[q] + st[q] + 1) c.fail("area ends too late"); } return; }
  if (k == "single") { std::vector<float> none(1, 0.f); std::vector<SegYTrace*> tr(1, new SegYTrace(none, 0, 0, p.x0, p.y0, p.il0, p.xl0)); double X = tr[0]->GetX(), Y = tr[0]->GetY();
    try { SegyGeometry g(tr); size_t i = 9, j = 9; g.FindIndex(p.il0, p.xl0, i, j); if (i || j) c.fail("single trace: cell of the numbers"); g.FindIndex(X, Y, i, j); if (i || j) c.fail("single trace: cell of the position");
      double t = 1e-6 * (1 + std::fabs(X) + std::fabs(Y)), a, b; int il, xl; g.FindContILXL(X, Y, a, b); if (!near(a, p.il0, t) || !near(b, p.xl0, t)) c.fail("single trace: numbers of the position"); g.FindILXL(i, j, il, xl); if (il != p.il0 || xl != p.xl0) c.fail("single trace: numbers of the cell");
      g.FindXYFromIJ(0, 0, a, b); if (!near(a, X, t) || !near(b, Y, t)) c.fail("single trace: centre"); g.FindXYFromILXL(il, xl, a, b); if (!near(a, X, t) || !near(b, Y, t)) c.fail("single trace: position of the numbers");
      double u = uni(e, -.04, .04), v = uni(e, -.04, .04); g.FindContILXL(X + u, Y + v, a, b); if (!near(a, p.il0 + 10 * u, t) || !near(b, p.xl0 + 10 * v, t)) c.fail("single trace: numbers beside the position");
      if (!g.IsInside(X + u, Y + v) || g.IsInside(X + .06, Y) || g.IsInside(X, Y - .06)) c.fail("single trace: inside test"); if (g.GetNx() != 1 || g.GetNy() != 1 || g.GetMinIL() != p.il0 || g.GetMaxXL() != p.xl0 || g.GetMinXL() != p.xl0 || g.GetMaxIL() != p.il0) c.fail("single trace: ranges");
    } catch (Exception& ex) { c.fail(S("single trace refused: ") + ex.what()); } delete tr[0]; return; }
  // geometry recovered from a lattice of traces
  if (p.nx < 2 && p.ny < 2) { p.nx = 2; } 
  std::vector<SegYTrace*> tr; std::vector<float> none(1, 0.f); bool byil = e() % 2; int no = byil ? p.nil() : p.nxl(), ni = byil ? p.nxl() : p.nil();
  double c0 = std::cos(p.rot), s0 = std::sin(p.rot);
  bool line = p.nx == 1 || p.ny == 1, sup = e() % 2;
  for (int o = 0; o < no; ++o) for (int n = 0; n < ni; ++n) { int a = byil ? o : n, b = byil ? n : o, i = p.first ? a : b, j = p.first ? b : a; if (sup && !(p.si > 0)) {} double x, y; p.glob(i + .5, j + .5, x, y); tr.push_back(new SegYTrace(none, 0, 0, x, y, p.il0 + p.si * p.a * a, p.xl0 + p.sx * p.b * b)); }
  (void)c0; (void)s0;
  std::vector<SegYTrace*> sorted = tr; double tx = 1e-6 * (1 + std::fabs(p.x0) + std::fabs(p.y0) + p.nx * p.dx + p.ny * p.dy);
  try { SegyGeometry g(sorted); std::vector<int> used(g.GetNx() * g.GetNy(), 0);
    if ((int)(g.GetNx() * g.GetNy()) != p.nx * p.ny) c.fail("traces: " + std::to_string(g.GetNx()) + "x" + std::to_string(g.GetNy()) + " cells for " + std::to_string(p.nx) + "x" + std::to_string(p.ny) + " traces");
    for (size_t t = 0; t < tr.size() && c.ok(); ++t) { size_t i, j, I, J; int il, xl; double x, y; g.FindIndex(tr[t]->GetInline(), tr[t]->GetCrossline(), i, j); g.FindIndex(tr[t]->GetX(), tr[t]->GetY(), I, J); if (i != I || j != J) { c.fail("traces: cell by numbers and by position differ"); break; }
      if (used[i + g.GetNx() * j]++) c.fail("traces: two traces in one cell"); g.FindILXL(i, j, il, xl); if (il != tr[t]->GetInline() || xl != tr[t]->GetCrossline()) c.fail("traces: numbers of the cell"); g.FindXYFromIJ(i, j, x, y); if (!near(x, tr[t]->GetX(), tx) || !near(y, tr[t]->GetY(), tx)) c.fail("traces: centre of the cell");
      double X = g.GetX0() + g.GetCosRot() * (i + .5) * g.GetDx() - g.GetSinRot() * (j + .5) * g.GetDy(), Y = g.GetY0() + g.GetSinRot() * (i + .5) * g.GetDx() + g.GetCosRot() * (j + .5) * g.GetDy(); if (!near(X, x, tx) || !near(Y, y, tx)) c.fail("traces: origin, angle and cell size");
      if (sorted[i + g.GetNx() * j] != tr[t]) c.fail("traces: order of the traces"); } (void)line;
  } catch (Exception& ex) { c.fail(S("traces refused: ") + ex.what()); }
  for (auto* t : tr) delete t;
}
int main() { return run_cases(one); }
