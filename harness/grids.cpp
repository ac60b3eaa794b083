// executable specification of the grid containers
#include "common.hpp"
#include <limits>
#include <random>
#include <set>
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/grid/grid4d.hpp"
#include "nrlib/grid/grid5d.hpp"
#include "nrlib/grid/grid2dgeneral.hpp"
using namespace NRLib;
typedef std::vector<size_t> Ix;
struct Rng { unsigned long long s; explicit Rng(unsigned long long x) : s(x * 2654435761ULL + 88172645463325252ULL) {}
  unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  size_t below(size_t n) { return next() % n; }
  double value() { return ((double)(next() % 2000001) - 1000000.0) / 64.0; } };

struct A2 { static const int D = 2; typedef Grid2D<double> T;
  static T make(const Ix& n, double v) { return T(n[0], n[1], v); }
  static double& at(T& g, const Ix& i) { return g(i[0], i[1]); }
  static double cat(const T& g, const Ix& i) { return g(i[0], i[1]); }
  static size_t index(const T& g, const Ix& i) { return g.GetIndex(i[0], i[1]); }
  static Ix split(const T& g, size_t x) { Ix r(2, 77); g.GetIJ(x, r[0], r[1]); return r; }
  static Ix size(const T& g) { return {g.GetNI(), g.GetNJ()}; }
  static void resize(T& g, const Ix& n, double v) { g.Resize(n[0], n[1], v); } };
struct A3 { static const int D = 3; typedef Grid<double> T;
  static T make(const Ix& n, double v) { return T(n[0], n[1], n[2], v); }
  static double& at(T& g, const Ix& i) { return g(i[0], i[1], i[2]); }
  static double cat(const T& g, const Ix& i) { return g(i[0], i[1], i[2]); }
  static size_t index(const T& g, const Ix& i) { return g.GetIndex(i[0], i[1], i[2]); }
  static Ix split(const T& g, size_t x) { Ix r(3, 77); g.GetIJK(x, r[0], r[1], r[2]); return r; }
  static Ix size(const T& g) { return {g.GetNI(), g.GetNJ(), g.GetNK()}; }
  static void resize(T& g, const Ix& n, double v) { g.Resize(n[0], n[1], n[2], v); } };
struct A4 { static const int D = 4; typedef Grid4D<double> T;
  static T make(const Ix& n, double v) { return T(n[0], n[1], n[2], n[3], v); }
  static double& at(T& g, const Ix& i) { return g(i[0], i[1], i[2], i[3]); }
  static double cat(const T& g, const Ix& i) { return g(i[0], i[1], i[2], i[3]); }
  static size_t index(const T& g, const Ix& i) { return g.GetIndex(i[0], i[1], i[2], i[3]); }
  static Ix split(const T& g, size_t x) { Ix r(4, 77); g.GetIJKL(x, r[0], r[1], r[2], r[3]); return r; }
  static Ix size(const T& g) { return {g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL()}; }
  static void resize(T& g, const Ix& n, double v) { g.Resize(n[0], n[1], n[2], n[3], v); } };
struct A5 { static const int D = 5; typedef Grid5D<double> T;
  static T make(const Ix& n, double v) { return T(n[0], n[1], n[2], n[3], n[4], v); }
  static double& at(T& g, const Ix& i) { return g(i[0], i[1], i[2], i[3], i[4]); }
  static double cat(const T& g, const Ix& i) { return g(i[0], i[1], i[2], i[3], i[4]); }
  static size_t index(const T& g, const Ix& i) { return g.GetIndex(i[0], i[1], i[2], i[3], i[4]); }
  static Ix split(const T& g, size_t x) { Ix r(5, 77); g.GetIJKLM(x, r[0], r[1], r[2], r[3], r[4]); return r; }
  static Ix size(const T& g) { return {g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL(), g.GetNM()}; }
  static void resize(T& g, const Ix& n, double v) { g.Resize(n[0], n[1], n[2], n[3], n[4], v); } };

static std::string show(const Ix& i) { std::string s = "("; for (size_t k = 0; k < i.size(); ++k) s += (k ? "," : "") + std::to_string(i[k]); return s + ")"; }
static bool nexti(Ix& i, const Ix& n) { for (size_t k = 0; k < n.size(); ++k) { if (++i[k] < n[k]) return true; i[k] = 0; } return false; }

template <class A> bool check(Case& c, const typename A::T& g, const Ix& n, const std::vector<double>& want, const std::string& what) {
  size_t tot = 1; for (size_t x : n) tot *= x;
  if (A::size(g) != n || g.GetN() != tot) return c.fail(what + ": wrong size");
  Ix i(n.size(), 0); size_t f = 0;
  do {
    if (A::index(g, i) != f) return c.fail(what + ": GetIndex" + show(i) + " is " + std::to_string(A::index(g, i)) + ", expected " + std::to_string(f));
    if (A::split(g, f) != i) return c.fail(what + ": index " + std::to_string(f) + " split into " + show(A::split(g, f)) + ", expected " + show(i));
    double w = want[f];
    if (A::cat(g, i) != w || g(f) != w || *(g.begin() + f) != w) return c.fail(what + ": cell " + show(i) + " is " + num(A::cat(g, i)) + ", expected " + num(w));
    ++f;
  } while (nexti(i, n));
  if ((size_t)(g.end() - g.begin()) != tot) return c.fail(what + ": begin/end");
  return true;
}

template <class A> void all(Case& c, Ix n, unsigned long seed) {
  Rng r(seed);
  n.resize(A::D);
  size_t tot = 1; for (size_t x : n) tot *= x;
  double v = r.value();
  typename A::T g = A::make(n, v);
  std::vector<double> m(tot, v);
  if (!check<A>(c, g, n, m, "constructor")) return;
  for (int k = 0; k < 40; ++k) {
    Ix i(n.size()); size_t f = 0, s = 1;
    for (size_t a = 0; a < n.size(); ++a) { i[a] = r.below(n[a]); f += s * i[a]; s *= n[a]; }
    double x = r.value();
    if (k % 2) A::at(g, i) = x; else g(f) = x;
    m[f] = x;
  }
  if (!check<A>(c, g, n, m, "after writes")) return;
  Ix n2(n.size()); size_t t2 = 1;
  for (size_t a = 0; a < n.size(); ++a) { n2[a] = 1 + r.below(4); t2 *= n2[a]; }
  double w = r.value();
  typename A::T h = A::make(n2, w);
  for (size_t f = 0; f < t2; ++f) h(f) = w + f;
  std::vector<double> m2(t2); for (size_t f = 0; f < t2; ++f) m2[f] = w + f;
  h.Swap(g);
  if (!check<A>(c, g, n2, m2, "after Swap") || !check<A>(c, h, n, m, "after Swap (other)")) return;
  A::resize(h, n2, v);
  if (!check<A>(c, h, n2, std::vector<double>(t2, v), "after Resize")) return;
  typename A::T e; if (e.GetN() != 0 || e.GetNI() != 0 || e.GetNJ() != 0 || e.begin() != e.end()) return (void)c.fail("default grid has cells");
  e.Swap(h);
  if (h.GetN() != 0 || h.GetNI() != 0 || h.GetNJ() != 0 || h.begin() != h.end()) return (void)c.fail("default grid after Swap has cells");
  if (!check<A>(c, e, n2, std::vector<double>(t2, v), "default constructed, after Swap")) return;
}

static double MISS = -999.25;
template <class T> void extremes(Case& c, T& g, Rng& r, const std::string& what) {
  std::multiset<double> s;
  int mode = (int)r.below(4);
  double miss = mode == 3 ? std::numeric_limits<double>::max() : MISS;
  for (size_t f = 0; f < g.GetN(); ++f) {
    bool ms = r.below(mode == 0 ? 2 : 5) == 0;
    double x = r.value(); if (mode == 2) x = -std::fabs(x) - 1; if (mode == 1) x = std::fabs(x) + 1;
    g(f) = ms ? miss : x; if (!ms) s.insert(x);
  }
  if (s.empty()) return;
  double lo = g.FindMin(miss), hi = g.FindMax(miss);
  if (lo != *s.begin()) c.fail(what + ": FindMin is " + num(lo) + ", expected " + num(*s.begin()));
  if (hi != *s.rbegin()) c.fail(what + ": FindMax is " + num(hi) + ", expected " + num(*s.rbegin()));
}

int main() {
  return run_cases([](Case& c) {
    std::string kind = c.s(), cls = c.s();
    Ix n(5); for (auto& x : n) x = (size_t)c.i();
    unsigned long seed = (unsigned long)c.i();
    Rng r(seed + 17);
    if (cls == "Grid2D") {
      all<A2>(c, n, seed);
      Grid2D<double> g(n[0], n[1]);
      extremes(c, g, r, cls);
      for (int i = -2; i < (int)n[0] + 2; ++i) for (int j = -2; j < (int)n[1] + 2; ++j)
        if (g.IsValidIndex(i, j) != (i >= 0 && j >= 0 && i < (int)n[0] && j < (int)n[1])) c.fail("IsValidIndex");
      Grid2D<double> a(2, 2); a.Assign(n[0], n[1], 4.5);
      if (a.GetNI() != n[0] || a.GetNJ() != n[1] || a.GetN() != n[0] * n[1]) c.fail("Assign: size");
      for (double x : a) if (x != 4.5) c.fail("Assign: value");
    }
    if (cls == "Grid") {
      all<A3>(c, n, seed);
      Grid<double> a(2, 3, 2, 1.0); a.Assign(n[0], n[1], n[2], 4.5);
      n.resize(3);
      size_t tot = n[0] * n[1] * n[2];
      if (!check<A3>(c, a, n, std::vector<double>(tot, 4.5), "Assign")) return;
      std::vector<double> m(tot);
      for (size_t f = 0; f < tot; ++f) { size_t i, j, k; a.GetIJK(f, i, j, k); m[f] = r.value(); a.SetValue(i, j, k, m[f]); if (a.GetValue(i, j, k) != m[f]) c.fail("SetValue/GetValue"); }
      if (!check<A3>(c, a, n, m, "SetValue")) return;
      double avg, lo, hi, s = 0; a.GetAvgMinMax(avg, lo, hi); for (double x : m) s += x;
      if (!close(avg, s / tot, 1e-9, 1e-6) || lo != *std::min_element(m.begin(), m.end()) || hi != *std::max_element(m.begin(), m.end())) c.fail("GetAvgMinMax");
      Grid<double> b(a); std::vector<double> pres; std::vector<double> mb(m);
      double miss = r.below(2) ? MISS : 1e30;
      for (size_t f = 0; f < tot; ++f) if (f && r.below(3) == 0) { b(f) = miss; mb[f] = miss; } else pres.push_back(m[f]);
      s = 0; for (double x : pres) s += x;
      b.GetAvgMinMaxWithMissing(avg, lo, hi, miss);
      if (!close(avg, s / pres.size(), 1e-9, 1e-6) || lo != *std::min_element(pres.begin(), pres.end()) || hi != *std::max_element(pres.begin(), pres.end())) c.fail("GetAvgMinMaxWithMissing");
      b.LogTransform(miss);
      for (size_t f = 0; f < tot; ++f) { double w = mb[f] == miss || mb[f] <= 0 ? 0 : std::log(mb[f]); if (!close(b(f), w)) { c.fail("LogTransform of " + num(mb[f]) + " is " + num(b(f))); break; } }
      Grid<double> k(a); size_t nk = 1 + r.below(2 * n[2]); k.ResizeK(nk);
      if (k.GetNK() != nk || k.GetN() != n[0] * n[1] * nk) c.fail("ResizeK: size");
      else for (size_t x = 0; x < std::min(nk, n[2]); ++x) for (size_t j = 0; j < n[1]; ++j) for (size_t i = 0; i < n[0]; ++i) if (k(i, j, x) != a(i, j, x)) { c.fail("ResizeK changes a kept value"); return; }
    }
    if (cls == "Grid4D") all<A4>(c, n, seed);
    if (cls == "Grid5D") all<A5>(c, n, seed);
    if (cls == "Grid2DGeneral") {
      size_t i0 = n[2], j0 = n[3], i1 = i0 + n[0] - 1, j1 = j0 + n[1] - 1;
      Grid2DGeneral<double> g(i0, i1, j0, j1, 2.5);
      auto chk = [&](const Grid2DGeneral<double>& q, size_t a0, size_t a1, size_t b0, size_t b1, const std::vector<double>& m, const std::string& w) {
        if (q.GetIMin() != a0 || q.GetIMax() != a1 || q.GetJMin() != b0 || q.GetJMax() != b1 || q.GetNI() != a1 - a0 + 1 || q.GetNJ() != b1 - b0 + 1 || q.GetN() != m.size()) return c.fail(w + ": geometry");
        size_t f = 0;
        for (size_t j = b0; j <= b1; ++j) for (size_t i = a0; i <= a1; ++i, ++f) {
          if (q.GetIndex(i, j) != f) return c.fail(w + ": GetIndex");
          size_t x = 0, y = 0; q.GetIJ(f, x, y);
          if (x != i || y != j) return c.fail(w + ": GetIJ");
          if (q(i, j) != m[f] || q(f) != m[f]) return c.fail(w + ": value");
        }
        for (size_t i = a0 ? a0 - 1 : 0; i < a1 + 3; ++i) for (size_t j = b0 ? b0 - 1 : 0; j < b1 + 3; ++j)
          if (q.IsValidIndex(i, j) != (i >= a0 && i <= a1 && j >= b0 && j <= b1)) return c.fail(w + ": IsValidIndex");
        return true; };
      std::vector<double> m(n[0] * n[1], 2.5);
      if (!chk(g, i0, i1, j0, j1, m, "constructor")) return;
      for (size_t f = 0; f < m.size(); ++f) { m[f] = r.value(); if (f % 2) g(f) = m[f]; else g(i0 + f % n[0], j0 + f / n[0]) = m[f]; }
      if (!chk(g, i0, i1, j0, j1, m, "writes")) return;
      Grid2DGeneral<double> h(n[4], n[4] + 2, 5, 6, 1.25);
      h.Swap(g);
      if (!chk(h, i0, i1, j0, j1, m, "Swap") || !chk(g, n[4], n[4] + 2, 5, 6, std::vector<double>(6, 1.25), "Swap (other)")) return;
      g.Resize(i0, i1, j0, j1, 7.5);
      if (!chk(g, i0, i1, j0, j1, std::vector<double>(m.size(), 7.5), "Resize")) return;
      extremes(c, g, r, cls);
    }
  });
}
