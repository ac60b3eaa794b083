VT = "src/nrlib/variogram/variogramtypes.hpp"
VC = "src/nrlib/variogram/variogram.cpp"
GF = "src/nrlib/variogram/gaussianfield.cpp"
FC = "src/nrlib/variogram/fftcovgrid.cpp"
API = "src/gaussfft.cpp"
VSRC = "variogram/variogram.cpp variogram/variogramtypes.cpp"
SIMSRC = VSRC + " variogram/gaussianfield.cpp variogram/fftcovgrid.cpp fft/fft.cpp fft/fftgrid2d.cpp fft/fftgrid3d.cpp random/random.cpp random/randomgenerator.cpp random/dSFMT.cpp"

bug("b01-spherical-tail", "C01", [(VT, "if(dist<1.0) return(1.0-dist*(1.5-(0.5*dist*dist)));", "if(dist<1.05) return(1.0-dist*(1.5-(0.5*dist*dist)));")],
    "a spherical variogram queried at a scaled distance between 1 and 1.05", "correlation rises again beyond the range before dropping to zero", srcs=VSRC, cpp=r'''
#include "nrlib/variogram/variogramtypes.hpp"
#include <cstdio>
using namespace NRLib;
int main() {
  Variogram* v = Variogram::Create(Variogram::SPHERICAL, 1.5, 100.0, 50.0, 25.0);
  double last = 1.0;
  for (int i = 0; i <= 30000; ++i) {
    double c = v->GetCorr(i * 0.01);
    if (c > last + 1e-9) { std::printf("correlation rises at %g: %g -> %g\n", i * 0.01, last, c); return 1; }
    last = c;
  }
  return 0;
}
''')

bug("b02-cross-term", "C02", [(VC, "  tyz_ = 2*(sinRot*cosDip*sinDip*fac1\n     - sinRot*cosDip*sinDip*fac3);", "  tyz_ = 2*(sinRot*cosDip*sinDip*fac1\n     - sinRot*cosDip*sinDip*fac2);")],
    "three dimensions, azimuth and dip both different from zero, perpendicular range different from depth range",
    "anisotropic distance no longer follows the rotated ellipsoid", srcs=VSRC, cpp=r'''
#include "nrlib/variogram/variogramtypes.hpp"
#include <cstdio>
#include <cmath>
using namespace NRLib;
int main() {
  double a = 0.6, d = 0.3, rx = 100, ry = 60, rz = 20;
  Variogram* v = Variogram::Create(Variogram::EXPONENTIAL, 1.5, rx, ry, rz, a, d);
  double x = 10, y = 20, z = 5;
  // main, perpendicular and down direction
  double u = x * cos(a) * cos(d) + y * sin(a) * cos(d) + z * sin(d);
  double p = -x * sin(a) + y * cos(a);
  double w = -x * cos(a) * sin(d) - y * sin(a) * sin(d) + z * cos(d);
  double e = std::exp(-3 * std::sqrt(u * u / rx / rx + p * p / ry / ry + w * w / rz / rz));
  double c = v->GetCorr(x, y, z);
  if (std::fabs(c - e) > 1e-9) { std::printf("corr %g, expected %g\n", c, e); return 1; }
  return 0;
}
''')

bug("b03-depth-default", "C03", [(API, "    range_z = range_x;", "    range_z = range_y;")],
    "a variogram created with a perpendicular range but no depth range", "the depth range defaults to the perpendicular range instead of the main range", py='''
import sys, math, gaussianfft as g
v = g.variogram('gaussian', 400.0, 100.0)
a, b = v.corr(0.0, 0.0, 80.0), g.variogram('gaussian', 400.0, 100.0, 400.0).corr(0.0, 0.0, 80.0)
print(a, b)
sys.exit(int(abs(a - b) > 1e-12))
''')

bug("b04-rotate-dip", "C04", [(VC, "  dip_angle_     += dip_angle;\n  EstimateFactors();", "  dip_angle_     += dip_angle;\n  if (rot_angle != 0.0)\n    EstimateFactors();")],
    "RotateAngles with a dip change and no azimuth change", "correlations keep using the old dip after the change", srcs=VSRC, cpp=r'''
#include "nrlib/variogram/variogramtypes.hpp"
#include <cstdio>
#include <cmath>
using namespace NRLib;
int main() {
  Variogram* v = Variogram::Create(Variogram::SPHERICAL, 1.5, 100, 60, 20, 0.2, 0.1);
  v->RotateAngles(0.0, 0.25);
  Variogram* w = Variogram::Create(Variogram::SPHERICAL, 1.5, 100, 60, 20, 0.2, 0.35);
  double a = v->GetCorr(5, 6, 7), b = w->GetCorr(5, 6, 7);
  std::printf("%g %g\n", a, b);
  return std::fabs(a - b) > 1e-9;
}
''')

bug("b05-sevens", "C05", [("src/nrlib/fft/fft.cpp", "for (l = 0; l < maxant7 + 1; l++)", "for (l = 0; l < maxant7; l++)")],
    "a requested length just below or at a power of seven, such as 341", "the transform length is not the smallest admissible one", srcs="fft/fft.cpp", cpp=r'''
#include "nrlib/fft/fft.hpp"
#include <cstdio>
int main() {
  for (size_t m = 1; m < 400; ++m) {
    size_t e = m;
    for (;; ++e) { size_t r = e; for (int p : {2, 3, 5, 7}) while (r % p == 0) r /= p; if (r == 1) break; }
    size_t g = NRLib::FindNewSizeWithPadding(m);
    if (g != e) { std::printf("%zu: %zu, expected %zu\n", m, g, e); return 1; }
  }
  return 0;
}
''')

bug("b06-azimuth-sign", "C06", [(GF, ("    if (variogram.GetAzimuthAngle() == 0.0) {", 2), "    if (variogram.GetAzimuthAngle() <= 0.0) {")],
    "three dimensions with a negative azimuth and a perpendicular range below the main range", "too little padding on the second axis, so the field wraps around", py='''
import sys, gaussianfft as g
v = g.variogram('spherical', 300.0, 30.0, 30.0, azimuth=-80.0)
s = list(g.simulation_size(v, 50, 10.0, 50, 10.0, 5, 10.0))
print(s)
sys.exit(int(s[1] < 80))
''')

bug("b07-odd-midpoint", "C07", [(FC, "  int nzm = (nz + 1) / 2;", "  int nzm = nz / 2;")],
    "a covariance grid with an odd number of layers", "the middle layer gets the covariance of the wrong offset", srcs=VSRC + " variogram/fftcovgrid.cpp", cpp=r'''
#include "nrlib/variogram/variogramtypes.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include <cstdio>
#include <cmath>
using namespace NRLib;
int main() {
  Variogram* v = Variogram::Create(Variogram::EXPONENTIAL, 1.5, 5, 5, 5);
  FFTCovGrid3D g(*v, 4, 1.0, 4, 1.0, 5, 1.0);
  NRLib::Grid<double> c = g.GetCov();
  double e = v->GetCov(0, 0, 2.0);
  std::printf("%g %g\n", c(0, 0, 2), e);
  return std::fabs(c(0, 0, 2) - e) > 1e-12;
}
''')

bug("b08-taper-axis", "C08", [(FC, ("        if (apply_scaling_z) cov_(i, j, k) *= FindSmoothingFactorZ(ddz);", 6), "        if (apply_scaling_z) cov_(i, j, k) *= FindSmoothingFactorZ(ddy);")],
    "a vertical smoothing factor below one and a node with negative offsets in x and z", "the taper in one octant uses the wrong offset", srcs=VSRC + " variogram/fftcovgrid.cpp", cpp=r'''
#include "nrlib/variogram/variogramtypes.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include <cstdio>
#include <cmath>
using namespace NRLib;
int main() {
  Variogram* v = Variogram::Create(Variogram::EXPONENTIAL, 1.5, 50, 50, 50);
  NRLib::Grid<double> a = FFTCovGrid3D(*v, 8, 1.0, 8, 1.0, 8, 1.0, 1.0, 1.0, 0.1).GetCov();
  NRLib::Grid<double> b = FFTCovGrid3D(*v, 8, 1.0, 8, 1.0, 8, 1.0).GetCov();
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) for (int k = 0; k < 8; ++k) {
    double z = k < 4 ? k : k - 8;
    double e = b(i, j, k) * std::pow(0.1, z * z / 2500.0);
    if (std::fabs(a(i, j, k) - e) > 1e-5) { std::printf("%d %d %d: %g, expected %g\n", i, j, k, a(i, j, k), e); return 1; }
  }
  return 0;
}
''')

bug("b09-real-index", "C09", [("src/nrlib/fft/fftgrid3d.hpp", "return i + j*ni_tot_ + k*ni_tot_*nj_tot_;", "return i + j*ni_tot_ + k*ni_tot_*nj_;")],
    "element access to a three-dimensional grid with padding on the second axis", "elements of different layers share storage", srcs="fft/fft.cpp fft/fftgrid3d.cpp", cpp=r'''
#include "nrlib/fft/fftgrid3d.hpp"
#include <cstdio>
using namespace NRLib;
int main() {
  FFTGrid3D<double> f(4, 3, 3, 2, 3, 1, false);
  for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 3; ++j) for (size_t k = 0; k < 3; ++k) f.Real(i, j, k) = i + 100. * j + 10000. * k;
  NRLib::Grid<double> r = f.GetRealGrid();
  for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 3; ++j) for (size_t k = 0; k < 3; ++k)
    if (r(i, j, k) != i + 100. * j + 10000. * k) { std::printf("%zu %zu %zu: %g\n", i, j, k, r(i, j, k)); return 1; }
  return 0;
}
''')

bug("b10-padding-y", "C10", [(GF, ("  size_t desired_padding_y = (padding_y < 0) ? default_padding[1] : padding_y;", 2), "  size_t desired_padding_y = (padding_y < 0) ? default_padding[1] : padding_x;")],
    "a two-dimensional simulation with explicit, unequal paddings", "the second axis is padded by the first axis' padding", py='''
import sys, numpy as np, gaussianfft as g, gaussianfft.advanced as a
v = g.variogram('exponential', 20.0)
g.seed(7)
x = a.simulate(v, 12, 1.0, 10, 1.0, padx=8, pady=0)
g.seed(7)
y = a.simulate(v, 12, 1.0, 10, 1.0, padx=18, pady=0)
# with no padding the field is periodic on the second axis: first and last row are neighbours
def gap(z):
    z = np.asarray(z).reshape((12, 10), order='F')
    return abs(z[:, 0] - z[:, -1]).mean()
def many(px):
    t = 0
    for s in range(300):
        g.seed(s)
        t += gap(a.simulate(v, 12, 1.0, 10, 1.0, padx=px, pady=0))
    return t / 300
m = many(28)
print(m)
sys.exit(int(m > 0.7))
''')

bug("b11-scaling-z", "C11", [(API, "padding_x, padding_y, padding_z, scaling_x, scaling_y, scaling_z);\n  }", "padding_x, padding_y, padding_z, scaling_x, scaling_y, scaling_y);\n  }")],
    "a three-dimensional advanced simulation with different smoothing factors in y and z", "the vertical smoothing factor is ignored", py='''
import sys, numpy as np, gaussianfft as g, gaussianfft.advanced as a
v = g.variogram('gaussian', 10.0)
def f(**k):
    g.seed(5)
    return np.asarray(a.simulate(v, 6, 1.0, 7, 1.0, 5, 1.0, **k))
d = abs(f(sz=0.01) - f()).max()
print(d)
sys.exit(int(d == 0.0))
''')

bug("b12-seed-zero", "C12", [(API, "    NRLib::Random::GetStartSeed();", "    if (NRLib::Random::GetStartSeed() == 0)\n      NRLib::Random::Initialize();")],
    "a simulation after seed(0)", "the user's seed is replaced by the time of day", py='''
import sys, gaussianfft as g
v = g.variogram('exponential', 10.0)
g.seed(0)
g.simulate(v, 10, 1.0)
print(g.seed())
sys.exit(int(g.seed() != 0))
''')

bug("b13-tail-probability", "C13", [("src/nrlib/random/randomgenerator.cpp", "else if (u<0.9973002039)", "else if (u<0.9973)")],
    "a selector draw between 0.9973 and 0.9973002039 (two per ten million)", "the probabilities of the residual and the tail component are off, and the two generators disagree", srcs="random/random.cpp random/randomgenerator.cpp random/dSFMT.cpp", cpp=r'''
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include <cstdio>
using namespace NRLib;
int main() {
  for (unsigned long s = 1; s < 11; ++s) {
    Random::Initialize(s);
    RandomGenerator r(s);
    for (int i = 0; i < 10000000; ++i) {
      double a = Random::Norm01(), b = r.Norm01();
      if (a != b) { std::printf("seed %lu draw %d: %g %g\n", s, i, a, b); return 1; }
    }
  }
  return 0;
}
''')

bug("b14-extremes", "C14", [("src/nrlib/grid/grid.hpp", "      max = value;\n\n    if (value < min)\n      min = value;\n  }\n\n  avg = sum /= GetN();", "      max = value;\n    else if (value < min)\n      min = value;\n  }\n\n  avg = sum /= GetN();")],
    "a grid whose smallest value is met before any larger one, such as increasing values", "the minimum stays infinite", cpp=r'''
#include "nrlib/grid/grid.hpp"
#include <cstdio>
#include <cmath>
int main() {
  NRLib::Grid<double> g(2, 3, 2);
  for (size_t i = 0; i < g.GetN(); ++i) g(i) = 1.0 + i;
  double a, lo, hi;
  g.GetAvgMinMax(a, lo, hi);
  std::printf("%g %g %g\n", a, lo, hi);
  return !(std::fabs(a - 6.5) < 1e-12 && lo == 1.0 && hi == 12.0);
}
''')

bug("b15-light-corner", "C15", [("src/nrlib/surface/regularsurface.hpp", "  if (sum_weights == 0.0) {", "  if (sum_weights < 1e-4) {")],
    "a query in a cell with missing corners, very close to a missing one", "the value of the present corners is lost near a missing corner", cpp=r'''
#include "nrlib/surface/regularsurface.hpp"
#include <cstdio>
#include <cmath>
int main() {
  NRLib::RegularSurface<double> s(0, 0, 4, 4, 5, 5, 2.5);
  s.SetMissingValue(-999.0);
  for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) if (i + j < 6) s.SetMissing(i, j);
  // cell (2,2)..(3,3): only the far corner is present
  double z = s.GetZ(2.005, 2.005);
  std::printf("%g\n", z);
  return !(std::fabs(z - 2.5) < 1e-9);
}
''')

bug("b16-first-column", "C16", [("src/nrlib/volume/volume.cpp", "           surf->IsMissing(result) == true ||   //Had no value", "           (surf->IsMissing(result) == true && i > 0) ||   //Had no value")],
    "a bounding surface that is missing at the first cell and has a value in the first column of the area only", "the depth extreme is reported as missing", srcs="volume/volume.cpp -Wl,--unresolved-symbols=ignore-all", cpp=r'''
#include "nrlib/volume/volume.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include <cstdio>
#include <cmath>
using namespace NRLib;
int main() {
  RegularSurface<double> t(0, 0, 8, 8, 9, 9, 100.0), b(0, 0, 8, 8, 9, 9, 150.0);
  t.SetMissingValue(-999.0);
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) if (i > 2 || j < 5) t.SetMissing(i, j);
  Volume v(0, 0, 8, 8, t, b, 0.0);
  double z = v.GetTopZMin(4, 4);
  std::printf("%g\n", z);
  return !(std::fabs(z - 100.0) < 1e-9);
}
''')

bug("b17-negative-zero", "C17", [("src/nrlib/iotools/fileio.hpp", "  in     = ( in & 0x7fffffff ) ? manthi : 0;", "  in     = in ? manthi : 0;")],
    "a negative zero among the values written as IBM floats", "negative zero is stored as a tiny non-zero IBM number", cpp=r'''
#include "nrlib/iotools/fileio.hpp"
#include <cstdio>
#include <sstream>
int main() {
  std::stringstream s;
  NRLib::WriteBinaryIbmFloat(s, -0.0f);
  std::string b = s.str();
  for (char c : b) std::printf("%02x", (unsigned char) c);
  std::printf("\n");
  return b != std::string(4, '\0');
}
''')

bug("b18-copied-geometry-decreasing-crosslines", "C18", [("src/nrlib/segy/segygeometry.cpp", "  XL0_         = geometry->XL0_;", "  XL0_         = geometry->minXL_;")],
    "a copy of a geometry whose crossline numbers decrease along its axis", "the copy numbers its crosslines the other way round", srcs="segy/segygeometry.cpp segy/segytrace.cpp segy/traceheader.cpp iotools/logkit.cpp iotools/logstream.cpp iotools/stringtools.cpp math/constants.cpp -Wl,--unresolved-symbols=ignore-all", cpp=r'''
#include "nrlib/segy/segygeometry.hpp"
#include <cstdio>
#include <cmath>
int main() {
  // crosslines 40, 38, ..., 32 along the first axis, inlines 10, 11, ... along the second
  NRLib::SegyGeometry a(0.0, 0.0, 10.0, 20.0, 5, 4, 9.5, 41.0, 0.0, 1.0/20.0, -2.0/10.0, 0.0, 0.0);
  NRLib::SegyGeometry b(&a);
  int bad = 0;
  for (size_t j = 0; j < 4; j++)
    for (size_t i = 0; i < 5; i++) {
      int il, xl, il2, xl2;
      a.FindILXL(i, j, il, xl);
      b.FindILXL(i, j, il2, xl2);
      if (il != il2 || xl != xl2) bad++;
    }
  std::printf("%d cells differ\n", bad);
  return bad != 0;
}
''')

bug("b19-truncated-draw-generator", "C19", [("src/nrlib/random/normal.cpp", "  double out = DrawLowerTruncatedAcceptReject(mean_, std_dev_, upper, &g);", "  double out = DrawLowerTruncatedAcceptReject(mean_, std_dev_, upper);")],
    "a normal distribution truncated from above, drawn with a generator object", "the draw takes its number from the global generator, so equal generators give different draws", srcs="random/normal.cpp random/random.cpp random/randomgenerator.cpp random/dSFMT.cpp random/functions.cpp math/constants.cpp -Wl,--unresolved-symbols=ignore-all", cpp=r'''
#include "nrlib/random/normal.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include <cstdio>
int main() {
  NRLib::Random::Initialize(7);
  NRLib::RandomGenerator a, b;
  a.Initialize(11);
  b.Initialize(11);
  NRLib::Normal n(1.0, 2.0);
  int bad = 0;
  for (int k = 0; k < 20; ++k) {
    double x = n.DrawUpperTruncated(0.5, a), y = n.DrawUpperTruncated(0.5, b);
    if (x != y || x > 0.5) bad++;
  }
  std::printf("%d draws differ\n", bad);
  return bad != 0;
}
''')

bug("b20-second-end", "C20", [("src/nrlib/geometry/line.cpp", "      tn = e + b;", "      tn = e;")],
    "two lines whose nearest points are at the second end of the first", "the point of the other line is the one nearest to the first end instead", srcs="geometry/line.cpp geometry/point.cpp", cpp=r'''
#include "nrlib/geometry/line.hpp"
#include "nrlib/geometry/point.hpp"
#include <cstdio>
#include <cmath>
int main() {
  // segment along x from 0 to 2; line y = x - 1, z = 1 shifted so that the free optimum lies beyond x = 2
  NRLib::Line a = NRLib::Line::Segment(NRLib::Point(0, 0, 0), NRLib::Point(2, 0, 0));
  NRLib::Line b = NRLib::Line::InfiniteLine(NRLib::Point(5, 0, 1), NRLib::Point(1, 1, 0));
  NRLib::Point p, q;
  double d = a.FindDistance(b, p, q);
  // distance of (2,0,0) from that line
  double want = std::sqrt(1.0 + 4.5);
  std::printf("%.10f %.10f\n", d, want);
  return !(std::fabs(d - want) < 1e-9 && std::fabs(b.FindDistance(NRLib::Point(2, 0, 0)) - want) < 1e-9);
}
''')

bug("b21-first-present", "C21", [("src/nrlib/statistics/statistics.hpp", "  FI min = it;\n  for (++it; it != end; ++it) {\n    if (!IsMissing(*it) && *it < *min) {", "  FI min = begin;\n  for (++it; it != end; ++it) {\n    if (!IsMissing(*it) && *it < *min) {")],
    "a range that begins with a missing value smaller than all others", "the smallest element returned is the missing value", srcs="", cpp=r'''
#include <string>
#include <vector>
#include <cstdio>
#include "nrlib/statistics/statistics.hpp"
static bool missing(double x) { return x == -999.0; }
int main() {
  std::vector<double> v; v.push_back(-999.0); v.push_back(4.0); v.push_back(2.0); v.push_back(-999.0); v.push_back(3.0);
  double m = *NRLib::MinElement(v.begin(), v.end(), missing);
  std::printf("%g\n", m);
  return m != 2.0;
}
''')

bug("b22-level-corner", "C22", [("src/nrlib/geometry/polygon.cpp", "      if ( y > std::min( p1.y, p2.y ) )  {", "      if ( y >= std::min( p1.y, p2.y ) )  {")],
    "a point level with a corner where the border passes from below to above", "both edges of the corner are counted, and a point inside is called outside", srcs="geometry/polygon.cpp geometry/point.cpp math/constants.cpp", cpp=r'''
#include "nrlib/geometry/polygon.hpp"
#include <cstdio>
int main() {
  // a diamond: its right corner is level with the centre
  NRLib::Polygon p;
  p.AddPoint(NRLib::Point(2, 0, 0)); p.AddPoint(NRLib::Point(0, 2, 0)); p.AddPoint(NRLib::Point(-2, 0, 0)); p.AddPoint(NRLib::Point(0, -2, 0));
  bool in = p.IsInsidePolygonXY(0.5, 0.0), in2 = p.IsInsidePolygonXY(0.5, 0.25), out = p.IsInsidePolygonXY(3.0, 0.0);
  std::printf("%d %d %d\n", in, in2, out);
  return !(in && in2 && !out);
}
''')
