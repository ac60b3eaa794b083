// executable specification of the binary number encodings: the formats written out in integer arithmetic
#include "common.hpp"
#include <random>
#include <cstring>
#include "nrlib/iotools/fileio.hpp"
using namespace NRLib;
typedef std::mt19937_64 E;
typedef unsigned long long U;
template <class T> static U pat(T x) { U u = 0; std::memcpy(&u, &x, sizeof x); return u; }
template <class T> static T val(U u) { T x; std::memcpy(&x, &u, sizeof x); return x; }
static std::string enc(U u, int k, bool big) { std::string s; for (int i = 0; i < k; ++i) s += char((u >> 8 * (big ? k - 1 - i : i)) & 255); return s; }
static bool normal(U u) { U e = u >> 23 & 255; return e != 0 && e != 255; }
// value = (1 + m/2^23) 2^(E-127) as 0.f(16) 16^(e-64), fraction cut to 24 bits
static U ibm(U u) { if ((u & 0x7fffffff) == 0) return 0; int Ex = int(u >> 23 & 255) - 126, e = 64; U f = (u & 0x7fffff) | 0x800000;
  int h = Ex; while (h > 0) { h -= 4; ++e; } while (h <= -4) { h += 4; --e; } f >>= -h; return (u & 0x80000000) | U(e) << 24 | f; }
static bool ieee(U w, U& u) { U f = w & 0xffffff; if ((w & 0x7fffffff) == 0) { u = 0; return true; } if ((f >> 20) == 0) return false; int Ex = 4 * (int(w >> 24 & 127) - 64) + 126;
  while (!(f & 0x800000)) { f <<= 1; --Ex; } if (Ex < 1 || Ex > 254) return false; u = (w & 0x80000000) | U(Ex) << 23 | (f & 0x7fffff); return true; }
static std::string hex(U u) { char b[32]; std::snprintf(b, sizeof b, "%llx", u); return b; }
template <class T, class W, class R, class WA, class RA>
static bool kind(Case& c, const std::string& nm, const std::vector<U>& xs, bool isibm, W w, R r, WA wa, RA ra) {
  const int k = sizeof(T);
  for (int big = 0; big < 2; ++big) {
    Endianess en = big ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; std::string all, t = nm + (big ? " big endian" : " little endian");
    std::vector<T> v; 
    for (U x : xs) { U f = isibm ? ibm(x) : x; v.push_back(val<T>(x)); all += enc(f, k, big); }
    std::stringstream s, a; for (T x : v) w(s, x, en);
    if (s.str() != all) { size_t i = 0; while (i < all.size() && i < s.str().size() && s.str()[i] == all[i]) ++i; return c.fail(t + " written wrongly: value 0x" + hex(xs[std::min(xs.size() - 1, i / k)])); }
    wa(a, v.begin(), v.end(), en); if (a.str() != all) return c.fail(t + " array written wrongly, " + num(double(v.size())) + " values");
    std::vector<U> want; for (U x : xs) { U u = x; if (isibm) ieee(ibm(x), u); want.push_back(u); }
    for (size_t i = 0; i < v.size(); ++i) { T g = r(s, en); if (pat(g) != want[i]) return c.fail(t + " read as 0x" + hex(pat(g)) + " expected 0x" + hex(want[i])); }
    std::vector<T> out(v.size() + 3, val<T>(0x3f3f)); ra(a, out.begin(), v.size(), en);
    for (size_t i = 0; i < out.size(); ++i) { U e = i < v.size() ? want[i] : 0x3f3f; if (pat(out[i]) != e) return c.fail(t + " array element " + num(double(i)) + " of " + num(double(v.size())) + " read as 0x" + hex(pat(out[i])) + " expected 0x" + hex(e)); }
    std::stringstream sh(all.substr(0, all.size() - 1)), sh2(enc(xs[0], k, big).substr(0, k - 1)); bool threw = false;
    try { ra(sh, out.begin(), v.size(), en); } catch (const Exception&) { threw = true; } if (!threw) return c.fail(t + " array: no error for truncated input");
    threw = false; try { r(sh2, en); } catch (const Exception&) { threw = true; } if (!threw) return c.fail(t + ": no error for truncated input");
  }
  return true;
}
typedef std::stringstream S;
#define KIND(NAME, T, IBM, XS) kind<T>(c, #NAME, XS, IBM, [](S& s, T x, Endianess e) { WriteBinary##NAME(s, x, e); }, [](S& s, Endianess e) { return ReadBinary##NAME(s, e); }, \
  [](S& s, std::vector<T>::iterator a, std::vector<T>::iterator b, Endianess e) { WriteBinary##NAME##Array(s, a, b, e); }, [](S& s, std::vector<T>::iterator a, size_t n, Endianess e) { ReadBinary##NAME##Array(s, a, n, e); })
static bool buffers(Case& c, U x) {
  char b[8]; 
  auto is = [&](U u, int k, bool big) { return std::string(b, k) == enc(u, k, big); };
  U u16 = x & 0xffff, u32 = x & 0xffffffff;
  WriteInt16BE(b, short(u16)); if (!is(u16, 2, true)) return c.fail("WriteInt16BE"); short s; ParseInt16BE(b, s); if (s != short(u16)) return c.fail("ParseInt16BE");
  WriteUInt16BE(b, u16); if (!is(u16, 2, true)) return c.fail("WriteUInt16BE"); unsigned short us; ParseUInt16BE(b, us); if (us != u16) return c.fail("ParseUInt16BE");
  WriteInt32BE(b, int(u32)); if (!is(u32, 4, true)) return c.fail("WriteInt32BE"); int i; ParseInt32BE(b, i); if (i != int(u32)) return c.fail("ParseInt32BE");
  WriteUInt32BE(b, u32); if (!is(u32, 4, true)) return c.fail("WriteUInt32BE"); unsigned ui; ParseUInt32BE(b, ui); if (ui != u32) return c.fail("ParseUInt32BE");
  float f; ParseIEEEFloatBE(b, f); if (pat(f) != u32) return c.fail("ParseIEEEFloatBE");
  U e; if (ieee(u32, e)) { ParseIBMFloatBE(b, f); if (pat(f) != e) return c.fail("ParseIBMFloatBE of 0x" + hex(u32) + " gives 0x" + hex(pat(f)) + " expected 0x" + hex(e)); }
  if ((u32 & 0x7fffffff) < 0x21100000) { ParseIBMFloatBE(b, f); if (pat(f) != 0) return c.fail("ParseIBMFloatBE of the small number 0x" + hex(u32) + " is not zero"); }
  return true;
}
int main() {
  return run_cases([](Case& c) {
    std::string k = c.s();
    if (k == "one") { U x = std::strtoull(c.s().c_str(), nullptr, 0) & 0xffffffff; buffers(c, x); std::vector<U> v(1, x);
      if (c.ok()) KIND(Float, float, false, v); if (c.ok()) KIND(Int, int, false, v); if (c.ok() && (normal(x) || (x & 0x7fffffff) == 0)) KIND(IbmFloat, float, true, v); return; }
    if (k == "arr") { size_t n = c.i(); E e(n); std::vector<U> a, b, d, f; for (size_t i = 0; i < n; ++i) { U x = e(); a.push_back(x & 0xffff); b.push_back(x & 0xffffffff); d.push_back(x); f.push_back((x & 0x807fffff) | (U(1 + x % 254) << 23)); }
      if (KIND(Short, short, false, a) && KIND(Int, int, false, b) && KIND(Float, float, false, b) && KIND(Double, double, false, d)) KIND(IbmFloat, float, true, f); return; }
    E e(c.i()); size_t n = 1 + (e() % 8 == 0 ? e() % 3000 : e() % 40);
    std::vector<U> a, b, d, f; for (size_t i = 0; i < n; ++i) { U x = e(); if (e() % 9 == 0) x = 0; if (e() % 9 == 0) x = ~0ULL; a.push_back(x & 0xffff); U g = (x >> 5) & 0xffffffff; b.push_back(g);
      d.push_back(x); if (!normal(g)) g = (g & 0x807fffff) | (U(1 + e() % 254) << 23); if (e() % 11 == 0) g = e() % 3 ? 0 : 0x80000000ULL; f.push_back(g); if (!buffers(c, x)) return; }
    if (KIND(Short, short, false, a) && KIND(Int, int, false, b) && KIND(Float, float, false, b) && KIND(Double, double, false, d)) KIND(IbmFloat, float, true, f);
  });
}
