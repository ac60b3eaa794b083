// executable specification of the FFT length: least 7-smooth number >= m (and even if required)
#include "common.hpp"
#include "nrlib/fft/fft.hpp"
typedef unsigned long long u64;
static std::vector<u64> smooth;
static void init() {
  const u64 lim = 1ULL << 34;
  for (u64 a = 1; a < lim; a *= 2) for (u64 b = a; b < lim; b *= 3) for (u64 c = b; c < lim; c *= 5) for (u64 d = c; d < lim; d *= 7) smooth.push_back(d);
  std::sort(smooth.begin(), smooth.end());
}
static u64 spec(u64 m, bool even) {
  for (auto it = std::lower_bound(smooth.begin(), smooth.end(), m); it != smooth.end(); ++it) if (!even || *it % 2 == 0) return *it;
  return 0;
}
int main() {
  init();
  return run_cases([](Case& c) {
    std::string k = c.s();
    if (k == "size") {
      u64 m = (u64)c.i(); bool e = c.i();
      u64 r = NRLib::FindNewSizeWithPadding(m, e), w = spec(m, e);
      if (r != w) c.fail("length for " + std::to_string(m) + (e ? " (even)" : "") + " is " + std::to_string(r) + ", expected " + std::to_string(w));
    }
    else if (k == "range") {
      long a = c.i(), b = c.i();
      for (long m = a; m <= b && c.ok(); ++m) for (int e = 0; e < 2; ++e) {
        u64 r = NRLib::FindNewSizeWithPadding(m, e), w = spec(m, e);
        if (r != w) c.fail("length for " + std::to_string(m) + (e ? " (even)" : "") + " is " + std::to_string(r) + ", expected " + std::to_string(w));
      }
    }
  });
}
