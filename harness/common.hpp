#pragma once
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <complex>
#include <functional>
#include <exception>
#include <cstdint>

/// one case per input line; prints "OK <n>" or "FAIL <line> :: why"
struct Case {
  std::string line;
  std::istringstream in;
  std::string why;
  explicit Case(const std::string& l) : line(l), in(l) {}
  template <class T> T get() { T v{}; in >> v; if (!in) { why = "bad case line"; } return v; }
  double d() { std::string s; in >> s; return std::strtod(s.c_str(), nullptr); }
  long i() { std::string s; in >> s; return std::strtol(s.c_str(), nullptr, 10); }
  std::string s() { std::string x; in >> x; return x; }
  bool fail(const std::string& w) { if (why.empty()) why = w; return false; }
  bool ok() const { return why.empty(); }
};

inline std::string num(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

inline int run_cases(const std::function<void(Case&)>& f) {
  std::string line;
  long n = 0;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    Case c(line);
    try { f(c); }
    catch (const std::exception& e) { c.fail(std::string("exception: ") + e.what()); }
    catch (...) { c.fail("unknown exception"); }
    if (c.ok()) std::printf("OK %ld\n", n);
    else {
      for (auto& ch : c.why) if (ch == '\n') ch = ' ';
      std::printf("FAIL %s :: %s\n", line.c_str(), c.why.c_str());
    }
    std::fflush(stdout);
    ++n;
  }
  return 0;
}
