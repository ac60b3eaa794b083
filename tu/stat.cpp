// Translation unit handed to clang: only includes the real sources and names the instances.
#include <string>
#include <vector>
#include "nrlib/statistics/statistics.hpp"
namespace NRLib { namespace stat_tu {
struct Missing { bool operator()(double x) const; };
typedef std::vector<double>::const_iterator It;
int count(It b, It e) { return NRLib::Count(b, e); }
int count_m(It b, It e, Missing m) { return NRLib::Count(b, e, m); }
double sum(It b, It e) { return NRLib::Sum(b, e); }
double sum_m(It b, It e, Missing m) { return NRLib::Sum(b, e, m); }
double mean(It b, It e, bool t) { return NRLib::Mean(b, e, t); }
double mean_m(It b, It e, Missing m, bool t) { return NRLib::Mean(b, e, m, t); }
double var(It b, It e, bool t) { return NRLib::Var(b, e, t); }
double var_m(It b, It e, Missing m, bool t) { return NRLib::Var(b, e, m, t); }
double cov(It b, It e, It c, It f, bool t) { return NRLib::Cov(b, e, c, f, t); }
double mean_d(It b, It e) { return NRLib::Mean(b, e); }
double mean_md(It b, It e, Missing m) { return NRLib::Mean(b, e, m); }
double var_d(It b, It e) { return NRLib::Var(b, e); }
double var_md(It b, It e, Missing m) { return NRLib::Var(b, e, m); }
double cov_d(It b, It e, It c, It f) { return NRLib::Cov(b, e, c, f); }
It max(It b, It e) { return NRLib::MaxElement(b, e); }
It min(It b, It e) { return NRLib::MinElement(b, e); }
It max_m(It b, It e, Missing m) { return NRLib::MaxElement(b, e, m); }
It min_m(It b, It e, Missing m) { return NRLib::MinElement(b, e, m); }
double mean_c(const std::vector<double>& v) { return NRLib::Mean(v); }
double mean_cm(const std::vector<double>& v, Missing m) { return NRLib::Mean(v, m); }
double var_c(const std::vector<double>& v) { return NRLib::Var(v); }
double var_cm(const std::vector<double>& v, Missing m) { return NRLib::Var(v, m); }
double cov_c(const std::vector<double>& v, const std::vector<double>& w) { return NRLib::Cov(v, w); }
} }
