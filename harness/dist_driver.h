// Bucket layouts, boundary samples and an exact oracle for distributions.
#ifndef VERIF_DIST_DRIVER_H_
#define VERIF_DIST_DRIVER_H_
#include <cfloat>
#include <cmath>
#include <limits>
#include "common.h"
#include "utils/distribution_helper.h"

namespace h {
typedef DistributionHelper DH;
const double kInf = std::numeric_limits<double>::infinity();
const double kNaN = std::numeric_limits<double>::quiet_NaN();

struct Layout {
  char kind;                      // L(inear) E(xponential) X(plicit)
  int n; double a, b;             // linear: width, offset; exponential: growth, scale
  std::vector<double> bounds;     // explicit
  bool exact;                     // every bound is exactly representable
  // All bucket bounds, in ascending order: bucket i is [B[i-1], B[i]).
  std::vector<long double> B() const {
    std::vector<long double> r;
    if (kind == 'X') { for (double d : bounds) r.push_back(d); return r; }
    long double p = b;
    for (int i = 0; i <= n; ++i) {
      r.push_back(kind == 'L' ? (long double)b + (long double)a * i : p);
      p *= a;
    }
    return r;
  }
  int buckets() const { return kind == 'X' ? (int)bounds.size() + 1 : n + 2; }
  Status Init(Distribution* d) const {
    if (kind == 'L') return DH::InitLinear(n, a, b, d);
    if (kind == 'E') return DH::InitExponential(n, a, b, d);
    return DH::InitExplicit(bounds, d);
  }
  string Name() const {
    string s(1, kind);
    if (kind != 'X') return s + mc::strf("(%d,%.17g,%.17g)", n, a, b);
    for (double d : bounds) s += mc::strf(" %.17g", d);
    return s;
  }
};

inline const std::vector<Layout>& Layouts() {
  static const std::vector<Layout>* l = new std::vector<Layout>{
      {'L', 3, 2, -1, {}, true},       {'E', 3, 10, 1, {}, true},
      {'X', 0, 0, 0, {-1, 0, 1.5, 10}, true},
      {'L', 1, 1, 0, {}, true},        {'L', 2, 0.5, 10, {}, true},     {'L', 4, 0.1, 0, {}, false},
      {'L', 5, 0.7, -1.3, {}, false},  {'L', 3, 1e308, -1e308, {}, false}, {'L', 2, 1e-300, 0, {}, false},
      {'L', 48, 1, -24, {}, true},
      {'E', 1, 2, 1, {}, true},        {'E', 4, 2, 0.5, {}, true},      {'E', 3, 1.1, 3, {}, false},
      {'E', 6, 10, 1e-3, {}, false},   {'E', 3, 1.0000001, 1, {}, false}, {'E', 3, 1e100, 1e-100, {}, false},
      {'E', 18, 10, 1, {}, true},      {'E', 29, 2, 1, {}, true},       {'E', 30, 3, 1, {}, true},
      {'E', 20, 5, 2, {}, true},       {'E', 3, 2, 1e-310, {}, false},
      {'X', 0, 0, 0, {}, true},        {'X', 0, 0, 0, {0}, true},       {'X', 0, 0, 0, {1, 2}, true},
      {'X', 0, 0, 0, {0, kInf}, true}, {'X', 0, 0, 0, {-kInf, 0, kInf}, true}, {'X', 0, 0, 0, {-1e308, 1e308}, true},
      {'X', 0, 0, 0, {0.1, 0.2, 0.3}, true},
  };
  return *l;
}

// Samples around every bound, in between, and the extremes.
inline std::vector<double> Samples(const Layout& l, bool all) {
  std::vector<double> r = {0.0, -0.0, kNaN, kInf, -kInf, 1e308, -1e308, DBL_MAX, -DBL_MAX, 5e-324, -5e-324, 1, -1, 2147483647.0,
                           2147483648.0, -2147483649.0, 4294967296.0, 9.3e18, -9.3e18, 1e10, 0.3};
  std::vector<long double> b = l.B();
  for (size_t i = 0; i < b.size(); ++i) {
    double d = (double)b[i];
    r.push_back(d);
    r.push_back(std::nextafter(d, -kInf));
    r.push_back(std::nextafter(d, kInf));
    if (i + 1 < b.size()) r.push_back((double)(b[i] / 2 + b[i + 1] / 2));
    if (!all && i == 3) break;
  }
  return r;
}
// Layouts with many buckets.
inline const std::vector<Layout>& BigLayouts() {
  static const std::vector<Layout>* l = nullptr;
  if (!l) {
    Layout x{'X', 0, 0, 0, {}, true}, y{'X', 0, 0, 0, {}, true};
    for (int i = 0; i < 150; ++i) x.bounds.push_back(i * i * 0.25 - 100);
    for (int i = 0; i < 300; ++i) y.bounds.push_back((i < 150 ? -1 : 1) * std::ldexp(1.0, i < 150 ? 149 - i : i - 150));
    l = new std::vector<Layout>{x, {'L', 300, 1, -150, {}, true}, {'E', 200, 1.1, 1, {}, false}, y, {'L', 1000, 0.001, 0, {}, false},
                                {'E', 50, 2, 1, {}, true}, {'E', 500, 1.01, 0.1, {}, false}, {'L', 128, 0.5, 0, {}, true}};
  }
  return *l;
}

// A few samples for sequences.
inline std::vector<double> FewSamples(const Layout& l) {
  std::vector<long double> b = l.B();
  std::vector<double> r = {0, -7.25, 1e6};
  if (b.size()) { r.push_back((double)b[0]); r.push_back((double)b.back()); r.push_back(std::nextafter((double)b.back(), -kInf)); }
  if (b.size() > 1) r.push_back((double)(b[0] / 2 + b[1] / 2));
  return r;
}

inline std::set<int> Buckets(const Layout& l, double v) {
  std::vector<long double> b = l.B();
  std::set<int> r;
  if (std::isnan(v)) { r.insert(0); return r; }
  int i = 0;
  while (i < (int)b.size() && (long double)v >= b[i]) ++i;
  r.insert(i);
  if (l.kind != 'X') {
    // Values next to a computed bound may fall on either side, a value equal to
    // a representable bound may not.
    for (size_t k = 0; k < b.size(); ++k) {
      if (l.exact && (long double)v == b[k]) continue;
      long double scale = std::max(std::fabs(b[k]), std::max(std::fabs(b[0]), (long double)DBL_MIN));
      if (std::fabs((long double)v - b[k]) <= scale * 8e-16L * l.n) { r.insert((int)k); r.insert((int)k + 1); }
    }
  }
  return r;
}

inline string Show(const std::vector<double>& v) {
  string s = "{";
  for (size_t i = 0; i < v.size(); ++i) {
    if (v.size() > 24 && i == 12) { s += mc::strf(" ...(%zu)...", v.size() - 24); i = v.size() - 12; }
    s += mc::strf(" %.17g", v[i]);
  }
  return s + " }";
}

// Compares the statistics with those of `v`, computed independently.
#define STATS(c, ...) do { if (!(c)) return mc::strf(__VA_ARGS__); } while (0)
inline string StatsMismatch(const Layout& l, const std::vector<double>& v, const Distribution& d, const string& what) {
  STATS(d.count() == (int64_t)v.size(), "%s %s %s: count %lld", what.c_str(), l.Name().c_str(), Show(v).c_str(), (long long)d.count());
  int64_t total = 0;
  STATS(d.bucket_counts_size() == l.buckets(), "%s %s: %d bucket counts", what.c_str(), l.Name().c_str(), d.bucket_counts_size());
  for (int64_t c : d.bucket_counts()) total += c;
  STATS(total == d.count(), "%s %s %s: buckets hold %lld of %lld", what.c_str(), l.Name().c_str(), Show(v).c_str(), (long long)total, (long long)d.count());
  if (v.empty()) return "";
  bool nan = false, big = false;
  for (double x : v) {
    if (std::isnan(x)) nan = true; if (!(std::fabs(x) <= 1e150)) big = true;
  }
  if (nan) return "";
  STATS(d.minimum() == *std::min_element(v.begin(), v.end()), "%s %s %s: minimum %.17g", what.c_str(), l.Name().c_str(), Show(v).c_str(), d.minimum());
  STATS(d.maximum() == *std::max_element(v.begin(), v.end()), "%s %s %s: maximum %.17g", what.c_str(), l.Name().c_str(), Show(v).c_str(), d.maximum());
  if (big) return "";
  long double sum = 0, dev = 0, mag = 0;
  for (double x : v) { sum += x; mag = std::max(mag, std::fabs((long double)x)); }
  long double mean = sum / v.size(), spread = 0, n = v.size();
  for (double x : v) { dev += (x - mean) * (x - mean); spread = std::max(spread, std::fabs(x - mean)); }
  // What rounding every intermediate result leaves uncertain: far less than the
  // cancellation of a sum of squares against a squared mean.
  const long double slack = 1e-14L * n * n * spread * (mag + spread) + n * (2e-15L * n * mag) * (2e-15L * n * mag);
  STATS(std::fabs(d.mean() - mean) <= 1e-14L * mag * v.size() + DBL_MIN, "%s %s %s: mean %.17g, expected %.17g", what.c_str(), l.Name().c_str(),
           Show(v).c_str(), d.mean(), (double)mean);
  STATS(std::fabs(d.sum_of_squared_deviation() - dev) <= slack + DBL_MIN, "%s %s %s: squared deviation %.17g, expected %.17g",
           what.c_str(), l.Name().c_str(), Show(v).c_str(), d.sum_of_squared_deviation(), (double)dev);
  return "";
}
inline void CheckStats(const Layout& l, const std::vector<double>& v, const Distribution& d, const string& what) {
  string m = StatsMismatch(l, v, d, what);
  if (!m.empty()) mc::fail("%s", m.c_str());
}
#undef STATS

// Distributions of very many samples: every sample of `v` added 2^e times.
struct Weighted { std::vector<double> v; int e; };
inline Distribution Scale(Distribution d, int e) {
  const int64_t w = 1LL << e;
  d.set_count(d.count() * w);
  for (auto& c : *d.mutable_bucket_counts()) c *= w;
  d.set_sum_of_squared_deviation(d.sum_of_squared_deviation() * (double)w);
  return d;
}
inline void CheckWeighted(const Layout& l, const std::vector<Weighted>& parts, const Distribution& base, const Distribution& d, const string& what) {
  // `base`: the same parts with every weight 1, for the buckets.
  long double sum = 0, mag = 0, dev = 0;
  __int128 count = 0;
  string name = what + " " + l.Name();
  for (auto& p : parts) {
    name += mc::strf(" 2^%d*%s", p.e, Show(p.v).c_str());
    count += (__int128)p.v.size() << p.e;
    for (double x : p.v) { sum += std::ldexp((long double)x, p.e); mag = std::max(mag, std::fabs((long double)x)); }
  }
  long double mean = count ? sum / (long double)count : 0;
  long double spread = 0;
  for (auto& p : parts) for (double x : p.v) { dev += std::ldexp((x - mean) * (x - mean), p.e); spread = std::max(spread, std::fabs(x - mean)); }
  const long double slack = (long double)count * (1e-12L * spread * (mag + spread) + (1e-14L * mag) * (1e-14L * mag));
  MC_CHECK(d.count() == (int64_t)count, "%s: count %lld, expected %lld", name.c_str(), (long long)d.count(), (long long)count);
  if (!count) return;
  int64_t total = 0;
  for (int64_t c : d.bucket_counts()) { MC_CHECK(c >= 0, "%s: negative bucket count %lld", name.c_str(), (long long)c); total += c; }
  MC_CHECK(total == d.count(), "%s: buckets hold %lld of %lld", name.c_str(), (long long)total, (long long)d.count());
  for (int i = 0; i < d.bucket_counts_size(); ++i)
    MC_CHECK((d.bucket_counts(i) > 0) == (base.bucket_counts(i) > 0), "%s: bucket %d holds %lld", name.c_str(), i, (long long)d.bucket_counts(i));
  MC_CHECK(d.minimum() == base.minimum() && d.maximum() == base.maximum(), "%s: range %.17g..%.17g", name.c_str(), d.minimum(), d.maximum());
  MC_CHECK(std::fabs(d.mean() - mean) <= 1e-12L * mag + DBL_MIN, "%s: mean %.17g, expected %.17g", name.c_str(), d.mean(), (double)mean);
  MC_CHECK(std::fabs(d.sum_of_squared_deviation() - dev) <= slack + DBL_MIN, "%s: squared deviation %.17g, expected %.17g", name.c_str(),
           d.sum_of_squared_deviation(), (double)dev);
  mc::validated();
}
static const int kExponents[] = {0, 1, 15, 16, 30, 31, 32, 33, 40, 52, 53, 58};
static const int kNumExponents = sizeof kExponents / sizeof *kExponents;
}  // namespace h
#endif
