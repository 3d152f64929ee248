// Shared helpers of the concrete harness: deterministic case generation,
// independent oracles, tolerant comparison.
#ifndef VH_COMMON_HPP
#define VH_COMMON_HPP
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {
typedef std::vector<double> Seq;
static const double kInf = std::numeric_limits<double>::infinity();

struct Failure { std::string what; };

// ---- deterministic generator -------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)(next() % (uint64_t)den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// Writes straight into a caller-supplied buffer so that the text survives a crash.
struct FixedBuf : std::streambuf {
  FixedBuf(char* b, size_t n) { setp(b, b + n); }
};
struct Ctx {
  Rng rng;
  int size;
  std::string dir;  // private scratch directory
  FixedBuf buf;
  std::ostream log; // description of the input
  Ctx(uint64_t seed, int size, const std::string& dir, char* b, size_t n) : rng(seed), size(size), dir(dir), buf(b, n), log(&buf) {}
};

[[noreturn]] inline void fail(const std::string& s) { throw Failure{s}; }
inline std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string str(const Seq& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); i++) { if (i) o += ", "; o += num(s[i]); }
  return o + "]";
}
inline void check(bool ok, const std::string& s) { if (!ok) fail(s); }

inline bool close(double x, double y, double tol = 1e-9) {
  if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
  if (std::isinf(x) || std::isinf(y)) return x == y;
  return std::fabs(x - y) <= tol * std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
}

// ---- data -----------------------------------------------------------------
inline Seq genSeq(Rng& r, int n) {
  Seq v(n);
  int mode = r.range(0, 8);
  double base = r.range(-3, 3);
  for (int i = 0; i < n; i++) {
    switch (mode) {
      case 0: v[i] = r.range(0, 2); break;
      case 1: v[i] = r.range(-5, 5); break;
      case 2: v[i] = r.unit() * 2 - 1; break;
      case 3: v[i] = base + i; break;
      case 4: v[i] = base - i; break;
      case 5: v[i] = base; break;
      case 6: v[i] = r.chance(1, 4) ? r.range(-100, 100) : base; break;
      case 7: v[i] = std::round(1000 * r.unit()) / 8; break;
      default: v[i] = (i % 2 ? 1 : -1) * r.unit() * 10; break;
    }
  }
  return v;
}
inline double genRatio(Rng& r) {
  static const std::vector<double> fixed = {0, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.75, 0.9, 1.0, 1.5};
  return r.chance(1, 4) ? r.unit() : r.pick(fixed);
}

// ---- oracles ----------------------------------------------------------------
enum Metric { EUC, MAN, CHE };
inline const char* metricName(int m) { return m == EUC ? "euclidean" : m == MAN ? "manhattan" : "chebyshev"; }
inline int band(double ratio, int a, int b) {
  int len = std::max(a, b);
  double f = std::floor(len * ratio);
  return f >= len - 1 ? len - 1 : (int)f;
}
inline double point(int m, double x, double y) { double d = x - y; return m == EUC ? d * d : std::fabs(d); }
inline double combine(int m, double acc, double d) { return m == CHE ? std::max(acc, d) : acc + d; }
inline double normW(int m, double t, int a, int b) {
  if (std::isinf(t)) return t;
  int len = std::max(a, b);
  return m == EUC ? std::sqrt(t) / (2.0 * len) : m == MAN ? t / (2.0 * len) : t;
}
inline bool feasible(double ratio, int a, int b) { return std::abs(a - b) <= band(ratio, a, b); }

// optimal banded warping cost, independent of the implementation's table layout
inline double dtw(int m, const Seq& a, const Seq& b, double ratio) {
  int A = a.size(), B = b.size(), r = band(ratio, A, B);
  std::vector<double> prev(B, kInf), cur(B, kInf);
  for (int i = 0; i < A; i++) {
    std::fill(cur.begin(), cur.end(), kInf);
    for (int j = 0; j < B; j++) {
      if (std::abs(i - j) > r) continue;
      double d = point(m, a[i], b[j]);
      if (i == 0 && j == 0) { cur[j] = d; continue; }
      double best = kInf;
      if (j > 0) best = std::min(best, cur[j - 1]);
      if (i > 0) best = std::min(best, prev[j]);
      if (i > 0 && j > 0) best = std::min(best, prev[j - 1]);
      cur[j] = std::isinf(best) ? kInf : combine(m, best, d);
    }
    std::swap(prev, cur);
  }
  return normW(m, prev[B - 1], A, B);
}
inline double pairwise(int m, const Seq& a, const Seq& b) {
  double t = m == CHE ? -kInf : 0;
  for (size_t i = 0; i < a.size(); i++) t = combine(m, t, point(m, a[i], b[i]));
  return m == EUC ? std::sqrt(t / a.size()) : m == MAN ? t / a.size() : t;
}
inline Seq sub(const Seq& s, int start, int end) { return Seq(s.begin() + start, s.begin() + end); }

// ---- datasets ---------------------------------------------------------------
struct Data {
  std::vector<Seq> rows;
  int maxLen() const { size_t m = 0; for (auto& r : rows) m = std::max(m, r.size()); return m; }
};
inline Data genData(Rng& r, int maxRows, int maxLen, bool uneven, int minLen = 1) {
  Data d;
  int n = r.range(1, maxRows), L = r.range(minLen, maxLen);
  int mode = r.range(0, 2);
  for (int i = 0; i < n; i++) {
    int l = uneven ? r.range(minLen, L) : L;
    if (mode == 2 && i > 0 && !uneven) {
      Seq s = d.rows[r.range(0, i - 1)];
      for (auto& x : s) if (r.chance(1, 3)) x += (r.unit() - 0.5) * 0.2;
      d.rows.push_back(s);
    } else d.rows.push_back(genSeq(r, l));
  }
  return d;
}
inline std::string str(const Data& d) {
  std::string o = "{";
  for (size_t i = 0; i < d.rows.size(); i++) o += (i ? ", " : "") + str(d.rows[i]);
  return o + "}";
}
inline void writeFile(const std::string& path, const std::string& text) {
  std::ofstream f(path); f << text; f.close();
}
inline void writeData(const std::string& path, const Data& d, const char* sep = " ") {
  std::string o;
  for (auto& r : d.rows) {
    for (size_t i = 0; i < r.size(); i++) o += (i ? sep : "") + num(r[i]);
    o += "\n";
  }
  writeFile(path, o);
}

// ---- group listing ------------------------------------------------------------
struct GroupInfo { int length; Seq rep; std::vector<std::pair<int, int>> members; };
struct Listing { double threshold; int items, maxLen, lo, hi; std::string distance; std::vector<GroupInfo> groups; };
inline Listing parseListing(const std::string& path) {
  Listing l; int version;
  std::ifstream f(path);
  f >> version >> l.threshold >> l.items >> l.maxLen >> l.lo >> l.hi >> l.distance;
  for (int len = l.lo; len < l.hi; len++) {
    int ng = 0;
    f >> ng;
    check(bool(f) && ng >= 0, "group listing is not readable at length " + std::to_string(len));
    for (int g = 0; g < ng; g++) {
      GroupInfo gi; gi.length = len; gi.rep.resize(len);
      for (auto& x : gi.rep) f >> x;
      int c = 0; f >> c;
      check(bool(f) && c >= 0, "group listing is not readable in length " + std::to_string(len));
      for (int i = 0; i < c; i++) { int a = -1, b = -1; f >> a >> b; gi.members.push_back({a, b}); }
      check(bool(f), "group listing is shorter than its counts say (length " + std::to_string(len) + ")");
      l.groups.push_back(gi);
    }
  }
  std::string rest; 
  check(!(f >> rest), "group listing has trailing content: " + rest);
  return l;
}
} // namespace vh
#endif
