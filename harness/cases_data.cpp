// Concrete cases for datasets, time series values and PAA: C10..C13, C16, C17.
#include "cases.hpp"
#include "Exception.hpp"
#include "GenexAPI.hpp"
#include "PAAWrapper.hpp"
#include "TimeSeriesSet.hpp"
#include "distance/Distance.hpp"

using namespace genex;
namespace vh {

template <class F> static bool throwsLib(F f) {
  try { f(); } catch (GenexException&) { return true; }
  return false;
}
static std::string coord(int i, int s, int e) { return std::to_string(i) + "[" + std::to_string(s) + "," + std::to_string(e) + ")"; }

// the returned candidates are real, distinct and sorted; wantDist gives the exact distance
static void checkCandidates(const std::vector<candidate_time_series_t>& res, const Data& d, int minLen,
                            std::function<double(int, int, int)> wantDist) {
  std::set<std::vector<int>> seen;
  double last = -kInf;
  for (auto& x : res) {
    int i = x.data.getIndex(), s = x.data.getStart(), e = x.data.getEnd();
    std::string nm = coord(i, s, e);
    check(i >= 0 && i < (int)d.rows.size() && s >= 0 && e - s >= minLen && e <= (int)d.rows[i].size() && x.data.getLength() == e - s, "result " + nm + " is not a subsequence of the dataset");
    check(seen.insert({i, s, e}).second, "result " + nm + " appears twice");
    for (int j = 0; j < e - s; j++) check(close(x.data[j], d.rows[i][s + j], 1e-12), "result " + nm + " has wrong points");
    double w = wantDist(i, s, e);
    check(close(w, x.dist), "result " + nm + " has distance " + num(x.dist) + " but the exact distance is " + num(w));
    check(x.dist >= last || close(x.dist, last), "results are not in non-decreasing order");
    last = x.dist;
  }
}

void caseC10(Ctx& c) {
  Rng& r = c.rng;
  Data d = genData(r, 1 + c.size / 3, 2 + c.size / 2, r.chance(1, 2));
  Seq q = r.chance(1, 3) ? d.rows[r.range(0, d.rows.size() - 1)] : genSeq(r, r.range(1, 2 + c.size / 2));
  double ratio = genRatio(r);
  int m = r.range(0, 2), k = r.range(1, 3 + c.size * 3);
  c.log << "ratio=" << num(ratio) << " metric=" << metricName(m) << " k=" << k << " query=" << str(q) << " data=" << str(d);
  writeData(c.dir + "/d.txt", d);
  TimeSeriesSet set;
  set.loadData(c.dir + "/d.txt", 0, 0, " ");
  setWarpingBandRatio(ratio);
  TimeSeries tq(q.data(), (int)q.size());
  auto dist = [&](int i, int s, int e) { return dtw(m, q, sub(d.rows[i], s, e), ratio); };
  auto res = set.getKBestMatchesBruteForce(tq, k, metricName(m));
  checkCandidates(res, d, 2, dist);
  std::vector<double> all;
  for (size_t i = 0; i < d.rows.size(); i++)
    for (int s = 0; s < (int)d.rows[i].size(); s++)
      for (int e = s + 2; e <= (int)d.rows[i].size(); e++) all.push_back(dist(i, s, e));
  std::sort(all.begin(), all.end());
  check(res.size() == std::min<size_t>(k, all.size()), "expected " + std::to_string(std::min<size_t>(k, all.size())) + " results, got " + std::to_string(res.size()));
  for (size_t i = 0; i < res.size(); i++)
    check(close(res[i].dist, all[i]), "result number " + std::to_string(i) + " has distance " + num(res[i].dist) + " but the " + std::to_string(i) + "-th smallest distance is " + num(all[i]));
  int bad = r.range(-2, 0);
  check(throwsLib([&] { set.getKBestMatchesBruteForce(tq, bad, metricName(m)); }), "k = " + std::to_string(bad) + " was accepted");
}

void caseC11(Ctx& c) {
  Rng& r = c.rng;
  Data d = genData(r, 1 + c.size / 2, 1 + c.size, r.chance(1, 2));
  if (r.chance(1, 8)) for (auto& s : d.rows) for (auto& x : s) x = d.rows[0][0];
  c.log << "data=" << str(d);
  writeData(c.dir + "/d.txt", d);
  TimeSeriesSet set;
  check(throwsLib([&] { set.normalize(); }), "an empty dataset was normalised");
  set.loadData(c.dir + "/d.txt", 0, 0, " ");
  check(!set.isNormalized(), "freshly loaded data claims to be normalised");
  double mn = kInf, mx = -kInf;
  for (auto& s : d.rows) for (double x : s) { mn = std::min(mn, x); mx = std::max(mx, x); }
  auto p = set.normalize();
  check(p.first == mn && p.second == mx, "returned (" + num(p.first) + "," + num(p.second) + ") expected (" + num(mn) + "," + num(mx) + ")");
  check(set.isNormalized(), "not marked as normalised");
  check(set.getItemCount() == (int)d.rows.size() && set.getMaxLength() == d.maxLen(), "shape changed");
  for (size_t i = 0; i < d.rows.size(); i++) {
    TimeSeries t = set.getTimeSeries(i);
    check(t.getLength() == (int)d.rows[i].size(), "length of row " + std::to_string(i) + " changed");
    for (int j = 0; j < t.getLength(); j++) {
      double want = mx == mn ? 0 : (d.rows[i][j] - mn) / (mx - mn);
      check(close(want, t[j], 1e-12), "row " + std::to_string(i) + " point " + std::to_string(j) + " expected " + num(want) + " got " + num(t[j]));
    }
  }
}

void caseC12(Ctx& c) {
  Rng& r = c.rng;
  Data d = genData(r, 1 + c.size / 3, 1 + c.size / 2, r.chance(2, 3));
  c.log << "data=" << str(d);
  writeData(c.dir + "/d.txt", d);
  TimeSeriesSet set;
  check(throwsLib([&] { set.getTimeSeries(0); }), "a series of an empty dataset was returned");
  set.loadData(c.dir + "/d.txt", 0, 0, " ");
  GenexAPI api;
  api.loadDataset("d", c.dir + "/d.txt", " ");
  int n = d.rows.size(), L = d.maxLen();
  for (int i = -2; i <= n + 1; i++) {
    bool exists = i >= 0 && i < n;
    check(throwsLib([&] { set.getTimeSeriesName(i); }) == !exists, "name of series " + std::to_string(i));
    check(throwsLib([&] { api.getTimeSeriesName("d", i); }) == !exists, "API name of series " + std::to_string(i));
    check(throwsLib([&] { api.getTimeSeriesLength("d", i); }) == !exists, "API length of series " + std::to_string(i));
    if (exists) {
      check(set.getTimeSeriesName(i) == std::to_string(i), "default name of series " + std::to_string(i));
      check(api.getTimeSeriesLength("d", i) == (int)d.rows[i].size(), "length of series " + std::to_string(i));
      check(set.getItemLength(i) == (int)d.rows[i].size(), "item length of series " + std::to_string(i));
    }
    for (int s = -2; s <= L + 1; s++)
      for (int e = -2; e <= L + 2; e++) {
        bool whole = s < 0 && e < 0;
        bool ok = exists && (whole || (s >= 0 && s < e && e <= (int)d.rows[i].size()));
        std::string nm = coord(i, s, e);
        for (int via = 0; via < 2; via++) {
          bool threw = false;
          try {
            TimeSeries t = via ? api.getTimeSeries("d", i, s, e) : set.getTimeSeries(i, s, e);
            check(ok, nm + " was returned although it does not exist");
            int f = whole ? 0 : s, l = whole ? d.rows[i].size() : e;
            check(t.getLength() == l - f && t.getStart() == f && t.getEnd() == l && t.getIndex() == i, nm + " has wrong attributes");
            for (int j = 0; j < l - f; j++) check(close(t[j], d.rows[i][f + j], 1e-12), nm + " point " + std::to_string(j) + " is " + num(t[j]));
            for (int j : {-1, l - f, l - f + 1}) check(throwsLib([&] { (void)t[j]; }), nm + " point " + std::to_string(j) + " was returned");
          } catch (GenexException&) { threw = true; }
          check(threw == !ok, nm + (ok ? " raised an error" : " raised no error"));
        }
      }
  }
}

// ---- C13 ---------------------------------------------------------------------
struct FileSpec { std::string text; std::vector<std::vector<std::string>> tokens; bool bad; };
static FileSpec genFile(Rng& r, const std::string& sepchars, bool hasName, int startCol, int size) {
  FileSpec f; f.bad = false;
  int rows = r.range(1, 1 + size / 2), cols = r.range(1, 2 + size / 2) + startCol + hasName;
  bool uneven = r.chance(1, 2), shortRows = r.chance(1, 4);
  int badRow = r.chance(1, 8) ? r.range(0, rows - 1) : -1;
  for (int i = 0; i < rows; i++) {
    int n = uneven ? r.range(shortRows ? 0 : startCol + hasName + 1, cols) : cols;
    std::vector<std::string> tk;
    std::string line;
    for (int j = 0; j < n; j++) {
      std::string t;
      if (hasName && j == startCol) t = "n" + std::to_string(r.range(0, 99)) + "x";
      else if (i == badRow && j >= startCol && r.chance(1, 2)) t = r.chance(1, 2) ? "abc" : "1e999";
      else if (j < startCol && r.chance(1, 2)) t = "skip";
      else { char b[64]; switch (r.range(0, 3)) { case 0: snprintf(b, 64, "%d", r.range(-9, 99)); break; case 1: snprintf(b, 64, "%.3f", r.unit() * 8 - 4); break; case 2: snprintf(b, 64, "%.4e", r.unit() * 100); break; default: snprintf(b, 64, "%.17g", r.unit()); } t = b; }
      if (t == "abc" || t == "1e999") f.bad = true; // refined below: only counts if the row is loaded
      tk.push_back(t);
      std::string sp(1, sepchars[r.range(0, sepchars.size() - 1)]);
      if (r.chance(1, 6)) sp += sepchars[0];
      line += t + (j + 1 < n || r.chance(1, 3) ? sp : "");
    }
    f.tokens.push_back(tk);
    f.text += line;
    if (i + 1 < rows || r.chance(3, 4)) f.text += "\n";
  }
  // a last line without content and without newline does not exist
  if (!f.tokens.empty() && f.tokens.back().empty() && (f.text.empty() || f.text.back() != '\n' || false)) {
    if (f.text.empty() || f.text.back() != '\n') f.tokens.pop_back();
  }
  return f;
}

static std::vector<std::string> splitLines(const std::string& t) {
  std::vector<std::string> v; std::string cur; 
  for (char ch : t) { if (ch == '\n') { v.push_back(cur); cur.clear(); } else cur += ch; }
  if (!cur.empty()) v.push_back(cur);
  return v;
}
static std::vector<std::string> splitTokens(const std::string& l, const std::string& sep) {
  std::vector<std::string> v; std::string cur;
  for (char ch : l) { if (sep.find(ch) != std::string::npos) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; }
  if (!cur.empty()) v.push_back(cur);
  return v;
}

static void checkLoaded(TimeSeriesSet& set, const std::vector<std::vector<std::string>>& rows, int startCol, bool hasName, double tol, const std::string& when) {
  check(set.getItemCount() == (int)rows.size(), when + ": expected " + std::to_string(rows.size()) + " series, got " + std::to_string(set.getItemCount()));
  int longest = 0;
  for (size_t i = 0; i < rows.size(); i++) {
    int n = std::max(0, (int)rows[i].size() - startCol - (hasName ? 1 : 0));
    longest = std::max(longest, n);
    std::string nm = when + ": row " + std::to_string(i);
    check(set.getItemLength(i) == n, nm + " expected length " + std::to_string(n) + " got " + std::to_string(set.getItemLength(i)));
    std::string name = hasName && (int)rows[i].size() > startCol ? rows[i][startCol] : std::to_string(i);
    check(set.getTimeSeriesName(i) == name, nm + " expected name " + name + " got " + set.getTimeSeriesName(i));
    TimeSeries t = set.getTimeSeries(i);
    check(t.getLength() == n, nm + " series length");
    for (int j = 0; j < n; j++) {
      double want = strtod(rows[i][startCol + (hasName ? 1 : 0) + j].c_str(), 0);
      check(close(t[j], want, tol), nm + " point " + std::to_string(j) + " expected " + num(want) + " got " + num(t[j]));
    }
  }
  check(set.getMaxLength() >= longest, when + ": longest length " + std::to_string(set.getMaxLength()) + " below " + std::to_string(longest));
  check(!set.isNormalized(), when + ": freshly loaded data claims to be normalised");
}

void caseC13(Ctx& c) {
  Rng& r = c.rng;
  TimeSeriesSet set;
  int loads = r.range(1, 3);
  for (int l = 0; l < loads; l++) {
    std::string sep = r.pick(std::vector<std::string>{" ", ",", ", ", ";", "\t"});
    bool hasName = r.chance(1, 3);
    int startCol = r.chance(1, 2) ? 0 : r.range(1, 3);
    FileSpec f = genFile(r, sep, hasName, startCol, c.size);
    auto lines = splitLines(f.text);
    int maxRow = r.chance(1, 2) ? r.range(-1, 0) : r.range(1, (int)lines.size() + 2);
    std::string path = c.dir + "/f.txt";
    bool missing = r.chance(1, 12);
    bool folder = !missing && r.chance(1, 12); // opens, but cannot be read
    if (missing) path = c.dir + "/does_not_exist.txt"; else if (folder) path = c.dir; else writeFile(path, f.text);
    c.log << "; load sep='" << sep << "' name=" << hasName << " startCol=" << startCol << " rows=" << maxRow << (missing ? " missing file" : folder ? " a directory" : " text=" + f.text);
    std::vector<std::vector<std::string>> rows;
    for (size_t i = 0; i < lines.size() && (maxRow <= 0 || (int)i < maxRow); i++) rows.push_back(splitTokens(lines[i], sep));
    bool bad = missing || folder;
    for (auto& tk : rows) for (int j = startCol + hasName; j < (int)tk.size(); j++) if (tk[j] == "abc" || tk[j] == "1e999") bad = true;
    std::string when = "load " + std::to_string(l);
    bool threw = throwsLib([&] { set.loadData(path, maxRow, startCol, sep, hasName); });
    check(threw == bad, when + (bad ? " accepted an unreadable file or field" : " refused a readable file"));
    if (threw) {
      check(set.getItemCount() == 0 && !set.isLoaded(), when + " failed but left data behind");
      check(throwsLib([&] { set.getTimeSeries(0); }), when + " failed but a series can be read");
      continue;
    }
    checkLoaded(set, rows, startCol, hasName, 1e-12, when);
    if (r.chance(1, 2)) { // save and load again
      c.log << "; save and reload";
      char sc = sep[0];
      set.saveData(c.dir + "/s.txt", sc);
      TimeSeriesSet back;
      back.loadData(c.dir + "/s.txt", 0, 0, std::string(1, sc), hasName);
      std::vector<std::vector<std::string>> rr;
      for (size_t i = 0; i < rows.size(); i++) {
        std::vector<std::string> x;
        if (hasName) x.push_back((int)rows[i].size() > startCol ? rows[i][startCol] : std::to_string(i));
        for (int j = startCol + hasName; j < (int)rows[i].size(); j++) x.push_back(rows[i][j]);
        rr.push_back(x);
      }
      checkLoaded(back, rr, 0, hasName, 2e-5, when + " after saving");
    }
    bool any = false;
    for (auto& x : rows) if ((int)x.size() > startCol + hasName) any = true;
    if (any && r.chance(1, 3)) { c.log << "; normalise"; set.normalize(); }
  }
}

// ---- C16 ---------------------------------------------------------------------
static Seq paa(const Seq& s, int b) {
  Seq o;
  for (size_t i = 0; i < s.size(); i += b) {
    double t = 0; int n = 0;
    for (size_t j = i; j < s.size() && j < i + b; j++) { t += s[j]; n++; }
    o.push_back(t / n);
  }
  return o;
}
void caseC16(Ctx& c) {
  Rng& r = c.rng;
  Data d = genData(r, 1 + c.size / 3, 2 + c.size / 2, r.chance(1, 2));
  int L = d.maxLen();
  double ratio = genRatio(r);
  int m = r.range(0, 2), k = r.range(1, 3 + c.size * 2), rounds = r.range(1, 2);
  Seq q = r.chance(1, 3) ? d.rows[r.range(0, d.rows.size() - 1)] : genSeq(r, r.range(1, 2 + c.size / 2));
  c.log << "ratio=" << num(ratio) << " metric=" << metricName(m) << " k=" << k << " query=" << str(q) << " data=" << str(d);
  writeData(c.dir + "/d.txt", d);
  TimeSeriesSet set;
  set.loadData(c.dir + "/d.txt", 0, 0, " ");
  setWarpingBandRatio(ratio);
  PAAWrapper w(set);
  check(throwsLib([&] { w.generatePAAMatrix(r.range(-2, 0)); }), "a non-positive block size was accepted");
  for (int round = 0; round < rounds; round++) {
    int b = r.range(1, L + 2);
    c.log << "; block " << b;
    w.generatePAAMatrix(b);
    // a block size beyond the longest series is the same as that length
    int eb = std::min(b, L);
    for (size_t i = 0; i < d.rows.size(); i++)
      for (int s = 0; s < (int)d.rows[i].size(); s++)
        for (int e = s + 1; e <= (int)d.rows[i].size(); e++) {
          TimeSeries t = w.getPAA(i, s, e);
          Seq want = paa(sub(d.rows[i], s, e), eb);
          check(t.getLength() == (int)want.size(), "reduced " + coord(i, s, e) + " has " + std::to_string(t.getLength()) + " points, expected " + std::to_string(want.size()));
          for (size_t j = 0; j < want.size(); j++) check(close(want[j], t[j], 1e-9), "reduced " + coord(i, s, e) + " point " + std::to_string(j) + " expected " + num(want[j]) + " got " + num(t[j]));
        }
    check(throwsLib([&] { w.getPAA(d.rows.size(), 0, 1); }) && throwsLib([&] { w.getPAA(0, 1, 1); }) && throwsLib([&] { w.getPAA(0, 0, d.rows[0].size() + 1); }), "a window that does not exist was reduced");
    Seq pq = paa(q, eb);
    TimeSeries tq(q.data(), (int)q.size());
    auto dist = [&](int i, int s, int e) { return dtw(m, pq, paa(sub(d.rows[i], s, e), eb), ratio); };
    auto res = w.getKBestMatchesPAA(tq, k, metricName(m));
    checkCandidates(res, d, 2, dist);
    std::vector<double> all;
    for (size_t i = 0; i < d.rows.size(); i++)
      for (int s = 0; s < (int)d.rows[i].size(); s++)
        for (int e = s + 2; e <= (int)d.rows[i].size(); e++) all.push_back(dist(i, s, e));
    std::sort(all.begin(), all.end());
    check(res.size() == std::min<size_t>(k, all.size()), "PAA search: expected " + std::to_string(std::min<size_t>(k, all.size())) + " results, got " + std::to_string(res.size()));
    for (size_t i = 0; i < res.size(); i++)
      check(close(res[i].dist, all[i]), "PAA search: result number " + std::to_string(i) + " has distance " + num(res[i].dist) + " but the " + std::to_string(i) + "-th smallest is " + num(all[i]));
    check(throwsLib([&] { w.getKBestMatchesPAA(tq, r.range(-2, 0), metricName(m)); }), "non-positive k accepted by the PAA search");
  }
}

// ---- C17 ---------------------------------------------------------------------
void caseC17(Ctx& c) {
  Rng& r = c.rng;
  struct Model { bool owner; Seq own; int pool, index, start, end; };
  const int P = 2;
  int cap = 2 + c.size;
  std::vector<Seq> pool(P);
  for (auto& s : pool) s = genSeq(r, r.range(2, cap + 1));
  std::vector<std::unique_ptr<TimeSeries>> obj;
  std::vector<Model> mod;
  for (int p = 0; p < P; p++) c.log << "array" << p << "=" << str(pool[p]) << " ";
  auto points = [&](const Model& m) { return m.owner ? m.own : sub(pool[m.pool], m.start, m.end); };
  auto verify = [&](const std::string& when) {
    for (size_t k = 0; k < obj.size(); k++) {
      const TimeSeries& t = *obj[k];
      Seq w = points(mod[k]);
      std::string nm = when + ": s" + std::to_string(k);
      check(t.getLength() == (int)w.size(), nm + " has length " + std::to_string(t.getLength()) + " expected " + std::to_string(w.size()));
      check(t.getIndex() == mod[k].index && t.getStart() == mod[k].start && t.getEnd() == mod[k].end, nm + " has wrong position");
      for (size_t i = 0; i < w.size(); i++) check(close(t[i], w[i], 1e-12), nm + " point " + std::to_string(i) + " expected " + num(w[i]) + " got " + num(t[i]));
    }
  };
  int steps = r.range(2, 4 + c.size);
  for (int st = 0; st < steps; st++) {
    int op = obj.empty() ? r.range(0, 1) : r.range(0, 9);
    int k = obj.empty() ? 0 : r.range(0, obj.size() - 1), o = obj.empty() ? 0 : r.range(0, obj.size() - 1);
    std::string sk = "s" + std::to_string(k), so = "s" + std::to_string(o);
    if (op == 0) {
      int p = r.range(0, P - 1), s = r.range(0, pool[p].size() - 1), e = r.range(s + 1, pool[p].size()), ix = r.range(0, 5);
      c.log << "; new view array" << p << "[" << s << "," << e << ")";
      if (s == 0 && r.chance(1, 2)) { obj.emplace_back(new TimeSeries(pool[p].data(), e)); ix = 0; }
      else obj.emplace_back(new TimeSeries(pool[p].data(), ix, s, e));
      mod.push_back({false, {}, p, ix, s, e});
    } else if (op == 1) {
      Seq s = genSeq(r, r.range(1, cap));
      c.log << "; new owner " << str(s);
      obj.emplace_back(new TimeSeries((int)s.size()));
      for (size_t i = 0; i < s.size(); i++) { check((*obj.back())[i] == 0, "a new owning series is not zero"); (*obj.back())[i] = s[i]; }
      mod.push_back({true, s, -1, 0, 0, (int)s.size()});
    } else if (op == 2) {
      c.log << "; copy of " << so;
      obj.emplace_back(new TimeSeries(*obj[o]));
      mod.push_back(mod[o]);
    } else if (op == 3 || op == 4) {
      c.log << "; " << sk << " = " << so;
      if (r.chance(1, 3)) obj[k]->getKeoghLower(r.range(0, 3));
      TimeSeries& res = (*obj[k] = *obj[o]);
      check(&res == obj[k].get(), "assignment does not return its target");
      mod[k] = mod[o];
    } else if (op == 5) {
      c.log << "; " << sk << " = moved copy of " << so;
      TimeSeries tmp(*obj[o]);
      Model mo = mod[o];
      *obj[k] = std::move(tmp);
      mod[k] = mo;
    } else if (op == 6) {
      bool sameLen = points(mod[k]).size() == points(mod[o]).size();
      // adding a view of the same array shifts points under the reader; keep to owners as targets
      if (!mod[k].owner) continue;
      c.log << "; " << sk << " += " << so;
      Seq add = points(mod[o]);
      bool threw = throwsLib([&] { *obj[k] += *obj[o]; });
      check(threw == !sameLen, "addition of lengths " + std::to_string(points(mod[k]).size()) + " and " + std::to_string(add.size()) + (threw ? " raised an error" : " raised no error"));
      if (sameLen) for (size_t i = 0; i < add.size(); i++) mod[k].own[i] += add[i];
    } else if (op == 7) {
      Seq a = points(mod[k]), b = points(mod[o]);
      bool eq = a.size() == b.size(); bool edge = false;
      for (size_t i = 0; eq && i < a.size(); i++) { double df = std::fabs(a[i] - b[i]); if (df > 1e-9) eq = false; if (df > 5e-10 && df < 2e-9) edge = true; }
      c.log << "; compare " << sk << " " << so;
      if (!edge) check((*obj[k] == *obj[o]) == eq, "equality of " + str(a) + " and " + str(b) + " reported as " + (eq ? "false" : "true"));
    } else if (op == 8) {
      Seq a = points(mod[k]); double t = 0;
      for (double x : a) t += x;
      c.log << "; average " << sk;
      double got = obj[k]->average();
      check(close(got, t / a.size()), "average expected " + num(t / a.size()) + " got " + num(got));
    } else {
      c.log << "; destroy " << sk;
      obj.erase(obj.begin() + k); mod.erase(mod.begin() + k);
    }
    verify("step " + std::to_string(st));
  }
  obj.clear();
}
} // namespace vh
