// Concrete cases for grouping, search, persistence and the API: C07, C08, C09, C14, C15.
#include <functional>
#include "cases.hpp"
#include "Exception.hpp"
#include "GenexAPI.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "IO.hpp"
#include "distance/Distance.hpp"

using namespace genex;
namespace vh {

template <class F> static bool throwsLib(F f) {
  try { f(); } catch (GenexException&) { return true; }
  return false;
}
static std::string coord(int i, int s, int len) { return std::to_string(i) + "[" + std::to_string(s) + "," + std::to_string(s + len) + ")"; }

static double genThreshold(Rng& r) { return r.pick(std::vector<double>{0, 0.05, 0.1, 0.3, 0.5, 1, 2, 5, 20, 1000}); }

static void checkListing(const Listing& l, const Data& d, int m, double threshold, bool whole) {
  int L = d.maxLen(), lo = whole ? L : 2;
  for (int len = lo; len <= L; len++) {
    std::map<std::pair<int, int>, int> count;
    std::vector<const GroupInfo*> gs;
    std::vector<Seq> reps;   // as in the data, the listing rounds
    for (auto& g : l.groups) if (g.length == len) gs.push_back(&g);
    for (auto* g : gs) {
      check(!g->members.empty(), "a group of length " + std::to_string(len) + " has no members");
      bool repIsMember = false;
      Seq rep;
      for (auto& p : g->members) {
        std::string nm = coord(p.first, p.second, len);
        check(p.first >= 0 && p.first < (int)d.rows.size() && p.second >= 0 && p.second + len <= (int)d.rows[p.first].size(), "member " + nm + " is not a subsequence of the dataset");
        count[p]++;
        Seq s = sub(d.rows[p.first], p.second, p.second + len);
        double dist = pairwise(m, g->rep, s);
        check(dist <= threshold / 2 + 1e-9 * std::max(1.0, threshold), "member " + nm + " is at distance " + num(dist) + " from its representative, threshold " + num(threshold));
        bool same = true;
        for (int i = 0; i < len; i++) if (!close(s[i], g->rep[i], 1e-12)) same = false;
        repIsMember |= same;
        if (same) rep = s;
      }
      reps.push_back(rep);
      check(repIsMember, "the representative of a group of length " + std::to_string(len) + " is not one of its members");
    }
    for (size_t i = 0; i < d.rows.size(); i++)
      for (int s = 0; s + len <= (int)d.rows[i].size(); s++) {
        int n = count.count({i, s}) ? count[{i, s}] : 0;
        check(n == 1, "subsequence " + coord(i, s, len) + " belongs to " + std::to_string(n) + " groups");
      }
    for (size_t a = 0; a < gs.size(); a++)
      for (size_t b = a + 1; b < gs.size(); b++) {
        double dist = pairwise(m, gs[a]->rep, gs[b]->rep);
        check(dist > threshold / 2 - 1e-9 * std::max(1.0, threshold), "two representatives of length " + std::to_string(len) + " are only " + num(dist) + " apart, threshold " + num(threshold));
        // rounding is the same here as in the grouping
        TimeSeries ta(reps[a].data(), len), tb(reps[b].data(), len);
        double own = getDistanceFromName(metricName(m))(ta, tb, INF, gNoMatching);
        check(own != threshold / 2, "two representatives of length " + std::to_string(len) + " are exactly half the threshold " + num(threshold) + " apart");
      }
  }
  for (auto& g : l.groups) check(g.length >= lo && g.length <= L, "groups of unexpected length " + std::to_string(g.length));
}

struct Setup {
  Data d; int m; double threshold; bool whole; int threads; int count;
  GroupableTimeSeriesSet set; Listing l;
};
static void prepare(Ctx& c, Setup& s, int rows, int len, bool uneven, bool allowWhole) {
  Rng& r = c.rng;
  s.d = genData(r, rows, len, uneven, 2);
  s.m = r.range(0, 2); s.threshold = genThreshold(r); s.whole = allowWhole && r.chance(1, 5);
  s.threads = r.chance(1, 6) ? r.range(2, 4) : 1;
  c.log << "metric=" << metricName(s.m) << " threshold=" << num(s.threshold) << " whole=" << s.whole << " threads=" << s.threads << " data=" << str(s.d);
  writeData(c.dir + "/d.txt", s.d);
  s.set.loadData(c.dir + "/d.txt", 0, 0, " ");
  if (r.chance(1, 6)) s.set.groupAllLengths(metricName(r.range(0, 2)), genThreshold(r), 1, r.chance(1, 2));
  s.count = s.set.groupAllLengths(metricName(s.m), s.threshold, s.threads, s.whole);
  s.set.saveGroupsOld(c.dir + "/g.txt", false);
  s.l = parseListing(c.dir + "/g.txt");
}

void caseC07(Ctx& c) {
  Setup s;
  prepare(c, s, 1 + c.size / 2, 3 + c.size / 2, c.rng.chance(1, 2), true);
  check(s.set.isGrouped(), "not marked as grouped");
  check(s.count == (int)s.l.groups.size() && s.set.getTotalNumberOfGroups() == s.count, "reported " + std::to_string(s.count) + " groups, listing has " + std::to_string(s.l.groups.size()) + ", accessor says " + std::to_string(s.set.getTotalNumberOfGroups()));
  check(s.l.distance == metricName(s.m) && s.set.getDistanceName() == metricName(s.m), "wrong distance name");
  check(s.set.getThreshold() == s.threshold, "wrong threshold");
  checkListing(s.l, s.d, s.m, s.threshold, s.whole);
  // sizes-only listing
  s.set.saveGroupsOld(c.dir + "/n.txt", true);
  std::ifstream f(c.dir + "/n.txt");
  std::string x; double t; int a, b, lo, hi;
  f >> a >> t >> a >> b >> lo >> hi >> x;
  size_t gi = 0;
  for (int len = lo; len < hi; len++) {
    int ng = -1; f >> ng;
    for (int g = 0; g < ng; g++, gi++) {
      int n = -1; f >> n;
      check(gi < s.l.groups.size() && n == (int)s.l.groups[gi].members.size() && s.l.groups[gi].length == len, "group size listing disagrees with the members");
    }
  }
  check(gi == s.l.groups.size(), "group size listing is incomplete");
}

static Seq genQuery(Ctx& c, const Data& d) {
  Rng& r = c.rng;
  if (r.chance(1, 2)) {
    const Seq& s = d.rows[r.range(0, d.rows.size() - 1)];
    int a = r.range(0, s.size() - 1), b = r.range(a + 1, s.size());
    Seq q = sub(s, a, b);
    if (r.chance(1, 2)) for (auto& x : q) x += (r.unit() - 0.5) * 0.3;
    return q;
  }
  return genSeq(r, r.range(1, d.maxLen() + 3));
}

void caseC08(Ctx& c) {
  Rng& r = c.rng;
  {
    GroupableTimeSeriesSet empty;
    Seq z = {1, 2};
    TimeSeries t(z.data(), 2);
    check(throwsLib([&] { empty.getBestMatch(t); }), "a dataset without groups answered a query");
  }
  Setup s;
  prepare(c, s, 1 + c.size / 3, 3 + c.size / 2, r.chance(1, 2), true);
  for (int n = 0; n < 3; n++) {
    Seq q = genQuery(c, s.d);
    double ratio = genRatio(r);
    setWarpingBandRatio(ratio);
    c.log << "; query ratio=" << num(ratio) << " " << str(q);
    TimeSeries tq(q.data(), (int)q.size());
    if (q.size() <= 1) { check(throwsLib([&] { s.set.getBestMatch(tq); }), "a query of one point was answered"); continue; }
    double bestRep = kInf;
    for (auto& g : s.l.groups) if (feasible(ratio, q.size(), g.length)) bestRep = std::min(bestRep, dtw(s.m, g.rep, q, ratio));
    if (std::isinf(bestRep)) { check(throwsLib([&] { s.set.getBestMatch(tq); }), "no candidate exists but a match was returned"); continue; }
    candidate_time_series_t best = s.set.getBestMatch(tq);
    int i = best.data.getIndex(), st = best.data.getStart(), len = best.data.getLength();
    std::string nm = coord(i, st, len);
    check(i >= 0 && i < (int)s.d.rows.size() && st >= 0 && len >= 1 && st + len <= (int)s.d.rows[i].size() && best.data.getEnd() == st + len, "match " + nm + " is not a subsequence of the dataset");
    Seq found = sub(s.d.rows[i], st, st + len);
    for (int j = 0; j < len; j++) check(close(best.data[j], found[j], 1e-12), "match " + nm + " has wrong points");
    double exact = dtw(s.m, q, found, ratio);
    check(close(exact, best.dist), "match " + nm + " reports distance " + num(best.dist) + " but it is " + num(exact));
    const GroupInfo* grp = nullptr;
    for (auto& g : s.l.groups) if (g.length == len) for (auto& p : g.members) if (p.first == i && p.second == st) grp = &g;
    check(grp != nullptr, "match " + nm + " belongs to no group");
    double rep = dtw(s.m, grp->rep, q, ratio);
    check(rep <= bestRep + 1e-9 * std::max(1.0, bestRep), "the representative of the match's group is at " + num(rep) + " but another one is at " + num(bestRep));
    for (auto& p : grp->members) {
      double x = dtw(s.m, q, sub(s.d.rows[p.first], p.second, p.second + len), ratio);
      check(best.dist <= x + 1e-9 * std::max(1.0, x), "match " + nm + " at " + num(best.dist) + " but member " + coord(p.first, p.second, len) + " of its group is at " + num(x));
    }
  }
}

void caseC09(Ctx& c) {
  Rng& r = c.rng;
  Setup s;
  prepare(c, s, 1 + c.size / 3, 3 + c.size / 2, r.chance(1, 2), true);
  for (int n = 0; n < 3; n++) {
    Seq q = genQuery(c, s.d);
    if (q.size() < 2) q.push_back(r.range(0, 3));
    double ratio = genRatio(r);
    setWarpingBandRatio(ratio);
    int k = r.range(1, 4 + c.size), h = k + (r.chance(1, 3) ? 0 : r.range(0, 3 + 4 * c.size));
    if (r.chance(1, 4)) h = 100000;
    c.log << "; query ratio=" << num(ratio) << " k=" << k << " h=" << h << " " << str(q);
    TimeSeries tq(q.data(), (int)q.size());
    struct G { double rep; const GroupInfo* g; };
    std::vector<G> order; size_t total = 0;
    for (auto& g : s.l.groups) if (feasible(ratio, q.size(), g.length)) { order.push_back({dtw(s.m, g.rep, q, ratio), &g}); total += g.members.size(); }
    std::sort(order.begin(), order.end(), [](const G& a, const G& b) { return a.rep < b.rep; });
    auto res = s.set.getKBestMatches(tq, k, h);
    std::set<std::vector<int>> seen;
    double last = -kInf;
    for (auto& x : res) {
      int i = x.data.getIndex(), st = x.data.getStart(), len = x.data.getLength();
      std::string nm = coord(i, st, len);
      check(i >= 0 && i < (int)s.d.rows.size() && st >= 0 && len >= 1 && st + len <= (int)s.d.rows[i].size(), "result " + nm + " is not a subsequence of the dataset");
      check(seen.insert({i, st, len}).second, "result " + nm + " appears twice");
      double exact = dtw(s.m, q, sub(s.d.rows[i], st, st + len), ratio);
      check(close(exact, x.dist), "result " + nm + " reports distance " + num(x.dist) + " but it is " + num(exact));
      check(x.dist >= last || close(x.dist, last), "results are not in non-decreasing order");
      last = x.dist;
    }
    size_t want = std::min<size_t>(k, total);
    check(res.size() == want, "expected " + std::to_string(want) + " results, got " + std::to_string(res.size()));
    bool ties = false;
    for (size_t i = 1; i < order.size(); i++) if (order[i].rep - order[i - 1].rep < 1e-7) ties = true;
    if (!ties || (size_t)h >= total) {
      std::vector<double> examined; size_t sum = 0;
      for (auto& g : order) {
        std::vector<double> ds;
        for (auto& p : g.g->members) ds.push_back(dtw(s.m, q, sub(s.d.rows[p.first], p.second, p.second + g.g->length), ratio));
        std::sort(ds.begin(), ds.end());
        for (double x : ds) if (sum < (size_t)h) { examined.push_back(x); sum++; }
      }
      std::sort(examined.begin(), examined.end());
      for (size_t i = 0; i < res.size(); i++)
        check(close(res[i].dist, examined[i]), "result number " + std::to_string(i) + " is at " + num(res[i].dist) + " but among the examined candidates the " + std::to_string(i) + "-th is at " + num(examined[i]));
    }
    check(throwsLib([&] { s.set.getKBestMatches(tq, k, k - 1); }), "a budget below k was accepted");
    int bad = r.range(-2, 0);
    check(throwsLib([&] { s.set.getKBestMatches(tq, bad, bad + r.range(0, 3)); }), "k = " + std::to_string(bad) + " was accepted");
  }
}

static std::string canonical(const Listing& l) {
  std::string o = l.distance + " " + std::to_string(l.lo) + " " + std::to_string(l.hi) + "\n";
  for (auto& g : l.groups) {
    auto m = g.members;
    std::sort(m.begin(), m.end());
    o += std::to_string(g.length) + ":";
    for (double x : g.rep) { char b[40]; snprintf(b, 40, " %.9g", x); o += b; }
    o += " |";
    for (auto& p : m) o += " " + std::to_string(p.first) + "," + std::to_string(p.second);
    o += "\n";
  }
  return o;
}

void caseC14(Ctx& c) {
  Rng& r = c.rng;
  Setup s;
  prepare(c, s, 1 + c.size / 3, 3 + c.size / 3, r.chance(1, 2), true);
  std::string want = canonical(s.l), cur = c.dir + "/a.grp";
  bool text = r.chance(1, 3);
  c.log << (text ? "; text format" : "; binary format");
  if (text) s.set.saveGroupsOld(cur, false); else saveToFile(s.set, cur);
  double ratio = genRatio(r);
  Seq q = genQuery(c, s.d);
  if (q.size() < 2) q.push_back(1);
  TimeSeries tq(q.data(), (int)q.size());
  int hops = r.range(1, 3);
  for (int h = 0; h < hops; h++) {
    std::string when = "after load " + std::to_string(h + 1);
    c.log << "; load " << h + 1;
    GroupableTimeSeriesSet t;
    t.loadData(c.dir + "/d.txt", 0, 0, " ");
    if (r.chance(1, 3)) t.groupAllLengths(metricName(r.range(0, 2)), genThreshold(r), 1, r.chance(1, 2));
    if (text) { int n = t.loadGroupsOld(cur); check(n == s.count, when + ": load reports " + std::to_string(n) + " groups"); }
    else loadFromFile(t, cur);
    check(t.isGrouped() && t.getTotalNumberOfGroups() == s.count, when + ": " + std::to_string(t.getTotalNumberOfGroups()) + " groups instead of " + std::to_string(s.count));
    check(t.getDistanceName() == s.set.getDistanceName(), when + ": other distance");
    check(close(t.getThreshold(), s.threshold, text ? 1e-5 : 1e-15), when + ": threshold " + num(t.getThreshold()) + " instead of " + num(s.threshold));
    t.saveGroupsOld(c.dir + "/l.txt", false);
    std::string got = canonical(parseListing(c.dir + "/l.txt"));
    check(got == want, when + ": groups differ\nexpected\n" + want + "got\n" + got);
    setWarpingBandRatio(ratio);
    bool t1 = false, t2 = false; double d1 = 0, d2 = 0;
    try { d1 = s.set.getBestMatch(tq).dist; } catch (GenexException&) { t1 = true; }
    try { d2 = t.getBestMatch(tq).dist; } catch (GenexException&) { t2 = true; }
    check(t1 == t2 && close(d1, d2), when + ": best match differs");
    std::vector<double> k1, k2;
    for (auto& x : s.set.getKBestMatches(tq, 3, 7)) k1.push_back(x.dist);
    for (auto& x : t.getKBestMatches(tq, 3, 7)) k2.push_back(x.dist);
    (void)k1; (void)k2; // which of several equally near groups is examined may depend on the order of members
    check(k1.size() == k2.size(), when + ": k-best match differs");
    text = r.chance(1, 3);
    c.log << (text ? "; text" : "; binary");
    cur = c.dir + "/b" + std::to_string(h) + ".grp";
    if (text) t.saveGroupsOld(cur, false); else saveToFile(t, cur);
  }
  // incompatible target
  Data d2 = s.d;
  if (r.chance(1, 2)) { d2.rows.push_back(d2.rows[0]); c.log << "; target with one more series"; }
  else { for (auto& x : d2.rows) x.insert(x.end(), r.chance(1, 2) ? 1 : 2, 0.5); c.log << "; target with longer series"; }
  if (r.chance(1, 2)) { // shorter target
    d2 = s.d; 
    if (d2.maxLen() > 2) { for (auto& x : d2.rows) while ((int)x.size() > s.d.maxLen() - 1) x.pop_back(); c.log << " (shorter)"; }
    else d2.rows.push_back(d2.rows[0]);
  }
  writeData(c.dir + "/d2.txt", d2);
  GroupableTimeSeriesSet t;
  t.loadData(c.dir + "/d2.txt", 0, 0, " ");
  bool had = r.chance(1, 2);
  std::string before;
  if (had) {
    t.groupAllLengths(metricName(r.range(0, 2)), genThreshold(r), 1, false);
    t.saveGroupsOld(c.dir + "/x.txt", false);
    before = canonical(parseListing(c.dir + "/x.txt"));
  }
  bool threw = throwsLib([&] { if (text) t.loadGroupsOld(cur); else loadFromFile(t, cur); });
  check(threw, "groups of an incompatible dataset were accepted");
  check(t.isGrouped() == had, "a refused load changed the grouped status");
  if (had) {
    t.saveGroupsOld(c.dir + "/y.txt", false);
    check(canonical(parseListing(c.dir + "/y.txt")) == before, "a refused load changed the existing groups");
  }
  check(throwsLib([&] { GroupableTimeSeriesSet u; u.loadData(c.dir + "/d.txt", 0, 0, " "); saveToFile(u, c.dir + "/u.grp"); }), "ungrouped data was saved");
  check(throwsLib([&] { t.loadGroupsOld(c.dir + "/none"); }) && throwsLib([&] { loadFromFile(t, c.dir + "/none"); }), "a missing group file was accepted");
}

void caseC15(Ctx& c) {
  Rng& r = c.rng;
  struct M { Data d; bool normalized, grouped, paa; std::string dist; double thr; int groups; };
  GenexAPI api;
  std::map<std::string, M> model;
  std::vector<std::string> names = {"a", "b", "c"};
  std::vector<Data> files;
  for (int i = 0; i < 3; i++) {
    files.push_back(genData(r, 1 + c.size / 3, 3 + c.size / 4, r.chance(1, 3), 2));
    writeData(c.dir + "/f" + std::to_string(i) + ".txt", files[i]);
    c.log << "f" << i << "=" << str(files[i]) << " ";
  }
  writeFile(c.dir + "/bad.txt", "1 2 x\n");
  setWarpingBandRatio(1.0);
  auto verify = [&](const std::string& when) {
    check(api.getDatasetCount() == (int)model.size(), when + ": " + std::to_string(api.getDatasetCount()) + " datasets, expected " + std::to_string(model.size()));
    auto all = api.getAllDatasetInfo();
    check(all.size() == model.size(), when + ": listing has " + std::to_string(all.size()) + " datasets");
    for (auto& n : names) {
      auto it = model.find(n);
      bool threw = throwsLib([&] {
        auto i = api.getDatasetInfo(n);
        check(it != model.end(), when + ": unknown dataset " + n + " has info");
        const M& m = it->second;
        check(i.name == n && i.itemCount == (int)m.d.rows.size() && i.itemLength == m.d.maxLen(), when + ": wrong shape of " + n);
        check(i.isNormalized == m.normalized, when + ": wrong normalised status of " + n);
        check(i.isGrouped == m.grouped, when + ": wrong grouped status of " + n);
        check(i.distance == (m.grouped ? m.dist : ""), when + ": wrong distance of " + n);
        check(close(i.threshold, m.grouped ? m.thr : 0), when + ": wrong threshold of " + n);
        for (size_t k = 0; k < m.d.rows.size(); k++) {
          TimeSeries t = api.getTimeSeries(n, k, -1, -1);
          check(t.getLength() == (int)m.d.rows[k].size(), when + ": wrong length in " + n);
          for (int j = 0; j < t.getLength(); j++) check(close(t[j], m.d.rows[k][j], 1e-12), when + ": wrong value in " + n);
        }
      });
      check(threw == (it == model.end()), when + ": info of " + n);
    }
  };
  int steps = r.range(3, 6 + c.size);
  for (int st = 0; st < steps; st++) {
    std::string n = r.pick(names), when = "step " + std::to_string(st);
    auto it = model.find(n);
    bool known = it != model.end();
    int op = r.range(0, 15);
    if (!known && op != 14 && r.chance(1, 2)) op = 0;
    switch (op) {
      case 0: case 1: {
        int f = r.range(0, 3);
        std::string path = f == 3 ? c.dir + (r.chance(1, 2) ? "/bad.txt" : "/none.txt") : c.dir + "/f" + std::to_string(f) + ".txt";
        c.log << "; load " << n << " from " << f;
        bool threw = throwsLib([&] { api.loadDataset(n, path); });
        check(threw == (known || f == 3), when + ": load of " + n + (threw ? " failed" : " succeeded"));
        if (!threw) model[n] = {files[f], false, false, false, "", 0, 0};
        break; }
      case 2: {
        c.log << "; unload " << n;
        bool threw = throwsLib([&] { api.unloadDataset(n); });
        check(threw == !known, when + ": unload of " + n);
        if (known) model.erase(n);
        break; }
      case 3:
        if (!r.chance(1, 3)) break;
        c.log << "; unload all";
        api.unloadAllDataset();
        model.clear();
        break;
      case 4: {
        if (known && (it->second.grouped || it->second.paa)) break; // normalising under existing groups is left to C11
        c.log << "; normalise " << n;
        bool threw = throwsLib([&] { api.normalizeDataset(n); });
        check(threw == !known, when + ": normalise of " + n);
        if (known) {
          double mn = kInf, mx = -kInf;
          for (auto& s : it->second.d.rows) for (double x : s) { mn = std::min(mn, x); mx = std::max(mx, x); }
          for (auto& s : it->second.d.rows) for (double& x : s) x = mx == mn ? 0 : (x - mn) / (mx - mn);
          it->second.normalized = true;
        }
        break; }
      case 5: case 6: case 7: {
        int m = r.range(0, 2), threads = r.chance(1, 5) ? 2 : 1; double thr = genThreshold(r);
        std::string dist = metricName(m);
        bool bad = false;
        if (r.chance(1, 4)) { dist = "nonsense"; bad = true; } else if (r.chance(1, 5)) { threads = r.range(-1, 0); bad = true; }
        c.log << "; group " << n << " " << dist << " " << num(thr) << " threads " << threads;
        int cnt = 0;
        bool threw = throwsLib([&] { cnt = api.groupDataset(n, thr, dist, threads); });
        check(threw == (!known || bad), when + ": grouping of " + n + (threw ? " failed" : " succeeded"));
        if (!threw) { it->second.grouped = true; it->second.dist = dist; it->second.thr = thr; it->second.groups = cnt; }
        break; }
      case 8: case 9: {
        std::string qn = r.pick(names);
        bool kq = model.count(qn);
        c.log << "; best match of " << qn << "[0] in " << n;
        bool ok = known && kq && it->second.grouped;
        double dist = 0; int idx = -1, s = 0, e = 0;
        bool threw = throwsLib([&] { auto b = api.getBestMatch(n, qn, 0); dist = b.dist; idx = b.data.getIndex(); s = b.data.getStart(); e = b.data.getEnd(); });
        check(threw == !ok, when + ": best match in " + n + (threw ? " failed" : " succeeded"));
        if (ok) {
          const M& m = it->second;
          int mm = m.dist == "euclidean" ? EUC : m.dist == "manhattan" ? MAN : CHE;
          check(idx >= 0 && idx < (int)m.d.rows.size() && s >= 0 && e <= (int)m.d.rows[idx].size() && s < e, when + ": match is not in " + n);
          double want = dtw(mm, model[qn].d.rows[0], sub(m.d.rows[idx], s, e), 1.0);
          check(close(want, dist), when + ": match distance " + num(dist) + " expected " + num(want));
          auto kb = api.getKBestMatches(2, 3, n, qn, 0);
          check(!kb.empty(), when + ": no k-best match");
        }
        break; }
      case 10: {
        int b = r.range(-1, 4);
        c.log << "; prepare PAA " << n << " block " << b;
        bool threw = throwsLib([&] { api.preparePAA(n, b); });
        check(threw == (!known || b < 1), when + ": PAA preparation of " + n + (threw ? " failed" : " succeeded"));
        if (!threw) it->second.paa = true;
        break; }
      case 11: case 12: {
        std::string qn = r.pick(names);
        bool kq = model.count(qn);
        c.log << "; PAA match of " << qn << " in " << n;
        bool ok = known && kq && it->second.paa;
        std::vector<candidate_time_series_t> res;
        bool threw = throwsLib([&] { res = api.getKBestMatchesPAA(2, n, qn, 0, -1, -1, "euclidean"); });
        check(threw == !ok, when + ": PAA match in " + n + (threw ? " failed" : " succeeded"));
        for (auto& x : res) {
          int i = x.data.getIndex(), s = x.data.getStart(), e = x.data.getEnd();
          check(i >= 0 && i < (int)it->second.d.rows.size() && s >= 0 && s < e && e <= (int)it->second.d.rows[i].size(), when + ": PAA match is not in " + n);
          for (int j = 0; j < e - s; j++) check(close(x.data[j], it->second.d.rows[i][s + j], 1e-12), when + ": PAA match has points of other data");
        }
        break; }
      case 14: { // every function refuses a name that is not loaded
        if (known) break;
        std::string on = r.pick(names), out = c.dir + "/refused.txt", d = "euclidean_dtw";
        c.log << "; everything on " << n << " and " << on;
        std::vector<std::pair<std::string, std::function<void()>>> all = {
          {"saveDataset", [&] { api.saveDataset(n, out, ' '); }}, {"unloadDataset", [&] { api.unloadDataset(n); }}, {"getDatasetInfo", [&] { api.getDatasetInfo(n); }},
          {"getTimeSeriesName", [&] { api.getTimeSeriesName(n, 0); }}, {"getTimeSeriesLength", [&] { api.getTimeSeriesLength(n, 0); }}, {"getTimeSeries", [&] { api.getTimeSeries(n, 0, -1, -1); }},
          {"normalizeDataset", [&] { api.normalizeDataset(n); }}, {"groupDataset", [&] { api.groupDataset(n, 0.5, "euclidean", 1); }},
          {"saveGroups", [&] { api.saveGroups(n, out); }}, {"loadGroups", [&] { api.loadGroups(n, out); }}, {"saveGroupsOld", [&] { api.saveGroupsOld(n, out, false); }}, {"loadGroupsOld", [&] { api.loadGroupsOld(n, out); }},
          {"preparePAA", [&] { api.preparePAA(n, 2); }},
          {"getBestMatch", [&] { api.getBestMatch(n, on, 0, -1, -1); }}, {"getBestMatch as query", [&] { api.getBestMatch(on, n, 0, -1, -1); }},
          {"getKBestMatches", [&] { api.getKBestMatches(1, 1, n, on, 0, -1, -1); }}, {"getKBestMatches as query", [&] { api.getKBestMatches(1, 1, on, n, 0, -1, -1); }},
          {"getKBestMatchesBruteForce", [&] { api.getKBestMatchesBruteForce(1, n, on, 0, -1, -1, "euclidean"); }}, {"getKBestMatchesBruteForce as query", [&] { api.getKBestMatchesBruteForce(1, on, n, 0, -1, -1, "euclidean"); }},
          {"getKBestMatchesPAA", [&] { api.getKBestMatchesPAA(1, n, on, 0, -1, -1, "euclidean"); }}, {"getKBestMatchesPAA as query", [&] { api.getKBestMatchesPAA(1, on, n, 0, -1, -1, "euclidean"); }},
          {"distanceBetween", [&] { api.distanceBetween(n, 0, -1, -1, on, 0, -1, -1, d); }}, {"distanceBetween second", [&] { api.distanceBetween(on, 0, -1, -1, n, 0, -1, -1, d); }},
          {"matchingBetween", [&] { api.matchingBetween(n, 0, -1, -1, on, 0, -1, -1, d); }}, {"matchingBetween second", [&] { api.matchingBetween(on, 0, -1, -1, n, 0, -1, -1, d); }}};
        for (auto& f : all) check(throwsLib(f.second), when + ": " + f.first + " accepted the unknown name " + n);
        check(!std::ifstream(out).good(), when + ": a refused call wrote a file");
        break; }
      default: {
        std::string on = r.pick(names);
        bool ko = model.count(on), can = known && it->second.grouped;
        c.log << "; save groups of " << n << ", load into " << on;
        bool threw = throwsLib([&] { api.saveGroups(n, c.dir + "/s.grp"); });
        check(threw == !can, when + ": saving groups of " + n);
        if (threw) break;
        if (r.chance(1, 3) && ko) { // a truncated file must not disturb the target
          std::ifstream in(c.dir + "/s.grp", std::ios::binary);
          std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
          std::ofstream(c.dir + "/t.grp", std::ios::binary) << all.substr(0, r.range(0, (int)all.size() - 1));
          c.log << " (truncated first)";
          bool any = false;
          try { api.loadGroups(on, c.dir + "/t.grp"); } catch (std::exception&) { any = true; }
          // truncation inside the trailing checksum may go unnoticed by the decompressor; then the groups are complete
          if (any) verify(when + " after truncated load");
          else if (!(model[on].d.rows == it->second.d.rows)) break;
          else { model[on].grouped = true; model[on].dist = it->second.dist; model[on].thr = it->second.thr; model[on].groups = it->second.groups; }
        }
        bool comp = ko && model[on].d.rows.size() == it->second.d.rows.size() && model[on].d.maxLen() == it->second.d.maxLen();
        // same shape but other data is accepted by design; only load into identical data
        bool same = comp && model[on].d.rows == it->second.d.rows;
        if (comp && !same) break;
        int cnt = 0;
        threw = throwsLib([&] { cnt = api.loadGroups(on, c.dir + "/s.grp"); });
        check(threw == !comp, when + ": loading groups into " + on + (threw ? " failed" : " succeeded"));
        if (!threw) {
          check(cnt == it->second.groups, when + ": loaded group count");
          model[on].grouped = true; model[on].dist = it->second.dist; model[on].thr = it->second.thr; model[on].groups = cnt;
        }
        break; }
    }
    verify(when);
  }
}
} // namespace vh
