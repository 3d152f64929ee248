// Concrete cases for the distance layer: C01..C06, C18.
#include "cases.hpp"
#include "distance/Distance.hpp"
#include "group/GlobalGroupSpace.hpp"
#include "Exception.hpp"

using namespace genex;
namespace vh {

// A view [start, start+n) into a larger array, so that a wrong start offset shows.
struct View {
  Seq buf; int start; int n;
  View(Rng& r, const Seq& s) : start(r.range(0, 3)), n(s.size()) {
    buf = genSeq(r, start);
    buf.insert(buf.end(), s.begin(), s.end());
  }
  TimeSeries ts() { return TimeSeries(buf.data(), 3, start, start + n); }
};

static Seq genPair(Ctx& c, Seq& b, bool sameLen) {
  int cap = 2 + c.size;
  int n = c.rng.range(1, cap), m = sameLen ? n : c.rng.range(1, cap);
  if (!sameLen && c.rng.chance(1, 2)) m = std::max(1, n + c.rng.range(-2, 2));
  Seq a = genSeq(c.rng, n);
  b = genSeq(c.rng, m);
  if (c.rng.chance(1, 4)) for (int i = 0; i < std::min(n, m); i++) b[i] = a[i] + (c.rng.chance(1, 3) ? c.rng.range(-1, 1) : 0);
  return a;
}

static double warped(int m, const TimeSeries& a, const TimeSeries& b, double cut) {
  return getDistanceFromName(std::string(metricName(m)) + "_dtw")(a, b, cut, gNoMatching);
}

void caseC01(Ctx& c) {
  Seq b, a = genPair(c, b, false);
  double ratio = genRatio(c.rng);
  c.log << "ratio=" << num(ratio) << " a=" << str(a) << " b=" << str(b);
  View va(c.rng, a), vb(c.rng, b);
  setWarpingBandRatio(ratio);
  for (int m = 0; m < 3; m++) {
    double want = dtw(m, a, b, ratio);
    double got = warped(m, va.ts(), vb.ts(), kInf);
    check(close(want, got), std::string(metricName(m)) + "_dtw: expected " + num(want) + " got " + num(got));
    matching_t mt;
    got = getDistanceFromName(std::string(metricName(m)) + "_dtw")(va.ts(), vb.ts(), kInf, mt);
    check(close(want, got), std::string(metricName(m)) + "_dtw with alignment: expected " + num(want) + " got " + num(got));
  }
}

static void cutoffs(Ctx& c, double exact, std::function<double(double)> f, const std::string& name) {
  std::vector<double> cuts = {0, kInf, c.rng.unit(), c.rng.unit() * 10};
  double plain = f(kInf);
  check(close(plain, exact), name + ": without cut-off expected " + num(exact) + " got " + num(plain));
  if (!std::isinf(exact))
    for (double q : {0.05, 0.3, 0.5, 0.9, 0.99, 1.01, 1.3, 2.0, 20.0}) cuts.push_back(exact * q);
  for (double cut : cuts) {
    double got = f(cut);
    if (exact < cut - 1e-9 * std::max(1.0, cut))
      check(close(got, plain, 1e-12), name + ": cut-off " + num(cut) + " above the distance " + num(exact) + " but got " + num(got));
    else if (exact > cut + 1e-9 * std::max(1.0, cut))
      check(got > cut, name + ": distance " + num(exact) + " above cut-off " + num(cut) + " but got " + num(got));
  }
}

void caseC02(Ctx& c) {
  double ratio = genRatio(c.rng);
  setWarpingBandRatio(ratio);
  Seq b, a = genPair(c, b, true);
  Seq y, x = genPair(c, y, false);
  c.log << "ratio=" << num(ratio) << " pairwise a=" << str(a) << " b=" << str(b) << " warped x=" << str(x) << " y=" << str(y);
  View va(c.rng, a), vb(c.rng, b), vx(c.rng, x), vy(c.rng, y);
  TimeSeries ta = va.ts(), tb = vb.ts(), tx = vx.ts(), ty = vy.ts();
  for (int m = 0; m < 3; m++) {
    dist_t pw = getDistanceFromName(metricName(m));
    cutoffs(c, pairwise(m, a, b), [&](double cut) { return pw(ta, tb, cut, gNoMatching); }, metricName(m));
    cutoffs(c, dtw(m, x, y, ratio), [&](double cut) { return warped(m, tx, ty, cut); }, std::string(metricName(m)) + "_dtw");
  }
  cutoffs(c, dtw(EUC, x, y, ratio), [&](double cut) { return cascadeDistance(tx, ty, cut, gNoMatching); }, "cascade");
}

void caseC03(Ctx& c) {
  Seq b, a = genPair(c, b, false);
  double ratio = genRatio(c.rng);
  c.log << "ratio=" << num(ratio) << " a=" << str(a) << " b=" << str(b);
  View va(c.rng, a), vb(c.rng, b);
  setWarpingBandRatio(ratio);
  TimeSeries ta = va.ts(), tb = vb.ts();
  double d = dtw(EUC, a, b, ratio);
  double slack = d * (1 + 1e-9) + 1e-12;
  for (double cut : {kInf, d * 0.5, d, d * 2, 0.0, c.rng.unit()}) {
    if (std::isnan(cut)) continue;
    double v;
    v = kimLowerBound(ta, tb, cut);
    check(v <= slack, "kim(a,b) = " + num(v) + " exceeds the distance " + num(d) + " cut-off " + num(cut));
    v = kimLowerBound(tb, ta, cut);
    check(v <= slack, "kim(b,a) = " + num(v) + " exceeds the distance " + num(d) + " cut-off " + num(cut));
    v = keoghLowerBound(ta, tb, cut);
    check(v <= slack, "keogh(a,b) = " + num(v) + " exceeds the distance " + num(d) + " cut-off " + num(cut));
    v = keoghLowerBound(tb, ta, cut);
    check(v <= slack, "keogh(b,a) = " + num(v) + " exceeds the distance " + num(d) + " cut-off " + num(cut));
    v = crossKeoghLowerBound(ta, tb, cut);
    check(v <= slack || (std::isinf(v) && d > cut * (1 - 1e-9)), "two-sided keogh = " + num(v) + " exceeds the distance " + num(d) + " cut-off " + num(cut));
  }
}

static void checkEnvelope(const TimeSeries& t, const Seq& s, int w, bool lowerFirst, const std::string& when) {
  const double *lo, *up;
  if (lowerFirst) { lo = t.getKeoghLower(w); up = t.getKeoghUpper(w); }
  else { up = t.getKeoghUpper(w); lo = t.getKeoghLower(w); }
  int n = s.size();
  for (int i = 0; i < n; i++) {
    int f = std::max(0, i - w), l = std::min(n - 1, i + w);
    double mn = *std::min_element(s.begin() + f, s.begin() + l + 1), mx = *std::max_element(s.begin() + f, s.begin() + l + 1);
    check(lo[i] == mn, when + ": lower[" + std::to_string(i) + "] for band " + std::to_string(w) + " expected " + num(mn) + " got " + num(lo[i]));
    check(up[i] == mx, when + ": upper[" + std::to_string(i) + "] for band " + std::to_string(w) + " expected " + num(mx) + " got " + num(up[i]));
  }
}

void caseC04(Ctx& c) {
  Rng& r = c.rng;
  const int K = 3;
  int cap = 2 + 2 * c.size;
  std::vector<Seq> model(K), pool(K);
  std::vector<std::unique_ptr<TimeSeries>> obj(K);
  for (int k = 0; k < K; k++) {
    model[k] = pool[k] = genSeq(r, r.range(1, cap));
    if (r.chance(1, 2)) obj[k].reset(new TimeSeries(pool[k].data(), (int)pool[k].size()));
    else {
      obj[k].reset(new TimeSeries((int)pool[k].size()));
      for (size_t i = 0; i < pool[k].size(); i++) (*obj[k])[i] = pool[k][i];
    }
    c.log << "s" << k << "=" << str(model[k]) << " ";
  }
  // owner[k]: which pool array object k views, or -1 when it owns its points
  std::vector<int> views(K);
  for (int k = 0; k < K; k++) views[k] = obj[k]->getData() == pool[k].data() ? k : -1;
  int steps = r.range(1, 6);
  for (int st = 0; st < steps; st++) {
    int k = r.range(0, K - 1), o = r.range(0, K - 1), op = r.range(0, 4);
    if (st == steps - 1) op = 0;
    if (op <= 1) {
      int w = r.range(0, (int)model[k].size() + 1);
      bool lf = r.chance(1, 2);
      c.log << "; envelope s" << k << " band " << w;
      checkEnvelope(*obj[k], model[k], w, lf, "step " + std::to_string(st));
    } else if (op == 2 && k != o) {
      c.log << "; s" << k << " = s" << o;
      *obj[k] = *obj[o];
      model[k] = model[o]; views[k] = views[o];
    } else if (op == 3 && k != o) {
      Seq s = genSeq(r, r.range(1, cap));
      c.log << "; s" << k << " = temporary " << str(s);
      TimeSeries tmp((int)s.size());
      for (size_t i = 0; i < s.size(); i++) tmp[i] = s[i];
      if (r.chance(1, 2)) checkEnvelope(tmp, s, r.range(0, (int)s.size()), true, "temporary");
      *obj[k] = std::move(tmp);
      model[k] = s; views[k] = -1;
    } else if (op == 4) {
      // adding into a viewing object would change other viewers as well: only add into owners
      if (views[k] >= 0) continue;
      Seq s = genSeq(r, model[k].size());
      c.log << "; s" << k << " += " << str(s);
      TimeSeries t(s.data(), (int)s.size());
      *obj[k] += t;
      for (size_t i = 0; i < s.size(); i++) model[k][i] += s[i];
    }
  }
  for (int k = 0; k < K; k++) checkEnvelope(*obj[k], model[k], r.range(0, (int)model[k].size()), true, "end s" + std::to_string(k));
}

void caseC05(Ctx& c) {
  Seq b, a = genPair(c, b, true);
  Seq other = genSeq(c.rng, (int)a.size() + c.rng.range(1, 3));
  c.log << "a=" << str(a) << " b=" << str(b);
  View va(c.rng, a), vb(c.rng, b), vo(c.rng, other);
  TimeSeries ta = va.ts(), tb = vb.ts(), to = vo.ts();
  for (int m = 0; m < 3; m++) {
    double want = pairwise(m, a, b), got = getDistanceFromName(metricName(m))(ta, tb, kInf, gNoMatching);
    check(close(want, got), std::string(metricName(m)) + ": expected " + num(want) + " got " + num(got));
  }
  double aa = 0, bb = 0, ab = 0, dif = 0, su = 0;
  for (size_t i = 0; i < a.size(); i++) {
    aa += a[i] * a[i]; bb += b[i] * b[i]; ab += a[i] * b[i];
    dif += std::fabs(a[i] - b[i]); su += std::fabs(a[i] + b[i]);
  }
  // the definitions are undefined for a zero denominator, also for a prefix (checked point by point)
  bool cosOk = true, sorOk = true;
  { double x = 0, y = 0, z = 0;
    for (size_t i = 0; i < a.size(); i++) { x += a[i]*a[i]; y += b[i]*b[i]; z += std::fabs(a[i]+b[i]); if (x*y == 0) cosOk = false; if (z == 0) sorOk = false; } }
  if (cosOk) {
    double got = getDistanceFromName("cosine")(ta, tb, kInf, gNoMatching), want = ab / std::sqrt(aa * bb);
    check(close(want, got), "cosine: expected " + num(want) + " got " + num(got));
  }
  if (sorOk) {
    double got = getDistanceFromName("sorensen")(ta, tb, kInf, gNoMatching), want = dif / su;
    check(close(want, got), "sorensen: expected " + num(want) + " got " + num(got));
  }
  for (const char* n : {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"}) {
    bool threw = false;
    try { getDistanceFromName(n)(ta, to, kInf, gNoMatching); } catch (GenexException&) { threw = true; }
    check(threw, std::string(n) + ": no error for lengths " + std::to_string(a.size()) + " and " + std::to_string(other.size()));
    threw = false;
    try { getDistanceFromName(n)(to, ta, kInf, gNoMatching); } catch (GenexException&) { threw = true; }
    check(threw, std::string(n) + ": no error for lengths " + std::to_string(other.size()) + " and " + std::to_string(a.size()));
  }
  std::string bad = c.rng.pick(std::vector<std::string>{"", "euclid", "Euclidean", "euclidean_", "_dtw", "euclidean_dtw_dtw", "x", "manhattan ", "cosine_DTW"});
  bool threw = false;
  try { getDistanceFromName(bad); } catch (GenexException&) { threw = true; }
  check(threw, "name '" + bad + "' was accepted");
  // no distance crashes or hangs, whatever the values (leading zeros make cosine and sorensen undefined)
  setWarpingBandRatio(genRatio(c.rng));
  Seq za = a, zo = other;
  for (int i = 0; i < c.rng.range(0, 3); i++) { if (i < (int)za.size()) za[i] = 0; if (i < (int)zo.size()) zo[i] = 0; }
  TimeSeries tza(za.data(), (int)za.size()), tzo(zo.data(), (int)zo.size());
  for (const std::string& n : getAllDistanceName()) {
    matching_t mt;
    try { getDistanceFromName(n)(tza, tzo, c.rng.chance(1, 2) ? kInf : c.rng.unit(), mt); } catch (GenexException&) {}
    try { getDistanceFromName(n)(tzo, tza, c.rng.chance(1, 2) ? kInf : c.rng.unit(), gNoMatching); } catch (GenexException&) {}
  }
  // one-point warped distances through the registered names agree with the point cost
  setWarpingBandRatio(1.0);
  Seq p = {a[0]}, q = {b[0]};
  TimeSeries tp(p.data(), 1), tq(q.data(), 1);
  for (int m = 0; m < 3; m++) {
    double got = warped(m, tp, tq, kInf), want = normW(m, point(m, p[0], q[0]), 1, 1);
    check(close(want, got), std::string(metricName(m)) + "_dtw of single points: expected " + num(want) + " got " + num(got));
  }
}

void caseC06(Ctx& c) {
  Seq b, a = genPair(c, b, false);
  double ratio = genRatio(c.rng);
  if (!feasible(ratio, a.size(), b.size())) ratio = 1.0;
  c.log << "ratio=" << num(ratio) << " a=" << str(a) << " b=" << str(b);
  View va(c.rng, a), vb(c.rng, b);
  setWarpingBandRatio(ratio);
  int A = a.size(), B = b.size(), w = band(ratio, A, B);
  for (int m = 0; m < 3; m++) {
    matching_t mt;
    std::string nm = std::string(metricName(m)) + "_dtw";
    double got = getDistanceFromName(nm)(va.ts(), vb.ts(), kInf, mt);
    std::string path;
    for (auto& p : mt) path += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
    check(!mt.empty(), nm + ": empty alignment");
    check(mt.front() == coord_t(0, 0), nm + ": alignment does not start at (0,0): " + path);
    check(mt.back() == coord_t(A - 1, B - 1), nm + ": alignment does not end at the last points: " + path);
    double t = m == CHE ? -kInf : 0;
    for (size_t i = 0; i < mt.size(); i++) {
      int p = mt[i].first, q = mt[i].second;
      check(p >= 0 && p < A && q >= 0 && q < B, nm + ": alignment leaves the series: " + path);
      check(std::abs(p - q) <= w, nm + ": alignment leaves the band " + std::to_string(w) + ": " + path);
      if (i) {
        int dp = p - mt[i - 1].first, dq = q - mt[i - 1].second;
        check(dp >= 0 && dp <= 1 && dq >= 0 && dq <= 1 && dp + dq >= 1, nm + ": bad step in alignment: " + path);
      }
      t = combine(m, t, point(m, a[p], b[q]));
    }
    double cost = normW(m, t, A, B);
    check(close(cost, got), nm + ": alignment cost " + num(cost) + " but distance " + num(got) + ": " + path);
    size_t before = gNoMatching.size();
    warped(m, va.ts(), vb.ts(), kInf);
    check(gNoMatching.size() <= before, nm + ": a call without alignment leaves residue behind");
  }
}

void caseC18(Ctx& c) {
  double ratio = genRatio(c.rng);
  int q = c.rng.range(1, 3 + 3 * c.size), total = c.rng.range(0, 3 + 3 * c.size);
  if (c.rng.chance(1, 3)) total = std::max(0, q + c.rng.range(-3, 3));
  c.log << "ratio=" << num(ratio) << " query length " << q << " longest " << total;
  setWarpingBandRatio(ratio);
  std::vector<int> order = generateTraverseOrder(q, total);
  std::set<int> seen;
  std::string s;
  for (int x : order) s += std::to_string(x) + " ";
  for (int x : order) {
    check(seen.insert(x).second, "length " + std::to_string(x) + " visited twice: " + s);
    check(x <= total, "length " + std::to_string(x) + " beyond the longest: " + s);
    check(x == q || x >= 2, "length " + std::to_string(x) + " is too short: " + s);
    check(feasible(ratio, q, x), "length " + std::to_string(x) + " has no warping path: " + s);
  }
  for (int x = 2; x <= total; x++)
    if (feasible(ratio, q, x)) check(seen.count(x), "length " + std::to_string(x) + " is never visited: " + s);
  if (q <= total) check(!order.empty() && order[0] == q, "the query's own length is not first: " + s);
}
} // namespace vh
