// C17: merging distributions equals adding all samples to one.
#include "dist_driver.h"
using namespace h;

static Distribution Build(const Layout& l, const std::vector<double>& v) {
  Distribution d;
  (void)l.Init(&d);
  for (double x : v) (void)DH::AddSample(x, &d);
  // Wrong statistics of added samples are C16's business.
  if (!StatsMismatch(l, v, d, "").empty()) mc::prune();
  return d;
}
static std::vector<double> Pick(const std::vector<double>& s, int max) {
  // A non-decreasing choice of indices: every multiset once.
  std::vector<double> r;
  int n = mc::choose(max + 1, "size"), from = 0;
  for (int i = 0; i < n; ++i) { int k = from + mc::choose(s.size() - from, "sample"); from = k; r.push_back(s[k]); }
  return r;
}
static void MergeTo(const Layout& l, const Distribution& from, const std::vector<double>& vf, Distribution* to, std::vector<double>* vt) {
  string f = Text(from), t = Text(*to);
  Status s = DH::Merge(from, to);
  mc::step();
  string d = l.Name() + " " + Show(vf) + " into " + Show(*vt);
  mc::trace("merge %s -> %s %s", d.c_str(), s.ToString().c_str(), Text(*to).c_str());
  MC_CHECK(s.ok(), "merge of the same buckets refused: %s: %s", d.c_str(), s.ToString().c_str());
  MC_CHECK(Text(from) == f, "merge changed its source: %s", d.c_str());
  if (vf.empty()) MC_CHECK(Text(*to) == t, "merging an empty distribution changed %s to %s", t.c_str(), Text(*to).c_str());
  vt->insert(vt->end(), vf.begin(), vf.end());
  Distribution all = Build(l, *vt);
  MC_CHECK(to->bucket_counts_size() == all.bucket_counts_size(), "%s: %d bucket counts", d.c_str(), to->bucket_counts_size());
  for (int i = 0; i < all.bucket_counts_size(); ++i)
    MC_CHECK(all.bucket_counts(i) == to->bucket_counts(i), "%s: bucket %d holds %lld, expected %lld", d.c_str(), i, (long long)to->bucket_counts(i), (long long)all.bucket_counts(i));
  MC_CHECK(to->bucket_option_case() == all.bucket_option_case(), "%s: bucket options changed", d.c_str());
  CheckStats(l, *vt, *to, "after merge");
  mc::validated();
}

static void Pairs(int level) {
  int nl = level <= 1 ? Layouts().size() : level == 2 ? 10 : 3;
  const Layout& l = Layouts()[mc::choose(nl, "layout")];
  std::vector<double> s = FewSamples(l);
  if (level <= 2) { s.push_back(1.25); s.push_back(kInf); s.push_back(-kInf); }
  if (level <= 1) { s = Samples(l, false); }
  std::vector<double> a = Pick(s, level), b = Pick(s, level);
  Distribution da = Build(l, a), db = Build(l, b);
  MergeTo(l, da, a, &db, &b);
  mc::state(l.Name() + Show(a) + Show(b));
  mc::outcome(Text(db));
}

// Chains: merge results are merged again, in every association.
static void Chain(int level) {
  const Layout& l = Layouts()[mc::choose(3, "layout")];
  std::vector<double> s = FewSamples(l);
  Distribution acc;
  (void)l.Init(&acc);
  std::vector<double> va;
  for (int i = 0; i < level; ++i) {
    std::vector<double> v = Pick(s, level <= 3 ? 2 : 1);
    Distribution d = Build(l, v);
    if (mc::choose(2, "direction")) { MergeTo(l, acc, va, &d, &v); acc = d; va = v; }
    else MergeTo(l, d, v, &acc, &va);
    mc::state(l.Name() + Show(va));
  }
  mc::outcome(Text(acc));
}

// Distributions of up to 2^60 samples.
static void Large(int level) {
  const Layout& l = Layouts()[mc::choose(5, "layout")];
  std::vector<double> s = FewSamples(l);
  std::vector<Weighted> parts;
  Distribution acc, base;
  (void)l.Init(&acc);
  (void)l.Init(&base);
  for (int i = 0; i < (level <= 2 ? 2 : 3); ++i) {
    Weighted w;
    w.v = Pick(s, level == 2 ? 2 : 1);
    w.e = w.v.empty() ? 0 : kExponents[mc::choose(kNumExponents, "weight")];
    Distribution d = Build(l, w.v);
    for (double x : w.v) (void)DH::AddSample(x, &base);
    d = Scale(d, w.e);
    if (mc::choose(2, "direction")) std::swap(acc, d);
    Status st = DH::Merge(d, &acc);
    mc::step();
    MC_CHECK(st.ok(), "merge of the same buckets refused: %s", st.ToString().c_str());
    parts.push_back(w);
    CheckWeighted(l, parts, base, acc, "after merge");
    mc::state(Text(acc));
  }
  mc::outcome(Text(acc));
}

// Samples close together and far from zero.
static void Offsets(int level) {
  static const Layout l{'L', 3, 2, -1, {}, true};
  static const double bases[] = {1e6, 1e9, -1e9, 1e12, 3e-9};
  double base = bases[mc::choose(5, "base")], unit = std::fabs(base) < 1 ? base * 1e-7 : 1;
  std::vector<double> s = {base - unit, base, base + unit, base + 2 * unit};
  std::vector<double> a = Pick(s, level), b = Pick(s, level);
  Distribution da = Build(l, a), db = Build(l, b);
  MergeTo(l, da, a, &db, &b);
  mc::state(Show(a) + Show(b));
  mc::outcome(Text(db));
}
// Long chains of merges over layouts with many buckets, of parts of every size.
static void Runs(int n) {
  const Layout& l = BigLayouts()[mc::choose(BigLayouts().size(), "layout")];
  int pattern = mc::choose(6, "pattern"), size = mc::choose(4, "part size"), back = mc::choose(2, "direction");
  std::vector<long double> b = l.B();
  std::vector<double> all;
  Distribution acc;
  (void)l.Init(&acc);
  for (int i = 0; i < n; ++i) {
    std::vector<double> v;
    int k = size == 0 ? 1 : size == 1 ? 3 : size == 2 ? i % 4 : (i == 0 ? 50 : 1);
    for (int j = 0; j < k; ++j) {
      int at = (int)all.size() + j;
      v.push_back(pattern == 0 ? (double)b[at % b.size()] : pattern == 1 ? (double)b[b.size() - 1 - at % b.size()] : pattern == 2 ? (i % 2 ? (double)b.front() : (double)b.back())
                  : pattern == 3 ? 1e9 + at % 3 : pattern == 4 ? (i == n / 2 ? -1e6 : 0.1) : 5);
    }
    Distribution d = Build(l, v);
    Status st;
    if (back) { st = DH::Merge(acc, &d); acc = d; } else st = DH::Merge(d, &acc);
    mc::step();
    MC_CHECK(st.ok(), "merge of the same buckets refused: %s", st.ToString().c_str());
    all.insert(all.end(), v.begin(), v.end());
    if (i < 4 || i == n - 1 || (i & (i + 1)) == 0) {
      CheckStats(l, all, acc, "after merges");
      Distribution whole = Build(l, all);
      for (int k = 0; k < whole.bucket_counts_size(); ++k) MC_CHECK(whole.bucket_counts(k) == acc.bucket_counts(k), "%s: bucket %d holds %lld, expected %lld", l.Name().c_str(), k, (long long)acc.bucket_counts(k), (long long)whole.bucket_counts(k));
      mc::validated();
    }
  }
  mc::state(l.Name() + mc::strf(" %d %d %d %d", pattern, size, back, n));
}

// All pairs of definitions: the same (up to 1e-5) merge, others are refused.
static void Definitions(int) {
  std::vector<Layout> v = Layouts();
  std::vector<int> group;
  for (size_t i = 0; i < v.size(); ++i) group.push_back(i);
  size_t n = v.size();
  for (size_t i = 0; i < n; ++i) {
    for (int part = 0; part < 2; ++part) for (double f : {1 + 1e-8, 1 + 1e-3, 1 - 1e-3}) {
      Layout l = v[i];
      l.exact = false;
      if (l.kind == 'X') {
        if (l.bounds.empty()) continue;
        double& d = part ? l.bounds.back() : l.bounds.front();
        if (d * f == d) continue;
        d *= f;
      } else {
        double& d = part ? l.b : l.a;
        if (d * f == d) continue;
        d *= f;
        if (l.kind == 'E' && l.a <= 1) continue;
      }
      // scale below the normal range and growth next to 1 do not resolve the factors
      if (l.kind == 'E' && (v[i].b < 1e-300 || v[i].a < 1.001)) continue;
      v.push_back(l);
      group.push_back(f == 1 + 1e-8 ? group[i] : (int)v.size() + 1000);
    }
    Layout l = v[i];
    if (l.kind != 'X') { l.n++; v.push_back(l); group.push_back((int)v.size() + 1000); }
    else { l.bounds.push_back(l.bounds.empty() ? 3 : l.bounds.back() + 3); if (!std::isinf(l.bounds.back()) && (v[i].bounds.empty() || l.bounds.back() > v[i].bounds.back())) { v.push_back(l); group.push_back((int)v.size() + 1000); } }
  }
  int i = mc::choose(v.size(), "first");
  for (size_t j = 0; j < v.size(); ++j) for (int variant = 0; variant < 5; ++variant) {
    // groups with identical content found twice (e.g. {0} + 3) are compared by value
    std::vector<double> fs, ts;
    if (variant != 1) fs = {0.5, 4};
    if (variant != 2) ts = {2};
    Distribution from = Build(v[i], fs), to = Build(v[j], ts);
    if (v[i].kind == v[j].kind && group[i] != group[j]) {
      bool same = v[i].n == v[j].n && v[i].bounds.size() == v[j].bounds.size();
      auto near = [](double x, double y) { return x == y || (!std::isinf(x) && !std::isinf(y) && std::fabs(x - y) <= 1e-5 * std::max(std::fabs(x), std::fabs(y))); };
      if (same) {
        same = near(v[i].a, v[j].a) && near(v[i].b, v[j].b);
        for (size_t k = 0; k < v[i].bounds.size(); ++k) same = same && near(v[i].bounds[k], v[j].bounds[k]);
      }
      if (same) continue;
    }
    bool match = group[i] == group[j];
    if (variant == 3) { if (!match) continue; from.add_bucket_counts(0); match = false; }
    if (variant == 4) { if (!match) continue; to.mutable_bucket_counts()->RemoveLast(); match = false; }
    string t = Text(to), f = Text(from);
    Status s = DH::Merge(from, &to);
    mc::step();
    mc::trace("merge %s into %s -> %s", f.c_str(), t.c_str(), s.ToString().c_str());
    MC_CHECK(s.ok() == match, "merge of %s into %s gives %s", v[i].Name().c_str(), v[j].Name().c_str(), s.ToString().c_str());
    mc::outcome(mc::strf("%c%c match=%d", v[i].kind, v[j].kind, match));
    mc::state(f + t);
    mc::validated();
    if (!match) {
      MC_CHECK(s.code() == StatusCode::kInvalidArgument, "refused merge gives %s", s.ToString().c_str());
      MC_CHECK(Text(to) == t, "refused merge changed %s to %s", t.c_str(), Text(to).c_str());
    }
  }
  // No bucket options at all on either side.
  for (int k = 0; k < 3; ++k) {
    Distribution with = Build(v[i], {1}), without, to;
    without.set_count(2); without.set_mean(3);
    if (k == 2) to = without;
    Distribution& target = k == 0 ? without : k == 1 ? with : to;
    const Distribution& source = k == 0 ? with : without;
    string t = Text(target);
    Status s = DH::Merge(source, &target);
    mc::step();
    MC_CHECK(s.code() == StatusCode::kInvalidArgument && Text(target) == t, "merge without bucket options gives %s, %s", s.ToString().c_str(), Text(target).c_str());
  }
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C17", {
    {"pairs", Pairs, {1, 2, 3}, {1, 2, 3, 4}, "samples per side", false, "all pairs of sample multisets of one layout"},
    {"chains", Chain, {2, 3}, {2, 3, 4, 5}, "merges", false, "all merge chains, in both directions"},
    {"large", Large, {1}, {1, 2, 3}, "level", false, "distributions of up to 2^60 samples"},
    {"offsets", Offsets, {3, 4}, {3, 4, 5}, "samples per side", false, "samples close together and far from zero"},
    {"runs", Runs, {16, 200}, {16, 200, 2000}, "merges", false, "long chains of merges over layouts with 50 to 1000 buckets"},
    {"definitions", Definitions, {0}, {0}, "full", false, "all pairs of bucket definitions, bucket count mismatches, absent definitions"},
  });
}
