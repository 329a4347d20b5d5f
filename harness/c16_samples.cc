// C16: every sample lands in the right bucket and statistics.
#include "dist_driver.h"
using namespace h;

static void Add(const Layout& l, double v, std::vector<double>* all, Distribution* d) {
  Distribution before = *d;
  Status s = DH::AddSample(v, d);
  all->push_back(v);
  mc::step();
  mc::trace("%s add %.17g -> %s", l.Name().c_str(), v, Text(*d).c_str());
  MC_CHECK(s.ok(), "%s sample %.17g refused: %s", l.Name().c_str(), v, s.ToString().c_str());
  MC_CHECK(d->bucket_counts_size() == l.buckets(), "%s has %d bucket counts", l.Name().c_str(), d->bucket_counts_size());
  int changed = -1;
  for (int i = 0; i < d->bucket_counts_size(); ++i) {
    int64_t diff = d->bucket_counts(i) - before.bucket_counts(i);
    if (!diff) continue;
    MC_CHECK(diff == 1 && changed < 0, "%s sample %.17g changes several buckets: %s", l.Name().c_str(), v, Text(*d).c_str());
    changed = i;
  }
  MC_CHECK(changed >= 0, "%s sample %.17g is in no bucket: %s", l.Name().c_str(), v, Text(*d).c_str());
  MC_CHECK(Buckets(l, v).count(changed), "%s sample %.17g is in bucket %d, expected %d", l.Name().c_str(), v, changed, *Buckets(l, v).begin());
  CheckStats(l, *all, *d, "after samples");
  mc::validated();
  mc::outcome(mc::strf("%s bucket %d", l.Name().c_str(), changed));
}

static void One(int) {
  const Layout& l = Layouts()[mc::choose(Layouts().size(), "layout")];
  std::vector<double> s = Samples(l, true);
  double v = s[mc::choose(s.size(), "sample")];
  Distribution d;
  Status st = l.Init(&d);
  MC_CHECK(st.ok(), "%s refused: %s", l.Name().c_str(), st.ToString().c_str());
  MC_CHECK(d.count() == 0 && d.bucket_counts_size() == l.buckets(), "%s initialised to %s", l.Name().c_str(), Text(d).c_str());
  for (int64_t c : d.bucket_counts()) MC_CHECK(c == 0, "%s initialised to %s", l.Name().c_str(), Text(d).c_str());
  std::vector<double> all;
  Add(l, v, &all, &d);
  Add(l, v, &all, &d);
  mc::state(l.Name() + Show(all));
}

static void Seq(int depth) {
  int nl = depth <= 2 ? Layouts().size() : depth == 3 ? 8 : 3;
  const Layout& l = Layouts()[mc::choose(nl, "layout")];
  std::vector<double> s = depth <= 2 ? Samples(l, false) : FewSamples(l);
  Distribution d;
  (void)l.Init(&d);
  std::vector<double> all;
  for (int i = 0; i < depth; ++i) {
    Add(l, s[mc::choose(s.size(), "sample")], &all, &d);
    mc::state(l.Name() + Show(all));
  }
}

static void Params(int) {
  static const int ns[] = {-1, 0, 1, 5, INT32_MIN};
  static const double ps[] = {-kInf, -1, -5e-324, 0, -0.0, 5e-324, 0.5, 1, 1.0000000000000002, 2, 1e300, kNaN};
  int kind = mc::choose(4, "kind");
  if (kind == 3) {                            // no bucket options: refused unchanged
    Distribution d;
    if (mc::choose(2)) { d.set_count(3); d.add_bucket_counts(2); d.add_bucket_counts(1); d.set_mean(1); }
    string before = Text(d);
    Status s = DH::AddSample(Samples(Layouts()[0], false)[mc::choose(20)], &d);
    mc::step();
    MC_CHECK(s.code() == StatusCode::kInvalidArgument, "sample without bucket options gives %s", s.ToString().c_str());
    MC_CHECK(Text(d) == before, "refused sample changed %s to %s", before.c_str(), Text(d).c_str());
    mc::state(before);
    return;
  }
  Layout l{"LEX"[kind], 0, 0, 0, {}, true};
  bool valid = true;
  if (kind < 2) {
    l.n = ns[mc::choose(5)];
    l.a = ps[mc::choose(12)];
    l.b = ps[mc::choose(12)];
    valid = l.n > 0 && (kind == 0 ? l.a > 0 && !std::isnan(l.b) : l.a > 1 && l.b > 0);
  } else {
    static const double bs[] = {-kInf, -1, 0, 0.5, 1, kInf, kNaN};
    int n = mc::choose(4);
    for (int i = 0; i < n; ++i) l.bounds.push_back(bs[mc::choose(7)]);
    for (int i = 0; i < n; ++i) if (std::isnan(l.bounds[i]) || (i && !(l.bounds[i - 1] < l.bounds[i]))) valid = false;
  }
  Distribution d;
  Status s = l.Init(&d);
  mc::step();
  mc::trace("init %s -> %s", l.Name().c_str(), s.ToString().c_str());
  MC_CHECK(s.ok() == valid, "initialisation of %s gives %s", l.Name().c_str(), s.ToString().c_str());
  mc::outcome(mc::strf("%c valid=%d", l.kind, valid));
  mc::state(l.Name());
  if (!valid) {
    MC_CHECK(s.code() == StatusCode::kInvalidArgument, "refused parameters of %s give %s", l.Name().c_str(), s.ToString().c_str());
    return;
  }
  MC_CHECK(d.count() == 0 && d.bucket_counts_size() == l.buckets(), "%s initialised to %s", l.Name().c_str(), Text(d).c_str());
  for (int64_t c : d.bucket_counts()) MC_CHECK(c == 0, "%s initialised to %s", l.Name().c_str(), Text(d).c_str());
  if (kind == 0) MC_CHECK(d.linear_buckets().num_finite_buckets() == l.n && d.linear_buckets().width() == l.a && d.linear_buckets().offset() == l.b, "%s initialised to %s", l.Name().c_str(), Text(d).c_str());
  if (kind == 1) MC_CHECK(d.exponential_buckets().num_finite_buckets() == l.n && d.exponential_buckets().growth_factor() == l.a && d.exponential_buckets().scale() == l.b, "%s initialised to %s", l.Name().c_str(), Text(d).c_str());
  if (kind == 2) MC_CHECK(std::vector<double>(d.explicit_buckets().bounds().begin(), d.explicit_buckets().bounds().end()) == l.bounds, "%s initialised to %s", l.Name().c_str(), Text(d).c_str());
  mc::validated();
}

// Samples added to distributions of up to 2^60 samples.
static void Large(int level) {
  const Layout& l = Layouts()[mc::choose(5, "layout")];
  std::vector<double> s = FewSamples(l);
  std::vector<Weighted> parts(2);
  Distribution d;
  (void)l.Init(&d);
  int n = 1 + mc::choose(2, "size");
  for (int i = 0; i < n; ++i) { parts[0].v.push_back(s[mc::choose(s.size(), "sample")]); (void)DH::AddSample(parts[0].v.back(), &d); }
  if (!StatsMismatch(l, parts[0].v, d, "").empty()) mc::prune();
  parts[0].e = kExponents[mc::choose(kNumExponents, "weight")];
  Distribution base = d;
  d = Scale(d, parts[0].e);
  parts[1].e = 0;
  for (int i = 0; i < level; ++i) {
    double x = s[mc::choose(s.size(), "added")];
    parts[1].v.push_back(x);
    Distribution was = d, one;
    Status st = DH::AddSample(x, &d);
    mc::step();
    MC_CHECK(st.ok(), "sample refused: %s", st.ToString().c_str());
    (void)DH::AddSample(x, &base);
    CheckWeighted(l, parts, base, d, "after sample");
    (void)l.Init(&one);
    (void)DH::AddSample(x, &one);
    for (int b = 0; b < d.bucket_counts_size(); ++b) MC_CHECK(d.bucket_counts(b) == was.bucket_counts(b) + one.bucket_counts(b), "bucket %d holds %lld after %lld", b, (long long)d.bucket_counts(b), (long long)was.bucket_counts(b));
    mc::state(Text(d));
  }
  mc::outcome(Text(d));
}

// The runs of samples that the long scenarios add.
static std::vector<double> Run(const Layout& l, int pattern, int n) {
  std::vector<long double> b = l.B();
  double lo = (double)b.front(), hi = (double)b.back();
  static const double offsets[] = {1e6, 1e9, -1e9, 1e12};
  std::vector<double> r;
  for (int i = 0; i < n; ++i) {
    double x = 0;
    switch (pattern) {
      case 0: x = lo; break;                                        // constant
      case 1: x = i % 2 ? lo : hi; break;                           // alternating
      case 2: x = (double)b[i % b.size()]; break;                   // every bound, ascending
      case 3: x = std::nextafter((double)b[b.size() - 1 - i % b.size()], -kInf); break;  // just below, descending
      case 4: x = (double)((b[i % (b.size() - 1)] + b[i % (b.size() - 1) + 1]) / 2); break;
      case 5: x = i == n - 1 ? hi : lo; break;                      // one late outlier
      case 6: x = i == 0 ? -1e6 : 1; break;                         // one early outlier
      default: x = offsets[(pattern - 7) % 4] + (i * 7 % 5 - 2) * (pattern < 11 ? 1 : 0.125); break;  // small spread far from zero
    }
    r.push_back(x);
  }
  return r;
}
static void Runs(int n) {
  const Layout& l = BigLayouts()[mc::choose(BigLayouts().size(), "layout")];
  int pattern = mc::choose(15, "pattern");
  std::vector<double> v = Run(l, pattern, n);
  Distribution d;
  Status st = l.Init(&d);
  MC_CHECK(st.ok() && d.bucket_counts_size() == l.buckets(), "%s initialised to %d bucket counts", l.Name().c_str(), d.bucket_counts_size());
  std::vector<int64_t> lowest(l.buckets()), highest(l.buckets());
  std::map<double, std::set<int>> known;
  std::vector<double> all;
  for (int i = 0; i < n; ++i) {
    st = DH::AddSample(v[i], &d);
    mc::step();
    MC_CHECK(st.ok(), "%s sample %.17g refused: %s", l.Name().c_str(), v[i], st.ToString().c_str());
    all.push_back(v[i]);
    if (!known.count(v[i])) known[v[i]] = Buckets(l, v[i]);
    const std::set<int>& b = known[v[i]];
    if (b.size() == 1) lowest[*b.begin()]++;
    for (int k : b) highest[k]++;
    if (i < 8 || i == n - 1 || (i & (i + 1)) == 0) {
      CheckStats(l, all, d, "after a run");
      for (int k = 0; k < l.buckets(); ++k) MC_CHECK(d.bucket_counts(k) >= lowest[k] && d.bucket_counts(k) <= highest[k], "%s after %d samples (pattern %d): bucket %d holds %lld, expected %lld..%lld", l.Name().c_str(), i + 1, pattern, k, (long long)d.bucket_counts(k), (long long)lowest[k], (long long)highest[k]);
      mc::validated();
    }
  }
  mc::state(l.Name() + mc::strf(" %d %d", pattern, n));
  mc::outcome(mc::strf("%d %.17g %.17g", pattern, d.mean(), d.sum_of_squared_deviation()));
}
// Every boundary, neighbour and midpoint of the layouts with many buckets.
static void ManyBuckets(int) {
  const Layout& l = BigLayouts()[mc::choose(BigLayouts().size(), "layout")];
  std::vector<double> s = Samples(l, true);
  int part = mc::choose(16, "part");
  Distribution d;
  Status st = l.Init(&d);
  MC_CHECK(st.ok() && d.bucket_counts_size() == l.buckets(), "%s initialised to %d bucket counts", l.Name().c_str(), d.bucket_counts_size());
  std::vector<double> one;
  for (size_t i = part; i < s.size(); i += 16) {
    Distribution fresh = d;
    one.clear();
    Add(l, s[i], &one, &fresh);
  }
  mc::state(l.Name() + mc::strf("%d", part));
}
// Samples close together far from zero.
static void Offsets(int depth) {
  static const Layout l{'L', 3, 2, -1, {}, true};
  static const double bases[] = {1e6, 1e9, -1e9, 1e12, 1e15, 3e-9, 0.1};
  double base = bases[mc::choose(7, "base")], unit = std::fabs(base) < 1 ? base * 1e-7 : 1;
  Distribution d;
  (void)l.Init(&d);
  std::vector<double> all;
  for (int i = 0; i < depth; ++i) { Add(l, base + unit * (mc::choose(4, "sample") - 1), &all, &d); mc::state(Show(all)); }
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C16", {
    {"one", One, {0}, {0}, "full", false, "every boundary, neighbour, midpoint and extreme sample of every layout"},
    {"sequences", Seq, {2, 3, 4, 5}, {2, 3, 4, 5, 6, 7}, "samples", false, "all sample sequences"},
    {"large", Large, {1, 2}, {1, 2, 3}, "samples", false, "samples added to distributions of up to 2^60 samples"},
    {"many-buckets", ManyBuckets, {0}, {0}, "full", false, "every boundary, neighbour and midpoint of layouts with 50 to 1000 buckets"},
    {"offsets", Offsets, {3, 5}, {3, 5, 7, 9}, "samples", false, "samples close together and far from zero"},
    {"runs", Runs, {64, 1000}, {64, 1000, 4096, 20000}, "samples", false, "long runs of samples over layouts with many buckets, checked at every power of two"},
    {"parameters", Params, {0}, {0}, "full", false, "all combinations of valid and invalid parameters, and samples without bucket options"},
  });
}
