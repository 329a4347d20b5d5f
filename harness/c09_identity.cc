// C09: requests share a cache entry exactly when their identity matches.
// All pairs of a finite set of requests: every request is mapped to its
// identity (computed here) and to its signature (computed by the code); both
// maps must agree on every pair.
#include "common.h"
#include "src/signature.h"
using namespace h;

typedef std::vector<std::pair<string, string>> Labels;      // in insertion order
struct Metric { string name; std::vector<Labels> values; };

static const string kNul("a\0b", 3);

template <class M> static void Fill(M* map, const Labels& l) { for (auto& kv : l) (*map)[kv.first] = kv.second; }
static string Esc(const string& s) { string r = "'"; for (char c : s) { if (c) r += c; else r += "\\0"; } return r + "'"; }
static string Show(const Labels& l) { Labels o = l; std::sort(o.begin(), o.end()); string s = "{"; for (auto& kv : o) s += Esc(kv.first) + ":" + Esc(kv.second) + ","; return s + "}"; }
// The fields as one string, separated by NUL bytes: identities that are equal
// in this form are the listed finding.
static string Flat(const Labels& l) { Labels o = l; std::sort(o.begin(), o.end()); string s; for (auto& kv : o) s += '\0' + kv.first + '\0' + kv.second; return s; }

// Decides all pairs.
struct Pairs {
  struct Item { string must_differ, must_equal, flat, what, sig; };
  std::vector<Item> items;
  void Add(const string& coarse, const string& fine, const string& flat, const string& what, const string& sig) {
    mc::step();
    items.push_back({coarse, fine, flat, what, sig});
    mc::state(what);
  }
  void Decide(const char* key) {
    std::map<string, const Item*> by_id, by_sig_flat;
    std::map<string, std::vector<const Item*>> by_sig;
    for (auto& i : items) {
      auto r = by_id.emplace(i.must_equal, &i);
      MC_CHECK(r.first->second->sig == i.sig, "one identity, two signatures: %s and %s", r.first->second->what.c_str(), i.what.c_str());
      by_sig[i.sig].push_back(&i);
    }
    uint64_t shared = 0;
    for (auto& s : by_sig) {
      std::set<string> seen;
      for (auto* i : s.second) {
        if (!seen.insert(i->must_differ).second) { ++shared; continue; }
        const Item* f = s.second[0];
        if (f->must_differ == i->must_differ) continue;
        if (f->flat == i->flat) { mc::known(key, "two identities with the same fields in sequence share an entry: %s and %s", f->what.c_str(), i->what.c_str()); continue; }
        mc::fail("two identities, one signature: %s and %s", f->what.c_str(), i->what.c_str());
      }
    }
    mc::validated();
    mc::outcome(mc::strf("items=%zu signatures=%zu shared=%llu", items.size(), by_sig.size(), (unsigned long long)shared));
  }
};

static std::vector<Labels> LabelAlphabet(const std::vector<string>& keys, const std::vector<string>& vals, int max) {
  std::vector<Labels> r = {{}};
  std::vector<Labels> last = r;
  for (int n = 0; n < max; ++n) {
    std::vector<Labels> next;
    for (auto& l : last) for (auto& k : keys) {
      if (!l.empty() && !(l.back().first < k)) continue;
      for (auto& v : vals) { Labels x = l; x.push_back({k, v}); next.push_back(x); }
    }
    r.insert(r.end(), next.begin(), next.end());
    last = next;
  }
  return r;
}

// Fields that are not part of any identity.
static void Noise(Operation* op, int n) {
  op->set_operation_id(mc::strf("id%d", n));
  if (n & 1) { SetTs(op->mutable_start_time(), n, n); SetTs(op->mutable_end_time(), n + 1); }
  if (n & 2) op->set_importance(Operation::HIGH);
  if (n & 4) op->add_log_entries()->set_name("log");
}

static void Reports(int level) {
  std::vector<string> S = {"", "a", "b", "ab", "ba", "aa"};
  if (level >= 1) S.push_back(kNul);
  if (level >= 2) { S.push_back("A"); S.push_back("a "); S.push_back("\x80"); S.push_back(string(1, '\0')); }
  std::vector<Labels> L = LabelAlphabet({"", "a", "b", "ab"}, level >= 2 ? std::vector<string>{"", "a", "b", "ab", "ba"} : std::vector<string>{"", "a", "b"}, 2);
  if (level >= 2) for (auto& l : LabelAlphabet({"a", "b", "c"}, {"", "a"}, 3)) if (l.size() == 3) L.push_back(l);
  Pairs p;
  for (auto& c : S) for (auto& o : S) for (auto& l : L) for (int rev = 0; rev < 2; ++rev) {
    Operation op;
    op.set_consumer_id(c);
    op.set_operation_name(o);
    Labels x = l;
    if (rev) std::reverse(x.begin(), x.end());
    Fill(op.mutable_labels(), x);
    Noise(&op, p.items.size() % 8);
    if (rev) AddInt64(&op, "m", 3);
    string id = "report consumer=" + Esc(c) + " operation=" + Esc(o) + " labels=" + Show(l);
    p.Add(id, id, c + '\0' + o + Flat(l), id, GenerateReportOperationSignature(op));
  }
  p.Decide("report-fields-in-sequence");
}

// Metric value signature: keys the totals of C02, label sets of any shape.
static void Values(int level) {
  std::vector<string> S = {"", "a", "b", "ab", "aa", "ba"};
  if (level >= 1) S.push_back(kNul);
  Pairs p;
  for (auto& l : LabelAlphabet(S, S, level >= 2 ? 3 : 2)) for (int rev = 0; rev < 2; ++rev) {
    MetricValue v;
    Labels x = l;
    if (rev) std::reverse(x.begin(), x.end());
    Fill(v.mutable_labels(), x);
    v.set_int64_value(p.items.size());
    if (rev) SetTs(v.mutable_end_time(), 5);
    p.Add(Show(l), Show(l), Flat(l), "value labels=" + Show(l), GenerateReportMetricValueSignature(v));
  }
  p.Decide("value-fields-in-sequence");
}

static string MetricId(const std::vector<Metric>& m, bool coarse) {
  std::map<string, std::vector<string>> r;
  for (auto& x : m) {
    auto& v = r[x.name];
    for (auto& l : x.values) if (!coarse || !l.empty()) v.push_back(Show(l));
  }
  string s;
  for (auto& kv : r) {
    if (coarse) std::sort(kv.second.begin(), kv.second.end());
    s += " " + Esc(kv.first) + "[";
    for (auto& l : kv.second) s += l;
    s += "]";
  }
  return s;
}
static string MetricFlat(const std::vector<Metric>& m) {
  std::map<string, string> r;
  for (auto& x : m) { auto& f = r[x.name]; for (auto& l : x.values) f += Flat(l); }
  string s;
  for (auto& kv : r) s += '\0' + kv.first + kv.second;
  return s;
}
static CheckRequest Check(const string& o, const string& c, const Labels& l, const std::vector<Metric>& m, int noise, bool reverse) {
  CheckRequest r;
  r.set_service_name(kService);
  Operation* op = r.mutable_operation();
  op->set_operation_name(o);
  op->set_consumer_id(c);
  Labels x = l;
  if (reverse) std::reverse(x.begin(), x.end());
  Fill(op->mutable_labels(), x);
  for (size_t i = 0; i < m.size(); ++i) {
    const Metric& mm = m[reverse ? m.size() - 1 - i : i];
    MetricValueSet* s = op->add_metric_value_sets();
    s->set_metric_name(mm.name);
    for (auto& vl : mm.values) {
      MetricValue* v = s->add_metric_values();
      Labels y = vl;
      if (reverse) std::reverse(y.begin(), y.end());
      Fill(v->mutable_labels(), y);
      v->set_int64_value(noise);
      if (noise & 2) SetTs(v->mutable_end_time(), noise);
    }
  }
  Noise(op, noise & 5);
  return r;
}
static std::vector<std::vector<Metric>> MetricAlphabet(int level) {
  std::vector<std::vector<Labels>> V = {{}, {{}}, {{{"a", "b"}}}, {{{"b", "a"}}}, {{{"a", "b"}}, {{"b", "a"}}}, {{{"a", "b"}, {"b", "a"}}}};
  if (level >= 2) { V.push_back({{{"a", "b"}}, {}}); V.push_back({{{"b", "a"}}, {{"a", "b"}}}); V.push_back({{{"", ""}}}); V.push_back({{{"a", "b"}}, {{"a", "b"}}}); }
  std::vector<string> N = {"a", "b", "m"};
  if (level >= 2) N.push_back("");
  std::vector<std::vector<Metric>> r = {{}};
  for (auto& n : N) for (auto& v : V) {
    r.push_back({{n, v}});
    for (auto& n2 : N) for (auto& v2 : V) if (n <= n2) r.push_back({{n, v}, {n2, v2}});
  }
  // Several sets of one name.
  for (auto& v : V) for (auto& v2 : V) for (auto& v3 : V) r.push_back({{"m", v}, {"m", v2}, {"m", v3}});
  for (int i = 0; i < 16; ++i) r.push_back({{"m", V[2 + (i & 1)]}, {"m", V[1 + (i & 2)]}, {"m", V[i & 4]}, {"m", V[2 + i / 8]}});
  if (level >= 1) for (auto& v : V) for (auto& v2 : V) for (auto& v3 : V) { r.push_back({{"a", v}, {"b", v2}, {"m", v3}}); r.push_back({{"m", v}, {"b", v2}, {"m", v3}}); }
  return r;
}
static bool Distinct(const std::vector<Metric>& m) { std::set<string> s; for (auto& x : m) if (!s.insert(x.name).second) return false; return true; }

static void Checks(int level) {
  std::vector<string> S = {"", "a", "b"};
  if (level >= 1) { S.push_back("ab"); S.push_back("ba"); }
  std::vector<Labels> L = LabelAlphabet({"a", "b"}, {"", "a", "b"}, level >= 1 ? 2 : 1);
  std::vector<std::vector<Metric>> M = MetricAlphabet(level == 1 ? 0 : level);
  Pairs p;
  for (auto& o : S) for (auto& c : S) for (auto& l : L) for (auto& m : M) for (int rev = 0; rev < 2; ++rev) {
    if (rev && !Distinct(m)) continue;
    if (rev && m.size() < 2 && l.size() < 2 && level >= 1) continue;
    string head = "check operation=" + Esc(o) + " consumer=" + Esc(c) + " labels=" + Show(l) + " metrics=";
    p.Add(head + MetricId(m, true), head + MetricId(m, false), o + '\0' + c + '\0' + Flat(l) + MetricFlat(m), head + MetricId(m, false),
          GenerateCheckRequestSignature(Check(o, c, l, m, p.items.size() % 8, rev)));
  }
  p.Decide("check-fields-in-sequence");
}

static AllocateQuotaRequest Quota(const string& method, const string& consumer, const std::vector<string>& metrics, int noise) {
  AllocateQuotaRequest r;
  r.set_service_name(kService);
  QuotaOperation* op = r.mutable_allocate_operation();
  op->set_operation_id(mc::strf("id%d", noise));
  op->set_method_name(method);
  op->set_consumer_id(consumer);
  if (noise & 2) (*op->mutable_labels())["noise"] = mc::strf("%d", noise);
  op->set_quota_mode(noise & 1 ? QuotaOperation::NORMAL : QuotaOperation::BEST_EFFORT);
  for (size_t i = 0; i < metrics.size(); ++i) {
    MetricValueSet* s = op->add_quota_metrics();
    s->set_metric_name(metrics[i]);
    s->add_metric_values()->set_int64_value(1 + noise + i);
  }
  return r;
}
static string Set(const std::vector<string>& v, bool flat) {
  std::set<string> s(v.begin(), v.end());
  string r;
  for (auto& x : s) r += flat ? '\0' + x : Esc(x);
  return r;
}
static std::vector<std::vector<string>> NameLists(const std::vector<string>& N, int max) {
  std::vector<std::vector<string>> r = {{}}, last = r;
  for (int i = 0; i < max; ++i) {
    std::vector<std::vector<string>> next;
    for (auto& l : last) for (auto& n : N) { auto x = l; x.push_back(n); next.push_back(x); }
    r.insert(r.end(), next.begin(), next.end());
    last = next;
  }
  return r;
}
static void Quotas(int level) {
  std::vector<string> S = {"", "a", "b", "ab"};
  if (level >= 1) { S.push_back("ba"); S.push_back(kNul); }
  if (level >= 2) S.push_back("aa");
  Pairs p;
  for (auto& m : S) for (auto& c : S) for (auto& n : NameLists(S, level == 0 ? 2 : 3)) {
    string id = "quota method=" + Esc(m) + " consumer=" + Esc(c) + " metrics=" + Set(n, false);
    p.Add(id, id, m + '\0' + c + Set(n, true), id, GenerateAllocateQuotaRequestSignature(Quota(m, c, n, p.items.size() % 16)));
  }
  p.Decide("quota-fields-in-sequence");
}

// Long names: every byte of a name of every length counts.
static void Lengths(int level) {
  int max = level == 0 ? 140 : 600;
  int field = mc::choose(3, "field"), which = mc::choose(3, "request");
  std::map<string, string> seen;
  auto put = [&](const string& s, const string& what) {
    string sig;
    Operation op;
    op.set_operation_name(field == 0 ? s : "o");
    op.set_consumer_id(field == 1 ? s : "c");
    if (which == 0 && field == 2) (*op.mutable_labels())["k"] = s;
    if (which == 0) sig = GenerateReportOperationSignature(op);
    if (which == 1) sig = GenerateCheckRequestSignature(Check(op.operation_name(), op.consumer_id(), {}, {{field == 2 ? s : "m", {}}}, 0, false));
    if (which == 2) sig = GenerateAllocateQuotaRequestSignature(Quota(op.operation_name(), op.consumer_id(), {field == 2 ? s : "m"}, 0));
    mc::step();
    auto r = seen.emplace(sig, what);
    MC_CHECK(r.second, "names share an entry: request %d field %d: %s and %s", which, field, what.c_str(), r.first->second.c_str());
  };
  for (int n = 0; n <= max; ++n) {
    string s(n, 'x');
    put(s, mc::strf("x*%d", n));
    for (int i = 0; i < n; ++i) {
      if (level == 0 && n > 70 && i < n - 3 && i % 16) continue;
      s[i] = 'y'; put(s, mc::strf("x*%d with y at %d", n, i)); s[i] = 'x';
    }
  }
  mc::state(mc::strf("%d %d", field, which));
  mc::outcome(mc::strf("%zu", seen.size()));
}

// The same with long names, to sizes at which a buffer or a limit would end.
static void LongNames(int) {
  static const int lens[] = {250, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 100000};
  const int field = mc::choose(3, "field"), which = mc::choose(3, "request"), how = mc::choose(2, "signature or cache");
  std::vector<string> all;
  for (int n : lens) {
    string s(n, 'x');
    all.push_back(s);
    for (int i : {0, 1, 63, 64, n / 2, n - 65, n - 64, n - 2, n - 1}) { s[i] = 'y'; all.push_back(s); s[i] = 'x'; }
    all.push_back(s + "y");
  }
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  std::map<string, size_t> seen;
  auto operation = [&](const string& s) {
    Operation op;
    op.set_operation_name(field == 0 ? s : "o");
    op.set_consumer_id(field == 1 ? s : "c");
    op.set_operation_id("id");
    if (which == 0 && field == 2) (*op.mutable_labels())["k"] = s;
    return op;
  };
  auto check = [&](const string& s) { CheckRequest q = Check(field == 0 ? s : "o", field == 1 ? s : "c", {}, {{field == 2 ? s : "m", {}}}, 0, false); q.mutable_operation()->set_importance(Operation::LOW); return q; };
  auto quota = [&](const string& s) { return Quota(field == 0 ? s : "o", field == 1 ? s : "c", {field == 2 ? s : "m"}, 0); };
  if (how == 0) {
    for (size_t i = 0; i < all.size(); ++i) {
      string sig = which == 0 ? GenerateReportOperationSignature(operation(all[i])) : which == 1 ? GenerateCheckRequestSignature(check(all[i])) : GenerateAllocateQuotaRequestSignature(quota(all[i]));
      mc::step();
      auto r = seen.emplace(sig, i);
      MC_CHECK(r.second, "names of %zu and %zu bytes share an entry: request %d field %d", all[i].size(), all[r.first->second].size(), which, field);
    }
  } else if (which == 0) {
    auto agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(1000, 1000), nullptr);
    size_t n = 0;
    agg->SetFlushCallback([&](const ReportRequest& r) { n += r.operations_size(); });
    for (auto& s : all) { ReportRequest r; r.set_service_name(kService); *r.add_operations() = operation(s); (void)agg->Report(r); mc::step(); }
    (void)agg->FlushAll();
    MC_CHECK(n == all.size(), "%zu operations with different long names, flushed as %zu", all.size(), n);
  } else if (which == 1) {
    auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(1000, 1000, 2000), nullptr);
    agg->SetFlushCallback([](const CheckRequest&) {});
    for (size_t i = 0; i < all.size(); ++i) {
      CheckResponse r, other;
      MC_CHECK(!agg->Check(check(all[i]), &other).ok(), "a name of %zu bytes is answered with another's response (%s)", all[i].size(), other.operation_id().c_str());
      r.set_operation_id(mc::strf("%zu", i));
      (void)agg->CacheResponse(check(all[i]), r);
      mc::step();
    }
    for (size_t i = 0; i < all.size(); ++i) {
      CheckResponse r;
      MC_CHECK(agg->Check(check(all[i]), &r).ok() && r.operation_id() == mc::strf("%zu", i), "name %zu of %zu bytes is answered '%s'", i, all[i].size(), r.operation_id().c_str());
    }
  } else {
    auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(1000, 1000));
    size_t n = 0;
    agg->SetFlushCallback([&](const AllocateQuotaRequest&) { ++n; });
    for (int round = 0; round < 2; ++round) for (auto& s : all) { AllocateQuotaResponse r; (void)agg->Quota(quota(s), &r); mc::step(); }
    MC_CHECK(n == all.size(), "%zu quota calls with different long names, %zu sent", all.size(), n);
  }
  mc::validated();
  mc::state(mc::strf("%d %d %d", field, which, how));
  mc::outcome(mc::strf("%zu", all.size()));
}

// One field at a time, everything else equal: texts that any normalisation
// (case, spaces, prefixes, numbers, encodings) would confuse.
static const std::vector<string>& Words() {
  static std::vector<string>* w = nullptr;
  if (w) return *w;
  std::set<string> s = {""};
  for (int c = 0; c < 256; ++c) { s.insert(string(1, (char)c)); s.insert("a" + string(1, (char)c)); s.insert(string(1, (char)c) + "a"); s.insert("a" + string(1, (char)c) + "b"); }
  const string few[] = {"a", "A", " ", "/", ":", string(1, '\0'), "\xff", "0", "-", "."};
  for (auto& x : few) for (auto& y : few) for (auto& z : few) s.insert(x + y + z);
  for (const char* p : {"project:", "project_number:", "projectNumber:", "projects/", "api_key:", "apiKey:", "folders/", "organizations/", "spatial:", "google.", "serviceruntime.googleapis.com/", "http://", "https://", "/", "//", "v1.", "v2."})
    for (const char* x : {"", "a", "1", "01", "1.0", "abc", "ABC", " a", "a ", "a/", "-1", "a:b"}) s.insert(string(p) + x);
  for (const char* x : {"null", "NULL", "true", "1e3", "1000", "1,000", "%61", "&amp;", "a\r\n", "a\n", "a\t", "\xc3\xa9", "e\xcc\x81", "\xef\xbb\xbf" "a", "a.b", "a..b", "a/./b", "a//b", "a/b/", "a/b"}) s.insert(x);
  // Names the service itself gives a meaning to.
  for (const char* p : {"", "servicecontrol.googleapis.com/", "serviceruntime.googleapis.com/", "serviceruntime.googleapis.com/api/consumer/", "cloud.googleapis.com/", "library.googleapis.com/", "chemisttest.googleapis.com/", "google.com/", "goog-", "internal/", "user/", "x-", "_", "__", "test_", "tmp_"})
    for (const char* x : {"", "/credential_id", "/protocol", "/response_code", "/response_code_class", "/status_code", "/consumer_id", "/error_type", "/quota_name", "/quota_group_name", "/type", "consumer_id", "caller_ip", "user_agent", "service_agent", "referer", "platform", "android_package_name", "android_cert_fingerprint", "ios_bundle_id", "api_version", "api_method", "location", "uid", "zone", "region", "resource_id", "resource_type", "resource_container",
                          "project", "project_id", "project_number", "service", "service_name", "service_config_id", "method", "request_id", "trace_id", "span_id", "timestamp", "time", "start_time", "end_time", "client_ip", "ip", "host", "hostname", "user", "email", "version", "env", "k", "v", "key", "value", "name", "id", "quota_used_count", "quota_used", "request_count", "latency", "rpc/client/count", "count"}) s.insert(string(p) + x);
  w = new std::vector<string>(s.begin(), s.end());
  return *w;
}
static string SignatureWith(int field, const string& s) {
  Operation op;
  op.set_operation_name("o");
  op.set_consumer_id("c");
  switch (field) {
    case 0: op.set_operation_name(s); return GenerateReportOperationSignature(op);
    case 1: op.set_consumer_id(s); return GenerateReportOperationSignature(op);
    case 2: (*op.mutable_labels())[s] = "v"; return GenerateReportOperationSignature(op);
    case 3: (*op.mutable_labels())["k"] = s; return GenerateReportOperationSignature(op);
    case 4: (*op.mutable_labels())["k"] = "v"; (*op.mutable_labels())["l" + s] = "v"; return GenerateReportOperationSignature(op);
    case 5: return GenerateCheckRequestSignature(Check(s, "c", {}, {}, 0, false));
    case 6: return GenerateCheckRequestSignature(Check("o", s, {}, {}, 0, false));
    case 7: return GenerateCheckRequestSignature(Check("o", "c", {{s, "v"}}, {}, 0, false));
    case 8: return GenerateCheckRequestSignature(Check("o", "c", {{"k", s}}, {}, 0, false));
    case 9: return GenerateCheckRequestSignature(Check("o", "c", {}, {{s, {{{"a", "b"}}}}}, 0, false));
    case 10: return GenerateCheckRequestSignature(Check("o", "c", {}, {{"m", {{{s, "b"}}}}}, 0, false));
    case 11: return GenerateCheckRequestSignature(Check("o", "c", {}, {{"m", {{{"a", s}}}}}, 0, false));
    case 12: return GenerateAllocateQuotaRequestSignature(Quota(s, "c", {"m"}, 0));
    case 13: return GenerateAllocateQuotaRequestSignature(Quota("o", s, {"m"}, 0));
    case 14: return GenerateAllocateQuotaRequestSignature(Quota("o", "c", {s}, 0));
    case 15: return GenerateAllocateQuotaRequestSignature(Quota("o", "c", {"m" + s, "m"}, 0));
    default: {
      MetricValue v;
      (*v.mutable_labels())[field == 16 ? s : "k"] = field == 16 ? "v" : s;
      return GenerateReportMetricValueSignature(v);
    }
  }
}
static void Spelling(int) {
  int field = mc::choose(18, "field");
  std::map<string, string> seen;
  // The same request without the label, metric or value.
  Operation op;
  op.set_operation_name("o");
  op.set_consumer_id("c");
  switch (field) {
    case 2: case 3: seen[GenerateReportOperationSignature(op)] = "nothing"; break;
    case 4: (*op.mutable_labels())["k"] = "v"; seen[GenerateReportOperationSignature(op)] = "nothing"; break;
    case 7: case 8: case 9: seen[GenerateCheckRequestSignature(Check("o", "c", {}, {}, 0, false))] = "nothing"; break;
    case 10: case 11: seen[GenerateCheckRequestSignature(Check("o", "c", {}, {{"m", {{}}}}, 0, false))] = "nothing"; break;
    case 14: seen[GenerateAllocateQuotaRequestSignature(Quota("o", "c", {}, 0))] = "nothing"; break;
    case 15: seen[GenerateAllocateQuotaRequestSignature(Quota("o", "c", {"m"}, 0))] = "nothing"; break;
    case 16: case 17: seen[GenerateReportMetricValueSignature(MetricValue())] = "nothing"; break;
  }
  for (auto& s : Words()) {
    if (field == 15 && s.empty()) continue;           // a metric named twice
    mc::step();
    string sig = SignatureWith(field, s);
    auto r = seen.emplace(sig, s);
    MC_CHECK(r.second, "field %d: %s and %s share an entry", field, Esc(r.first->second).c_str(), Esc(s).c_str());
    MC_CHECK(sig == SignatureWith(field, s), "field %d: two signatures for %s", field, Esc(s).c_str());
    mc::validated();
  }
  mc::state(mc::strf("%d", field));
  mc::outcome(mc::strf("%zu", seen.size()));
}
// Any number of labels, metrics and values: each of them counts, in every place.
static void Counts(int level) {
  const int max = level == 0 ? 24 : 80, kind = mc::choose(6, "kind");
  std::map<string, string> seen;
  auto name = [](int i) { return mc::strf("n%d", i); };
  // variant: -2 plain, -1 inserted in the opposite order, i value i altered, n + i name i altered, 2n + i item i left out
  auto sig = [&](int n, int variant) {
    Labels l; std::vector<Metric> m; std::vector<string> q;
    for (int j = 0; j < n; ++j) {
      int i = variant == -1 ? n - 1 - j : j;
      if (variant == 2 * n + i) continue;
      string k = variant == n + i ? mc::strf("other%d", i) : name(i), v = variant == i ? "altered" : "v";
      l.push_back({k, v});
      m.push_back({k, {{{"l", v}}}});
      q.push_back(k);
    }
    Operation op;
    op.set_operation_name("o"); op.set_consumer_id("c");
    MetricValue mv;
    switch (kind) {
      case 0: Fill(op.mutable_labels(), l); return GenerateReportOperationSignature(op);
      case 1: return GenerateCheckRequestSignature(Check("o", "c", l, {}, 0, false));
      case 2: return GenerateCheckRequestSignature(Check("o", "c", {}, m, 0, false));
      case 3: return GenerateCheckRequestSignature(Check("o", "c", {}, {{"m", {l}}}, 0, false));
      case 4: return GenerateAllocateQuotaRequestSignature(Quota("o", "c", q, 0));
      default: Fill(mv.mutable_labels(), l); return GenerateReportMetricValueSignature(mv);
    }
  };
  std::vector<int> sizes;
  for (int n = 0; n <= max; ++n) sizes.push_back(n);
  for (int n : {31, 32, 33, 34, 50, 51, 63, 64, 65, 66, 99, 100, 101, 102, 127, 128, 129, 130, 200, 255, 256, 257, 258, 500, 513, 1000, 1001, 1025}) if (n > max) sizes.push_back(n);
  for (int n : sizes) {
    mc::step();
    string plain = sig(n, -2);
    auto put = [&](const string& s, const string& what) {
      auto r = seen.emplace(s, what);
      MC_CHECK(r.second, "kind %d: %s and %s share an entry", kind, r.first->second.c_str(), what.c_str());
    };
    put(plain, mc::strf("%d items", n));
    MC_CHECK(sig(n, -1) == plain, "kind %d: %d items in the opposite order have another signature", kind, n);
    for (int i = 0; i < n; ++i) {
      if (n > 101 && i > 2 && i < n - 3 && i % 61) continue;
      if (kind != 4) put(sig(n, i), mc::strf("%d items, value %d altered", n, i));
      put(sig(n, n + i), mc::strf("%d items, name %d altered", n, i));
      if (i < n - 1) put(sig(n, 2 * n + i), mc::strf("%d items, number %d left out", n, i));
    }
    mc::validated();
  }
  mc::state(mc::strf("%d", kind));
  mc::outcome(mc::strf("%zu", seen.size()));
}

// The caches themselves: the second request of a pair is answered from (or
// merged with) the first exactly if the identities agree.
static void Behaviour(int level) {
  int which = mc::choose(3, "cache");
  std::vector<string> S = {"", "a", "b", "ab"};
  struct R { string id; std::function<Operation(int)> op; std::function<CheckRequest(int)> check; std::function<AllocateQuotaRequest(int)> quota; string flat; bool fixed; };
  std::vector<R> all;
  if (which == 0) {
    for (auto& c : S) for (auto& o : S) for (auto& l : LabelAlphabet({"a", "b"}, {"", "a"}, 2)) {
      if (level == 0 && c == "ab" && o == "ab") continue;
      R r; r.id = Esc(c) + Esc(o) + Show(l); r.flat = c + '\0' + o + Flat(l);
      r.op = [=](int n) { Operation op; op.set_consumer_id(c); op.set_operation_name(o); Labels x = l; if (n & 1) std::reverse(x.begin(), x.end()); Fill(op.mutable_labels(), x); op.set_operation_id(mc::strf("%d", n)); if (n & 1) SetTs(op.mutable_end_time(), n); AddInt64(&op, n & 1 ? "m" : "n", n); return op; };
      all.push_back(r);
    }
  } else if (which == 1) {
    std::vector<std::vector<Metric>> M = {{}, {{"m", {}}}, {{"m", {{{"a", "b"}}}}}, {{"m", {{{"a", "c"}}}}}, {{"n", {}}}, {{"m", {{{"a", "b"}}}}, {"n", {{{"a", "b"}}}}}, {{"n", {{{"a", "b"}}}}, {"m", {{{"a", "b"}}}}}};
    for (auto& o : {"", "a", "ab"}) for (auto& c : {"", "a", "b"}) for (auto& l : LabelAlphabet({"a", "b"}, {"", "a"}, 1)) for (auto& m : M) {
      string oo = o, cc = c; R r; r.id = Esc(o) + Esc(c) + Show(l) + MetricId(m, true); r.flat = oo + '\0' + cc + '\0' + Flat(l) + MetricFlat(m);
      r.check = [=](int n) { CheckRequest q = Check(oo, cc, l, m, 4 + n, n & 1); q.mutable_operation()->set_importance(Operation::LOW); return q; };
      all.push_back(r);
    }
  } else {
    for (auto& m : S) for (auto& c : S) for (auto& n : NameLists({"a", "b", "ab"}, 2)) {
      if (level == 0 && m.size() + c.size() > 2) continue;
      R r; r.id = Esc(m) + Esc(c) + Set(n, false); r.flat = m + '\0' + c + Set(n, true);
      r.quota = [=](int k) { return Quota(m, c, n, k); };
      all.push_back(r);
    }
  }
  int first = ChooseMany(all.size());
  for (size_t j = 0; j < all.size(); ++j) {
    bool shared = false;
    mc::step();
    if (which == 0) {
      std::unique_ptr<ReportAggregator> agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(100, 1000), nullptr);
      int n = 0;
      agg->SetFlushCallback([&](const ReportRequest& r) { n += r.operations_size(); });
      ReportRequest r1, r2;
      r1.set_service_name(kService); r2.set_service_name(kService);
      *r1.add_operations() = all[first].op(0); *r2.add_operations() = all[j].op(1);
      (void)agg->Report(r1); (void)agg->Report(r2);
      (void)agg->FlushAll();
      if (n != 1 && n != 2) mc::prune();
      shared = n == 1;
    } else if (which == 1) {
      std::unique_ptr<CheckAggregator> agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(100, 1000, 2000), nullptr);
      agg->SetFlushCallback([](const CheckRequest&) {});
      CheckResponse a, b;
      CheckRequest q1 = all[first].check(0), q2 = all[j].check(1);
      if (agg->Check(q1, &a).code() != StatusCode::kNotFound) mc::prune();
      a.set_operation_id("cached");
      (void)agg->CacheResponse(q1, a);
      shared = agg->Check(q2, &b).ok();
    } else {
      std::unique_ptr<QuotaAggregator> agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(100, 1000, 2000));
      int n = 0;
      agg->SetFlushCallback([&](const AllocateQuotaRequest&) { ++n; });
      AllocateQuotaResponse a;
      (void)agg->Quota(all[first].quota(0), &a);
      if (n != 1) mc::prune();
      (void)agg->Quota(all[j].quota(1), &a);
      shared = n == 1;
    }
    bool same = all[first].id == all[j].id;
    mc::trace("cache %d: %s then %s: %s", which, all[first].id.c_str(), all[j].id.c_str(), shared ? "shared" : "separate");
    if (shared && !same && all[first].flat == all[j].flat) mc::known("check-fields-in-sequence", "identities share an entry: %s and %s", all[first].id.c_str(), all[j].id.c_str());
    else MC_CHECK(shared == same, "cache %d: %s and %s %s an entry", which, all[first].id.c_str(), all[j].id.c_str(), shared ? "share" : "do not share");
    mc::validated();
  }
  mc::state(mc::strf("%d ", which) + all[first].id);
  mc::outcome(mc::strf("%d", which));
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C09", {
    {"reports", Reports, {0, 1}, {0, 1, 2}, "alphabet", false, "signatures of all pairs of report identities"},
    {"values", Values, {0, 1}, {0, 1, 2}, "alphabet", false, "signatures of all pairs of metric value label sets"},
    {"checks", Checks, {0, 1}, {0, 1, 2}, "alphabet", false, "signatures of all pairs of check identities"},
    {"quotas", Quotas, {0, 1}, {0, 1, 2}, "alphabet", false, "signatures of all pairs of quota identities"},
    {"lengths", Lengths, {0}, {0, 1}, "alphabet", false, "names of every length differing in one byte"},
    {"long-names", LongNames, {0}, {0}, "full", false, "names of up to 100001 bytes differing in one byte, signatures and caches"},
    {"spelling", Spelling, {0}, {0}, "full", false, "every field taking each of some 2000 texts: single bytes, case, spaces, prefixes, numbers, encodings"},
    {"counts", Counts, {0}, {0, 1}, "alphabet", false, "up to 24 (thorough: 80) labels, metrics, values, differing in any one"},
    {"behaviour", Behaviour, {0}, {0, 1}, "alphabet", false, "all ordered pairs through the three caches"},
  });
}
