// C02: merging operations preserves time range, logs and metric totals.
// Every sequence of same-identity operations is reported and flushed as one;
// the result is compared with the specification applied to the whole list.
#include "common.h"
#include "include/service_control_client.h"
#include "utils/distribution_helper.h"
using namespace h;
using ::google::protobuf::Timestamp;

typedef std::unordered_map<string, MetricDescriptor::MetricKind> Kinds;

#include <limits>
static const double kInf = std::numeric_limits<double>::infinity();
static bool Before(const Timestamp& a, const Timestamp& b) { return std::make_pair(a.seconds(), a.nanos()) < std::make_pair(b.seconds(), b.nanos()); }
// Time alphabet; 0 is absence.
static const int64_t kTimes[][2] = {{0, 0}, {1, 0}, {1, 1}, {1, 999999999}, {2, 0}, {0, 5}, {0, 0}, {1 + (1LL << 32), 0}, {-3, 500}};
static bool Time(int i, Timestamp* t) { if (i) SetTs(t, kTimes[i][0], kTimes[i][1]); return i > 0; }
template <class M> static void Times(M* m, int start, int end) {
  if (start) Time(start, m->mutable_start_time());
  if (end) Time(end, m->mutable_end_time());
}
static string Ts(bool has, const Timestamp& t) { return has ? mc::strf("%lld.%09d", (long long)t.seconds(), t.nanos()) : "none"; }

static Operation Op(int n) {
  Operation op;
  op.set_operation_id(mc::strf("id-%d", n));
  op.set_operation_name("op");
  op.set_consumer_id("project:p");
  (*op.mutable_labels())["l"] = "v";
  return op;
}

// Folds the time range of a list.
template <class M> struct Range {
  bool hs = false, he = false; Timestamp s, e;
  void Add(const M& m) {
    if (m.has_start_time() && (!hs || Before(m.start_time(), s))) { hs = true; s = m.start_time(); }
    if (m.has_end_time() && (!he || Before(e, m.end_time()))) { he = true; e = m.end_time(); }
  }
  string Diff(const M& m) const {
    string want = Ts(hs, s) + ".." + Ts(he, e), got = Ts(m.has_start_time(), m.start_time()) + ".." + Ts(m.has_end_time(), m.end_time());
    return want == got ? "" : "time range " + got + ", expected " + want;
  }
};

// Merges operations elsewhere than in the report aggregator: as checks that
// are answered from the cache, and through a whole client.
enum { VIA_REPORTS, VIA_CHECKS, VIA_CLIENT_REPORTS, VIA_CLIENT_CHECKS };
static std::vector<Operation> Elsewhere(int via, const std::vector<Operation>& ops, std::shared_ptr<Kinds> k) {
  std::vector<Operation> out;
  auto request = [](const Operation& op) { CheckRequest r; r.set_service_name(kService); *r.mutable_operation() = op; return r; };
  if (via == VIA_CHECKS) {
    auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(100, 1000, 2000), k);
    agg->SetFlushCallback([&](const CheckRequest& r) { out.push_back(r.operation()); });
    (void)agg->CacheResponse(request(ops[0]), CheckResponse());
    for (auto& op : ops) { CheckResponse resp; if (!agg->Check(request(op), &resp).ok()) mc::prune(); mc::step(); }
    (void)agg->FlushAll();
    return out;
  }
  ServiceControlClientOptions o(CheckAggregationOptions(100, 1000, 2000), QuotaAggregationOptions(100, 1000), ReportAggregationOptions(100, 1000));
  o.metric_kinds = k;
  bool first = via == VIA_CLIENT_CHECKS;
  o.check_transport = [&](const CheckRequest& r, CheckResponse*, TransportDoneFunc d) { if (!first) out.push_back(r.operation()); first = false; d(OkStatus()); };
  o.report_transport = [&](const ReportRequest& r, ReportResponse*, TransportDoneFunc d) { for (auto& op : r.operations()) out.push_back(op); d(OkStatus()); };
  std::unique_ptr<ServiceControlClient> client = CreateServiceControlClient(kService, kConfig, o);
  CheckResponse cresp; ReportResponse rresp;
  if (first) (void)client->Check(request(ops[0]), &cresp);
  for (auto& op : ops) {
    if (via == VIA_CLIENT_CHECKS) (void)client->Check(request(op), &cresp);
    else { ReportRequest r; r.set_service_name(kService); *r.add_operations() = op; (void)client->Report(r, &rresp); }
    mc::step();
  }
  client.reset();
  return out;
}

// Reports `ops` as requests of the given sizes and checks the flushed result.
static void Judge(const std::vector<Operation>& ops, const std::vector<Operation>& out, const Kinds* kinds);
static void Run(const std::vector<Operation>& ops, const std::vector<int>& split, const Kinds* kinds, int via = VIA_REPORTS) {
  std::shared_ptr<Kinds> k;
  if (kinds) k.reset(new Kinds(*kinds));
  if (via != VIA_REPORTS) return Judge(ops, Elsewhere(via, ops, k), kinds);
  std::unique_ptr<ReportAggregator> agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(100, 1000), k);
  std::vector<Operation> out;
  agg->SetFlushCallback([&](const ReportRequest& r) { for (auto& o : r.operations()) out.push_back(o); });
  size_t at = 0;
  for (size_t q = 0; at < ops.size(); ++q) {
    ReportRequest r;
    r.set_service_name(kService);
    int n = q < split.size() ? split[q] : 1;
    for (int i = 0; i < n && at < ops.size(); ++i) *r.add_operations() = ops[at++];
    if (!agg->Report(r).ok()) mc::prune();        // C03's business
    mc::step();
  }
  (void)agg->FlushAll();
  Judge(ops, out, kinds);
}
static void Judge(const std::vector<Operation>& ops, const std::vector<Operation>& out, const Kinds* kinds) {
  if (out.size() != 1) mc::prune();               // C01's and C04's business
  const Operation& got = out[0];
  string d;
  for (auto& o : ops) d += " [" + Text(o) + "]";
  if (mc::tracing()) mc::trace("merge of%s\n    gives [%s]", d.c_str(), Text(got).c_str());
  // Time range, logs, other fields.
  Range<Operation> range;
  int log = 0;
  for (auto& o : ops) {
    range.Add(o);
    for (auto& e : o.log_entries()) {
      MC_CHECK(log < got.log_entries_size() && Text(got.log_entries(log)) == Text(e), "log entry %d wrong in merge of%s: [%s]", log, d.c_str(), Text(got).c_str());
      ++log;
    }
  }
  MC_CHECK(log == got.log_entries_size(), "%d log entries, expected %d, in merge of%s", got.log_entries_size(), log, d.c_str());
  string diff = range.Diff(got);
  MC_CHECK(diff.empty(), "%s in merge of%s", diff.c_str(), d.c_str());
  Operation a = ops[0], b = got;
  for (Operation* o : {&a, &b}) { o->clear_start_time(); o->clear_end_time(); o->clear_log_entries(); o->clear_metric_value_sets(); }
  MC_CHECK(Text(a) == Text(b), "other fields of the merge are [%s], expected [%s]", Text(b).c_str(), Text(a).c_str());
  // Metric values by (name, labels).
  typedef std::pair<string, string> Key;
  std::map<Key, std::vector<MetricValue>> in;
  std::map<Key, MetricValue> res;
  for (auto& o : ops) for (auto& s : o.metric_value_sets()) for (auto& v : s.metric_values()) in[Key(s.metric_name(), LabelKey(v.labels()))].push_back(v);
  for (auto& s : got.metric_value_sets()) for (auto& v : s.metric_values()) {
    Key key(s.metric_name(), LabelKey(v.labels()));
    MC_CHECK(in.count(key), "value of %s{%s} from nowhere in merge of%s", key.first.c_str(), key.second.c_str(), d.c_str());
    MC_CHECK(res.emplace(key, v).second, "two values of %s{%s} in merge of%s: [%s]", key.first.c_str(), key.second.c_str(), d.c_str(), Text(got).c_str());
  }
  for (auto& kv : in) {
    string name = kv.first.first + "{" + kv.first.second + "}";
    auto r = res.find(kv.first);
    MC_CHECK(r != res.end(), "value of %s lost in merge of%s", name.c_str(), d.c_str());
    MetricValue have = r->second;
    bool delta = true;
    if (kinds && kinds->count(kv.first.first)) delta = kinds->at(kv.first.first) == MetricDescriptor::DELTA;
    if (!delta) {
      const MetricValue* last = &kv.second[0];
      for (auto& v : kv.second) if (!Before(v.end_time(), last->end_time())) last = &v;
      MC_CHECK(Text(have) == Text(*last), "%s is [%s], expected [%s], in merge of%s", name.c_str(), Text(have).c_str(), Text(*last).c_str(), d.c_str());
    } else {
      MetricValue total = kv.second[0];
      Range<MetricValue> t;
      bool clean = true;
      t.Add(total);
      for (size_t i = 1; i < kv.second.size(); ++i) {
        const MetricValue& v = kv.second[i];
        bool added = v.value_case() == total.value_case();
        if (added && v.has_int64_value()) total.set_int64_value(total.int64_value() + v.int64_value());
        else if (added && v.has_double_value()) total.set_double_value(total.double_value() + v.double_value());
        else if (added && v.has_distribution_value()) added = DistributionHelper::Merge(v.distribution_value(), total.mutable_distribution_value()).ok();
        if (added) t.Add(v); else clean = false;
      }
      MetricValue x = have;
      for (MetricValue* m : {&x, &total}) { m->clear_start_time(); m->clear_end_time(); }
      MC_CHECK(Text(x) == Text(total), "%s is [%s], expected [%s], in merge of%s", name.c_str(), Text(x).c_str(), Text(total).c_str(), d.c_str());
      if (clean) { string e = t.Diff(have); MC_CHECK(e.empty(), "%s %s in merge of%s", name.c_str(), e.c_str(), d.c_str()); }
      mc::outcome(mc::strf("%s n=%zu clean=%d", Text(total).c_str(), kv.second.size(), clean));
    }
  }
  mc::validated();
  mc::state(d);
}

static const char* const kNames[] = {"deflt", "cumulative", "gauge", "delta"};
static const Kinds& TheKinds() {
  static const Kinds* k = new Kinds{{"cumulative", MetricDescriptor::CUMULATIVE}, {"gauge", MetricDescriptor::GAUGE}, {"delta", MetricDescriptor::DELTA}};
  return *k;
}
// Value number `serial` of a type: amounts are powers of two, so every subset
// of contributions has its own total.
static MetricValue Value(int type, int labels, int serial, int start, int end) {
  MetricValue v;
  if (labels & 1) (*v.mutable_labels())["a"] = "1";
  if (labels & 2) (*v.mutable_labels())["b"] = "1";
  if (labels & 4) (*v.mutable_labels())["a"] = "2";
  Times(&v, start, end);
  double amount = (double)(1 << serial);
  switch (type) {
    case 0: v.set_int64_value((serial % 3 == 1 ? -1 : 1) * (1LL << (serial * 37 % 61))); break;
    case 1: v.set_double_value(amount / 4); break;
    case 2: case 3: {
      Distribution* d = v.mutable_distribution_value();
      if (type == 2) (void)DistributionHelper::InitExplicit({1, 3, 9}, d); else (void)DistributionHelper::InitLinear(2, 1, 0, d);
      (void)DistributionHelper::AddSample(amount, d);
      break;
    }
    case 5: v.set_string_value(mc::strf("s%d", serial)); break;
    case 6: v.set_bool_value(serial & 1); break;
    default: break;                       // no value
  }
  return v;
}
static void Put(Operation* op, const char* name, const MetricValue& v) {
  MetricValueSet* s = op->add_metric_value_sets();
  s->set_metric_name(name);
  *s->add_metric_values() = v;
}

// Operation and value time ranges.
static void TimeRanges(int n) {
  int nt = n <= 2 ? 9 : n == 3 ? 5 : 3;
  std::vector<Operation> ops;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    Times(&op, mc::choose(nt, "start"), mc::choose(nt, "end"));
    ops.push_back(op);
  }
  Run(ops, {}, nullptr);
}
static void ValueTimes(int n) {
  int name = mc::choose(4, "name"), type = mc::choose(3, "type"), nt = n <= 2 ? 9 : n == 3 ? 4 : 3;
  std::vector<Operation> ops;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    int s = mc::choose(nt, "start"), e = mc::choose(nt, "end");
    Put(&op, kNames[name], Value(type, 0, i, s, e));
    ops.push_back(op);
  }
  Run(ops, {}, &TheKinds());
}
// Far and close times: of operations and of values.
static void FarTimes(int n) {
  int what = mc::choose(4, "what"), nt = n <= 2 ? kFarTimes : 5;
  std::vector<Operation> ops;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    MetricValue v = Value(0, 0, i, 0, 0);
    int s = mc::choose(nt, "start"), e = mc::choose(nt, "end");
    if (what == 0) { Timestamp t; if (FarTime(s, &t)) *op.mutable_start_time() = t; if (FarTime(e, &t)) *op.mutable_end_time() = t; }
    else { Timestamp t; if (FarTime(s, &t)) *v.mutable_start_time() = t; if (FarTime(e, &t)) *v.mutable_end_time() = t; Put(&op, kNames[what - 1], v); }
    ops.push_back(op);
  }
  Run(ops, {}, &TheKinds());
}
// The same merging in cached checks and through a client.
static void Layers(int n) {
  int via = 1 + mc::choose(3, "via");
  bool kinds = mc::choose(2, "kinds") == 0;
  std::vector<Operation> ops;
  int name = mc::choose(4, "name"), second = mc::choose(5, "second metric");
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    Times(&op, mc::choose(2, "start") * 2, 3);
    Put(&op, kNames[name], Value(mc::choose(3, "type") * 3 / 2, 0, i, 1, mc::choose(2, "end") * 3 + 1));
    if (second < 4 && second != name) Put(&op, kNames[second], Value(0, 0, i, 1, 4));
    op.add_log_entries()->set_text_payload(mc::strf("%d", i));
    ops.push_back(op);
  }
  Run(ops, {}, kinds ? &TheKinds() : nullptr, via);
}
// Names, labels, types, kinds.
static void Values(int n) {
  bool kinds = mc::choose(2, "kinds") == 0;
  std::vector<Operation> ops;
  int nt = n <= 2 ? 7 : n == 3 ? 3 : 2, nl = n <= 2 ? 6 : n == 3 ? 3 : 2, nn = n <= 3 ? 4 : 2;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    int name = mc::choose(nn, "name"), labels = mc::choose(nl, "labels"), type = (nt == 3 ? mc::choose(3) * 3 / 2 : mc::choose(nt, "type"));
    int end = n <= 3 ? mc::choose(2, "end") * 3 + 1 : 1;
    Put(&op, kNames[name], Value(type, labels, i, 1, end));
    ops.push_back(op);
  }
  Run(ops, {}, kinds ? &TheKinds() : nullptr);
}
// Several values per operation, in all shapes: one set or several of the same
// name, equal and different labels, operations without metrics; all ways of
// splitting the operations into requests.
static void Shapes(int n) {
  std::vector<Operation> ops;
  int serial = 0;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    int nv = mc::choose(n <= 2 ? 4 : 3, "values");
    for (int v = 0; v < nv; ++v) {
      int name = mc::choose(2, "name"), labels = mc::choose(2, "labels");
      MetricValue mv = Value(0, labels, serial++, 1, 1 + mc::choose(2, "end"));
      int last = op.metric_value_sets_size() - 1;
      if (last >= 0 && op.metric_value_sets(last).metric_name() == kNames[name]) *op.mutable_metric_value_sets(last)->add_metric_values() = mv;
      else Put(&op, kNames[name], mv);
    }
    ops.push_back(op);
  }
  std::vector<int> split;
  int left = n;
  while (left > 0) { int k = 1 + mc::choose(left, "split"); split.push_back(k); left -= k; }
  Run(ops, split, &TheKinds());
}
// Amounts of every size and sign, zero included.
static void Amounts(int n) {
  static const double doubles[] = {0, 1, -1, 0.1, 1e300, -1e300, 5e-324, kInf, 4294967297.0};
  static const int64_t ints[] = {0, 1, -1, 1LL << 31, 1LL << 32, -(1LL << 40), (1LL << 61) + 1, -(1LL << 61), 1LL << 62};
  bool integer = mc::choose(2, "type") == 0;
  int name = mc::choose(4, "name");
  std::vector<Operation> ops;
  __int128 sum = 0;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    int k = mc::choose(n <= 3 ? 9 : 6, "amount");
    MetricValue v;
    Times(&v, 1, 2);
    if (integer) { v.set_int64_value(ints[k]); sum += ints[k]; if (sum != (int64_t)sum) mc::prune(); }
    else v.set_double_value(doubles[k]);
    Put(&op, kNames[name], v);
    ops.push_back(op);
  }
  Run(ops, {}, &TheKinds());
}
// Contributions that are nothing (zero, an empty distribution), with times of
// their own: the range still covers them.
static void Nothings(int n) {
  int type = mc::choose(4, "type"), name = mc::choose(4, "name");
  static const int starts[] = {2, 1, 4}, ends[] = {3, 3, 4};
  std::vector<Operation> ops;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    bool nothing = mc::choose(2, "nothing");
    int t = mc::choose(3, "times");
    MetricValue v = Value(type, 0, i, starts[t], ends[t]);
    if (nothing) {
      if (type == 0) v.set_int64_value(0);
      if (type == 1) v.set_double_value(i % 2 ? -0.0 : 0.0);
      if (type >= 2) {
        Distribution* d = v.mutable_distribution_value();
        d->Clear();
        if (type == 2) (void)DistributionHelper::InitExplicit({1, 3, 9}, d); else (void)DistributionHelper::InitLinear(2, 1, 0, d);
      }
    }
    Put(&op, kNames[name], v);
    ops.push_back(op);
  }
  Run(ops, {}, &TheKinds());
}
// Metric names, label keys and label values of any length, differing at the
// first, a middle or the last byte.
static void Long(int) {
  static const int lens[] = {1, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 16384, 65535, 65536, 70000};
  const int n = lens[mc::choose(17, "length")], field = mc::choose(4, "field"), at = mc::choose(4, "differ"), many = mc::choose(2, "operations");
  const bool kinds = mc::choose(2, "kinds");
  std::vector<Operation> ops;
  for (int i = 0; i < 2 + many; ++i) {
    string s(n, 'x');
    if (i == 1 && at < 3) s[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = 'y';
    if (i == 1 && at == 3) s += 'x';
    Operation op = Op(i);
    MetricValue v;
    v.set_int64_value(1 << i);
    Times(&v, 1, 2);
    if (field == 1) (*v.mutable_labels())[s] = "v";
    if (field == 2) (*v.mutable_labels())["k"] = s;
    if (field == 3) { (*v.mutable_labels())["k"] = "v"; (*v.mutable_labels())["k" + s] = s; (*v.mutable_labels())["z"] = "v"; }
    Put(&op, field == 0 ? s.c_str() : kNames[kinds], v);
    ops.push_back(op);
  }
  Run(ops, {}, kinds ? &TheKinds() : nullptr);
}
// Many metrics, many label sets, many operations.
static void Many(int) {
  int n = 2 + mc::choose(4, "operations") * 7, metrics = 1 + mc::choose(4, "metrics") * 10, labels = 1 + mc::choose(4, "label sets") * 10;
  if (labels == 31) { labels = 300; if (n > 9 || metrics > 11) mc::prune(); }
  bool one_set = mc::choose(2, "sets");
  std::vector<Operation> ops;
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    for (int m = 0; m < metrics; ++m) {
      MetricValueSet* s = op.add_metric_value_sets();
      s->set_metric_name(mc::strf("metric%d", m));
      for (int l = 0; l < labels; ++l) {
        if (!one_set && l) { s = op.add_metric_value_sets(); s->set_metric_name(mc::strf("metric%d", m)); }
        MetricValue* v = s->add_metric_values();
        Times(v, 1, 2);
        (*v->mutable_labels())["l"] = mc::strf("%d", l);
        (*v->mutable_labels())["k"] = "x";
        v->set_int64_value((i + 1) * 1000000 + m * 1000 + l);
      }
    }
    ops.push_back(op);
  }
  Run(ops, {n / 2}, &TheKinds());
}
// Log entries and the remaining fields.
static void Logs(int n) {
  std::vector<Operation> ops;
  int serial = 0;
  const int alike = mc::choose(n <= 3 ? 4 : 1, "alike");     // 1: same insert ids, 2: same but for the payload, 3: all the same
  for (int i = 0; i < n; ++i) {
    Operation op = Op(i);
    int k = mc::choose(4, "logs");
    if (k == 3 && n <= 4) k = 24;
    for (int j = 0; j < k; ++j) {
      auto* e = op.add_log_entries();
      e->set_name(mc::strf("log%d", serial % 3));
      e->set_text_payload(mc::strf("%d", serial++));
      if (k == 3 || n > 4) FillAll(e, serial);
      if (j & 1) SetTs(e->mutable_timestamp(), 100 - serial);
      if (alike) e->set_insert_id("same");
      if (alike >= 2) { e->set_name("log"); SetTs(e->mutable_timestamp(), 7); }
      if (alike == 3) e->set_text_payload("same");
    }
    if (mc::choose(2, "fields")) { op.clear_operation_id(); Times(&op, 1, 3); }
    if (mc::choose(2, "labels")) for (int l = 0; l < 5; ++l) (*op.mutable_labels())[mc::strf("label%d", l)] = "x";
    ops.push_back(op);
  }
  Run(ops, {}, nullptr);
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C02", {
    {"time-ranges", TimeRanges, {2, 3, 4}, {2, 3, 4, 5, 6}, "operations", false, "all presences and orders of operation start and end times"},
    {"value-times", ValueTimes, {2, 3, 4}, {2, 3, 4, 5}, "operations", false, "all presences and orders of value times, per kind and type"},
    {"far-times", FarTimes, {2}, {2, 3}, "operations", false, "the first and the last times there are, and close ones far from zero"},
    {"layers", Layers, {2, 3}, {2, 3, 4}, "operations", false, "merging in cached checks and through a client, with and without metric kinds"},
    {"values", Values, {2, 3}, {2, 3, 4, 5}, "operations", false, "all metric names, kinds, label sets and value types"},
    {"shapes", Shapes, {1, 2, 3}, {1, 2, 3}, "operations", false, "all layouts of values in sets, operations and requests"},
    {"amounts", Amounts, {2, 3}, {2, 3, 4}, "operations", false, "all amounts of a boundary alphabet"},
    {"nothings", Nothings, {2, 3}, {2, 3, 4, 5}, "operations", false, "zero amounts and empty distributions with times of their own"},
    {"long", Long, {0}, {0}, "full", false, "metric names, label keys and values of up to 70000 bytes differing at one place"},
    {"many", Many, {0}, {0}, "full", false, "up to 23 operations with 31 metrics and 21 label sets each, up to 300 label sets of one metric"},
    {"logs", Logs, {2, 3, 4}, {2, 3, 4, 5, 6}, "operations", false, "all log entry counts"},
  });
}
