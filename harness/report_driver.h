// Drives a ReportAggregator through every operation sequence and follows it by
// observation only: each operation ever offered is a numbered "chunk" whose
// number is encoded in its metric amount (bit n) and its log entries, so what
// a flush delivers tells exactly which chunks it contains.
#ifndef VERIF_REPORT_DRIVER_H_
#define VERIF_REPORT_DRIVER_H_
#include "common.h"

namespace h {
enum { P_CONSERVE = 1, P_ROUTE = 2, P_LIMITS = 4, P_TIMING = 8 };

struct ReportCfg { int capacity; int interval_ms; };

class ReportRun {
 public:
  struct Chunk { int id; int logs; int64_t t; bool accepted; bool delivered; };
  struct Held { int id; std::vector<int> chunks; int64_t t0; int logs; };
  struct Delivery { int id; std::vector<int> chunks; };
  enum Reason { AGE, BIG, CAP, ALL };
  struct Expect { Held what; Reason why; };

  ReportRun(const ReportCfg& c, int checks) : cfg(c), checks_(checks) {
    IdStyle() = 0;
    Pad(0);
    agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(c.capacity, c.interval_ms), nullptr);
    agg->SetFlushCallback([this](const ReportRequest& r) { flushed_.push_back(r); });
    if (checks_ & P_TIMING) {
      int want = c.capacity > 0 ? c.interval_ms : -1;
      MC_CHECK(agg->GetNextFlushInterval() == want, "next flush interval %d, expected %d", agg->GetNextFlushInterval(), want);
    }
  }

  // One report carrying operations of the given identities.
  // high = index of the operation that is not LOW importance (-1 none).
  void Report(const std::vector<int>& ids, int logs = 1, int high = -1, bool wrong_service = false, int importance = 1) {
    ReportRequest r;
    r.set_service_name(wrong_service ? "other" : kService);
    std::vector<int> mine;
    for (size_t i = 0; i < ids.size(); ++i) {
      int n = chunks_.size();
      chunks_.push_back({ids[i], logs, mc::now_us, false, false});
      mine.push_back(n);
      Fill(r.add_operations(), ids[i], n, logs, (int)i == high ? importance : 0);
    }
    Status s = agg->Report(r);
    mc::step();
    int want = wrong_service ? (int)StatusCode::kInvalidArgument : high >= 0 || cfg.capacity <= 0 ? (int)StatusCode::kNotFound : 0;
    if (mc::tracing()) mc::trace("t=%lldus Report(%s logs=%d high=%d wrong=%d) -> %s", (long long)mc::now_us, IdList(ids).c_str(), logs, high, wrong_service, Code(s).c_str());
    if (checks_ & P_ROUTE) MC_CHECK((int)s.code() == want, "report of %zu operations (high=%d wrong_service=%d capacity=%d) gives %s, expected code %d", ids.size(), high, wrong_service, cfg.capacity, s.ToString().c_str(), want);
    bool absorbed = s.ok();
    std::vector<Expect> exp;
    std::vector<Held> after = held;
    if (absorbed) {
      for (int n : mine) chunks_[n].accepted = true;
      for (int n : mine) Predict(n, &after, &exp);
    }
    Settle(exp, after, absorbed ? "report" : "refused report", absorbed);
  }
  void Flush() {
    Status s = agg->Flush();
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus Flush", (long long)mc::now_us);
    std::vector<Expect> exp; std::vector<Held> after = held;
    Expire(&after, &exp);
    Settle(exp, after, "flush", true);
  }
  void FlushAll() {
    Status s = agg->FlushAll();
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus FlushAll", (long long)mc::now_us);
    std::vector<Expect> exp; std::vector<Held> after;
    for (auto& e : held) exp.push_back({e, ALL});
    Settle(exp, after, "flush-all", true);
  }
  void Advance(int64_t us) { mc::advance_us(us); if (mc::tracing()) mc::trace("clock +%lldus", (long long)us); }

  // The cache is drained; nothing may be missing.
  void Finish() {
    FlushAll();
    string obs;
    for (size_t i = 0; i < chunks_.size(); ++i) {
      const Chunk& c = chunks_[i];
      if (checks_ & P_CONSERVE) {
        MC_CHECK(!c.accepted || c.delivered, "operation #%zu (identity %d) was accepted but never delivered", i, c.id);
        MC_CHECK(c.accepted || !c.delivered, "operation #%zu (identity %d) was not accepted but delivered", i, c.id);
      }
      if (checks_ & P_ROUTE) MC_CHECK(c.accepted || !c.delivered, "operation #%zu (identity %d) was handed back but merged into cached state", i, c.id);
      obs += c.accepted ? "a" : "-";
    }
    mc::outcome(obs + log_);
  }

  string State() const {   // canonical, from observations
    string s = mc::strf("%d/%d|", cfg.capacity, cfg.interval_ms);
    for (auto& e : held) {
      int64_t age = mc::now_us - e.t0;
      if (cfg.interval_ms >= 0 && age > cfg.interval_ms * 1000LL) age = cfg.interval_ms * 1000LL + 1;
      if (cfg.interval_ms < 0) age = 0;
      s += mc::strf("%d,%zu,%d,%lld;", e.id, e.chunks.size(), e.logs, (long long)age);
    }
    return s;
  }
  size_t chunks() const { return chunks_.size(); }

  // A prefix of every name, so that differences come late.
  static const string& Pad(int n = -1) { static string p; if (n >= 0) p.assign(n, 'x'); return p; }

  ReportCfg cfg;
  std::vector<Held> held;
  std::unique_ptr<ReportAggregator> agg;

  // Close pairs: 0..3 differ in one identity component each.
  static string Consumer(int id) { return id == 2 ? Pad() + "project:b" : id == 5 ? "" : Pad() + "project:a"; }
  static string OpName(int id) { return id == 3 ? Pad() + "op2" : id == 6 ? "" : Pad() + "op"; }
  static std::map<string, string> Labels(int id) {
    if (id == 1) return {{"k", Pad() + "v"}};
    if (id == 4) return {{"k", Pad() + "w"}, {"l", "v"}};
    if (id >= 7) return {{"n", std::to_string(id)}};
    return {};
  }

 private:
  static void Fill(Operation* op, int id, int n, int logs, int importance) {
    op->set_operation_id(OpId(n));
    op->set_operation_name(OpName(id));
    op->set_consumer_id(Consumer(id));
    for (auto& kv : Labels(id)) (*op->mutable_labels())[kv.first] = kv.second;
    SetTs(op->mutable_start_time(), 1000 - n, n);
    SetTs(op->mutable_end_time(), 1000 + n, n);
    op->set_importance((Operation::Importance)importance);
    AddInt64(op, "m", Amount(n));
    MetricValue* v = AddInt64(op, "m", Amount(n));
    (*v->mutable_labels())["side"] = "x";
    if (n % 2) AddInt64(op, "odd", Amount(n));
    for (int k = 0; k < logs; ++k) {
      auto* l = op->add_log_entries();
      l->set_text_payload(mc::strf("%d.%d", n, k));
      l->set_insert_id(IdStyle() == 0 ? l->text_payload() : "same");   // an id of the caller's, not of the library's
    }
  }
  static string IdList(const std::vector<int>& ids) { string s; for (int i : ids) s += mc::strf("%d ", i); return s; }

  void Expire(std::vector<Held>* h, std::vector<Expect>* exp) const {
    if (cfg.interval_ms < 0) return;
    for (size_t i = 0; i < h->size();) {
      if (mc::now_us - (*h)[i].t0 > cfg.interval_ms * 1000LL) { exp->push_back({(*h)[i], AGE}); h->erase(h->begin() + i); }
      else ++i;
    }
  }
  void Predict(int n, std::vector<Held>* h, std::vector<Expect>* exp) const {
    const Chunk& c = chunks_[n];
    Expire(h, exp);
    for (size_t i = 0; i < h->size(); ++i) {
      Held& e = (*h)[i];
      if (e.id != c.id) continue;
      e.chunks.push_back(n); e.logs += c.logs;
      if (e.logs >= 100) { exp->push_back({e, BIG}); h->erase(h->begin() + i); }
      return;
    }
    h->push_back({c.id, {n}, mc::now_us, c.logs});
    while ((int)h->size() > cfg.capacity) { exp->push_back({h->front(), CAP}); h->erase(h->begin()); }
  }
  // Reads which chunks an emitted operation carries; checks conservation.
  Delivery Decode(const Operation& op) {
    Delivery d; d.id = -1;
    bool strict = checks_ & P_CONSERVE;
    std::map<int, int> logs; string bad;
    std::vector<int> order;
    for (auto& l : op.log_entries()) {
      int n = -1, k = -1;
      if (sscanf(l.text_payload().c_str(), "%d.%d", &n, &k) != 2 || n < 0 || n >= (int)chunks_.size()) { bad = "unknown log entry " + l.text_payload(); continue; }
      if (!logs.count(n)) order.push_back(n);
      if (logs[n]++ != k) bad = "log entries repeated or out of order";
    }
    std::map<string, int64_t> amount;
    for (auto& s : op.metric_value_sets()) for (auto& v : s.metric_values()) amount[s.metric_name() + "/" + LabelKey(v.labels())] += v.int64_value();
    std::map<string, int64_t> want;
    bool metric_only = false;
    for (auto& x : chunks_) if (x.logs == 0) metric_only = true;
    if (metric_only) {     // some chunks have no logs: take the amounts as the list
      order.clear();
      for (int n = 0; n < (int)chunks_.size(); ++n) if (amount["m/"] >> n & 1) order.push_back(n);
    }
    for (int n : order) {
      if (logs[n] != chunks_[n].logs) bad = mc::strf("operation #%d delivered with %d of %d log entries", n, logs[n], chunks_[n].logs);
      want["m/"] += Amount(n); want["m/side=x,"] += Amount(n);
      if (n % 2) want["odd/"] += Amount(n);
      const Chunk& c = chunks_[n];
      if (op.consumer_id() != Consumer(c.id) || op.operation_name() != OpName(c.id) || LabelKey(op.labels()) != LabelKey(Labels(c.id)))
        bad = mc::strf("operation #%d of identity %d credited to %s/%s/%s", n, c.id, op.consumer_id().c_str(), op.operation_name().c_str(), LabelKey(op.labels()).c_str());
      if (c.delivered) bad = mc::strf("operation #%d delivered twice", n);
      if (!c.accepted) bad = mc::strf("operation #%d was not accepted into the cache but is delivered", n);
      chunks_[n].delivered = true;
      d.id = c.id;
      d.chunks.push_back(n);
    }
    if (want != amount) {
      string t; for (auto& a : amount) t += mc::strf("%s:%lld(want %lld) ", a.first.c_str(), (long long)a.second, (long long)want[a.first]);
      bad = "metric totals differ from the merged reports: " + t;
    }
    if (strict) MC_CHECK(bad.empty(), "%s; delivered %s", bad.c_str(), Text(op).c_str());
    return d;
  }
  void Settle(const std::vector<Expect>& exp, const std::vector<Held>& after, const char* what, bool absorbed) {
    std::vector<Delivery> got;
    for (auto& r : flushed_) {
      if (checks_ & P_LIMITS) {
        MC_CHECK(r.operations_size() > 0, "empty report sent by %s", what);
        MC_CHECK(r.operations_size() <= 10, "report with %d operations sent by %s", r.operations_size(), what);
        MC_CHECK(r.service_name() == kService && r.service_config_id() == kConfig, "flushed report carries service '%s' config '%s'", r.service_name().c_str(), r.service_config_id().c_str());
      }
      for (auto& op : r.operations()) got.push_back(Decode(op));
    }
    flushed_.clear();
    string g;
    for (auto& d : got) { g += mc::strf("%d:", d.id); for (int n : d.chunks) g += mc::strf("%d+", n); g += " "; }
    if (mc::tracing()) mc::trace("   delivered %s", g.c_str());
    log_ += ";" + g;
    auto find = [](const std::vector<Delivery>& v, int chunk) { for (auto& d : v) for (int n : d.chunks) if (n == chunk) return &d; return (const Delivery*)nullptr; };
    for (auto& e : exp) {
      for (int n : e.what.chunks) {
        const Delivery* d = find(got, n);
        if (e.why == AGE && (checks_ & P_TIMING)) MC_CHECK(d, "operation #%d (identity %d, cached %lldus ago, interval %dms) is overdue but not sent by %s", n, e.what.id, (long long)(mc::now_us - e.what.t0), cfg.interval_ms, what);
        if (e.why == BIG && (checks_ & P_LIMITS)) MC_CHECK(d, "identity %d reached %d log entries but is not sent", e.what.id, e.what.logs);
        if (e.why == CAP && (checks_ & P_LIMITS)) MC_CHECK(d, "identity %d is the longest held beyond the capacity of %d but is not sent", e.what.id, cfg.capacity);
        if (e.why == ALL && (checks_ & P_LIMITS)) MC_CHECK(d, "batching of %zu operations dropped identity %d", exp.size(), e.what.id);
      }
    }
    for (auto& e : after) for (int n : e.chunks) {
      const Delivery* d = find(got, n);
      if (checks_ & P_TIMING) MC_CHECK(!d, "operation #%d (identity %d, cached %lldus ago, interval %dms) sent early by %s", n, e.id, (long long)(mc::now_us - e.t0), cfg.interval_ms, what);
      if (checks_ & P_LIMITS) MC_CHECK(!d || exp.empty(), "identity %d sent by %s although a longer-held one had to go", e.id, what);
    }
    if (checks_ & P_LIMITS) {
      MC_CHECK(got.size() <= exp.size() || !absorbed, "%zu operations sent by %s where %zu were due: an operation was split", got.size(), what, exp.size());
      // capacity evictions go oldest first
      size_t k = 0;
      for (auto& e : exp) {
        if (e.why != CAP) continue;
        size_t at = got.size();
        for (size_t i = 0; i < got.size(); ++i) if (!got[i].chunks.empty() && got[i].chunks[0] == e.what.chunks[0]) at = i;
        MC_CHECK(at < got.size() && at >= k, "capacity evictions out of order");
        k = at;
      }
    }
    // What is held now, by observation: accepted and not delivered.
    held = after;
    for (auto& e : held) {
      std::vector<int> keep; int logs = 0;
      for (int n : e.chunks) if (!chunks_[n].delivered) { keep.push_back(n); logs += chunks_[n].logs; }
      e.chunks = keep; e.logs = logs;
    }
    held.erase(std::remove_if(held.begin(), held.end(), [](const Held& e) { return e.chunks.empty(); }), held.end());
    for (auto& e : exp) {
      Held left = e.what; left.chunks.clear();
      for (int n : e.what.chunks) if (!chunks_[n].delivered) left.chunks.push_back(n);
      if (!left.chunks.empty()) held.push_back(left);
    }
    if (checks_ & P_LIMITS) {
      std::set<int> ids; for (auto& e : held) ids.insert(e.id);
      MC_CHECK((int)ids.size() <= std::max(cfg.capacity, 0), "%zu operations held back, capacity %d", ids.size(), cfg.capacity);
    }
    mc::validated();
  }

  int checks_;
  std::vector<Chunk> chunks_;
  std::vector<ReportRequest> flushed_;
  string log_;
};

// ---- scenarios shared by C01, C03, C04 and C05 -----------------------------
inline void ReportStep(ReportRun* r) {
  int iv = r->cfg.interval_ms > 0 ? r->cfg.interval_ms * 1000 : 1000000;
  switch (mc::choose(14, "op")) {
    case 0: r->Report({0}); break;
    case 1: r->Report({1}); break;
    case 2: r->Report({2}); break;
    case 3: r->Advance(iv / 2); break;
    case 4: r->Advance(1); break;
    case 5: r->Advance(iv); break;
    case 6: r->Flush(); break;
    case 7: r->Report({0, 1}); break;
    case 8: r->Report({3, 0, 3}); break;
    case 9: r->Report({2, 0}, 1, 1); break;
    case 10: r->FlushAll(); break;
    case 11: r->Report({1}, 60); break;
    case 12: r->Report({0, 1}, 1, 0, false, 2); break;
    case 13: r->Report({1, 2}, 1, -1, true); break;
  }
}
inline ReportCfg ChooseReportCfg(int n = 6) {
  static const ReportCfg cfgs[] = {{2, 1000}, {1, 1000}, {3, 700}, {2, -1}, {2, 0}, {0, 1000}, {-1, 500}, {3, 1}};
  return cfgs[mc::choose(n, "config")];
}
inline void ReportSequences(int depth, int checks) {
  ReportRun r(ChooseReportCfg(), checks);
  for (int i = 0; i < depth; ++i) { ReportStep(&r); mc::state(r.State()); }
  r.Finish();
}
inline void ReportMerged(int depth, int checks) {
  ReportRun r(ChooseReportCfg(8), checks);
  for (int i = 0; i < depth && r.chunks() < 58; ++i) {
    if (mc::seen(r.State(), i)) { r.Finish(); mc::prune(); }
    ReportStep(&r);
  }
  r.Finish();
}
// Many distinct identities: batch size of flushes and capacity evictions.
inline void ReportBatches(int depth, int checks) {
  static const int caps[] = {10, 11, 9, 20, 21, 25, 30};
  ReportRun r({caps[mc::choose(7, "capacity")], 1000}, checks);
  int next = 10;
  for (int i = 0; i < depth; ++i) {
    std::vector<int> ids;
    switch (mc::choose(9, "op")) {
      case 0: ids = {next++}; break;
      case 1: for (int k = 0; k < 9; ++k) ids.push_back(next++); break;
      case 2: for (int k = 0; k < 10; ++k) ids.push_back(next++); break;
      case 3: for (int k = 0; k < 11; ++k) ids.push_back(next++); break;
      case 4: for (int k = 0; k < 21; ++k) ids.push_back(next++); break;
      case 5: r.Advance(500000); continue;
      case 6: r.Advance(500001); r.Flush(); continue;
      case 7: r.FlushAll(); continue;
      case 8: r.Report({10, 11, 12}); continue;
    }
    if (r.chunks() + ids.size() > 60) break;
    r.Report(ids);
    mc::state(r.State());
  }
  r.Finish();
}
// Intervals of every magnitude, approached to the microsecond (all but the
// exact equality: the cache is given the interval as a double).
inline void ReportIntervals(int depth, int checks) {
  static const int iv[] = {1, 2, 7, 999, 1000, 1001, 1003, 59999, 60000, 3600000, 86400000, 2147484, 2147483647};
  ReportRun r({2, iv[mc::choose(13, "interval")]}, checks);
  const int64_t f = r.cfg.interval_ms * 1000LL;
  r.Report({0});
  for (int i = 0; i < depth; ++i) {
    const int64_t d[] = {f - 1, f + 1, 1, 2, f / 2};
    r.Advance(d[mc::choose(5, "clock")]);
    for (auto& x : r.held) if (mc::now_us - x.t0 == f) mc::prune();
    switch (mc::choose(3, "op")) {
      case 0: r.Report({0}); break;
      case 1: r.Flush(); break;
      case 2: r.Report({1}); break;
    }
    mc::state(r.State());
  }
  r.Finish();
}
// The same operation again and again: hundreds of merges, one report of
// hundreds of operations, operation ids unique, repeated or missing.
inline void ReportRepeat(int depth, int checks) {
  static const ReportCfg cfgs[] = {{2, 1000}, {1, -1}, {300, 60000}};
  static const int counts[] = {2, 31, 64, 99, 100, 101, 129, 200, 257};
  ReportRun r(cfgs[mc::choose(3, "config")], checks);
  IdStyle() = mc::choose(3, "operation ids");
  const int k = counts[mc::choose(9, "count")];
  for (int i = 0; i < depth; ++i) {
    switch (mc::choose(8, "op")) {
      case 0: for (int j = 0; j < k; ++j) r.Report({0}); break;
      case 1: r.Report(std::vector<int>(k, 0)); break;
      case 2: { std::vector<int> v; for (int j = 0; j < k; ++j) v.push_back(j % 3); r.Report(v); break; }
      case 3: { std::vector<int> v; for (int j = 0; j < k; ++j) v.push_back(10 + j); r.Report(v); break; }
      case 4: r.Report({1}); break;
      case 5: r.Advance(r.cfg.interval_ms > 0 ? r.cfg.interval_ms * 500LL : 1000); break;
      case 6: r.Flush(); break;
      case 7: r.Advance(1); for (int j = 0; j < k / 2; ++j) r.Report({j % 2}); break;
    }
    mc::state(r.State());
  }
  r.Finish();
}
// Caches of realistic size with capacity + k identities.
inline void ReportScale(int capacity, int checks) {
  ReportRun r({capacity, 1000}, checks);
  static const int deltas[] = {-1, 0, 1, 13};
  const int n = capacity + deltas[mc::choose(4, "identities")];
  const int how = mc::choose(4, "how"), access = mc::choose(4, "access"), then = mc::choose(6, "then");
  auto id = [](int i) { return 10 + i; };
  for (int i = 0; i < n;) {          // one by one, in groups, or all in one report
    std::vector<int> ids;
    for (int k = how == 0 ? 1 : how == 1 ? 7 : how == 2 ? 10 : n; k > 0 && i < n; --k) ids.push_back(id(i++));
    r.Report(ids);
    r.Advance(7);
  }
  for (int i = 0; i < n; ++i) {
    int k = access == 1 ? i : access == 2 ? n - 1 - i : access == 3 ? i * 7 % n : -1;
    if (k < 0 || (access == 3 && i > n / 2)) break;
    r.Report({id(k)}, 1 + (i % 50 == 3 ? 100 : 0));
    r.Advance(3);
  }
  switch (then) {
    case 0: for (int i = 0; i < n; ++i) r.Report({id(n + i)}); break;
    case 1: r.Advance(1000001); r.Flush(); break;
    case 2: r.Advance(1000001 - n * 5); r.Flush(); break;
    case 3: r.FlushAll(); r.FlushAll(); break;
    case 4: r.Advance(1000001); r.Report({id(0), id(1), id(n)}); break;
    case 5: r.Advance(999999 - n * 10); r.Flush(); r.Report({id(0)}); break;
  }
  mc::state(mc::strf("%d %d %d %d %d", capacity, n, how, access, then));
  r.Finish();
}
// Reports of hundreds or thousands of operations and flushes of as many entries.
inline void ReportBulk(int max, int checks) {
  std::vector<int> lens;
  for (int b : {10, 100, 250, 256, 500, 512, 1000, 1024, 2000, 4096, 10000}) if (b <= max) for (int d = -1; d <= 1; ++d) lens.push_back(b + d);
  const int n = lens[mc::choose(lens.size(), "operations")], caps[] = {n, n - 1, n / 2, 1, 2 * n};
  const int cap = caps[mc::choose(5, "capacity")], how = mc::choose(3, "how"), then = mc::choose(3, "then");
  ReportRun r({cap, 1000}, checks);
  std::vector<int> ids;
  for (int i = 0; i < n; ++i) ids.push_back(10 + i);
  if (how == 0) r.Report(ids);                                                // at once
  if (how == 1) for (int i = 0; i < n; i += 100) r.Report(std::vector<int>(ids.begin() + i, ids.begin() + std::min(n, i + 100)));
  if (how == 2) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(ids[i / 2]); r.Report(v); }      // every identity twice
  if (then == 0) r.FlushAll();
  if (then == 1) { r.Advance(1000001); r.Flush(); }
  if (then == 2) { r.Advance(1000001); r.Report({9}); }
  mc::state(mc::strf("%d %d %d %d", n, cap, how, then));
  r.Finish();
}
// Names of any length that differ only at their end.
inline void ReportLongNames(int depth, int checks) {
  static const int lens[] = {54, 64, 120, 250, 1000, 1020, 4090, 4096, 5000, 65536, 70000};
  const int n = lens[mc::choose(11, "length")];
  ReportRun r({10, 1000}, checks);
  ReportRun::Pad(n);
  for (int i = 0; i < depth; ++i) {
    static const int ids[] = {0, 1, 2, 3, 4, 7};
    r.Report({ids[mc::choose(6, "identity")]});
    mc::state(mc::strf("%d ", n) + r.State());
  }
  r.Finish();
  ReportRun::Pad(0);
}
// Totals only: operations indistinguishable in every respect (same ids, same
// times, same log entries), so only the sums tell whether one was lost.
inline void ReportTotals(int depth) {
  static const ReportCfg cfgs[] = {{2, 1000}, {1, -1}, {1, 0}};
  static const int counts[] = {1, 2, 3, 99, 100, 128, 300};
  const ReportCfg cfg = cfgs[mc::choose(3, "config")];
  auto agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(cfg.capacity, cfg.interval_ms), nullptr);
  std::map<string, int64_t> in, out;
  string log;
  agg->SetFlushCallback([&](const ReportRequest& q) {
    for (auto& op : q.operations()) {
      for (auto& s : op.metric_value_sets()) for (auto& v : s.metric_values()) out[op.operation_name() + "/" + s.metric_name()] += v.int64_value();
      out[op.operation_name() + "/logs"] += op.log_entries_size();
      log += mc::strf(";%d", op.log_entries_size());
    }
  });
  const int logs = mc::choose(3, "log entries"), style = mc::choose(3, "contents");
  auto fill = [&](Operation* op, int id) {
    op->set_operation_name(id ? "b" : "a");
    op->set_consumer_id("project:p");
    if (style) op->set_operation_id("x");
    if (style == 2) { SetTs(op->mutable_start_time(), 5); SetTs(op->mutable_end_time(), 5); }
    AddInt64(op, "m", 1);
    if (style == 1) AddInt64(op, "m", 1);
    for (int j = 0; j < logs; ++j) {
      auto* l = op->add_log_entries();
      if (style) { l->set_text_payload("same"); l->set_insert_id("id"); l->set_name("log"); }
    }
    const string n = op->operation_name() + "/";
    return std::make_pair(n, style == 1 ? 2 : 1);
  };
  auto account = [&](std::pair<string, int> x) { in[x.first + "m"] += x.second; in[x.first + "logs"] += logs; };
  auto check = [&](bool end) {
    for (auto& o : out) MC_CHECK(o.second <= in[o.first], "%s: %lld delivered, %lld accepted", o.first.c_str(), (long long)o.second, (long long)in[o.first]);
    if (end) for (auto& o : in) MC_CHECK(o.second == out[o.first], "%s: %lld accepted, %lld delivered", o.first.c_str(), (long long)o.second, (long long)out[o.first]);
    mc::validated();
  };
  for (int i = 0; i < depth; ++i) {
    int k = mc::choose(18, "op");
    if (k < 14) {        // k % 7: how many; k / 7: in one report or one by one
      ReportRequest q;
      q.set_service_name(kService);
      for (int j = 0; j < counts[k % 7]; ++j) {
        account(fill(q.add_operations(), 0));
        if (k < 7) { MC_CHECK(agg->Report(q).ok(), "report refused"); q.clear_operations(); }
      }
      if (k >= 7) MC_CHECK(agg->Report(q).ok(), "report of %d operations refused", counts[k % 7]);
    } else if (k == 14) {
      ReportRequest q;
      q.set_service_name(kService);
      for (int j = 0; j < 3; ++j) account(fill(q.add_operations(), j % 2));
      MC_CHECK(agg->Report(q).ok(), "report refused");
    } else if (k == 15) mc::advance_us(1000001);
    else if (k == 16) (void)agg->Flush();
    else (void)agg->FlushAll();
    mc::step();
    if (mc::tracing()) mc::trace("op %d: accepted %lld delivered %lld", k, (long long)in["a/m"], (long long)out["a/m"]);
    check(false);
    mc::state(log + mc::strf("|%lld", (long long)in["a/m"]));
  }
  (void)agg->FlushAll();
  check(true);
  mc::outcome(log);
}
// Operations far beyond the log-entry limit, in one merge or from the start.
inline void ReportHugeLogs(int depth, int checks) {
  static const int sizes[] = {0, 1, 99, 100, 128, 255, 256, 257, 999, 1000, 1001, 4097};
  static const ReportCfg cfgs[] = {{2, 1000}, {1, -1}};
  ReportRun r(cfgs[mc::choose(2, "config")], checks);
  for (int i = 0; i < depth; ++i) {
    int k = mc::choose(15, "op");
    if (k < 12) r.Report({0}, sizes[k]);
    else if (k == 12) r.Report({1, 0}, 1000);
    else if (k == 13) { r.Advance(1000001); r.Flush(); }
    else r.Report({1}, 1);
    mc::state(r.State());
  }
  r.Finish();
}
// Log-entry limit: every way of reaching and crossing 100 entries.
inline void ReportLogs(int depth, int checks) {
  static const int sizes[] = {1, 49, 50, 51, 98, 99, 100, 101, 0};
  static const ReportCfg cfgs[] = {{2, 1000}, {1, -1}};
  ReportRun r(cfgs[mc::choose(2, "config")], checks);
  for (int i = 0; i < depth; ++i) {
    int k = mc::choose(20, "op");
    if (k < 9) r.Report({0}, sizes[k]);
    else if (k < 16) r.Report({1}, sizes[k - 9]);
    else if (k == 16) r.Report({0, 0, 1}, 50);
    else if (k == 17) r.Report({0, 1, 0}, 34);
    else if (k == 18) { r.Advance(1000001); r.Flush(); }
    else r.Report({2}, 100);
    mc::state(r.State());
  }
  r.Finish();
}
}  // namespace h
#endif
