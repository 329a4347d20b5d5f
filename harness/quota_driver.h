// Drives a QuotaAggregator through every operation sequence against a model.
// Each quota call is a numbered chunk: bit n of its token amount.
#ifndef VERIF_QUOTA_DRIVER_H_
#define VERIF_QUOTA_DRIVER_H_
#include "common.h"

namespace h {
enum { Q_ONE = 1, Q_CHARGE = 2, Q_TIME = 4, Q_CAP = 8 };

struct QuotaCfg { int capacity, refresh_ms, expire_ms; };

class QuotaRun {
 public:
  enum Mode { NORMAL = 1, BEST_EFFORT = 2 };
  struct Chunk { int id; int mode; };
  struct Entry {
    int id, first; bool in_flight; int64_t last_refresh, inserted;
    int serial; bool positive; std::vector<int> held;
  };
  struct Emit { int id; std::vector<int> chunks; int mode; string why; bool reask; string config; std::vector<string> ranges; int64_t sum; };

  QuotaRun(const QuotaCfg& c, int checks) : cfg(c), checks_(checks) {
    Shape() = 0; IdStyle() = 0; Full() = false;
    agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(c.capacity, c.refresh_ms, c.expire_ms));
    agg->SetFlushCallback([this](const AllocateQuotaRequest& r) { flushed_.push_back(r); });
    if (checks_ & Q_TIME) {
      int want = c.capacity > 0 ? c.refresh_ms : -1;
      MC_CHECK(agg->GetNextFlushInterval() == want, "next flush interval %d, expected %d", agg->GetNextFlushInterval(), want);
    }
  }
  static string Method(int id) { return id == 1 ? "method2" : "method"; }
  static string Consumer(int id) { return id == 2 ? "project:b" : id >= 5 ? mc::strf("project:%d", id) : "project:a"; }
  static std::vector<string> Metrics(int id) {
    if (id == 3) return {"tokens", "bytes"};
    if (id == 4) return {"bytes"};
    return {"tokens"};
  }
  AllocateQuotaRequest Make(int id, int mode) {
    int n = chunks_.size();
    chunks_.push_back({id, mode});
    AllocateQuotaRequest q;
    q.set_service_name(kService);
    auto* op = q.mutable_allocate_operation();
    op->set_operation_id(OpId(n));
    op->set_method_name(Method(id));
    op->set_consumer_id(Consumer(id));
    op->set_quota_mode((QuotaOperation::QuotaMode)mode);
    std::vector<string> ms = Metrics(id);
    if (n % 2) std::reverse(ms.begin(), ms.end());
    for (auto& m : ms) {
      MetricValueSet* s = op->add_quota_metrics();
      s->set_metric_name(m);
      MetricValue* v = s->add_metric_values();
      v->set_int64_value(Amount(n));
      if (n % 4 != 1) SetTs(v->mutable_start_time(), Start(n), n * 3 % 5);
      if (n % 4 != 2) SetTs(v->mutable_end_time(), End(n), n * 2 % 5);
    }
    return q;
  }
  static int64_t Start(int n) { return 1000 + n * 5 % 7 / 2; }
  static int64_t End(int n) { return 2000 + n * 3 % 7 / 2; }
  // Time range of the tokens of several calls.
  static string Range(const std::vector<int>& chunks) {
    std::pair<int64_t, int> lo(1LL << 40, 0), hi(-1, 0);
    for (int n : chunks) {
      if (n % 4 != 1) lo = std::min(lo, std::make_pair(Start(n), n * 3 % 5));
      if (n % 4 != 2) hi = std::max(hi, std::make_pair(End(n), n * 2 % 5));
    }
    return (lo.first < 1LL << 40 ? mc::strf("%lld.%d", (long long)lo.first, lo.second) : "") + ".." + (hi.first >= 0 ? mc::strf("%lld.%d", (long long)hi.first, hi.second) : "");
  }
  static string Range(const MetricValue& v) {
    return (v.has_start_time() ? mc::strf("%lld.%d", (long long)v.start_time().seconds(), v.start_time().nanos()) : "") + ".." + (v.has_end_time() ? mc::strf("%lld.%d", (long long)v.end_time().seconds(), v.end_time().nanos()) : "");
  }
  static AllocateQuotaResponse Response(int serial, bool positive) {
    AllocateQuotaResponse r;
    if (serial == 0) return r;
    if (Full()) { FillAll(&r, serial); r.clear_allocate_errors(); }
    r.set_operation_id(mc::strf("resp-%d", serial));
    if (!positive) {
      typedef ::google::api::servicecontrol::v1::QuotaError E;
      for (int i = 0; i <= Shape() % 2; ++i) {
        auto* e = r.add_allocate_errors();
        e->set_code(Shape() == 0 ? E::RESOURCE_EXHAUSTED : (E::Code)E::Code_descriptor()->value(Shape() / 2 % Codes())->number());
        e->set_subject(mc::strf("s%d %d", serial, i));
      }
    }
    return r;
  }
  // Contents of responses: error code and number of errors.
  static bool& Full() { static bool full; return full; }   // every field set
  static int& Shape() { static int shape; return shape; }
  static int Codes() { return ::google::api::servicecontrol::v1::QuotaError::Code_descriptor()->value_count(); }

  void Call(int id, int mode = BEST_EFFORT) {
    AllocateQuotaRequest q = Make(id, mode);
    int n = chunks_.size() - 1;
    AllocateQuotaResponse resp;
    if (Full()) FillAll(&resp, 1000 + n);
    Status s = agg->Quota(q, &resp);
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus Quota(id %d) #%d -> %s '%s'", (long long)mc::now_us, id, n, Code(s).c_str(), Text(resp).c_str());
    if (checks_ & (Q_ONE | Q_CAP)) MC_CHECK(s.ok(), "quota call gives %s", s.ToString().c_str());
    Expire();
    Entry* e = Find(id);
    string want;
    if (!e) {
      while ((int)entries.size() >= cfg.capacity) Evict();
      entries.push_back({id, n, true, mc::now_us, mc::now_us, 0, true, {}});
      exp_.push_back({id, {n}, mode, "first", false});
    } else {
      if (!e->in_flight && mc::now_us - e->last_refresh >= cfg.refresh_ms * 1000LL) Refresh(e, "refresh");
      if (e->positive) e->held.push_back(n); else never_.insert(n);
      want = Text(Response(e->serial, e->positive));
    }
    string got = Text(resp);
    if (got != want) {
      if (checks_ & Q_ONE) mc::fail("quota call #%d of identity %d answered with '%s', expected '%s'", n, id, got.c_str(), want.c_str());
      if (checks_ & Q_TIME && !e) mc::fail("quota call #%d of identity %d still answered with '%s' after its entry expired", n, id, got.c_str());
      mc::prune();
    }
    Settle("quota call", id);
  }
  void Respond(int id, bool positive) {
    int serial = ++serial_;
    AllocateQuotaRequest q = Make(id, BEST_EFFORT);
    never_.insert((int)chunks_.size() - 1);
    (void)agg->CacheResponse(q, Response(serial, positive));
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus CacheResponse(id %d, %s) serial %d", (long long)mc::now_us, id, positive ? "granted" : "denied", serial);
    Expire();
    Entry* e = Find(id);
    if (e) {
      e->in_flight = false; e->serial = serial; e->positive = positive;
      if (!positive) { for (int n : e->held) never_.insert(n); e->held.clear(); }
    }
    Settle("response", id);
    outstanding_.erase(id);
  }
  void Flush() {
    (void)agg->Flush();
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus Flush", (long long)mc::now_us);
    Expire();
    Settle("flush", -1);
  }
  void FlushAll() {
    (void)agg->FlushAll();
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus FlushAll", (long long)mc::now_us);
    for (auto& e : entries) { for (int n : e.held) never_.insert(n); outstanding_.erase(e.id); }
    entries.clear();
    Settle("flush-all", -1);
  }
  void Advance(int64_t us) { mc::advance_us(us); if (mc::tracing()) mc::trace("clock +%lldus", (long long)us); }

  // Everything still held must come out with the next allocation.
  void Finish() {
    std::vector<int> ids;
    for (auto& e : entries) ids.push_back(e.id);
    if (checks_ & Q_CHARGE) {
      for (int id : ids) { Entry* e = Find(id); if (e && e->in_flight && e->positive) Respond(id, true); }
      Advance(cfg.refresh_ms * 1000LL + 1);
      Flush();
      for (auto& e : entries) MC_CHECK(e.in_flight || e.held.empty(), "model error");
    }
    if (checks_ & Q_CAP) {
      // Probe which identities are held: those whose call sends no fresh allocation.
      int held = 0;
      std::set<int> known; for (auto& c : chunks_) known.insert(c.id);
      for (int id : known) {
        AllocateQuotaResponse resp;
        size_t n = chunks_.size();
        flushed_.clear();
        Status s = agg->Quota(Make(id, BEST_EFFORT), &resp);
        bool fresh = false;
        for (auto& r : flushed_) if (r.allocate_operation().operation_id() == mc::strf("oid-%zu", n)) fresh = true;
        if (s.ok() && !fresh) ++held;
      }
      MC_CHECK(held <= cfg.capacity, "%d identities held, capacity %d", held, cfg.capacity);
      flushed_.clear();
    }
    mc::outcome(log_);
  }

  string State() const {
    string s = mc::strf("%d/%d/%d|", cfg.capacity, cfg.refresh_ms, cfg.expire_ms);
    for (auto& e : entries) {
      int64_t a = std::min<int64_t>(mc::now_us - e.last_refresh, std::max(cfg.expire_ms, cfg.refresh_ms) * 1000LL);
      int64_t b = std::min<int64_t>(mc::now_us - e.inserted, cfg.refresh_ms * 1000LL + 1);
      s += mc::strf("%d,%d,%d%d,%lld,%lld,%d,%d;", e.id, e.in_flight, e.positive, e.serial != 0, (long long)a, (long long)b,
                    (int)std::min<size_t>(e.held.size(), 2), chunks_[e.held.empty() ? e.first : e.held[0]].mode);
    }
    return s;
  }
  size_t chunks() const { return chunks_.size(); }

  QuotaCfg cfg;
  std::vector<Entry> entries;    // oldest insertion first
  std::unique_ptr<QuotaAggregator> agg;

 private:
  Entry* Find(int id) { for (auto& e : entries) if (e.id == id) return &e; return nullptr; }
  void Refresh(Entry* e, const char* why) {
    bool reask = e->held.empty();
    std::vector<int> c = reask ? std::vector<int>{e->first} : e->held;
    int mode = chunks_[c[0]].mode;
    if (!e->positive) mode = NORMAL;
    exp_.push_back({e->id, c, mode, why, reask});
    e->held.clear();
    e->in_flight = true; e->last_refresh = mc::now_us;
  }
  void Expire() {
    std::vector<Entry> old;
    for (size_t i = 0; i < entries.size();)
      if (mc::now_us - entries[i].inserted > cfg.refresh_ms * 1000LL) { old.push_back(entries[i]); entries.erase(entries.begin() + i); } else ++i;
    for (auto& e : old) {
      if (mc::now_us - e.last_refresh >= cfg.expire_ms * 1000LL) {
        for (int n : e.held) never_.insert(n);
        outstanding_.erase(e.id);
        continue;
      }
      e.inserted = mc::now_us;
      if (!e.in_flight && !e.held.empty()) Refresh(&e, "flush");
      entries.push_back(e);
    }
  }
  void Evict() {
    Entry e = entries.front();
    entries.erase(entries.begin());
    outstanding_.erase(e.id);
    if (!e.in_flight && !e.held.empty()) {
      exp_.push_back({e.id, e.held, -1, "eviction", false});
    } else {
      for (int n : e.held) never_.insert(n);   // an allocation is outstanding: not charged again
    }
    evicted_.insert(e.id);
  }
  void Settle(const char* what, int caller) {
    std::vector<Emit> got;
    for (auto& r : flushed_) {
      const auto& op = r.allocate_operation();
      Emit g; g.id = -1; g.mode = op.quota_mode(); g.reask = false;
      std::map<string, int64_t> amount;
      for (auto& s : op.quota_metrics()) for (auto& v : s.metric_values()) { amount[s.metric_name()] += v.int64_value(); g.ranges.push_back(Range(v)); }
      g.config = r.service_name() + "/" + r.service_config_id();
      std::set<string> names; for (auto& a : amount) names.insert(a.first);
      std::set<int> ids; for (auto& c : chunks_) ids.insert(c.id);
      for (int id : ids) {
        std::set<string> m; for (auto& x : Metrics(id)) m.insert(x);
        if (op.method_name() == Method(id) && op.consumer_id() == Consumer(id) && names == m) g.id = id;
      }
      if (g.id < 0) { if (checks_ & Q_CHARGE) mc::fail("allocation for an unknown identity: %s", Text(r).c_str()); mc::prune(); }
      int64_t mask = g.sum = amount.begin()->second;
      for (auto& a : amount) if (a.second != mask) { if (checks_ & Q_CHARGE) mc::fail("allocation amounts differ between metrics requested together: %s", Text(r).c_str()); }
      for (int n = 0; n < (int)chunks_.size() && n < 58; ++n) if (mask >> n & 1) g.chunks.push_back(n);
      if (checks_ & Q_TIME) MC_CHECK(r.service_name() == kService, "allocation carries service '%s'", r.service_name().c_str());
      got.push_back(g);
    }
    flushed_.clear();
    if (mc::tracing()) for (auto& g : got) { string t; for (int n : g.chunks) t += mc::strf("#%d ", n); mc::trace("   allocation id %d mode %d tokens of %s", g.id, g.mode, t.c_str()); }
    for (auto& g : got) { log_ += mc::strf(";%d", g.id); for (int n : g.chunks) log_ += mc::strf("+%d", n); }
    // C10: never two outstanding.
    bool diverged = false;
    for (auto& e : exp_) {
      auto it = std::find_if(got.begin(), got.end(), [&](const Emit& g) { return g.id == e.id; });
      if (it == got.end()) {
        if (e.why == "first" && (checks_ & Q_ONE)) mc::fail("first call of identity %d sends no allocation", e.id);
        if (e.why == "eviction" && (checks_ & Q_CAP)) mc::fail("tokens accumulated by evicted identity %d are lost", e.id);
        if ((e.why == "refresh" || e.why == "flush" || e.why == "first") && (checks_ & Q_TIME)) mc::fail("%s: allocation for identity %d (%s) is due but not sent", what, e.id, e.why.c_str());
        if ((e.why == "flush" || e.why == "refresh") && (checks_ & Q_CHARGE) && !e.reask) mc::fail("tokens accumulated by identity %d are not sent by %s", e.id, what);
        diverged = true;
        continue;
      }
      Emit g = *it;
      got.erase(it);
      int64_t sum = 0;
      for (int n : e.chunks) sum += Amount(n);
      if (chunks_.size() > 58 && g.sum == sum) g.chunks = e.chunks;   // told apart by their total
      if (g.chunks != e.chunks) {
        if (checks_ & Q_CHARGE || (checks_ & Q_CAP && e.why == "eviction")) {
          string a, b; for (int n : g.chunks) a += mc::strf("#%d ", n); for (int n : e.chunks) b += mc::strf("#%d ", n);
          mc::fail("allocation for identity %d charges the tokens of calls %s, expected %s(%s)", e.id, a.c_str(), b.c_str(), e.why.c_str());
        }
        diverged = true;
      }
      if (checks_ & Q_CHARGE && g.chunks == e.chunks) {
        for (auto& t : g.ranges) MC_CHECK(t == Range(e.chunks), "allocation for identity %d (%s) covers the time %s, its calls %s", e.id, e.why.c_str(), t.c_str(), Range(e.chunks).c_str());
        if (e.why != "first" && !e.reask) MC_CHECK(g.config == string(kService) + "/" + kConfig, "accumulated tokens of identity %d sent for service/config '%s'", e.id, g.config.c_str());
      }
      if (checks_ & Q_CHARGE) for (int n : g.chunks) MC_CHECK(!never_.count(n), "tokens of call #%d (identity %d) charged although they were denied or discarded", n, e.id);
      if (e.mode >= 0 && g.mode != e.mode) {
        if (checks_ & Q_TIME) mc::fail("allocation for identity %d (%s) uses mode %d, expected %d", e.id, e.why.c_str(), g.mode, e.mode);
        diverged = true;
      }
      if (e.why != "eviction") {
        if (checks_ & Q_ONE) MC_CHECK(!outstanding_.count(e.id), "allocation for identity %d sent while one is outstanding", e.id);
        outstanding_.insert(e.id);
      }
    }
    exp_.clear();
    for (auto& g : got) {     // not expected at all
      if (checks_ & Q_ONE) MC_CHECK(!outstanding_.count(g.id) || !Find(g.id) || g.id == caller && evicted_.count(g.id), "second allocation for identity %d sent by %s while one is unanswered", g.id, what);
      if (checks_ & Q_TIME) mc::fail("allocation for identity %d sent by %s although none is due", g.id, what);
      if (checks_ & Q_CHARGE && !g.chunks.empty()) {
        Entry* e = Find(g.id);
        for (int n : g.chunks) if (!e || std::find(e->held.begin(), e->held.end(), n) == e->held.end())
          mc::fail("tokens of call #%d (identity %d) charged again by %s", n, g.id, what);
      }
      diverged = true;
    }
    if (diverged) mc::prune();   // another property's business
    mc::validated();
  }

  int checks_;
  int serial_ = 0;
  std::vector<Chunk> chunks_;
  std::vector<Emit> exp_;
  std::set<int> never_, outstanding_, evicted_;
  std::vector<AllocateQuotaRequest> flushed_;
  string log_;
};

inline QuotaCfg ChooseQuotaCfg(int n) {
  static const QuotaCfg cfgs[] = {{3, 1000, 3000}, {4, 500, 1000}, {3, 400, 300}, {5, 100, 600000}, {3, 0, 500}};
  return cfgs[mc::choose(n, "config")];
}
inline void QuotaStep(QuotaRun* r, bool all) {
  int f = r->cfg.refresh_ms > 0 ? r->cfg.refresh_ms * 1000 : 200000;
  switch (mc::choose(all ? 14 : 11, "op")) {
    case 0: r->Call(0); break;
    case 1: r->Respond(0, true); break;
    case 2: r->Respond(0, false); break;
    case 3: r->Advance(f); break;
    case 4: r->Advance(1); break;
    case 5: r->Flush(); break;
    case 6: r->Call(3); break;
    case 7: r->Respond(3, true); break;
    case 8: r->Advance(f / 2); break;
    case 9: r->Call(0, QuotaRun::NORMAL); break;
    case 10: r->FlushAll(); break;
    case 11: r->Call(1); break;
    case 12: r->Respond(3, false); break;
    case 13: r->Advance(r->cfg.expire_ms * 1000LL); break;
  }
}
inline void QuotaSequences(int depth, int checks) {
  QuotaRun r(ChooseQuotaCfg(4), checks);
  for (int i = 0; i < depth; ++i) { QuotaStep(&r, true); mc::state(r.State()); }
  r.Finish();
}
inline void QuotaPrimed(int depth, int checks) {
  QuotaRun r(ChooseQuotaCfg(3), checks);
  r.Call(0);
  switch (mc::choose(3, "prime")) { case 0: r.Respond(0, true); break; case 1: r.Respond(0, false); break; case 2: break; }
  if (mc::choose(2, "accumulate")) { r.Call(0); r.Call(0, QuotaRun::NORMAL); }
  for (int i = 0; i < depth; ++i) { QuotaStep(&r, false); mc::state(r.State()); }
  r.Finish();
}
inline void QuotaMerged(int depth, int checks) {
  QuotaRun r(ChooseQuotaCfg(5), checks);
  for (int i = 0; i < depth && r.chunks() < 56; ++i) {
    if (mc::seen(r.State(), i)) { r.Finish(); mc::prune(); }
    QuotaStep(&r, true);
  }
  r.Finish();
}
// Intervals of every magnitude, approached to the microsecond.  The cache is
// given its timeout as a double: being held for exactly the refresh interval is
// left out unless that is a round value.
inline void QuotaIntervals(int depth, int checks) {
  static const QuotaCfg cfgs[] = {{2, 1, 3}, {2, 7, 1001}, {2, 999, 1000}, {2, 1000, 60000}, {2, 1001, 2017}, {2, 59999, 3600000}, {2, 3600000, 86400000}, {2, 2000000, 2147483647}, {2, 2147483647, 5}, {2, 2147484, 2147485}};
  const int k = mc::choose(10, "config");
  QuotaRun r(cfgs[k], checks);
  const int64_t f = r.cfg.refresh_ms * 1000LL, e = r.cfg.expire_ms * 1000LL;
  r.Call(0);
  switch (mc::choose(3, "prime")) { case 0: r.Respond(0, true); break; case 1: r.Respond(0, false); break; case 2: r.Respond(0, true); r.Call(0); break; }
  for (int i = 0; i < depth; ++i) {
    const int64_t d[] = {f - 1, f, f + 1, e - 1, e, e - f, 1};
    r.Advance(d[mc::choose(7, "clock")]);
    for (auto& x : r.entries) if (mc::now_us - x.inserted == f && k != 3) mc::prune();
    switch (mc::choose(3, "op")) {
      case 0: r.Call(0); break;
      case 1: r.Flush(); break;
      case 2: r.Respond(0, true); break;
    }
    mc::state(r.State());
  }
  r.Finish();
}
// The same call again and again between allocations.
inline void QuotaRepeat(int depth, int checks) {
  static const QuotaCfg cfgs[] = {{3, 1000, 9000}, {1, 60000, 100000}, {2, 1, 100}};
  static const int counts[] = {2, 31, 64, 99, 100, 101, 129, 200, 257};
  QuotaRun r(cfgs[mc::choose(3, "config")], checks);
  IdStyle() = mc::choose(3, "operation ids");
  const int k = counts[mc::choose(9, "count")];
  r.Call(0);
  for (int i = 0; i < depth; ++i) {
    switch (mc::choose(9, "op")) {
      case 0: for (int j = 0; j < k; ++j) r.Call(0); break;
      case 1: r.Respond(0, true); break;
      case 2: r.Respond(0, false); break;
      case 3: for (int j = 0; j < k; ++j) { r.Call(0, j % 2 ? QuotaRun::NORMAL : QuotaRun::BEST_EFFORT); r.Advance(1); } break;
      case 4: for (int j = 0; j < k; ++j) r.Respond(0, true); break;
      case 5: r.Advance(r.cfg.refresh_ms * 1000LL + 1); r.Flush(); break;
      case 6: r.Advance(r.cfg.refresh_ms * 1000LL); r.Call(0); break;
      case 7: for (int j = 0; j < k; ++j) r.Flush(); break;
      case 8: r.Advance(r.cfg.refresh_ms * 500LL); r.Call(0); break;
    }
    mc::state(r.State());
  }
  r.Finish();
}
// Amounts of every size and sign, metrics named once, twice or not at all: what
// is requested is held until it is sent, and sent once.
inline void QuotaAmounts(int depth) {
  static const int64_t amounts[] = {1, 0, -1, 5, 1LL << 31, 1LL << 40, -(1LL << 40), 1LL << 59};
  static const std::vector<string> lists[] = {{"tokens"}, {"tokens", "tokens"}, {"tokens", "bytes"}, {"bytes", "tokens", "bytes"}, {}};
  const std::vector<string> metrics = lists[mc::choose(5, "metrics")];
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(2, 1000, 9000));
  typedef std::map<string, int64_t> Sum;
  std::vector<Sum> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& q) {
    Sum s;
    for (auto& m : q.allocate_operation().quota_metrics()) for (auto& v : m.metric_values()) s[m.metric_name()] += v.int64_value();
    sent.push_back(s);
  });
  Sum first, held;
  int calls = 0, waiting = 0;
  string log;
  auto make = [&](int64_t a) {
    AllocateQuotaRequest q;
    q.set_service_name(kService);
    auto* op = q.mutable_allocate_operation();
    op->set_operation_id("x"); op->set_method_name("m"); op->set_consumer_id("c");
    op->set_quota_mode(QuotaOperation::BEST_EFFORT);
    for (auto& n : metrics) {
      MetricValueSet* s = op->add_quota_metrics();
      s->set_metric_name(n);
      s->add_metric_values()->set_int64_value(a);
    }
    return q;
  };
  auto text = [](const Sum& s) { string t; for (auto& kv : s) t += mc::strf("%s:%lld ", kv.first.c_str(), (long long)kv.second); return t; };
  auto settle = [&]() {
    mc::step();
    for (auto& s : sent) {
      log += ";" + text(s);
      const Sum& want = waiting ? held : first;
      MC_CHECK(s == want, "allocation of %s sent, expected %s(%s)", text(s).c_str(), text(want).c_str(), waiting ? "accumulated" : "the original request");
      held.clear(); waiting = 0;
    }
    sent.clear();
    mc::validated();
  };
  auto call = [&](int64_t a) {
    AllocateQuotaResponse resp;
    MC_CHECK(agg->Quota(make(a), &resp).ok(), "quota call refused");
    mc::trace("call of %lld, %zu sent", (long long)a, sent.size());
    if (++calls == 1) { for (auto& n : metrics) first[n] += a; }
    settle();
    if (calls > 1) { ++waiting; for (auto& n : metrics) held[n] += a; }
  };
  auto respond = [&]() { AllocateQuotaResponse r; r.set_operation_id("ok"); (void)agg->CacheResponse(make(1), r); settle(); };
  call(amounts[mc::choose(8, "first amount")]);
  respond();
  for (int i = 0; i < depth; ++i) {
    int k = mc::choose(11, "op");
    if (k < 8) call(amounts[k]);
    else if (k == 8) { mc::advance_us(1000001); (void)agg->Flush(); mc::trace("flush, %zu sent", sent.size()); settle(); }
    else if (k == 9) respond();
    else mc::advance_us(1000000);
    mc::state(text(first) + "/" + text(held) + log);
  }
  respond();
  mc::advance_us(1000001);
  (void)agg->Flush();
  settle();
  MC_CHECK(waiting == 0, "accumulated tokens %sare not sent", text(held).c_str());
  mc::outcome(log);
}
// More identities than the cache holds.
// Time ranges of accumulated tokens.
inline void QuotaTimes(int calls) {
  using ::google::protobuf::Timestamp;
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(2, 500, 10000));
  std::vector<AllocateQuotaRequest> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  const int nt = calls <= 2 ? kFarTimes : 5;
  bool hs = false, he = false;
  Timestamp s, e;
  string d;
  for (int i = 0; i <= calls; ++i) {
    AllocateQuotaRequest q;
    q.set_service_name(kService);
    auto* op = q.mutable_allocate_operation();
    op->set_operation_id("x"); op->set_method_name("m"); op->set_consumer_id("c");
    auto* m = op->add_quota_metrics();
    m->set_metric_name("tokens");
    auto* v = m->add_metric_values();
    v->set_int64_value(1);
    Timestamp t;
    if (i && FarTime(mc::choose(nt, "start"), &t)) { *v->mutable_start_time() = t; if (!hs || TimeLess(t, s)) s = t; hs = true; }
    if (i && FarTime(mc::choose(nt, "end"), &t)) { *v->mutable_end_time() = t; if (!he || TimeLess(e, t)) e = t; he = true; }
    AllocateQuotaResponse resp;
    (void)agg->Quota(q, &resp);
    if (i) d += " [" + Text(*v) + "]";
    if (i == 0) { if (sent.size() != 1) mc::prune(); (void)agg->CacheResponse(sent[0], AllocateQuotaResponse()); sent.clear(); }
    mc::step();
  }
  if (!sent.empty()) mc::prune();
  mc::advance_ms(600);
  (void)agg->Flush();
  if (sent.size() != 1) mc::prune();        // C12's business
  const MetricValue& v = sent[0].allocate_operation().quota_metrics(0).metric_values(0);
  MetricValue want;
  want.set_int64_value(calls);
  if (hs) *want.mutable_start_time() = s;
  if (he) *want.mutable_end_time() = e;
  mc::trace("calls%s give [%s]", d.c_str(), Text(v).c_str());
  MC_CHECK(Text(v) == Text(want), "tokens of the calls%s are sent as [%s], expected [%s]", d.c_str(), Text(v).c_str(), Text(want).c_str());
  mc::validated();
  mc::outcome(Text(want));
  mc::state(d);
}
inline void QuotaCapacity(int depth, int checks) {
  static const QuotaCfg cfgs[] = {{1, 1000, 3000}, {2, 1000, 3000}, {2, 100, 200}, {3, 1000, 600000}};
  QuotaRun r(cfgs[mc::choose(4, "config")], checks);
  int f = r.cfg.refresh_ms * 1000;
  for (int i = 0; i < depth; ++i) {
    int k = mc::choose(11, "op");
    static const int ids[] = {0, 1, 2, 5};
    if (k < 4) r.Call(ids[k]);
    else if (k < 7) r.Respond(ids[k - 4], true);
    else if (k == 7) r.Respond(0, false);
    else if (k == 8) r.Advance(f);
    else if (k == 9) r.Advance(1);
    else r.Flush();
    mc::state(r.State());
  }
  r.Finish();
}
// Caches of realistic size with capacity + k identities.
inline void QuotaScale(int capacity, int checks) {
  QuotaRun r({capacity, 1000, 5000}, checks);
  static const int deltas[] = {-1, 0, 1, 13};
  const int n = capacity + deltas[mc::choose(4, "identities")];
  const int answer = mc::choose(4, "answers"), access = mc::choose(4, "access"), then = mc::choose(6, "then");
  auto id = [](int i) { return 5 + i; };
  for (int i = 0; i < n; ++i) {
    r.Call(id(i));
    if (answer < 3) r.Respond(id(i), answer == 0 || (answer == 1 && i % 3));
    r.Advance(7);
  }
  for (int i = 0; i < n; ++i) {
    int k = access == 1 ? i : access == 2 ? n - 1 - i : access == 3 ? i * 7 % n : -1;
    if (k < 0 || (access == 3 && i > n / 2)) break;
    r.Call(id(k), i % 2 ? QuotaRun::NORMAL : QuotaRun::BEST_EFFORT);
    r.Advance(3);
  }
  switch (then) {
    case 0: for (int i = 0; i < n; ++i) { r.Call(id(n + i)); r.Respond(id(n + i), true); } break;
    case 1: r.Advance(1000001); r.Flush(); break;
    case 2: r.Advance(1000001 - n * 5); r.Flush(); for (int i = 0; i < n; ++i) r.Respond(id(i), true); r.Advance(1000001); r.Flush(); break;
    case 3: r.Advance(5000001); r.Flush(); for (int i = 0; i < n; ++i) r.Call(id(i)); break;
    case 4: r.Advance(1); r.Flush(); r.FlushAll(); break;
    case 5: for (int i = 0; i < n; i += 2) r.Respond(id(i), i % 4 == 0); r.Advance(1000001); for (int i = 0; i < n; ++i) r.Call(id(i)); break;
  }
  mc::state(mc::strf("%d %d %d %d %d", capacity, n, answer, access, then));
  r.Finish();
}
// Every error code, one or two errors per denial, every quota mode.
inline void QuotaContents(int depth, int checks) {
  int shape = ChooseMany(2 * QuotaRun::Codes());
  QuotaRun r({3, 1000, 9000}, checks);
  QuotaRun::Shape() = shape;
  QuotaRun::Full() = shape < 4 && mc::choose(2, "full") == 1;
  static const int modes[] = {QuotaRun::BEST_EFFORT, QuotaRun::NORMAL, QuotaOperation::CHECK_ONLY};
  int mode = shape == 0 ? modes[mc::choose(3, "mode")] : modes[0];
  r.Call(0, mode);
  r.Respond(0, mc::choose(2, "prime") == 0);
  for (int i = 0; i < depth; ++i) {
    switch (mc::choose(6, "op")) {
      case 0: r.Call(0, mode); break;
      case 1: r.Respond(0, true); break;
      case 2: r.Respond(0, false); break;
      case 3: r.Advance(1000000); break;
      case 4: r.Advance(500000); break;
      case 5: r.Flush(); break;
    }
    mc::state(r.State() + mc::strf("/%d/%d", shape, mode));
  }
  r.Finish();
}
}  // namespace h
#endif
