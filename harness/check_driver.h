// Drives a CheckAggregator through every operation sequence against a model of
// what a caller may rely on.  Each check is a numbered chunk (bit n of its
// metric amount, log entry "n"), each server response has a serial number.
#ifndef VERIF_CHECK_DRIVER_H_
#define VERIF_CHECK_DRIVER_H_
#include "common.h"

namespace h {
enum { P_ANSWER = 16, P_REFRESH = 32, P_USAGE = 64, P_CHECKROUTE = 128, P_STAMP = 256 };

struct CheckCfg { int capacity, flush_ms, expire_ms; };

class CheckRun {
 public:
  struct Chunk { int id; bool aggregated, delivered; };
  struct Entry { int id; int serial; bool pass; int64_t last_check, last_use; std::vector<int> pending; };

  CheckRun(const CheckCfg& c, int checks) : cfg(c), checks_(checks) {
    Shape() = 0; IdStyle() = 0; Full() = false; SameId() = false; Bare() = 0;
    CheckAggregationOptions o(c.capacity, c.flush_ms, c.expire_ms);
    agg = CreateCheckAggregator(kService, kConfig, o, nullptr);
    agg->SetFlushCallback([this](const CheckRequest& r) { flushed_.push_back(r); });
    expire_us_ = o.expiration_ms * 1000LL;
    flush_us_ = c.flush_ms * 1000LL;
    MC_CHECK(!(checks & P_ANSWER) || o.expiration_ms > c.flush_ms, "expiration %d not longer than the flush interval", o.expiration_ms);
  }

  static string Consumer(int id) { return id >= 5 ? mc::strf("project:%d", id) : id == 1 ? "project:b" : "project:a"; }
  CheckRequest Make(int id, int importance = 0) {
    int n = chunks_.size();
    chunks_.push_back({id, false, false});
    CheckRequest r;
    r.set_service_name(kService);
    Operation* op = r.mutable_operation();
    op->set_operation_id(OpId(n));
    op->set_operation_name(id == 3 ? "op2" : "op");
    op->set_consumer_id(Consumer(id));
    if (id == 2) (*op->mutable_labels())["k"] = "v";
    SetTs(op->mutable_start_time(), 1000 - n);
    SetTs(op->mutable_end_time(), 1000 + n);
    op->set_importance((Operation::Importance)importance);
    if (!(Bare() & 1)) AddInt64(op, id == 4 ? "q" : "m", Amount(n));
    if (Bare() & 2) return r;
    auto* l = op->add_log_entries();
    l->set_text_payload(mc::strf("%d", n));
    l->set_insert_id(IdStyle() == 0 ? l->text_payload() : "same");
    return r;
  }

  // variant: 0 normal, 1 high importance, 2 wrong service, 3 no operation, 4 importance 2
  void Check(int id, int variant = 0) {
    CheckRequest r = Make(id, variant == 1 ? 1 : variant == 4 ? 2 : 0);
    int n = chunks_.size() - 1;
    if (variant == 2) r.set_service_name("svc2");
    if (variant == 3) r.clear_operation();
    CheckResponse resp;
    if (Full()) FillAll(&resp, 1000 + n); else resp.set_operation_id("untouched");
    Status s = agg->Check(r, &resp);
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus Check(id %d, variant %d) #%d -> %s %s", (long long)mc::now_us, id, variant, n, Code(s).c_str(), Text(resp).c_str());
    log_ += mc::strf(";c%d=%d", id, (int)s.code());
    if (variant == 2 || variant == 3) {
      if (checks_ & P_CHECKROUTE) MC_CHECK(s.code() == StatusCode::kInvalidArgument, "invalid check (variant %d) gives %s", variant, s.ToString().c_str());
      return Settle();
    }
    if (variant == 1 || variant == 4 || cfg.capacity <= 0) {
      if (checks_ & P_CHECKROUTE) MC_CHECK(s.code() == StatusCode::kNotFound, "check to be handed back (importance %d, capacity %d) gives %s", (int)r.operation().importance(), cfg.capacity, s.ToString().c_str());
      return Settle();
    }
    if (s.code() != StatusCode::kNotFound && !s.ok()) {
      if (checks_ & (P_CHECKROUTE | P_ANSWER)) mc::fail("valid check gives %s", s.ToString().c_str());
      mc::prune();
    }
    Expire();
    Entry* e = Find(id);
    if (!e) {
      if (s.ok()) {
        if (checks_ & P_ANSWER) mc::fail("check #%d of identity %d answered from cache although no response is held for it", n, id);
        mc::prune();
      }
      return Settle();
    }
    bool due = mc::now_us - e->last_check >= flush_us_;
    Use(e);
    e = Find(id);
    if (due == s.ok()) {
      if (checks_ & (P_ANSWER | P_REFRESH))
        mc::fail("check #%d of identity %d, %lldus after the last response or refresh (interval %dms, %s response): %s", n, id, (long long)(mc::now_us - e->last_check), cfg.flush_ms, e->pass ? "passing" : "failing", s.ok() ? "answered from cache although a refresh is due" : "sent to the server although the cached response is fresh");
      mc::prune();
    }
    if (s.ok()) {
      if (checks_ & P_ANSWER) MC_CHECK(Text(resp) == Text(Response(e->serial, e->pass, id)), "check #%d of identity %d answered with %s, the held response is %s", n, id, Text(resp).c_str(), Text(Response(e->serial, e->pass, id)).c_str());
    } else {
      e->last_check = mc::now_us;
    }
    if (e->pass) { e->pending.push_back(n); chunks_[n].aggregated = true; }
    Settle();
  }

  static CheckResponse Response(int serial, bool pass, int id) {
    CheckResponse r;
    if (Full()) { FillAll(&r, serial); r.clear_check_errors(); }
    r.set_operation_id(SameId() ? "resp" : mc::strf("resp-%d", serial));
    r.set_service_config_id(mc::strf("cfg-%d", serial));
    if (!pass) {
      typedef ::google::api::servicecontrol::v1::CheckError E;
      for (int i = 0; i <= (Shape() ? Shape() % 2 : id % 4); ++i) {
        auto* e = r.add_check_errors();
        e->set_code(Shape() == 0 ? E::PERMISSION_DENIED : (E::Code)E::Code_descriptor()->value(Shape() / 2 % Codes())->number());
        e->set_detail(mc::strf("denied %d %d", serial, i));
      }
    }
    return r;
  }
  // Contents of responses: error code and number of errors.
  static bool& SameId() { static bool same; return same; } // responses differ in the configuration id alone
  static int& Bare() { static int bare; return bare; }     // bit 0: checks without metrics, bit 1: without log entries
  static bool& Full() { static bool full; return full; }   // every field set
  static int& Shape() { static int shape; return shape; }
  static int Codes() { return ::google::api::servicecontrol::v1::CheckError::Code_descriptor()->value_count(); }

  void Respond(int id, bool pass, int importance = 0) {
    int serial = ++serial_;
    CheckRequest r = Make(id, importance);
    (void)agg->CacheResponse(r, Response(serial, pass, id));
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus CacheResponse(id %d, %s) serial %d", (long long)mc::now_us, id, pass ? "pass" : "fail", serial);
    if (cfg.capacity > 0) {
      Expire();
      Entry* e = Find(id);
      if (e) {
        Use(e); e = Find(id);
        e->serial = serial; e->pass = pass; e->last_check = mc::now_us;
      } else {
        while ((int)entries.size() >= cfg.capacity) Drop(0);
        entries.push_back({id, serial, pass, mc::now_us, mc::now_us, {}});
      }
    }
    Settle();
  }
  void Flush() {
    (void)agg->Flush();
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus Flush", (long long)mc::now_us);
    Expire();
    Settle();
  }
  void FlushAll() {
    (void)agg->FlushAll();
    mc::step();
    if (mc::tracing()) mc::trace("t=%lldus FlushAll", (long long)mc::now_us);
    while (!entries.empty()) Drop(0);
    Settle();
  }
  void Advance(int64_t us) { mc::advance_us(us); if (mc::tracing()) mc::trace("clock +%lldus", (long long)us); }

  void Finish() {
    FlushAll();
    if (checks_ & P_USAGE)
      for (size_t i = 0; i < chunks_.size(); ++i)
        MC_CHECK(!chunks_[i].aggregated || chunks_[i].delivered, "usage of check #%zu (identity %d) was accumulated but never flushed", i, chunks_[i].id);
    if (checks_ & P_ANSWER) {   // nothing survives a flush-all
      for (int id = 0; id < 5; ++id) {
        CheckResponse resp;
        MC_CHECK(!agg->Check(Make(id), &resp).ok(), "identity %d is answered from cache after a flush-all", id);
      }
    }
    mc::outcome(log_);
  }

  string State() const {
    string s = mc::strf("%d/%d/%d|", cfg.capacity, cfg.flush_ms, cfg.expire_ms);
    for (auto& e : entries) {
      int64_t idle = mc::now_us - e.last_use, age = std::min<int64_t>(mc::now_us - e.last_check, flush_us_);
      if (idle > expire_us_) idle = expire_us_ + 1;
      s += mc::strf("%d,%d,%lld,%lld,%d;", e.id, e.pass, (long long)age, (long long)idle, (int)std::min<size_t>(e.pending.size(), 2));
    }
    return s;
  }
  size_t chunks() const { return chunks_.size(); }

  CheckCfg cfg;
  std::vector<Entry> entries;     // least recently used first
  std::unique_ptr<CheckAggregator> agg;

 private:
  Entry* Find(int id) { for (auto& e : entries) if (e.id == id) return &e; return nullptr; }
  void Use(Entry* e) {
    Entry c = *e;
    entries.erase(entries.begin() + (e - entries.data()));
    c.last_use = mc::now_us;
    entries.push_back(c);
  }
  void Drop(size_t i) { due_.push_back(entries[i]); entries.erase(entries.begin() + i); }
  void Expire() {
    for (size_t i = 0; i < entries.size();)
      if (mc::now_us - entries[i].last_use > expire_us_) Drop(i); else ++i;
  }
  void Settle() {
    for (auto& r : flushed_) {
      if (mc::tracing()) mc::trace("   flushed %s", Text(r).c_str());
      if (checks_ & P_STAMP) MC_CHECK(r.service_name() == kService && r.service_config_id() == kConfig, "flushed check carries service '%s' config '%s'", r.service_name().c_str(), r.service_config_id().c_str());
      if (!(checks_ & P_USAGE)) continue;
      MC_CHECK(r.has_operation(), "check without an operation flushed");
      const Operation& op = r.operation();
      int64_t mask = 0, want = 0;
      string metric;
      for (auto& s : op.metric_value_sets()) for (auto& v : s.metric_values()) { mask += v.int64_value(); metric = s.metric_name(); }
      std::set<int> seen;
      std::vector<int> list;
      for (auto& l : op.log_entries()) list.push_back(atoi(l.text_payload().c_str()));
      if (Bare() == 2) for (int n = 0; n < 62; ++n) if (mask >> n & 1) list.push_back(n);
      if (Bare() == 3) {        // only the time range tells
        const int last = op.end_time().seconds() - 1000;
        for (auto* v : {&due_, &entries}) for (auto& e : *v) if (!e.pending.empty() && e.pending.back() == last) list = e.pending;
        MC_CHECK(!list.empty(), "flushed usage stands for no accumulated check: %s", Text(op).c_str());
        MC_CHECK(op.start_time().seconds() == 1000 - last, "time range of the flushed usage: %s", Text(op).c_str());
      }
      for (int n : list) {
        MC_CHECK(n >= 0 && n < (int)chunks_.size() && seen.insert(n).second, "log entry of check #%d flushed twice or unknown", n);
        Chunk& c = chunks_[n];
        MC_CHECK(c.aggregated, "check #%d (identity %d) was not answered by a passing cached response but is flushed as usage", n, c.id);
        MC_CHECK(!c.delivered, "usage of check #%d (identity %d) flushed twice", n, c.id);
        c.delivered = true;
        want += Amount(n);
        const string name = c.id == 3 ? "op2" : "op", consumer = Consumer(c.id), lab = c.id == 2 ? "k=v," : "", m = Bare() & 1 ? "" : c.id == 4 ? "q" : "m";
        MC_CHECK(op.operation_name() == name && op.consumer_id() == consumer && LabelKey(op.labels()) == lab && metric == m, "usage of check #%d credited to another identity: %s", n, Text(op).c_str());
      }
      MC_CHECK(!seen.empty() && (Bare() & 1 ? mask == 0 : mask == want), "flushed usage amounts differ from the accumulated checks: %s", Text(op).c_str());
    }
    flushed_.clear();
    if (checks_ & P_USAGE) {
      for (auto& e : due_) for (int n : e.pending)
        MC_CHECK(chunks_[n].delivered, "entry of identity %d went away without flushing check #%d", e.id, n);
      for (auto& e : entries) for (int n : e.pending)
        if (chunks_[n].delivered) mc::fail("check #%d flushed while its entry is still held", n);
    }
    due_.clear();
    mc::validated();
  }

  int checks_;
  int64_t expire_us_, flush_us_;
  int serial_ = 0;
  std::vector<Chunk> chunks_;
  std::vector<Entry> due_;
  std::vector<CheckRequest> flushed_;
  string log_;
};

inline CheckCfg ChooseCheckCfg(int n) {
  static const CheckCfg cfgs[] = {{2, 500, 1000}, {1, 500, 2000}, {2, 0, 400}, {0, 500, 1000}, {3, 300, 300}, {2, 1000, 100}, {2, -1, 700}, {-1, 500, 1000}};
  return cfgs[mc::choose(n, "config")];
}
inline void CheckStep(CheckRun* r, bool routes) {
  int f = r->cfg.flush_ms > 0 ? r->cfg.flush_ms * 1000 : 250000;
  switch (mc::choose(routes ? 17 : 12, "op")) {
    case 0: r->Check(0); break;
    case 1: r->Respond(0, true); break;
    case 2: r->Respond(0, false); break;
    case 3: r->Check(1); break;
    case 4: r->Respond(1, true); break;
    case 5: r->Advance(f); break;
    case 6: r->Advance(f / 2); break;
    case 7: r->Advance(1); break;
    case 8: r->Flush(); break;
    case 9: r->Respond(2, true); break;
    case 10: r->Check(2); break;
    case 11: r->FlushAll(); break;
    case 12: r->Check(0, 1); break;
    case 13: r->Check(0, 2); break;
    case 14: r->Check(0, 3); break;
    case 15: r->Check(1, 4); break;
    case 16: r->Respond(1, false, 1); break;
  }
}
inline void CheckSequences(int depth, int checks, bool routes) {
  CheckRun r(ChooseCheckCfg(6), checks);
  for (int i = 0; i < depth; ++i) { CheckStep(&r, routes); mc::state(r.State()); }
  r.Finish();
}
inline void CheckMerged(int depth, int checks, bool routes) {
  CheckRun r(ChooseCheckCfg(8), checks);
  for (int i = 0; i < depth && r.chunks() < 58; ++i) {
    if (mc::seen(r.State(), i)) { r.Finish(); mc::prune(); }
    CheckStep(&r, routes);
  }
  r.Finish();
}
// A cached response first, then every continuation: reaches deep behaviour cheaply.
inline void CheckPrimed(int depth, int checks, bool routes) {
  static const CheckCfg cfgs[] = {{2, 500, 1000}, {2, 1000, 3000}, {3, 0, 400}, {1, 400, 800}};
  CheckRun r(cfgs[mc::choose(4, "config")], checks);
  r.Respond(0, mc::choose(2, "pass") == 0);
  if (mc::choose(2, "second")) r.Respond(1, true);
  for (int i = 0; i < depth; ++i) { CheckStep(&r, routes); mc::state(r.State()); }
  r.Finish();
}
// Intervals of every magnitude, approached to the microsecond.  The timeout is
// given to the cache in seconds, as a double: being idle for exactly the
// expiration time is left out.
inline void CheckIntervals(int depth, int checks) {
  static const CheckCfg cfgs[] = {{2, 1, 2}, {2, 1, 3}, {2, 7, 1001}, {2, 999, 1003}, {2, 1000, 60000}, {2, 1001, 2017}, {2, 59999, 3600000}, {2, 3600000, 86400000}, {2, 2000000, 2147483647}, {2, 2147483646, 5}, {2, 500, 1000}, {2, 2147484, 2147485}};
  CheckRun r(cfgs[mc::choose(12, "config")], checks);
  const int64_t f = r.cfg.flush_ms * 1000LL, e = std::max(r.cfg.flush_ms + 1, r.cfg.expire_ms) * 1000LL;
  r.Respond(0, mc::choose(2, "pass") == 0);
  for (int i = 0; i < depth; ++i) {
    const int64_t d[] = {f - 1, f, e - 1, e + 1, 1, f / 2};
    r.Advance(d[mc::choose(6, "clock")]);
    for (auto& x : r.entries) if (mc::now_us - x.last_use == e) mc::prune();
    switch (mc::choose(3, "op")) {
      case 0: r.Check(0); break;
      case 1: r.Flush(); break;
      case 2: r.Respond(0, i % 2); break;
    }
    mc::state(r.State());
  }
  r.Finish();
}
// The same check again and again within one cached response.
inline void CheckRepeat(int depth, int checks) {
  static const CheckCfg cfgs[] = {{2, 500, 1000}, {1, 3600000, 7200000}, {2, 1, 100}};
  static const int counts[] = {2, 31, 64, 99, 100, 101, 129, 200, 257};
  CheckRun r(cfgs[mc::choose(3, "config")], checks);
  IdStyle() = mc::choose(3, "operation ids");
  const int k = counts[mc::choose(9, "count")];
  r.Respond(0, true);
  for (int i = 0; i < depth; ++i) {
    switch (mc::choose(8, "op")) {
      case 0: for (int j = 0; j < k; ++j) r.Check(0); break;
      case 1: for (int j = 0; j < k; ++j) r.Respond(0, j % 2 || i == 0); break;
      case 2: for (int j = 0; j < k; ++j) { r.Check(0); r.Advance(1); } break;
      case 3: r.Respond(1, true); for (int j = 0; j < k; ++j) r.Check(j % 2); break;
      case 4: for (int j = 0; j < k; ++j) r.Flush(); break;
      case 5: r.Advance(r.cfg.flush_ms * 1000LL); r.Check(0); break;
      case 6: r.Advance(r.cfg.flush_ms * 500LL); r.Check(0); break;
      case 7: r.Respond(0, true); break;
    }
    mc::state(r.State());
  }
  r.Finish();
}
// Checks without metrics, without log entries, without both.
inline void CheckBare(int depth, int checks) {
  CheckRun r(ChooseCheckCfg(3), checks);
  CheckRun::Bare() = 1 + mc::choose(3, "without");
  r.Respond(0, true);
  for (int i = 0; i < depth; ++i) {
    switch (mc::choose(10, "op")) {
      case 0: r.Check(0); break;
      case 1: r.Respond(0, true); break;
      case 2: r.Respond(0, false); break;
      case 3: r.Respond(2, true); break;
      case 4: r.Check(2); break;
      case 5: r.Advance(r.cfg.flush_ms ? r.cfg.flush_ms * 1000LL : 250000); break;
      case 6: r.Advance(r.cfg.expire_ms * 1000LL + 1); break;
      case 7: r.Flush(); break;
      case 8: r.FlushAll(); break;
      case 9: if (r.chunks() > 40) mc::prune(); for (int k = 0; k < 10; ++k) r.Check(0); break;
    }
    mc::state(r.State());
  }
  r.Finish();
}
// Caches of realistic size with capacity + k identities.
inline void CheckScale(int capacity, int checks) {
  CheckRun r({capacity, 500, 3000}, checks);
  static const int deltas[] = {-1, 0, 1, 13};
  const int n = capacity + deltas[mc::choose(4, "identities")];
  const int verdict = mc::choose(3, "responses"), access = mc::choose(5, "access"), then = mc::choose(7, "then");
  auto id = [](int i) { return 5 + i; };
  for (int i = 0; i < n; ++i) { r.Check(id(i)); r.Respond(id(i), verdict == 0 || (verdict == 1 && i % 3)); r.Advance(7); }
  for (int i = 0; i < n; ++i) {
    int k = access == 1 ? i : access == 2 ? n - 1 - i : access == 3 ? i * 7 % n : access == 4 ? i / 2 : -1;
    if (k < 0 || (access == 3 && i > n / 2)) break;
    r.Check(id(k));
    r.Advance(3);
  }
  switch (then) {
    case 0: for (int i = 0; i < n; ++i) { r.Respond(id(n + i), true); r.Check(id(n + i)); } break;
    case 1: r.Advance(500001); for (int i = 0; i < n; ++i) { r.Check(id(i)); r.Check(id(i)); } break;
    case 2: r.Advance(3000000 - n * 4 + 1); r.Flush(); for (int i = 0; i < n; ++i) r.Check(id(i)); break;
    case 3: r.Advance(3000001); r.Flush(); break;
    case 4: r.Advance(1); r.Flush(); r.FlushAll(); break;
    case 5: for (int i = 0; i < n; i += 2) r.Respond(id(i), i % 4 == 0); for (int i = 0; i < n; ++i) r.Check(id(i)); break;
    case 6: r.Advance(400000); for (int i = 0; i < n; ++i) r.Check(id(i % (1 + capacity / 2))); r.Advance(2700003); r.Flush(); break;
  }
  mc::state(r.State());
  r.Finish();
}
// Every error code, one or two errors per failing response.
inline void CheckContents(int depth, int checks) {
  int shape = ChooseMany(2 * CheckRun::Codes());
  CheckRun r({2, 500, 2000}, checks);
  CheckRun::Shape() = shape;
  const int contents = shape < 4 ? mc::choose(3, "contents") : 0;
  CheckRun::Full() = contents == 1;
  CheckRun::SameId() = contents == 2;
  r.Respond(0, false);
  for (int i = 0; i < depth; ++i) {
    switch (mc::choose(6, "op")) {
      case 0: r.Check(0); break;
      case 1: r.Respond(0, true); break;
      case 2: r.Respond(0, false); break;
      case 3: r.Advance(500000); break;
      case 4: r.Advance(250000); break;
      case 5: r.Flush(); break;
    }
    mc::state(r.State() + mc::strf("/%d", shape));
  }
  r.Finish();
}
}  // namespace h
#endif
