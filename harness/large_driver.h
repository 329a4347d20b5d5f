// Caches of the default size and beyond, with a model that costs the same for
// every size: identities by last use, one pending sum each.
#ifndef VERIF_LARGE_DRIVER_H_
#define VERIF_LARGE_DRIVER_H_
#include <list>
#include <unordered_map>

#include "common.h"

namespace h {

// Held identities, the next one to go first: in order of last use (checks) or
// of arrival (reports, quota).
class UseOrder {
 public:
  bool Has(int id) const { return at_.count(id) > 0; }
  void Use(int id) { Drop(id); list_.push_back(id); at_[id] = std::prev(list_.end()); }
  void Drop(int id) { auto i = at_.find(id); if (i != at_.end()) { list_.erase(i->second); at_.erase(i); } }
  int Oldest() const { return list_.front(); }
  int Size() const { return at_.size(); }
  const std::list<int>& Ids() const { return list_; }
 private:
  std::list<int> list_;
  std::unordered_map<int, std::list<int>::iterator> at_;
};

inline int LargeSizes(int max, std::vector<int>* v) {
  for (int b : {500, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536}) if (b <= max) v->push_back(b);
  return v->size();
}
inline string LargeName(int id) { return mc::strf("project:%d", id); }
inline int LargeId(const string& consumer) { return atoi(consumer.c_str() + 8); }

// What is sent for one identity per step.
struct LargeSent {
  std::map<int, std::pair<int, int64_t>> now;          // requests and sum of each identity
  void Add(int id, int64_t v) { now[id].first++; now[id].second += v; }
  // Exactly the given amounts are sent.
  void Expect(const std::map<int, int64_t>& want, const string& where) {
    for (auto& w : want) {
      auto i = now.find(w.first);
      MC_CHECK(i != now.end(), "%s: nothing sent for identity %d holding %lld", where.c_str(), w.first, (long long)w.second);
      MC_CHECK(i->second.first == 1 && i->second.second == w.second, "%s: %d requests with %lld in all sent for identity %d holding %lld", where.c_str(), i->second.first, (long long)i->second.second, w.first, (long long)w.second);
    }
    for (auto& n : now) MC_CHECK(want.count(n.first), "%s: identity %d sent although nothing of it was due", where.c_str(), n.first);
    now.clear();
  }
};

template <class V> int64_t LargeAmount(const V& op) {
  int64_t n = 0;
  for (auto& s : op.metric_value_sets()) for (auto& v : s.metric_values()) n += v.int64_value();
  return n;
}

// How identities beyond a first round of all of them are visited.
inline std::vector<int> LargeVisits(int n, int how) {
  std::vector<int> v;
  if (how == 1) for (int i = 0; i < n; ++i) v.push_back(i);
  if (how == 2) for (int i = n - 1; i >= 0; --i) v.push_back(i);
  if (how == 3) for (int i = 0; i < n / 2; ++i) v.push_back((int)(i * 7LL % n));
  if (how == 4) for (int i = 0; i < 300; ++i) v.push_back(n / 2);
  return v;
}

inline void LargeReport(int max) {
  std::vector<int> sizes;
  LargeSizes(max, &sizes);
  static const int deltas[] = {-1, 0, 1, 300};
  const int cap = sizes[mc::choose(sizes.size(), "capacity")], n = cap + deltas[mc::choose(4, "identities")], visit = mc::choose(5, "visits"), then = mc::choose(4, "then");
  auto agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(cap, 1000), nullptr);
  LargeSent sent;
  agg->SetFlushCallback([&](const ReportRequest& q) {
    MC_CHECK(q.service_name() == kService && q.service_config_id() == kConfig, "sent as %s of %s", q.service_config_id().c_str(), q.service_name().c_str());
    for (auto& op : q.operations()) sent.Add(LargeId(op.consumer_id()), LargeAmount(op));
  });
  UseOrder held;
  std::unordered_map<int, int64_t> sum;
  auto call = [&](int id, int64_t v) {
    ReportRequest q;
    q.set_service_name(kService);
    Operation* op = q.add_operations();
    op->set_operation_name("op");
    op->set_consumer_id(LargeName(id));
    AddInt64(op, "m", v);
    MC_CHECK(agg->Report(q).ok(), "report of identity %d refused", id);
    std::map<int, int64_t> want;
    if (!held.Has(id) && held.Size() == cap) { const int out = held.Oldest(); want[out] = sum[out]; sum.erase(out); held.Drop(out); }
    if (!held.Has(id)) held.Use(id);
    sum[id] += v;
    sent.Expect(want, mc::strf("report of identity %d, %d of %d held", id, held.Size(), cap));
    mc::step();
  };
  auto all = [&](const char* how) {
    std::map<int, int64_t> want;
    for (int id : held.Ids()) want[id] = sum[id];
    sent.Expect(want, how);
    held = UseOrder();
    sum.clear();
  };
  for (int i = 0; i < n; ++i) call(i, i + 1);
  for (int i : LargeVisits(n, visit)) call(i, 3);
  mc::advance_us(999999);
  (void)agg->Flush();
  sent.Expect({}, "flush before the interval");
  if (then == 0) { mc::advance_us(2); (void)agg->Flush(); all("flush after the interval"); }
  if (then == 1) { (void)agg->FlushAll(); all("flush of everything"); }
  if (then == 2) { for (int i = 0; i < cap / 2; ++i) call(n + i, 5); (void)agg->FlushAll(); all("flush of everything"); }
  if (then == 3) { mc::advance_us(2); (void)agg->Flush(); all("flush after the interval"); for (int i = 0; i < n; ++i) call(i, 9); (void)agg->FlushAll(); all("flush of everything"); }
  mc::validated();
  mc::state(mc::strf("%d %d %d %d", cap, n, visit, then));
  mc::outcome(mc::strf("%d %d", cap, then));
}

inline void LargeCheck(int max) {
  std::vector<int> sizes;
  LargeSizes(max, &sizes);
  static const int deltas[] = {-1, 0, 1, 300};
  const int cap = sizes[mc::choose(sizes.size(), "capacity")], n = cap + deltas[mc::choose(4, "identities")], visit = mc::choose(5, "visits"), then = mc::choose(4, "then");
  auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(cap, 5000, 9000), nullptr);
  LargeSent sent;
  agg->SetFlushCallback([&](const CheckRequest& q) {
    MC_CHECK(q.service_name() == kService && q.service_config_id() == kConfig, "sent as %s of %s", q.service_config_id().c_str(), q.service_name().c_str());
    sent.Add(LargeId(q.operation().consumer_id()), LargeAmount(q.operation()));
  });
  UseOrder held;
  std::unordered_map<int, int64_t> sum;
  auto denied = [](int id) { return id % 5 == 4; };
  auto make = [&](int id, int64_t v) {
    CheckRequest q;
    q.set_service_name(kService);
    Operation* op = q.mutable_operation();
    op->set_operation_name("op");
    op->set_consumer_id(LargeName(id));
    AddInt64(op, "m", v);
    return q;
  };
  auto answer = [&](int id) {
    CheckResponse r;
    r.set_operation_id(LargeName(id));
    if (denied(id)) r.add_check_errors()->set_detail("no");
    return r;
  };
  auto call = [&](int id, int64_t v) {
    CheckResponse r;
    const CheckRequest q = make(id, v);
    const bool hit = agg->Check(q, &r).ok();
    MC_CHECK(hit == held.Has(id), "check of identity %d: %s, %d of %d held", id, hit ? "answered although not held" : "not answered although held", held.Size(), cap);
    std::map<int, int64_t> want;
    if (hit) {
      MC_CHECK(Text(r) == Text(answer(id)), "check of identity %d answered with %s", id, Text(r).c_str());
      if (!denied(id)) sum[id] += v;
    } else {
      (void)agg->CacheResponse(q, answer(id));
      if (held.Size() == cap) { const int out = held.Oldest(); if (sum.count(out)) want[out] = sum[out]; sum.erase(out); held.Drop(out); }
    }
    held.Use(id);
    sent.Expect(want, mc::strf("check of identity %d, %d of %d held", id, held.Size(), cap));
    mc::step();
  };
  auto all = [&](const char* how) {
    std::map<int, int64_t> want(sum.begin(), sum.end());
    sent.Expect(want, how);
    held = UseOrder();
    sum.clear();
  };
  for (int i = 0; i < n; ++i) { call(i, i + 1); if (i % 3 == 0) call(i, i + 2); }
  for (int i : LargeVisits(n, visit)) call(i, 3);
  if (then == 0) { mc::advance_us(9000001); (void)agg->Flush(); all("flush after the expiration"); for (int i = 0; i < n; i += 7) call(i, 4); }
  if (then == 1) { (void)agg->FlushAll(); all("flush of everything"); }
  if (then == 2) { for (int i = 0; i < cap / 2; ++i) call(n + i, 5); mc::advance_us(4999999); (void)agg->Flush(); sent.Expect({}, "flush before the expiration"); (void)agg->FlushAll(); all("flush of everything"); }
  if (then == 3) { mc::advance_us(4999999); for (int i = std::max(0, n - cap); i < n; ++i) if (held.Has(i)) call(i, 6); (void)agg->FlushAll(); all("flush of everything"); }
  mc::validated();
  mc::state(mc::strf("%d %d %d %d", cap, n, visit, then));
  mc::outcome(mc::strf("%d %d", cap, then));
}

inline void LargeQuota(int max) {
  std::vector<int> sizes;
  LargeSizes(max, &sizes);
  static const int deltas[] = {-1, 0, 1, 300};
  const int cap = sizes[mc::choose(sizes.size(), "capacity")], n = cap + deltas[mc::choose(4, "identities")], visit = mc::choose(5, "visits"), then = mc::choose(4, "then");
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(cap, 5000, 60000));
  LargeSent sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& q) {
    MC_CHECK(q.service_name() == kService, "sent as %s", q.service_name().c_str());
    int64_t v = 0;
    for (auto& s : q.allocate_operation().quota_metrics()) for (auto& m : s.metric_values()) v += m.int64_value();
    sent.Add(LargeId(q.allocate_operation().consumer_id()), v);
  });
  UseOrder held;
  std::unordered_map<int, int64_t> sum;
  std::set<int> answered;
  auto silent = [](int id) { return id % 7 == 6; };   // answered late
  auto denied = [](int id) { return id % 5 == 4; };
  auto make = [&](int id, int64_t v) {
    AllocateQuotaRequest q;
    q.set_service_name(kService);
    auto* op = q.mutable_allocate_operation();
    op->set_method_name("m");
    op->set_consumer_id(LargeName(id));
    op->set_quota_mode(QuotaOperation::BEST_EFFORT);
    MetricValueSet* s = op->add_quota_metrics();
    s->set_metric_name("tokens");
    s->add_metric_values()->set_int64_value(v);
    return q;
  };
  auto response = [&](int id) {
    AllocateQuotaResponse r;
    r.set_operation_id(LargeName(id));
    if (denied(id)) r.add_allocate_errors()->set_description("no");
    return r;
  };
  auto respond = [&](int id) {
    (void)agg->CacheResponse(make(id, 0), response(id));
    if (held.Has(id)) { answered.insert(id); if (denied(id)) sum.erase(id); }
    sent.Expect({}, mc::strf("answer for identity %d", id));
  };
  auto call = [&](int id, int64_t v) {
    AllocateQuotaResponse r;
    MC_CHECK(agg->Quota(make(id, v), &r).ok(), "quota call of identity %d refused, %d of %d held", id, held.Size(), cap);
    std::map<int, int64_t> want;
    const bool known = held.Has(id);
    MC_CHECK(Text(r) == (known && answered.count(id) ? Text(response(id)) : ""), "quota call of identity %d (%s) answered with '%s', %d of %d held", id, known ? "held" : "new", Text(r).c_str(), held.Size(), cap);
    if (!known) {
      if (held.Size() == cap) { const int out = held.Oldest(); if (sum.count(out) && answered.count(out)) want[out] = sum[out]; sum.erase(out); answered.erase(out); held.Drop(out); }
      want[id] = v;
    } else if (!answered.count(id) || !denied(id)) {
      sum[id] += v;
    }
    if (!known) held.Use(id);
    sent.Expect(want, mc::strf("quota call of identity %d, %d of %d held", id, held.Size(), cap));
    mc::step();
    if (!known && !silent(id)) respond(id);
  };
  for (int i = 0; i < n; ++i) { call(i, i + 1); if (i % 3 == 0) call(i, i + 2); }
  for (int i : LargeVisits(n, visit)) call(i, 3);
  if (then == 0) for (int i = n - 1; i >= 0; i -= 3) respond(i);
  if (then == 2) for (int i = 0; i < cap / 2; ++i) call(n + i, 5);
  if (then == 3) {
    // Every held token that can be sent goes out at the refresh, once.
    mc::advance_us(5000001);
    std::map<int, int64_t> want;
    for (auto& s : sum) if (answered.count(s.first)) want[s.first] = s.second;
    (void)agg->Flush();
    sent.Expect(want, "flush after the refresh interval");
    for (auto& w : want) sum.erase(w.first);
    // All are still held.
    for (int id : std::vector<int>(held.Ids().begin(), held.Ids().end())) if (want.count(id) || !answered.count(id)) call(id, 2);
  }
  if (then == 1) {
    mc::advance_us(60000001);
    (void)agg->Flush();
    sent.now.clear();
    held = UseOrder(); sum.clear(); answered.clear();
    for (int i = 0; i < n; ++i) call(i, 9);
  }
  mc::validated();
  mc::state(mc::strf("%d %d %d %d", cap, n, visit, then));
  mc::outcome(mc::strf("%d %d", cap, then));
}

}  // namespace h
#endif  // VERIF_LARGE_DRIVER_H_
