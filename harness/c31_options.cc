// C31: every option reaches exactly the cache it is meant for. Clients are
// created in every way, with one option (or none) set to another value, alone
// or next to another client, and each of their limits is measured from outside:
// what is still held after more entries than fit, and what happens one
// microsecond before and after each interval.
#include <climits>

#include "common.h"
#include "include/service_control_client.h"
#include "src/service_control_client_factory_impl.h"
using namespace h;

struct Opt { int check_cap, check_flush, check_expire, quota_cap, quota_refresh, quota_expire, report_cap, report_flush; };
static const Opt kDefaults = {10000, 500, 1000, 10000, 1000, 600000, 10000, 1000};
static const Opt kDistinct = {3, 700, 1900, 4, 900, 7000, 5, 1100};
static int* At(Opt* o, int axis) { int* p[] = {&o->check_cap, &o->check_flush, &o->check_expire, &o->quota_cap, &o->quota_refresh, &o->quota_expire, &o->report_cap, &o->report_flush}; return p[axis]; }
static const char* kAxis[] = {"check entries", "check flush interval", "check expiration", "quota entries", "quota refresh interval", "quota expiration", "report entries", "report flush interval"};
static string Show(const Opt& o) { return mc::strf("check(%d,%d,%d) quota(%d,%d,%d) report(%d,%d)", o.check_cap, o.check_flush, o.check_expire, o.quota_cap, o.quota_refresh, o.quota_expire, o.report_cap, o.report_flush); }

struct Timer : PeriodicTimer { void Stop() override {} };

// One client with its own transports; answers arrive at once.
struct Site {
  string service, config, tag;
  Opt opt;
  std::vector<CheckRequest> checks;
  std::vector<AllocateQuotaRequest> quotas;
  std::vector<ReportRequest> reports;
  std::vector<int> timers;
  std::function<void()> tick;
  int serial = 0;
  bool answer = true;                                  // answer at all

  // way 0: constructors, 1: constructors and the factory, 2: the two argument quota options (where they fit), 3: default constructed, 4: default constructed parts
  Site(const string& t, int way, const Opt& o, bool timer, std::shared_ptr<MetricKindMap> kinds, bool drop) : service("svc-" + t), config("cfg-" + t), tag(t), opt(o) {
    // The options object is gone (and its memory overwritten) before the client is used.
    std::unique_ptr<ServiceControlClientOptions> p;
    if (way == 3) p.reset(new ServiceControlClientOptions());
    else if (way == 4) p.reset(new ServiceControlClientOptions(CheckAggregationOptions(), QuotaAggregationOptions(), ReportAggregationOptions()));
    else p.reset(new ServiceControlClientOptions(CheckAggregationOptions(o.check_cap, o.check_flush, o.check_expire),
                                                 way == 2 && o.quota_expire == 600000 ? QuotaAggregationOptions(o.quota_cap, o.quota_refresh) : QuotaAggregationOptions(o.quota_cap, o.quota_refresh, o.quota_expire),
                                                 ReportAggregationOptions(o.report_cap, o.report_flush)));
    if (way != 3 && way != 4) opt.check_expire = std::max(o.check_expire, o.check_flush + 1);
    p->metric_kinds = kinds;
    p->check_transport = [this](const CheckRequest& r, CheckResponse* resp, TransportDoneFunc done) {
      checks.push_back(r);
      resp->set_operation_id("answer " + tag);
      if (answer) done(OkStatus());
    };
    p->quota_transport = [this](const AllocateQuotaRequest& r, AllocateQuotaResponse* resp, TransportDoneFunc done) {
      quotas.push_back(r);
      resp->set_operation_id("answer " + tag);
      resp->add_allocate_errors()->set_description("denied");
      if (answer) done(OkStatus());
    };
    p->report_transport = [this](const ReportRequest& r, ReportResponse*, TransportDoneFunc done) { reports.push_back(r); if (answer) done(OkStatus()); };
    if (timer) p->periodic_timer = [this](int ms, std::function<void()> f) { timers.push_back(ms); tick = f; return std::unique_ptr<PeriodicTimer>(new Timer); };
    string s = service, c = config;
    if (way == 1) { ServiceControlClientFactoryImpl f; const ServiceControlClientFactory& base = f; client = base.CreateClient(s, c, *p); }
    else client = CreateServiceControlClient(s, c, *p);
    if (drop) {
      p->check_transport = nullptr; p->quota_transport = nullptr; p->report_transport = nullptr; p->periodic_timer = nullptr; p->metric_kinds.reset();
      p->quota_options.num_entries = 1; p->quota_options.refresh_interval_ms = 1; p->quota_options.expiration_interval_ms = 1;
      s.assign("overwritten"); c.assign("overwritten");
      p.reset();
    }
  }
  // Returns the answer, or "sent" when a request was sent for it.
  string Check(int id, int64_t amount = 1) {
    CheckRequest r;
    r.set_service_name(service);
    auto* op = r.mutable_operation();
    op->set_operation_id(mc::strf("%d", ++serial)); op->set_operation_name(mc::strf("op%d", id)); op->set_consumer_id("project:p");
    AddInt64(op, "gauge", amount);
    const size_t n = checks.size();
    CheckResponse resp;
    client->Check(r, &resp, [](const Status&) {});
    mc::step();
    return checks.size() > n ? "sent" : resp.operation_id();
  }
  string Quota(int id) {
    AllocateQuotaRequest r;
    r.set_service_name(service);
    auto* op = r.mutable_allocate_operation();
    op->set_operation_id(mc::strf("%d", ++serial)); op->set_method_name(mc::strf("op%d", id)); op->set_consumer_id("project:p");
    auto* s = op->add_quota_metrics();
    s->set_metric_name("tokens"); s->add_metric_values()->set_int64_value(1);
    AllocateQuotaResponse resp;
    client->Quota(r, &resp, [](const Status&) {});
    mc::step();
    return resp.operation_id();
  }
  void Report(int id, int64_t amount = 1) {
    ReportRequest r;
    r.set_service_name(service);
    auto* op = r.add_operations();
    op->set_operation_id(mc::strf("%d", ++serial)); op->set_operation_name(mc::strf("op%d", id)); op->set_consumer_id("project:p");
    AddInt64(op, "gauge", amount);
    ReportResponse resp;
    client->Report(r, &resp, [](const Status&) {});
    mc::step();
  }
  std::unique_ptr<ServiceControlClient> client;        // goes first
  size_t Operations() const { size_t n = 0; for (auto& r : reports) n += r.operations_size(); return n; }
};

// Something else happens on another client before every measured step.
static void Disturb(Site* other, int id) {
  if (!other) return;
  other->Check(id); other->Quota(id); other->Report(id);
}

static void Probe(int what, Site* a, Site* b, const string& how) {
  const Opt& o = a->opt;
  switch (what) {
    case 0: {                                          // check entries
      if (o.check_flush <= 0) break;                   // always due
      const int n = std::max(0, o.check_cap) + 2;
      for (int i = 0; i < n; ++i) { a->Check(i); if (i < 20) Disturb(b, i); }
      int held = 0;
      a->answer = false;
      for (int i = n - 1; i >= 0; --i) {
        string r = a->Check(i);
        if (r == "sent") break;
        MC_CHECK(r == "answer " + a->tag, "%s: check answered '%s'", how.c_str(), r.c_str());
        ++held;
      }
      MC_CHECK(held == std::max(0, o.check_cap), "%s: %d check responses held, configured %d", how.c_str(), held, o.check_cap);
      break;
    }
    case 1: {                                          // check flush interval
      if (o.check_cap <= 0) break;
      a->Check(1);
      Disturb(b, 1);
      if (o.check_flush > 0) {
        mc::advance_us(o.check_flush * 1000LL - 1);
        Disturb(b, 1);
        MC_CHECK(a->Check(1) == "answer " + a->tag, "%s: refreshed 1us before the check flush interval of %dms", how.c_str(), o.check_flush);
        mc::advance_us(1);
      }
      MC_CHECK(a->Check(1) == "sent", "%s: not refreshed at the check flush interval of %dms", how.c_str(), o.check_flush);
      break;
    }
    case 2: {                                          // check expiration
      if (o.check_cap <= 0) break;
      a->Check(1);
      if (a->Check(1, 7) == "sent") break;             // always due: nothing is accumulated
      Disturb(b, 1);
      const size_t n = a->checks.size();
      mc::advance_us(o.check_expire * 1000LL - 1);
      a->tick();
      MC_CHECK(a->checks.size() == n, "%s: usage sent 1us before the check expiration of %dms", how.c_str(), o.check_expire);
      mc::advance_us(2);
      if (b && b->tick) b->tick();
      a->tick();
      MC_CHECK(a->checks.size() == n + 1, "%s: %zu requests with usage sent 1us after the check expiration of %dms", how.c_str(), a->checks.size() - n, o.check_expire);
      MC_CHECK(a->checks.back().service_name() == a->service && a->checks.back().service_config_id() == a->config, "%s: usage sent as %s", how.c_str(), Text(a->checks.back()).c_str());
      break;
    }
    case 3: {                                          // quota entries
      const int n = std::max(0, o.quota_cap) + 2;
      for (int i = 0; i < n; ++i) { a->Quota(i); if (i < 20) Disturb(b, i); }
      int held = 0;
      if (o.quota_cap <= 0) { MC_CHECK((int)a->quotas.size() == n, "%s: %zu quota requests sent for %d calls", how.c_str(), a->quotas.size(), n); break; }
      for (int i = n - 1; i >= 0; --i) {
        string r = a->Quota(i);
        if (r.empty()) break;                          // a first call
        MC_CHECK(r == "answer " + a->tag, "%s: quota call answered '%s'", how.c_str(), r.c_str());
        ++held;
      }
      MC_CHECK(held == std::max(0, o.quota_cap), "%s: %d quota answers held, configured %d", how.c_str(), held, o.quota_cap);
      break;
    }
    case 4: {                                          // quota refresh interval
      if (o.quota_cap <= 0) break;
      a->Quota(1);
      Disturb(b, 1);
      size_t n = a->quotas.size();
      if (o.quota_refresh > 0) {
        mc::advance_us(o.quota_refresh * 1000LL - 1);
        a->Quota(1);
        Disturb(b, 1);
        MC_CHECK(a->quotas.size() == n, "%s: allocation sent 1us before the quota refresh interval of %dms", how.c_str(), o.quota_refresh);
        mc::advance_us(1);
      }
      a->Quota(1);
      MC_CHECK(a->quotas.size() == n + 1, "%s: %zu allocations sent at the quota refresh interval of %dms", how.c_str(), a->quotas.size() - n, o.quota_refresh);
      break;
    }
    case 5: {                                          // quota expiration
      if (o.quota_cap <= 0 || o.quota_refresh >= o.quota_expire) break;
      a->Quota(1);
      Disturb(b, 1);
      // A sweep looks at an entry once per refresh interval.
      const bool early = mc::choose(2, "look before");
      mc::advance_us(o.quota_expire * 1000LL - early);
      if (b && b->tick) b->tick();
      a->tick();
      const string r = a->Quota(1);
      MC_CHECK(r == (early ? "answer " + a->tag : ""), "%s: answered '%s' %s the quota expiration of %dms", how.c_str(), r.c_str(), early ? "1us before" : "at", o.quota_expire);
      break;
    }
    case 6: {                                          // report entries
      const int n = std::max(0, o.report_cap) + 3;
      for (int i = 0; i < n; ++i) { a->Report(i); if (i < 20) Disturb(b, i); }
      const int held = n - (int)a->Operations();
      MC_CHECK(held == std::max(0, o.report_cap), "%s: %d operations held, configured %d", how.c_str(), held, o.report_cap);
      a->client.reset();
      MC_CHECK((int)a->Operations() == n, "%s: %zu operations sent, reported %d", how.c_str(), a->Operations(), n);
      break;
    }
    case 7: {                                          // report flush interval
      if (o.report_cap <= 0) break;
      a->Report(1);
      Disturb(b, 1);
      if (o.report_flush > 0) {
        mc::advance_us(o.report_flush * 1000LL - 1);
        if (b && b->tick) b->tick();
        a->tick();
        MC_CHECK(a->Operations() == 0, "%s: sent 1us before the report flush interval of %dms", how.c_str(), o.report_flush);
      }
      mc::advance_us(2);
      a->tick();
      MC_CHECK(a->Operations() == 1, "%s: not sent 1us after the report flush interval of %dms", how.c_str(), o.report_flush);
      MC_CHECK(a->reports[0].service_name() == a->service && a->reports[0].service_config_id() == a->config, "%s: sent as %s", how.c_str(), Text(a->reports[0]).c_str());
      break;
    }
    case 8: {                                          // the timer
      int64_t want = INT_MAX;
      if (o.check_cap > 0) want = std::min<int64_t>(want, o.check_expire);
      if (o.quota_cap > 0) want = std::min<int64_t>(want, o.quota_refresh);
      if (o.report_cap > 0) want = std::min<int64_t>(want, o.report_flush);
      MC_CHECK(want == INT_MAX || want == 0 ? a->timers.empty() : a->timers.size() == 1 && a->timers[0] == want, "%s: %zu timers, of %d", how.c_str(), a->timers.size(), a->timers.empty() ? 0 : a->timers[0]);
      break;
    }
  }
}

static const int kProbes = 9;

// One option differs from a base; clients made in any way.
static void Axes(int level) {
  const int way = mc::choose(5, "way"), axis = way < 3 ? mc::choose(9, "option") - 1 : -1;
  Opt o = way >= 3 || mc::choose(2, "base") ? kDefaults : kDistinct;
  if (axis >= 0) {
    static const int caps[] = {0, 1, 2, 17, -1, 9999}, times[] = {0, 1, 250, 650, 1000, 1001, 5000, 7200000, 2000000000, 3600000, 86400000, INT_MAX};
    const bool cap = axis == 0 || axis == 3 || axis == 6;
    const int v = cap ? caps[mc::choose(level ? 6 : 5, "value")] : times[mc::choose(level ? 12 : 9, "value")];
    if ((axis == 5 && v == 0) || (axis == 1 && v == INT_MAX)) { mc::prune(); return; }
    *At(&o, axis) = v;
  }
  const int other = mc::choose(3, "other client"), probe = mc::choose(kProbes, "probe");
  const bool drop = mc::choose(2, "options dropped");
  const int entries = probe == 0 ? o.check_cap : probe == 3 ? o.quota_cap : probe == 6 ? o.report_cap : 0;
  if (entries > 100 && !level && (other || !drop || (axis >= 0 && axis != probe))) { mc::prune(); return; }
  std::unique_ptr<Site> b;
  if (other == 1) b.reset(new Site("b", 0, {2, 300, 400, 2, 300, 1500, 2, 300}, true, nullptr, true));
  Site a("a", way, o, true, nullptr, drop);
  if (other == 2) b.reset(new Site("b", 3, kDefaults, true, nullptr, true));
  if (!a.tick) a.tick = [&a] {};
  const string how = mc::strf("%s, %s changed, made in way %d, other client %d", Show(o).c_str(), axis < 0 ? "nothing" : kAxis[axis], way, other);
  mc::trace("%s: probe %d", how.c_str(), probe);
  if (a.timers.empty() && (probe == 2 || probe == 5 || probe == 7)) { mc::prune(); return; }   // nothing that ticks
  Probe(probe, &a, b.get(), how);
  mc::validated();
  mc::state(mc::strf("%d %d %s %d %d %d", way, axis, Show(o).c_str(), other, probe, drop));
  mc::outcome(mc::strf("%d %zu %zu %zu", probe, a.checks.size(), a.quotas.size(), a.reports.size()));
}

// Metric kinds: for the client they were given to, in reports and checks, and
// for no other one.
static void Kinds(int) {
  const int kinds_a = mc::choose(4, "kinds of this"), kinds_b = mc::choose(4, "kinds of the other"), way = mc::choose(2, "way");
  const bool first = mc::choose(2, "other first"), drop = mc::choose(2, "options dropped"), check = mc::choose(2, "check");
  auto kinds = [](int k) {
    std::shared_ptr<MetricKindMap> m;
    if (k) m.reset(new MetricKindMap);
    if (k == 2) (*m)["gauge"] = MetricDescriptor::GAUGE;
    if (k == 3) (*m)["gauge"] = MetricDescriptor::CUMULATIVE;
    return m;
  };
  std::unique_ptr<Site> b;
  const Opt o = {10, 60000, 90000, 10, 1000, 9000, 10, 1000};
  if (first) b.reset(new Site("b", way, o, false, kinds(kinds_b), true));
  Site a("a", way, o, false, kinds(kinds_a), drop);
  if (!first) b.reset(new Site("b", way, o, false, kinds(kinds_b), true));
  Site* s[2] = {&a, b.get()};
  for (int i = 0; i < 2; ++i) if (check) s[i]->Check(1);
  for (int n = 1; n <= 3; ++n) for (int i = 0; i < 2; ++i) if (check) s[i]->Check(1, n * (i + 1)); else s[i]->Report(1, n * (i + 1));
  a.client.reset(); b->client.reset();
  for (int i = 0; i < 2; ++i) {
    const Operation* op = nullptr;
    if (check) { MC_CHECK(s[i]->checks.size() == 2, "%zu checks", s[i]->checks.size()); op = &s[i]->checks[1].operation(); }
    else { MC_CHECK(s[i]->Operations() == 1, "%zu operations", s[i]->Operations()); op = &s[i]->reports[0].operations(0); }
    const int k = i ? kinds_b : kinds_a;
    const int64_t got = op->metric_value_sets(0).metric_values(0).int64_value(), want = (k >= 2 ? 3 : 6) * (i + 1);
    MC_CHECK(got == want, "%s of a client with kinds %d next to one with %d: value %lld, expected %lld", check ? "usage of checks" : "report", k, i ? kinds_a : kinds_b, (long long)got, (long long)want);
  }
  mc::validated();
  mc::state(mc::strf("%d %d %d %d %d %d", kinds_a, kinds_b, way, first, drop, check));
  mc::outcome(mc::strf("%d %d", kinds_a, kinds_b));
}

// All pairs of values for the two intervals of the check cache.
static void Expiry(int level) {
  static const int v[] = {0, 1, 2, 10, 500, 501, 1000, 1001, 100000};
  const int flush = v[mc::choose(9, "flush")], expire = v[mc::choose(9, "expiration")], probe = 1 + mc::choose(2, "probe");
  Opt o = {4, flush, expire, 0, 1000, 9000, 0, 1000};
  Site a("a", mc::choose(2, "way"), o, true, nullptr, true);
  mc::trace("%s -> %d", Show(o).c_str(), a.opt.check_expire);
  MC_CHECK(a.timers.size() == 1 && a.timers[0] == a.opt.check_expire, "timer of %d for an expiration of %d", a.timers.empty() ? 0 : a.timers[0], a.opt.check_expire);
  Probe(probe, &a, nullptr, Show(o));
  mc::validated();
  mc::state(mc::strf("%d %d %d", flush, expire, probe));
  mc::outcome(mc::strf("%zu", a.checks.size()));
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C31", {
    {"axes", Axes, {0}, {0, 1}, "values", false, "each option set to each value, in every way to make a client, alone or next to another, all limits measured"},
    {"kinds", Kinds, {0}, {0}, "full", false, "metric kinds of two clients"},
    {"expiry", Expiry, {0}, {0}, "full", false, "check flush interval against expiration"},
  });
}
