// A ServiceControlClient under the controlled scheduler.
#ifndef VERIF_SCHED_CLIENT_H_
#define VERIF_SCHED_CLIENT_H_
#include "include/service_control_client.h"
#include "sched_common.h"

namespace h {
enum Kind { CHECK = 0, QUOTA = 1, REPORT = 2 };
static const char* const kKinds[] = {"check", "quota", "report"};
enum Mode { KEEP, INLINE_OK, INLINE_ERROR };

// A request a transport got and has not completed.
struct Kept { int kind, n; std::function<void(bool ok)> complete; };

struct SCall { int kind, id, done; Status status; string op; CheckResponse check; AllocateQuotaResponse quota; ReportResponse report; };

class SClient {
 public:
  struct Timer : PeriodicTimer {
    SClient* w;
    explicit Timer(SClient* x) : w(x) {}
    // With `joining`, Stop() waits for a running tick, as a timer thread would.
    void Stop() override {
      sched::Ignore g;
      ++w->stops;
      w->stopped = true;
      if (w->joining) sched::wait_until([this] { return w->ticking == 0; }, "timer tick to end");
    }
  };

  SClient(int check_cap, int quota_cap, int report_cap, int mode, bool join = true) : mode_(mode), joining(join) {
    ServiceControlClientOptions o(CheckAggregationOptions(check_cap, 500, 1000), QuotaAggregationOptions(quota_cap, 500, 2000), ReportAggregationOptions(report_cap, 500));
    o.check_transport = [this](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) {
      Sent(CHECK, r, p, d, r.service_config_id() == kConfig, r.operation().operation_id());
    };
    o.quota_transport = [this](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) {
      Sent(QUOTA, r, p, d, quota_flush_, r.allocate_operation().operation_id());
    };
    o.report_transport = [this](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) {
      Sent(REPORT, r, p, d, r.service_config_id() == kConfig, r.operations_size() ? r.operations(0).operation_id() : "");
    };
    o.periodic_timer = [this](int, std::function<void()> f) {
      tick_ = f;
      return std::unique_ptr<PeriodicTimer>(new Timer(this));
    };
    quota_flush_ = quota_cap > 0;
    client = CreateServiceControlClient(kService, kConfig, o);
  }
  // Answers carry the request's number and its operation id.
  static void Fill(CheckResponse* p, int n, const string& op) { p->set_operation_id("server-" + op); }
  static void Fill(AllocateQuotaResponse* p, int n, const string& op) { p->set_operation_id("server-" + op); }
  static void Fill(ReportResponse* p, int n, const string& op) { p->add_report_errors()->set_operation_id("server-" + op); }

  template <class Req, class Resp> void Sent(int kind, const Req& r, Resp* p, TransportDoneFunc d, bool flush, const string& op) {
    Req copy(r);
    sched::point();
    int n, mode;
    {
      sched::Ignore g;
      if (destroyed) mc::fail("%s request sent after the client was destroyed", kKinds[kind]);
      n = sends[kind].size();
      sends[kind].push_back(Text(copy));
      ++(flush ? by_flush : in_flight)[kind];
      if (kind == REPORT) report_ops += Ops(copy);
      if (mc::tracing()) mc::trace("  thread %d: %s request %d sent: %s", sched::tid(), kKinds[kind], n, sends[kind][n].c_str());
      mode = mode_;
    }
    auto complete = [this, kind, n, p, d, op](bool ok) {
      if (ok) Fill(p, n, op);
      { sched::Ignore g; if (mc::tracing()) mc::trace("  thread %d: %s request %d completes: %s", sched::tid(), kKinds[kind], n, ok ? "ok" : "error"); }
      d(ok ? OkStatus() : Status(StatusCode::kUnavailable, "server-" + op));
    };
    if (mode == KEEP) {
      sched::Ignore g;
      kept.push_back({kind, n, complete});
      sched::release(this);
    } else {
      complete(mode == INLINE_OK);
    }
    if (after_send) after_send(kind, n);
  }
  static int Ops(const ReportRequest& r) { return r.operations_size(); }
  template <class M> static int Ops(const M&) { return 0; }

  // Completes a kept request of this kind; false if there is none.
  bool Complete(int kind, bool ok) {
    Kept k;
    {
      sched::Ignore g;
      auto it = kept.begin();
      while (it != kept.end() && it->kind != kind) ++it;
      if (it == kept.end()) return false;
      k = *it;
      kept.erase(it);
      sched::acquire(this);
    }
    k.complete(ok);
    sched::Ignore g;
    k.complete = nullptr;
    return true;
  }
  void Tick(bool even_if_stopped = false) {
    {
      sched::Ignore g;
      if (!tick_ || (stopped && !even_if_stopped)) return;
      ++ticking;
    }
    tick_();
    sched::Ignore g;
    --ticking;
  }

  static CheckRequest MakeCheck(int n, int id, bool high = false) {
    CheckRequest r;
    r.set_service_name(kService);
    Operation* op = r.mutable_operation();
    op->set_operation_id(mc::strf("op-%d", n));
    op->set_operation_name(mc::strf("name%d", id));
    op->set_consumer_id("project:p");
    if (high) op->set_importance(Operation::HIGH);
    AddInt64(op, "m", 1LL << n);
    return r;
  }
  static AllocateQuotaRequest MakeQuota(int n, int id) {
    AllocateQuotaRequest r;
    r.set_service_name(kService);
    QuotaOperation* op = r.mutable_allocate_operation();
    op->set_operation_id(mc::strf("op-%d", n));
    op->set_method_name(mc::strf("name%d", id));
    op->set_consumer_id("project:p");
    op->set_quota_mode(QuotaOperation::BEST_EFFORT);
    MetricValueSet* m = op->add_quota_metrics();
    m->set_metric_name("tokens");
    m->add_metric_values()->set_int64_value(1LL << n);
    return r;
  }
  static ReportRequest MakeReport(int n, int id, bool high = false) {
    ReportRequest r;
    r.set_service_name(kService);
    Operation* op = r.add_operations();
    op->set_operation_id(mc::strf("op-%d", n));
    op->set_operation_name(mc::strf("name%d", id));
    op->set_consumer_id("project:p");
    if (high) op->set_importance(Operation::HIGH);
    AddInt64(op, "m", 1LL << n);
    return r;
  }
  SCall* New(int n, int kind, int id) {
    sched::Ignore g;
    SCall& c = calls[n];
    c.kind = kind; c.id = id; c.done = 0; c.op = mc::strf("op-%d", n);
    return &c;
  }
  void Async(int n, int kind, int id, bool high = false) {
    SCall* c = New(n, kind, id);
    auto done = [c](Status s) {
      Status copy(s);
      sched::Ignore g;
      ++c->done;
      c->status = copy;
      if (c->done > 1) mc::fail("call %s completed twice", c->op.c_str());
    };
    if (kind == CHECK) client->Check(MakeCheck(n, id, high), &c->check, done);
    if (kind == QUOTA) client->Quota(MakeQuota(n, id), &c->quota, done);
    if (kind == REPORT) client->Report(MakeReport(n, id, high), &c->report, done);
  }
  void Sync(int n, int kind, int id, bool high = false) {
    SCall* c = New(n, kind, id);
    Status s;
    if (kind == CHECK) s = client->Check(MakeCheck(n, id, high), &c->check);
    if (kind == QUOTA) s = client->Quota(MakeQuota(n, id), &c->quota);
    if (kind == REPORT) s = client->Report(MakeReport(n, id, high), &c->report);
    sched::Ignore g;
    ++c->done;
    c->status = s;
  }
  // Amounts sent in flushes: every number at most once; their set.
  int64_t Flushed(int kind) {
    int64_t sum = 0;
    for (auto& t : sends[kind]) {
      size_t p = 0;
      if (kind != QUOTA && t.find("service_config_id") == string::npos) continue;
      while ((p = t.find("int64_value: ", p)) != string::npos) {
        p += 13;
        int64_t v = atoll(t.c_str() + p);
        if (sum & v) mc::fail("%s usage sent twice: %s", kKinds[kind], t.c_str());
        sum |= v;
      }
    }
    return sum;
  }

  std::map<int, SCall> calls;
  std::vector<string> sends[3];
  std::vector<Kept> kept;
  int by_flush[3] = {0, 0, 0}, in_flight[3] = {0, 0, 0}, report_ops = 0;
  int mode_;
  bool joining, quota_flush_ = false;
  int stops = 0, ticking = 0;
  bool stopped = false, destroyed = false;
  std::function<void()> tick_;
  std::function<void(int kind, int n)> after_send;
  std::unique_ptr<ServiceControlClient> client;      // destroyed first
};
}  // namespace h
#endif
