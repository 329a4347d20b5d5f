// What a whole client puts on the requests it makes itself: the names it was
// created with, whatever causes the request and whoever owns the transport.
#ifndef VERIF_CLIENT_NAMES_H_
#define VERIF_CLIENT_NAMES_H_
#include "common.h"
#include "include/service_control_client.h"
namespace h {
// kinds: bit 0 checks, bit 1 quota, bit 2 reports
inline void ClientNames(int kinds) {
  static const string services[] = {"svc", "svc.example.com", "", "cfg-1", string(300, 'n')};
  static const string configs[] = {"cfg-1", "", "svc", "2016-09-19r0", string(300, 'c')};
  const string service = services[mc::choose(5, "service name")], config = configs[mc::choose(5, "config id")];
  std::vector<int> ks;
  for (int k = 0; k < 3; ++k) if (kinds >> k & 1) ks.push_back(k);
  const int kind = ks[mc::choose(ks.size(), "kind")];
  const int cap = mc::choose(2, "capacity") ? 10 : 1, trigger = mc::choose(5, "trigger"), calls = 1 + mc::choose(3, "calls");
  const bool own = mc::choose(2, "per-request transport"), named = mc::choose(2, "caller's config id");
  std::function<void()> tick;
  struct Timer : PeriodicTimer { void Stop() override {} };
  ServiceControlClientOptions o(CheckAggregationOptions(cap, 500, 1000), QuotaAggregationOptions(cap, 500, 1000000), ReportAggregationOptions(cap, 500));
  std::vector<std::pair<string, string>> names;     // of requests made by the client
  std::vector<int64_t> amounts;
  std::vector<std::function<void()>> answers;
  std::set<const void*> mine;
  std::vector<string> own_requests;
  int64_t sum = 0;
  auto got = [&](const string& s, const string& c, const google::protobuf::Message& m, int64_t amount, const TransportDoneFunc& done) {
    const string t = Text(m);
    if (std::find(own_requests.begin(), own_requests.end(), t) == own_requests.end()) { names.push_back({s, c}); amounts.push_back(amount); }
    mc::trace("sent: %s", t.c_str());
    answers.push_back([done] { done(OkStatus()); });
  };
  TransportCheckFunc ct = [&](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) { got(r.service_name(), r.service_config_id(), r, r.operation().metric_value_sets(0).metric_values(0).int64_value(), d); };
  TransportQuotaFunc qt = [&](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) { got(r.service_name(), r.service_config_id(), r, r.allocate_operation().quota_metrics(0).metric_values(0).int64_value(), d); };
  TransportReportFunc rt = [&](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) {
    int64_t a = 0;
    for (auto& op : r.operations()) a += op.metric_value_sets(0).metric_values(0).int64_value();
    got(r.service_name(), r.service_config_id(), r, a, d);
  };
  o.check_transport = ct; o.quota_transport = qt; o.report_transport = rt;
  o.periodic_timer = [&](int, std::function<void()> f) { tick = f; return std::unique_ptr<PeriodicTimer>(new Timer); };
  std::unique_ptr<ServiceControlClient> client = CreateServiceControlClient(service, config, o);
  auto answer = [&] { while (!answers.empty()) { auto f = answers.front(); answers.erase(answers.begin()); f(); } };
  std::vector<std::unique_ptr<CheckResponse>> cr;
  AllocateQuotaResponse qresp; ReportResponse rresp;
  int serial = 0;
  auto call = [&](int id) {
    ++serial;
    auto none = [](const Status&) {};
    if (kind == 0) {
      CheckRequest r;
      r.set_service_name(service);
      if (named) r.set_service_config_id("callers-own");
      auto* op = r.mutable_operation();
      op->set_operation_id(mc::strf("%d", serial)); op->set_operation_name(mc::strf("op%d", id)); op->set_consumer_id("project:p");
      AddInt64(op, "m", serial);
      own_requests.push_back(Text(r));
      cr.emplace_back(new CheckResponse);
      if (own) client->Check(r, cr.back().get(), none, ct); else client->Check(r, cr.back().get(), none);
    } else if (kind == 1) {
      AllocateQuotaRequest r;
      r.set_service_name(service);
      if (named) r.set_service_config_id("callers-own");
      auto* op = r.mutable_allocate_operation();
      op->set_operation_id(mc::strf("%d", serial)); op->set_method_name(mc::strf("op%d", id)); op->set_consumer_id("project:p");
      auto* s = op->add_quota_metrics();
      s->set_metric_name("tokens"); s->add_metric_values()->set_int64_value(serial);
      own_requests.push_back(Text(r));
      if (own) client->Quota(r, &qresp, none, qt); else client->Quota(r, &qresp, none);
    } else {
      ReportRequest r;
      r.set_service_name(service);
      if (named) r.set_service_config_id("callers-own");
      auto* op = r.add_operations();
      op->set_operation_id(mc::strf("%d", serial)); op->set_operation_name(mc::strf("op%d", id)); op->set_consumer_id("project:p");
      AddInt64(op, "m", serial);
      if (own) client->Report(r, &rresp, none, rt); else client->Report(r, &rresp, none);
    }
    if (id == 0 && (kind == 2 || serial > 1)) sum += serial;
    mc::step();
  };
  if (kind != 2) { call(0); answer(); }
  for (int i = 0; i < calls; ++i) call(0);
  if (names.size() > 0) mc::fail("%zu requests made by the client while nothing is due", names.size());
  switch (trigger) {
    case 0: mc::advance_ms(1001); if (tick) tick(); break;
    case 1: mc::advance_ms(1001); call(kind == 1 ? 0 : 1); break;
    case 2: call(1); break;              // evicts with a capacity of one
    case 3: client.reset(); break;
    case 4: mc::advance_ms(501); if (tick) tick(); break;
  }
  answer();
  for (auto& n : names) {
    MC_CHECK(n.first == service, "a %s request made by the client carries service '%s', the client is '%s'", kind == 0 ? "check" : kind == 1 ? "quota" : "report", n.first.c_str(), service.c_str());
    MC_CHECK(n.second == config, "a %s request made by the client carries config id '%s', the client's is '%s'", kind == 0 ? "check" : kind == 1 ? "quota" : "report", n.second.c_str(), config.c_str());
  }
  mc::validated();
  mc::outcome(mc::strf("kind %d trigger %d: %zu requests", kind, trigger, names.size()));
  mc::state(mc::strf("%s/%s/%d/%d/%d/%d/%d%d", service.c_str(), config.c_str(), kind, cap, trigger, calls, own, named));
  client.reset();
  answer();
}
}  // namespace h
#endif
