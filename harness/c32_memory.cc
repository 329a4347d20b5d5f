// C32: what the client allocates it releases. A script of calls, completions,
// ticks and clock advances is chosen first and then played several times; the
// number of live heap blocks after each play tells whether anything was left.
#include <malloc.h>

#include <cstdlib>
#include <new>

#include "common.h"
#include "include/service_control_client.h"
using namespace h;

static long g_live;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

enum Event { CHECK_A, CHECK_B, CHECK_HIGH, CHECK_BAD, CHECK_OWN, QUOTA_A, QUOTA_B, QUOTA_BAD, QUOTA_OWN, REPORT_A, REPORT_B, REPORT_HIGH, REPORT_BAD, REPORT_OWN, CHECK_SYNC, QUOTA_SYNC, REPORT_SYNC,
             PASS, DENY, FAIL, PASS_LAST, WAIT_SHORT, WAIT_LONG, TICK, STATS, DESTROY, kEvents };
static const char* kNames[] = {"check a", "check b", "important check", "refused check", "check with its own transport", "quota a", "quota b", "refused quota", "quota with its own transport", "report a", "report b", "important report",
                               "refused report", "report with its own transport", "synchronous check", "synchronous quota", "synchronous report", "oldest answered", "oldest denied", "oldest failed", "newest answered", "1s later", "20s later", "tick", "statistics", "client destroyed"};

struct Timer : PeriodicTimer {
  explicit Timer(std::function<void()>* f) : f_(f) {}
  void Stop() override { *f_ = nullptr; }
  std::function<void()>* f_;
};

struct Setup { int entries; int inline_answer; int missing; bool timer; int content; bool kinds; };   // inline_answer: 0 later, 1 passed, 2 denied, 3 failed; missing: transports not given, a bit each

// One client and its environment.
struct Play {
  struct Pending { int kind; CheckResponse* check; AllocateQuotaResponse* quota; TransportDoneFunc done; };
  Setup s;
  std::vector<Pending> pending;
  std::function<void()> tick;
  std::unique_ptr<ServiceControlClient> client;
  int shift = 0;                                       // moves identities in cyclic plays
  long done = 0, calls = 0, sends = 0;

  explicit Play(const Setup& setup) : s(setup) {
    ServiceControlClientOptions o(CheckAggregationOptions(s.entries, 2000, 10000), QuotaAggregationOptions(s.entries, 1500, 15000), ReportAggregationOptions(s.entries, 3000));
    if (!(s.missing & 1)) o.check_transport = CheckTransport();
    if (!(s.missing & 2)) o.quota_transport = QuotaTransport();
    if (!(s.missing & 4)) o.report_transport = ReportTransport();
    if (s.kinds) { o.metric_kinds.reset(new MetricKindMap); (*o.metric_kinds)["metric of a longer name"] = MetricDescriptor::GAUGE; }
    if (s.timer) o.periodic_timer = [this](int, std::function<void()> f) { tick = f; return std::unique_ptr<PeriodicTimer>(new Timer(&tick)); };
    client = CreateServiceControlClient("service of a longer name", "configuration id of the service", o);
  }
  ~Play() { tick = nullptr; client.reset(); while (!pending.empty()) Answer(0, PASS); }
  TransportCheckFunc CheckTransport() { return [this](const CheckRequest& r, CheckResponse* resp, TransportDoneFunc f) { ++sends; Take({0, resp, nullptr, f}); }; }
  TransportQuotaFunc QuotaTransport() { return [this](const AllocateQuotaRequest& r, AllocateQuotaResponse* resp, TransportDoneFunc f) { ++sends; Take({1, nullptr, resp, f}); }; }
  TransportReportFunc ReportTransport() { return [this](const ReportRequest& r, ReportResponse*, TransportDoneFunc f) { ++sends; Take({2, nullptr, nullptr, f}); }; }
  bool sync = false;
  void Take(const Pending& p) {
    pending.push_back(p);
    if (s.inline_answer || sync) Answer(pending.size() - 1, sync ? PASS : s.inline_answer == 1 ? PASS : s.inline_answer == 2 ? DENY : FAIL);
  }
  void Answer(int i, int how) {
    Pending p = pending[i];
    pending.erase(pending.begin() + i);
    if (how != FAIL && p.check) { p.check->set_operation_id("operation id of the response"); if (how == DENY) p.check->add_check_errors()->set_detail("the detail of an error found"); }
    if (how != FAIL && p.quota) { p.quota->set_operation_id("operation id of the response"); if (how == DENY) p.quota->add_allocate_errors()->set_description("the description of an error"); }
    p.done(how == FAIL ? Status(StatusCode::kUnavailable, "the server cannot be reached") : OkStatus());
  }
  template <class Op> void Metrics(Op* sets) {
    if (s.content == 0) return;
    for (int k = 0; k < s.content; ++k) {
      MetricValueSet* m = sets->Add();
      m->set_metric_name(k ? mc::strf("metric %d of a longer name", k) : "metric of a longer name");
      MetricValue* v = m->add_metric_values();
      (*v->mutable_labels())["a label of a longer name"] = "the value of the label";
      v->set_int64_value(7);
      SetTs(v->mutable_start_time(), 100 + k); SetTs(v->mutable_end_time(), 200 + k);
    }
  }
  void Fill(Operation* op, int id) {
    op->set_operation_id("operation id of the request");
    op->set_operation_name(mc::strf("operation of a longer name %04d", id));
    op->set_consumer_id("project:of a longer name");
    (*op->mutable_labels())["a label of a longer name"] = "the value of the label";
    SetTs(op->mutable_start_time(), 100); SetTs(op->mutable_end_time(), 200);
    Metrics(op->mutable_metric_value_sets());
  }
  template <class R> struct Call { R resp; };
  void Check(int e) {
    CheckRequest r;
    r.set_service_name(e == CHECK_BAD ? "another service of a longer name" : "service of a longer name");
    Fill(r.mutable_operation(), shift + (e == CHECK_B));
    if (e == CHECK_HIGH) r.mutable_operation()->set_importance(Operation::HIGH);
    if (e == CHECK_SYNC) { CheckResponse resp; sync = true; ++calls; (void)client->Check(r, &resp); ++done; sync = false; return; }
    auto resp = std::make_shared<CheckResponse>();
    ++calls;
    auto f = [this, resp](const Status&) { ++done; };
    if (e == CHECK_OWN) client->Check(r, resp.get(), f, CheckTransport()); else client->Check(r, resp.get(), f);
  }
  void Quota(int e) {
    AllocateQuotaRequest r;
    r.set_service_name("service of a longer name");
    if (e != QUOTA_BAD) {
      auto* op = r.mutable_allocate_operation();
      op->set_operation_id("operation id of the request");
      op->set_method_name(mc::strf("method of a longer name %04d", shift + (e == QUOTA_B)));
      op->set_consumer_id("project:of a longer name");
      Metrics(op->mutable_quota_metrics());
    }
    if (e == QUOTA_SYNC) { AllocateQuotaResponse resp; sync = true; ++calls; (void)client->Quota(r, &resp); ++done; sync = false; return; }
    auto resp = std::make_shared<AllocateQuotaResponse>();
    ++calls;
    auto f = [this, resp](const Status&) { ++done; };
    if (e == QUOTA_OWN) client->Quota(r, resp.get(), f, QuotaTransport()); else client->Quota(r, resp.get(), f);
  }
  void Report(int e) {
    ReportRequest r;
    r.set_service_name(e == REPORT_BAD ? "another service of a longer name" : "service of a longer name");
    for (int k = 0; k < (e == REPORT_HIGH ? 2 : 1); ++k) {
      Fill(r.add_operations(), shift + (e == REPORT_B || k));
      if (s.content) r.mutable_operations(k)->add_log_entries()->set_name("log of a longer name");
    }
    if (e == REPORT_HIGH) r.mutable_operations(0)->set_importance(Operation::HIGH);
    if (e == REPORT_SYNC) { ReportResponse resp; sync = true; ++calls; (void)client->Report(r, &resp); ++done; sync = false; return; }
    auto resp = std::make_shared<ReportResponse>();
    ++calls;
    auto f = [this, resp](const Status&) { ++done; };
    if (e == REPORT_OWN) client->Report(r, resp.get(), f, ReportTransport()); else client->Report(r, resp.get(), f);
  }
  // False where the event cannot happen.
  bool Do(int e) {
    if (e <= REPORT_SYNC || e == STATS) if (!client) return false;
    switch (e) {
      case CHECK_A: case CHECK_B: case CHECK_HIGH: case CHECK_BAD: case CHECK_OWN: case CHECK_SYNC: Check(e); break;
      case QUOTA_A: case QUOTA_B: case QUOTA_BAD: case QUOTA_OWN: case QUOTA_SYNC: Quota(e); break;
      case REPORT_A: case REPORT_B: case REPORT_HIGH: case REPORT_BAD: case REPORT_OWN: case REPORT_SYNC: Report(e); break;
      case PASS: case DENY: case FAIL: if (pending.empty()) return false; Answer(0, e); break;
      case PASS_LAST: if (pending.size() < 2) return false; Answer(pending.size() - 1, PASS); break;
      case WAIT_SHORT: mc::advance_us(1600000); break;
      case WAIT_LONG: mc::advance_us(20000000); break;
      case TICK: if (!tick) return false; { auto f = tick; f(); } break;
      case STATS: { Statistics t; (void)client->GetStatistics(&t); break; }
      case DESTROY: if (!client) return false; client.reset(); break;
    }
    mc::step();
    return true;
  }
};

static bool PlayOnce(const Setup& s, const int* script, int n, int end) {
  Play p(s);
  for (int i = 0; i < n; ++i) if (!p.Do(script[i])) return false;
  if (end) while (!p.pending.empty()) p.Answer(0, end == 1 ? PASS : FAIL);   // before the client goes; otherwise afterwards
  return true;
}

static string Show(const Setup& s, const int* script, int n, int end) {
  string t = mc::strf("entries %d, answers %d, missing %d, timer %d, content %d, kinds %d:", s.entries, s.inline_answer, s.missing, s.timer, s.content, s.kinds);
  for (int i = 0; i < n; ++i) t += string(i ? ", " : " ") + kNames[script[i]];
  return t + mc::strf("; end %d", end);
}

static void Whole(const Setup& s, int n, const std::vector<int>& alphabet) {
  int script[16];
  for (int i = 0; i < n; ++i) script[i] = alphabet[mc::choose(alphabet.size(), "event")];
  const int end = mc::choose(3, "end");
  long live[4];
  for (int k = 0; k < 4; ++k) {
    const long before = g_live;
    if (!PlayOnce(s, script, n, end)) { mc::prune(); return; }
    live[k] = g_live - before;
    if (live[k] == 0) break;
    // The first plays may create what stays for the whole process.
    if (k == 3) mc::fail("%ld blocks left by %s", live[k], Show(s, script, n, end).c_str());
  }
  mc::validated();
  mc::state(Show(s, script, n, end));
  mc::outcome(mc::strf("%d", n));
}

static void Sequences(int n) {
  static const Setup setups[] = {{1, 0, 0, true, 2, false}, {2, 0, 0, true, 1, true}, {0, 0, 0, true, 1, false}, {1, 1, 0, true, 2, false}, {1, 2, 0, true, 1, false}, {1, 3, 0, true, 2, false}, {1, 0, 7, true, 1, false}, {1, 0, 2, true, 0, false}};
  std::vector<int> all;
  for (int i = 0; i < kEvents; ++i) all.push_back(i);
  Whole(setups[mc::choose(8, "setup")], n, all);
}
// One kind of call, longer scripts.
static void Deep(int n) {
  static const std::vector<int> alphabets[] = {{CHECK_A, CHECK_B, PASS, DENY, FAIL, WAIT_SHORT, WAIT_LONG, TICK, DESTROY}, {QUOTA_A, QUOTA_B, PASS, DENY, FAIL, WAIT_SHORT, WAIT_LONG, TICK, DESTROY},
                                               {REPORT_A, REPORT_B, REPORT_HIGH, PASS, FAIL, WAIT_SHORT, WAIT_LONG, TICK, DESTROY}};
  static const Setup setups[] = {{1, 0, 0, true, 2, false}, {2, 0, 0, true, 1, true}};
  const int kind = mc::choose(3, "kind");
  Whole(setups[mc::choose(2, "setup")], n, alphabets[kind]);
}
// The same few events over and over: what is held stops growing.
static void Cycles(int n) {
  static const Setup setups[] = {{2, 0, 0, true, 2, false}, {2, 1, 0, true, 1, true}, {0, 1, 0, true, 1, false}, {2, 2, 0, true, 1, false}, {2, 3, 0, true, 2, false}, {1, 0, 7, true, 1, false}};
  static const int events[] = {CHECK_A, CHECK_HIGH, CHECK_BAD, CHECK_OWN, QUOTA_A, QUOTA_BAD, QUOTA_OWN, REPORT_A, REPORT_HIGH, REPORT_BAD, REPORT_OWN, CHECK_SYNC, QUOTA_SYNC, REPORT_SYNC, PASS, DENY, FAIL, WAIT_SHORT, WAIT_LONG, TICK, STATS};
  const Setup s = setups[mc::choose(6, "setup")];
  const int move = mc::choose(2, "identities move"), finish = mc::choose(3, "rest of the answers");
  int script[8];
  for (int i = 0; i < n; ++i) script[i] = events[mc::choose(21, "event")];
  const int kWindow = 110;
  long peak[3] = {0, 0, 0};
  {
    Play p(s);
    p.pending.reserve(64);
    for (int w = 0; w < 3; ++w) for (int c = 0; c < kWindow; ++c) {
      for (int i = 0; i < n; ++i) if (!p.Do(script[i])) { mc::prune(); return; }
      while (!p.pending.empty()) p.Answer(0, finish == 0 ? PASS : finish == 1 ? DENY : FAIL);
      p.shift = move ? (p.shift + 1) % 9000 : 0;
      peak[w] = std::max(peak[w], g_live);
    }
    MC_CHECK(peak[2] <= peak[1], "what is held grows, %ld, %ld, %ld blocks: %s, identities move %d", peak[0], peak[1], peak[2], Show(s, script, n, finish).c_str(), move);
  }
  mc::validated();
  mc::state(mc::strf("%d %d ", move, finish) + Show(s, script, n, 0));
  mc::outcome(mc::strf("%ld", peak[2] - peak[1]));
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C32", {
    {"sequences", Sequences, {2, 3}, {2, 3, 4}, "events", false, "all scripts of calls of every kind, completions, ticks, clock advances and destruction in 8 set-ups"},
    {"deep", Deep, {4, 5}, {4, 5, 6, 7}, "events", false, "all longer scripts of one kind of call"},
    {"cycles", Cycles, {1, 2}, {1, 2, 3}, "events", false, "the same events 330 times: nothing grows"},
  });
}
