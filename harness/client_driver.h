// Drives a ServiceControlClient next to a reference client built from a second
// set of the same aggregators, so that only the client's own behaviour is
// judged: completions, what is sent through which transport, counters, timer,
// shutdown.  The transports are part of the environment: for every request
// they are given they may complete it inline or keep it, and may call the
// client again; completion callbacks may call it as well.
#ifndef VERIF_CLIENT_DRIVER_H_
#define VERIF_CLIENT_DRIVER_H_
#include "common.h"
#include "include/service_control_client.h"

namespace h {
enum { F_DONE = 1, F_STATS = 2, F_TIMER = 4, F_VIA = 8, F_SHUTDOWN = 16, F_REENTER = 32 };
enum Kind { CHECK = 0, QUOTA = 1, REPORT = 2 };
enum How { ASYNC = 0, PER_REQUEST = 1, NULL_TRANSPORT = 2, SYNC = 3 };
// ERROR_CODE + k: the transport fails with code k; DENY_CODE + k: the k-th error
// code of the kind's response.
enum Mode { QUEUE = 0, PASS = 1, DENY = 2, ERROR = 3, ERROR_CODE = 100, DENY_CODE = 200 };
static const char* const kKinds[] = {"check", "quota", "report"};
static const char* const kHows[] = {"async", "per-request", "null-transport", "sync"};
inline string ModeName(int m) {
  static const char* const names[] = {"keep", "ok", "ok-denied", "error"};
  return m < 4 ? names[m] : mc::strf("%s %d", m < DENY_CODE ? "error code" : "ok-denied with error", m % 100);
}
inline bool IsError(int m) { return m == ERROR || (m >= ERROR_CODE && m < DENY_CODE); }
inline bool IsDenial(int m) { return m == DENY || m >= DENY_CODE; }

struct CallSpec { int kind = -1, id = 0, how = ASYNC; bool high = false; int ops = 0; };   // ops: number of operations of a report; 0 = one, -1 = none

struct ClientCfg {
  int check_cap = 10, quota_cap = 10, report_cap = 10;
  int check_flush = 1000, check_expire = 3000, quota_refresh = 1000, quota_expire = 3000, report_flush = 1000;
  int missing = 0;              // bit per kind: no client-wide transport
  bool timer = true;
  // Alternatives of a transport for a request it gets (0 = keep it).
  std::vector<int> modes = {QUEUE};
  // Calls a transport or a completion may make; empty = none.
  std::vector<CallSpec> nested;
  int max_nested = 0;
  int chain = 0;                // bit 0: transports call before, bit 1: after completing, bit 2: completions call; always, while max_nested allows
  bool full = false;            // every field of requests and answers set, responses handed in used before
  int answer = 0;               // contents of answers: errors in a denial, other fields
  int sparse = 0;               // fields that requests leave out
  string Text() const {
    return mc::strf("check(%d,%d,%d) quota(%d,%d,%d) report(%d,%d) missing=%d modes=%zu nested=%d", check_cap, check_flush, check_expire,
                    quota_cap, quota_refresh, quota_expire, report_cap, report_flush, missing, modes.size(), max_nested);
  }
};

typedef std::function<void(const Status&)> Done;

struct Send {
  int kind; bool client_wide; string request, call; int n;
  std::function<void(int mode)> complete;
  bool completed;
};
struct Call {
  CallSpec spec; int done = 0; Status status; string response;
  CheckResponse check; AllocateQuotaResponse quota; ReportResponse report;
};
struct Decision { int mode; int before, after; };     // index of a nested call, -1 none

// Decisions of the environment, made by the real run and repeated by the model.
struct Script {
  const ClientCfg* cfg;
  std::map<string, Decision> send;
  std::map<string, int> done;
  std::map<string, int> serial;
  int nested_used = 0;
  bool replay = false;
  int Nested(const char* what, int place) {
    if (cfg->nested.empty() || nested_used >= cfg->max_nested) return -1;
    if (cfg->chain) return cfg->chain >> place & 1 ? nested_used++ % cfg->nested.size() : -1;
    int c = mc::choose(cfg->nested.size() + 1, what) - 1;
    if (c >= 0) ++nested_used;
    return c;
  }
  Decision OnSend(const string& key, bool must_complete) {
    auto i = send.find(key);
    if (i != send.end()) return i->second;
    if (replay) return {must_complete ? PASS : QUEUE, -1, -1};
    Decision d;
    d.before = Nested("transport calls first", 0);
    if (must_complete) d.mode = PASS + mc::choose(3, "inline");
    else d.mode = cfg->modes[cfg->modes.size() == 1 ? 0 : mc::choose(cfg->modes.size(), "transport")];
    d.after = Nested("transport calls after", 1);
    return send[key] = d;
  }
  int OnDone(const string& path) {
    auto i = done.find(path);
    if (i != done.end()) return i->second;
    if (replay) return -1;
    return done[path] = Nested("completion calls", 2);
  }
  int Serial(const string& path) { return serial.emplace(path, (int)serial.size()).first->second; }
};

// One client (real or model) and everything around it.
class World {
 public:
  std::vector<Send> sends[3];
  std::map<string, Call> calls;
  Script* script;
  bool model;
  // Calls the client under test.
  std::function<void(const string& path, const CallSpec&, Call*)> call_client;
  World(Script* s, bool m) : script(s), model(m) {}

  void Issue(const string& path, const CallSpec& spec) {
    Call& c = calls[path];
    c.spec = spec;
    if (script->cfg->full) {
      const int n = 500 + script->Serial(path);
      FillAll(&c.check, n); FillAll(&c.quota, n); FillAll(&c.report, n);
    }
    call_client(path, spec, &c);
  }
  void OnDone(const string& path, const Status& s) {
    Call& c = calls[path];
    ++c.done;
    c.status = s;
    c.response = c.spec.kind == CHECK ? Text(c.check) : c.spec.kind == QUOTA ? Text(c.quota) : Text(c.report);
    if (c.done > 1) return;
    if (!model && mc::tracing()) mc::trace("    completion of call %s: %s [%s]", path.c_str(), s.ToString().c_str(), c.response.c_str());
    int nested = script->OnDone(path);
    if (nested >= 0) Issue(path + ".d", script->cfg->nested[nested]);
  }
  // A transport gets a request. `call` is the call it was sent for, if per-request.
  template <class Req, class Resp> void Transport(int kind, bool client_wide, const string& call, const Req& request, Resp* response, TransportDoneFunc done) {
    int n = sends[kind].size();
    string key = mc::strf("%c%d", "cqr"[kind], n);
    sends[kind].push_back({kind, client_wide, Text(request), call, n, nullptr, false});
    std::shared_ptr<TransportDoneFunc> d = std::make_shared<TransportDoneFunc>(done);
    auto complete = [this, kind, n, response, d](int mode) {
      sends[kind][n].completed = true;
      if (!model && mc::tracing()) mc::trace("    %s request %d completes: %s", kKinds[kind], n, ModeName(mode).c_str());
      if (script->cfg->full) { FillAll(response, 100 + n); if (!IsError(mode)) NoErrors(response); }
      Answer(response, n, mode);
      TransportDoneFunc f = *d;
      *d = nullptr;
      f(IsError(mode) ? Status(mode == ERROR ? StatusCode::kUnavailable : (StatusCode)(mode - ERROR_CODE), mc::strf("server %d", n)) : OkStatus());
    };
    sends[kind][n].complete = complete;
    if (!model && mc::tracing()) mc::trace("    %s request %d via %s: %s", kKinds[kind], n, client_wide ? "client-wide transport" : ("transport of call " + call).c_str(), Text(request).c_str());
    Decision dec = script->OnSend(key, sync_ > 0);
    if (dec.before >= 0) Issue(key + ".b", script->cfg->nested[dec.before]);
    if (dec.mode != QUEUE) complete(dec.mode);
    if (dec.after >= 0) Issue(key + ".a", script->cfg->nested[dec.after]);
  }
  static void NoErrors(CheckResponse* r) { r->clear_check_errors(); }
  static void NoErrors(AllocateQuotaResponse* r) { r->clear_allocate_errors(); }
  static void NoErrors(ReportResponse* r) { r->clear_report_errors(); }
  // Errors of a denial; answers may say nothing else, name another
  // configuration, or be long.
  int Errors() const { static const int n[] = {1, 2, 5, 20, 300}; return n[script->cfg->answer % 5]; }
  template <class R> void Identify(R* r, const char* what, int n) {
    const int v = script->cfg->answer / 5;
    if (v == 1) r->clear_operation_id(); else r->set_operation_id(mc::strf("server-%s-%d", what, n));
    if (v == 2) r->set_service_config_id("another-config");
    if (v == 3) r->set_operation_id(mc::strf("server-%s-%d", what, n) + string(70000, 'x'));
  }
  void Answer(CheckResponse* r, int n, int mode) {
    Identify(r, "check", n);
    typedef ::google::api::servicecontrol::v1::CheckError E;
    if (IsDenial(mode)) for (int i = 0; i < Errors(); ++i) r->add_check_errors()->set_code(mode == DENY ? E::PERMISSION_DENIED : (E::Code)E::Code_descriptor()->value(mode - DENY_CODE)->number());
  }
  void Answer(AllocateQuotaResponse* r, int n, int mode) {
    Identify(r, "quota", n);
    typedef ::google::api::servicecontrol::v1::QuotaError E;
    if (IsDenial(mode)) for (int i = 0; i < Errors(); ++i) r->add_allocate_errors()->set_code(mode == DENY ? E::RESOURCE_EXHAUSTED : (E::Code)E::Code_descriptor()->value(mode - DENY_CODE)->number());
  }
  void Answer(ReportResponse* r, int n, int mode) {
    if (IsDenial(mode)) for (int i = 0; i < Errors(); ++i) r->add_report_errors()->set_operation_id(mc::strf("server-report-%d", n));
    if (script->cfg->answer / 5 == 2) r->set_service_config_id("another-config");
  }
  std::vector<std::pair<int, int>> Pending() const {
    std::vector<std::pair<int, int>> r;
    for (int k = 0; k < 3; ++k) for (auto& s : sends[k]) if (!s.completed) r.push_back({k, s.n});
    return r;
  }
  // Requests, a function of the call only.
  CheckRequest MakeCheck(const string& path, const CallSpec& s) {
    CheckRequest r;
    if (script->cfg->full) FillAll(&r, 300 + script->Serial(path));
    r.set_service_name(kService);
    Operation* op = r.mutable_operation();
    if (script->cfg->full) { op->set_importance(Operation::LOW); op->clear_labels(); op->clear_metric_value_sets(); }
    op->set_operation_id(path);
    op->set_operation_name(mc::strf("op%d", s.id));
    op->set_consumer_id("project:p");
    if (s.high) op->set_importance(Operation::HIGH);
    AddInt64(op, "m", 1LL << (script->Serial(path) % 60));
    Leave(op);
    return r;
  }
  // Leaves fields out.
  void Leave(Operation* op) {
    const int m = script->cfg->sparse;
    if (m & 1) op->clear_operation_id();
    if (m & 2) op->clear_operation_name();
    if (m & 4) op->clear_consumer_id();
    if (m & 8) op->clear_metric_value_sets();
  }
  AllocateQuotaRequest MakeQuota(const string& path, const CallSpec& s) {
    AllocateQuotaRequest r;
    if (script->cfg->full) { FillAll(&r, 300 + script->Serial(path)); r.mutable_allocate_operation()->clear_quota_metrics(); }
    r.set_service_name(kService);
    QuotaOperation* op = r.mutable_allocate_operation();
    op->set_operation_id(path);
    op->set_method_name(mc::strf("method%d", s.id));
    op->set_consumer_id("project:p");
    op->set_quota_mode(QuotaOperation::BEST_EFFORT);
    MetricValueSet* m = op->add_quota_metrics();
    m->set_metric_name("tokens");
    m->add_metric_values()->set_int64_value(1LL << (script->Serial(path) % 60));
    const int left = script->cfg->sparse;
    if (left & 1) op->clear_operation_id();
    if (left & 2) op->clear_method_name();
    if (left & 4) op->clear_consumer_id();
    if (left & 8) op->clear_quota_metrics();
    return r;
  }
  ReportRequest MakeReport(const string& path, const CallSpec& s) {
    ReportRequest r;
    r.set_service_name(kService);
    for (int i = 0; i < (s.ops < 0 ? 0 : s.ops ? s.ops : s.high ? 2 : 1); ++i) {
      Operation* op = r.add_operations();
      if (script->cfg->full) { FillAll(op, 300 + script->Serial(path)); op->set_importance(Operation::LOW); op->clear_labels(); op->clear_metric_value_sets(); }
      op->set_operation_id(path);
      op->set_operation_name(mc::strf("op%d", s.id));
      op->set_consumer_id("project:p");
      if (s.high) op->set_importance(Operation::HIGH);
      AddInt64(op, "m", 1LL << (script->Serial(path) % 60));
      Leave(op);
    }
    return r;
  }
  int sync_ = 0;                       // inside a synchronous call
};

struct Counters { uint64_t v[10] = {0}; };
static const char* const kCounters[] = {"total_called_checks", "send_checks_by_flush", "send_checks_in_flight", "total_called_quotas", "send_quotas_by_flush",
                                        "send_quotas_in_flight", "total_called_reports", "send_reports_by_flush", "send_reports_in_flight", "send_report_operations"};

// The reference client.
class Reference {
 public:
  World w;
  std::shared_ptr<CheckAggregator> check;
  std::shared_ptr<QuotaAggregator> quota;
  std::shared_ptr<ReportAggregator> report;
  Counters stats;
  bool gone = false;
  const ClientCfg& cfg;

  Reference(const ClientCfg& c, Script* s) : w(s, true), cfg(c) {
    check = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(c.check_cap, c.check_flush, c.check_expire), nullptr);
    quota = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(c.quota_cap, c.quota_refresh, c.quota_expire));
    report = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(c.report_cap, c.report_flush), nullptr);
    check->SetFlushCallback([this](const CheckRequest& r) {
      if (gone || cfg.missing & 1) return;
      ++stats.v[1];
      auto resp = std::make_shared<CheckResponse>();
      w.Transport(CHECK, true, "", r, resp.get(), [resp](const Status&) {});
    });
    quota->SetFlushCallback([this](const AllocateQuotaRequest& r) {
      if (gone || cfg.missing & 2) return;
      ++stats.v[4];
      auto req = std::make_shared<AllocateQuotaRequest>(r);
      auto resp = std::make_shared<AllocateQuotaResponse>();
      w.Transport(QUOTA, true, "", r, resp.get(), [this, req, resp](const Status& s) { (void)quota->CacheResponse(*req, s.ok() ? *resp : AllocateQuotaResponse()); });
    });
    report->SetFlushCallback([this](const ReportRequest& r) {
      if (gone || cfg.missing & 4) return;
      ++stats.v[7];
      stats.v[9] += r.operations_size();
      auto resp = std::make_shared<ReportResponse>();
      w.Transport(REPORT, true, "", r, resp.get(), [resp](const Status&) {});
    });
    w.call_client = [this](const string& path, const CallSpec& s, Call* c) {
      if (s.how != SYNC) { CallIt(path, s, c, [this, path](const Status& st) { w.OnDone(path, st); }); return; }
      // A synchronous call tells its caller when it returns.
      Status result(StatusCode::kInternal, "not completed");
      ++w.sync_;
      CallIt(path, s, c, [&result](const Status& st) { result = st; });
      --w.sync_;
      w.OnDone(path, result);
    };
  }
  void CallIt(const string& path, const CallSpec& s, Call* c, Done done) {
    ++stats.v[s.kind * 3];
    bool wide = s.how == ASYNC || s.how == SYNC;
    if (s.how == NULL_TRANSPORT || (wide && cfg.missing >> s.kind & 1)) { done(Status(StatusCode::kInvalidArgument, "transport is NULL.")); return; }
    string call = wide ? "" : path;
    Status st;
    if (s.kind == CHECK) {
      auto req = std::make_shared<CheckRequest>(w.MakeCheck(path, s));
      st = check->Check(*req, &c->check);
      if (st.code() == StatusCode::kNotFound) {
        ++stats.v[2];
        w.Transport(CHECK, wide, call, *req, &c->check, [this, req, c, done](const Status& t) { if (t.ok()) (void)check->CacheResponse(*req, c->check); done(t); });
        return;
      }
    } else if (s.kind == QUOTA) {
      auto req = std::make_shared<AllocateQuotaRequest>(w.MakeQuota(path, s));
      st = quota->Quota(*req, &c->quota);
      if (st.code() == StatusCode::kNotFound) {
        ++stats.v[5];
        w.Transport(QUOTA, wide, call, *req, &c->quota, [this, req, c, done](const Status& t) { (void)quota->CacheResponse(*req, t.ok() ? c->quota : AllocateQuotaResponse()); done(t); });
        return;
      }
    } else {
      ReportRequest req = w.MakeReport(path, s);
      st = report->Report(req);
      if (st.code() == StatusCode::kNotFound) {
        ++stats.v[8];
        stats.v[9] += req.operations_size();
        w.Transport(REPORT, wide, call, req, &c->report, done);
        return;
      }
    }
    done(st);
  }
  void Tick() { (void)check->Flush(); (void)quota->Flush(); (void)report->Flush(); }
  void Destroy() { (void)check->FlushAll(); (void)quota->FlushAll(); (void)report->FlushAll(); gone = true; }
  // Expected timer interval, -1 for none.
  int Interval() const {
    int r = INT32_MAX;
    if (cfg.check_cap > 0) r = std::min(r, std::max(cfg.check_flush + 1, cfg.check_expire));      // checks leave when they expire
    if (cfg.quota_cap > 0) r = std::min(r, cfg.quota_refresh);
    if (cfg.report_cap > 0) r = std::min(r, cfg.report_flush);
    return !cfg.timer || r == INT32_MAX || r <= 0 ? -1 : r;
  }
};

class ClientRun {
 public:
  ClientRun(const ClientCfg& c, int checks) : cfg(c), checks_(checks), real_(&script_, false) {
    script_.cfg = &cfg;
    ref_.reset(new Reference(cfg, &script_));
    ServiceControlClientOptions o(CheckAggregationOptions(c.check_cap, c.check_flush, c.check_expire), QuotaAggregationOptions(c.quota_cap, c.quota_refresh, c.quota_expire),
                                  ReportAggregationOptions(c.report_cap, c.report_flush));
    if (!(c.missing & 1)) o.check_transport = [this](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) { real_.Transport(CHECK, true, "", r, p, d); };
    if (!(c.missing & 2)) o.quota_transport = [this](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) { real_.Transport(QUOTA, true, "", r, p, d); };
    if (!(c.missing & 4)) o.report_transport = [this](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) { real_.Transport(REPORT, true, "", r, p, d); };
    if (c.timer) o.periodic_timer = [this](int ms, std::function<void()> f) {
      ++timers_; interval_ = ms; tick_ = f;
      return std::unique_ptr<PeriodicTimer>(new Timer(&stops_));
    };
    client_ = CreateServiceControlClient(kService, kConfig, o);
    mc::trace("client %s", cfg.Text().c_str());
    int want = ref_->Interval();
    if (checks_ & F_TIMER) {
      MC_CHECK(timers_ == (want > 0), "%d timers created for %s", timers_, cfg.Text().c_str());
      if (want > 0) MC_CHECK(interval_ == want, "timer interval %d, expected %d, for %s", interval_, want, cfg.Text().c_str());
    }
    real_.call_client = [this](const string& path, const CallSpec& s, Call* call) { CallReal(path, s, call); };
  }
  ~ClientRun() { script_.replay = true; client_.reset(); }    // no more decisions

  void Do(const CallSpec& s) {
    string path = mc::strf("%d", top_++);
    mc::trace("t=%lldus call %s: %s %s identity %d%s", (long long)mc::now_us, path.c_str(), kHows[s.how], kKinds[s.kind], s.id, s.high ? " high" : "");
    real_.Issue(path, s);
    Mirror([&] { ref_->w.Issue(path, s); });
    Compare(s.how == NULL_TRANSPORT || (s.how != PER_REQUEST && cfg.missing >> s.kind & 1) ? "null" : "call");
  }
  int PendingCount() const { return real_.Pending().size(); }
  void Complete(int i, int mode) {
    auto p = real_.Pending()[i];
    mc::trace("t=%lldus server answers %s request %d: %s", (long long)mc::now_us, kKinds[p.first], p.second, ModeName(mode).c_str());
    auto f = real_.sends[p.first][p.second].complete;
    f(mode);
    Mirror([&] { auto g = ref_->w.sends[p.first][p.second].complete; g(mode); });
    Compare("answer");
  }
  bool has_timer() const { return tick_ != nullptr; }
  void Tick() {
    mc::trace("t=%lldus timer tick", (long long)mc::now_us);
    if (!tick_) return;
    tick_();
    Mirror([&] { if (!ref_->gone) ref_->Tick(); });
    Compare("tick");
  }
  void Destroy() {
    mc::trace("t=%lldus client destroyed", (long long)mc::now_us);
    script_.nested_used = 1 << 20;      // no further calls on a dying client
    client_.reset();
    Mirror([&] { ref_->Destroy(); });
    Compare("destroy");
    if (checks_ & F_SHUTDOWN) MC_CHECK(stops_ == timers_, "timer stopped %d times for %d timers", stops_, timers_);
  }
  bool destroyed() const { return !client_; }
  void Advance(int ms) { mc::advance_ms(ms); mc::trace("clock +%dms", ms); }
  // Every kept request is answered, every caller is told.
  void Finish() {
    while (PendingCount()) Complete(0, PASS);
    if (checks_ & (F_DONE | F_SHUTDOWN | F_REENTER)) for (auto& kv : real_.calls) MC_CHECK(kv.second.done == 1, "call %s completed %d times", kv.first.c_str(), kv.second.done);
    string o;
    for (int k = 0; k < 3; ++k) o += mc::strf(" %s=%zu", kKinds[k], real_.sends[k].size());
    mc::outcome(cfg.Text() + o + mc::strf(" calls=%zu", real_.calls.size()));
  }
  // Everything accepted so far was sent, once (amounts are bits; ordinary
  // importance, transports present). Judged from calls and sends alone.
  // `checks`: all answers were positive, so is the usage of checks answered
  // by the cache.
  void Conserved(bool checks, const char* when) {
    for (int k : {CHECK, REPORT}) {
      if (k == CHECK && !checks) continue;
      uint64_t want = 0, got = 0;
      for (auto& kv : real_.calls) {
        const Call& c = kv.second;
        if (c.spec.kind != k || c.spec.high || c.spec.how == NULL_TRANSPORT || cfg.missing >> k & 1) continue;
        string own = k == CHECK ? Text(real_.MakeCheck(kv.first, c.spec)) : Text(real_.MakeReport(kv.first, c.spec));
        bool sent = false;
        for (auto& s : real_.sends[k]) sent |= s.request == own;
        if (k == CHECK && (sent || !c.done)) continue;
        want |= 1ull << (script_.Serial(kv.first) % 60);
      }
      for (auto& s : real_.sends[k]) {
        if (k == CHECK && s.request.find("service_config_id") == string::npos) continue;     // sent for a call
        size_t p = 0;
        while ((p = s.request.find("int64_value: ", p)) != string::npos) {
          p += 13;
          uint64_t v = strtoull(s.request.c_str() + p, nullptr, 10);
          MC_CHECK(!(got & v), "%s usage sent twice: %s", kKinds[k], s.request.c_str());
          got |= v;
        }
      }
      mc::validated();
      MC_CHECK((want & ~got) == 0, "%s: %s usage accepted %llx, sent %llx (%s)", when, kKinds[k], (unsigned long long)want, (unsigned long long)got, cfg.Text().c_str());
    }
  }
  ClientCfg cfg;

 private:
  struct Timer : PeriodicTimer { int* stops; explicit Timer(int* s) : stops(s) {} void Stop() override { ++*stops; } };

  void CallReal(const string& path, const CallSpec& s, Call* c) {
    Done done = [this, path](const Status& st) { real_.OnDone(path, st); };
    string p = path;
    if (s.how == SYNC) {
      ++real_.sync_;
      Status st;
      if (s.kind == CHECK) { CheckRequest r = real_.MakeCheck(path, s); st = client_->Check(r, &c->check); }
      else if (s.kind == QUOTA) { AllocateQuotaRequest r = real_.MakeQuota(path, s); st = client_->Quota(r, &c->quota); }
      else { ReportRequest r = real_.MakeReport(path, s); st = client_->Report(r, &c->report); }
      --real_.sync_;
      real_.OnDone(path, st);
      return;
    }
    if (s.kind == CHECK) {
      CheckRequest r = real_.MakeCheck(path, s);
      if (s.how == ASYNC) client_->Check(r, &c->check, done);
      else if (s.how == NULL_TRANSPORT) client_->Check(r, &c->check, done, nullptr);
      else client_->Check(r, &c->check, done, [this, p](const CheckRequest& q, CheckResponse* a, TransportDoneFunc d) { real_.Transport(CHECK, false, p, q, a, d); });
    } else if (s.kind == QUOTA) {
      AllocateQuotaRequest r = real_.MakeQuota(path, s);
      if (s.how == ASYNC) client_->Quota(r, &c->quota, done);
      else if (s.how == NULL_TRANSPORT) client_->Quota(r, &c->quota, done, nullptr);
      else client_->Quota(r, &c->quota, done, [this, p](const AllocateQuotaRequest& q, AllocateQuotaResponse* a, TransportDoneFunc d) { real_.Transport(QUOTA, false, p, q, a, d); });
    } else {
      ReportRequest r = real_.MakeReport(path, s);
      if (s.how == ASYNC) client_->Report(r, &c->report, done);
      else if (s.how == NULL_TRANSPORT) client_->Report(r, &c->report, done, nullptr);
      else client_->Report(r, &c->report, done, [this, p](const ReportRequest& q, ReportResponse* a, TransportDoneFunc d) { real_.Transport(REPORT, false, p, q, a, d); });
    }
  }
  void Mirror(const std::function<void()>& f) {
    mc::step();
    script_.replay = true;
    f();
    script_.replay = false;
  }
  Counters ReadStats() {
    Counters c;
    if (!client_) return c;
    Statistics s;
    memset(&s, 0x5a, sizeof s);
    (void)client_->GetStatistics(&s);
    uint64_t v[] = {s.total_called_checks, s.send_checks_by_flush, s.send_checks_in_flight, s.total_called_quotas, s.send_quotas_by_flush, s.send_quotas_in_flight,
                    s.total_called_reports, s.send_reports_by_flush, s.send_reports_in_flight, s.send_report_operations};
    std::copy(v, v + 10, c.v);
    return c;
  }
  // The real counters against what was really called and sent.
  void CompareStats(const char* event) {
    if (!client_ || !(checks_ & F_STATS)) return;
    Counters want, got = ReadStats();
    for (auto& kv : real_.calls) ++want.v[kv.second.spec.kind * 3];
    // Which requests were sent for a call and which by a flush is the reference's word.
    for (int k = 0; k < 3; ++k) if (real_.sends[k].size() != ref_->w.sends[k].size()) mc::prune();
    for (int i = 0; i < 10; ++i) if (i % 3 || i == 9) want.v[i] = ref_->stats.v[i];
    for (int i = 0; i < 10; ++i) MC_CHECK(got.v[i] == want.v[i], "after %s %s is %llu, expected %llu", event, kCounters[i], (unsigned long long)got.v[i], (unsigned long long)want.v[i]);
  }
  [[noreturn]] void Bad(int flag, const string& what) {
    if (checks_ & flag) mc::fail("%s (%s)", what.c_str(), cfg.Text().c_str());
    mc::prune();
  }
  void Compare(const string& event) {
    const int re = F_REENTER;
    World& m = ref_->w;
    for (int k = 0; k < 3; ++k) {
      auto& a = real_.sends[k];
      auto& b = m.sends[k];
      for (size_t i = compared_[k]; i < std::max(a.size(), b.size()); ++i) {
        // Whatever the reference says: a per-request transport gets that call's
        // own request, at most once.
        if (i < a.size() && !a[i].client_wide) {
          if (a[i].request != OwnRequest(real_, a[i].call)) Bad(F_VIA | re, mc::strf("after %s the transport given for call %s gets another %s request: %s", event.c_str(), a[i].call.c_str(), kKinds[k], a[i].request.c_str()));
          for (size_t j = 0; j < i; ++j) if (!a[j].client_wide && a[j].call == a[i].call) Bad(F_VIA | re, mc::strf("after %s the transport given for call %s is used again: %s", event.c_str(), a[i].call.c_str(), a[i].request.c_str()));
        }
        string what = i < a.size() ? mc::strf("%s request sent after %s: ", kKinds[k], event.c_str()) + a[i].request : mc::strf("nothing sent after %s", event.c_str());
        what += i < b.size() ? ", expected " + b[i].request : ", expected nothing";
        bool same = i < a.size() && i < b.size() && a[i].request == b[i].request;
        if (same && a[i].client_wide == b[i].client_wide && a[i].call == b[i].call) { mc::validated(); continue; }
        if (same) Bad(F_VIA | re, what + mc::strf(", via the %s transport (%s), expected the %s one (%s)", a[i].client_wide ? "client-wide" : "per-request", a[i].call.c_str(),
                                             b[i].client_wide ? "client-wide" : "per-request", b[i].call.c_str()));
        if (event == "tick") Bad((ref_->gone ? F_SHUTDOWN : F_TIMER) | re, what);
        if (event == "destroy") Bad(k == QUOTA && i >= a.size() ? 0 : F_SHUTDOWN, what);
        if (ref_->gone) Bad(F_SHUTDOWN, what);
        if (event == "null") Bad(F_DONE | re, what);
        if (i >= a.size() && cfg.nested.empty()) {
          // Missing: sent for this call, or by the cache.
          Bad(b[i].client_wide && IsFlush(b[i]) ? F_VIA | re : F_DONE | re, what);
        }
        Bad(F_DONE | re, what);
      }
      compared_[k] = a.size();
    }
    for (auto& kv : m.calls) {
      auto i = real_.calls.find(kv.first);
      if (i == real_.calls.end()) Bad(F_DONE | re, "call " + kv.first + " was never made");
      const Call &x = i->second, &y = kv.second;
      int f = F_DONE | re | (ref_->gone ? F_SHUTDOWN : 0);
      if (x.done != y.done) Bad(f, mc::strf("after %s call %s (%s %s) has completed %d times, expected %d", event.c_str(), kv.first.c_str(), kHows[x.spec.how], kKinds[x.spec.kind], x.done, y.done));
      if (!x.done) continue;
      if (x.status.code() != y.status.code()) Bad(f, mc::strf("call %s completed with %s, expected %s", kv.first.c_str(), x.status.ToString().c_str(), y.status.ToString().c_str()));
      if (x.status.code() != StatusCode::kInvalidArgument && x.status.message() != y.status.message()) Bad(f, mc::strf("call %s completed with %s, expected %s", kv.first.c_str(), x.status.ToString().c_str(), y.status.ToString().c_str()));
      if ((x.status.ok() || IsSent(kv.first)) && x.response != y.response) Bad(f, mc::strf("call %s completed with [%s], expected [%s]", kv.first.c_str(), x.response.c_str(), y.response.c_str()));
      mc::validated();
    }
    for (auto& kv : real_.calls) if (!m.calls.count(kv.first)) Bad(F_DONE | re, "call " + kv.first + " was not expected");
    CompareStats(event.c_str());
    string st = mc::strf("%p", (void*)0) + cfg.Text();
    for (int k = 0; k < 3; ++k) for (auto& s : real_.sends[k]) st += mc::strf("|%d%d", k, s.completed) + s.request;
    for (auto& kv : real_.calls) st += mc::strf("|%s:%d", kv.first.c_str(), kv.second.done) + kv.second.response;
    mc::state(st + mc::strf("@%lld", (long long)mc::now_us));
  }
  // A request was sent for this very call: its response is the server's, errors included.
  bool IsSent(const string& path) {
    const string own = OwnRequest(ref_->w, path);
    for (auto& s : ref_->w.sends[ref_->w.calls[path].spec.kind]) if (s.request == own) return true;
    return false;
  }
  static string OwnRequest(World& w, const string& path) {
    auto i = w.calls.find(path);
    if (i == w.calls.end()) return "";
    const CallSpec& s = i->second.spec;
    return s.kind == CHECK ? Text(w.MakeCheck(path, s)) : s.kind == QUOTA ? Text(w.MakeQuota(path, s)) : Text(w.MakeReport(path, s));
  }
  bool IsFlush(const Send& s) const {
    // Requests sent for a call carry its path as operation id.
    for (auto& kv : ref_->w.calls) {
      if (kv.second.spec.kind != s.kind) continue;
      World& w = ref_->w;
      string t = s.kind == CHECK ? Text(w.MakeCheck(kv.first, kv.second.spec)) : s.kind == QUOTA ? Text(w.MakeQuota(kv.first, kv.second.spec)) : Text(w.MakeReport(kv.first, kv.second.spec));
      if (t == s.request) return false;
    }
    return true;
  }

  int checks_;
  Script script_;
  World real_;
  std::unique_ptr<Reference> ref_;
  std::unique_ptr<ServiceControlClient> client_;
  int timers_ = 0, interval_ = 0, stops_ = 0, top_ = 0;
  std::function<void()> tick_;
  size_t compared_[3] = {0, 0, 0};
};
}  // namespace h
#endif
