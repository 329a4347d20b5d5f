// C30: a call's request and response are the caller's again once its
// completion has run, on whichever thread and however early.
#include "sched_client.h"
using namespace h;

#include <sys/mman.h>
// Pages for what callers own: reading or writing it once it is freed crashes,
// in code that the scheduler does not see as well.
struct Pages {
  static const int kPages = 64, kSize = 4096;
  static char* base() { static char* b = (char*)mmap(nullptr, kPages * kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return b; }
  static int& used() { static int n; return n; }
  static void Reset() { if (used()) mprotect(base(), kPages * kSize, PROT_READ | PROT_WRITE); used() = 0; }
  template <class T> static T* New() {
    static_assert(sizeof(T) <= kSize, "a page each");
    char* p;
    { sched::Ignore g; if (used() == kPages) mc::fail("harness: out of pages"); p = base() + kSize * used()++; }
    return new (p) T;
  }
  template <class T> static void Free(T* x) { x->~T(); sched::Ignore g; mprotect((void*)x, kSize, PROT_NONE); }
};
// What a caller keeps for a call; freed by its completion.
template <class Req, class Resp> struct Context { Req request; Resp response; };
struct Lib {
  SClient* c;
  int issued = 0, done = 0, freed_early = 0;
  bool per_call;
  string log;
  template <class Req, class Resp> Context<Req, Resp>* New(const Req& r) {
    auto* x = Pages::New<Context<Req, Resp>>();
    x->request = r;
    return x;
  }
  // `how`: 0 completion frees request and response, 1 the request is freed when
  // the call returns (a temporary), the response by the completion.
  void Call(int n, int kind, int id, bool high, int how, int next) {
    { sched::Ignore g; ++issued; }
    auto finish = [this, n, next](const Status& s) {
      {
        sched::Ignore g;
        ++done;
        log += mc::strf(" %d:%d", n, (int)s.code());
      }
      if (next >= 0) Call(n + 10, next % 3, next / 3 % 2, next / 6, 0, -1);
    };
    if (kind == CHECK) Issue<CheckRequest, CheckResponse>(SClient::MakeCheck(n, id, high), how, finish);
    if (kind == QUOTA) Issue<AllocateQuotaRequest, AllocateQuotaResponse>(SClient::MakeQuota(n, id), how, finish);
    if (kind == REPORT) Issue<ReportRequest, ReportResponse>(SClient::MakeReport(n, id, high), how, finish);
  }
  void Send(const CheckRequest& r, CheckResponse* p, std::function<void(const Status&)> d) { if (per_call) c->client->Check(r, p, d, TransportCheckFunc([this](const CheckRequest& q, CheckResponse* o, TransportDoneFunc f) { c->Sent(CHECK, q, o, f, false, q.operation().operation_id()); })); else c->client->Check(r, p, d); }
  void Send(const AllocateQuotaRequest& r, AllocateQuotaResponse* p, std::function<void(const Status&)> d) { if (per_call) c->client->Quota(r, p, d, TransportQuotaFunc([this](const AllocateQuotaRequest& q, AllocateQuotaResponse* o, TransportDoneFunc f) { c->Sent(QUOTA, q, o, f, false, q.allocate_operation().operation_id()); })); else c->client->Quota(r, p, d); }
  void Send(const ReportRequest& r, ReportResponse* p, std::function<void(const Status&)> d) { if (per_call) c->client->Report(r, p, d, TransportReportFunc([this](const ReportRequest& q, ReportResponse* o, TransportDoneFunc f) { c->Sent(REPORT, q, o, f, false, q.operations_size() ? q.operations(0).operation_id() : ""); })); else c->client->Report(r, p, d); }
  template <class Req, class Resp, class F> void Issue(const Req& r, int how, F finish) {
    auto* x = New<Req, Resp>(r);
    if (how == 0) { Send(x->request, &x->response, [x, finish](const Status& s) { Status copy(s); Pages::Free(x); finish(copy); }); return; }
    auto* request = Pages::New<Req>();
    *request = r;
    Send(*request, &x->response, [x, finish](const Status& s) { Status copy(s); Pages::Free(x); finish(copy); });
    Pages::Free(request);
  }
};

static void Go(int threads, int len) {
  std::unique_ptr<SClient> c;
  Lib lib;
  int cap, mode, how, age;
  std::vector<std::vector<int>> calls(threads);
  string what;
  {
    sched::Ignore g;
    Pages::Reset();
    cap = mc::choose(3, "capacity");
    mode = mc::choose(3, "transports");
    how = mc::choose(2, "freed");
    age = cap ? mc::choose(2, "age") : 0;
    lib.per_call = mc::choose(2, "transport per call");
    for (auto& t : calls) for (int i = 0; i < len; ++i) t.push_back(mc::choose(10, "call"));
    for (size_t i = 1; i < calls.size(); ++i) if (calls[i] < calls[i - 1]) return;
    int next = mc::choose(len == 1 ? 4 : 2, "next");
    static const int nexts[] = {-1, 8, 1, 6};        // important report, quota, important check
    c.reset(new SClient(cap, cap, cap, INLINE_OK));
    lib.c = c.get();
    what = mc::strf("capacity %d, transports %s, %s, %s, follow-up %d:", cap, mode == 0 ? "keep" : mode == 1 ? "inline" : "inline errors", how ? "request freed on return" : "all freed by the completion", age ? "due" : "fresh", nexts[next]);
    // Something cached of identity 0.
    c->Async(30, CHECK, 0); c->Async(31, CHECK, 0); c->Async(32, QUOTA, 0); c->Async(33, QUOTA, 0); c->Async(34, REPORT, 0);
    if (age) mc::advance_ms(600);
    c->mode_ = (Mode)mode;
    for (auto& t : calls) { what += " ["; for (int& e : t) { what += mc::strf(" %s%d%s", kKinds[e < 6 ? e % 3 : e < 8 ? 0 : 2], e < 6 ? e / 3 : e & 1, e < 6 ? "" : "!"); } what += " ]"; }
    if (mc::tracing()) mc::trace("%s", what.c_str());
    for (size_t t = 0; t < calls.size(); ++t) for (size_t i = 0; i < calls[t].size(); ++i) { int e = calls[t][i]; calls[t][i] = e | (i + 1 == calls[t].size() && t == 0 ? (nexts[next] + 1) << 8 : 0); }
  }
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < calls.size(); ++t)
    bodies.push_back([&, t] {
      for (size_t i = 0; i < calls[t].size(); ++i) {
        int e = calls[t][i] & 255, next = (calls[t][i] >> 8) - 1;
        bool high = e >= 6;
        lib.Call(t * 4 + i, high ? (e < 8 ? CHECK : REPORT) : e % 3, high ? e & 1 : e / 3, high, how, next);
        mc::step();
      }
    });
  if (mode == 0)      // a thread of the transport's, answering as requests come
    bodies.push_back([&] {
      for (int i = 0; i < 2 * (int)calls.size() * (int)calls[0].size(); ++i) {
        bool any = false;
        for (int k = 0; k < 3 && !any; ++k) any = c->Complete(k, true);
        if (!any) sched::point();
        mc::step();
      }
    });
  RunThreads(bodies);
  for (bool any = true; any;) { any = false; for (int k = 0; k < 3; ++k) while (c->Complete(k, true)) { any = true; mc::step(); } }
  int issued, done;
  { sched::Ignore g; issued = lib.issued; done = lib.done; }
  MC_CHECK(issued == done, "%d calls, %d completions (%s)", issued, done, what.c_str());
  Statistics st;
  (void)c->client->GetStatistics(&st);
  sched::Ignore g;
  MC_CHECK((int)st.send_report_operations == c->report_ops, "%d report operations sent, counted as %d (%s)", c->report_ops, (int)st.send_report_operations, what.c_str());
  mc::validated();
  mc::outcome(what + lib.log);
  mc::state(what + lib.log);
  c->mode_ = INLINE_OK;
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C30", {
    {"one-caller", [](int) { Go(1, 1); }, {0, 1, 2}, {0, 1, 2, 3, 4}, "preemptions", false, "one call, its completion inline or on a transport thread"},
    {"two-calls", [](int) { Go(1, 2); }, {0, 1}, {0, 1, 2}, "preemptions", false, "two calls of one thread, completed on another"},
    {"two-callers", [](int) { Go(2, 1); }, {0, 1}, {0, 1, 2}, "preemptions", false, "calls of two threads, completed on a third"},
  });
}
