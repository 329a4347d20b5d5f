// Event sequences for the client, shared by C19, C20, C27 and C29.
#ifndef VERIF_CLIENT_SCENARIOS_H_
#define VERIF_CLIENT_SCENARIOS_H_
#include "client_driver.h"
namespace h {
inline CallSpec Spec(int kind, int id, int how, bool high = false) { CallSpec s; s.kind = kind; s.id = id; s.how = how; s.high = high; return s; }

// One event: a call of `kinds`, an answer, a tick, time.
struct Alphabet {
  std::vector<CallSpec> calls;
  std::vector<int> answers = {PASS, DENY, ERROR};
  std::vector<int> advance = {1000};
  bool tick = true, destroy = false;
};
inline void Event(ClientRun* r, const Alphabet& a) {
  int pend = std::min(r->PendingCount(), 3), na = a.answers.size();
  int n = a.calls.size() + pend * na + a.advance.size() + a.tick + a.destroy;
  if (r->destroyed()) {
    n = pend * na + a.tick;
    if (n == 0) mc::prune();
  }
  int e = mc::choose(n, "event");
  if (!r->destroyed()) {
    if (e < (int)a.calls.size()) { r->Do(a.calls[e]); return; }
    e -= a.calls.size();
  }
  if (e < pend * na) { r->Complete(e / na, a.answers[e % na]); return; }
  e -= pend * na;
  if (!r->destroyed()) {
    if (e < (int)a.advance.size()) { r->Advance(a.advance[e]); return; }
    e -= a.advance.size();
  }
  if (a.tick && e == 0) { r->Tick(); return; }
  r->Destroy();
}
inline void Sequence(const ClientCfg& c, const Alphabet& a, int depth, int checks) {
  ClientRun r(c, checks);
  for (int i = 0; i < depth; ++i) Event(&r, a);
  r.Finish();
}

// One kind of call, all call styles, kept requests.
inline void OneKind(int depth, int checks) {
  int kind = mc::choose(3, "kind"), how = mc::choose(3, "cache");
  ClientCfg c;
  if (how == 1) c.check_cap = c.quota_cap = c.report_cap = 0;
  if (how == 2) c.check_cap = c.quota_cap = c.report_cap = 1;
  Alphabet a;
  a.calls = {Spec(kind, 0, ASYNC), Spec(kind, 0, PER_REQUEST), Spec(kind, 0, NULL_TRANSPORT), Spec(kind, 0, SYNC), Spec(kind, 0, ASYNC, true)};
  if (how == 2) a.calls.push_back(Spec(kind, 1, ASYNC));
  if (how == 1 && kind == REPORT) for (int n : {-1, 25}) { a.calls.push_back(Spec(kind, 0, n < 0 ? ASYNC : PER_REQUEST)); a.calls.back().ops = n; }
  if (how == 1 && kind == REPORT) { a.calls.push_back(Spec(kind, 0, NULL_TRANSPORT)); a.calls.back().ops = -1; }
  Sequence(c, a, depth, checks);
}
// Transports that complete inline.
inline void Inline(int depth, int checks) {
  int kind = mc::choose(3, "kind");
  ClientCfg c;
  int cap = mc::choose(3, "capacity");
  c.check_cap = c.quota_cap = c.report_cap = cap == 2 ? 10 : cap;
  c.modes = {QUEUE, PASS, DENY, ERROR};
  Alphabet a;
  a.calls = {Spec(kind, 0, ASYNC), Spec(kind, 1, PER_REQUEST), Spec(kind, 1, SYNC)};
  a.answers = {PASS, ERROR};
  Sequence(c, a, depth, checks);
}
// Every status code of a transport and every error code of a response.
inline int ErrorCodes(int kind) {
  return kind == CHECK ? ::google::api::servicecontrol::v1::CheckError::Code_descriptor()->value_count()
       : kind == QUOTA ? ::google::api::servicecontrol::v1::QuotaError::Code_descriptor()->value_count() : 1;
}
inline void Codes(int depth, int checks) {
  int kind = mc::choose(3, "kind");
  ClientCfg c;
  if (mc::choose(2, "cache")) c.check_cap = c.quota_cap = c.report_cap = 0;
  c.full = mc::choose(2, "full");
  ClientRun r(c, checks);
  const int nd = ErrorCodes(kind);
  for (int i = 0; i < depth; ++i) {
    static const int hows[] = {ASYNC, PER_REQUEST};
    r.Do(Spec(kind, 0, hows[mc::choose(2, "how")]));
    r.Do(Spec(kind, 0, ASYNC, kind != QUOTA && mc::choose(2, "importance")));
    for (int j = 0; r.PendingCount() && j < 2; ++j) {
      int m = mc::choose(17 + nd, "answer");     // OK, 16 errors of a client library, the response's errors
      r.Complete(0, m == 0 ? PASS : m < 17 ? ERROR_CODE + m : DENY_CODE + m - 17);
    }
    if (mc::choose(2, "time")) r.Advance(1000);
  }
  r.Do(Spec(kind, 0, ASYNC));
  r.Tick();
  r.Finish();
}
// What requests leave out, and what answers contain beside their verdict.
inline void Contents(int depth, int checks) {
  ClientCfg c;
  const int kind = mc::choose(3, "kind"), v = mc::choose(36, "contents");
  if (v < 20) c.answer = v; else c.sparse = v - 20;
  const int cap = mc::choose(2, "capacity");
  c.check_cap = c.quota_cap = c.report_cap = cap ? 10 : 0;
  const bool inline_answers = mc::choose(2, "inline");
  if (inline_answers) c.modes = {PASS, DENY, ERROR};
  Alphabet a;
  a.calls = {Spec(kind, 0, ASYNC), Spec(kind, 0, PER_REQUEST), Spec(kind, 1, SYNC)};
  if (kind != QUOTA) a.calls.push_back(Spec(kind, 0, ASYNC, true));
  Sequence(c, a, depth, checks);
}
// All three kinds together.
inline void Mixed(int depth, int checks) {
  ClientCfg c;
  int v = mc::choose(4, "cache");
  if (v == 1) c.check_cap = 1, c.quota_cap = 0, c.report_cap = 1;
  if (v == 2) c.check_flush = 700, c.report_flush = 400, c.quota_refresh = 1500;
  if (v == 3) c.check_cap = 0, c.report_cap = 1, c.quota_cap = 1;
  Alphabet a;
  for (int k = 0; k < 3; ++k) { a.calls.push_back(Spec(k, 0, ASYNC)); a.calls.push_back(Spec(k, 1, PER_REQUEST)); }
  a.answers = {PASS, DENY};
  if (v == 2) a.advance = {500};
  Sequence(c, a, depth, checks);
}
// Client-wide transports missing.
inline void Missing(int depth, int checks) {
  ClientCfg c;
  c.missing = mc::choose(8, "missing");
  int cap = mc::choose(3, "capacity");
  c.check_cap = c.quota_cap = c.report_cap = cap == 2 ? 10 : cap;
  int kind = mc::choose(3, "kind");
  Alphabet a;
  a.calls = {Spec(kind, 0, ASYNC), Spec(kind, 0, PER_REQUEST), Spec(kind, 1, PER_REQUEST), Spec(kind, 0, SYNC)};
  if (kind == REPORT) { a.calls.push_back(Spec(kind, 0, ASYNC)); a.calls.back().ops = -1; }
  a.answers = {PASS, ERROR};
  a.destroy = true;
  Sequence(c, a, depth, checks);
}
}  // namespace h
#endif
