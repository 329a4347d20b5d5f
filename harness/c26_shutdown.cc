// C26: shutdown flushes everything and late events are harmless.
#include "client_scenarios.h"
using namespace h;
static const int P = F_SHUTDOWN;

// Answers and ticks that come after the client is gone, in every order.
static void Late(ClientRun* r, int n, const std::vector<int>& answers) {
  for (int i = 0; i < n; ++i) {
    int pend = r->PendingCount(), na = answers.size();
    int e = mc::choose(pend * na + 2, "late event");
    if (e == 0) break;
    if (e == 1) r->Tick();
    else r->Complete((e - 2) / na, answers[(e - 2) % na]);
  }
  r->Finish();
}
static ClientCfg Cfg() {
  ClientCfg c;
  int v = mc::choose(5, "cache");
  if (v == 1) c.check_cap = c.quota_cap = c.report_cap = 1;
  if (v == 2) c.check_cap = c.quota_cap = c.report_cap = 2, c.check_flush = 400, c.report_flush = 600, c.quota_refresh = 700;
  if (v == 3) c.check_cap = c.quota_cap = c.report_cap = 0;
  if (v == 4) c.timer = false;
  return c;
}
// Any history of one kind of call, then destruction, then late events.
static void OneKindThen(int depth) {
  int kind = mc::choose(3, "kind");
  ClientCfg c = Cfg();
  c.modes = {QUEUE, PASS};
  Alphabet a;
  for (int id = 0; id < 2; ++id) a.calls.push_back(Spec(kind, id, ASYNC));
  a.calls.push_back(Spec(kind, 0, PER_REQUEST));
  a.answers = {PASS};
  a.advance = {500, 3000};
  ClientRun r(c, P);
  for (int i = 0; i < depth; ++i) Event(&r, a);
  r.Destroy();
  r.Conserved(true, "after destruction");
  Late(&r, 2, {PASS, ERROR});
}
// The same with answers of every sort and three kinds of call.
static void MixedThen(int depth) {
  ClientCfg c = Cfg();
  Alphabet a;
  for (int k = 0; k < 3; ++k) a.calls.push_back(Spec(k, 0, ASYNC));
  a.calls.push_back(Spec(REPORT, 1, PER_REQUEST));
  a.calls.push_back(Spec(CHECK, 0, ASYNC, true));
  a.answers = {PASS, DENY, ERROR};
  a.advance = {1000};
  ClientRun r(c, P);
  for (int i = 0; i < depth; ++i) Event(&r, a);
  r.Destroy();
  r.Conserved(false, "after destruction");
  Late(&r, 2, {PASS, DENY, ERROR});
}
// Full caches with usage, all of it is pending or due; every transport decision
// during destruction.
static void Full(int depth) {
  ClientCfg c = Cfg();
  c.modes = {PASS};
  ClientRun r(c, P);
  int calls = 1 + mc::choose(2, "calls");
  for (int id = 0; id < 2; ++id)
    for (int k = 0; k < 3; ++k) for (int i = 0; i < calls; ++i) { r.Do(Spec(k, id, ASYNC)); r.Do(Spec(k, id, PER_REQUEST)); }
  static const int age[] = {0, 500, 1000, 3000};
  r.Advance(age[mc::choose(4, "age")]);
  r.cfg.modes = {QUEUE, PASS};
  for (int i = 0; i < depth; ++i) { int k = mc::choose(3, "kind"); r.Do(Spec(k, 1, PER_REQUEST)); }
  r.Destroy();
  r.Conserved(false, "after destruction");
  Late(&r, 2, {PASS, ERROR});
}
int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C26", {
    {"one-kind", OneKindThen, {1, 2, 3, 4}, {2, 3, 4, 5}, "events", false, "every history of one kind of call, destruction, late answers and ticks"},
    {"mixed", MixedThen, {1, 2, 3, 4}, {2, 3, 4, 5}, "events", false, "every history of three kinds of call with answers of every sort, destruction, late answers and ticks"},
    {"full", Full, {0, 1}, {0, 1, 2}, "events", false, "caches with usage of every age, every transport behaviour during destruction"},
  });
}
