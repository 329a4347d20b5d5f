// C28: callbacks may complete inline or re-enter the client without deadlock.
#include "client_scenarios.h"
using namespace h;
static const int P = F_REENTER | F_DONE;

// Transports and completions call the client again; every request is kept or
// completed inline in every way.
static void Reenter(int depth, int max_nested) {
  int kind = mc::choose(3, "kind");
  ClientCfg c;
  int cap = mc::choose(3, "capacity");
  c.check_cap = c.quota_cap = c.report_cap = cap;
  c.modes = {QUEUE, PASS};
  c.nested = {Spec(kind, 1, ASYNC), Spec(kind, 0, SYNC), Spec((kind + 1) % 3, 0, ASYNC)};
  c.max_nested = max_nested;
  Alphabet a;
  a.calls = {Spec(kind, 0, ASYNC), Spec(kind, 1, PER_REQUEST)};
  a.answers = {PASS};
  Sequence(c, a, depth, P);
}
// Several entries are due: the first one sent re-enters while others wait.
static void Due(int depth, int max_nested) {
  int kind = mc::choose(3, "kind");
  ClientCfg c;
  c.check_cap = c.quota_cap = c.report_cap = 2 + mc::choose(2);
  c.modes = {PASS, ERROR, QUEUE};
  c.nested = {Spec(kind, 0, ASYNC), Spec(kind, 1, ASYNC), Spec(kind, 1, SYNC), Spec(kind, 0, ASYNC, true)};
  c.max_nested = 0;
  ClientRun r(c, P);
  for (int id = 0; id < 2; ++id) for (int i = 0; i < 2; ++i) {
    r.Do(Spec(kind, id, ASYNC));
    while (r.PendingCount()) r.Complete(0, PASS);
    if (kind != REPORT && i == 0) { r.Advance(100); }
  }
  r.cfg.max_nested = max_nested;
  Alphabet a;
  a.calls = {Spec(kind, 0, ASYNC), Spec(kind, 1, ASYNC)};
  a.answers = {PASS};
  a.advance = {1100};
  a.destroy = true;
  for (int i = 0; i < depth; ++i) Event(&r, a);
  r.Finish();
}
// An answer arrives while other entries are due: what it displaces is sent with
// inline completion and calls from within.
static void Answers(int depth, int max_nested) {
  int kind = mc::choose(3, "kind");
  ClientCfg c;
  c.check_cap = c.quota_cap = c.report_cap = 1 + mc::choose(4, "capacity");
  if (mc::choose(2, "expiry")) c.check_expire = c.quota_expire = 1000;
  c.nested = {Spec(kind, 0, ASYNC), Spec(kind, 2, ASYNC), Spec(kind, 1, SYNC), Spec(kind, 3, ASYNC)};
  c.max_nested = 0;
  ClientRun r(c, P);
  for (int id = 0; id < 2; ++id) for (int i = 0; i < 2; ++i) {
    r.Do(Spec(kind, id, ASYNC));
    while (r.PendingCount()) r.Complete(0, PASS);
  }
  for (int id = 2; id < 4; ++id) r.Do(Spec(kind, id, ASYNC));      // kept
  r.cfg.modes = {PASS, QUEUE, ERROR};
  r.cfg.max_nested = max_nested;
  Alphabet a;
  a.calls = {Spec(kind, 0, ASYNC), Spec(kind, 2, ASYNC)};
  a.answers = {PASS, DENY};
  a.advance = {1100};
  for (int i = 0; i < depth; ++i) Event(&r, a);
  r.Finish();
}
// Long chains: every completion or transport calls again, up to `depth` deep.
static void Chains(int depth) {
  int kind = mc::choose(4, "kind"), k = kind % 3;
  ClientCfg c;
  int cap = mc::choose(4, "capacity");
  c.check_cap = c.quota_cap = c.report_cap = cap == 3 ? 100 : cap;
  c.modes = {mc::choose(2, "answers") ? DENY : PASS};
  c.chain = 1 << mc::choose(3, "who calls");
  const bool fresh = mc::choose(2, "identities");
  const int how = mc::choose(3, "how");
  for (int i = 0; i < (fresh ? depth : 1); ++i) {
    const int kk = kind == 3 ? i % 3 : k;
    c.nested.push_back(Spec(kk, fresh ? i : 0, how == 0 ? ASYNC : how == 1 ? SYNC : PER_REQUEST, how == 0 && kk != QUOTA && i % 3 == 1));
  }
  c.max_nested = depth;
  ClientRun r(c, P);
  r.Do(Spec(k, 0, ASYNC));
  r.Advance(1100);
  r.Tick();
  r.Do(Spec(k, 1, PER_REQUEST));
  r.Finish();
}
int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C28", {
    {"inline", [](int d) { Inline(d, P); }, {3, 4}, {3, 4, 5}, "events", false, "transports that keep or complete every request inline in every way"},
    {"reenter-1", [](int d) { Reenter(d, 1); }, {2, 3, 4}, {2, 3, 4, 5}, "events", false, "one call from any transport or completion"},
    {"reenter-2", [](int d) { Reenter(d, 2); }, {2}, {2, 3, 4}, "events", false, "two calls from any transports or completions, at any nesting"},
    {"reenter-3", [](int d) { Reenter(d, 3); }, {1}, {1, 2}, "events", false, "three calls from any transports or completions, at any nesting"},
    {"due", [](int d) { Due(d, 1); }, {1, 2, 3}, {2, 3, 4}, "events", false, "flushes of several due entries, inline completion, one call from within"},
    {"answers", [](int d) { Answers(d, 1); }, {1, 2}, {2, 3, 4}, "events", false, "answers which arrive while other entries are due"},
    {"chains", Chains, {7, 40, 100}, {7, 40, 100, 400}, "calls", false, "one call inside another, up to 100 deep"},
    {"due-2", [](int d) { Due(d, 2); }, {1}, {1, 2, 3}, "events", false, "the same with two calls from within"},
  });
}
