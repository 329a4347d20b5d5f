// C27: the periodic flush runs at the shortest interval and covers all caches.
#include "client_scenarios.h"
using namespace h;
static const int P = F_TIMER;

// Every combination of enabled caches and intervals; then one round of ticks.
static void Create(int level) {
  static const int iv[] = {1000, 0, 400, 1500, 7200000, 2000000000, 1, 2147483647};
  int n = 6 + 2 * level;
  ClientCfg c;
  c.timer = mc::choose(2, "factory") == 0;
  int caps = mc::choose(8, "disabled");
  if (caps & 1) c.check_cap = 0;
  if (caps & 2) c.quota_cap = 0;
  if (caps & 4) c.report_cap = 0;
  c.check_flush = iv[mc::choose(n)];
  c.quota_refresh = iv[mc::choose(n)];
  c.report_flush = iv[mc::choose(n)];
  if (mc::choose(2)) c.check_expire = c.quota_expire = 700;
  ClientRun r(c, P);
  mc::step();
  mc::state(c.Text() + (c.timer ? "" : " no timer"));
  for (int k = 0; k < 3; ++k) { r.Do(Spec(k, 0, ASYNC)); r.Do(Spec(k, 0, PER_REQUEST)); }
  while (r.PendingCount()) r.Complete(0, PASS);
  for (int i = 0; i < 4; ++i) {
    if (i == 1) for (int k = 0; k < 3; ++k) r.Do(Spec(k, 0, ASYNC));
    while (r.PendingCount()) r.Complete(0, PASS);
    r.Advance(i == 3 ? 3100 : 500);
    r.Tick();
  }
  r.Finish();
}
// Sequences of calls, time and ticks.
static void Ticks(int depth) {
  ClientCfg c;
  int v = mc::choose(4, "cache");
  if (v == 1) c.check_flush = 700, c.report_flush = 400, c.quota_refresh = 1500;
  if (v == 2) c.check_cap = 0;
  if (v == 3) c.quota_cap = 2, c.report_cap = 1, c.check_cap = 1;
  Alphabet a;
  for (int k = 0; k < 3; ++k) a.calls.push_back(Spec(k, 0, ASYNC));
  a.calls.push_back(Spec(REPORT, 1, PER_REQUEST));
  a.answers = {PASS};
  a.advance = {400, 1100};
  Sequence(c, a, depth, P);
}
// Data cached by a few calls, then ticks alone.
static void Alone(int depth) {
  ClientCfg c;
  if (mc::choose(2)) c.check_flush = 600, c.quota_refresh = 800, c.report_flush = 500;
  ClientRun r(c, P);
  for (int i = 0; i < 3; ++i) {
    int k = mc::choose(3, "call");
    r.Do(Spec(k, i % 2, ASYNC));
    r.Do(Spec(k, i % 2, ASYNC));
    while (r.PendingCount()) r.Complete(0, mc::choose(2) ? DENY : PASS);
    r.Do(Spec(k, i % 2, PER_REQUEST));
  }
  static const int step[] = {300, 500, 1000, 3000};
  for (int i = 0; i < depth; ++i) { r.Advance(step[mc::choose(4, "time")]); r.Tick(); }
  r.Advance(3000);
  r.Tick();
  r.Conserved(false, "long after the last call and a tick");
  r.Finish();
}
int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C27", {
    {"creation", Create, {0}, {0, 1}, "alphabet", false, "every combination of enabled caches and intervals, with and without a factory"},
    {"ticks", Ticks, {3, 4, 5, 6}, {3, 4, 5, 6, 7}, "events", false, "all sequences of calls, answers, time and ticks"},
    {"alone", Alone, {2, 3, 4}, {2, 3, 4, 5}, "ticks", false, "cached data and ticks alone"},
  });
}
