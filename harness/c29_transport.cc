// C29: a per-request transport is used for that request only.
#include "client_scenarios.h"
using namespace h;
static const int P = F_VIA;
// Evictions, refreshes and flushes caused by calls with their own transport.
static void Displace(int depth) {
  int kind = mc::choose(3, "kind");
  ClientCfg c;
  c.check_cap = c.quota_cap = c.report_cap = 1 + mc::choose(2, "capacity");
  if (mc::choose(2, "client-wide")) c.missing = 1 << kind;
  Alphabet a;
  for (int id = 0; id < 2; ++id) for (int how : {ASYNC, PER_REQUEST}) a.calls.push_back(Spec(kind, id, how));
  a.calls.push_back(Spec(kind, 0, PER_REQUEST, true));
  a.answers = {PASS};
  a.advance = {1000};
  a.destroy = true;
  Sequence(c, a, depth, P);
}
int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C29", {
    {"one-kind", [](int d) { OneKind(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "events", false, "all call styles, kept and answered requests, ticks and time for one kind of request"},
    {"displace", Displace, {3, 4, 5}, {3, 4, 5, 6}, "events", false, "evictions, refreshes and flushes caused by calls with their own transport"},
    {"mixed", [](int d) { Mixed(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "events", false, "all three kinds together"},
    {"contents", [](int d) { Contents(d, P); }, {2}, {2, 3}, "events", false, "fields left out of requests, and answers of any size and contents"},
    {"missing", [](int d) { Missing(d, P); }, {3, 4}, {3, 4, 5}, "events", false, "every combination of missing client-wide transports"},
  });
}
