// C19: every client call completes exactly once with the right result.
#include "client_scenarios.h"
using namespace h;
int main(int argc, char** argv) {
  const int P = F_DONE;
  return mc::run_main(argc, argv, "C19", {
    {"one-kind", [=](int d) { OneKind(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "events", false, "all call styles, kept and answered requests, ticks and time for one kind of request"},
    {"inline", [=](int d) { Inline(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "events", false, "transports that keep or complete every request inline in every way"},
    {"codes", [=](int d) { Codes(d, P); }, {1}, {1, 2}, "rounds", false, "every status code of a transport and every error code of a response"},
    {"mixed", [=](int d) { Mixed(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "events", false, "all three kinds together"},
    {"contents", [=](int d) { Contents(d, P); }, {2}, {2, 3}, "events", false, "fields left out of requests, and answers of any size and contents"},
    {"missing", [=](int d) { Missing(d, P); }, {3}, {3, 4, 5}, "events", false, "every combination of missing client-wide transports"},
  });
}
