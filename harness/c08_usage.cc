// C08: usage of cache-answered checks is flushed exactly once.
#include "check_driver.h"
#include "large_driver.h"
using namespace h;
int main(int argc, char** argv) {
  const int P = P_USAGE;
  return mc::run_main(argc, argv, "C08", {
    {"sequences", [=](int d) { CheckSequences(d, P, true); }, {3, 4, 5}, {3, 4, 5, 6}, "operations", false, "all sequences of checks, responses, clock advances and flushes for 6 configurations"},
    {"primed", [=](int d) { CheckPrimed(d, P, true); }, {3, 4}, {3, 4, 5, 6}, "operations", false, "all continuations after one or two cached responses"},
    {"contents", [=](int d) { CheckContents(d, P); }, {3, 4}, {3, 4, 5, 6}, "operations", false, "every error code of a response, one and two errors"},
    {"bare", [=](int d) { CheckBare(d, P); }, {3, 4}, {3, 4, 5, 6}, "operations", false, "checks without metrics, without log entries, without both"},
    {"repeat", [=](int d) { CheckRepeat(d, P); }, {2, 3}, {2, 3, 4}, "operations", false, "the same operation up to 257 times in a row, operation ids unique, repeated or missing"},
    {"scale", [=](int c) { CheckScale(c, P); }, {16, 64, 300}, {16, 64, 300, 1000}, "capacity", false, "caches of realistic size with capacity - 1 to capacity + 13 identities"},
    {"large", LargeCheck, {1024, 10000}, {1024, 10000, 65536}, "capacity", false, "caches of the default size and beyond with capacity - 1 to capacity + 300 identities"},
    {"merged", [=](int d) { CheckMerged(d, P, true); }, {5, 8}, {5, 8, 10, 12}, "operations", true, "the same alphabet, revisited model states merged, 8 configurations"},
  });
}
