// C10: one outstanding allocation, answers never block.
#include "quota_driver.h"
#include "large_driver.h"
using namespace h;
int main(int argc, char** argv) {
  const int P = Q_ONE;
  return mc::run_main(argc, argv, "C10", {
    {"sequences", [=](int d) { QuotaSequences(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "operations", false, "all sequences of quota calls, responses, clock advances and flushes"},
    {"primed", [=](int d) { QuotaPrimed(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "operations", false, "all continuations after a first response with and without accumulated tokens"},
    {"contents", [=](int d) { QuotaContents(d, P); }, {3, 4}, {3, 4, 5, 6}, "operations", false, "every error code of a response, one and two errors, every quota mode"},
    {"repeat", [=](int d) { QuotaRepeat(d, P); }, {2, 3}, {2, 3, 4}, "operations", false, "the same operation up to 257 times in a row, operation ids unique, repeated or missing"},
    {"scale", [=](int c) { QuotaScale(c, P); }, {16, 64, 300}, {16, 64, 300, 1000}, "capacity", false, "caches of realistic size with capacity - 1 to capacity + 13 identities"},
    {"large", LargeQuota, {1024, 10000}, {1024, 10000, 65536}, "capacity", false, "caches of the default size and beyond with capacity - 1 to capacity + 300 identities"},
    {"merged", [=](int d) { QuotaMerged(d, P); }, {5, 8}, {5, 8, 10, 12}, "operations", true, "the same alphabet, revisited model states merged"},
    {"capacity", [=](int d) { QuotaCapacity(d, P); }, {3, 4, 5}, {3, 4, 5, 6, 7}, "operations", false, "more identities than the capacity of 1 to 3"},
  });
}
