// C11: quota tokens are charged exactly once.
#include "client_names.h"
#include "quota_driver.h"
#include "large_driver.h"
using namespace h;
int main(int argc, char** argv) {
  const int P = Q_CHARGE;
  return mc::run_main(argc, argv, "C11", {
    {"sequences", [=](int d) { QuotaSequences(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "operations", false, "all sequences of quota calls, responses, clock advances and flushes"},
    {"primed", [=](int d) { QuotaPrimed(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "operations", false, "all continuations after a first response with and without accumulated tokens"},
    {"contents", [=](int d) { QuotaContents(d, P); }, {3, 4}, {3, 4, 5, 6}, "operations", false, "every error code of a response, one and two errors, every quota mode"},
    {"repeat", [=](int d) { QuotaRepeat(d, P); }, {2, 3}, {2, 3, 4}, "operations", false, "the same operation up to 257 times in a row, operation ids unique, repeated or missing"},
    {"amounts", [=](int d) { QuotaAmounts(d); }, {2, 3, 4}, {2, 3, 4, 5}, "operations", false, "amounts of every size and sign, metrics named once, twice, or none"},
    {"client", [](int) { ClientNames(2); }, {0}, {0}, "full", false, "service name and config id on whatever a whole client sends by itself"},
    {"times", QuotaTimes, {1, 2, 3}, {1, 2, 3}, "calls", false, "all presences and orders of value times, extreme ones included"},
    {"scale", [=](int c) { QuotaScale(c, P); }, {16, 64, 300}, {16, 64, 300, 1000}, "capacity", false, "caches of realistic size with capacity - 1 to capacity + 13 identities"},
    {"large", LargeQuota, {1024, 10000}, {1024, 10000, 65536}, "capacity", false, "caches of the default size and beyond with capacity - 1 to capacity + 300 identities"},
    {"merged", [=](int d) { QuotaMerged(d, P); }, {5, 8}, {5, 8, 10, 12}, "operations", true, "the same alphabet, revisited model states merged"},
    {"capacity", [=](int d) { QuotaCapacity(d, P); }, {3, 4, 5}, {3, 4, 5, 6, 7}, "operations", false, "more identities than the capacity of 1 to 3"},
  });
}
