// C01: every accepted operation is delivered exactly once (operation sequences).
#include "report_driver.h"
#include "large_driver.h"
using namespace h;
int main(int argc, char** argv) {
  const int P = P_CONSERVE;
  return mc::run_main(argc, argv, "C01", {
    {"sequences", [=](int d) { ReportSequences(d, P); }, {3, 4, 5}, {3, 4, 5, 6}, "operations", false, "all sequences of reports, clock advances and flushes for 6 configurations"},
    {"scale", [=](int c) { ReportScale(c, P); }, {16, 64, 300}, {16, 64, 300, 1000}, "capacity", false, "caches of realistic size with capacity - 1 to capacity + 13 identities"},
    {"large", LargeReport, {1024, 10000}, {1024, 10000, 65536}, "capacity", false, "caches of the default size and beyond with capacity - 1 to capacity + 300 identities"},
    {"bulk", [=](int n) { ReportBulk(n, P); }, {600, 1100}, {600, 1100, 5000, 10000}, "operations", false, "reports of up to 1025 (thorough: 10001) operations and flushes of as many entries"},
    {"long-names", [=](int d) { ReportLongNames(d, P); }, {2, 3}, {2, 3, 4}, "operations", false, "names of up to 70000 bytes that differ at their end"},
    {"merged", [=](int d) { ReportMerged(d, P); }, {5, 7}, {5, 7, 9, 11}, "operations", true, "the same alphabet, revisited observed states merged, 8 configurations"},
    {"batches", [=](int d) { ReportBatches(d, P); }, {3, 4}, {3, 4, 5}, "operations", false, "many identities: flush batches and capacity evictions"},
    {"repeat", [=](int d) { ReportRepeat(d, P); }, {2, 3}, {2, 3, 4}, "operations", false, "the same operation up to 257 times in a row, operation ids unique, repeated or missing"},
    {"totals", [=](int d) { ReportTotals(d); }, {2, 3}, {2, 3, 4}, "operations", false, "indistinguishable operations, up to 300 at a time: sums of everything accepted and delivered"},
    {"logs", [=](int d) { ReportLogs(d, P); }, {3}, {3, 4}, "operations", false, "log-entry limit: all ways of reaching and crossing 100 entries"},
  });
}
