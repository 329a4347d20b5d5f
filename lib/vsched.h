// Controlled scheduler + happens-before race detector for code compiled with
// -fsanitize=thread and linked against this runtime instead of libtsan.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <functional>
namespace sched {
// Harness-side bookkeeping: no scheduling points, no race checks inside.
void ignore_begin();
void ignore_end();
struct Ignore { Ignore() { ignore_begin(); } ~Ignore() { ignore_end(); } };
int tid();                 // controlled thread id (0 = main)
// Blocks the calling thread until pred() (evaluated inside the runtime) holds.
void wait_until(const std::function<bool()>& pred, const char* what);
void point();              // an explicit scheduling point
int live_threads();        // controlled threads not finished yet (including caller)
// A hand-over of data that a real program would synchronise.
void release(const void* channel);
void acquire(const void* channel);
// True if [p, p+n) was freed during this execution.
bool is_freed(const void* p);
}  // namespace sched
#endif
