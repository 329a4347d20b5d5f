// Linked if any code tries to lock without waiting for ever.
struct UnlockPoints { UnlockPoints(); } unlock_points;
namespace sched { extern bool unlock_points; }
UnlockPoints::UnlockPoints() { sched::unlock_points = true; }
