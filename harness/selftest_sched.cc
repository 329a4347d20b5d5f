// The scheduler must find these planted errors (and stay quiet on the last ones).
// Run: vmc.py selftest.  Every scenario but the "ok-*" ones must be violated.
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include "common.h"
#include "vsched.h"
static void Two(std::function<void()> a, std::function<void()> b) { std::thread x(a), y(b); x.join(); y.join(); }
struct Box { int v = 0; ~Box() { v = -1; } };
__attribute__((noinline)) static void Del(Box* b) { asm volatile("" : "+r"(b)); delete b; }
int main(int argc, char** argv) {
  using std::mutex;
  return mc::run_main(argc, argv, "SELFTEST", {
    {"bad-race", [](int) { int v = 0; Two([&] { v++; }, [&] { v++; }); }, {0}, {0}, "preemptions"},
    {"bad-race-mutex", [](int) { int v = 0; mutex m; Two([&] { { std::lock_guard<mutex> l(m); v++; } }, [&] { { std::lock_guard<mutex> l(m); } int x = v; (void)x; v = 2; }); }, {1}, {1}, "preemptions"},
    {"bad-atomicity", [](int) { std::atomic<int> v(0); Two([&] { int x = v; v = x + 1; }, [&] { int x = v; v = x + 1; }); MC_CHECK(v == 2, "lost update"); }, {1}, {1}, "preemptions"},
    {"bad-deadlock", [](int) { mutex a, b; Two([&] { a.lock(); b.lock(); b.unlock(); a.unlock(); }, [&] { b.lock(); a.lock(); a.unlock(); b.unlock(); }); }, {1}, {1}, "preemptions"},
    {"bad-self-deadlock", [](int) { mutex a; a.lock(); a.lock(); }, {0}, {0}, "preemptions"},
    {"bad-free", [](int) { Box* p = new Box; std::atomic<bool> go(false); Two([&] { delete p; go = true; }, [&] { if (go) p->v = 1; }); }, {1}, {1}, "preemptions"},
    {"bad-double-free", [](int) { Box* p = new Box; Del(p); Del(p); }, {0}, {0}, "preemptions"},
    {"bad-lost-wakeup", [](int) {
       mutex m; std::condition_variable c; std::atomic<bool> ready(false);
       Two([&] { if (!ready) { std::unique_lock<mutex> l(m); c.wait(l); } }, [&] { ready = true; std::lock_guard<mutex> l(m); c.notify_one(); }); }, {1}, {1}, "preemptions"},
    {"bad-shared-ptr", [](int) { std::shared_ptr<int> s = std::make_shared<int>(1); Two([&] { s.reset(); }, [&] { std::shared_ptr<int> t = s; }); }, {1}, {1}, "preemptions"},
    {"bad-timeout", [](int) {
       std::promise<int> p; std::future<int> f = p.get_future(); std::thread t([&] { p.set_value(7); });
       bool got = f.wait_for(std::chrono::seconds(5)) == std::future_status::ready; t.join(); MC_CHECK(got, "timed out"); }, {0, 1}, {1}, "preemptions"},
    {"bad-timeout-cond", [](int) {
       mutex m; std::condition_variable c; bool ready = false, got = false;
       Two([&] { std::unique_lock<mutex> l(m); got = c.wait_for(l, std::chrono::seconds(5), [&] { return ready; }); }, [&] { std::lock_guard<mutex> l(m); ready = true; c.notify_one(); });
       MC_CHECK(got, "timed out"); }, {0, 1, 2}, {2}, "preemptions"},
    {"bad-timeout-mutex", [](int) {
       std::timed_mutex m; bool got = false;
       Two([&] { got = m.try_lock_for(std::chrono::seconds(5)); if (got) m.unlock(); }, [&] { m.lock(); m.unlock(); });
       MC_CHECK(got, "timed out"); }, {0, 1, 2}, {2}, "preemptions"},
    {"bad-trylock", [](int) {
       mutex m; bool got = false;
       Two([&] { got = m.try_lock(); if (got) m.unlock(); }, [&] { m.lock(); m.unlock(); });
       MC_CHECK(got, "busy"); }, {0, 1, 2}, {2}, "preemptions"},
    {"ok-timeout", [](int) {
       std::promise<int> p; std::future<int> f = p.get_future(); std::thread t([&] { p.set_value(7); });
       while (f.wait_for(std::chrono::seconds(5)) != std::future_status::ready) {} t.join(); }, {0, 1, 2}, {2}, "preemptions"},
    {"ok-timeout-cond", [](int) {
       mutex m; std::condition_variable c; bool ready = false;
       Two([&] { std::unique_lock<mutex> l(m); while (!c.wait_for(l, std::chrono::seconds(5), [&] { return ready; })) {} }, [&] { std::lock_guard<mutex> l(m); ready = true; c.notify_one(); }); }, {0, 1, 2}, {2}, "preemptions"},
    {"ok-mutex", [](int) { int v = 0; mutex m; Two([&] { std::lock_guard<mutex> l(m); v++; }, [&] { std::lock_guard<mutex> l(m); v++; }); MC_CHECK(v == 2, "lost"); }, {0, 1, 2, 3}, {3}, "preemptions"},
    {"ok-future", [](int) { std::promise<int> p; std::future<int> f = p.get_future(); std::thread t([](std::promise<int> q) { q.set_value(7); }, std::move(p)); MC_CHECK(f.get() == 7, "value"); t.join(); }, {0, 1, 2}, {2}, "preemptions"},
    {"ok-shared-ptr", [](int) { std::shared_ptr<Box> s = std::make_shared<Box>(), t = s; Two([&] { s->v; s.reset(); }, [&] { t->v; t.reset(); }); }, {0, 1, 2, 3}, {3}, "preemptions"},
    {"ok-cond", [](int) { mutex m; std::condition_variable c; bool ready = false;
       Two([&] { std::unique_lock<mutex> l(m); while (!ready) c.wait(l); }, [&] { std::lock_guard<mutex> l(m); ready = true; c.notify_one(); }); }, {0, 1, 2, 3}, {3}, "preemptions"},
    {"ok-once", [](int) { static int n; n = 0; std::once_flag f; Two([&] { std::call_once(f, [&] { n++; }); MC_CHECK(n == 1, "n"); }, [&] { std::call_once(f, [&] { n++; }); MC_CHECK(n == 1, "n"); }); }, {0, 1, 2, 3}, {3}, "preemptions"},
    {"ok-messages", [](int) {
       h::Operation* o = new h::Operation; o->set_operation_name("x"); mutex m;
       Two([&] { std::lock_guard<mutex> l(m); h::Operation c(*o); h::AddInt64(&c, "m", 1); (*c.mutable_labels())["a"] = "b"; *o = c; },
           [&] { std::lock_guard<mutex> l(m); h::Operation c(*o); (void)h::Text(c); });
       delete o; }, {0, 1, 2, 3}, {3}, "preemptions"},
  });
}
