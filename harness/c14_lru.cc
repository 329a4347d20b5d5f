// C14: the LRU cache against its reference model (content).
#include "lru_driver.h"
using namespace h;
// The plain owning cache: values are deleted by the cache itself.
static int g_live;
struct Counted { Counted() { ++g_live; } ~Counted() { --g_live; } };
static void Owning(int depth) {
  g_live = 0;
  {
    SimpleLRUCache<int, Counted> c(2);
    std::vector<std::pair<int, Counted*>> pins;
    for (int i = 0; i < depth; ++i) {
      int k = mc::choose(2, "key");
      switch (mc::choose(5, "op")) {
        case 0: c.Insert(k, new Counted, 1); break;
        case 1: if (Counted* v = c.Lookup(k)) pins.push_back({k, v}); break;
        case 2: c.Remove(k); break;
        case 3: if (!pins.empty()) { auto p = pins[0]; pins.erase(pins.begin()); c.Release(p.first, p.second); } break;
        case 4: { Counted* v = new Counted; c.InsertPinned(k, v, 1); pins.push_back({k, v}); } break;
      }
      mc::step();
      std::set<Counted*> all;
      for (auto& p : pins) all.insert(p.second);
      for (auto it = c.begin(); it != c.end(); ++it) all.insert(it->second);
      MC_CHECK((int)all.size() == g_live, "%d values alive, %zu held or pinned", g_live, all.size());
      mc::validated();
    }
    for (auto& p : pins) c.Release(p.first, p.second);
    c.Clear();
  }
  MC_CHECK(g_live == 0, "%d values leaked", g_live);
  mc::outcome("clean");
}
int main(int argc, char** argv) {
  const int P = L_CONTENT;
  return mc::run_main(argc, argv, "C14", {
    {"sequences", [=](int d) { LruSequences(d, P, true); }, {3, 4, 5}, {3, 4, 5}, "operations", false, "all operation sequences in plain, idle-expiry and age-expiry mode"},
    {"merged", [=](int d) { LruMerged(d, P, true); }, {4, 6, 7}, {4, 6, 7, 8, 9}, "operations", true, "the same alphabet with three capacities, revisited model states merged"},
    {"limits", [=](int d) { LruLimits(d, P); }, {4, 6}, {4, 6, 7, 8, 9}, "operations", true, "time limits changed while entries are held, sizes 0 and 2^31, scoped lookups; revisited model states merged"},
    {"deferred", [=](int d) { LruDeferred(d, P); }, {4, 6}, {4, 6, 7, 8, 9}, "operations", true, "several pinned values of one key that left the cache; revisited model states merged"},
    {"many", [=](int c) { LruMany(c, P); }, {5, 64, 257}, {5, 64, 257, 1000}, "capacity", false, "whole content after bulk insertion, access and removal at sizes around the capacity"},
    {"owning", Owning, {4, 5, 6}, {4, 5, 6, 7}, "operations", false, "cache that deletes its values: live objects equal held plus pinned"},
  });
}
