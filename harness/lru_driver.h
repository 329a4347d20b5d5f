// Drives SimpleLRUCacheWithDeleter through every operation sequence against a
// list-and-pins reference model.
#ifndef VERIF_LRU_DRIVER_H_
#define VERIF_LRU_DRIVER_H_
#include "mc.h"
#include <algorithm>
#include <limits>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "google/protobuf/stubs/common.h"
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"

namespace h {
using namespace ::google::service_control_client;
using std::string;
enum { L_CONTENT = 1, L_PINS = 2 };
struct Val { int serial; };
enum LruMode { PLAIN, IDLE, AGE };

class LruRun {
 public:
  typedef SimpleLRUCacheWithDeleter<string, Val, std::function<void(Val*)>> Cache;
  struct Ent { int serial; string key; int units, pins; bool linked; int64_t last; };
  struct Pin { int serial; string key; Val* v; bool update; };

  LruRun(LruMode m, int max, int64_t timeout_us, int checks) : mode(m), max_(max), timeout_(timeout_us), checks_(checks),
      cache_(new Cache(max, [this](Val* v) {
        if (checks_ & L_PINS) {
          MC_CHECK(!dead_.count(v->serial), "value %d destroyed twice", v->serial);
          for (auto& p : pins_) MC_CHECK(p.serial != v->serial, "value %d destroyed while pinned", v->serial);
        }
        dead_.insert(v->serial);
        v->serial = -1 - v->serial;
        graveyard_.push_back(v);
      })) {
    if (m == IDLE) cache_->SetMaxIdleSeconds(timeout_us / 1e6);
    if (m == AGE) cache_->SetAgeBasedEviction(timeout_us / 1e6);
  }
  ~LruRun() {
    while (!pins_.empty()) Unpin(0);
    cache_->Clear();
    for (auto& kv : mine_) if (!dead_.count(kv.first)) delete kv.second;
    for (Val* v : graveyard_) delete v;
  }
  void Insert(const string& k, int units, bool pinned) {
    Val* v = new Val{++serial_};
    mine_[serial_] = v;
    units_[serial_] = units;
    keyof_[serial_] = k;
    mc::trace("Insert%s(%s, value %d, %d units)", pinned ? "Pinned" : "", k.c_str(), serial_, units);
    MRemove(k);
    table_.push_back({serial_, k, units, 1, false, mc::now_us});
    if (mode == AGE) Link(serial_);
    if (pinned) {
      pins_.push_back({serial_, k, v, true});
      cache_->InsertPinned(k, v, units);
      Gc();
    } else {
      cache_->Insert(k, v, units);
      Gc();
      MUnpin(serial_, true);
    }
    Settle("insert");
  }
  bool Lookup(const string& k, bool update = true) {
    SimpleLRUCacheOptions o; o.set_update_eviction_order(update);
    Val* v = update ? cache_->Lookup(k) : cache_->LookupWithOptions(k, o);
    mc::trace("Lookup(%s, update=%d) -> %d", k.c_str(), update, v ? v->serial : 0);
    MExpire();
    Ent* e = FindKey(k);
    int want = e ? e->serial : 0, got = v ? v->serial : 0;
    if (want != got) { if (checks_ & L_CONTENT) mc::fail("lookup of %s finds value %d, expected %d", k.c_str(), got, want); mc::prune(); }
    if (v) {
      if (mode != AGE && update) Unlink(e->serial);
      e->pins++;
      pins_.push_back({got, k, v, update});
    }
    Settle("lookup");
    return v != nullptr;
  }
  void Unpin(size_t i) {
    Pin p = pins_[i];
    pins_.erase(pins_.begin() + i);
    mc::trace("Release(%s, value %d, update=%d)", p.key.c_str(), p.serial, p.update);
    SimpleLRUCacheOptions o; o.set_update_eviction_order(p.update);
    if (p.update) cache_->Release(p.key, p.v); else cache_->ReleaseWithOptions(p.key, p.v, o);
    MUnpin(p.serial, p.update);
    Settle("release");
  }
  void Remove(const string& k) { mc::trace("Remove(%s)", k.c_str()); cache_->Remove(k); MRemove(k); Settle("remove"); }
  void RemoveAll() { mc::trace("RemoveAll"); cache_->RemoveAll(); while (!table_.empty()) MRemove(table_[0].key); Settle("remove-all"); }
  void RemoveUnpinned() {
    mc::trace("RemoveUnpinned"); cache_->RemoveUnpinned();
    for (size_t i = 0; i < table_.size();) if (table_[i].pins == 0) MRemove(table_[i].key); else ++i;
    Settle("remove-unpinned");
  }
  void Clear() { if (!pins_.empty()) return; mc::trace("Clear"); cache_->Clear(); table_.clear(); order_.clear(); Settle("clear"); }
  void Sweep() { mc::trace("RemoveExpiredEntries"); cache_->RemoveExpiredEntries(); MExpire(); Settle("expiry sweep"); }
  void SetMax(int n) { mc::trace("SetMaxSize(%d)", n); cache_->SetMaxSize(n); max_ = n; Gc(); Settle("size change"); }
  void UpdateSize(const string& k, int units, int serial) {
    mc::trace("UpdateSize(%s, value %d, %d)", k.c_str(), serial, units);
    cache_->UpdateSize(k, serial ? mine_[serial] : nullptr, units);
    Ent* e = FindKey(k);
    if (e && (serial == 0 || serial == e->serial)) { e->units = units; units_[e->serial] = units; }
    else for (auto& d : defer_) if (d.key == k && (serial == 0 || d.serial == serial)) { d.units = units; units_[d.serial] = units; }
    Gc();
    Settle("size update");
  }
  // A new time limit, of the kind the mode already has. Negative or infinite: none.
  void SetTimeout(double seconds) {
    mc::trace("%s(%g)", mode == AGE ? "SetAgeBasedEviction" : "SetMaxIdleSeconds", seconds);
    if (mode == AGE) cache_->SetAgeBasedEviction(seconds); else cache_->SetMaxIdleSeconds(seconds);
    timeout_ = seconds < 0 || seconds * 1e6 >= 9e18 ? -1 : (int64_t)(seconds * 1e6);
    if (mode == PLAIN) mode = IDLE;
    MExpire();
    Settle("new time limit");
  }
  // Looks up and releases through the scoped helper.
  void Scoped(const string& k, bool update) {
    SimpleLRUCacheOptions o; o.set_update_eviction_order(update);
    mc::trace("ScopedLookup(%s, update=%d)", k.c_str(), update);
    MExpire();
    Ent* e = FindKey(k);
    int want = e ? e->serial : 0;
    {
      Cache::ScopedLookup plain_first(cache_.get(), k, o);
      Val* v = plain_first.value();
      int got = v ? v->serial : 0;
      if (want != got || plain_first.Found() != (v != nullptr) || plain_first.key() != k) {
        if (checks_ & L_CONTENT) mc::fail("scoped lookup of %s finds value %d, expected %d", k.c_str(), got, want);
        mc::prune();
      }
      if (e) { if (mode != AGE && update) Unlink(want); FindKey(k)->pins++; pins_.push_back({got, k, v, update}); }
      Settle("scoped lookup");
      if (e) pins_.pop_back();
    }
    if (want) MUnpin(want, update);
    Settle("end of the scoped lookup");
  }
  void Check() { Settle("all operations"); }
  bool quiet = false;       // compare only when told to
  void Advance(int64_t us) { mc::advance_us(us); mc::trace("clock +%lld", (long long)us); }

  size_t pins() const { return pins_.size(); }
  int last_serial() const { return serial_; }
  Pin pin(size_t i) const { return pins_[i]; }
  bool alive(int serial) const { return mine_.count(serial) && !dead_.count(serial); }
  bool has(const string& k) { return FindKey(k); }
  void Finish() {
    while (!pins_.empty()) Unpin(0);
    cache_->Clear();
    if (checks_ & L_PINS) for (auto& kv : mine_) MC_CHECK(dead_.count(kv.first), "value %d never destroyed", kv.first);
    table_.clear(); order_.clear();
    mc::outcome(log_);
  }
  string State() const {
    string s = mc::strf("%d/%d|", mode, max_);
    std::map<int, int> rank;
    for (int x : order_) rank[x] = (int)rank.size();
    std::vector<Ent> t = table_;
    std::sort(t.begin(), t.end(), [](const Ent& a, const Ent& b) { return a.key < b.key; });
    for (auto& e : t) s += mc::strf("%s,%d,%d,%d,%lld;", e.key.c_str(), e.units, e.pins, e.linked ? rank[e.serial] : -1, (long long)std::min<int64_t>(mc::now_us - e.last, timeout_ < 0 ? 5000 : timeout_ + 1));
    s += mc::strf("|%lld|", (long long)timeout_);
    for (auto& d : defer_) s += mc::strf("%s,%d,%d;", d.key.c_str(), d.units, d.pins);
    s += "|";
    for (auto& p : pins_) s += mc::strf("%s%d%d ", p.key.c_str(), p.update, IsDeferred(p.serial));
    return s;
  }
  LruMode mode;

  std::vector<string> Keys() const {
    std::set<string> r = {"a", "b", "c"};
    if (keyof_.size() < 50) for (auto& k : keyof_) r.insert(k.second);
    return std::vector<string>(r.begin(), r.end());
  }

 private:
  Ent* FindKey(const string& k) { for (auto& e : table_) if (e.key == k) return &e; return nullptr; }
  Ent* FindSerial(int s) { for (auto& e : table_) if (e.serial == s) return &e; return nullptr; }
  bool IsDeferred(int s) const { for (auto& e : defer_) if (e.serial == s) return true; return false; }
  void Link(int s) { order_.push_back(s); FindSerial(s)->linked = true; }
  void Unlink(int s) { order_.erase(std::remove(order_.begin(), order_.end(), s), order_.end()); if (Ent* e = FindSerial(s)) e->linked = false; }
  void MRemove(const string& k) {
    for (size_t i = 0; i < table_.size(); ++i) if (table_[i].key == k) {
      Ent e = table_[i];
      Unlink(e.serial);
      e.linked = false;
      table_.erase(table_.begin() + i);
      if (e.pins > 0) defer_.push_back(e);
      return;
    }
  }
  int64_t Total() const { int64_t t = 0; for (auto& e : table_) t += e.units; for (auto& e : defer_) t += e.units; return t; }
  void Gc() {
    for (size_t i = 0; i < order_.size() && Total() > max_;) {
      Ent* e = FindSerial(order_[i]);
      if (e->pins == 0) MRemove(e->key); else ++i;
    }
  }
  void MExpire() {
    if (mode == PLAIN || timeout_ < 0) return;
    for (size_t i = 0; i < order_.size();) {
      Ent* e = FindSerial(order_[i]);
      if (mc::now_us - e->last > timeout_) MRemove(e->key); else ++i;
    }
  }
  void MUnpin(int s, bool update) {
    for (size_t i = 0; i < defer_.size(); ++i) if (defer_[i].serial == s) {
      if (--defer_[i].pins == 0) defer_.erase(defer_.begin() + i);
      return;
    }
    Ent* e = FindSerial(s);
    if (!e) return;
    if (mode != AGE && update) e->last = mc::now_us;
    if (--e->pins == 0) {
      if (mode != AGE && !e->linked) { e->last = mc::now_us; Link(s); }
      if (Total() > max_) MRemove(e->key);
    }
  }
  void Settle(const char* what) {
    mc::step();
    if (quiet) return;
    // Observation: iteration.
    std::map<string, int> seen;
    int64_t n = 0;
    for (auto it = cache_->begin(); it != cache_->end(); ++it) {
      ++n;
      seen[it->first] = it->second->serial;
      if (checks_ & L_CONTENT) {
        Ent* e = FindKey(it->first);
        MC_CHECK(e && e->serial == it->second->serial, "after %s: cache holds %s=%d, expected %s", what, it->first.c_str(), it->second->serial, e ? mc::strf("%d", e->serial).c_str() : "nothing");
        MC_CHECK(it.last_use_time() == e->last, "after %s: last use/insertion of %s differs", what, it->first.c_str());
      }
    }
    bool same = n == (int64_t)table_.size();
    for (auto& e : table_) same = same && seen.count(e.key) && seen[e.key] == e.serial;
    if (checks_ & L_CONTENT) {
      MC_CHECK(same, "after %s: %lld entries held, expected %zu", what, (long long)n, table_.size());
      MC_CHECK(cache_->Entries() == (int64_t)table_.size(), "after %s: Entries()=%lld, expected %zu", what, (long long)cache_->Entries(), table_.size());
      MC_CHECK(cache_->Size() == Total(), "after %s: Size()=%lld, expected %lld", what, (long long)cache_->Size(), (long long)Total());
      MC_CHECK(cache_->MaxSize() == max_, "MaxSize()=%lld", (long long)cache_->MaxSize());
      int64_t age = order_.empty() ? 0 : mc::now_us - FindSerial(order_[0])->last;
      MC_CHECK(cache_->AgeOfLRUItemInMicroseconds() == age, "after %s: age of the oldest item %lld, expected %lld", what, (long long)cache_->AgeOfLRUItemInMicroseconds(), (long long)age);
      for (const string& k : Keys()) {
        Ent* e = FindKey(k);
        int64_t want = e ? e->last : -1, got = mode == AGE ? cache_->GetInsertionTime(k) : cache_->GetLastUseTime(k);
        MC_CHECK(got == want, "after %s: time of %s is %lld, expected %lld", what, k.c_str(), (long long)got, (long long)want);
      }
    }
    if (checks_ & L_PINS) {
      // From what the cache itself lists, not from the model.
      std::set<int> pinned; for (auto& p : pins_) pinned.insert(p.serial);
      std::set<int> listed; for (auto& s : seen) listed.insert(s.second);
      int64_t psize = 0, dsize = 0, dn = 0;
      for (auto& kv : mine_) {
        int s = kv.first;
        bool in = listed.count(s), pin = pinned.count(s);
        const string& k = keyof_[s];
        MC_CHECK(!dead_.count(s) == (in || pin), "after %s: value %d is %s although it is %sin the cache and %spinned", what, s, dead_.count(s) ? "destroyed" : "still alive", in ? "" : "not ", pin ? "" : "not ");
        if (!dead_.count(s)) {
          MC_CHECK(kv.second->serial == s, "value %d overwritten", s);
          MC_CHECK(cache_->StillInUse(k, kv.second), "after %s: value %d (%s) not reported as in use", what, s, k.c_str());
          if (in && pin) psize += units_[s];
          if (!in && pin) { dsize += units_[s]; ++dn; }
        } else {
          MC_CHECK(!cache_->StillInUse(k, kv.second), "after %s: destroyed value %d reported as in use", what, s);
        }
      }
      for (const string& k : Keys()) {
        bool any = false; for (auto& kv : mine_) if (!dead_.count(kv.first) && keyof_[kv.first] == k) any = true;
        MC_CHECK(cache_->StillInUse(k) == any, "after %s: StillInUse(%s)=%d", what, k.c_str(), !any);
      }
      MC_CHECK(cache_->PinnedSize() == psize, "after %s: PinnedSize()=%lld, expected %lld", what, (long long)cache_->PinnedSize(), (long long)psize);
      MC_CHECK(cache_->DeferredSize() == dsize && cache_->DeferredEntries() == dn, "after %s: deferred %lld units in %lld entries, expected %lld in %lld", what, (long long)cache_->DeferredSize(), (long long)cache_->DeferredEntries(), (long long)dsize, (long long)dn);
    }
    for (auto& s : seen) log_ += mc::strf("%s%d", s.first.c_str(), s.second);
    log_ += ";";
    if (!same) mc::prune();
    mc::validated();
  }

  int max_;
  int64_t timeout_;
  int checks_;
  int serial_ = 0;
  std::vector<Ent> table_, defer_;
  std::vector<int> order_;          // oldest first
  std::vector<Pin> pins_;
  std::map<int, Val*> mine_;
  std::map<int, int> units_;
  std::map<int, string> keyof_;
  std::set<int> dead_;
  std::vector<Val*> graveyard_;
  string log_;
  std::unique_ptr<Cache> cache_;
};

inline void LruStep(LruRun* r, bool peeks) {
  switch (mc::choose(peeks ? 28 : 24, "op")) {
    case 0: r->Insert("a", 1, false); break;
    case 1: r->Insert("b", 1, false); break;
    case 2: if (r->Lookup("a")) r->Unpin(r->pins() - 1); break;
    case 3: r->Lookup("a"); break;
    case 4: if (r->pins() == 0) mc::prune(); r->Unpin(0); break;
    case 5: r->Insert("c", 1, false); break;
    case 6: r->Remove("a"); break;
    case 7: r->Insert("a", 1, true); break;
    case 8: r->Advance(1000); if (r->mode == PLAIN) mc::prune(); break;
    case 9: r->Advance(500); break;
    case 10: r->Advance(1); if (r->mode == PLAIN) mc::prune(); break;
    case 11: r->Sweep(); break;
    case 12: r->Insert("b", 2, false); break;
    case 13: r->Insert("a", 3, false); break;
    case 14: if (r->pins() < 2) mc::prune(); r->Unpin(r->pins() - 1); break;
    case 15: r->UpdateSize("a", 2, 0); break;
    case 16: if (r->pins() == 0) mc::prune(); r->UpdateSize(r->pin(0).key, 2, r->pin(0).serial); break;
    case 17: r->SetMax(1); break;
    case 18: r->SetMax(3); break;
    case 19: r->RemoveAll(); break;
    case 20: r->RemoveUnpinned(); break;
    case 21: r->Clear(); break;
    case 22: r->Lookup("b"); break;
    case 23: r->Insert("b", 2, true); break;
    case 24: if (r->Lookup("a", false)) r->Unpin(r->pins() - 1); break;
    case 25: r->Lookup("a", false); break;
    case 26: r->Lookup("b", false); break;
    case 27: if (r->pins() < 2) mc::prune(); r->Unpin(1); break;
  }
}
inline void LruSequences(int depth, int checks, bool peeks) {
  LruMode m = (LruMode)mc::choose(3, "mode");
  LruRun r(m, 2, 1000, checks);
  for (int i = 0; i < depth; ++i) { LruStep(&r, peeks); mc::state(r.State()); }
  r.Finish();
}
inline void LruMerged(int depth, int checks, bool peeks) {
  LruMode m = (LruMode)mc::choose(3, "mode");
  LruRun r(m, 1 + mc::choose(3, "capacity"), 1000, checks);
  for (int i = 0; i < depth; ++i) {
    if (mc::seen(r.State(), i)) { r.Finish(); mc::prune(); }
    LruStep(&r, peeks);
  }
  r.Finish();
}
// Several pinned values of one key that left the cache.
inline void LruDeferred(int depth, int checks) {
  LruMode m = (LruMode)mc::choose(3, "mode");
  LruRun r(m, 2 + 2 * mc::choose(2, "capacity"), 1000, checks);
  for (int i = 0; i < depth; ++i) {
    if (mc::seen(r.State(), i)) { r.Finish(); mc::prune(); }
    int op = mc::choose(14, "op");
    if (op >= 5 && op < 11 && (int)r.pins() <= (op - 5) / 2) mc::prune();
    switch (op) {
      case 0: r.Insert("a", 1, true); break;
      case 1: r.Insert("a", 2, true); break;
      case 2: r.Insert("b", 1, true); break;
      case 3: r.Remove("a"); break;
      case 4: r.Lookup("a"); break;
      case 5: case 7: case 9: r.Unpin((op - 5) / 2); break;
      case 6: case 8: case 10: { auto p = r.pin((op - 5) / 2); r.UpdateSize(p.key, 3, p.serial); break; }
      case 11: r.UpdateSize("a", 5, 0); break;
      case 12: r.UpdateSize("b", 0, 0); break;
      case 13: r.RemoveAll(); break;
    }
  }
  r.Finish();
}
// Time limits that change while entries are held, extreme sizes, scoped lookups.
inline void LruLimits(int depth, int checks) {
  LruMode m = (LruMode)mc::choose(3, "mode");
  LruRun r(m, 2, 1000, checks);
  static const double limits[] = {-1, 0, 0.0005, 0.002, 1e300, std::numeric_limits<double>::infinity()};
  for (int i = 0; i < depth; ++i) {
    if (mc::seen(r.State(), i)) { r.Finish(); mc::prune(); }
    int op = mc::choose(17, "op");
    if (op < 6) r.SetTimeout(limits[op]);
    else switch (op) {
      case 6: r.Insert("a", 1, false); break;
      case 7: r.Insert("b", 1, true); break;
      case 8: r.Insert("a", 0, false); break;
      case 9: r.Insert("c", 2147483647, false); break;
      case 10: r.Lookup("a"); break;
      case 11: if (r.pins() == 0) mc::prune(); r.Unpin(0); break;
      case 12: r.Scoped("a", true); break;
      case 13: r.Scoped("a", false); break;
      case 14: r.Advance(500); break;
      case 15: r.Advance(1); break;
      case 16: r.Scoped("b", true); break;
    }
  }
  r.Finish();
}
// Many entries: the whole content after bulk operations, at sizes around the capacity.
inline void LruMany(int capacity, int checks) {
  LruMode m = (LruMode)mc::choose(3, "mode");
  LruRun r(m, capacity, 100000, checks);
  static const int deltas[] = {-1, 0, 1, 17};
  int n = capacity + deltas[mc::choose(4, "entries")];
  int units = mc::choose(3, "units"), access = mc::choose(6, "access"), then = mc::choose(8, "then");
  auto key = [](int i) { return mc::strf("key-%d", i); };
  r.quiet = true;
  for (int i = 0; i < n; ++i) { r.Insert(key(i), units == 0 ? 1 : units == 1 ? i % 3 : 0, access == 5 && i % 4 == 0); r.Advance(10); }
  r.quiet = false; r.Check(); r.quiet = true;
  for (int i = 0; i < n; ++i) {
    int k = access == 1 ? i : access == 2 ? n - 1 - i : access == 3 ? i * 7 % n : access == 4 ? i : -1;
    if (k < 0 || (access == 3 && i > n / 2)) break;
    if (access == 4) { if (i % 5 == 0) r.Scoped(key(k), i % 2); } else if (r.Lookup(key(k))) r.Unpin(r.pins() - 1);
    r.Advance(10);
  }
  r.quiet = false; r.Check(); r.quiet = true;
  switch (then) {
    case 0: for (int i = 0; i < n; ++i) { r.Insert(key(n + i), 1, false); r.Advance(1); } break;
    case 1: r.SetMax(n / 2); break;
    case 2: r.Advance(100000 - n * 5); r.Sweep(); break;
    case 3: r.RemoveUnpinned(); break;
    case 4: r.RemoveAll(); break;
    case 5: for (int i = 0; i < n; i += 2) r.Remove(key(i)); break;
    case 6: for (int i = 0; i < n; i += 3) r.Insert(key(i), 2, i % 2); break;
    case 7: while (r.pins()) r.Unpin(r.pins() / 2); r.Clear(); r.Insert("a", 1, false); break;
  }
  r.quiet = false;
  r.Check();
  mc::state(mc::strf("%d %d %d %d %d %d", m, capacity, n, units, access, then));
  r.quiet = true;
  r.Finish();
}
}  // namespace h
#endif
