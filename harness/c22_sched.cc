// C22: concurrent checks agree with some sequential order.
#include "check_driver.h"
#include "sched_common.h"
using namespace h;

enum { CHECK, PASS, FAIL, FLUSH, FLUSHALL, HIGH };
static const char* const kNames[] = {"check", "cache-pass", "cache-fail", "flush", "flush-all", "high"};
static const int kSetups = 8;

struct Sut {
  std::unique_ptr<CheckAggregator> agg;
  std::multiset<string> flushed;

  static CheckRequest Make(int n, int id) {
    CheckRequest r;
    r.set_service_name(kService);
    Operation* op = r.mutable_operation();
    op->set_operation_id(mc::strf("oid-%d", n));
    op->set_operation_name(id ? "op2" : "op");
    op->set_consumer_id("project:a");
    SetTs(op->mutable_start_time(), 1000 - n);
    SetTs(op->mutable_end_time(), 1000 + n);
    (*op->mutable_labels())["k"] = "v";
    (*AddInt64(op, "m", 1LL << n)->mutable_labels())["side"] = "x";
    op->add_log_entries()->set_text_payload(mc::strf("%d", n));
    return r;
  }
  explicit Sut(int setup) {
    static const int caps[kSetups] = {2, 2, 2, 2, 2, 1, 2, 0};
    agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(caps[setup], 500, 1000), nullptr);
    agg->SetFlushCallback([this](const CheckRequest& r) {
      sched::point();
      string t = SText(r);
      sched::Ignore g;
      flushed.insert(t);
    });
    CheckResponse resp;
    auto prime = [&](int id, bool pass, bool usage) {
      (void)agg->CacheResponse(Make(0, id), CheckRun::Response(100 + id, pass, id));
      if (usage) (void)agg->Check(Make(1 + id, id), &resp);
    };
    switch (setup) {
      case 1: prime(0, true, false); break;                                       // fresh
      case 2: prime(0, true, true); mc::advance_ms(600); break;                   // due, usage pending
      case 3: prime(0, true, true); mc::advance_ms(1100); break;                  // expired, usage pending
      case 4: prime(0, false, false); mc::advance_ms(600); break;                 // due, failing
      case 5: prime(0, true, true); break;                                        // full
      case 6: prime(0, true, true); prime(1, true, true); mc::advance_ms(600); break;
    }
  }
  bool Ready(const SOp&) { return true; }
  string Run(int thread, int index, const SOp& op) {
    const int n = 3 + thread * 5 + index;
    switch (op.kind) {
      case CHECK: case HIGH: {
        CheckRequest r = Make(n, op.id);
        if (op.kind == HIGH) r.mutable_operation()->set_importance(Operation::HIGH);
        CheckResponse resp;
        Status s = agg->Check(r, &resp);
        return Code(s) + SText(resp);
      }
      case PASS: case FAIL: return Code(agg->CacheResponse(Make(n, op.id), CheckRun::Response(n, op.kind == PASS, op.id)));
      case FLUSH: return Code(agg->Flush());
      default: return Code(agg->FlushAll());
    }
  }
  string Finish() {
    CheckResponse resp;
    string o;
    for (int id = 0; id < 2; ++id) { Status s = agg->Check(Make(40 + id, id), &resp); o += mc::strf("final %d %s %s; ", id, Code(s).c_str(), SText(resp).c_str()); }
    (void)agg->FlushAll();
    for (auto& f : flushed) o += "flushed " + f + "; ";
    return o;
  }
};

static void Run(int threads, int len, const std::vector<SOp>& alphabet) {
  int setup;
  Program p;
  string what;
  {
    sched::Ignore g;
    setup = mc::choose(kSetups, "set-up");
    p = ChooseProgram(threads, len, alphabet);
    what = mc::strf("set-up %d: ", setup) + ProgramText(p, kNames);
  }
  Linearizable<Sut>(setup, p, what);
}
static const std::vector<SOp> kAll = {{CHECK, 0}, {PASS, 0}, {FAIL, 0}, {CHECK, 1}, {PASS, 1}, {FLUSH, 0}, {FLUSHALL, 0}, {HIGH, 0}};
static const std::vector<SOp> kCore = {{CHECK, 0}, {PASS, 0}, {PASS, 1}, {FLUSHALL, 0}, {FLUSH, 0}};

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C22", {
    {"2x1", [](int) { Run(2, 1, kAll); }, {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5}, "preemptions", false, "two threads, one operation each, eight set-ups"},
    {"2x2", [](int) { Run(2, 2, kAll); }, {0, 1}, {0, 1, 2}, "preemptions", false, "two threads, two operations each, eight set-ups"},
    {"3x1", [](int) { Run(3, 1, kAll); }, {0, 1}, {0, 1, 2, 3}, "preemptions", false, "three threads, one operation each, eight set-ups"},
    {"2x3", [](int) { Run(2, 3, kCore); }, {}, {0, 1}, "preemptions", false, "two threads, three operations each, eight set-ups"},
  });
}
