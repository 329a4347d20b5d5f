// Helpers shared by the harnesses.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <google/protobuf/message.h>
#include <google/protobuf/stubs/logging.h>
#include <google/protobuf/text_format.h>
#include <google/protobuf/util/message_differencer.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "google/api/metric.pb.h"
#include "google/api/servicecontrol/v1/operation.pb.h"
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"
#include "include/aggregation_options.h"
#include "mc.h"
#include "src/aggregator_interface.h"

namespace h {
using namespace ::google::service_control_client;
using ::google::api::MetricDescriptor;
using ::google::api::servicecontrol::v1::AllocateQuotaRequest;
using ::google::api::servicecontrol::v1::AllocateQuotaResponse;
using ::google::api::servicecontrol::v1::CheckRequest;
using ::google::api::servicecontrol::v1::CheckResponse;
using ::google::api::servicecontrol::v1::Distribution;
using ::google::api::servicecontrol::v1::MetricValue;
using ::google::api::servicecontrol::v1::MetricValueSet;
using ::google::api::servicecontrol::v1::Operation;
using ::google::api::servicecontrol::v1::QuotaOperation;
using ::google::api::servicecontrol::v1::ReportRequest;
using ::google::api::servicecontrol::v1::ReportResponse;
using ::google::protobuf::util::OkStatus;
using ::google::protobuf::util::Status;
using ::google::protobuf::util::StatusCode;
using std::string;

inline void NullLog(google::protobuf::LogLevel, const char*, int, const string&) {}
struct QuietLogs { QuietLogs() { google::protobuf::SetLogHandler(&NullLog); } };
static QuietLogs quiet_logs;

// A decision with more than 255 alternatives.
inline int ChooseMany(int n) {
  int hi = mc::choose((n + 127) / 128);
  return hi * 128 + mc::choose(std::min(128, n - hi * 128));
}

// Canonical one-line text of a message; map fields are sorted by the printer.
inline string Text(const google::protobuf::Message& m) {
  google::protobuf::TextFormat::Printer p;
  p.SetSingleLineMode(true);
  string s;
  p.PrintToString(m, &s);
  return s;
}
inline string Code(const Status& s) { return mc::strf("%d", (int)s.code()); }

const char kService[] = "svc";
const char kConfig[] = "cfg-1";

// Labels as "k=v,k=v" for canonical keys.
template <class M> string LabelKey(const M& labels) {
  std::map<string, string> o(labels.begin(), labels.end());
  string s;
  for (auto& kv : o) s += kv.first + "=" + kv.second + ",";
  return s;
}
inline void SetTs(google::protobuf::Timestamp* t, int64_t s, int n = 0) { t->set_seconds(s); t->set_nanos(n); }

// Extreme and close times; 0 is absence.
const int kFarTimes = 13;
inline bool FarTime(int i, google::protobuf::Timestamp* t) {
  static const int64_t ts[kFarTimes][2] = {{0, 0}, {253402300799, 999999999}, {253402300799, 999999998}, {-62135596800, 0}, {-62135596800, 1}, {9223372036, 854775807}, {9223372037, 0},
                                           {9300000000, 0}, {18446744073, 709551616}, {1700000000, 123456789}, {1700000000, 123456788}, {-9300000000, 5}, {0, 0}};
  if (i) SetTs(t, ts[i][0], ts[i][1]);
  return i > 0;
}
template <class M> bool TimeLess(const M& a, const M& b) { return a.seconds() != b.seconds() ? a.seconds() < b.seconds() : a.nanos() < b.nanos(); }
// Sets every field of a message, nested ones included, to values that depend
// on a serial number.
inline void FillAll(google::protobuf::Message* m, int serial, int depth = 0) {
  using google::protobuf::FieldDescriptor;
  if (depth > 4) return;
  auto* r = m->GetReflection();
  for (int i = 0; i < m->GetDescriptor()->field_count(); ++i) {
    const FieldDescriptor* f = m->GetDescriptor()->field(i);
    if (f->containing_oneof() && f->index_in_oneof() != serial % f->containing_oneof()->field_count()) continue;
    const int v = serial * 7 + i;
    for (int k = 0; k < (f->is_repeated() ? 2 : 1); ++k) {
      const bool rep = f->is_repeated();
      switch (f->cpp_type()) {
#define FILL(T, S, V) case FieldDescriptor::CPPTYPE_##T: if (rep) r->Add##S(m, f, V); else r->Set##S(m, f, V); break;
        FILL(INT32, Int32, 1 + v + k) FILL(INT64, Int64, 1 + v + k) FILL(UINT32, UInt32, 1 + v + k) FILL(UINT64, UInt64, 1 + v + k)
        FILL(DOUBLE, Double, v + k + 0.5) FILL(FLOAT, Float, v + k + 0.5f) FILL(BOOL, Bool, true) FILL(STRING, String, mc::strf("%s-%d-%d", f->name().c_str(), v, k))
#undef FILL
        case FieldDescriptor::CPPTYPE_ENUM: {
          auto* e = f->enum_type()->value((1 + serial) % f->enum_type()->value_count());
          if (rep) r->AddEnum(m, f, e); else r->SetEnum(m, f, e);
          break;
        }
        case FieldDescriptor::CPPTYPE_MESSAGE:
          if (f->message_type()->full_name() == "google.protobuf.Any") break;
          FillAll(rep ? r->AddMessage(m, f) : r->MutableMessage(m, f), serial + k, depth + 1);
          break;
      }
    }
  }
}

// The metric amount that identifies chunk n: distinct bits first, then small
// numbers (identified by other means, but each sum is still exact).
inline int64_t Amount(int n) { return n < 58 ? 1LL << n : n - 57; }
// Operation ids of numbered chunks: unique, all the same, or all empty.
inline int& IdStyle() { static int style; return style; }
inline string OpId(int n) { return IdStyle() == 0 ? mc::strf("oid-%d", n) : IdStyle() == 1 ? "oid" : ""; }

// Adds an int64 delta value.
inline MetricValue* AddInt64(Operation* op, const string& name, int64_t v) {
  MetricValueSet* s = op->add_metric_value_sets();
  s->set_metric_name(name);
  MetricValue* mv = s->add_metric_values();
  mv->set_int64_value(v);
  return mv;
}
}  // namespace h
#endif
