// C18: money addition is exact or saturates.  Exhaustive product of boundary
// amounts, compared with 128-bit arithmetic.
#include "google/type/money.pb.h"
#include "common.h"
#include "src/money_utils.h"
using namespace h;
using google::type::Money;

static const int64_t kUnits[] = {0, 1, -1, 2, -2, 5, -5, 999999999, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1,
                                 INT64_MAX / 2, INT64_MIN / 2, INT64_MAX / 2 + 1, INT64_MIN / 2 - 1};
static const int kNanos[] = {0, 1, -1, 3, -3, 500000000, -500000000, 499999999, 500000001, -499999999, -500000001, 999999998, -999999998, 999999999, -999999999};
static const string kCur[] = {"USD", "EUR", "", "US", "USDX", "usd", "UsD", "USD ", string("US\0", 3), string("USD\0", 4), "USE", "VSD"};
static const int kCurs = sizeof kCur / sizeof *kCur;

static bool Valid(int64_t u, int n) { return !((u > 0 && n < 0) || (u < 0 && n > 0)) && n > -1000000000 && n < 1000000000; }
static Money Make(const string& c, int64_t u, int n) { Money m; m.set_currency_code(c); m.set_units(u); m.set_nanos(n); return m; }

static void CheckAdd(const Money& a, const Money& b) {
  mc::step();
  const __int128 B = 1000000000;
  __int128 t = (__int128)a.units() * B + a.nanos() + (__int128)b.units() * B + b.nanos();
  __int128 u = t / B; int n = (int)(t % B);      // truncation: signs agree
  bool over = u > INT64_MAX, under = u < INT64_MIN;
  for (int variant = 0; variant < 3; ++variant) {
    Money x = a, y = b, sum;
    if (variant == 1) sum = Make("ZZZ", 77, 77);   // a used output object
    Status st;
    if (variant == 2) {
      sum = SaturatedAddMoney(x, y);
      st = (over || under) ? Status(StatusCode::kOutOfRange, "") : OkStatus();
    } else {
      st = TryAddMoney(x, y, &sum);
    }
    string d = Text(a) + " + " + Text(b) + " = " + Text(sum) + " status " + Code(st);
    mc::trace("%s", d.c_str());
    MC_CHECK(sum.currency_code() == a.currency_code(), "currency lost: %s", d.c_str());
    if (over) {
      MC_CHECK(st.code() == StatusCode::kOutOfRange && sum.units() == INT64_MAX && sum.nanos() == 999999999, "positive overflow not saturated: %s", d.c_str());
    } else if (under) {
      MC_CHECK(st.code() == StatusCode::kOutOfRange && sum.units() == INT64_MIN && sum.nanos() == -999999999, "negative overflow not saturated: %s", d.c_str());
    } else {
      MC_CHECK(st.ok(), "representable sum refused: %s", d.c_str());
      MC_CHECK(sum.units() == (int64_t)u && sum.nanos() == n, "wrong sum: %s", d.c_str());
    }
    mc::validated();
  }
  mc::outcome(over ? "over" : under ? "under" : mc::strf("%lld.%d", (long long)u, n));
  mc::state(mc::strf("%lld.%d+%lld.%d", (long long)a.units(), a.nanos(), (long long)b.units(), b.nanos()));
}

static void Pairs(int) {
  int nu = sizeof kUnits / sizeof *kUnits, nn = sizeof kNanos / sizeof *kNanos;
  int64_t ua = kUnits[mc::choose(nu)]; int na = kNanos[mc::choose(nn)];
  if (!Valid(ua, na)) mc::prune();
  for (int i = 0; i < nu; ++i) for (int j = 0; j < nn; ++j)
    if (Valid(kUnits[i], kNanos[j])) CheckAdd(Make("USD", ua, na), Make("USD", kUnits[i], kNanos[j]));
}

// Every carry: all nanos pairs around the sign and carry boundaries for small units.
static void Dense(int level) {
  int64_t ua = mc::choose(2 * level + 1) - level, ub = mc::choose(2 * level + 1) - level;
  static const int base[] = {0, 1, 2, 333333333, 499999999, 500000000, 500000001, 666666667, 999999997, 999999998, 999999999};
  int n = sizeof base / sizeof *base;
  for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < 2 * n; ++j) {
    int na = i < n ? base[i] : -base[i - n], nb = j < n ? base[j] : -base[j - n];
    if (Valid(ua, na) && Valid(ub, nb)) CheckAdd(Make("USD", ua, na), Make("USD", ub, nb));
  }
}

// Amount triples: saturating sums never wrap and exact sums are associative.
static void Validate(int) {
  const string c = kCur[mc::choose(kCurs)];
  static const int wide[] = {0, 1, -1, 999999999, -999999999, 1000000000, -1000000000, INT32_MAX, INT32_MIN};
  for (int64_t u : kUnits) for (int n : wide) {
    mc::step();
    Money m = Make(c, u, n);
    bool ok = c.size() == 3 && Valid(u, n);
    Status s = ValidateMoney(m);
    mc::trace("validate %s -> %s", Text(m).c_str(), Code(s).c_str());
    MC_CHECK(s.ok() == ok, "validation of %s gives %s", Text(m).c_str(), s.ToString().c_str());
    if (!ok) MC_CHECK(s.code() == StatusCode::kInvalidArgument, "validation code %s", s.ToString().c_str());
    int sign = u > 0 ? 1 : u < 0 ? -1 : n > 0 ? 1 : n < 0 ? -1 : 0;
    MC_CHECK(GetAmountSign(m) == sign, "sign of %s is %d", Text(m).c_str(), GetAmountSign(m));
    mc::validated();
    mc::outcome(mc::strf("valid=%d sign=%d", ok, sign));
    mc::state(Text(m));
  }
  const string d = kCur[mc::choose(kCurs)];
  Money a = Make(c, 1, 2), b = Make(d, 3, 4), sum = Make("QQQ", 9, 9);
  Status s = TryAddMoney(a, b, &sum);
  if (c != d) {
    MC_CHECK(s.code() == StatusCode::kInvalidArgument, "currencies %s and %s added", c.c_str(), d.c_str());
    MC_CHECK(sum.currency_code().empty() && sum.units() == 0 && sum.nanos() == 0, "refused sum not empty: %s", Text(sum).c_str());
  } else {
    MC_CHECK(s.ok() && sum.units() == 4 && sum.nanos() == 6, "same currency refused");
  }
  mc::step();
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C18", {
    {"pairs", Pairs, {0}, {0}, "full", false, "all pairs of boundary amounts against 128-bit arithmetic"},
    {"carry", Dense, {1, 3}, {1, 3, 12}, "units", false, "all nanos boundary pairs for units within the bound"},
    {"validate", Validate, {0}, {0}, "full", false, "validation, sign and currency mismatch"},
  });
}
