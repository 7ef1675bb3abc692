// Time representation conversions.
#include "ints.hh"
#include "resim/time/timestamp.hh"

using namespace vh;
using namespace resim::time;

namespace {
constexpr long double NS = 1e9L;
void conversions(Case &c, int64_t n) {
  const Duration d{n};
  const SecsAndNanos sn = to_seconds_and_nanos(d);
  const __int128 back = static_cast<__int128>(sn.secs) * 1000000000 + sn.nanos;
  c.check_msg(back == n, "secs-nanos-sum", [&] { return cat(n, "ns split into ", sn.secs, "s + ", sn.nanos, "ns"); });
  c.check_msg(sn.nanos > -1000000000 && sn.nanos < 1000000000, "nanos-range",
              [&] { return cat(n, "ns split with nanos=", sn.nanos); });
  c.check_msg(n >= 0 ? sn.secs >= 0 && sn.nanos >= 0 : sn.secs <= 0 && sn.nanos <= 0, "nanos-sign",
              [&] { return cat(n, "ns split into parts of other sign: ", sn.secs, "s + ", sn.nanos, "ns"); });
  const Duration r = from_seconds_and_nanos(sn);
  c.check_msg(r == d, "secs-nanos-roundtrip", [&] { return cat(n, " came back as ", r.count()); });
  c.event("splits");

  const double s = as_seconds(d);
  const long double ideal = static_cast<long double>(n) / NS;
  const long double tol = std::fabs(ideal) * 4.5e-16L;
  c.check_msg(std::isfinite(s) && std::fabs(static_cast<long double>(s) - ideal) <= tol, "as-seconds",
              [&] { return cat(n, "ns as seconds = ", s); });
  // Round trip through double seconds: within a nanosecond plus the resolution
  // of a double of that magnitude.
  {
    const Duration q = as_duration(s);
    const long double err = std::fabs(static_cast<long double>(q.count()) - static_cast<long double>(n));
    const long double lim = 1.0L + std::fabs(static_cast<long double>(n)) * 6.7e-16L;
    c.check_msg(err <= lim, "double-roundtrip", [&] { return cat(n, "ns -> ", s, "s -> ", q.count(), "ns"); });
    c.event("double_roundtrips");
  }
}
}  // namespace

void body(Monitor &m) {
  m.section("durations", 4000, 200000, [](Case &c) {
    for (int k = 0; k < 100; ++k) {
      const int64_t n = edge_i64(c.rng);
      c.in(n);
      if (k == 0) c.describe(cat("duration ", n, "ns"));
      conversions(c, n);
    }
  });
  // Any (seconds, nanoseconds) pair whose total is representable.
  m.section("pairs", 4000, 200000, [](Case &c) {
    for (int k = 0; k < 100; ++k) {
      SecsAndNanos sn;
      if (k == 0) c.check(from_seconds_and_nanos(sn) == Duration::zero() && sn.secs == 0 && sn.nanos == 0, "secs-nanos-default", "default parts are not zero");
      sn.secs = c.rng.chance(.3) ? c.rng.range(-9223372036LL, 9223372036LL)
                                 : c.rng.pick<int64_t>({0, 1, -1, 9223372036LL, -9223372036LL, 9223372035LL, 1700000000, -1700000000, c.rng.range(-100, 100)});
      sn.nanos = static_cast<int32_t>(c.rng.chance(.5)
                     ? c.rng.range(-2147483648LL, 2147483647LL)
                     : c.rng.pick<int64_t>({0, 1, -1, 999999999, -999999999, 1000000000, -1000000000, 854775807, -854775808, 2147483647, -2147483648LL}));
      const __int128 want = static_cast<__int128>(sn.secs) * 1000000000 + sn.nanos;
      // Both the product and the total have to be representable.
      if (!fits64(want) || !fits64(static_cast<__int128>(sn.secs) * 1000000000)) continue;
      c.in(sn.secs);
      c.in(static_cast<int64_t>(sn.nanos));
      if (k == 0) c.describe(cat(sn.secs, "s ", sn.nanos, "ns"));
      const Duration d = from_seconds_and_nanos(sn);
      c.check_msg(d.count() == static_cast<int64_t>(want), "from-secs-nanos",
                  [&] { return cat(sn.secs, "s + ", sn.nanos, "ns gave ", d.count(), " want ", i128s(want)); });
      c.event("pairs");
    }
  });
  // Seconds as double -> duration: accuracy and order preservation.
  m.section("seconds", 4000, 200000, [](Case &c) {
    auto gen = [&]() -> double {
      switch (c.rng() % 7) {
        case 5: return (c.rng.chance(.5) ? 1 : -1) * c.rng.pick<double>({9223372036.854775, 9223372036.8547745, 9223372036.854776, 9223372036.8547783, 9.3e9, 1e10, 1.8446744073709551e10, 2e10, 1e18, 1e19, 1e100, 1e300, 1.7e308, HUGE_VAL});
        case 0: return static_cast<double>(c.rng.range(-9000000000LL, 9000000000LL));
        case 1: return static_cast<double>(c.rng.range(-1000000, 1000000)) / 1000.0;
        case 2: return c.rng.uniform(-1e-6, 1e-6);
        case 3: return (c.rng.chance(.5) ? 1 : -1) * c.rng.log_uniform(-12, 9.9);
        case 4: return c.rng.pick<double>({0., -0., 1., -1., .5, 1e-9, -1e-9, 2e-9, 1.5e-9, 0.1, 0.3, 1e9, -1e9, 9.2e9, -9.2e9, 1e-300, 5e-324});
        default: return static_cast<double>(c.rng.range(-2000000000LL, 2000000000LL)) / 1e9;
      }
    };
    for (int k = 0; k < 50; ++k) {
      const double a = gen();
      const double b = c.rng.chance(.5) ? std::nextafter(a, c.rng.chance(.5) ? 1e300 : -1e300) : gen();
      c.in(a);
      c.in(b);
      if (k == 0) c.describe(cat("seconds ", a, " and ", b));
      const Duration da = as_duration(a), db = as_duration(b);
      for (const auto &sd : {std::pair{a, da}, std::pair{b, db}}) {
        const double s = sd.first;
        const Duration d = sd.second;
        const long double ideal = static_cast<long double>(s) * NS;
        const long double err = std::fabs(static_cast<long double>(d.count()) - ideal);
        // Out of range there is no exact answer; the order still holds.
        if (std::fabs(ideal) > 9223372036854775807.0L) {
          c.event("out_of_range");
          continue;
        }
        c.check_msg(err <= 1.0L + std::fabs(ideal) * 2.3e-16L, "as-duration",
                    [&] { return cat(s, "s became ", d.count(), "ns"); });
        if (s == std::floor(s)) {
          c.check_msg(static_cast<__int128>(d.count()) == static_cast<__int128>(s) * 1000000000 || std::fabs(s) > 9e6, "whole-seconds",
                      [&] { return cat(s, "s became ", d.count(), "ns"); });
        }
      }
      if (a < b) c.check_msg(da <= db, "as-duration-order", [&] { return cat(a, "<", b, " but ", da.count(), ">", db.count()); });
      if (a > b) c.check_msg(da >= db, "as-duration-order", [&] { return cat(a, ">", b, " but ", da.count(), "<", db.count()); });
      const int64_t x = edge_i64(c.rng);
      const int64_t y = c.rng.chance(.5) && x < std::numeric_limits<int64_t>::max() - 3 ? x + c.rng.range(0, 3) : edge_i64(c.rng);
      const double sx = as_seconds(Duration{x}), sy = as_seconds(Duration{y});
      c.check_msg(x <= y ? sx <= sy : sx >= sy, "as-seconds-order", [&] { return cat(x, " vs ", y, " -> ", sx, " vs ", sy); });
      c.event("orderings");
    }
  });
}
VH_MAIN(body)
