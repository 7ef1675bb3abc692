// Interval sampling over doubles and timestamps.
#include "ints.hh"
#include "resim/assert/assert.hh"
#include "resim/time/sample_interval.hh"

using namespace vh;
using namespace resim::time;
using resim::AssertException;

namespace {
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
Timestamp ts(int64_t n) { return Timestamp{Duration{n}}; }

__int128 want_count(int64_t a, int64_t b, int64_t dt) {
  __int128 total = static_cast<__int128>(b) - a;
  if (total < 0) total = -total;
  if (total == 0) return 1;
  return (total + dt - 1) / dt + 1;
}

void check_ts(Case &c, int64_t a, int64_t b, int64_t dt, bool call) {
  const std::string s = cat("(", a, "ns -> ", b, "ns, max step ", dt, "ns)");
  const __int128 total = static_cast<__int128>(b) - a;
  const __int128 n = want_count(a, b, dt);
  const bool span_ok = fits64(total) && total != MIN;
  if (!span_ok || !fits64(n)) {
    c.must_throw<AssertException>("ts-span-overflow", [&] { num_samples(ts(a), ts(b), Duration{dt}); }, s);
    return;
  }
  const int64_t got = num_samples(ts(a), ts(b), Duration{dt});
  c.check_msg(got == static_cast<int64_t>(n), "ts-count", [&] { return cat(s, " counted ", got, " want ", i128s(n)); });
  c.event("counts");
  if (!call) return;
  std::vector<int64_t> seen;
  sample_interval(ts(a), ts(b), Duration{dt}, [&](Timestamp t) { seen.push_back(t.time_since_epoch().count()); });
  c.check_msg(seen.size() == static_cast<size_t>(n), "ts-samples", [&] { return cat(s, " delivered ", seen.size(), " samples, want ", i128s(n)); });
  const __int128 iv = n - 1;
  c.check_msg(seen.front() == a && seen.back() == b, "ts-endpoints", [&] { return cat(s, " went from ", seen.front(), " to ", seen.back()); });
  for (size_t i = 0; i < seen.size() && iv > 0; ++i) {
    __int128 err = 2 * (iv * (static_cast<__int128>(seen[i]) - a) - static_cast<__int128>(i) * total);
    if (err < 0) err = -err;
    c.check_msg(err <= iv, "ts-nearest", [&] { return cat(s, " sample ", i, " at ", seen[i], " is not the closest timestamp"); });
  }
  c.event("samples_seen", static_cast<double>(seen.size()));
}

void check_double(Case &c, double a, double b, double dt, bool call) {
  const std::string s = cat("(", a, " -> ", b, ", max step ", dt, ")");
  const long double total = std::fabs(static_cast<long double>(b) - a);
  const int64_t n = num_samples(a, b, dt);
  if (a == b) {
    c.check_msg(n == 1, "d-count-empty", [&] { return cat(s, " counted ", n); });
  } else {
    c.check_msg(n >= 2, "d-count-min", [&] { return cat(s, " counted ", n); });
    const long double slack = 1e-12L;
    c.check_msg((n - 1) * static_cast<long double>(dt) >= total * (1 - slack), "d-count-low",
                [&] { return cat(s, " counted ", n, ": step would exceed the maximum"); });
    // Only where the quotient itself is rounded may the count be either of two.
    const long double q = total / static_cast<long double>(dt), near = std::fabs(q - std::round(q));
    if (near > 8e-16L * q && q < 1e17L && q > 1e-15L)
      c.check_msg(n - 1 == static_cast<int64_t>(std::ceil(q)), "d-count", [&] { return cat(s, " counted ", n, " for ", static_cast<double>(q), " steps"); });
    c.check_msg(n == 2 || (n - 2) * static_cast<long double>(dt) < total * (1 + slack), "d-count-high",
                [&] { return cat(s, " counted ", n, ": fewer samples suffice"); });
  }
  c.event("counts");
  if (!call) return;
  std::vector<double> seen;
  sample_interval(a, b, dt, [&](double t) { seen.push_back(t); });
  c.check_msg(static_cast<int64_t>(seen.size()) == n, "d-samples", [&] { return cat(s, " delivered ", seen.size(), " samples, counted ", n); });
  const double scale = std::max(std::fabs(a), std::fabs(b));
  const double tol = 1e-14 * scale;
  c.check_msg(seen.front() == a && seen.back() == b, "d-endpoints",
              [&] { return cat(s, " went from ", seen.front(), " to ", seen.back()); });
  for (size_t i = 0; i < seen.size() && n > 1; ++i) {
    const long double ideal = a + (static_cast<long double>(b) - a) * i / (n - 1);
    c.check_msg(std::fabs(seen[i] - ideal) <= tol, "d-even", [&] { return cat(s, " sample ", i, "/", n, " at ", seen[i]); });
    if (i > 0)
      c.check_msg(std::fabs(seen[i] - seen[i - 1]) <= dt * (1 + 1e-12) + 2 * tol, "d-step", [&] { return cat(s, " step ", i, " too large"); });
  }
  c.event("samples_seen", static_cast<double>(seen.size()));
}
}  // namespace

void body(Monitor &m) {
  // Every small timestamp interval, both directions.
  m.section("ts-exhaustive", 41, 121, [&](Case &c) {
    const int64_t lim = m.thorough() ? 120 : 40;
    const int64_t total = c.index;
    c.in(total);
    c.describe(cat("every interval of length ", total, "ns with every step"));
    for (int64_t dt = 1; dt <= lim + 2; ++dt)
      for (int64_t start : {int64_t{0}, int64_t{-7}, int64_t{1000000007}, MIN, MAX - total, -total / 2}) {
        if (start > MAX - total) continue;
        check_ts(c, start, start + total, dt, true);
        check_ts(c, start + total, start, dt, true);
      }
  });
  m.section("ts-random", 4000, 100000, [](Case &c) {
    int64_t a = edge_i64(c.rng), b = edge_i64(c.rng);
    if (c.rng.chance(.5)) {
      a = c.rng.chance(.5) ? 1700000000000000000LL : c.rng.range(-1000000000000LL, 1000000000000LL);
      b = a + c.rng.range(-1000000000000LL, 1000000000000LL);
    }
    const __int128 total = static_cast<__int128>(b) - a;
    const __int128 abs_total = total < 0 ? -total : total;
    const int64_t parts = c.rng.chance(.3) ? c.rng.range(1, 8) : c.rng.range(1, 400);
    __int128 dt = abs_total / parts + c.rng.range(-1, 1);
    if (c.rng.chance(.05)) dt = MAX;
    if (dt < 1) dt = 1;
    if (dt > MAX) dt = MAX;
    const int64_t d = static_cast<int64_t>(dt);
    c.in(a);
    c.in(b);
    c.in(d);
    c.describe(cat(a, " -> ", b, " step ", d));
    check_ts(c, a, b, d, want_count(a, b, d) < 3000);
    check_ts(c, a, b, edge_i64(c.rng) & MAX ? (edge_i64(c.rng) & MAX) | 1 : 1, false);
  });
  // Intervals of more samples than anyone waits for: the caller gives up after
  // a few, and those few are right.
  m.section("ts-abandoned", 1500, 40000, [](Case &c) {
    struct Enough {};
    Rng &r = c.rng;
    int64_t a = edge_i64(r), b = edge_i64(r);
    if (r.chance(.4)) {
      a = r.range(-4600000000000000000LL, 4600000000000000000LL);
      b = r.chance(.5) ? a / 2 : -a;
    }
    const __int128 total = static_cast<__int128>(b) - a;
    if (!fits64(total) || total == MIN || total == 0) return c.trivial();
    const __int128 abs_total = total < 0 ? -total : total;
    __int128 dt = r.chance(.6) ? static_cast<__int128>(r.range(1, 4)) : abs_total / r.range(1000, MAX) + r.range(0, 1);
    if (dt < 1) dt = 1;
    const __int128 iv = want_count(a, b, static_cast<int64_t>(dt)) - 1;
    if (!fits64(iv + 1)) return c.trivial();
    const size_t stop = static_cast<size_t>(r.range(1, 200));
    c.in(a);
    c.in(b);
    c.in(static_cast<int64_t>(dt));
    const std::string s = cat("(", a, "ns -> ", b, "ns, max step ", i128s(dt), "ns)");
    c.describe(cat(s, " abandoned after ", stop));
    std::vector<int64_t> seen;
    bool left = false;
    try {
      sample_interval(ts(a), ts(b), Duration{static_cast<int64_t>(dt)}, [&](Timestamp t) {
        seen.push_back(t.time_since_epoch().count());
        if (seen.size() >= stop) throw Enough{};
      });
    } catch (const Enough &) {
      left = true;
    }
    c.check(left ? seen.size() == stop : static_cast<__int128>(seen.size()) == iv + 1, "abandoned-count", cat(s, " delivered ", seen.size()));
    for (size_t i = 0; i < seen.size(); ++i) {
      // 2 |iv (seen - a) - i total| <= iv, in parts that fit: total = q iv + rest.
      const __int128 q = total / iv, rest = total % iv, off = static_cast<__int128>(seen[i]) - a - static_cast<__int128>(i) * q;
      const __int128 low = static_cast<__int128>(i) * rest - off * iv;
      c.check_msg(off <= 1000 && off >= -1000 && (low < 0 ? -low : low) * 2 <= iv, "ts-nearest", [&] { return cat(s, " sample ", i, " at ", seen[i], " is not the closest timestamp"); });
    }
    c.event("abandoned_samples", static_cast<double>(seen.size()));
  });
  m.section("double-random", 4000, 100000, [](Case &c) {
    auto g = [&]() -> double {
      switch (c.rng() % 5) {
        case 0: return static_cast<double>(c.rng.range(-20, 20));
        case 1: return c.rng.uniform(-10, 10);
        case 2: return (c.rng.chance(.5) ? 1 : -1) * c.rng.log_uniform(-9, 9);
        case 3: return c.rng.pick<double>({0., 1., -1., 1.7e9, -1.7e9, 1e-9, 3., 0.1, 1e6});
        default: return c.rng.range(-100, 100) / 10.;
      }
    };
    const double a = c.rng.chance(.05) ? 0. : g();
    double b = g();
    if (c.rng.chance(.1)) b = a;
    if (c.rng.chance(.15)) {  // ends next to each other, down to neighbouring numbers
      b = a + (c.rng.chance(.5) ? 1 : -1) * c.rng.log_uniform(a == 0 ? -307 : -20, -8);
      if (c.rng.chance(.3)) b = std::nextafter(a, c.rng.chance(.5) ? HUGE_VAL : -HUGE_VAL);
      c.event("close_ends");
    }
    double dt = std::fabs(b - a) / static_cast<double>(c.rng.range(1, 300));
    if (c.rng.chance(.3)) dt *= c.rng.uniform(.5, 1.5);
    else if (c.rng.chance(.4)) dt *= 1 + (c.rng.chance(.5) ? 1 : -1) * c.rng.log_uniform(-15.5, -2);
    if (c.rng.chance(.2)) dt = static_cast<double>(c.rng.range(1, 40)) / 10.;
    if (c.rng.chance(.1)) dt = c.rng.pick<double>({1e30, std::numeric_limits<double>::infinity(), 1e300, 1e9});
    if (!(dt > 0)) dt = 1;
    c.in(a);
    c.in(b);
    c.in(dt);
    c.describe(cat(a, " -> ", b, " step ", dt));
    check_double(c, a, b, dt, std::fabs(b - a) / dt < 5000);
    check_double(c, b, a, dt, std::fabs(b - a) / dt < 5000);
  });
  // Counts beyond 32 bits.
  m.section("double-large-count", 200, 5000, [](Case &c) {
    const double n = c.rng.log_uniform(8, 15);
    const double a = c.rng.uniform(-100, 100);
    const double b = a + (c.rng.chance(.5) ? 1 : -1) * c.rng.uniform(1, 1000);
    const double dt = std::fabs(b - a) / n;
    c.in(n);
    c.in(a);
    c.describe(cat("about ", n, " samples on ", a, " -> ", b));
    check_double(c, a, b, dt, false);
  });
  // More samples than can be counted: must be refused, never wrapped.
  m.section("double-uncountable", 200, 2000, [](Case &c) {
    const double a = c.rng.uniform(-100, 100);
    const double b = a + (c.rng.chance(.5) ? 1 : -1) * c.rng.uniform(1, 1000);
    const double dt = c.rng.chance(.3) ? 5e-324 : std::fabs(b - a) / c.rng.log_uniform(19.1, 300);
    c.in(a);
    c.in(dt);
    c.describe(cat(a, " -> ", b, " step ", dt));
    c.must_throw<AssertException>("d-uncountable", [&] { num_samples(a, b, dt); });
    c.must_throw<AssertException>("d-uncountable", [&] { sample_interval(a, b, dt, [](double) {}); });
  });
  m.section("bad-step", 400, 4000, [](Case &c) {
    const double bad = c.rng.pick<double>({0., -0., -1., -1e-12, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
    const double a = c.rng.uniform(-3, 3), b = c.rng.uniform(-3, 3);
    c.in(bad);
    c.in(a);
    c.describe(cat("step ", bad));
    c.must_throw<AssertException>("d-bad-step", [&] { num_samples(a, b, bad); });
    int calls = 0;
    c.must_throw<AssertException>("d-bad-step", [&] { sample_interval(a, b, bad, [&](double) { ++calls; }); });
    c.check(calls == 0, "bad-step-calls", "functor ran for a rejected step");
    const int64_t bi = c.rng.pick<int64_t>({0, -1, -1000000000, MIN});
    const int64_t x = edge_i64(c.rng);
    c.must_throw<AssertException>("ts-bad-step", [&] { num_samples(ts(x), ts(x / 2 + 1), Duration{bi}); });
    c.must_throw<AssertException>("ts-bad-step", [&] { sample_interval(ts(x), ts(x == 5 ? 6 : 5), Duration{bi}, [&](Timestamp) { ++calls; }); });
    c.check(calls == 0, "bad-step-calls", "functor ran for a rejected step");
  });
}
VH_MAIN(body)
