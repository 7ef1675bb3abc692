// Checked integer arithmetic: exact result or an error, never wrap or UB.
#include "ints.hh"
#include "resim/assert/assert.hh"
#include "resim/math/safe_integer_utils.hh"

using namespace vh;
using namespace resim::math;

namespace {
template <typename F>
void judge(Case &c, const char *op, __int128 want, F &&f, const std::string &args) {
  bool threw = false;
  int64_t got = 0;
  try {
    got = f();
  } catch (const resim::AssertException &) {
    threw = true;
  }
  if (fits64(want)) {
    c.check_msg(!threw, "rejected-representable", [&] { return cat(op, args, " threw, exact result is ", i128s(want)); });
    c.check_msg(static_cast<__int128>(got) == want, "wrong-value",
                [&] { return cat(op, args, " = ", got, " but exact result is ", i128s(want)); });
    c.event("exact_results");
  } else {
    c.check_msg(threw, "accepted-overflow", [&] { return cat(op, args, " = ", got, " but exact result is ", i128s(want)); });
    c.event("overflow_rejections");
  }
}
void all(Case &c, int64_t a, int64_t b) {
  const std::string s = cat("(", a, ",", b, ")");
  judge(c, "sum", static_cast<__int128>(a) + b, [&] { return safe_sum(a, b); }, s);
  judge(c, "difference", static_cast<__int128>(a) - b, [&] { return safe_difference(a, b); }, s);
  const __int128 w = a;
  judge(c, "abs", w < 0 ? -w : w, [&] { return safe_abs(a); }, s);
}
}  // namespace

void body(Monitor &m) {
  constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
  constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
  std::vector<int64_t> grid;
  for (int64_t k = 0; k <= 4; ++k) {
    for (int64_t base : {int64_t{0}, MAX / 2, MAX / 2 + 1, int64_t{1} << 31, int64_t{1} << 32, int64_t{1} << 53}) {
      grid.push_back(base + k);
      grid.push_back(base - k);
      grid.push_back(-base + k);
      grid.push_back(-base - k);
    }
    grid.push_back(MAX - k);
    grid.push_back(MIN + k);
  }
  std::sort(grid.begin(), grid.end());
  grid.erase(std::unique(grid.begin(), grid.end()), grid.end());
  // Every pair of boundary values.
  m.section("grid", static_cast<int64_t>(grid.size()), static_cast<int64_t>(grid.size()), [&](Case &c) {
    const int64_t a = grid[c.index];
    c.in(a);
    c.describe(cat("a=", a, " against ", grid.size(), " boundary values"));
    for (int64_t b : grid) all(c, a, b);
  });
  m.section("random", 4000, 200000, [&](Case &c) {
    for (int k = 0; k < 100; ++k) {
      const int64_t a = edge_i64(c.rng);
      int64_t b = edge_i64(c.rng);
      // Often land within a few units of the overflow boundary.
      if (c.rng.chance(.4)) {
        const __int128 t = (c.rng.chance(.5) ? static_cast<__int128>(MAX) - a : static_cast<__int128>(MIN) - a) + c.rng.range(-2, 2);
        if (fits64(t)) b = static_cast<int64_t>(t);
        if (c.rng.chance(.5) && b != MIN) b = -b;
      }
      c.in(a);
      c.in(b);
      if (k == 0) c.describe(cat("a=", a, " b=", b));
      all(c, a, b);
    }
  });
}
VH_MAIN(body)
