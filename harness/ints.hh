#pragma once
#include "vh.hh"
namespace vh {
// Edge-biased 64-bit integers.
inline int64_t edge_i64(Rng &r) {
  constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
  constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
  switch (r() % 10) {
    case 0:
      return r.pick<int64_t>({0, 1, -1, 2, -2, MIN, MAX, MIN + 1, MAX - 1, MIN / 2, MAX / 2,
                              MAX / 2 + 1, MIN / 2 - 1, 1000000000, -1000000000, 999999999,
                              -999999999, 2147483647, -2147483648LL, 2147483648LL, 4294967295LL,
                              4294967296LL, -4294967296LL});
    case 1:
      return r.chance(.5) ? MAX - r.range(0, 1000) : MIN + r.range(0, 1000);
    case 2:
      return r.range(-1000, 1000);
    case 3: {
      const int64_t p = static_cast<int64_t>(1ULL << r.range(0, 62));
      const int64_t v = p + (p > 8 ? r.range(-3, 3) : 0);
      return r.chance(.5) ? v : -v;
    }
    case 4:
      return r.range(-(1LL << 40), 1LL << 40);
    case 5:
      return r.range(-10, 10) * 1000000000LL + r.range(-2, 2);
    case 6: {  // next to a multiple of a power of ten, of any size
      int64_t p = 10;
      for (int64_t k = r.range(0, 16); k > 0; --k) p *= 10;
      if (r.chance(.6)) p = 1000000000;
      const int64_t most = MAX / p - 1;
      int64_t k = r.range(-most, most) >> (r.chance(.5) ? 0 : r.range(0, 30));
      return k * p + r.range(-3, 3);
    }
    default:
      return static_cast<int64_t>(r()) >> r.range(0, 62);
  }
}
inline std::string i128s(__int128 v) {
  if (v == 0) return "0";
  bool neg = v < 0;
  std::string s;
  while (v != 0) {
    int d = static_cast<int>(v % 10);
    s += static_cast<char>('0' + (d < 0 ? -d : d));
    v /= 10;
  }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
inline bool fits64(__int128 v) {
  return v >= std::numeric_limits<int64_t>::min() && v <= std::numeric_limits<int64_t>::max();
}
}  // namespace vh
