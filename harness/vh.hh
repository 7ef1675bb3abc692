// Harness framework: case generation, monitors, evidence counters.
//
// A harness registers sections; every section runs a fixed number of cases
// (never a wall-clock budget), each with its own PRNG seeded from
// (VERIF_SEED, section, index) so one case can be replayed alone.
#pragma once

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <initializer_list>
#include <vector>

namespace vh {

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

// xoshiro256**
class Rng {
 public:
  using result_type = uint64_t;
  explicit Rng(uint64_t seed) {
    for (auto &w : s_) w = seed = mix64(seed);
  }
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ULL; }
  uint64_t operator()() {
    const uint64_t r = rotl(s_[1] * 5, 7) * 9;
    const uint64_t t = s_[1] << 17;
    s_[2] ^= s_[0];
    s_[3] ^= s_[1];
    s_[1] ^= s_[2];
    s_[0] ^= s_[3];
    s_[2] ^= t;
    s_[3] = rotl(s_[3], 45);
    return r;
  }
  // inclusive
  int64_t range(int64_t lo, int64_t hi) {
    const uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
    if (span == 0) return static_cast<int64_t>((*this)());
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + (*this)() % span);
  }
  double unit() { return static_cast<double>((*this)() >> 11) * 0x1.0p-53; }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  double normal() {
    const double u = 1.0 - unit();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * unit());
  }
  // 10^uniform(lo,hi)
  double log_uniform(double lo10, double hi10) {
    return std::pow(10.0, uniform(lo10, hi10));
  }
  template <typename T>
  const T &pick(const std::vector<T> &v) {
    return v[(*this)() % v.size()];
  }
  template <typename T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + (*this)() % v.size());
  }

 private:
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t s_[4];
};

struct CaseAbort {};

class Monitor;

class Case {
 public:
  Case(Monitor &m, Rng r, int64_t i) : mon(m), rng(r), index(i) {}
  Monitor &mon;
  Rng rng;
  int64_t index;

  // Feed the generated input into the distinctness hash.
  void in(double x) {
    uint64_t b = 0;
    std::memcpy(&b, &x, sizeof b);
    h_ = mix64(h_ ^ b);
  }
  void in(int64_t x) { h_ = mix64(h_ ^ static_cast<uint64_t>(x)); }
  void in(uint64_t x) { h_ = mix64(h_ ^ x); }
  void in(int x) { in(static_cast<int64_t>(x)); }
  void in(const std::string &s) { h_ = mix64(h_ ^ hash_str(s)); }
  void trivial() { trivial_ = true; }
  void describe(std::string s) { desc_ = std::move(s); }
  uint64_t hash() const { return h_; }
  bool is_trivial() const { return trivial_; }
  const std::string &desc() const { return desc_; }

  void fail(const std::string &key, const std::string &msg);
  void event(const char *name, double n = 1);
  void check(bool ok, const char *key, const std::string &msg = "") {
    if (!ok) fail(key, msg);
  }
  template <typename F>
  void check_msg(bool ok, const char *key, F &&f) {
    if (!ok) fail(key, f());
  }
  // Run fn; it must throw Ex. Returns nothing; any other outcome is a violation.
  template <typename Ex, typename F>
  void must_throw(const char *key, F &&fn, const std::string &what = "") {
    bool threw = false;
    try {
      fn();
    } catch (const Ex &) {
      threw = true;
    }
    if (!threw) fail(key, "accepted without an error: " + what);
    event("rejections_observed");
  }

 private:
  uint64_t h_ = 0x1234;
  bool trivial_ = false;
  std::string desc_;
};

inline std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

class Monitor {
 public:
  Monitor(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) args_[argv[i]] = argv[i + 1];
    seed_ = std::strtoull(get("--seed", "1").c_str(), nullptr, 10);
    thorough_ = get("--tier", "quick") == "thorough";
    scale_ = std::atof(get("--scale", "1").c_str());
    shard_ = std::atoi(get("--shard", "0").c_str());
    shards_ = std::atoi(get("--shards", "1").c_str());
    std::stringstream ks(get("--known", ""));
    for (std::string k; std::getline(ks, k, ',');)
      if (!k.empty()) known_.insert(k);
    only_ = get("--only", "");
    const std::string cur = get("--cur", "");
    if (!cur.empty()) {
      int fd = ::open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ::ftruncate(fd, 256) == 0) {
        void *p = ::mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) cur_ = static_cast<char *>(p);
        ::close(fd);
      }
    }
    watchdog_ = std::thread([this] {
      uint64_t last = 0;
      int idle = 0;
      while (!done_.load()) {
        std::this_thread::sleep_for(std::chrono::milliseconds(500));
        const uint64_t now = progress_.load();
        idle = now == last ? idle + 1 : 0;
        last = now;
        if (idle > 2 * 120) ::_exit(98);
      }
    });
  }

  std::string get(const std::string &k, const std::string &d) const {
    auto it = args_.find(k);
    return it == args_.end() ? d : it->second;
  }
  bool thorough() const { return thorough_; }
  uint64_t seed() const { return seed_; }
  std::string prop() const { return get("--prop", ""); }
  std::string mode() const { return get("--mode", "asan"); }
  void tick() { progress_.fetch_add(1); }

  // Runs `quick` (or `deep`) cases in total over all shards.
  void section(const std::string &name, int64_t quick, int64_t deep,
               const std::function<void(Case &)> &fn) {
    // Large random sections grow with the check's scale; enumerations do not.
    int64_t n = thorough_ ? deep : quick;
    if (quick >= 500) n = thorough_ ? std::min<int64_t>(deep, std::max<int64_t>(quick, static_cast<int64_t>(static_cast<double>(deep) * scale_))) : std::min<int64_t>(std::max(quick, deep), static_cast<int64_t>(static_cast<double>(quick) * scale_));
    int64_t ran = 0;
    for (int64_t i = shard_; i < n; i += shards_) {
      if (!only_.empty() && only_ != name + "#" + std::to_string(i)) continue;
      set_cur(name, i);
      tick();
      Case c(*this, Rng(mix64(seed_ * 1000003 + hash_str(name)) ^ mix64(i + 77)), i);
      try {
        fn(c);
      } catch (const CaseAbort &) {
      } catch (const std::exception &e) {
        record(name + ":unexpected-exception", e.what());
      }
      ++ran;
      ++evaluations_;
      if (!c.is_trivial()) {
        if (distinct_.size() < 4000000) distinct_.insert(c.hash());
      }
      if (samples_.size() < 6 && !c.desc().empty() && (ran == 1 || ran == 4)) {
        samples_.push_back(cur_name_ + ": " + c.desc());
      }
      if (violations_.size() >= 8) break;
    }
    sections_[name] += ran;
  }

  void record(const std::string &key, const std::string &msg) {
    if (known_.count(key)) {
      seen_known_.insert(key);
      return;
    }
    for (auto &v : violations_)
      if (v[0] == key) return;
    violations_.push_back({key, cur_name_, msg});
  }

  void event(const std::string &name, double n) {
    if (name.rfind("max_", 0) == 0)
      events_[name] = std::max(events_[name], n);
    else
      events_[name] += n;
  }

  int finish() {
    done_ = true;
    watchdog_.join();
    std::ostringstream o;
    o.precision(17);
    o << "{\"evaluations\":" << evaluations_ << ",\"distinct\":" << distinct_.size()
      << ",\"sections\":{";
    bool f = true;
    for (auto &[k, v] : sections_) {
      o << (f ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
      f = false;
    }
    o << "},\"events\":{";
    f = true;
    for (auto &[k, v] : events_) {
      o << (f ? "" : ",") << "\"" << json_escape(k) << "\":" << (std::isfinite(v) ? v : 1e308);
      f = false;
    }
    o << "},\"samples\":[";
    f = true;
    for (auto &s : samples_) {
      o << (f ? "" : ",") << "\"" << json_escape(s) << "\"";
      f = false;
    }
    o << "],\"known\":[";
    f = true;
    for (auto &s : seen_known_) {
      o << (f ? "" : ",") << "\"" << json_escape(s) << "\"";
      f = false;
    }
    o << "],\"violations\":[";
    f = true;
    for (auto &v : violations_) {
      o << (f ? "" : ",") << "{\"key\":\"" << json_escape(v[0]) << "\",\"case\":\""
        << json_escape(v[1]) << "\",\"message\":\"" << json_escape(v[2].substr(0, 4000)) << "\"}";
      f = false;
    }
    o << "]}\n";
    const std::string path = get("--out", "");
    const std::string text = o.str();
    if (path.empty()) {
      std::cout << text;
    } else {
      FILE *fp = std::fopen(path.c_str(), "w");
      if (fp == nullptr) return 3;
      std::fwrite(text.data(), 1, text.size(), fp);
      std::fclose(fp);
    }
    std::cout.flush();
    std::fflush(nullptr);
    return violations_.empty() ? 0 : 1;
  }

 private:
  void set_cur(const std::string &name, int64_t i) {
    cur_name_ = name + "#" + std::to_string(i);
    if (cur_ != nullptr) {
      std::memset(cur_, 0, 256);
      std::strncpy(cur_, cur_name_.c_str(), 255);
    }
  }

  std::map<std::string, std::string> args_;
  uint64_t seed_ = 1;
  bool thorough_ = false;
  double scale_ = 1;
  int shard_ = 0, shards_ = 1;
  std::string only_;
  char *cur_ = nullptr;
  std::string cur_name_;
  std::thread watchdog_;
  std::atomic<bool> done_{false};
  std::atomic<uint64_t> progress_{0};
  int64_t evaluations_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, int64_t> sections_;
  std::map<std::string, double> events_;
  std::vector<std::string> samples_;
  std::set<std::string> known_, seen_known_;
  std::vector<std::array<std::string, 3>> violations_;
};

inline void Case::fail(const std::string &key, const std::string &msg) {
  mon.record(key, msg);
  throw CaseAbort{};
}
inline void Case::event(const char *name, double n) { mon.event(name, n); }

template <typename... Ts>
std::string cat(const Ts &...ts) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << ts);
  return o.str();
}

// Calls f with the elements as a braced list (at most ten).
template <typename T, typename F>
void with_list(const std::vector<T> &v, F f) {
  using L = std::initializer_list<T>;
  switch (v.size()) {
    case 0: return f(L{});
    case 1: return f(L{v[0]});
    case 2: return f(L{v[0], v[1]});
    case 3: return f(L{v[0], v[1], v[2]});
    case 4: return f(L{v[0], v[1], v[2], v[3]});
    case 5: return f(L{v[0], v[1], v[2], v[3], v[4]});
    case 6: return f(L{v[0], v[1], v[2], v[3], v[4], v[5]});
    case 7: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6]});
    case 8: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]});
    case 9: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]});
    default: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]});
  }
}
}  // namespace vh

// Wraps main: exceptions escaping the harness itself are its own failure.
#define VH_MAIN(body)                        \
  int main(int argc, char **argv) {          \
    vh::Monitor m(argc, argv);               \
    body(m);                                 \
    return m.finish();                       \
  }
