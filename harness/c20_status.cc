// Status, StatusValue, match, assertions, references.
#include <memory>
#include <optional>

#include "resim/assert/assert.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/match.hh"
#include "resim/utils/nullable_reference.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"
#include "vh.hh"

using namespace vh;
using namespace resim;

namespace {
int g_calls = 0;
int g_live = 0;
// A value that knows whether it is alive and where it came from.
struct Probe {
  explicit Probe(int v) : v(v), heap(new int(v)) { ++g_live; }
  Probe(const Probe &o) : v(o.v), heap(new int(*o.heap)) { ++g_live; }
  Probe(Probe &&o) noexcept : v(o.v), heap(o.heap) {
    o.heap = nullptr;
    o.v = -1;
    ++g_live;
  }
  Probe &operator=(const Probe &o) {
    if (this != &o) {
      delete heap;
      v = o.v;
      heap = new int(*o.heap);
    }
    return *this;
  }
  Probe &operator=(Probe &&o) noexcept {
    std::swap(v, o.v);
    std::swap(heap, o.heap);
    return *this;
  }
  ~Probe() {
    delete heap;
    --g_live;
  }
  bool is(int x) const { return v == x && heap != nullptr && *heap == x; }
  int v;
  int *heap;
};
// A failure that remembers its line, raised from one of several places.
const std::string LONG_TEXT = std::string(700, 'a') + "{0}" + std::string(3000, 'b') + "end";
const int LINES[] = {__LINE__ + 3, __LINE__ + 4, __LINE__ + 5, __LINE__ + 6, __LINE__ + 7};
Status bad(int k) {
  switch (k) {
    case 0: return MAKE_STATUS("first failure");
    case 1: return MAKE_STATUS("second {} failure %s");
    case 2: return MAKE_STATUS("");
    case 3: return MAKE_STATUS(LONG_TEXT.c_str());
    default: return MAKE_STATUS("several\nlines\t\xc3\xa9\x01");
  }
}
const std::string TEXT[] = {"first failure", "second {} failure %s", "", LONG_TEXT, "several\nlines\t\xc3\xa9\x01"};
std::string bad_what(int k) { return std::string("<") + __FILE__ + ":" + std::to_string(LINES[k]) + "> " + TEXT[k]; }

struct Plan {
  int depth;
  int fail_at;  // -1: never
  int kind;
  int value;
};
// Value through a chain of calls: each level passes on or fails.
template <typename T>
T make(int v);
template <>
Probe make<Probe>(int v) { return Probe(v); }
template <>
std::string make<std::string>(int v) { return std::string(static_cast<size_t>(v % 97), 'x') + std::to_string(v); }
template <>
std::unique_ptr<int> make<std::unique_ptr<int>>(int v) { return std::make_unique<int>(v); }
template <>
std::vector<Probe> make<std::vector<Probe>>(int v) { return std::vector<Probe>(static_cast<size_t>(v % 7), Probe(v)); }
bool same(const Probe &p, int v) { return p.is(v); }
bool same(const std::string &s, int v) { return s == make<std::string>(v); }
bool same(const std::unique_ptr<int> &p, int v) { return p && *p == v; }
bool same(const std::vector<Probe> &p, int v) {
  if (p.size() != static_cast<size_t>(v % 7)) return false;
  for (const auto &x : p)
    if (!x.is(v)) return false;
  return true;
}
template <typename T>
StatusValue<T> deep(const Plan &p, int level, int form) {
  ++g_calls;
  if (level == p.fail_at) return bad(p.kind);
  if (level == p.depth) return make<T>(p.value);
  switch (form % 4) {
    case 0: {
      T x = RETURN_OR_ASSIGN(deep<T>(p, level + 1, form / 4));
      return x;
    }
    case 1: {
      StatusValue<T> sv = deep<T>(p, level + 1, form / 4);
      T x = RETURN_OR_ASSIGN(std::move(sv));
      return x;
    }
    case 2: {
      if constexpr (std::is_copy_constructible_v<T>) {
        const StatusValue<T> sv = deep<T>(p, level + 1, form / 4);
        const T &ref = RETURN_OR_ASSIGN(static_cast<const StatusValue<T> &>(sv));
        if (&ref != &sv.value()) return MAKE_STATUS("copied");
        const T x = ref;
        return x;
      } else {
        T x = RETURN_OR_ASSIGN(deep<T>(p, level + 1, form / 4));
        return x;
      }
    }
    default: {
      StatusValue<T> sv = deep<T>(p, level + 1, form / 4);
      RETURN_IF_NOT_OK(sv.status());
      return std::move(sv).value();
    }
  }
}
template <typename T>
Status outer(const Plan &p, int form, std::optional<T> *out) {
  T x = RETURN_OR_ASSIGN(deep<T>(p, 0, form));
  out->emplace(std::move(x));
  return OKAY_STATUS;
}
template <typename T>
void chain(Case &c) {
  Rng &r = c.rng;
  Plan p;
  p.depth = static_cast<int>(r.range(0, 12));
  p.fail_at = r.chance(.5) ? -1 : static_cast<int>(r.range(0, p.depth));
  p.kind = static_cast<int>(r() % 5);
  p.value = static_cast<int>(r.range(0, 100000));
  const int form = static_cast<int>(r.range(0, 1 << 24));
  c.in(p.depth * 1000 + p.fail_at);
  c.in(p.value);
  c.in(form);
  c.describe(cat("depth ", p.depth, " fails at ", p.fail_at, " value ", p.value));
  g_calls = 0;
  std::optional<T> out;
  const Status s = outer<T>(p, form, &out);
  const int expect = p.fail_at < 0 ? p.depth + 1 : p.fail_at + 1;
  c.check_msg(g_calls == expect, "evaluations", [&] { return cat("arguments evaluated ", g_calls, " times instead of ", expect); });
  if (p.fail_at < 0) {
    c.check(s.ok() && s.what() == "OKAY", "spurious-failure", s.what());
    c.check(out.has_value() && same(*out, p.value), "value-lost", cat("value ", p.value, " changed on its way"));
    c.event("values_delivered");
  } else {
    c.check(!s.ok() && !out.has_value(), "failure-lost", "a failure turned into success");
    c.check_msg(s.what() == bad_what(p.kind), "status-text", [&] { return "got '" + s.what() + "' for '" + bad_what(p.kind) + "'"; });
    c.event("failures_propagated");
  }
}

// StatusValue as a state machine against a variant model.
struct Model {
  int value = 0;
  int kind = -2;  // -1 holds value, >=0 holds bad(kind), -2 default
};
void matches(Case &c, const StatusValue<Probe> &sv, const Model &m) {
  if (m.kind == -1) {
    c.check(sv.ok() && sv.status().ok(), "sv-state", "holds a value but is not okay");
    c.check(sv.value().is(m.value), "sv-value", cat("holds ", sv.value().v, " not ", m.value));
  } else {
    c.check(!sv.ok() && !sv.status().ok(), "sv-state", "holds a failure but is okay");
    if (m.kind >= 0) c.check(sv.status().what() == bad_what(m.kind), "sv-status", sv.status().what());
    c.must_throw<AssertException>("sv-bad-value", [&] { sv.value(); }, "the value of a failed StatusValue");
    c.must_throw<AssertException>("sv-bad-value-move", [&] { StatusValue<Probe> t(sv); Probe q(std::move(t).value()); }, "the value of a failed StatusValue");
  }
}
void machine(Case &c) {
  Rng &r = c.rng;
  const int live0 = g_live;
  {
    std::array<StatusValue<Probe>, 3> sv;
    std::array<Model, 3> m;
    const int64_t steps = r.range(5, 60);
    for (int64_t i = 0; i < steps; ++i) {
      const size_t a = r() % 3, b = r() % 3;
      const int v = static_cast<int>(r.range(0, 1000)), k = static_cast<int>(r() % 5);
      const int op = static_cast<int>(r() % 8);
      c.in(static_cast<int64_t>(op) * 1000000 + v * 100 + k * 10 + static_cast<int64_t>(a * 3 + b));
      switch (op) {
        case 0: sv[a] = Probe(v); m[a] = {v, -1}; break;
        case 1: { const Probe p(v); sv[a] = p; m[a] = {v, -1}; c.check(p.is(v), "sv-steals", "copying changed the source"); break; }
        case 2: sv[a] = bad(k); m[a] = {0, k}; break;
        case 3: sv[a] = sv[b]; m[a] = m[b]; break;
        case 4: { StatusValue<Probe> t(sv[b]); sv[a] = std::move(t); m[a] = m[b]; break; }
        case 5: sv[a] = StatusValue<Probe>(); m[a] = {}; break;
        case 6: {
          if (m[a].kind == -1) {
            StatusValue<Probe> t(sv[a]);
            const Probe q = std::move(t).value();
            c.check(q.is(m[a].value), "sv-move-value", "moved-out value differs");
          }
          break;
        }
        default:
          c.must_throw<AssertException>("sv-from-okay", [&] { sv[a] = OKAY_STATUS; }, "an okay status without a value");
      }
      for (size_t j = 0; j < 3; ++j) matches(c, sv[j], m[j]);
      c.event("machine_steps");
    }
  }
  c.check(g_live == live0, "sv-leak", cat(g_live - live0, " values never destroyed"));
}
// References keep their identity.
void references(Case &c) {
  Probe p(static_cast<int>(c.rng.range(0, 999)));
  c.in(p.v);
  c.in(c.index);
  StatusValue<Probe &> r1(p);
  StatusValue<const Probe &> r2(p);
  auto f = [&]() -> StatusValue<Probe &> { ++g_calls; return r1; };
  c.check(&r1.value() == &p && &r2.value() == &p, "ref-identity");
  g_calls = 0;
  auto g = [&]() -> Status {
    Probe &q = RETURN_OR_ASSIGN(f());
    c.check(&q == &p, "ref-identity-macro");
    q.v = 5;
    *q.heap = 5;
    return OKAY_STATUS;
  };
  c.check(g().ok() && g_calls == 1 && p.is(5), "ref-through");
  StatusValue<Probe &> rb(bad(1));
  auto h = [&]() -> StatusValue<int> {
    Probe &q = RETURN_OR_ASSIGN(static_cast<StatusValue<Probe &> &>(rb));
    return q.v;
  };
  c.check(h().status().what() == bad_what(1), "ref-failure");
  NullableReference<Probe> n, nn{p}, nz = null_reference<Probe>;
  NullableReference<const Probe> nc{p};
  c.check(!n.has_value() && !n && !nz && nn.has_value() && nn && &*nn == &p && nn->is(5) && &*nc == &p, "nullable-reference");
  c.must_throw<AssertException>("nullable-deref", [&] { (void)*n; });
  c.must_throw<AssertException>("nullable-arrow", [&] { (void)nz->v; });
  nn->v = 9;
  n = nn;
  c.check(&*n == &p && p.v == 9, "nullable-assign");
  // A reference to anything is a value: wherever it lies and whatever it holds.
  struct alignas(4096) Page { int v = 0; };
  static Page page;
  int zero = 0;
  bool no = false;
  std::string nothing;
  int *null = nullptr;
  char bytes[64] = {};
  char &odd = bytes[c.rng() % 64];
  c.check(NullableReference<Page>{page}.has_value() && &*NullableReference<Page>{page} == &page && NullableReference<int>{zero}.has_value() && *NullableReference<int>{zero} == 0 &&
              NullableReference<bool>{no} && !*NullableReference<bool>{no} && NullableReference<std::string>{nothing} && NullableReference<std::string>{nothing}->empty() &&
              NullableReference<int *>{null} && *NullableReference<int *>{null} == nullptr && NullableReference<char>{odd} && &*NullableReference<char>{odd} == &odd,
          "nullable-any");
  p.v = 5;
  InOut<Probe> io{p};
  c.check(&*io == &p && &io->v == &p.v, "inout");
  *io = Probe(77);
  c.check(p.is(77), "inout-write");
  c.event("references");
}
void assertions(Case &c) {
  Rng &r = c.rng;
  const bool cond = r.chance(.5);
  const int form = static_cast<int>(r() % 3);
  const std::string msg = r.pick<std::string>({"message", "with {} braces {0}", "percent %s %n", "", std::string(3000, 'z')});
  c.in(cond);
  c.in(form);
  c.in(msg);
  c.in(c.index);
  int evals = 0;
  auto test = [&] {
    ++evals;
    return cond;
  };
  int line = 0;
  std::string what;
  bool threw = false;
  try {
    if (form == 0) {
      line = __LINE__ + 1;
      REASSERT(test());
    } else if (form == 1) {
      line = __LINE__ + 1;
      REASSERT(test(), msg);
    } else {
      line = __LINE__ + 1;
      REASSERT((test() and evals == 1), msg.c_str());
    }
  } catch (const std::exception &e) {
    threw = true;
    what = e.what();
    c.check(dynamic_cast<const AssertException *>(&e) != nullptr, "assert-type", what);
  }
  c.check(threw != cond, "assert-outcome", cat("condition ", cond, " but ", threw ? "threw" : "passed"));
  c.check(evals == 1, "assert-evaluations", cat(evals, " evaluations"));
  if (threw) {
    auto has = [&](const std::string &s) { return what.find(s) != std::string::npos; };
    c.check(has(cat(__FILE__, ":", line)), "assert-location", what);
    c.check(form == 0 || has(msg), "assert-message", what);
    c.check(has("test()"), "assert-condition", what);
  }
  // CHECK_STATUS_OK: passes an okay status, raises a bad one with its text,
  // and evaluates its argument once.
  int k = static_cast<int>(r() % 5), n = 0;
  auto st = [&]() -> Status {
    ++n;
    return cond ? OKAY_STATUS : bad(k);
  };
  threw = false;
  try {
    CHECK_STATUS_OK(st());
  } catch (const AssertException &e) {
    threw = true;
    c.check(std::string(e.what()).find(bad_what(k)) != std::string::npos, "check-status-text", e.what());
  }
  c.check(threw != cond, "check-status-outcome");
  c.check(n == 1, "check-status-evaluations", cat("evaluated ", n, " times"));
  n = 0;
  bool after = false;
  auto g = [&]() -> Status {
    RETURN_IF_NOT_OK(st());
    after = true;
    return OKAY_STATUS;
  };
  const Status got = g();
  c.check(got.ok() == cond && after == cond && n == 1, "return-if-not-ok");
  c.check(cond || got.what() == bad_what(k), "return-if-not-ok-text", got.what());
  // Any file and line, up to the largest.
  {
    const int at = r.chance(.5) ? r.pick<int>({0, 1, 9999, 10000, 32768, 65535, 65536, 99999, 100000, 1000000, 2147483647}) : static_cast<int>(r.range(0, 2147483647));
    const std::string file = r.pick<std::string>({"f.cc", "a/b c/d.hh", "", "weird:{}%s.cc", std::string(600, 'p')});
    c.in(at);
    const Status far = Status::make_at_line(file.c_str(), at, msg.c_str());
    c.check(!far.ok() && far.what() == cat("<", file, ":", at, "> ", msg), "status-location", far.what());
    const AssertException ex("cond", file, at, msg);
    const std::string text = ex.what();
    c.check(text.find(cat(file, ":", at)) != std::string::npos && text.find(msg) != std::string::npos && text.find("cond") != std::string::npos, "assert-location", text);
  }
  // copies and moves keep the text
  Status s1 = got, s2;
  s2 = s1;
  Status s3 = std::move(s1);
  c.check(s2.what() == got.what() && s3.what() == got.what() && s2.ok() == got.ok() && s3.ok() == got.ok(), "status-copy");
  // A StatusValue refuses an okay status whatever it would hold.
  c.must_throw<AssertException>("sv-okay-ref", [&] { StatusValue<int &> x{OKAY_STATUS}; });
  c.must_throw<AssertException>("sv-okay-int", [&] { StatusValue<int> x{OKAY_STATUS}; });
  c.event("assertions");
}
void matching(Case &c) {
  Rng &r = c.rng;
  using V = std::variant<int, std::string, Probe, std::unique_ptr<int>>;
  const int which = static_cast<int>(r() % 4), v = static_cast<int>(r.range(0, 9999));
  c.in(which);
  c.in(v);
  V var = 0;
  switch (which) {
    case 0: var = v; break;
    case 1: var = std::to_string(v); break;
    case 2: var = Probe(v); break;
    default: var = std::make_unique<int>(v);
  }
  int calls = 0;
  const void *seen = nullptr;
  const int got = match(
      var, [&](const int &x) { ++calls; seen = &x; return x; }, [&](const std::string &x) { ++calls; seen = &x; return std::stoi(x); },
      [&](const Probe &x) { ++calls; seen = &x; return x.v; }, [&](const std::unique_ptr<int> &x) { ++calls; seen = &x; return *x; });
  c.check(got == v && calls == 1, "match-branch", cat("branch result ", got, " for ", v));
  const void *addr = std::visit([](auto &x) -> const void * { return &x; }, var);
  c.check(seen == addr, "match-copies", "the branch saw a copy");
  // references returned from a branch stay references
  const int dummy = v;
  const int &ref = match(
      var, [&](const int &x) -> const int & { return x; }, [&](const std::string &) -> const int & { return dummy; },
      [&](const Probe &x) -> const int & { return x.v; }, [&](const std::unique_ptr<int> &x) -> const int & { return *x; });
  const int *want = which == 0 ? &std::get<0>(var) : which == 1 ? &dummy : which == 2 ? &std::get<2>(var).v : std::get<3>(var).get();
  c.check(&ref == want, "match-reference", "a returned reference refers to something else");
  // moving the variant in hands the branch the value itself
  if (which == 3) {
    std::unique_ptr<int> out = match(
        std::move(var), [](int &&) { return std::unique_ptr<int>(); }, [](std::string &&) { return std::unique_ptr<int>(); },
        [](Probe &&) { return std::unique_ptr<int>(); }, [](std::unique_ptr<int> &&x) { return std::move(x); });
    c.check(out && *out == v, "match-move");
  }
  const V cv = std::string("const");
  const bool is_const = match(
      cv, [](const int &) { return false; }, [](const std::string &s) { return s == "const"; }, [](const Probe &) { return false; }, [](const std::unique_ptr<int> &) { return false; });
  c.check(is_const, "match-const");
  // an explicit catch-all is used only for what has no branch of its own
  const int kind = match(
      cv, [](const auto &) { return 0; }, [](const std::string &) { return 1; });
  c.check(kind == 1, "match-overload");
  c.event("matches");
}
}  // namespace

void body(Monitor &m) {
  m.section("chain-probe", 8000, 400000, chain<Probe>);
  m.section("chain-string", 4000, 200000, chain<std::string>);
  m.section("chain-move-only", 4000, 200000, chain<std::unique_ptr<int>>);
  m.section("chain-vector", 4000, 200000, chain<std::vector<Probe>>);
  m.section("machine", 2000, 100000, machine);
  m.section("references", 2000, 50000, references);
  m.section("assertions", 6000, 200000, assertions);
  m.section("match", 6000, 200000, matching);
}
VH_MAIN(body)
