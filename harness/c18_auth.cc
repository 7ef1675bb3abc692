// The device code authentication client against a scripted authorization server.
#include <cpr/cpr.h>
#include <google/protobuf/util/json_util.h>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>

#include "resim/assert/assert.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/auth/proto/auth_messages.pb.h"
#include "vh.hh"

using namespace vh;
using resim::AssertException;
using resim::auth::DeviceCodeClient;
namespace fs = std::filesystem;
namespace pa = resim::auth::proto;
using Clock = std::chrono::steady_clock;

// Virtual time: while a login runs on this clock, sleeping moves the clock
// forward instead of taking time, so that minutes of polling can be watched.
namespace virtual_time {
thread_local bool on = false;
thread_local int64_t skew = 0;
int64_t ns(const timespec *t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
double real() {
  timespec t{};
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return static_cast<double>(ns(&t)) * 1e-9;
}
struct Scope {
  Scope() { on = true; }
  ~Scope() { on = false, skew = 0; }
};
}  // namespace virtual_time
extern "C" {
int clock_gettime(clockid_t c, struct timespec *t) {
  const long r = syscall(SYS_clock_gettime, c, t);
  if (r == 0 && virtual_time::skew != 0) {
    const int64_t v = virtual_time::ns(t) + virtual_time::skew;
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
  }
  return static_cast<int>(r);
}
int nanosleep(const struct timespec *q, struct timespec *rem) {
  if (!virtual_time::on) return static_cast<int>(syscall(SYS_nanosleep, q, rem));
  virtual_time::skew += virtual_time::ns(q);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *q, struct timespec *rem) {
  if (!virtual_time::on) return syscall(SYS_clock_nanosleep, c, flags, q, rem) == 0 ? 0 : errno;
  timespec now{};
  clock_gettime(c, &now);
  const int64_t wait = (flags & TIMER_ABSTIME) != 0 ? virtual_time::ns(q) - virtual_time::ns(&now) : virtual_time::ns(q);
  if (wait > 0) virtual_time::skew += wait;
  return 0;
}
}

namespace {
std::string quote(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20) {
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}
std::string gen_token(Rng &r) {
  static const std::vector<std::string> parts = {"eyJhbGciOi", ".", "-", "_", "A", "z9", "=", "+", "/", " ", "\"", "\\", "\n", "\xc3\xa9", "{}", "%"};
  const int64_t n = r.chance(.02) ? r.range(3000, 40000) : r.chance(.1) ? r.range(500, 3000) : r.range(1, 20);
  std::string s;
  const bool plain = r.chance(.6);
  for (int64_t i = 0; i < n; ++i) s += plain ? parts[r() % 8] : r.pick(parts);
  const std::string mark = std::to_string(r() % 1000000);
  switch (r() % 4) {
    case 0: return mark + s;
    case 1: return mark;  // nothing but a few characters
    default: return s + mark;
  }
}
// How the server behaves during one login.
struct Script {
  long code_status = 200;
  bool code_garbage = false;
  int pending = 0;        // polls answered "not yet"
  bool never = false;     // the user never authenticates
  int garbage_poll = -1;  // poll that gets an unparseable answer
  bool no_token = false;
  int expires = 600, interval = 0;
  std::string token, device_code, uri;
  bool extra_fields = false;
  long pending_status = 403;
  bool stray_token = false;          // answers with an error also carry something like a token
  std::optional<std::string> other;  // what another login stores while this one is polling
  double latency = 0;  // of a polling answer, on the virtual clock
};
struct Server {
  Script s;
  std::string base;
  int codes = 0, polls = 0;
  std::vector<std::string> errors;
  std::vector<Clock::time_point> at;
  std::string prompt_before_poll;
  std::ostringstream *out = nullptr;
  DeviceCodeClient::Config cfg;

  void expect(bool ok, const std::string &what) {
    if (!ok) errors.push_back(what);
  }
  cpr::Response operator()(const cpr::stub::Request &q) {
    cpr::Response r;
    expect(q.method == "POST", "request is not a POST");
    auto ct = q.header.find("Content-Type");
    expect(ct != q.header.end() && ct->second == "application/json", "content type");
    if (q.url == cfg.server + "/oauth/device/code") {
      ++codes;
      polls = 0;
      pa::DeviceCodeRequest m;
      expect(google::protobuf::util::JsonStringToMessage(q.body, &m).ok(), "device code request body: " + q.body);
      expect(m.client_id() == cfg.client_id && m.scope() == cfg.scope && m.audience() == cfg.audience, "device code request content: " + q.body);
      expect(q.body.find("\"client_id\"") != std::string::npos, "field names on the wire: " + q.body);
      r.status_code = s.code_status;
      if (s.code_garbage) {
        r.text = "<html>oops</html>";
        return r;
      }
      r.text = "{\"device_code\":" + quote(s.device_code) + ",\"user_code\":\"ABCD\",\"verification_uri\":\"https://x/activate\",\"expires_in\":" + std::to_string(s.expires) +
               ",\"interval\":" + std::to_string(s.interval) + ",\"verification_uri_complete\":" + quote(s.uri) + "}";
      return r;
    }
    if (q.url == cfg.server + "/oauth/token") {
      at.push_back(Clock::now());
      virtual_time::skew += static_cast<int64_t>(s.latency * 1e9);
      if (polls == 0 && out != nullptr) prompt_before_poll = out->str();
      const int k = polls++;
      if (k == 0 && s.other) {
        fs::create_directories(cfg.token_path.parent_path());
        std::ofstream(cfg.token_path, std::ios::binary | std::ios::trunc) << *s.other;
      }
      pa::PollingRequest m;
      expect(google::protobuf::util::JsonStringToMessage(q.body, &m).ok(), "polling request body: " + q.body);
      expect(m.grant_type() == "urn:ietf:params:oauth:grant-type:device_code", "grant type: " + m.grant_type());
      expect(m.device_code() == s.device_code, "polls with device code " + m.device_code());
      expect(m.client_id() == cfg.client_id, "polls with client id " + m.client_id());
      if (k == s.garbage_poll) {
        r.status_code = 200;
        r.text = "not json";
        return r;
      }
      if (s.never || k < s.pending) {
        r.status_code = s.pending_status;
        const std::string stray = s.stray_token ? "\"access_token\":\"not-a-token\"," : "";
        r.text = k % 2 ? "{" + stray + "\"error\":\"slow_down\",\"error_description\":\"easy\"}"
                       : "{" + stray + "\"error\":\"authorization_pending\",\"error_description\":\"User has yet to authorize device code.\"}";
        return r;
      }
      r.status_code = 200;
      r.text = s.no_token ? "{\"token_type\":\"Bearer\",\"expires_in\":86400}" : "{\"access_token\":" + quote(s.token) + ",\"token_type\":\"Bearer\",\"expires_in\":86400}";
      return r;
    }
    errors.push_back("request to " + q.url);
    r.status_code = 404;
    r.text = "{}";
    return r;
  }
};
std::optional<std::string> slurp(const fs::path &p) {
  if (!fs::exists(p)) return std::nullopt;
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
struct Capture {
  Capture() : old(std::cout.rdbuf(text.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
  std::ostringstream text;
  std::streambuf *old;
};
struct Scratch {
  explicit Scratch(int64_t i) {
    const char *root = std::getenv("VH_SCRATCH");
    dir = fs::path(root == nullptr ? "." : root) / ("auth-" + std::to_string(i));
    fs::create_directories(dir);
  }
  ~Scratch() {
    std::error_code ec;
    fs::remove_all(dir, ec);
  }
  fs::path dir;
};
Script gen_script(Rng &r, bool faults, const char **what) {
  Script s;
  s.token = gen_token(r);
  s.device_code = gen_token(r);
  s.uri = "https://resim.example/activate?user_code=" + std::to_string(r() % 100000);
  s.pending = r.chance(.4) ? 0 : static_cast<int>(r.range(1, 6));
  s.pending_status = r.pick<long>({403, 400, 401, 200, 429});
  s.stray_token = r.chance(.2);
  *what = nullptr;
  if (faults && r.chance(.3)) {
    switch (r() % 4) {
      case 0: s.code_status = r.pick<long>({0, 400, 401, 403, 404, 500, 503, 201}); *what = "device code request refused"; break;
      case 1: s.code_garbage = true; *what = "device code answer unparseable"; break;
      case 2: s.garbage_poll = static_cast<int>(r.range(0, s.pending)); *what = "polling answer unparseable"; break;
      default: s.no_token = true; *what = "polling answer without token"; break;
    }
  }
  return s;
}

void history(Case &c) {
  Rng &r = c.rng;
  Scratch scratch(c.index);
  Server srv;
  srv.cfg.server = r.pick<std::string>({"https://resim.us.auth0.com", "http://localhost:1234"});
  srv.cfg.client_id = gen_token(r);
  srv.cfg.scope = r.chance(.2) ? "" : gen_token(r);
  srv.cfg.audience = gen_token(r);
  std::string sub = r.pick<std::string>({"token", "a/b/c/token", ".resim/view_token", "with space/t"});
  srv.cfg.token_path = scratch.dir / sub;
  Capture cap;
  srv.out = &cap.text;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) { return srv(q); };
  std::vector<std::unique_ptr<DeviceCodeClient>> cl;
  std::vector<std::string> mem;
  std::optional<std::string> disk;
  if (r.chance(.3)) {
    disk = gen_token(r);
    fs::create_directories(srv.cfg.token_path.parent_path());
    std::ofstream(srv.cfg.token_path, std::ios::binary) << *disk;
  }
  const int64_t steps = r.range(3, 14);
  std::string trace;
  for (int64_t i = 0; i < steps; ++i) {
    if (cl.empty() || r.chance(.15)) {
      cl.push_back(std::make_unique<DeviceCodeClient>(srv.cfg));
      mem.emplace_back();
      trace += "new ";
    }
    const size_t k = r() % cl.size();
    const int op = static_cast<int>(r() % 10);
    srv.codes = srv.polls = 0;
    srv.errors.clear();
    cap.text.str("");
    srv.prompt_before_poll.clear();
    c.in(static_cast<int64_t>(op * 100 + static_cast<int>(k)));
    if (op < 6) {
      const char *fault = nullptr;
      srv.s = gen_script(r, true, &fault);
      const bool from_mem = !mem[k].empty(), from_disk = !from_mem && disk.has_value();
      // Another process may finish its own login in the meantime.
      if (fault == nullptr && r.chance(.2)) srv.s.other = gen_token(r);
      trace += cat("get", k, fault && !from_mem && !from_disk ? "(fault)" : "", " ");
      std::string got;
      bool threw = false;
      try {
        got = cl[k]->get_jwt();
      } catch (const AssertException &) {
        threw = true;
      }
      auto ctx = [&](const std::string &s) { return trace + ": " + s; };
      c.check(srv.errors.empty(), "protocol", ctx(srv.errors.empty() ? "" : srv.errors[0]));
      if (from_mem || from_disk) {
        const std::string want = from_mem ? mem[k] : *disk;
        c.check(!threw && got == want, from_mem ? "memory-token" : "disk-token", ctx("got '" + got + "' for '" + want + "'"));
        c.check(srv.codes == 0 && srv.polls == 0, "needless-login", ctx("the server was asked although a token was at hand"));
        mem[k] = want;
        c.event(from_mem ? "served_from_memory" : "served_from_disk");
      } else if (fault != nullptr) {
        c.check(threw, "fault-hidden", ctx(cat(fault, " but a token was returned: ", got)));
        c.check(!slurp(srv.cfg.token_path).has_value(), "fault-persisted", ctx(cat(fault, " but a token file was left")));
        c.check(srv.codes == 1, "fault-requests", ctx(cat(fault, ": ", srv.codes, " device code requests")));
        c.event("faults");
      } else {
        c.check(!threw && got == srv.s.token, "fetched-token", ctx("got '" + got + "' for '" + srv.s.token + "'"));
        c.check(srv.codes == 1 && srv.polls == srv.s.pending + 1, "poll-count", ctx(cat(srv.codes, " logins and ", srv.polls, " polls for ", srv.s.pending, " pending answers")));
        c.check(srv.prompt_before_poll.find(srv.s.uri) != std::string::npos, "prompt", ctx("the verification address was not shown before polling"));
        mem[k] = disk.emplace(srv.s.token);
        if (srv.s.other) {
          // Either login may stay on disk, but no mixture of the two.
          if (slurp(srv.cfg.token_path) == srv.s.other) disk = srv.s.other;
          c.event("competing_logins");
        }
        c.event("logins");
        c.event("polls", srv.polls);
      }
    } else if (op < 8) {
      trace += cat("refresh", k, " ");
      cl[k]->refresh();
      mem[k].clear();
      disk.reset();
      c.check(srv.codes == 0 && srv.polls == 0, "refresh-requests", trace + ": refresh talked to the server");
      c.event("refreshes");
    } else if (op == 8) {
      trace += cat("restart", k, " ");
      cl[k] = std::make_unique<DeviceCodeClient>(srv.cfg);
      mem[k].clear();
      c.event("restarts");
    } else {
      trace += "external ";
      if (r.chance(.5)) {
        fs::remove(srv.cfg.token_path);
        disk.reset();
      } else {
        disk = gen_token(r);
        fs::create_directories(srv.cfg.token_path.parent_path());
        std::ofstream(srv.cfg.token_path, std::ios::binary | std::ios::trunc) << *disk;
      }
    }
    const auto now = slurp(srv.cfg.token_path);
    c.check_msg(now == disk, "token-file", [&] { return trace + ": file holds '" + now.value_or("(nothing)") + "' instead of '" + disk.value_or("(nothing)") + "'"; });
    // Nothing else appears beside the token or disappears around it.
    int files = 0;
    for (const auto &e : fs::recursive_directory_iterator(scratch.dir)) files += e.is_regular_file() ? 1 : 0;
    c.check(files == (disk ? 1 : 0), "stray-files", trace + cat(": ", files, " files"));
  }
  c.describe(trace);
  cpr::stub::handler() = nullptr;
}

// Neighbours of the token survive a refresh.
void neighbours(Case &c) {
  Rng &r = c.rng;
  Scratch scratch(c.index + 1000000);
  DeviceCodeClient::Config cfg{.server = "https://s", .client_id = "i", .scope = "s", .audience = "a", .token_path = scratch.dir / ".resim" / "view_token"};
  fs::create_directories(cfg.token_path.parent_path());
  const std::string keep = gen_token(r);
  c.in(keep);
  std::ofstream(scratch.dir / ".resim" / "other") << keep;
  std::ofstream(scratch.dir / "home_file") << keep;
  if (r.chance(.5)) std::ofstream(cfg.token_path) << "old";
  DeviceCodeClient d(cfg);
  if (r.chance(.5) && fs::exists(cfg.token_path)) d.get_jwt();
  d.refresh();
  c.check(!fs::exists(cfg.token_path), "refresh-leaves-token");
  c.check(slurp(scratch.dir / ".resim" / "other") == keep && slurp(scratch.dir / "home_file") == keep, "refresh-removes-others");
  c.event("refreshes");
}
// A token path without a directory part works too.
void relative(Case &c) {
  Rng &r = c.rng;
  const std::string name = "tok-" + std::to_string(c.index);
  Server srv;
  srv.cfg = {.server = "https://s", .client_id = "i", .scope = "s", .audience = "a", .token_path = name};
  const char *f = nullptr;
  srv.s = gen_script(r, false, &f);
  c.in(srv.s.token);
  Capture cap;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) { return srv(q); };
  std::string got, err;
  try {
    got = DeviceCodeClient(srv.cfg).get_jwt();
  } catch (const std::exception &e) {
    err = e.what();
  }
  const auto file = slurp(name);
  fs::remove(name);
  c.check(got == srv.s.token && file == srv.s.token, "relative-path", "token path in the current directory: " + err);
  cpr::stub::handler() = nullptr;
  c.event("logins");
}
// Deadlines and pacing, with real time.
void timing(Case &c) {
  Rng &r = c.rng;
  Scratch scratch(c.index + 2000000);
  Server srv;
  srv.cfg = {.server = "https://s", .client_id = "i", .scope = "s", .audience = "a", .token_path = scratch.dir / "t"};
  const char *f = nullptr;
  srv.s = gen_script(r, false, &f);
  c.in(srv.s.token);
  Capture cap;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) { return srv(q); };
  DeviceCodeClient d(srv.cfg);
  if (c.index % 2 == 0) {
    // never authorised: fails after the code expires, keeps nothing
    srv.s.never = true;
    srv.s.expires = static_cast<int>(r.range(1, 2));
    srv.s.interval = 1;
    const auto t0 = Clock::now();
    c.must_throw<AssertException>("no-timeout", [&] { d.get_jwt(); }, "a login that was never authorised");
    const double took = std::chrono::duration<double>(Clock::now() - t0).count();
    c.check(took >= srv.s.expires - .05, "early-timeout", cat("gave up after ", took, " s of ", srv.s.expires));
    c.check(srv.polls >= 1 && srv.polls <= srv.s.expires + 2, "polls-before-timeout", cat(srv.polls, " polls in ", took, " s"));
    c.check(!fs::exists(srv.cfg.token_path), "timeout-persisted");
    // and a later login works
    srv.s.never = false;
    srv.s.expires = 600;
    srv.s.interval = 0;
    c.check(d.get_jwt() == srv.s.token, "login-after-timeout");
    c.event("timeouts");
  } else {
    srv.s.pending = 2;
    srv.s.interval = 1;
    c.check(d.get_jwt() == srv.s.token, "fetched-token");
    for (size_t i = 1; i < srv.at.size(); ++i) {
      const double gap = std::chrono::duration<double>(srv.at[i] - srv.at[i - 1]).count();
      c.check(gap >= .95, "poll-interval", cat("polls ", gap, " s apart with an interval of 1 s"));
    }
    c.event("paced_logins");
  }
  c.check(srv.errors.empty(), "protocol", srv.errors.empty() ? "" : srv.errors[0]);
  cpr::stub::handler() = nullptr;
}
// The same on the virtual clock: any interval, any lifetime of the code, slow answers.
void pacing(Case &c) {
  Rng &r = c.rng;
  Scratch scratch(c.index + 3000000);
  Server srv;
  srv.cfg = {.server = "https://s", .client_id = "i", .scope = "s", .audience = "a", .token_path = scratch.dir / "t"};
  const char *f = nullptr;
  srv.s = gen_script(r, false, &f);
  const int interval = srv.s.interval = static_cast<int>(r.chance(.1) ? r.range(20, 300) : r.range(1, 12));
  const int expires = srv.s.expires = static_cast<int>(interval * r.range(1, r.chance(.2) ? 150 : 20) + r.range(0, interval - 1));
  srv.s.latency = r.chance(.5) ? 0 : r.uniform(0, 1.5 * interval);
  const double per_poll = interval + srv.s.latency;
  // Authorised well before the code expires, or never.
  const int room = static_cast<int>(std::floor((expires - .5) / per_poll));
  srv.s.never = r.chance(.4) || room < 1;
  srv.s.pending = srv.s.never ? 0 : static_cast<int>(r.range(0, room));
  if (!srv.s.never && srv.s.pending * per_poll > expires - .5) --srv.s.pending;
  c.in(srv.s.token);
  c.in(static_cast<int64_t>(interval) * 100000 + expires);
  const std::string ctx = cat("interval ", interval, " s, code valid for ", expires, " s, answers take ", srv.s.latency, " s, ", srv.s.never ? "never authorised" : cat("authorised after ", srv.s.pending, " polls"));
  c.describe(ctx);
  Capture cap;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) { return srv(q); };
  DeviceCodeClient d(srv.cfg);
  const virtual_time::Scope scope;
  const auto t0 = Clock::now();
  auto since = [&](Clock::time_point t) { return std::chrono::duration<double>(t - t0).count(); };
  if (srv.s.never) {
    c.must_throw<AssertException>("no-timeout", [&] { d.get_jwt(); }, ctx);
    const double took = since(Clock::now());
    // Every slot in which the code is still valid is used.
    const int slots = static_cast<int>(std::floor((expires - .05) / per_poll)) + 1;
    c.check(srv.polls >= slots, "early-timeout", cat(ctx, ": gave up after ", took, " s and ", srv.polls, " of ", slots, " polls"));
    c.check(took <= expires + per_poll + 1, "late-timeout", cat(ctx, ": gave up after ", took, " s"));
    c.check(!fs::exists(srv.cfg.token_path), "timeout-persisted", ctx);
    c.event("virtual_timeouts");
  } else {
    std::string got, err;
    try {
      got = d.get_jwt();
    } catch (const std::exception &e) {
      err = e.what();
    }
    c.check(got == srv.s.token, "fetched-token", cat(ctx, ": ", err));
    c.check(srv.polls == srv.s.pending + 1, "poll-count", cat(ctx, ": ", srv.polls, " polls"));
  }
  for (size_t i = 0; i < srv.at.size(); ++i) {
    // The request reaches the server a moment after the client looked at its clock.
    c.check(since(srv.at[i]) <= expires + 1, "poll-after-expiry", cat(ctx, ": poll ", i, " at ", since(srv.at[i])));
    if (i == 0) continue;
    const double gap = since(srv.at[i]) - since(srv.at[i - 1]);
    c.check(gap >= interval - 1e-3, "poll-interval", cat(ctx, ": polls ", i - 1, " and ", i, " are ", gap, " s apart"));
  }
  c.check(srv.errors.empty(), "protocol", srv.errors.empty() ? "" : srv.errors[0]);
  c.event("virtual_polls", srv.polls);
  cpr::stub::handler() = nullptr;
}
// Whether waiting happens on the virtual clock at all (it might be done in a
// way that cannot be watched from here); if not, only the real-time cases count.
bool virtualised() {
  Server srv;
  srv.cfg = {.server = "https://s", .client_id = "i", .scope = "s", .audience = "a", .token_path = "probe-token"};
  srv.s.token = srv.s.device_code = "t";
  srv.s.interval = srv.s.pending = 1;
  Capture cap;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) { return srv(q); };
  const double before = virtual_time::real();
  {
    const virtual_time::Scope scope;
    try {
      DeviceCodeClient(srv.cfg).get_jwt();
    } catch (...) {
    }
  }
  std::error_code ec;
  fs::remove("probe-token", ec);
  cpr::stub::handler() = nullptr;
  return virtual_time::real() - before < .5;
}
}  // namespace

void body(Monitor &m) {
  static const bool is_virtual = virtualised();
  if (is_virtual) m.section("pacing", 1500, 40000, pacing);
  m.section("history", 3000, 80000, history);
  m.section("neighbours", 200, 2000, neighbours);
  m.section("relative", 64, 640, relative);
  m.section("timing", 16, 160, timing);
}
VH_MAIN(body)
