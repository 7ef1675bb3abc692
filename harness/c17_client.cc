// The view client against a scripted view server and a scripted auth client.
#include <cpr/cpr.h>
#include <glog/logging.h>

#include <memory>
#include <optional>

#include "protos.hh"
#include "resim/auth/auth_client_interface.hh"
#include "resim/visualization/client/view_client.hh"

using namespace vh;
using resim::visualization::ViewClient;

namespace {
struct AuthDown : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Auth {
  int epoch = 0;
  int jwts = 0, refreshes = 0;
  int down = 0;
  bool refresh_down = false;
  std::string token() const { return "tok-" + std::to_string(epoch) + "-é\""; }
};
class FakeAuth : public resim::auth::AuthClientInterface {
 public:
  explicit FakeAuth(Auth *a) : a_(a) {}
  std::string get_jwt() override {
    ++a_->jwts;
    if (a_->down > 0) {
      --a_->down;
      throw AuthDown("auth is down");
    }
    return a_->token();
  }
  void refresh() override {
    ++a_->refreshes;
    if (a_->refresh_down) throw AuthDown("refresh is down");
    ++a_->epoch;
  }

 private:
  Auth *a_;
};

long bad_status(Rng &r) { return r.pick<long>({0, 200, 202, 204, 301, 400, 403, 404, 409, 413, 429, 500, 502, 503, 401}); }
std::string wrap_id(Rng &r, const std::string &id) {
  switch (r() % 6) {
    case 0: return id;
    case 1: return "\"" + id + "\"";
    case 2: return "\"" + id + "\"\n";
    case 3: return "\n\"" + id + "\"\n\n";
    case 4: return id + "\n";
    default: return "\"" + id.substr(0, id.size() / 2) + "\"\n\"" + id.substr(id.size() / 2) + "\"";
  }
}
std::string reply_text(Rng &r) {
  switch (r() % 6) {
    case 0: return "{\"view\":\"https://app.resim.ai/views/1\"}";
    case 1: return "";
    case 2: return "{}";
    case 3: return "<html>%s{}</html>";
    case 4: return "{\"view\":\"%n{0}\"}";
    default: return "{\"view\":";
  }
}

// What the client tells the user.
struct Log : google::LogSink {
  std::string text;
  Log() { google::AddLogSink(this); }
  ~Log() override { google::RemoveLogSink(this); }
  void send(google::LogSeverity, const char *, const char *, int, const struct ::tm *, const char *message, size_t n) override { text.append(message, n).append("\n"); }
};

struct Exchange {
  cpr::stub::Request q;
  long status;
};

void history(Case &c) {
  Rng &r = c.rng;
  const std::string base = r.pick<std::string>({"https://api.resim.ai", "http://localhost:8080", "localhost:1/x/y"});
  Auth auth;
  ViewClient client(base);
  client.set_auth_client(std::make_unique<FakeAuth>(&auth));
  std::vector<Exchange> log;
  std::vector<long> plan;  // statuses of the next replies; 201 when exhausted
  std::string session_text;
  std::string reply = "{}";
  cpr::stub::handler() = [&](const cpr::stub::Request &q) {
    cpr::Response resp;
    resp.status_code = log.size() < plan.size() ? plan[log.size()] : 201;
    const bool create = q.url == base + "/view/sessions";
    resp.text = create ? session_text : reply;
    log.push_back({q, resp.status_code});
    return resp;
  };
  std::optional<std::string> session;
  std::set<uint64_t> accepted;
  std::optional<uint64_t> last;
  bool last_ok = true;
  std::string trace;
  const int64_t calls = r.range(2, 16);
  const double p_fault = r.pick<double>({0.0, .2, .5});
  std::set<std::string> sent_ids;
  for (int64_t k = 0; k < calls; ++k) {
    ViewUpdate u;
    const int64_t n = r.chance(.15) ? 0 : r.range(1, 4);
    for (int64_t i = 0; i < n; ++i) u.primitives.push_back(gen_primitive(r));
    plan.clear();
    log.clear();
    if (r.chance(.2)) {  // the token changes for reasons of its own
      ++auth.epoch;
      c.event("tokens_rotated");
    }
    const int epoch0 = auth.epoch, refreshes0 = auth.refreshes;
    if (r.chance(p_fault))
      for (int i = 0; i < 4; ++i) plan.push_back(r.chance(.4) ? 201 : r.chance(.5) ? 401 : bad_status(r));
    const std::string id = r.chance(.7)   ? UUID::new_uuid().to_string()
                           : r.chance(.3) ? UUID::new_uuid().to_string() + "." + UUID::new_uuid().to_string() + std::string(static_cast<size_t>(r.range(0, 400)), 'k')
                           : r.chance(.3) ? std::to_string(r() % 10)
                                          : "sess_~" + std::to_string(r() % 1000000) + (r.chance(.5) ? "-A.b" : "");
    session_text = wrap_id(r, id);
    const bool nameless = r.chance(.1);  // a reply that names no session
    if (nameless) session_text = r.pick<std::string>({"", "\n", "\"\"", "\"\"\n"});
    reply = reply_text(r);
    const std::string address = cat("https://app.resim.ai/", r.pick<std::string>({"views/", "v?a=1&b={0}%s#", ""}), r() % 1000000007);
    const bool addressed = r.chance(.4);
    if (addressed) reply = "{\"view\":\"" + address + "\"}";
    Log told;
    const resim::Status st = client.send_view_update(u);
    c.event("calls");
    // replay the log against the protocol
    size_t pos = 0;
    int want_epoch = epoch0, want_refresh = 0;
    trace += cat(" call", k, "[");
    for (auto &x : log) trace += cat(x.status, " ");
    trace += st.ok() ? "ok]" : "bad]";
    auto ctx = [&](const std::string &s) { return trace + ": " + s; };
    auto next = [&](const char *what) -> Exchange & {
      if (pos >= log.size()) c.fail("missing-request", ctx(cat("no ", what, " request")));
      Exchange &x = log[pos++];
      c.event("requests");
      c.in(x.status);
      c.check(x.q.method == "POST", "method", ctx(x.q.method));
      c.check(x.q.has_bearer && x.q.bearer == "tok-" + std::to_string(want_epoch) + "-é\"", "bearer",
              ctx(cat(what, " request carries token '", x.q.bearer, "', current epoch ", want_epoch)));
      return x;
    };
    bool ok = true;
    if (!session) {
      Exchange *x = &next("session");
      c.check(x->q.url == base + "/view/sessions", "session-url", ctx(x->q.url));
      if (x->status == 401) {
        ++want_epoch;
        ++want_refresh;
        x = &next("retried session");
        c.check(x->q.url == base + "/view/sessions", "session-url", ctx(x->q.url));
        c.event("session_retries");
      }
      ok = x->status == 201 && !nameless;
      if (x->status == 201 && nameless) c.event("nameless_sessions");
      if (ok) {
        session = id;
        c.event("sessions");
      } else {
        c.event("session_failures");
      }
    }
    if (ok) {
      Exchange *x = &next("update");
      const std::string prefix = base + "/view/sessions/" + *session + "/updates/";
      c.check(x->q.url.rfind(prefix, 0) == 0, "update-url", ctx(x->q.url + " for session " + *session));
      const std::string num = x->q.url.substr(prefix.size());
      c.check(!num.empty() && num.find_first_not_of("0123456789") == std::string::npos, "update-url", ctx(x->q.url));
      const uint64_t uid = std::stoull(num);
      if (!last)
        c.check(uid == 0, "update-number", ctx("first update is numbered " + num));
      else
        c.check(uid == *last + 1 || (!last_ok && uid == *last), "update-number", ctx(cat("update ", uid, " after ", *last)));
      c.check(accepted.count(uid) == 0, "update-number-reused", ctx(num));
      auto look = [&](Exchange &e) {
        c.check(e.q.has_body, "no-body", ctx("update without a body"));
        auto ct = e.q.header.find("Content-Type");
        c.check(ct != e.q.header.end() && ct->second == "application/octet-stream", "content-type", ctx("update content type"));
        pv::ViewUpdate m;
        c.check(m.ParseFromString(e.q.body), "body", ctx("update body does not parse"));
        const std::string d = says(m, u);
        c.check(d.empty(), "body", ctx("delivered update is not the one given: " + d));
        c.event("primitives_delivered", static_cast<double>(u.primitives.size()));
      };
      look(*x);
      if (x->status == 401) {
        ++want_epoch;
        ++want_refresh;
        const std::string url = x->q.url;
        x = &next("retried update");
        c.check(x->q.url == url, "retry-url", ctx(url + " then " + x->q.url));
        look(*x);
        c.event("update_retries");
      }
      ok = x->status == 201;
      last = uid;
      last_ok = ok;
      if (ok) accepted.insert(uid);
      if (!ok) c.event("update_failures");
    }
    c.check(pos == log.size(), "extra-request", ctx(cat(log.size(), " requests, expected ", pos)));
    c.check(st.ok() == ok, ok ? "success-reported-bad" : "failure-hidden", ctx(st.ok() ? "reported okay" : "reported bad"));
    if (ok && addressed) {
      c.check(told.text.find(address) != std::string::npos, "view-address", ctx("the user is not told where to look: " + told.text));
      c.event("addresses_told");
    }
    if (!ok) c.check(!std::string(st.what()).empty(), "failure-message", ctx("bad status without text"));
    c.check(auth.refreshes - refreshes0 == want_refresh, "refreshes", ctx(cat(auth.refreshes - refreshes0, " refreshes for ", want_refresh, " rejections")));
  }
  c.describe(base + trace);
  cpr::stub::handler() = nullptr;
}
// Long life of one client: numbering stays consecutive past round numbers.
void longlife(Case &c) {
  Auth auth;
  ViewClient client("https://x");
  client.set_auth_client(std::make_unique<FakeAuth>(&auth));
  uint64_t want = 0, sessions = 0;
  std::string bad;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) {
    cpr::Response resp;
    resp.status_code = 201;
    if (q.url == "https://x/view/sessions") {
      ++sessions;
      resp.text = "\"abc\"";
    } else {
      if (q.url != cat("https://x/view/sessions/abc/updates/", want) && bad.empty()) bad = q.url;
      ++want;
    }
    return resp;
  };
  const int64_t n = c.mon.thorough() ? 140000 : 70000;
  c.in(c.index);
  for (int64_t i = 0; i < n; ++i) {
    if (!client.send_view_update(ViewUpdate{}).ok()) c.fail("long-life", "bad status");
    if (i % 1000 == 0) c.mon.tick();
  }
  c.check(bad.empty(), "update-number", "long life: " + bad);
  c.check(sessions == 1 && want == static_cast<uint64_t>(n), "long-life", cat(sessions, " sessions, ", want, " updates"));
  c.event("requests", static_cast<double>(n));
  cpr::stub::handler() = nullptr;
}
// An exception out of the auth client leaves the client usable.
void outage(Case &c) {
  Rng &r = c.rng;
  const std::string base = "https://h";
  Auth auth;
  ViewClient client(base);
  client.set_auth_client(std::make_unique<FakeAuth>(&auth));
  std::vector<cpr::stub::Request> log;
  std::vector<long> plan;
  size_t answered = 0;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) {
    cpr::Response x;
    x.status_code = answered < plan.size() ? plan[answered] : 201;
    ++answered;
    x.text = q.url == base + "/view/sessions" ? "\"sid\"\n" : "{}";
    log.push_back(q);
    return x;
  };
  std::set<std::string> done;
  bool created = false;
  std::string trace;
  for (int64_t k = 0, n = r.range(2, 10); k < n; ++k) {
    ViewUpdate u;
    u.primitives.push_back(gen_primitive(r));
    log.clear();
    answered = 0;
    auth.down = 0;
    auth.refresh_down = false;
    plan.clear();
    const int kind = static_cast<int>(r() % 4);
    if (kind == 0) auth.down = 1;
    if (kind == 1) {
      auth.refresh_down = true;
      if (r.chance(.5)) plan.push_back(201);
      plan.push_back(401);
    }
    if (r.chance(.3)) ++auth.epoch;
    bool threw = false, ok = false;
    try {
      ok = client.send_view_update(u).ok();
    } catch (const AuthDown &) {
      threw = true;
      c.event("outages");
    }
    trace += cat(" ", kind, threw ? "!" : ok ? "+" : "-", log.size());
    bool delivered = false;
    for (size_t i = 0; i < log.size(); ++i) {
      c.event("requests");
      c.check(log[i].has_bearer && !log[i].bearer.empty(), "bearer", trace + ": request without a token");
      const bool good = i >= plan.size() || plan[i] == 201;
      if (log[i].url == base + "/view/sessions") {
        c.check(!created, "second-session", trace + ": a second session");
        created = created || good;
      } else {
        c.check(created && log[i].url.rfind(base + "/view/sessions/sid/updates/", 0) == 0, "update-url", trace + ": " + log[i].url);
        if (good) {
          c.check(done.insert(log[i].url).second, "update-number-reused", trace + ": " + log[i].url);
          pv::ViewUpdate m;
          c.check(m.ParseFromString(log[i].body) && says(m, u).empty(), "body", trace + ": delivered update is not the one given");
          delivered = true;
        }
      }
    }
    c.check(delivered == ok, ok ? "failure-hidden" : "success-reported-bad", trace + (delivered ? ": delivered, reported bad" : ": not delivered, reported okay"));
    if (kind >= 2) c.check(ok, "after-outage", trace + ": the client does not work after an outage");
    c.in(kind);
  }
  c.describe(trace);
  cpr::stub::handler() = nullptr;
}
// Updates far larger than a packet, a page or a megabyte arrive whole.
void large(Case &c) {
  Rng &r = c.rng;
  Auth auth;
  ViewClient client("https://x");
  client.set_auth_client(std::make_unique<FakeAuth>(&auth));
  std::vector<std::string> bodies;
  std::vector<long> plan;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) {
    cpr::Response resp;
    resp.status_code = 201;
    if (q.url == "https://x/view/sessions") {
      resp.text = "\"abc\"";
    } else {
      bodies.push_back(q.body);
      resp.status_code = bodies.size() == 1 && !plan.empty() ? plan[0] : 201;
    }
    return resp;
  };
  const size_t size = static_cast<size_t>(c.index % 8 == 0 ? r.range(4, 9) * 1000003 : r.log_uniform(3.5, 6.5));
  if (r.chance(.3)) plan.push_back(401);
  ViewUpdate u;
  if (r.chance(.5)) {
    ViewPrimitive p = gen_primitive(r);
    p.user_defined_name = std::string(size, 'n');
    for (size_t i = 0; i < size; i += 997) (*p.user_defined_name)[i] = static_cast<char>('a' + i % 26);
    u.primitives.push_back(p);
  } else {
    ViewPrimitive p = gen_primitive(r);
    pv::ViewUpdate one;
    ViewUpdate v;
    v.primitives.push_back(p);
    pack(v, &one);
    const size_t n = 1 + size / std::max<size_t>(50, one.ByteSizeLong());
    for (size_t i = 0; i < n; ++i) u.primitives.push_back(p);
  }
  c.in(static_cast<int64_t>(size));
  c.in(static_cast<int64_t>(u.primitives.size()));
  c.describe(cat("an update of about ", size, " bytes, ", u.primitives.size(), " objects"));
  const bool ok = client.send_view_update(u).ok();
  cpr::stub::handler() = nullptr;
  c.check(ok, "success-reported-bad", "a large update was refused");
  c.check(bodies.size() == 1 + plan.size(), "extra-request", cat(bodies.size(), " update requests"));
  for (const auto &b : bodies) {
    pv::ViewUpdate m;
    c.check(m.ParseFromString(b), "body", "large update body does not parse");
    const std::string d = says(m, u);
    c.check(d.empty(), "body", "large update is not the one given: " + d.substr(0, 300));
    c.event("large_bytes", static_cast<double>(b.size()));
    c.event("requests");
  }
}
void misc(Case &c) {
  Rng &r = c.rng;
  int requests = 0;
  cpr::stub::handler() = [&](const cpr::stub::Request &) {
    ++requests;
    cpr::Response x;
    x.status_code = 201;
    x.text = "s";
    return x;
  };
  Auth auth;
  ViewClient e("");
  e.set_auth_client(std::make_unique<FakeAuth>(&auth));
  ViewUpdate u;
  if (r.chance(.5)) u.primitives.push_back(gen_primitive(r));
  c.must_throw<AssertException>("empty-url", [&] { (void)e.send_view_update(u); }, "empty base url");
  c.check(requests == 0 && auth.jwts == 0, "empty-url", "something was sent without a base url");
  // Where the token lives.
  const std::string home = r.pick<std::string>({"/home/u", "/", "relative/dir", "/home/with space", "/home/u/"});
  c.in(home);
  c.check(ViewClient::determine_token_root(home.c_str()) == std::filesystem::path(home) / ".resim" / "view_token", "token-path", home);
  if (const char *t = std::getenv("TEST_TMPDIR")) c.check(ViewClient::determine_token_root(nullptr) == std::filesystem::path(t) / ".resim" / "view_token", "token-path", "no home");
  // two clients have sessions of their own
  std::vector<std::string> urls;
  int k = 0;
  cpr::stub::handler() = [&](const cpr::stub::Request &q) {
    cpr::Response x;
    x.status_code = 201;
    urls.push_back(q.url);
    x.text = q.url == "https://a/view/sessions" ? "s" + std::to_string(k++) : "{}";
    return x;
  };
  ViewClient a("https://a"), b("https://a");
  a.set_auth_client(std::make_unique<FakeAuth>(&auth));
  b.set_auth_client(std::make_unique<FakeAuth>(&auth));
  (void)a.send_view_update(u);
  (void)b.send_view_update(u);
  (void)a.send_view_update(u);
  const std::vector<std::string> want = {"https://a/view/sessions", "https://a/view/sessions/s0/updates/0", "https://a/view/sessions",
                                         "https://a/view/sessions/s1/updates/0", "https://a/view/sessions/s0/updates/1"};
  c.check(urls == want, "two-clients", "two clients share a session or numbering");
  cpr::stub::handler() = nullptr;
}
}  // namespace

void body(Monitor &m) {
  for (int s = 0; s < google::NUM_SEVERITIES; ++s) google::SetLogDestination(s, "");
  FLAGS_minloglevel = 0;
  FLAGS_logtostderr = false;
  FLAGS_stderrthreshold = google::NUM_SEVERITIES;
  m.section("history", 3000, 60000, history);
  m.section("long-life", 2, 8, longlife);
  m.section("outage", 800, 20000, outage);
  m.section("large", 64, 640, large);
  m.section("misc", 64, 640, misc);
}
VH_MAIN(body)
