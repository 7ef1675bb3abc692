// Concurrent view statements through the public API down to the HTTP boundary.
// The view object is a process-wide singleton, so the server model below lives
// for the whole process: one session, one numbering, every object ever viewed.
#include <cpr/cpr.h>

#include <condition_variable>
#include <memory>
#include <mutex>
#include <optional>
#include <unordered_map>

#include "protos.hh"
#include "resim/visualization/view.hh"

using namespace vh;

namespace {
struct Want {
  ViewPrimitive p;  // id ignored
  int thread;
  int64_t seq;
  int accepted = 0;
};
struct Server {
  std::mutex mu;
  std::atomic<int> in_flight{0};
  std::vector<std::string> errors;
  std::unordered_map<std::string, Want> want;  // by frame id
  std::vector<std::pair<int, int64_t>> order;  // deliveries of this case: thread, seq
  std::set<std::string> ids;                   // primitive ids ever delivered
  std::optional<std::string> session;
  std::optional<uint64_t> last;
  bool last_ok = true;
  bool loose = false;  // a call failed before its update was posted: a number may be skipped
  std::set<uint64_t> accepted;
  int epoch = 0;
  std::string token;                 // the one the server honours
  std::string pending_url, pending_body;  // an update answered 401, to be retried
  bool pending_session = false;
  // behaviour in this case
  double p_401 = 0, p_fail = 0, p_login_fail = 0;
  int max_delay_us = 0, min_delay_us = 0;
  Rng rng{1};
  // counters
  bool capturing = false;  // deliveries are kept as they are, in order
  std::vector<pv::ViewPrimitive> captured;
  int64_t hard = 0, updates = 0, batched = 0, empty = 0, logins = 0, rejected = 0, overlaps = 0, late = 0;

  void bad(const std::string &s) {
    if (errors.size() < 4) errors.push_back(s);
  }
};
Server &srv() {
  static Server s;
  return s;
}

std::string frame_key(const pv::ViewPrimitive &m) {
  if (m.has_se3()) return m.se3().into().id().data();
  if (m.has_so3()) return m.so3().into().id().data();
  if (m.has_frame()) return m.frame().id().data();
  if (m.has_framed_vector()) return m.framed_vector().frame().id().data();
  if (m.has_d_curve_se3() && m.d_curve_se3().ref_from_control_size() > 0) return m.d_curve_se3().ref_from_control(0).into().id().data();
  if (m.has_t_curve_se3() && m.t_curve_se3().points_size() > 0) return m.t_curve_se3().points(0).point().frame_from_ref().into().id().data();
  if (m.has_trajectory() && m.trajectory().curve().points_size() > 0) return m.trajectory().curve().points(0).point().frame_from_ref().into().id().data();
  return "?";
}

const std::string AUTH = "https://resim.us.auth0.com", API = "https://api.resim.ai";

cpr::Response reply(Server &s, const cpr::stub::Request &q, int *delay) {
  std::lock_guard<std::mutex> g(s.mu);
  cpr::Response r;
  *delay = s.max_delay_us > 0 ? static_cast<int>(s.rng.range(s.min_delay_us, s.max_delay_us)) : 0;
  if (q.url == AUTH + "/oauth/device/code") {
    if (s.rng.chance(s.p_login_fail)) {
      r.status_code = 503;
      ++s.hard;
      s.pending_url.clear();
      s.pending_session = false;
      s.loose = true;
      return r;
    }
    r.status_code = 200;
    r.text = "{\"device_code\":\"d\",\"user_code\":\"A\",\"verification_uri\":\"u\",\"expires_in\":600,\"interval\":0,\"verification_uri_complete\":\"u\"}";
    return r;
  }
  if (q.url == AUTH + "/oauth/token") {
    ++s.logins;
    s.token = "token-" + std::to_string(++s.epoch);
    r.status_code = 200;
    r.text = "{\"access_token\":\"" + s.token + "\",\"token_type\":\"Bearer\",\"expires_in\":86400}";
    return r;
  }
  const bool create = q.url == API + "/view/sessions";
  const std::string prefix = API + "/view/sessions/" + s.session.value_or("?") + "/updates/";
  if (!create && q.url.rfind(prefix, 0) != 0) {
    s.bad("request to " + q.url);
    r.status_code = 404;
    return r;
  }
  // 401: revoke the token
  const bool authorised = q.has_bearer && q.bearer == s.token && !s.token.empty();
  if (!authorised || s.rng.chance(s.p_401)) {
    const bool again = create ? s.pending_session : s.pending_url == q.url;
    if (again) {
      // second refusal in a row: the call fails
      ++s.hard;
      s.pending_url.clear();
      s.pending_session = false;
      if (!create) {
        s.last = std::stoull(q.url.substr(prefix.size()));
        s.last_ok = false;
      }
    } else {
      (create ? s.pending_session : (s.pending_url = q.url, s.pending_body = q.body, s.pending_session)) = create;
    }
    s.token.clear();
    ++s.rejected;
    r.status_code = 401;
    return r;
  }
  if (create) {
    s.pending_session = false;
    if (s.session) s.bad("a second session was created");
    if (s.rng.chance(s.p_fail)) {
      ++s.hard;
      r.status_code = 500;
      return r;
    }
    s.session = UUID::new_uuid().to_string();
    r.status_code = 201;
    r.text = "\"" + *s.session + "\"\n";
    return r;
  }
  const std::string num = q.url.substr(prefix.size());
  const uint64_t uid = num.empty() || num.find_first_not_of("0123456789") != std::string::npos ? ~0ULL : std::stoull(num);
  const bool follows = !s.last ? uid == 0 : uid == *s.last + 1 || (!s.last_ok && uid == *s.last);
  if (!follows && !(s.loose && (!s.last || uid > *s.last))) s.bad(cat("update ", num, " after ", s.last ? std::to_string(*s.last) : "none"));
  if (s.accepted.count(uid)) s.bad("update number " + num + " used twice");
  if (s.pending_url == q.url && s.pending_body != q.body) s.bad("a retried update has another body");
  s.pending_url.clear();
  s.last = uid;
  const bool fails = s.rng.chance(s.p_fail);
  // Some failing answers come after the server has taken the update in.
  const bool late = fails && !s.capturing && s.rng.chance(.4);
  if (fails) {
    ++s.hard;
    s.last_ok = false;
    r.status_code = s.rng.pick<long>({500, 503, 404, 0, 409});
    if (!late) return r;
    ++s.late;
  } else {
    s.last_ok = true;
    s.loose = false;
    s.accepted.insert(uid);
    ++s.updates;
  }
  pv::ViewUpdate m;
  if (!m.ParseFromString(q.body)) s.bad("update body does not parse");
  if (m.primitive_size() > 1) ++s.batched;
  if (m.primitive_size() == 0) ++s.empty;
  for (const auto &p : m.primitive()) {
    if (s.capturing) {
      if (!s.ids.insert(p.id().data()).second) s.bad("two delivered objects share the id " + p.id().data());
      s.captured.push_back(p);
      continue;
    }
    auto it = s.want.find(frame_key(p));
    if (it == s.want.end()) {
      s.bad("delivered an object that was not viewed: " + p.ShortDebugString().substr(0, 300));
      continue;
    }
    Want &w = it->second;
    if (++w.accepted > 1) s.bad(cat("object ", w.seq, " of thread ", w.thread, " delivered ", w.accepted, " times"));
    if (!s.ids.insert(p.id().data()).second) s.bad("two delivered objects share the id " + p.id().data());
    ViewPrimitive v = w.p;
    v.id = UUID(p.id().data());
    const std::string d = says(p, v);
    if (!d.empty()) s.bad(cat("object ", w.seq, " of thread ", w.thread, " (kind ", w.p.payload.index(), ") arrived altered: ", d));
    s.order.push_back({w.thread, w.seq});
  }
  if (late) return r;
  r.status_code = 201;
  r.text = "{\"view\":\"https://app.resim.ai/v\"}";
  return r;
}
cpr::Response serve(const cpr::stub::Request &q) {
  Server &s = srv();
  const bool overlap = s.in_flight.fetch_add(1) != 0;
  int delay = 0;
  // Some of the delay before the server acts, some after: the request is in
  // flight all along.
  std::this_thread::yield();
  cpr::Response r = reply(s, q, &delay);
  if (delay > 0) std::this_thread::sleep_for(std::chrono::microseconds(delay));
  if (overlap) {
    std::lock_guard<std::mutex> g(s.mu);
    ++s.overlaps;
  }
  s.in_flight.fetch_sub(1);
  return r;
}

struct Item {
  ViewPrimitive p;
  std::string key;
  int form;  // 0: stream, 1: VIEW() <<, 2: VIEW(,), 3: view_impl object kept and streamed later
};
// Objects that carry a fresh frame, so that a delivery names what it delivers.
Item gen_item(Rng &r, int kind) {
  Item it;
  it.p.line_number = 0;
  const Frame3 f = Frame3::new_frame(), from = Frame3::new_frame();
  it.key = f.id().to_string();
  auto pose = [&] {
    SE3 g = gen_se3(r);
    g.set_frames(f, from);
    return g;
  };
  auto curve = [&] {
    TCurve<SE3> t;
    double when = 0;
    for (int64_t i = 0, n = r.range(1, 3); i < n; ++i) {
      t.append({when, TwoJetL<SE3>(pose(), gen_deriv<SE3>(r), gen_deriv<SE3>(r))});
      when += 1 + r.unit();
    }
    return t;
  };
  switch (kind) {
    case 0: it.p.payload = pose(); break;
    case 1: {
      SO3 g = gen_so3(r);
      g.set_frames(f, from);
      it.p.payload = g;
      break;
    }
    case 2: it.p.payload = DCurve({pose(), pose()}); break;
    case 3: it.p.payload = curve(); break;
    case 4: it.p.payload = Trajectory(curve(), Timestamp{Duration{r.range(0, 2000000000000000000LL)}}); break;
    case 5: it.p.payload = f; break;
    default: it.p.payload = FVec(gen_trans(r), f); break;
  }
  it.form = static_cast<int>(r() % 3);
  if (it.form == 0) {
    it.p.file_name = "Unknown file";
  } else {
    it.p.file_name = __FILE__;
    it.p.user_defined_name = "n" + it.key.substr(0, 8) + gen_text(r);
  }
  return it;
}

void expect(const Item &it, int thread, int64_t seq, int line) {
  Server &s = srv();
  std::lock_guard<std::mutex> g(s.mu);
  Want w{it.p, thread, seq};
  w.p.line_number = line;
  s.want.emplace(it.key, std::move(w));
}
template <typename T>
void issue(const Item &it, const T &obj, int thread, int64_t seq) {
  switch (it.form) {
    case 0:
      expect(it, thread, seq, 0);
      resim::view << obj;
      break;
    case 1:
      expect(it, thread, seq, __LINE__ + 1);
      VIEW(obj) << *it.p.user_defined_name;
      break;
    default:
      expect(it, thread, seq, __LINE__ + 1);
      VIEW(obj, *it.p.user_defined_name);
      break;
  }
}

void stress(Case &c, bool first, bool slow = false) {
  Server &s = srv();
  Rng &r = c.rng;
  const int threads = static_cast<int>(slow ? r.range(3, 4) : r.range(first ? 2 : 1, 8));
  const int64_t per = slow ? 1 : r.range(1, 8);
  const int faults = static_cast<int>(slow ? 0 : first ? c.index % 3 : r() % 4);
  std::vector<std::vector<Item>> work(static_cast<size_t>(threads));
  std::vector<uint64_t> seeds;
  for (auto &w : work) {
    for (int64_t i = 0; i < per; ++i) w.push_back(gen_item(r, static_cast<int>(r() % 7)));
    seeds.push_back(r());
  }
  int64_t hard0 = 0, updates0 = 0, batched0 = 0, rejected0 = 0, logins0 = 0, empty0 = 0;
  {
    std::lock_guard<std::mutex> g(s.mu);
    s.errors.clear();
    s.order.clear();
    s.want.clear();
    s.rng = Rng(r());
    s.p_401 = faults == 1 || faults == 2 ? .15 : 0;
    s.p_fail = faults == 2 ? .15 : 0;
    s.p_login_fail = faults == 2 && r.chance(.3) ? .2 : 0;
    s.max_delay_us = static_cast<int>(r.pick<int64_t>({0, 0, 50, 400}));
    if (slow) s.min_delay_us = static_cast<int>(r.range(300000, 1200000)), s.max_delay_us = s.min_delay_us + 300000;
    hard0 = s.hard, updates0 = s.updates, batched0 = s.batched, rejected0 = s.rejected, logins0 = s.logins, empty0 = s.empty;
  }
  const bool flushers = r.chance(.3);
  std::atomic<int> ready{0};
  std::atomic<int64_t> threw{0};
  std::mutex emu;
  std::vector<std::string> errs;
  auto run = [&](int t) {
    Rng q(seeds[static_cast<size_t>(t)]);
    ready.fetch_add(1);
    while (ready.load() < threads) std::this_thread::yield();
    for (int64_t i = 0; i < per; ++i) {
      const Item &it = work[static_cast<size_t>(t)][static_cast<size_t>(i)];
      bool ok = true;
      if (flushers && q.chance(.2)) {
        try {
          resim::view.flush();
        } catch (const AssertException &) {
          threw.fetch_add(1);
        }
      }
      try {
        std::visit([&](const auto &o) { issue(it, o, t, i); }, it.p.payload);
      } catch (const AssertException &) {
        ok = false;
        threw.fetch_add(1);
      } catch (const std::exception &e) {
        std::lock_guard<std::mutex> g(emu);
        errs.push_back(std::string("foreign exception: ") + e.what());
        return;
      }
      if (ok) {
        std::lock_guard<std::mutex> g(s.mu);
        const Want &w = s.want.at(it.key);
        if (w.accepted != 1) {
          std::lock_guard<std::mutex> g2(emu);
          errs.push_back(cat("the call for object ", i, " of thread ", t, " returned, object delivered ", w.accepted, " times"));
        }
      }
      if (q.chance(.3)) std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 60)));
    }
  };
  std::vector<std::thread> pool;
  for (int t = 0; t < threads; ++t) pool.emplace_back(run, t);
  for (auto &t : pool) t.join();
  // quiet again: what was left behind?
  std::vector<std::pair<int, int64_t>> order;
  int64_t hard = 0;
  std::vector<std::string> serr;
  {
    std::lock_guard<std::mutex> g(s.mu);
    order = s.order;
    hard = s.hard - hard0;
    serr = s.errors;
    c.event("updates", static_cast<double>(s.updates - updates0));
    c.event("updates_with_several_objects", static_cast<double>(s.batched - batched0));
    c.event("empty_updates", static_cast<double>(s.empty - empty0));
    c.event("token_rejections", static_cast<double>(s.rejected - rejected0));
    c.event("logins", static_cast<double>(s.logins - logins0));
    c.event("hard_failures", static_cast<double>(hard));
    c.event("answers_lost_after_delivery", static_cast<double>(s.late));
    s.late = 0;
  }
  c.in(static_cast<int64_t>(threads));
  for (auto &o : order) c.in(o.first * 1000 + o.second);
  if (threads == 1) c.trivial();
  c.event("objects_delivered", static_cast<double>(order.size()));
  c.event("calls_failed", static_cast<double>(threw.load()));
  int64_t switches = 0;
  for (size_t i = 1; i < order.size(); ++i) switches += order[i].first != order[i - 1].first;
  c.event("thread_switches_between_deliveries", static_cast<double>(switches));
  c.describe(cat(threads, " threads x ", per, " objects, fault mode ", faults, ", ", order.size(), " delivered, ", switches, " switches, ", threw.load(), " failed"));
  c.check(serr.empty(), "server", serr.empty() ? "" : serr[0]);
  c.check(errs.empty(), "client", errs.empty() ? "" : errs[0]);
  c.check(s.overlaps == 0, "overlap", cat(s.overlaps, " requests were sent while another was in flight"));
  if (threw.load() > hard) c.fail("spurious-failure", cat(threw.load(), " calls failed with ", hard, " failed exchanges"));
  std::map<int, int64_t> seen;
  for (auto &o : order) {
    auto [p, fresh] = seen.emplace(o.first, o.second);
    if (!fresh) {
      c.check(o.second > p->second, "order", cat("object ", o.second, " of thread ", o.first, " delivered after object ", p->second));
      p->second = o.second;
    }
  }
  if (hard == 0) c.check(order.size() == static_cast<size_t>(threads * per), "lost", cat(order.size(), " delivered of ", threads * per));
  // The view keeps working after any failure.
  {
    std::lock_guard<std::mutex> g(s.mu);
    s.p_401 = s.p_fail = s.p_login_fail = 0;
    s.max_delay_us = s.min_delay_us = 0;
  }
  const Item it = gen_item(r, static_cast<int>(r() % 7));
  try {
    std::visit([&](const auto &o) { issue(it, o, 99, 0); }, it.p.payload);
  } catch (const AssertException &e) {
    c.fail("broken-after-failure", e.what());
  }
  std::lock_guard<std::mutex> g(s.mu);
  c.check(s.errors.empty(), "server", s.errors.empty() ? "" : s.errors[0]);
  c.check(s.want.at(it.key).accepted == 1, "client", "object viewed after the storm not delivered");
}
// The returned reference chains, and an unnamed VIEW() alone sends nothing.
void forms(Case &c) {
  Server &s = srv();
  Rng &r = c.rng;
  {
    std::lock_guard<std::mutex> g(s.mu);
    s.errors.clear();
    s.order.clear();
    s.want.clear();
    s.p_401 = s.p_fail = s.p_login_fail = 0;
    s.max_delay_us = 0;
  }
  std::vector<Item> it;
  for (int i = 0; i < 4; ++i) {
    it.push_back(gen_item(r, i));
    it.back().p.file_name = "Unknown file";
    it.back().p.user_defined_name.reset();
    expect(it.back(), 0, i, 0);
    c.in(it.back().key);
  }
  resim::view << std::get<0>(it[0].p.payload) << std::get<1>(it[1].p.payload) << std::get<2>(it[2].p.payload) << std::get<3>(it[3].p.payload);
  // An object is captured when the statement is written, not when it is named.
  Item late = gen_item(r, 0);
  late.p.file_name = __FILE__;
  late.p.user_defined_name = "late";
  SE3 obj = std::get<0>(late.p.payload);
  expect(late, 0, 4, __LINE__ + 1);
  auto handle = VIEW(obj);
  size_t before = 0;
  {
    std::lock_guard<std::mutex> g(s.mu);
    before = s.order.size();
  }
  obj = SE3::identity();
  handle << "late";
  std::lock_guard<std::mutex> g(s.mu);
  c.check(s.errors.empty(), "server", s.errors.empty() ? "" : s.errors[0]);
  c.check(before == 4 && s.order.size() == 5, "forms", cat(before, " objects after chaining, ", s.order.size(), " at the end"));
  for (size_t i = 0; i < 5; ++i) c.check(s.order[i].second == static_cast<int64_t>(i), "order", "chained objects out of order");
  c.event("objects_delivered", 5);
}
// One thread, any objects: unframed, empty, the same one again and again.
// What arrives is the list of what was viewed.
void sequence(Case &c) {
  Server &s = srv();
  Rng &r = c.rng;
  {
    std::lock_guard<std::mutex> g(s.mu);
    s.errors.clear();
    s.p_401 = r.chance(.3) ? .1 : 0;
    s.p_fail = s.p_login_fail = 0;
    s.max_delay_us = 0;
    s.capturing = true;
    s.captured.clear();
  }
  std::vector<ViewPrimitive> want;
  ViewPrimitive cur = gen_primitive(r);
  auto note = [&](const std::optional<std::string> &name, const char *file, int line) {
    ViewPrimitive p = cur;
    p.user_defined_name = name;
    p.file_name = file;
    p.line_number = line;
    want.push_back(p);
  };
  std::string what;
  bool threw = false;
  for (int64_t i = r.range(1, 8); i > 0; --i) {
    if (!r.chance(.4)) cur = gen_primitive(r);
    const std::string n1 = gen_text(r), n2 = gen_text(r);
    const int form = static_cast<int>(r() % 5);
    what += cat(" ", cur.payload.index(), ":", form);
    try {
      std::visit(
          [&](const auto &o) {
            using T = std::decay_t<decltype(o)>;
            switch (form) {
              case 0:
                note({}, "Unknown file", 0);
                resim::view << o;
                break;
              case 1:
                note(n1, __FILE__, __LINE__ + 1);
                VIEW(o) << n1;
                break;
              case 2:
                note(n1, __FILE__, __LINE__ + 1);
                VIEW(o, n1);
                break;
              case 3: {  // a handle that is named twice
                note(n1, __FILE__, __LINE__ + 2);
                note(n2, __FILE__, __LINE__ + 1);
                auto h = VIEW(o);
                h << n1;
                h << n2;
                break;
              }
              default: {  // a handle made by hand, copied, each named
                resim::visualization::ViewObject<T> h{o, "elsewhere.cc", 77};
                auto k = h;
                note(n1, "elsewhere.cc", 77);
                note(n2, "elsewhere.cc", 77);
                h << n1;
                k << n2;
                break;
              }
            }
          },
          cur.payload);
    } catch (const AssertException &e) {
      threw = true;
      break;
    }
  }
  c.in(what);
  c.describe(cat("statements", what));
  std::lock_guard<std::mutex> g(s.mu);
  s.capturing = false;
  s.p_401 = 0;
  c.check(s.errors.empty(), "server", s.errors.empty() ? "" : s.errors[0]);
  // A refused retry is the only reason to fail here; then the rest is open.
  if (!threw) c.check(s.captured.size() == want.size(), "sequence-count", cat(s.captured.size(), " deliveries for ", want.size(), " statements"));
  for (size_t i = 0; i < std::min(want.size(), s.captured.size()); ++i) {
    ViewPrimitive v = want[i];
    v.id = UUID(s.captured[i].id().data());
    c.check(!v.id.is_null(), "sequence-id", "an object without an id");
    const std::string d = says(s.captured[i], v);
    c.check(d.empty(), "sequence", cat("delivery ", i, " of", what, ": ", d));
  }
  c.event("objects_delivered", static_cast<double>(s.captured.size()));
  c.event("sequence_statements", static_cast<double>(want.size()));
}
}  // namespace

void body(Monitor &m) {
  cpr::stub::handler() = serve;
  m.section("first-use", 24, 24, [](Case &c) { stress(c, true); });
  const bool tsan = m.mode() == "tsan";
  m.section("stress", tsan ? 2400 : 4800, tsan ? 24000 : 48000, [](Case &c) { stress(c, false); });
  // A server that takes its time: nobody runs out of patience.
  m.section("slow", 8, 64, [](Case &c) { stress(c, false, true); });
  m.section("forms", 240, 2400, forms);
  m.section("sequence", 2000, 40000, sequence);
}
VH_MAIN(body)
