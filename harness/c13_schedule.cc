// Event schedule: stable time-ordered queue against a sequential model.
#include <memory>

#include "ints.hh"
#include "resim/assert/assert.hh"
#include "resim/time/event_schedule.hh"

using namespace vh;
using namespace resim::time;

namespace {
struct Payload {
  int64_t serial = -1;
  std::string text;
  std::shared_ptr<int> token;
};
struct ModelEvent {
  int64_t time;
  int64_t serial;
  bool operator<(const ModelEvent &o) const { return time != o.time ? time < o.time : serial < o.serial; }
};

template <typename Count>
struct Driver {
  EventSchedule<Payload, Count> sched;
  std::set<ModelEvent> model;
  int64_t serial = 0;
  bool shared = false;  // copies of this schedule hold its payloads, too
  std::map<int64_t, std::weak_ptr<int>> tokens;

  void schedule(Case &c, int64_t t) {
    const uint64_t limit = static_cast<uint64_t>(std::numeric_limits<Count>::max());
    auto tok = std::make_shared<int>(7);
    Payload p{serial, "event-" + std::to_string(serial) + std::string(serial % 40, 'x'), tok};
    if (static_cast<uint64_t>(serial) >= limit) {
      c.must_throw<resim::AssertException>("exhaustion", [&] { sched.schedule_event(Timestamp{Duration{t}}, p); },
                                           cat("event number ", serial, " with a limit of ", limit));
      c.event("exhaustions_observed");
    } else {
      tokens[serial] = tok;
      sched.schedule_event(Timestamp{Duration{t}}, std::move(p));
      model.insert({t, serial});
      ++serial;
      c.event("scheduled");
    }
    c.check_msg(sched.size() == model.size(), "size", [&] { return cat("size ", sched.size(), " model ", model.size()); });
  }
  void top(Case &c) {
    const auto &e = sched.top_event();
    const auto &w = *model.begin();
    c.check_msg(e.time.time_since_epoch().count() == w.time, "time-order", [&] {
      return cat("front event at ", e.time.time_since_epoch().count(), " but the earliest is ", w.time); });
    c.check_msg(e.payload.serial == w.serial, "fifo-order", [&] {
      return cat("front event is number ", e.payload.serial, ", should be ", w.serial, " (same time ", w.time, ")"); });
    c.check_msg(e.payload.text == "event-" + std::to_string(w.serial) + std::string(w.serial % 40, 'x') && e.payload.token && *e.payload.token == 7,
                "payload", [&] { return cat("payload of event ", w.serial, " altered: ", e.payload.text); });
  }
  void pop(Case &c) {
    top(c);
    const int64_t s = model.begin()->serial;
    sched.pop_event();
    model.erase(model.begin());
    c.check_msg(sched.size() == model.size(), "size", [&] { return cat("size ", sched.size(), " model ", model.size()); });
    c.check_msg(shared || tokens[s].expired(), "payload-retained", [&] { return cat("payload of popped event ", s, " still held"); });
    tokens.erase(s);
    c.event("popped");
  }
  void drain(Case &c) {
    while (!model.empty()) pop(c);
    c.check(sched.size() == 0, "drain", "events left after draining");
  }
};

int64_t gen_time(Rng &r, int style) {
  switch (style) {
    case 0: return r.range(0, 3);
    case 1: return r.range(-5, 5) * 1000000000LL;
    case 2: return edge_i64(r);
    case 3: return 42;
    case 4: return 1700000000000000000LL + r.range(0, 20);
    default: return r.range(-1000000, 1000000);
  }
}

template <typename Count>
void history(Case &c, int64_t ops, double p_push) {
  Driver<Count> d;
  const int style = static_cast<int>(c.rng() % 6);
  c.in(style);
  for (int64_t i = 0; i < ops; ++i) {
    const bool push = d.model.empty() || c.rng.chance(p_push);
    if (push) {
      const int64_t t = gen_time(c.rng, style);
      c.in(t);
      d.schedule(c, t);
    } else {
      c.in(-1);
      d.pop(c);
    }
    if (!d.model.empty()) d.top(c);
    else if (static_cast<uint64_t>(d.serial) >= static_cast<uint64_t>(std::numeric_limits<Count>::max())) break;
  }
  if (c.rng.chance(.3)) {
    // A copied schedule is an independent queue with the same contents and the
    // same notion of what was scheduled earlier.
    Driver<Count> other = d;
    if (c.rng.chance(.3)) {
      Driver<Count> tmp = other;
      other = std::move(tmp);
    }
    other.shared = true;
    const bool was = d.shared;
    d.shared = true;
    for (int64_t i = c.rng.range(0, 30); i > 0; --i) {
      Driver<Count> &x = c.rng.chance(.5) ? d : other;
      if (x.model.empty() || c.rng.chance(.6)) {
        const int64_t t = !x.model.empty() && c.rng.chance(.5) ? x.model.begin()->time : gen_time(c.rng, style);
        x.schedule(c, t);
      } else {
        x.pop(c);
      }
      if (!d.model.empty()) d.top(c);
      if (!other.model.empty()) other.top(c);
      c.check(d.sched.size() == d.model.size() && other.sched.size() == other.model.size(), "copy", "a change of one copy changed the other");
    }
    other.drain(c);
    c.check(d.sched.size() == d.model.size(), "copy", "draining a copy changed the original");
    (void)was;
    c.event("copies");
  }
  c.describe(cat("history of ", ops, " operations, ", d.serial, " events, time style ", style));
  d.drain(c);
}
}  // namespace

void body(Monitor &m) {
  m.section("short", 3000, 60000, [](Case &c) { history<uint64_t>(c, c.rng.range(1, 40), .6); });
  m.section("medium", 400, 6000, [](Case &c) { history<uint64_t>(c, c.rng.range(200, 2000), c.rng.uniform(.45, .8)); });
  m.section("small-counter", 200, 3000, [](Case &c) { history<uint8_t>(c, 700, c.rng.uniform(.5, .9)); });
  m.section("mid-counter", 8, 24, [](Case &c) { history<uint16_t>(c, 140000, .55); });
  m.section("u32-counter", 100, 2000, [](Case &c) { history<uint32_t>(c, c.rng.range(100, 600), .6); });
  // A small queue that has seen very many events, with ties throughout.
  m.section("crossing", 8, 24, [&m](Case &c) {
    EventSchedule<int64_t> q;
    std::set<ModelEvent> model;
    const int64_t n = c.index == 0 ? (m.thorough() ? 18000000 : 1300000) : c.index % 4 == 0 ? 300000 : 140000;
    const size_t depth = static_cast<size_t>(c.rng.range(2, 40));
    const int64_t keys = c.rng.range(0, 2);
    c.in(static_cast<int64_t>(depth));
    c.in(keys);
    c.describe(cat(n, " events through a queue of about ", depth, " on ", keys + 1, " distinct times"));
    auto take = [&] {
      const auto &e = q.top_event();
      const ModelEvent w = *model.begin();
      c.check_msg(e.time.time_since_epoch().count() == w.time, "time-order", [&] { return cat("front event at ", e.time.time_since_epoch().count(), " but the earliest is ", w.time); });
      c.check_msg(e.payload == w.serial, "fifo-order", [&] { return cat("front event is number ", e.payload, ", should be ", w.serial); });
      q.pop_event();
      model.erase(model.begin());
    };
    for (int64_t i = 0; i < n; ++i) {
      const int64_t t = c.rng.range(0, keys) + i / 50000;
      q.schedule_event(Timestamp{Duration{t}}, i);
      model.insert({t, i});
      if (i % 5000 == 0) c.mon.tick();
      while (model.size() > depth) take();
    }
    c.event("crossing_events", static_cast<double>(n));
    while (!model.empty()) take();
    c.check(q.size() == 0, "drain", "events left after draining");
  });
  // Long life: many events, with ties between events scheduled far apart.
  m.section("long", 8, 24, [&m](Case &c) {
    Driver<uint64_t> d;
    const int64_t n = m.thorough() ? 60000 : 20000;
    const int64_t keys = c.rng.range(1, 5);
    c.in(keys);
    c.in(c.index);
    for (int64_t i = 0; i < n; ++i) {
      d.schedule(c, c.rng.range(0, keys));
      if (i % 5000 == 0) c.mon.tick();
      if (i % 3 == 0 && d.model.size() > 7000) d.pop(c);
    }
    c.describe(cat(n, " events on ", keys + 1, " distinct times"));
    d.drain(c);
  });
}
VH_MAIN(body)
