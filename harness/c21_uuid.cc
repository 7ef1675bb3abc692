// UUID text form, equality, hashing, uniqueness.
#include <sys/wait.h>
#include <unistd.h>

#include <unordered_set>

#include "resim/assert/assert.hh"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/utils/uuid.hh"
#include "vh.hh"

using namespace vh;
using resim::AssertException;
using resim::UUID;

namespace {
using Raw = std::array<unsigned char, 16>;
Raw gen_raw(Rng &r) {
  Raw x{};
  switch (r() % 5) {
    case 0: break;
    case 1: x.fill(0xff); break;
    case 2: x[r() % 16] = static_cast<unsigned char>(r()); break;
    default:
      for (auto &b : x) b = static_cast<unsigned char>(r.chance(.1) ? r.pick<int>({0, 255, 10, 0x2d, 0x7f, 0x80}) : r());
  }
  return x;
}
// Independent reference of the text form.
std::string text(const Raw &x) {
  static const char *H = "0123456789abcdef";
  std::string s;
  for (int i = 0; i < 16; ++i) {
    if (i == 4 || i == 6 || i == 8 || i == 10) s += '-';
    s += H[x[i] >> 4];
    s += H[x[i] & 15];
  }
  return s;
}
bool well_formed(const std::string &s) {
  if (s.size() != 36) return false;
  for (size_t i = 0; i < 36; ++i) {
    const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash ? s[i] != '-' : !std::isxdigit(static_cast<unsigned char>(s[i]))) return false;
  }
  return true;
}
// Ids made by another process: forked off this one, or started afresh.
std::vector<std::string> others_ids(bool fresh) {
  int fd[2];
  std::vector<std::string> out;
  if (pipe(fd) != 0) return out;
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    if (fresh) {
      dup2(fd[1], 1);
      setenv("VH_PRINT_IDS", "1", 1);
      char self[] = "/proc/self/exe";
      char *argv[] = {self, nullptr};
      execv(self, argv);
      _exit(9);
    }
    std::string s;
    for (int i = 0; i < 50; ++i) s += UUID::new_uuid().to_string() + "\n";
    (void)!write(fd[1], s.data(), s.size());
    _exit(0);
  }
  close(fd[1]);
  std::string text;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) text.append(buf, static_cast<size_t>(n));
  close(fd[0]);
  int st = 0;
  if (pid > 0) waitpid(pid, &st, 0);
  std::istringstream is(text);
  for (std::string l; std::getline(is, l);)
    if (well_formed(l)) out.push_back(l);
  return out;
}
// In the freshly started process: print and leave.
const bool g_print = [] {
  if (std::getenv("VH_PRINT_IDS") == nullptr) return false;
  std::string s;
  for (int i = 0; i < 50; ++i) s += UUID::new_uuid().to_string() + "\n";
  (void)!write(1, s.data(), s.size());
  _exit(0);
}();
}  // namespace

void body(Monitor &m) {
  m.section("roundtrip", 20000, 1000000, [](Case &c) {
    const Raw x = gen_raw(c.rng);
    Raw y = c.rng.chance(.5) ? x : gen_raw(c.rng);
    if (c.rng.chance(.4)) y[c.rng() % 16] ^= static_cast<unsigned char>(1U << (c.rng() % 8));
    const std::string tx = text(x);
    c.in(tx);
    c.in(text(y));
    c.describe(tx);
    const UUID u(x), v(y);
    c.check_msg(u.to_string() == tx, "uuid-text", [&] { return cat(tx, " printed as ", u.to_string()); });
    c.check(u.id() == x, "uuid-raw", tx);
    c.check_msg(UUID(tx) == u && UUID(tx).id() == x, "uuid-parse", [&] { return tx; });
    std::string up = tx;
    for (auto &ch : up)
      if (c.rng.chance(.5)) ch = static_cast<char>(std::toupper(ch));
    c.check_msg(UUID(up).id() == x, "uuid-parse-case", [&] { return up; });
    const bool eq = x == y;
    c.check((u == v) == eq && (u != v) == !eq && (v == u) == eq, "uuid-equality", cat(tx, " vs ", text(y)));
    const std::hash<UUID> h;
    if (eq) c.check(h(u) == h(v), "uuid-hash", tx);
    c.check(h(u) == h(UUID(tx)), "uuid-hash", tx);
    c.check(u.is_null() == (x == Raw{}), "uuid-null", tx);
    c.check(UUID().is_null() && UUID().id() == Raw{}, "uuid-default-null", "default");
    UUID w;
    w = u;
    c.check(w == u && w.id() == x, "uuid-copy", tx);
    resim::proto::UUID msg;
    msg.set_data("stale");
    resim::proto::pack(u, &msg);
    c.check(resim::proto::unpack(msg) == u, "uuid-proto", tx);
    c.event("uuids");
  });
  m.section("malformed", 20000, 1000000, [](Case &c) {
    std::string s = text(gen_raw(c.rng));
    switch (c.rng() % 9) {
      case 7: {
        std::string bare;
        for (const char ch : s) if (ch != '-') bare += ch;
        s = c.rng.pick<std::string>({"", "null", "NULL", "nil", "none", "None", "(null)", "undefined", "0", "00000000", " ", "-", "----", "N/A", "urn:uuid:" + s, "(" + s + ")", " " + s, s + " ",
                                     s + "\n", "\"" + s + "\"", bare, std::string(32, '0'), "0x" + bare});
        break;
      }
      case 0: s[c.rng() % 36] = static_cast<char>(c.rng()); break;
      case 1: s.erase(c.rng() % 36, 1); break;
      case 2: s.insert(c.rng() % 37, 1, static_cast<char>(c.rng())); break;
      case 3: s.resize(c.rng() % 36); break;
      case 4: s += static_cast<char>(c.rng()); break;
      case 5: std::swap(s[c.rng() % 36], s[c.rng.pick<size_t>({8, 13, 18, 23})]); break;
      case 6: s = "{" + s + "}"; break;
      default: s = s.substr(0, 36) + std::string(c.rng() % 3, '\0') + "tail"; break;
    }
    c.in(s);
    c.describe(json_escape(s));
    if (well_formed(s)) {
      std::string low = s;
      for (auto &ch : low) ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
      c.check(UUID(s).to_string() == low, "uuid-parse", s);
    } else {
      c.must_throw<AssertException>("uuid-malformed", [&] { UUID u(s); }, json_escape(s));
      resim::proto::UUID msg;
      msg.set_data(s);
      c.must_throw<AssertException>("uuid-malformed-proto", [&] { resim::proto::unpack(msg); }, json_escape(s));
    }
    c.event("texts");
  });
  // Every single change of one text: each position, each character.
  m.section("neighbours", 37, 37 * 8, [](Case &c) {
    const Raw x = gen_raw(c.rng);
    const std::string base = text(x);
    const size_t at = static_cast<size_t>(c.index % 37);
    c.in(base);
    c.in(static_cast<int64_t>(at));
    c.describe(cat("every one-character change of ", base, " at ", at));
    auto judge = [&](const std::string &s) {
      if (well_formed(s)) {
        std::string low = s;
        for (auto &ch : low) ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
        c.check(UUID(s).to_string() == low, "uuid-parse", s);
      } else {
        c.must_throw<AssertException>("uuid-malformed", [&] { UUID u(s); }, json_escape(s));
      }
      c.event("texts");
    };
    for (int ch = 0; ch < 256; ++ch) {
      std::string s = base;
      if (at < 36) {
        s[at] = static_cast<char>(ch);
        judge(s);
      }
      s = base;
      s.insert(at, 1, static_cast<char>(ch));
      judge(s);
      s.insert(at, 1, static_cast<char>(ch));
      judge(s);
    }
    if (at < 36) {
      judge(base.substr(0, at) + base.substr(at + 1));
      judge(base.substr(at));
      judge(base.substr(0, at));
      judge(base.substr(at) + base.substr(0, at));
    }
    for (const auto &[l, t] : std::vector<std::pair<std::string, std::string>>{{"{", "}"}, {"(", ")"}, {"urn:uuid:", ""}, {"\"", "\""}, {" ", " "}, {"0x", ""}}) judge(l + base + t);
    std::string bare = base;
    std::erase(bare, '-');
    judge(bare);
    std::string under = base;
    std::replace(under.begin(), under.end(), '-', '_');
    judge(under);
  });
  // Concurrent generation never repeats an id.
  m.section("unique", 16, 64, [](Case &c) {
    const int threads = 4, each = 4000;
    std::vector<std::vector<UUID>> got(threads);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        for (int i = 0; i < each; ++i) got[t].push_back(UUID::new_uuid());
      });
    for (auto &t : ts) t.join();
    std::unordered_set<UUID> seen;
    c.describe(cat(threads, " threads generating ", each, " ids each"));
    c.in(c.index);
    for (auto &g : got)
      for (auto &u : g) {
        c.check(!u.is_null(), "uuid-new-null", "generated a null id");
        c.check(seen.insert(u).second, "uuid-new-repeats", u.to_string());
        c.event("ids_generated");
      }
  });
  // Nor do several processes.
  m.section("unique-processes", 48, 480, [](Case &c) {
    c.in(c.index);
    const bool fresh = c.index % 2 == 0;
    c.describe(fresh ? "two processes started alike" : "two processes forked off this one");
    std::set<std::string> seen;
    auto take = [&](const std::string &s) { c.check(seen.insert(s).second, "uuid-new-repeats", s + " from two processes"); };
    for (int i = 0; i < 20; ++i) take(UUID::new_uuid().to_string());
    for (int k = 0; k < 2; ++k) {
      const auto ids = others_ids(fresh);
      if (ids.empty()) throw std::runtime_error("no ids from the other process");
      for (auto &s : ids) take(s);
      c.event("ids_of_other_processes", static_cast<double>(ids.size()));
    }
    for (int i = 0; i < 20; ++i) take(UUID::new_uuid().to_string());
  });
}
VH_MAIN(body)
