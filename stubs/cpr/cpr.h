// Minimal stand-in for the cpr HTTP client (not installed in this sandbox).
// Nothing here opens a socket: every request is handed to a handler installed
// by the harness, which records it and scripts the reply.
#pragma once

#include <algorithm>
#include <cctype>
#include <chrono>
#include <cstdint>
#include <functional>
#include <map>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>

namespace cpr {

class StringHolder {
 public:
  StringHolder() = default;
  StringHolder(std::string s) : str_(std::move(s)) {}
  StringHolder(std::string_view s) : str_(s) {}
  StringHolder(const char *s) : str_(s) {}
  StringHolder(const char *s, std::size_t n) : str_(s, n) {}
  const std::string &str() const { return str_; }
  operator std::string() const { return str_; }
  const char *c_str() const { return str_.c_str(); }
  const char *data() const { return str_.data(); }
  bool empty() const { return str_.empty(); }
  std::size_t size() const { return str_.size(); }
  void operator+=(const std::string &s) { str_ += s; }
  friend bool operator==(const StringHolder &a, const StringHolder &b) { return a.str_ == b.str_; }
  friend std::string operator+(const StringHolder &a, const std::string &b) { return a.str_ + b; }
  friend std::ostream &operator<<(std::ostream &o, const StringHolder &s) { return o << s.str_; }

 protected:
  std::string str_;
};

class Url : public StringHolder {
 public:
  using StringHolder::StringHolder;
};
class Body : public StringHolder {
 public:
  using StringHolder::StringHolder;
};
class Bearer {
 public:
  Bearer(std::string token) : token_(std::move(token)) {}
  const std::string &token() const { return token_; }

 private:
  std::string token_;
};
struct CaseInsensitiveCompare {
  bool operator()(const std::string &a, const std::string &b) const {
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](unsigned char x, unsigned char y) { return std::tolower(x) < std::tolower(y); });
  }
};
using Header = std::map<std::string, std::string, CaseInsensitiveCompare>;
namespace status {
constexpr std::int32_t HTTP_OK = 200, HTTP_CREATED = 201, HTTP_ACCEPTED = 202, HTTP_BAD_REQUEST = 400, HTTP_UNAUTHORIZED = 401, HTTP_FORBIDDEN = 403, HTTP_NOT_FOUND = 404,
                       HTTP_INTERNAL_SERVER_ERROR = 500;
inline bool is_success(std::int32_t c) { return c >= 200 && c < 300; }
inline bool is_client_error(std::int32_t c) { return c >= 400 && c < 500; }
inline bool is_server_error(std::int32_t c) { return c >= 500 && c < 600; }
}  // namespace status

enum class ErrorCode { OK = 0, CONNECTION_FAILURE };
struct Error {
  ErrorCode code = ErrorCode::OK;
  std::string message;
  explicit operator bool() const { return code != ErrorCode::OK; }
};

struct Response {
  long status_code = 0;
  std::string text;
  Header header;
  Url url;
  Error error;
  std::string reason;
};

struct Timeout {
  Timeout(std::int32_t) {}
  Timeout(std::chrono::milliseconds) {}
};
struct ConnectTimeout : Timeout {
  using Timeout::Timeout;
};
struct VerifySsl {
  VerifySsl(bool) {}
};

namespace stub {
struct Request {
  std::string method;
  std::string url;
  Header header;
  bool has_bearer = false;
  std::string bearer;
  bool has_body = false;
  std::string body;
};
using Handler = std::function<Response(const Request &)>;
inline Handler &handler() {
  static Handler h;
  return h;
}
inline void apply(Request &r, const Url &u) { r.url = u.str(); }
inline void apply(Request &r, const Body &b) {
  r.has_body = true;
  r.body = b.str();
}
inline void apply(Request &r, const Bearer &b) {
  r.has_bearer = true;
  r.bearer = b.token();
}
inline void apply(Request &r, const Header &h) {
  for (const auto &[k, v] : h) r.header[k] = v;
}
inline void apply(Request &r, const Request &all) {
  const std::string m = r.method;
  r = all;
  r.method = m;
}
inline void apply(Request &, const Timeout &) {}
inline void apply(Request &, const VerifySsl &) {}
template <typename... Ts>
Response send(const char *method, const Ts &...ts) {
  Request r;
  r.method = method;
  (apply(r, ts), ...);
  if (!handler()) return Response{};
  Response resp = handler()(r);
  resp.url = Url{r.url};
  return resp;
}
}  // namespace stub

template <typename... Ts>
Response Post(Ts &&...ts) {
  return stub::send("POST", ts...);
}
template <typename... Ts>
Response Get(Ts &&...ts) {
  return stub::send("GET", ts...);
}
template <typename... Ts>
Response Put(Ts &&...ts) {
  return stub::send("PUT", ts...);
}

class Session {
 public:
  void SetUrl(const Url &u) { stub::apply(r_, u); }
  void SetBody(const Body &b) { stub::apply(r_, b); }
  void SetBearer(const Bearer &b) { stub::apply(r_, b); }
  void SetHeader(const Header &h) {
    r_.header.clear();
    stub::apply(r_, h);
  }
  void UpdateHeader(const Header &h) { stub::apply(r_, h); }
  void SetTimeout(const Timeout &) {}
  void SetVerifySsl(const VerifySsl &) {}
  template <typename T>
  void SetOption(const T &t) {
    stub::apply(r_, t);
  }
  Response Post() { return stub::send("POST", r_); }
  Response Get() { return stub::send("GET", r_); }
  Response Put() { return stub::send("PUT", r_); }

 private:
  stub::Request r_;
};

}  // namespace cpr
