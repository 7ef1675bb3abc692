// Decoding messages that may be anything at all.
#include "protos.hh"
#include "google/protobuf/message.h"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/utils/status_value.hh"

using namespace vh;
namespace pb = google::protobuf;

namespace {
// ---- the reference decoder: is the message well formed? ----
enum Verdict { GOOD, BAD, EITHER };
Verdict worst(std::initializer_list<Verdict> v) {
  Verdict w = GOOD;
  for (Verdict x : v) {
    if (x == BAD) return BAD;
    if (x == EITHER) w = EITHER;
  }
  return w;
}
bool hex(char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
bool uuid_text(const std::string &s) {
  if (s.size() != 36) return false;
  for (size_t i = 0; i < 36; ++i) {
    const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash ? s[i] != '-' : !hex(s[i])) return false;
  }
  return true;
}
std::string lower(std::string s) {
  for (char &ch : s) ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
  return s;
}
const std::string NIL = "00000000-0000-0000-0000-000000000000";
Verdict ok(const pu::UUID &m) { return uuid_text(m.data()) ? GOOD : BAD; }
Verdict ok(const pt::Frame_3 &m) { return ok(m.id()); }
std::string fid(const pt::Frame_3 &m) { return lower(m.id().data()); }
template <typename M>
Verdict group(const M &m, int n) {
  if (m.algebra_size() != n || ok(m.into()) == BAD || ok(m.from()) == BAD) return BAD;
  // Both frames or neither: a transform with one frame is not a transform.
  return (fid(m.into()) == NIL) == (fid(m.from()) == NIL) ? GOOD : BAD;
}
template <typename M>
bool framed(const M &m) {
  return fid(m.into()) != NIL;
}
template <typename M>
bool same_frames(const M &a, const M &b) {
  return fid(a.into()) == fid(b.into()) && fid(a.from()) == fid(b.from());
}
Verdict ok(const pt::SE3 &m) { return group(m, 6); }
Verdict ok(const pt::SO3 &m) { return group(m, 3); }
Verdict ok(const pt::FramedVector_3 &m) { return m.algebra_size() != 3 ? BAD : ok(m.frame()); }
template <typename M>
Verdict jl(const M &m, int n) {
  if (m.d_frame_from_ref_size() != n || m.d2_frame_from_ref_size() != n) return BAD;
  return ok(m.frame_from_ref());
}
template <typename M>
Verdict jr(const M &m, int n) {
  if (m.d_ref_from_frame_size() != n || m.d2_ref_from_frame_size() != n) return BAD;
  return ok(m.ref_from_frame());
}
Verdict ok(const pc::TwoJetL_SE3 &m) { return jl(m, 6); }
Verdict ok(const pc::TwoJetL_SO3 &m) { return jl(m, 3); }
Verdict ok(const pc::TwoJetR_SE3 &m) { return jr(m, 6); }
Verdict ok(const pc::TwoJetR_SO3 &m) { return jr(m, 3); }
Verdict ok(const pc::DCurve_SE3 &m) {
  for (const auto &p : m.ref_from_control())
    if (ok(p) == BAD) return BAD;
  Verdict v = GOOD;
  for (int i = 1; i < m.ref_from_control_size(); ++i) {
    const auto &a = m.ref_from_control(0), &b = m.ref_from_control(i);
    if (same_frames(a, b)) continue;
    if (framed(a)) return BAD;  // a framed curve only takes poses in its own frames
    v = EITHER;
  }
  return v;
}
template <typename M>
Verdict tc(const M &m) {
  for (const auto &p : m.points())
    if (ok(p.point()) == BAD) return BAD;
  for (int i = 1; i < m.points_size(); ++i) {
    if (!(m.points(i).time() > m.points(i - 1).time())) return BAD;
    if (!same_frames(m.points(i).point().frame_from_ref(), m.points(i - 1).point().frame_from_ref())) return BAD;
  }
  return GOOD;
}
Verdict ok(const pc::TCurve_SE3 &m) { return tc(m); }
Verdict ok(const pc::TCurve_SO3 &m) { return tc(m); }
Verdict ok(const pa::Trajectory &m) {
  const __int128 ns = static_cast<__int128>(m.start_time().seconds()) * 1000000000 + m.start_time().nanos();
  if (ns > INT64_MAX || ns < INT64_MIN) return BAD;
  // Representable, but outside the value range of the timestamp message.
  Verdict v = ok(m.curve());
  const __int128 s = static_cast<__int128>(m.start_time().seconds()) * 1000000000;
  if (s > INT64_MAX || s < INT64_MIN) v = worst({v, EITHER});
  if (std::abs(static_cast<int64_t>(m.start_time().nanos())) > 999999999) v = worst({v, EITHER});
  return v;
}
Verdict ok(const pv::ViewPrimitive &m) {
  Verdict p = BAD;
  switch (m.payload_case()) {
    case pv::ViewPrimitive::kFrame: p = ok(m.frame()); break;
    case pv::ViewPrimitive::kSe3: p = ok(m.se3()); break;
    case pv::ViewPrimitive::kSo3: p = ok(m.so3()); break;
    case pv::ViewPrimitive::kDCurveSe3: p = ok(m.d_curve_se3()); break;
    case pv::ViewPrimitive::kTCurveSe3: p = ok(m.t_curve_se3()); break;
    case pv::ViewPrimitive::kTrajectory: p = ok(m.trajectory()); break;
    case pv::ViewPrimitive::kFramedVector: p = ok(m.framed_vector()); break;
    default: return BAD;
  }
  return worst({ok(m.id()), p});
}
Verdict ok(const pv::ViewUpdate &m) {
  Verdict v = GOOD;
  for (const auto &p : m.primitive()) v = worst({v, ok(p)});
  return v;
}

// ---- damage ----
double wild(Rng &r) {
  return r.pick<double>({0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 5e-324, 1e-160, 1e154, HUGE_VAL, -HUGE_VAL, std::nan(""), 3.141592653589793, 1e9, r.normal(), r.normal() * 100});
}
std::string wild_text(Rng &r, std::string s) {
  switch (r() % 11) {
    case 8: return r.pick<std::string>({"null", "NULL", "nil", "none", "None", "(null)", "undefined", "0", "00000000", " ", "-", "----", "default", "N/A"});
    case 9: {
      std::string bare;
      for (const char ch : s) if (ch != '-') bare += ch;
      return r.pick<std::string>({"urn:uuid:" + s, "{" + s + "}", "(" + s + ")", " " + s, s + " ", s + "\n", "\"" + s + "\"", bare});
    }
    case 0: return "";
    case 1: return NIL;
    case 2: return s + "0";
    case 3: return s.substr(0, s.empty() ? 0 : s.size() - 1);
    case 4: if (!s.empty()) s[r() % s.size()] = static_cast<char>(r.range(0, 255)); return s;
    case 5: return s + std::string("\0junk", 5);
    case 6: for (char &ch : s) ch = static_cast<char>(std::toupper(static_cast<unsigned char>(ch))); return s;
    case 7: return std::string(static_cast<size_t>(r.range(0, 80)), r.pick({'0', '-', 'f', 'z'}));
    default: return UUID::new_uuid().to_string();
  }
}
// Pick one message of the tree and damage one of its fields.
void damage(Rng &r, pb::Message *m, int depth = 0) {
  const auto *d = m->GetDescriptor();
  const auto *re = m->GetReflection();
  if (d->field_count() == 0) return;
  const auto *f = d->field(static_cast<int>(r() % static_cast<uint64_t>(d->field_count())));
  // Mostly go down into fields that are there.
  if (depth < 8 && r.chance(.75)) {
    std::vector<const pb::FieldDescriptor *> set;
    re->ListFields(*m, &set);
    std::vector<const pb::FieldDescriptor *> sub;
    for (const auto *x : set)
      if (x->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) sub.push_back(x);
    if (!sub.empty()) {
      f = r.pick(sub);
      if (f->is_repeated())
        return damage(r, re->MutableRepeatedMessage(m, f, static_cast<int>(r() % static_cast<uint64_t>(re->FieldSize(*m, f)))), depth + 1);
      return damage(r, re->MutableMessage(m, f), depth + 1);
    }
  }
  if (f->is_repeated()) {
    const int n = re->FieldSize(*m, f);
    if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_DOUBLE) {
      switch (r() % 4) {
        case 0: re->AddDouble(m, f, wild(r)); break;
        case 1: if (n > 0) re->RemoveLast(m, f); break;
        case 2: re->ClearField(m, f); break;
        default: if (n > 0) re->SetRepeatedDouble(m, f, static_cast<int>(r() % static_cast<uint64_t>(n)), wild(r));
      }
    } else if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
      switch (r() % 4) {
        case 0: re->AddMessage(m, f); break;
        case 1: if (n > 1) re->SwapElements(m, f, static_cast<int>(r() % static_cast<uint64_t>(n)), static_cast<int>(r() % static_cast<uint64_t>(n))); break;
        case 2: if (n > 0) re->RemoveLast(m, f); break;
        default:
          if (n > 0) {
            auto *x = re->AddMessage(m, f);
            x->CopyFrom(re->GetRepeatedMessage(*m, f, static_cast<int>(r() % static_cast<uint64_t>(n))));
          }
      }
    }
    return;
  }
  if (r.chance(.25)) return re->ClearField(m, f);
  switch (f->cpp_type()) {
    case pb::FieldDescriptor::CPPTYPE_DOUBLE: re->SetDouble(m, f, wild(r)); break;
    case pb::FieldDescriptor::CPPTYPE_STRING: re->SetString(m, f, wild_text(r, re->GetString(*m, f))); break;
    case pb::FieldDescriptor::CPPTYPE_INT32: re->SetInt32(m, f, static_cast<int32_t>(r.pick<int64_t>({INT32_MAX, INT32_MIN, 0, -1, 999999999, 1000000000, r.range(INT32_MIN, INT32_MAX)}))); break;
    case pb::FieldDescriptor::CPPTYPE_INT64: re->SetInt64(m, f, r.pick<int64_t>({INT64_MAX, INT64_MIN, 0, -1, 9223372036LL, -9223372036LL, 9223372037LL, -9223372037LL, 253402300799LL, static_cast<int64_t>(r())})); break;
    case pb::FieldDescriptor::CPPTYPE_MESSAGE: re->MutableMessage(m, f)->Clear(); break;
    default: break;
  }
}
std::string flip(Rng &r, std::string s) {
  for (int64_t i = r.range(1, 4); i > 0 && !s.empty(); --i) {
    const size_t k = r() % s.size();
    switch (r() % 4) {
      case 0: s[k] = static_cast<char>(r.range(0, 255)); break;
      case 1: s.erase(k, static_cast<size_t>(r.range(1, 9))); break;
      case 2: s.insert(k, s.substr(r() % s.size(), static_cast<size_t>(r.range(1, 40)))); break;
      default: s[k] = static_cast<char>(s[k] ^ (1 << (r() % 8)));
    }
  }
  return s;
}
// Does every number of the message have a finite value?
bool finite(const pb::Message &m) {
  const auto *re = m.GetReflection();
  std::vector<const pb::FieldDescriptor *> set;
  re->ListFields(m, &set);
  for (const auto *f : set) {
    if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_DOUBLE) {
      for (int i = 0; i < (f->is_repeated() ? re->FieldSize(m, f) : 1); ++i) {
        const double x = f->is_repeated() ? re->GetRepeatedDouble(m, f, i) : re->GetDouble(m, f);
        // Squares of these may overflow on the way.
        if (!(std::fabs(x) < 1e100)) return false;
      }
    } else if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
      if (f->is_repeated()) {
        for (int i = 0; i < re->FieldSize(m, f); ++i)
          if (!finite(re->GetRepeatedMessage(m, f, i))) return false;
      } else if (!finite(re->GetMessage(m, f))) {
        return false;
      }
    }
  }
  return true;
}
// uuid text is compared as a value: normalise its case
void normalise(pb::Message *m) {
  const auto *re = m->GetReflection();
  std::vector<const pb::FieldDescriptor *> set;
  re->ListFields(*m, &set);
  for (const auto *f : set) {
    if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE) {
      if (f->is_repeated())
        for (int i = 0; i < re->FieldSize(*m, f); ++i) normalise(re->MutableRepeatedMessage(m, f, i));
      else
        normalise(re->MutableMessage(m, f));
    } else if (m->GetDescriptor()->full_name() == "resim.proto.UUID") {
      re->SetString(m, f, lower(re->GetString(*m, f)));
    }
  }
}

template <typename Msg>
void decode(Case &c, const char *kind, const Msg &m) {
  // Numbers without a finite value may be refused or kept, not replaced.
  const Verdict want = worst({ok(m), finite(m) ? GOOD : EITHER});
  const std::string before = m.SerializeAsString();
  c.in(static_cast<uint64_t>(hash_str(before)));
  bool accepted = false;
  std::string bad;
  try {
    const auto v = unpack(m);
    accepted = true;
    if constexpr (std::is_same_v<Msg, pa::Trajectory>) {
      // The value answers for its times or says that it cannot.
      const auto &pts = v.curve().control_pts();
      if (!pts.empty() && std::isfinite(pts.back().time)) {
        try {
          const int64_t a = v.start_time().time_since_epoch().count(), e = v.end_time().time_since_epoch().count();
          if (pts.back().time >= 0 ? e < a : e > a) bad = cat("starts at ", a, ", ends at ", e, ", with a last time of ", pts.back().time);
          c.event("end_times");
        } catch (const AssertException &) {
          c.event("end_times_refused");
        }
      }
    }
    if (want != BAD) {
      Msg n = m;
      normalise(&n);
      if (bad.empty()) bad = says(n, v);
      // and it can be sent on
      Msg again;
      pack(v, &again);
      if (bad.empty() && want == GOOD) bad = says(again, v);
      c.event("content_compared");
    }
  } catch (const AssertException &) {
  }
  auto text = [&] { return m.ShortDebugString().substr(0, 1500); };
  c.check_msg(m.SerializeAsString() == before, cat(kind, ":mutated").c_str(), text);
  c.check_msg(!(want == BAD && accepted), cat(kind, ":accepts-malformed").c_str(), text);
  c.check_msg(!(want == GOOD && !accepted), cat(kind, ":rejects-valid").c_str(), text);
  c.check_msg(bad.empty(), cat(kind, ":content").c_str(), [&] { return bad + " in " + text(); });
  c.event(accepted ? "accepted" : "rejected");
  c.event(want == GOOD ? "well_formed" : want == BAD ? "malformed" : "unspecified");
}
void decode_status(Case &c, const pv::ViewPrimitive &m) {
  // The Status-returning variant reports a missing payload as a bad status.
  try {
    const auto sv = pv::detail::unpack(m);
    const bool unset = m.payload_case() == pv::ViewPrimitive::PAYLOAD_NOT_SET;
    c.check(sv.ok() != unset, "view-primitive:status", m.ShortDebugString().substr(0, 500));
  } catch (const AssertException &) {
  }
}
template <typename Msg, typename F>
void sec(Monitor &mon, const char *kind, int64_t q, int64_t d, F gen) {
  mon.section(kind, q, d, [&](Case &c) {
    Msg m;
    pack(gen(c.rng), &m);
    if (c.rng.chance(.25)) {
      Msg n;
      const std::string wire = flip(c.rng, m.SerializeAsString());
      n.ParseFromString(wire);  // whatever was understood is still delivered
      m = n;
      c.event("byte_damage");
    } else {
      for (int64_t i = c.rng.chance(.1) ? 0 : c.rng.range(1, 3); i > 0; --i) damage(c.rng, &m);
      c.event("field_damage");
    }
    c.describe(m.ShortDebugString().substr(0, 300));
    decode(c, kind, m);
    if (c.index % 8 == 0) {
      const auto v = gen(c.rng);
      c.must_throw<AssertException>(cat(kind, ":null-output").c_str(), [&] { pack(v, static_cast<Msg *>(nullptr)); }, "packing into a null message");
    }
    if constexpr (std::is_same_v<Msg, pv::ViewPrimitive>) decode_status(c, m);
  });
}
template <typename G, template <typename> class J>
J<G> gj(Rng &r) {
  return J<G>(with(gen_group<G>(r), gen_frames(r)), gen_deriv<G>(r), gen_deriv<G>(r));
}
}  // namespace

// Lists of numbers of the wrong length never fill a matrix.
template <typename M>
void matrix(Case &c, M v) {
  Rng &r = c.rng;
  google::protobuf::RepeatedField<double> f;
  const int64_t n = r.chance(.4) ? v.size() : r.range(0, 2 * v.size() + 3);
  for (int64_t i = 0; i < n; ++i) f.Add(static_cast<double>(i) + 1);
  c.in(n);
  c.in(static_cast<int64_t>(v.rows()));
  c.in(static_cast<int64_t>(v.cols()));
  v.setConstant(-5);
  if (n == v.size()) {
    resim::math::proto::unpack_matrix(f, resim::InOut(v));
    for (long i = 0; i < v.size(); ++i) c.check(v.reshaped()(i) == static_cast<double>(i + 1), "matrix:content", cat(v.rows(), "x", v.cols()));
  } else {
    c.must_throw<AssertException>("matrix:size", [&] { resim::math::proto::unpack_matrix(f, resim::InOut(v)); }, cat(n, " numbers for ", v.rows(), "x", v.cols()));
  }
  c.must_throw<AssertException>("matrix:null", [&] { resim::math::proto::pack_matrix(v, static_cast<google::protobuf::RepeatedField<double> *>(nullptr)); }, "null output");
}

void body(Monitor &m) {
  pb::SetLogHandler(nullptr);
  m.section("matrix", 2000, 50000, [](Case &c) {
    c.describe("lists of numbers against matrix sizes");
    switch (c.rng() % 4) {
      case 0: return matrix(c, Eigen::Matrix3d());
      case 1: return matrix(c, Eigen::Matrix<double, 6, 1>());
      case 2: return matrix(c, Eigen::MatrixXd(c.rng.range(0, 5), c.rng.range(1, 5)));
      default: return matrix(c, Eigen::VectorXd(c.rng.range(0, 9)));
    }
  });
  sec<pu::UUID>(m, "uuid", 4000, 400000, [](Rng &) { return UUID::new_uuid(); });
  sec<pt::Frame_3>(m, "frame", 2000, 100000, [](Rng &) { return Frame3::new_frame(); });
  sec<pt::SE3>(m, "se3", 6000, 500000, [](Rng &r) { return with(gen_se3(r), gen_frames(r)); });
  sec<pt::SO3>(m, "so3", 6000, 500000, [](Rng &r) { return with(gen_so3(r), gen_frames(r)); });
  sec<pt::FramedVector_3>(m, "framed-vector", 3000, 200000, [](Rng &r) { return gen_fvec(r); });
  sec<pc::TwoJetL_SE3>(m, "two-jetl-se3", 3000, 300000, gj<SE3, TwoJetL>);
  sec<pc::TwoJetL_SO3>(m, "two-jetl-so3", 3000, 300000, gj<SO3, TwoJetL>);
  sec<pc::TwoJetR_SE3>(m, "two-jetr-se3", 3000, 300000, gj<SE3, TwoJetR>);
  sec<pc::TwoJetR_SO3>(m, "two-jetr-so3", 3000, 300000, gj<SO3, TwoJetR>);
  sec<pc::DCurve_SE3>(m, "d-curve", 6000, 400000, gen_dcurve);
  sec<pc::TCurve_SE3>(m, "t-curve-se3", 6000, 400000, [](Rng &r) { return gen_tcurve<SE3>(r); });
  sec<pc::TCurve_SO3>(m, "t-curve-so3", 6000, 400000, [](Rng &r) { return gen_tcurve<SO3>(r); });
  sec<pa::Trajectory>(m, "trajectory", 6000, 400000, gen_trajectory);
  sec<pv::ViewPrimitive>(m, "view-primitive", 8000, 600000, [](Rng &r) { return gen_primitive(r); });
  sec<pv::ViewUpdate>(m, "view-update", 1500, 60000, [](Rng &r) {
    ViewUpdate u;
    for (int64_t i = r.range(0, 6); i > 0; --i) u.primitives.push_back(gen_primitive(r));
    return u;
  });
}
VH_MAIN(body)
