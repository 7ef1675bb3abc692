// Two jets: poses with two derivatives obey the calculus of the matrix group.
#include "jets.hh"
#include "resim/assert/assert.hh"

using namespace vh;
using resim::AssertException;

namespace {
void chk(Case &c, const char *key, LD err, LD tol, const std::string &what) {
  c.event("max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", static_cast<double>(tol), ")"); });
}
template <typename G>
const G &pose(const TwoJetL<G> &t) { return t.frame_from_ref(); }
template <typename G>
const G &pose(const TwoJetR<G> &t) { return t.ref_from_frame(); }
template <typename G>
auto d1(const TwoJetL<G> &t) { return t.d_frame_from_ref(); }
template <typename G>
auto d1(const TwoJetR<G> &t) { return t.d_ref_from_frame(); }
template <typename G>
auto d2(const TwoJetL<G> &t) { return t.d2_frame_from_ref(); }
template <typename G>
auto d2(const TwoJetR<G> &t) { return t.d2_ref_from_frame(); }
template <typename G>
TwoJetR<G> flip(const TwoJetL<G> &t) { return t.right_two_jet(); }
template <typename G>
TwoJetL<G> flip(const TwoJetR<G> &t) { return t.left_two_jet(); }

double scale_of(const SE3 &g) { return scale(g); }
double scale_of(const SO3 &) { return 1; }

template <typename J>
void laws(Case &c, const char *tag) {
  Rng &r = c.rng;
  const J a = gen_jet<J>(r), b = gen_jet<J>(r), d = gen_jet<J>(r);
  using G = typename J::GroupType;
  const std::string s = cat(tag, " pose ", str(pose(a)), " d ", str(d1(a)), " d2 ", str(d2(a)));
  c.describe(s);
  feed(c, pose(a));
  feed(c, d1(a));
  feed(c, d2(b));
  const Jet A = jet(a), B = jet(b), D = jet(d);
  const LD sa = jscale(A), sb = jscale(B), sd = jscale(D);
  const LD e = 4e-14L;
  chk(c, "jet-compose", jdiff(jet(a * b), mul(A, B)), e * sa * sb * sa, s);
  chk(c, "jet-inverse", jdiff(jet(a.inverse()), inv(A)), e * sa * sa * sa, s);
  chk(c, "jet-assoc", jdiff(jet((a * b) * d), jet(a * (b * d))), 4 * e * sa * sb * sd * (sa + sb + sd), s);
  const Jet I{M4l::Identity(), M4l::Zero(), M4l::Zero()};
  chk(c, "jet-inverse-law", jdiff(jet(a * a.inverse()), I), e * sa * sa * sa * sa, s);
  chk(c, "jet-inverse-law", jdiff(jet(a.inverse() * a), I), e * sa * sa * sa * sa, s);
  chk(c, "jet-identity", jdiff(jet(J::identity()), I), 1e-15, s);
  chk(c, "jet-identity", jdiff(jet(a * J::identity()), A), e * sa, s);
  chk(c, "jet-identity", jdiff(jet(J::identity() * a), A), e * sa, s);
  chk(c, "jet-default", jdiff(jet(J()), I), 1e-15, s);
  // Converting sides inverts the pose and keeps the motion.
  chk(c, "jet-flip", jdiff(jet(flip(a)), inv(A)), e * sa * sa * sa, s);
  chk(c, "jet-flip-twice", jdiff(jet(flip(flip(a))), A), e * sa, s);
  chk(c, "jet-flip-compose", jdiff(jet(flip(a * b)), jet(flip(b) * flip(a))), 4 * e * sa * sb * (sa + sb) * (sa + sb), s);
  // is_approx distinguishes each component
  c.check(a.is_approx(a), "jet-approx-reflexive", s);
  typename G::TangentVector bump = G::TangentVector::Zero();
  bump(static_cast<long>(r() % G::DOF)) = 1e-5 * (1 + d1(a).norm() + d2(a).norm());
  const J other_d(pose(a), d1(a) + bump, d2(a)), other_d2(pose(a), d1(a), d2(a) + bump), other_p(pose(a) * G::exp(typename G::TangentVector(bump / bump.norm() * 1e-3)), d1(a), d2(a));
  c.check(!a.is_approx(other_d) && !other_d.is_approx(a), "jet-approx-d", s);
  c.check(!a.is_approx(other_d2) && !other_d2.is_approx(a), "jet-approx-d2", s);
  (void)other_p;
  c.event("jet_laws", 14);
}
template <typename J>
void approx_pose(Case &c) {
  using G = typename J::GroupType;
  const J a = gen_jet<J>(c.rng);
  const G turn(gen_group<G>(c.rng));
  feed(c, pose(a));
  c.describe(cat("pose comparison at ", str(pose(a))));
  if (maxdiff(mat4(pose(a) * turn), mat4(pose(a))) < 1e-4 * jscale(jet(a))) {
    c.trivial();
    return;
  }
  const J b(pose(a) * turn, d1(a), d2(a));
  c.check(!a.is_approx(b), "jet-approx-pose", "jets with different poses compare equal");
  c.event("approx_decisions");
}
// Each derivative is compared on its own scale, whatever the size of the other.
template <typename J>
void approx_scales(Case &c) {
  using G = typename J::GroupType;
  using TV = typename G::TangentVector;
  Rng &r = c.rng;
  auto vec = [&] {
    TV v;
    for (long i = 0; i < v.size(); ++i) v(i) = r.normal();
    return TV(v / v.norm() * r.log_uniform(-4, 8));
  };
  const G g = gen_group<G>(r);
  const TV v = vec(), a = vec();
  TV bump = TV::Zero();
  bump(static_cast<long>(r() % G::DOF)) = (r.chance(.5) ? 1 : -1) * r.log_uniform(-5, 0);
  c.describe(cat("comparison of jets with d ", str(v), " d2 ", str(a), " changed by the fraction ", str(bump)));
  feed(c, v);
  feed(c, a);
  const J j(g, v, a), dv(g, v + bump * v.norm(), a), da(g, v, a + bump * a.norm());
  c.check(!j.is_approx(dv) && !dv.is_approx(j), "jet-approx-d", "different first derivatives compare equal");
  c.check(!j.is_approx(da) && !da.is_approx(j), "jet-approx-d2", "different second derivatives compare equal");
  c.check(j.is_approx(J(g, TV(v * (1 + 1e-15)), TV(a * (1 - 1e-15)))), "jet-approx-rounding", "derivatives differing by rounding compare different");
  c.event("approx_scales");
}
// Running the same motions faster or slower scales first derivatives by the
// factor and second derivatives by its square, at any speed.
template <typename J>
void speeds(Case &c) {
  using G = typename J::GroupType;
  using TV = typename G::TangentVector;
  Rng &r = c.rng;
  auto vec = [&]() -> TV {
    if (r.chance(.1)) return TV::Zero();
    TV v;
    for (long i = 0; i < v.size(); ++i) v(i) = r.normal();
    if (r.chance(.2)) v *= r.log_uniform(-6, 2);
    return v;
  };
  const J a(gen_group<G>(r), vec(), vec()), b(gen_group<G>(r), vec(), vec());
  const double f = std::ldexp(1., static_cast<int>(r.range(-90, 60)));
  auto at = [&](const J &j) { return J(pose(j), d1(j) * f, d2(j) * f * f); };
  c.in(f);
  feed(c, d1(a));
  feed(c, d2(b));
  c.describe(cat("motions at ", f, " times the speed"));
  auto same = [&](const char *key, const auto &slow, const auto &fast, double size) {
    const LD s = static_cast<LD>(size);
    chk(c, key, std::max({maxdiff(mat4(pose(slow)), mat4(pose(fast))), maxdiff((d1(slow) * f).eval(), d1(fast)) / f, maxdiff((d2(slow) * f * f).eval(), d2(fast)) / f / f}), 1e-12L * s, cat("speed factor ", f));
  };
  const double n = scale_of(pose(a)) * scale_of(pose(b)) * (1 + d1(a).norm() + d2(a).norm()) * (1 + d1(b).norm() + d2(b).norm());
  same("jet-speed-compose", a * b, at(a) * at(b), n);
  same("jet-speed-inverse", a.inverse(), at(a).inverse(), n);
  same("jet-speed-flip", flip(a), flip(at(a)), n);
  c.event("speeds", 3);
}
template <typename J>
void frames(Case &c, const char *tag) {
  Rng &r = c.rng;
  const std::vector<Frame3> p{Frame3::new_frame(), Frame3::new_frame(), Frame3::new_frame()};
  const Frame3 i = r.pick(p), m = r.pick(p), m2 = r.pick(p), f = r.pick(p);
  const J a = gen_jet<J>(r, i, m), b = gen_jet<J>(r, m2, f);
  c.describe(cat(tag, m == m2 ? " matching" : " mismatched"));
  feed(c, pose(a));
  if (m == m2) {
    const J ab = a * b;
    c.check(pose(ab).into() == i && pose(ab).from() == f, "jet-frames-compose", tag);
  } else {
    c.must_throw<AssertException>("jet-frames-mismatch", [&] { a *b; }, tag);
  }
  const J ai = a.inverse();
  c.check(pose(ai).into() == m && pose(ai).from() == i, "jet-frames-inverse", tag);
  const auto fl = flip(a);
  c.check(pose(fl).into() == m && pose(fl).from() == i, "jet-frames-flip", tag);
  const J id = J::identity(p[0], p[1]);
  c.check(pose(id).into() == p[0] && pose(id).from() == p[1] && d1(id).isZero(0) && d2(id).isZero(0), "jet-frames-identity", tag);
  // Frames take part in the comparison of jets.
  auto q = pose(a);
  q.set_frames(Frame3::new_frame(), m);
  c.check(!a.is_approx(J(q, d1(a), d2(a))), "jet-approx-frames", tag);
  c.event("framed_jets");
}
// Derivatives are those of an actual motion: move two bodies along exact
// trajectories, compose the jets, compare with finite differences.
template <typename G>
void motion(Case &c) {
  using TV = typename G::TangentVector;
  Rng &r = c.rng;
  const G a0 = gen_group<G>(r), b0 = gen_group<G>(r);
  auto small = [&] {
    TV v;
    for (long i = 0; i < v.size(); ++i) v(i) = r.uniform(-1, 1);
    return v;
  };
  const TV va = small(), aa = small(), vb = small(), ab = small();
  feed(c, pose(TwoJetL<G>(a0, va, aa)));
  feed(c, va);
  c.describe(cat("motion ", str(va), " ", str(aa)));
  // a(t) = exp(va t + aa t^2/2) a0: at t=0 the left velocity is va; its rate is aa.
  const TwoJetL<G> ja(a0, va, aa), jb(b0, vb, ab);
  auto at = [&](double t) { return (G::exp(TV(va * t + aa * (t * t / 2))) * a0) * (G::exp(TV(vb * t + ab * (t * t / 2))) * b0); };
  const double h = 1e-3;
  const TwoJetL<G> j = ja * jb;
  const TV fwd = (at(h) * at(0).inverse()).log(), bwd = (at(-h) * at(0).inverse()).log();
  const TV fd = (fwd - bwd) / (2 * h), fd2 = (fwd + bwd) / (h * h);
  LD sc = 1 + fd.norm() + fd2.norm() + mat4(a0).cwiseAbs().maxCoeff() + mat4(b0).cwiseAbs().maxCoeff();
  chk(c, "jet-motion-d", maxdiff(fd, j.d_frame_from_ref()), 1e-5L * sc * sc, "velocity of the composed motion");
  chk(c, "jet-motion-d2", maxdiff(fd2, j.d2_frame_from_ref()), 1e-4L * sc * sc, "acceleration of the composed motion");
  c.event("motions");
}
}  // namespace

void body(Monitor &m) {
  m.section("left-se3", 6000, 300000, [](Case &c) { laws<TwoJetL<SE3>>(c, "left SE3"); });
  m.section("right-se3", 6000, 300000, [](Case &c) { laws<TwoJetR<SE3>>(c, "right SE3"); });
  m.section("left-so3", 6000, 300000, [](Case &c) { laws<TwoJetL<SO3>>(c, "left SO3"); });
  m.section("right-so3", 6000, 300000, [](Case &c) { laws<TwoJetR<SO3>>(c, "right SO3"); });
  m.section("approx", 4000, 50000, [](Case &c) {
    switch (c.index % 4) {
      case 0: approx_pose<TwoJetL<SE3>>(c); break;
      case 1: approx_pose<TwoJetR<SE3>>(c); break;
      case 2: approx_pose<TwoJetL<SO3>>(c); break;
      default: approx_pose<TwoJetR<SO3>>(c); break;
    }
  });
  m.section("approx-scales", 4000, 50000, [](Case &c) {
    switch (c.index % 4) {
      case 0: approx_scales<TwoJetL<SE3>>(c); break;
      case 1: approx_scales<TwoJetR<SE3>>(c); break;
      case 2: approx_scales<TwoJetL<SO3>>(c); break;
      default: approx_scales<TwoJetR<SO3>>(c); break;
    }
  });
  m.section("speeds", 4000, 100000, [](Case &c) {
    switch (c.index % 4) {
      case 0: speeds<TwoJetL<SE3>>(c); break;
      case 1: speeds<TwoJetR<SE3>>(c); break;
      case 2: speeds<TwoJetL<SO3>>(c); break;
      default: speeds<TwoJetR<SO3>>(c); break;
    }
  });
  m.section("frames", 4000, 50000, [](Case &c) {
    switch (c.index % 4) {
      case 0: frames<TwoJetL<SE3>>(c, "left SE3"); break;
      case 1: frames<TwoJetR<SE3>>(c, "right SE3"); break;
      case 2: frames<TwoJetL<SO3>>(c, "left SO3"); break;
      default: frames<TwoJetR<SO3>>(c, "right SO3"); break;
    }
  });
  m.section("motion-se3", 4000, 100000, [](Case &c) { motion<SE3>(c); });
  m.section("motion-so3", 2000, 100000, [](Case &c) { motion<SO3>(c); });
  m.section("setters", 1000, 10000, [](Case &c) {
    const TwoJetL<SE3> l = gen_jet<TwoJetL<SE3>>(c.rng);
    const TwoJetR<SE3> r = gen_jet<TwoJetR<SE3>>(c.rng);
    feed(c, pose(l));
    c.describe("setters");
    TwoJetL<SE3> x;
    x.set_d2_frame_from_ref(l.d2_frame_from_ref());
    x.set_frame_from_ref(l.frame_from_ref());
    x.set_d_frame_from_ref(l.d_frame_from_ref());
    c.check(jdiff(jet(x), jet(l)) == 0, "jet-setters", "left");
    TwoJetR<SE3> y;
    y.set_d2_ref_from_frame(r.d2_ref_from_frame());
    y.set_ref_from_frame(r.ref_from_frame());
    y.set_d_ref_from_frame(r.d_ref_from_frame());
    c.check(jdiff(jet(y), jet(r)) == 0, "jet-setters", "right");
    // One vector in several places, signs of zero, and parts of the jet itself.
    const V6 v = c.rng.chance(.2) ? V6::Zero().eval() : V6(l.d_frame_from_ref());
    x.set_d_frame_from_ref(v);
    x.set_d2_frame_from_ref(v);
    c.check(x.d_frame_from_ref() == v && x.d2_frame_from_ref() == v && maxdiff(mat(x.frame_from_ref()), mat(l.frame_from_ref())) == 0, "jet-setters", "left, equal derivatives");
    x.set_d_frame_from_ref(x.d2_frame_from_ref());
    x.set_frame_from_ref(x.frame_from_ref());
    c.check(x.d_frame_from_ref() == v && x.d2_frame_from_ref() == v, "jet-setters", "left, own parts");
    y.set_d_ref_from_frame(v);
    y.set_d2_ref_from_frame(v);
    c.check(y.d_ref_from_frame() == v && y.d2_ref_from_frame() == v && maxdiff(mat(y.ref_from_frame()), mat(r.ref_from_frame())) == 0, "jet-setters", "right, equal derivatives");
    y.set_d_ref_from_frame(y.d2_ref_from_frame());
    y.set_ref_from_frame(y.ref_from_frame());
    c.check(y.d_ref_from_frame() == v && y.d2_ref_from_frame() == v, "jet-setters", "right, own parts");
    const TwoJetR<SE3> z(r.ref_from_frame(), v, v);
    c.check(z.d_ref_from_frame() == v && z.d2_ref_from_frame() == v && z.is_approx(y), "jet-setters", "right, made of equal derivatives");
  });
}
VH_MAIN(body)
