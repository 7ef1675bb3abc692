// Frame bookkeeping: every composition, inversion, interpolation and rotation
// either carries the right frames or is refused.
#include "geo.hh"
#include "resim/assert/assert.hh"

using namespace vh;
using resim::AssertException;
using resim::UUID;

namespace {
// A pool of frames, several of which differ from another in one bit only.
std::vector<Frame3> pool(Rng &r) {
  std::vector<Frame3> out;
  std::array<unsigned char, 16> base{};
  for (auto &b : base) b = static_cast<unsigned char>(r());
  base[r() % 16] |= 1;
  out.emplace_back(UUID(base));
  for (int k = 0; k < 3; ++k) {
    auto x = base;
    x[r() % 16] ^= static_cast<unsigned char>(1U << (r() % 8));
    bool null = true;
    for (auto b : x) null = null && b == 0;
    if (!null && x != base) out.emplace_back(UUID(x));
  }
  // A frame whose id is all zero except one byte: not null.
  std::array<unsigned char, 16> z{};
  z[r() % 16] = static_cast<unsigned char>(1 + r() % 255);
  out.emplace_back(UUID(z));
  out.push_back(Frame3::new_frame());
  return out;
}
struct Ref {  // what the frames must be
  bool framed;
  Frame3 into, from;
};
template <typename G>
G make(Rng &r, const Ref &f);
template <>
SO3 make<SO3>(Rng &r, const Ref &f) {
  return f.framed ? SO3(gen_rotmat(r), f.into, f.from) : SO3(gen_rotmat(r));
}
template <>
SE3 make<SE3>(Rng &r, const Ref &f) {
  if (!f.framed) return gen_se3(r);
  switch (r() % 3) {
    case 0: return SE3(gen_so3(r), f.into, f.from);
    case 1: return SE3(gen_trans(r), f.into, f.from);
    default: return gen_se3(r, f.into, f.from);
  }
}
Ref gen_ref(Rng &r, const std::vector<Frame3> &p) {
  if (r.chance(.25)) return {false, {}, {}};
  return {true, r.pick(p), r.pick(p)};
}
template <typename G>
void expect(Case &c, const char *key, const G &g, const Ref &f) {
  c.check_msg(g.is_framed() == f.framed, key, [&] { return cat(f.framed ? "framed" : "unframed", " result expected"); });
  if (f.framed) {
    c.check(g.into() == f.into && g.from() == f.from, key, "wrong frames on the result");
    c.check(g.verify_frames(f.into, f.from) && g.verify_into(f.into) && g.verify_from(f.from), key, "frame verification refuses the right frames");
  } else {
    c.check(g.into().is_null() && g.from().is_null(), key, "unframed result carries a frame");
  }
  c.event("frame_verdicts");
}

template <typename G>
void algebra(Case &c, const char *tag) {
  Rng &r = c.rng;
  const auto p = pool(r);
  Ref fa = gen_ref(r, p);
  Ref fb = gen_ref(r, p);
  if (fa.framed && fb.framed && r.chance(.5)) fb.into = fa.from;
  const G a = make<G>(r, fa), b = make<G>(r, fb);
  for (const auto *f : {&fa, &fb}) {
    c.in(static_cast<int64_t>(f->framed));
    c.in(f->into.id().to_string());
    c.in(f->from.id().to_string());
  }
  c.describe(cat(tag, " ", fa.framed ? "framed" : "unframed", " times ", fb.framed ? "framed" : "unframed",
                 fa.framed && fb.framed && !(fa.from == fb.into) ? " with mismatched inner frames" : ""));
  expect(c, "construct", a, fa);
  // Composition
  if (fa.framed && fb.framed) {
    if (fa.from.id().id() == fb.into.id().id()) {
      expect(c, "compose", a * b, {true, fa.into, fb.from});
    } else {
      c.must_throw<AssertException>("compose-mismatch", [&] { a *b; }, "mismatched inner frames");
    }
  } else {
    expect(c, "compose-unframed", a * b, {false, {}, {}});
  }
  // Inversion swaps
  expect(c, "inverse", a.inverse(), {fa.framed, fa.from, fa.into});
  expect(c, "inverse-twice", a.inverse().inverse(), fa);
  // Interpolation
  const double t = r.chance(.4) ? r.pick<double>({0., 1., -1., .5, 2., -0., 1. - 1e-16, 1e-12, 1. + 1e-9}) : r.uniform(-1, 2);
  expect(c, "interp", a.interp(t), fa);
  const Frame3 nf = r.pick(p);
  if (fa.framed) {
    expect(c, "interp-new-from", a.interp(t, nf), {true, fa.into, nf});
    c.must_throw<AssertException>("interp-null-from", [&] { a.interp(t, Frame3()); }, "null frame for interpolation");
  } else {
    c.must_throw<AssertException>("interp-unframed", [&] { a.interp(t, nf); }, "unframed interpolation with a new frame");
  }
  // Rotating framed vectors
  const V3 v = gen_trans(r);
  const Frame3 vf = fa.framed && r.chance(.5) ? fa.from : r.pick(p);
  const FVec fv(v, vf);
  if (fa.framed && vf == fa.from) {
    const FVec out = a.rotate(fv);
    c.check(out.frame() == fa.into, "rotate-frame", "rotated vector carries the wrong frame");
    c.check(maxdiff(out.vector(), a.rotate(v)) <= 1e-13 * (1 + v.norm()), "rotate-value", "framed and unframed rotation differ");
  } else {
    c.must_throw<AssertException>("rotate-mismatch", [&] { a.rotate(fv); }, "vector in another frame");
  }
  // A transform without frames, or a vector without one, has no meaningful result.
  c.must_throw<AssertException>("rotate-unframed", [&] { a.rotate(FVec(v, Frame3())); }, "vector in the null frame");
  // Equality
  const Frame3 o1 = r.pick(p), o2 = r.pick(p);
  G d = a;
  d.set_frames(o1, o2);
  expect(c, "set-frames", d, {true, o1, o2});
  c.check(a.is_approx_transform(d), "approx-transform", "frames influence the transform comparison");
  const bool same = fa.framed && fa.into == o1 && fa.from == o2;
  c.check(a.is_approx(d) == same && d.is_approx(a) == same, "approx-frames", "approximate equality ignores or invents a frame difference");
  // Setters
  c.must_throw<AssertException>("set-null", [&] { d.set_frames(Frame3(), o2); }, "null into frame");
  expect(c, "set-null-effect", d, {true, o1, o2});
  c.must_throw<AssertException>("set-null", [&] { d.set_frames(o1, Frame3::null_frame()); }, "null from frame");
  c.must_throw<AssertException>("set-null", [&] { d.set_frames(Frame3(), Frame3()); }, "null frames");
  expect(c, "set-null-effect", d, {true, o1, o2});
  // Frames taken from the object itself: turned around, and one of them twice.
  d.set_frames(d.from(), d.into());
  expect(c, "set-frames-own", d, {true, o2, o1});
  d.set_frames(d.into(), d.from());
  expect(c, "set-frames-own", d, {true, o2, o1});
  d.set_frames(d.from(), d.from());
  expect(c, "set-frames-own", d, {true, o1, o1});
  d.set_unframed();
  expect(c, "set-unframed", d, {false, {}, {}});
  c.check(a.is_approx(d) == !fa.framed && d.is_approx(a) == !fa.framed, "approx-unframed", "comparison of a framed with an unframed transform");
  if (fa.framed) {  // one differing frame suffices
    G one = a;
    one.set_frames(fa.into, Frame3::new_frame());
    c.check(!a.is_approx(one) && !one.is_approx(a) && a.is_approx_transform(one), "approx-one-frame", "from frame ignored");
    one.set_frames(Frame3::new_frame(), fa.from);
    c.check(!a.is_approx(one) && !one.is_approx(a), "approx-one-frame", "into frame ignored");
  }
  // Copies and moves keep frames.
  G cp(a);
  expect(c, "copy", cp, fa);
  G mv(std::move(cp));
  expect(c, "move", mv, fa);
  d = mv;
  expect(c, "assign", d, fa);
  // verify_* refuse the wrong ones
  if (fa.framed) {
    c.check(a.verify_into(o1) == (o1 == fa.into) && a.verify_from(o2) == (o2 == fa.from), "verify", "frame verification wrong");
    c.check(a.verify_frames(o1, o2) == same, "verify", "frame verification wrong");
  }
}

template <typename G, typename F>
void semi(Case &c, const char *what, F &&mk) {
  const Frame3 a = Frame3::new_frame(), n;
  c.must_throw<AssertException>("semi-framed", [&] { mk(a, n); }, what);
  c.must_throw<AssertException>("semi-framed", [&] { mk(n, a); }, what);
  const G both = mk(n, n);
  c.check(!both.is_framed(), "null-frames", what);
  const Frame3 b = Frame3::new_frame();
  const G ok = mk(a, b);
  c.check(ok.is_framed() && ok.into() == a && ok.from() == b, "ctor-frames", what);
  c.event("constructors");
}
}  // namespace

void body(Monitor &m) {
  m.section("so3", 8000, 400000, [](Case &c) { algebra<SO3>(c, "SO3"); });
  m.section("se3", 8000, 400000, [](Case &c) { algebra<SE3>(c, "SE3"); });
  m.section("semi-framed", 400, 5000, [](Case &c) {
    Rng &r = c.rng;
    const V3 u = gen_unit(r), t = gen_trans(r);
    const M3 R = gen_rotmat(r);
    const V6 alg = gen_tangent(r);
    const V3 w = alg.head<3>();
    feed(c, R);
    c.describe("each framed constructor with each null combination");
    semi<SO3>(c, "SO3(matrix)", [&](Frame3 i, Frame3 f) { return SO3(R, i, f); });
    semi<SO3>(c, "SO3(angle,axis)", [&](Frame3 i, Frame3 f) { return SO3(.3, u, i, f); });
    semi<SO3>(c, "SO3(angleaxis)", [&](Frame3 i, Frame3 f) { return SO3(Eigen::AngleAxisd(.3, u), i, f); });
    semi<SO3>(c, "SO3(quaternion)", [&](Frame3 i, Frame3 f) { return SO3(Eigen::Quaterniond(R), i, f); });
    semi<SO3>(c, "SO3::identity", [&](const Frame3 &i, const Frame3 &f) { return SO3::identity(i, f); });
    semi<SO3>(c, "SO3::exp", [&](const Frame3 &i, const Frame3 &f) { return SO3::exp(w, i, f); });
    semi<SE3>(c, "SE3(rotation)", [&](Frame3 i, Frame3 f) { return SE3(SO3(R), i, f); });
    semi<SE3>(c, "SE3(translation)", [&](Frame3 i, Frame3 f) { return SE3(t, i, f); });
    semi<SE3>(c, "SE3(rotation,translation)", [&](Frame3 i, Frame3 f) { return SE3(SO3(R), t, i, f); });
    semi<SE3>(c, "SE3::identity", [&](const Frame3 &i, const Frame3 &f) { return SE3::identity(i, f); });
    semi<SE3>(c, "SE3::exp", [&](const Frame3 &i, const Frame3 &f) { return SE3::exp(alg, i, f); });
    // A pose owns its frames; those of the rotation it was built from are dropped.
    const Frame3 A = Frame3::new_frame(), B = Frame3::new_frame(), C = Frame3::new_frame(), D = Frame3::new_frame();
    const SO3 framed(R, A, B);
    c.check(!SE3(framed).is_framed() && !SE3(framed).rotation().is_framed(), "rotation-frames", "frames of the rotation leak into the pose");
    c.check(!SE3(framed, t).is_framed() && !SE3(framed, t).rotation().is_framed(), "rotation-frames", "frames of the rotation leak into the pose");
    const SE3 p1(framed, t, C, D), p2(framed, C, D);
    c.check(p1.into() == C && p1.from() == D && !p1.rotation().is_framed() && p2.into() == C && p2.from() == D && !p2.rotation().is_framed(), "rotation-frames", "frames of the rotation leak into the pose");
  });
  // Chains of framed transforms: exactly the well-typed ones are accepted.
  m.section("chains", 2000, 50000, [](Case &c) {
    Rng &r = c.rng;
    const auto p = pool(r);
    Frame3 into = r.pick(p), from = r.pick(p);
    SE3 g = gen_se3(r, into, from);
    const int n = static_cast<int>(r.range(2, 30));
    c.in(n);
    c.in(into.id().to_string());
    c.describe(cat("chain of ", n, " framed poses over ", p.size(), " frames"));
    for (int i = 0; i < n; ++i) {
      const Frame3 x = r.pick(p), y = r.pick(p);
      c.in(x.id().to_string());
      const SE3 h = gen_se3(r, x, y);
      if (r.chance(.3)) {
        g = g.inverse();
        std::swap(into, from);
      }
      if (x == from) {
        g = g * h;
        from = y;
      } else {
        c.must_throw<AssertException>("chain-mismatch", [&] { g *h; }, "mismatched chain");
      }
      expect(c, "chain", g, {true, into, from});
    }
  });
  m.section("framed-vectors", 8000, 200000, [](Case &c) {
    Rng &r = c.rng;
    const auto p = pool(r);
    const V3 a = gen_trans(r), b = gen_trans(r);
    const Frame3 fa = r.chance(.15) ? Frame3() : r.pick(p), fb = r.chance(.5) ? fa : r.chance(.25) ? Frame3() : r.pick(p);
    feed(c, a);
    feed(c, b);
    c.in(fb.id().to_string());
    c.describe(cat(str(a), " + ", str(b), fa == fb ? " same frame" : " different frames"));
    FVec x(a, fa), y(b, fb);
    const FVec cx(x), cy(y);
    if (fa == fb) {
      const FVec s = x + y;
      c.check(s.frame() == fa && s.vector() == a + b, "vector-sum", "sum of framed vectors");
    } else {
      c.must_throw<AssertException>("vector-sum-mismatch", [&] { x + y; }, "sum across frames");
    }
    const V3 u = x + b;
    c.check(u == a + b, "vector-sum-unframed", "sum with an unframed vector");
    const double k = r.chance(.2) ? r.pick<double>({0., -0., 1., -1., 1e-300, 1e9}) : r.uniform(-5, 5);
    const FVec l = k * x, rr = x * k;
    c.check(l.frame() == fa && rr.frame() == fa && maxdiff(l.vector(), (a * k).eval()) <= 1e-13 * (1 + a.norm()) * (1 + std::fabs(k)) && maxdiff(rr.vector(), (a * k).eval()) <= 1e-13 * (1 + a.norm()) * (1 + std::fabs(k)), "vector-scale", "scaling changes the frame or value");
    // Equality needs both the frame and the value, whatever the constness.
    FVec same_val(a, fb);
    const bool sf = fa == fb;
    c.check((x == same_val) == sf && (cx == same_val) == sf, "vector-equal", "equality ignores frames");
    c.check((x != same_val) == !sf && (cx != cy) == !(sf && a == b), "vector-unequal", "inequality ignores frames");
    FVec acc(a, fa);
    if (sf) {
      acc += y;
      c.check(acc.frame() == fa && acc.vector() == a + b, "vector-accumulate", "accumulated sum");
    } else {
      c.must_throw<AssertException>("vector-accumulate-mismatch", [&] { acc += y; }, "accumulation across frames");
      c.check(acc.frame() == fa && acc.vector() == a, "vector-accumulate-mismatch", "a refused accumulation changed the vector");
    }
    acc += b;
    c.check(acc.frame() == fa, "vector-accumulate", "adding an unframed vector changed the frame");
    c.check(FVec().frame().is_null(), "vector-default", "a default vector has a frame");
    const FVec c_same(same_val);
    const bool e1 = x.isApprox(same_val), e2 = x.isApprox(c_same), e3 = cx.isApprox(same_val), e4 = cx.isApprox(FVec(a, fb));
    c.check(e1 == sf && e2 == sf && e3 == sf && e4 == sf, "vector-approx", cat("approximate equality with frames ", sf ? "equal" : "different", " gave ", e1, e2, e3, e4));
    const bool t1 = x.isApprox(same_val, 1e-6), t2 = x.isApprox(c_same, 1e-6);
    c.check(t1 == sf && t2 == sf, "vector-approx-tol", "approximate equality with tolerance ignores frames");
    FVec off(a + V3(1 + a.norm(), 0, 0), fa);
    c.check(!x.isApprox(off) && !(x == off), "vector-approx-value", "different vectors compare equal");
    c.check(x.isApprox(a) && a.isApprox(x) && !x.isApprox(V3(off.vector())), "vector-approx-plain", "comparison with a plain vector");
    FVec z = x;
    z.set_frame(fb);
    c.check(z.frame() == fb && z.vector() == a && x.frame() == fa, "vector-set-frame", "set_frame");
    const FVec fresh1(a), fresh2(a);
    c.check(!fresh1.frame().is_null() && !(fresh1.frame() == fresh2.frame()), "vector-fresh-frame", "vectors built without a frame share one");
    c.event("framed_vector_ops", 12);
  });
  m.section("frames", 2000, 40000, [](Case &c) {
    const auto p = pool(c.rng);
    c.in(p[0].id().to_string());
    c.describe("pairwise comparison of near-identical frames");
    for (const auto &a : p)
      for (const auto &b : p) {
        const bool eq = a.id().id() == b.id().id();
        c.check((a == b) == eq && (a != b) == !eq, "frame-equality", "frame comparison");
      }
    for (const auto &a : p) c.check(!a.is_null(), "frame-null", "a non-zero frame is null");
    c.check(Frame3().is_null() && Frame3::null_frame().is_null() && Frame3() == Frame3::null_frame(), "frame-null", "null frame");
    const Frame3 n1 = Frame3::new_frame(), n2 = Frame3::new_frame();
    c.check(!(n1 == n2) && !n1.is_null(), "frame-new", "new frames collide");
    // distances
    const Frame3 f = c.rng.pick(p), g = c.rng.pick(p);
    const SE3 x = gen_se3(c.rng, p[0], f), y = gen_se3(c.rng, p[1], g);
    if (f == g) {
      resim::transforms::se3_distance(x, y);
    } else {
      c.must_throw<AssertException>("distance-frames", [&] { resim::transforms::se3_distance(x, y); });
      c.must_throw<AssertException>("distance-frames", [&] { resim::transforms::se3_inverse_distance(x.inverse(), y.inverse()); });
      c.must_throw<AssertException>("distance-frames", [&] { resim::transforms::se3_distance(x, gen_se3(c.rng)); });
    }
    resim::transforms::se3_distance(gen_se3(c.rng), gen_se3(c.rng));
  });
}
VH_MAIN(body)
