// Adjoint, bracket, exponential differential.
#include "geo.hh"
#include "resim/transforms/cross_matrix.hh"
#include "resim/transforms/liegroup_exp_diff.hh"

using namespace vh;

namespace {
void chk(Case &c, const char *key, LD err, double tol, const std::string &what) {
  c.event("max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", tol, ")"); });
}
V6l vee(const M4l &m) {
  V6l a;
  a << m(2, 1), m(0, 2), m(1, 0), m(0, 3), m(1, 3), m(2, 3);
  return a;
}
V6 any_tangent(Rng &r) {
  V6 a;
  a.head<3>() = gen_unit(r) * (r.chance(.2) ? r.log_uniform(-8, 2) : r.uniform(0, 5));
  a.tail<3>() = gen_trans(r);
  switch (r() % 16) {
    case 0: a.head<3>().setZero(); break;
    case 1: a.tail<3>().setZero(); break;
    case 2: a.head<3>() *= r.log_uniform(-30, -8); break;
    case 3: a.tail<3>() *= r.log_uniform(-30, -8); break;
    case 4: a.tail<3>() = a.head<3>() * r.uniform(-3, 3); break;
    case 5: a(static_cast<long>(r() % 6)) = 0; break;
    default: break;
  }
  return a;
}
}  // namespace

void body(Monitor &m) {
  m.section("adjoint", 16000, 1000000, [](Case &c) {
    const SE3 g = gen_se3(c.rng), h = gen_se3(c.rng);
    const V6 a = any_tangent(c.rng);
    feed(c, g);
    feed(c, a);
    c.describe(cat(str(g), " on ", str(a)));
    const std::string s = cat(str(g), " a=", str(a));
    const double sc = scale(g) * (1 + a.norm());
    const M4l G = mat(g);
    const V6l want = vee(G * hat(a.cast<LD>()) * rigid_inverse(G));
    chk(c, "se3-adjoint", maxdiff((g.adjoint() * a).eval(), want), 1e-13 * sc, s);
    chk(c, "se3-adjoint-times", maxdiff(g.adjoint_times(a), want), 1e-13 * sc, s);
    const double wn = a.head<3>().norm(), vn = a.tail<3>().norm(), tn = g.translation().norm();
    chk(c, "se3-adjoint-rotation", std::max(maxdiff((g.adjoint() * a).eval().head<3>().eval(), want.head<3>().eval()), maxdiff(g.adjoint_times(a).head<3>().eval(), want.head<3>().eval())), 1e-13 * wn + 1e-300, s);
    chk(c, "se3-adjoint-translation", std::max(maxdiff((g.adjoint() * a).eval().tail<3>().eval(), want.tail<3>().eval()), maxdiff(g.adjoint_times(a).tail<3>().eval(), want.tail<3>().eval())), 1e-13 * (tn * wn + vn) + 1e-300, s);
    const double hc = scale(g) * scale(h);
    chk(c, "se3-adjoint-product", maxdiff((g * h).adjoint(), (g.adjoint() * h.adjoint()).eval()), 1e-13 * hc, s);
    chk(c, "se3-adjoint-inverse", maxdiff((g.inverse().adjoint() * g.adjoint()).eval(), Eigen::Matrix<double, 6, 6>::Identity()), 1e-13 * scale(g) * scale(g), s);
    const SO3 r = g.rotation();
    const V3 w = a.head<3>();
    const V3l rw = mat(r) * w.cast<LD>();
    chk(c, "so3-adjoint", maxdiff((r.adjoint() * w).eval(), rw), 1e-13 * (1 + w.norm()), s);
    chk(c, "so3-adjoint-times", maxdiff(r.adjoint_times(w), rw), 1e-13 * (1 + w.norm()), s);
    // g exp(a) g^-1 = exp(Ad_g a), through the group itself
    if (w.norm() < 3) {
      const SE3 lhs = g * SE3::exp(a) * g.inverse();
      chk(c, "se3-conjugation", maxdiff(mat(lhs), mat(SE3::exp(g.adjoint_times(a)))), 5e-12 * sc, s);
    }
    c.event("adjoints", 7);
  });
  m.section("bracket", 16000, 1000000, [](Case &c) {
    const V6 a = any_tangent(c.rng), d = any_tangent(c.rng);
    V6 b = any_tangent(c.rng);
    if (c.rng.chance(.25)) {  // parts that are almost parallel or opposed
      const double k = c.rng.pick<double>({1., -1., 2., -.5}), e = c.rng.chance(.2) ? 0 : c.rng.log_uniform(-12, -1);
      if (c.rng.chance(.7)) b.head<3>() = a.head<3>() * k + gen_unit(c.rng) * (e * a.head<3>().norm());
      if (c.rng.chance(.7)) b.tail<3>() = a.tail<3>() * k + gen_unit(c.rng) * (e * a.tail<3>().norm());
      if (c.rng.chance(.2)) b.tail<3>() = a.head<3>() * k + gen_unit(c.rng) * (e * a.head<3>().norm());
      c.event("near_parallel");
    }
    feed(c, a);
    feed(c, b);
    c.describe(cat(str(a), " with ", str(b)));
    const std::string s = cat("a=", str(a), " b=", str(b));
    const double sc = (1 + a.norm()) * (1 + b.norm());
    const M4l A = hat(a.cast<LD>()), B = hat(b.cast<LD>());
    const V6l want = vee(A * B - B * A);
    chk(c, "se3-bracket", maxdiff(SE3::adjoint_times(a, b), want), 1e-14 * sc, s);
    chk(c, "se3-bracket-matrix", maxdiff((SE3::adjoint(a) * b).eval(), want), 1e-14 * sc, s);
    chk(c, "se3-bracket-antisymmetric", maxdiff(SE3::adjoint_times(a, b), -SE3::adjoint_times(b, a)), 1e-14 * sc, s);
    const V6 jac = SE3::adjoint_times(a, SE3::adjoint_times(b, d)) + SE3::adjoint_times(b, SE3::adjoint_times(d, a)) + SE3::adjoint_times(d, SE3::adjoint_times(a, b));
    chk(c, "se3-jacobi", jac.norm(), 1e-13 * sc * (1 + d.norm()), s);
    const V3 x = a.head<3>(), y = b.head<3>();
    const V3l cr = x.cast<LD>().cross(y.cast<LD>());
    const double cs = 1e-14 * (1 + x.norm()) * (1 + y.norm());
    chk(c, "so3-bracket", maxdiff(SO3::adjoint_times(x, y), cr), cs, s);
    chk(c, "so3-bracket-matrix", maxdiff((SO3::adjoint(x) * y).eval(), cr), cs, s);
    chk(c, "cross-matrix", maxdiff((resim::transforms::cross_matrix(x) * y).eval(), cr), cs, s);
    chk(c, "cross-matrix-skew", maxdiff(resim::transforms::cross_matrix(x), (-resim::transforms::cross_matrix(x).transpose()).eval()), 1e-15 * (1 + x.norm()), s);
    // parts
    c.check(SE3::tangent_vector_rotation_part(a) == a.head<3>() && SE3::tangent_vector_translation_part(a) == a.tail<3>(), "tangent-parts", s);
    c.check(SE3::tangent_vector_from_parts(a.head<3>(), a.tail<3>()) == a, "tangent-join", s);
    V6 mut = a;
    SE3::tangent_vector_rotation_part(mut) = y;
    c.check(mut.head<3>() == y && mut.tail<3>() == a.tail<3>(), "tangent-mutable-part", s);
    SE3::tangent_vector_translation_part(mut) = x;
    c.check(mut.head<3>() == y && mut.tail<3>() == x, "tangent-mutable-part", s);
    c.event("brackets", 8);
  });
  m.section("exp-diff", 16000, 1000000, [](Case &c) {
    const V3 w = gen_unit(c.rng) * (c.rng.chance(.2) ? (c.rng.chance(.5) ? c.rng.uniform(PI, 30) : c.rng.log_uniform(1, 4)) : c.rng.chance(.4) ? c.rng.log_uniform(c.rng.chance(.5) ? -12 : -4, 0) : gen_angle(c.rng));
    feed(c, w);
    c.describe(str(w));
    // d/de exp(w + e u) = hat(J u) exp(w): J is the integral of exp(s w) over [0,1].
    const M3l J = jac3(w.cast<LD>());
    const auto D = SO3::exp_diff(w);
    chk(c, "so3-exp-diff", maxdiff(D, J), 2e-13 * (1 + w.norm()), str(w));
    // Coefficients of I + b [w] + ... in closed form with extended precision.
    const LD th2 = w.cast<LD>().squaredNorm();
    const auto co = resim::transforms::derivative_of_exp_so3(static_cast<double>(th2));
    LD a, b, cc;
    const LD t2 = static_cast<LD>(static_cast<double>(th2));
    if (t2 < 0.09L) {
      a = b = cc = 0;
      LD ta = 1, tb = .5L, tc = 1.0L / 6;
      for (int k = 0; k < 14; ++k) {
        a += ta;
        b += tb;
        cc += tc;
        ta *= -t2 / ((2 * k + 2) * (2 * k + 3));
        tb *= -t2 / ((2 * k + 3) * (2 * k + 4));
        tc *= -t2 / ((2 * k + 4) * (2 * k + 5));
      }
    } else {
      const LD t = std::sqrt(t2);
      a = std::sin(t) / t;
      b = 2 * std::sin(t / 2) * std::sin(t / 2) / t2;
      cc = (1 - a) / t2;
    }
    chk(c, "exp-diff-coeff-a", std::fabs(co.a - a), 1e-14, str(w));
    // (1 - cos t)/t^2 and (1 - a)/t^2 lose digits to cancellation as t shrinks.
    const double lim = 2e-14 + 1e-15 / std::max(static_cast<double>(t2), 5e-6);
    chk(c, "exp-diff-coeff-b", std::fabs(co.b - b), lim, str(w));
    chk(c, "exp-diff-coeff-c", std::fabs(co.c - cc), lim, str(w));
    c.event("differentials");
  });
  // exp_diff really is the derivative of exp: finite differences through exp/log.
  m.section("exp-diff-fd", 6000, 200000, [](Case &c) {
    const V3 w = gen_unit(c.rng) * c.rng.uniform(0, 6), u = gen_unit(c.rng);
    feed(c, w);
    feed(c, u);
    c.describe(cat(str(w), " along ", str(u)));
    const double h = 1e-4;
    const V3 d = ((SO3::exp(w + h * u) * SO3::exp(w - h * u).inverse()).log()) / (2 * h);
    chk(c, "exp-diff-finite-difference", maxdiff(d, (SO3::exp_diff(w) * u).eval()), 2e-7, str(w));
    c.event("finite_differences");
  });
}
VH_MAIN(body)
