// M01, M02: Lie-group mathematics against defining series in extended precision.
#include "vcommon.hpp"
#include "ref.hpp"
#include "drift/math/lie_group.h"
#include "drift/math/se_k_3.h"
using namespace vc;
using ref::L;
using ref::LM;
namespace lg = math::lie_group;

static LM gammaRef(const Eigen::Vector3d& w, int m) { return ref::Gam(ref::lm(w), m); }
// High orders, accurate relative to 1/m!: with the unit axis u, Gamma_m is 1/m! along u and
// f(i theta) = sum_n (i theta)^n/(n+m)! = (exp(i theta) - sum_{k<m} (i theta)^k/k!)/(i theta)^m across
static LM gammaHigh(const Eigen::Vector3d& w, int m) {
  typedef __float128 Q;
  L th = std::sqrt(L(w[0]) * w[0] + L(w[1]) * w[1] + L(w[2]) * w[2]);
  Q inv = 1;
  for (int k = 2; k <= m; k++) inv /= k;
  Q re = 0, im = 0, t = inv;
  if (th < 40) {
    for (int n = 0; n < 250; n++) {
      (n % 2 ? im : re) += n & 2 ? -t : t;
      t *= Q(th) / (n + m + 1);
    }
  } else {
    Q a = std::cos(th), b = std::sin(th), p = 1, pw = 1;
    for (int k = 0; k < m; k++) {
      (k % 2 ? b : a) -= k & 2 ? -p : p;
      p *= Q(th) / (k + 1);
      pw *= th;
    }
    a /= pw, b /= pw;   // divide by theta^m, then by i^m
    for (int k = 0; k < m % 4; k++) {
      Q c = a;
      a = b, b = -c;
    }
    re = a, im = b;
  }
  LM G(3, 3);
  LM u = ref::lm(w);
  for (int i = 0; i < 3; i++) u(i) = th > 0 ? u(i) / th : 0;
  LM S = ref::skew(u);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      G(i, j) = L(Q(u(i)) * Q(u(j)) * (inv - re) + (i == j ? re : Q(0)) + im * Q(S(i, j)));
  return G;
}
static double dist(const LM& a, const Eigen::MatrixXd& b) {
  if (a.r != b.rows() || a.c != b.cols()) return INFINITY;
  return double((a - ref::lm(b)).maxabs());
}
static double angle(Rng& g) {
  static const std::vector<double> special
      = {0, 1e-300, 1e-17, 1e-12, 0.99e-10, 1e-10, 1.01e-10, 1e-8, 1.5e-8, 1e-7, 1e-6,
         1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.49999999, 0.5, 0.50000001, 1, M_PI / 2,
         M_PI - 1e-9, M_PI, M_PI + 1e-9, 2 * M_PI, 2 * M_PI + 1e-8, 10, 100, 1000};
  double r = g.uni();
  if (r < 0.15) return g.pick(special);
  if (r < 0.55) return g.logu(1e-12, 10);
  if (r < 0.75) return g.logu(1e-3, 7);
  if (r < 0.85) return 2 * M_PI * g.range(1, 20) + g.uni(-1, 1) * g.logu(1e-9, 1);
  return g.logu(1e-18, 1e3);
}
static double tolAng(double th) {
  // absolute: eps, times theta for many turns
  return 1e-15 * std::max(1.0, th);
}
static const char* band(double th) {
  return th == 0 ? "zero" : th < 1e-10 ? "<1e-10" : th < 1e-6 ? "<1e-6" : th < 1e-2 ? "<1e-2"
         : th < 0.5 ? "<0.5" : th < M_PI ? "<pi" : th < 10 ? "<10" : "many turns";
}

static void M01(Rng& g, long) {
  for (int it = 0; it < 200; it++) {
    double th = angle(g);
    Eigen::Vector3d w = th * g.dir();
    double t = 5 * tolAng(w.norm());
    rep().phase("gamma");
    for (int m = 0; m <= 5; m++) {
      if (m == 5) m = g.range(5, 30);
      Eigen::Matrix3d G = lg::Gamma_SO3(w, m);
      // relative to the size of Gamma_m, which is 1/m!
      double tm = t / std::tgamma(m + 1.0);
      double e = dist(m < 5 ? gammaRef(w, m) : gammaHigh(w, m), G);
      if (m < 5) {   // the two references agree
        double ed = double((gammaRef(w, m) - gammaHigh(w, m)).maxabs());
        rep().maxi("reference gap", ed / tm);
        if (!(ed <= 0.1 * tm)) rep().viol("self", fmt("references differ by %.3g at %.17g", ed, th));
      }
      rep().maxi(fmt("gamma_err %d", std::min(m, 5)), e / tm);
      if (!(e <= tm))
        rep().viol(fmt("gamma%d", m), fmt("Gamma_%d differs from its series by %.3g at angle %.17g w=%s", m, e, th, mstr(w, 17).c_str()));
    }
    rep().phase("exp_so3");
    LM R = gammaRef(w, 0), J = gammaRef(w, 1);
    double e = dist(R, lg::Exp_SO3(w));
    if (!(e <= t)) rep().viol("exp_so3", fmt("Exp_SO3 off by %.3g at %s", e, mstr(w, 17).c_str()));
    e = dist(J, lg::LeftJacobian_SO3(w));
    if (!(e <= t)) rep().viol("left_jacobian", fmt("off by %.3g at %s", e, mstr(w, 17).c_str()));
    e = dist(gammaRef(-w, 1), lg::RightJacobian_SO3(w));
    if (!(e <= t)) rep().viol("right_jacobian", fmt("off by %.3g at %s", e, mstr(w, 17).c_str()));
    rep().phase("skew");
    Eigen::Vector3d v = g.gvec(g.logu(1e-9, 1e9));
    if (dist(ref::skew(ref::lm(v)), lg::skew(v)) != 0) rep().viol("skew", "skew matrix wrong for " + mstr(v, 17));
    rep().phase("exp_sek3");
    int K = g.chance(0.04) ? 0 : g.chance(0.2) ? g.range(7, 40) : g.range(1, 6);
    Eigen::VectorXd xi(3 + 3 * K);
    xi.head(3) = w;
    double vmax = 0;
    for (int k = 0; k < K; k++) {
      Eigen::Vector3d c = g.gvec(g.chance(0.1) ? 0 : g.logu(1e-6, 1e6));
      xi.segment<3>(3 + 3 * k) = c;
      vmax = std::max(vmax, c.norm());
    }
    Eigen::MatrixXd X = lg::Exp_SEK3(xi);
    LM XR = ref::Exp(ref::lm(xi));
    if (X.rows() != 3 + K || X.cols() != 3 + K) {
      rep().viol("exp_sek3_dim", fmt("K=%d gives %dx%d", K, int(X.rows()), int(X.cols())));
    } else {
      double er = dist(XR.block(0, 0, 3, 3), X.block(0, 0, 3, 3));
      if (!(er <= t)) rep().viol("exp_sek3_rot", fmt("off by %.3g at %s", er, mstr(w, 17).c_str()));
      for (int k = 0; k < K; k++) {
        double n = xi.segment<3>(3 + 3 * k).norm();
        double ec = dist(XR.block(0, 3 + k, 3, 1), X.block(0, 3 + k, 3, 1));
        if (!(ec <= (t + 1e-15) * (n + 1e-300) * 3))
          rep().viol("exp_sek3_col", fmt("column %d off by %.3g (|v|=%.3g) w=%s", k, ec, n, mstr(w, 17).c_str()));
      }
      for (int i = 3; i < 3 + K; i++)
        for (int j = 0; j < 3 + K; j++)
          if (X(i, j) != (i == j ? 1 : 0)) rep().viol("exp_sek3_bottom", "bottom rows are not [0 I]");
    }
    rep().count(std::string("angle ") + band(th));
    rep().eval(Hash().m(w).u(K).h, true);
    if (rep().want_sample() && it == 7) rep().sample(fmt("w=%s K=%d", mstr(w, 17).c_str(), K));
  }
}

static Eigen::MatrixXd elem(Rng& g, int K, double smin = 1e-6, double smax = 1e6) {
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
  X.block<3, 3>(0, 0) = g.rot();
  for (int k = 0; k < K; k++) X.block<3, 1>(0, 3 + k) = g.gvec(g.chance(0.05) ? 0 : g.logu(smin, smax));
  return X;
}
// entrywise comparison with a bound per entry
static bool close(const LM& a, const Eigen::MatrixXd& b, const LM& bound, double rel, double& worst) {
  if (a.r != b.rows() || a.c != b.cols()) return worst = INFINITY, false;
  worst = 0;
  bool ok = true;
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++) {
      double e = std::fabs(double(a(i, j) - L(b(i, j)))), t = rel * (double(bound(i, j)) + 1e-300);
      if (!(e <= t)) ok = false;
      worst = std::max(worst, e / t);
    }
  return ok;
}

static void M02(Rng& g, long) {
  for (int it = 0; it < 100; it++) {
    int K = g.chance(0.05) ? g.range(6, 24) : g.range(1, 5);
    Eigen::MatrixXd X = elem(g, K), Y = elem(g, K), Z = elem(g, K);
    LM x = ref::lm(X), y = ref::lm(Y), z = ref::lm(Z);
    double wr;
    rep().phase("adjoint");
    Eigen::MatrixXd A = lg::Adjoint_SEK3(X);
    LM a = ref::Ad(x);
    LM ab = a.abs();
    for (int k = 0; k < K; k++) {    // bound: size of the column vector
      L n = std::sqrt(L(X.block<3, 1>(0, 3 + k).squaredNorm()));
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) ab(3 + 3 * k + i, j) = n;
    }
    if (!close(a, A, ab, 1e-13, wr)) rep().viol("adjoint", fmt("K=%d off by %.3g x tolerance", K, wr));
    rep().phase("conjugation");
    Eigen::VectorXd xi(3 + 3 * K);
    for (int i = 0; i < xi.size(); i++) xi[i] = g.gauss() * (i < 3 ? g.logu(1e-6, 1) : g.logu(1e-3, 10));
    Eigen::MatrixXd Xs = elem(g, K, 1e-3, 1e2);
    Eigen::VectorXd ax = lg::Adjoint_SEK3(Xs) * xi;
    Eigen::MatrixXd lhs = Xs * lg::Exp_SEK3(xi) * Xs.inverse();
    Eigen::MatrixXd rhs = lg::Exp_SEK3(ax);
    double e = (lhs - rhs).cwiseAbs().maxCoeff(), sc = 1 + Xs.cwiseAbs().maxCoeff() + xi.cwiseAbs().maxCoeff() * 3;
    rep().maxi("conjugation_err", e / sc);
    if (!(e <= 1e-8 * sc)) rep().viol("conjugation", fmt("X exp(xi) X^-1 and exp(Ad_X xi) differ by %.3g (scale %.3g) K=%d", e, sc, K));
    rep().phase("adjoint homomorphism");
    Eigen::MatrixXd hom = lg::Adjoint_SEK3(X * Y) - lg::Adjoint_SEK3(X) * lg::Adjoint_SEK3(Y);
    double hs = 1 + X.cwiseAbs().maxCoeff() + Y.cwiseAbs().maxCoeff();
    if (!(hom.cwiseAbs().maxCoeff() <= 1e-11 * hs)) rep().viol("adjoint_hom", fmt("Ad(XY) != Ad(X)Ad(Y) by %.3g", hom.cwiseAbs().maxCoeff()));

    rep().phase("container");
    math::SEK3 sx(X), sy(Y), sz(Z);
    if (sx.get_X() != X || sx.get_dim() != 3 + K) rep().viol("from_matrix", "element does not hold the matrix it was built from");
    if (sx.get_R() != X.block(0, 0, 3, 3)) rep().viol("get_R", "rotation accessor");
    if (sx.get_p() != X.block(0, 3, 3, 1)) rep().viol("get_p", "position accessor");
    if (K >= 2 && sx.get_v() != X.block(0, 4, 3, 1)) rep().viol("get_v", "velocity accessor");
    rep().phase("product");
    math::SEK3 sxy = sx * sy;
    LM xy = x * y;
    if (!close(xy, sxy.get_X(), x.abs() * y.abs(), 1e-13, wr)) rep().viol("product", fmt("off by %.3g x tolerance", wr));
    if (sx.get_X() != X || sy.get_X() != Y) rep().viol("product_operands", "operands changed by the product");
    LM xyz = x * y * z, b3 = x.abs() * y.abs() * z.abs();
    math::SEK3 syz = sy * sz;
    if (!close(xyz, (sxy * sz).get_X(), b3, 1e-12, wr) || !close(xyz, (sx * syz).get_X(), b3, 1e-12, wr))
      rep().viol("associativity", "(XY)Z and X(YZ) differ");
    rep().phase("inverse");
    math::SEK3 si = sx.inverse();
    LM xi_ = ref::ginv(x), xa = x.abs();
    LM ib = LM::I(3 + K);
    ib.put(0, 0, xa.block(0, 0, 3, 3).t());
    ib.put(0, 3, xa.block(0, 0, 3, 3).t() * xa.block(0, 3, 3, K));
    for (auto& q : ib.a) q += 1e-30L;
    if (!close(xi_, si.get_X(), ib, 1e-13, wr)) rep().viol("inverse", fmt("K=%d off by %.3g x tolerance", K, wr));
    else {
      double i1 = ((sx * si).get_X() - Eigen::MatrixXd::Identity(3 + K, 3 + K)).cwiseAbs().maxCoeff();
      double i2 = ((si * sx).get_X() - Eigen::MatrixXd::Identity(3 + K, 3 + K)).cwiseAbs().maxCoeff();
      if (!(std::max(i1, i2) <= 1e-12 * (1 + X.cwiseAbs().maxCoeff()))) rep().viol("inverse_identity", fmt("X X^-1 off by %.3g", std::max(i1, i2)));
    }
    if (sx.get_X() != X) rep().viol("inverse_operand", "element changed by taking its inverse");
    rep().phase("parts");
    Eigen::Matrix3d R = g.rot();
    Eigen::Vector3d p = g.gvec(10), v = g.gvec(10);
    math::SEK3 c3(R, p, v), c2(R, p), d;
    d.set_R(R);
    d.set_p(p);
    d.set_v(v);
    if (c3.get_R() != R || c3.get_p() != p || c3.get_v() != v) rep().viol("parts3", "element built from parts does not hold them");
    if (c2.get_R() != R || c2.get_p() != p) rep().viol("parts2", "element built from parts does not hold them");
    if (d.get_X() != c3.get_X()) rep().viol("parts_setters", "setters and constructor disagree");
    if (c2.get_v() != Eigen::Vector3d::Zero()) rep().viol("parts2_v", "second column is not zero by default");
    d.set_X(X);
    if (d.get_X() != X) rep().viol("set_X", "matrix setter");
    int kk = g.range(1, 9);
    d.set_K(kk);
    if (d.get_K() != kk) rep().viol("set_K", "column count setter");
    if ((d * sx).get_K() != kk || d.inverse().get_K() != kk) rep().viol("K_kept", "column count lost by product or inverse");
    rep().count(K <= 5 ? fmt("K=%d", K) : "K>5");
    rep().eval(Hash().m(X).m(xi).h);
    if (rep().want_sample() && it == 3) rep().sample(fmt("K=%d X=%s", K, mstr(X).c_str()));
  }
}

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"M01", M01}, {"M02", M02}});
}
