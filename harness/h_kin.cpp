// K01..K03: leg kinematics against the rigid chain of the robot, evaluated in
// extended precision.
#include "vcommon.hpp"
#include "ref.hpp"
#include <memory>
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindRightFoot.h"
using namespace vc;
using namespace measurement::kinematics;
using ref::L;
using ref::LM;
using ref::cross;
typedef Eigen::Matrix<double, 12, 1> V12;
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> VX;
typedef Eigen::Matrix<bool, Eigen::Dynamic, 1> BX;
typedef Eigen::Vector3d V3;

struct Gen {
  const char* name;
  std::function<Eigen::MatrixXd(const V12&)> H, R, p, Jp, Jb, Js, Jvb, Jvs, Jwb, Jws;
};
#define LEG(n, L_)                                                                                                              \
  {n, H_Body_to_##L_##Foot,   R_Body_to_##L_##Foot,   p_Body_to_##L_##Foot,   Jp_Body_to_##L_##Foot,  Jb_Body_to_##L_##Foot, \
   Js_Body_to_##L_##Foot, Jvb_Body_to_##L_##Foot, Jvs_Body_to_##L_##Foot, Jwb_Body_to_##L_##Foot, Jws_Body_to_##L_##Foot}
static const Gen kGen[4] = {LEG("front right", FrontRight), LEG("front left", FrontLeft), LEG("hind right", HindRight), LEG("hind left", HindLeft)};

struct Chain {
  LM p{3, 1}, R, Jp{3, 3}, w{3, 3};    // foot, orientation, d p / d q, joint axes, all in the body frame
};
static LM v3(L x, L y, L z) {
  LM m(3, 1);
  m(0) = x, m(1) = y, m(2) = z;
  return m;
}
// abduction about +x, hip and knee about -y
static Chain chain(int leg, const V12& q) {
  L sx = leg < 2 ? 1 : -1, sy = leg % 2 ? 1 : -1;    // FR FL HR HL
  L a = q[3 * leg], b = q[3 * leg + 1], c = q[3 * leg + 2];
  auto Rx = [](L t) {
    LM m = LM::I(3);
    m(1, 1) = m(2, 2) = std::cos(t);
    m(2, 1) = std::sin(t);
    m(1, 2) = -m(2, 1);
    return m;
  };
  auto Ry = [](L t) {
    LM m = LM::I(3);
    m(0, 0) = m(2, 2) = std::cos(t);
    m(0, 2) = std::sin(t);
    m(2, 0) = -m(0, 2);
    return m;
  };
  LM o = v3(sx * 0.19L, sy * 0.049L, 0);
  LM A = Rx(a), B = A * Ry(-b), C = B * Ry(-c);
  LM hip = o + A * v3(0, sy * 0.062L, 0), knee = hip + B * v3(0, 0, -0.209L);
  Chain r;
  r.p = knee + C * v3(0, 0, -0.2075L);
  r.R = C;
  LM ax[3] = {v3(1, 0, 0), A * v3(0, -1, 0), B * v3(0, -1, 0)}, at[3] = {o, hip, knee};
  for (int i = 0; i < 3; i++) {
    r.w.put(0, i, ax[i]);
    r.Jp.put(0, i, cross(ax[i], r.p - at[i]));
  }
  return r;
}
static V12 randQ(Rng& g) {
  V12 q;
  double u = g.uni();
  for (int i = 0; i < 12; i++) {
    q[i] = u < 0.6 ? g.uni(-2 * M_PI, 2 * M_PI) : u < 0.8 ? g.logu(1e-9, 1) * (g.chance(0.5) ? 1 : -1) : u < 0.95 ? g.range(-4, 4) * M_PI / 2 : g.uni(-1e3, 1e3);
    if (g.chance(0.03)) q[i] = 0;
  }
  return q;
}
// One leg's block of a 3 or 6 row matrix over all joints
static bool agree(const Eigen::MatrixXd& J, int row, int leg, const LM& want, double* dev, bool* zero) {
  double d = 0;
  *zero = true;
  for (int j = 0; j < 12; j++)
    for (int i = 0; i < 3; i++) {
      double x = J(row + i, j);
      if (j / 3 == leg) {
        double e = std::fabs(double(L(x) - want(i, j % 3)));
        d = std::max(d, e == e ? e : 1e9);
      } else if (x != 0) {
        *zero = false;
      }
    }
  *dev = d;
  rep().maxi("deviation", d);
  return d <= 1e-12;
}
static double dist(const Eigen::MatrixXd& a, int r, int c, const LM& b) {
  double d = 0;
  for (int i = 0; i < b.rows(); i++)
    for (int j = 0; j < b.cols(); j++) {
      double e = std::fabs(double(L(a(r + i, c + j)) - b(i, j)));
      d = std::max(d, e == e ? e : 1e9);
    }
  rep().maxi("deviation", d);
  return d;
}
static std::string qs(const V12& q, int leg) { return fmt("%s leg at joints (%.9g %.9g %.9g)", kGen[leg].name, q[3 * leg], q[3 * leg + 1], q[3 * leg + 2]); }

static void K01(Rng& g, long) {
  V12 q = randQ(g);
  rep().phase("leg kinematics");
  VX e = q, de = V12::Zero();
  BX c = BX::Constant(4, true);
  MiniCheetahKinematics m(e, de, c);
  m.ComputeKinematics();
  V12 other = randQ(g);
  for (int l = 0; l < 4; l++) {
    Chain r = chain(l, q);
    double d = dist(m.get_kin_pos(l), 0, 0, r.p);
    if (d > 1e-12) rep().viol(fmt("position:%s", kGen[l].name), fmt("%s: foot at %s, the link chain ends at (%.12Lg %.12Lg %.12Lg)", qs(q, l).c_str(), mstr(m.get_kin_pos(l).transpose(), 12).c_str(), r.p(0), r.p(1), r.p(2)));
    Eigen::MatrixXd J = m.get_J(l);
    if (J.rows() != 3 || J.cols() != 3) {
      rep().viol("jacobian_shape", fmt("%s leg: Jacobian is %dx%d", kGen[l].name, int(J.rows()), int(J.cols())));
      continue;
    }
    d = dist(J, 0, 0, r.Jp);
    if (d > 1e-12) rep().viol(fmt("jacobian:%s", kGen[l].name), fmt("%s: Jacobian %s is off the derivative of the position by %.3g", qs(q, l).c_str(), mstr(J).c_str(), d));
    bool z;
    if (dist(kGen[l].p(q), 0, 0, r.p) > 1e-12) rep().viol(fmt("position:%s", kGen[l].name), qs(q, l) + ": generated position is off the link chain");
    bool ok = agree(kGen[l].Jp(q), 0, l, r.Jp, &d, &z);
    if (!ok) rep().viol(fmt("jacobian:%s", kGen[l].name), fmt("%s: generated Jacobian is off by %.3g", qs(q, l).c_str(), d));
    if (!z) rep().viol(fmt("jacobian_other_joints:%s", kGen[l].name), qs(q, l) + ": the Jacobian is not zero for another leg's joint");
    // other legs' joints have no influence
    V12 q2 = other;
    q2.segment<3>(3 * l) = q.segment<3>(3 * l);
    MiniCheetahKinematics m2((VX(q2)), de, c);
    m2.ComputeKinematics();
    if (m2.get_kin_pos(l) != m.get_kin_pos(l) || m2.get_J(l) != m.get_J(l)) rep().viol(fmt("leg_independence:%s", kGen[l].name), qs(q, l) + ": depends on other legs' joints");
    // numerically, too: the Jacobian predicts the move of the foot
    rep().count("leg configurations");
  }
  // mirror images
  V12 mir = q;
  for (int l = 0; l < 4; l += 2) {
    mir.segment<3>(3 * l) = q.segment<3>(3 * (l + 1));
    mir.segment<3>(3 * (l + 1)) = q.segment<3>(3 * l);
    mir[3 * l] *= -1;
    mir[3 * (l + 1)] *= -1;
  }
  MiniCheetahKinematics mm((VX(mir)), de, c);
  mm.ComputeKinematics();
  for (int l = 0; l < 4; l++) {
    V3 a = m.get_kin_pos(l), b = mm.get_kin_pos(l ^ 1);
    b[1] = -b[1];
    if ((a - b).norm() > 1e-12) rep().viol("mirror", qs(q, l) + ": left and right are no mirror images");
  }
  // one object that is given new joint angles: near ones, the same, far ones
  V12 at = q;
  for (int n = 0, last = g.chance(0.02) ? 300 : 3; n < last; n++) {
    double u = g.uni();
    if (u < 0.3) at[g.below(12)] += g.logu(1e-9, 1e-1) * (g.chance(0.5) ? 1 : -1);
    else if (u < 0.6) for (int i = 0; i < 12; i++) at[i] += g.logu(1e-9, 1e-2) * g.gauss();
    else if (u < 0.9) at = randQ(g);
    m.set_joint_state(at);
    m.ComputeKinematics();
    MiniCheetahKinematics f((VX(at)), de, c);
    f.ComputeKinematics();
    for (int l = 0; l < 4; l++)
      if (m.get_kin_pos(l) != f.get_kin_pos(l) || m.get_J(l) != f.get_J(l)) rep().viol("used_again", qs(at, l) + ": an object used before gives another result than a new one");
    rep().count("recomputations");
  }
  rep().eval(Hash().m(q).h);
}
static void K02(Rng& g, long) {
  V12 q = randQ(g);
  for (int l = 0; l < 4; l++) {
    const Gen& G = kGen[l];
    rep().phase(fmt("generated functions, %s", G.name));
    Eigen::MatrixXd H = G.H(q), R = G.R(q), p = G.p(q);
    auto bad = [&](const char* k, const std::string& m) { rep().viol(std::string(k) + ":" + G.name, qs(q, l) + ": " + m); };
    if ((H.block(0, 0, 3, 3) - R).cwiseAbs().maxCoeff() > 1e-12) bad("H_R", "rotation part of the transform is not the generated rotation");
    if ((H.block(0, 3, 3, 1) - p).cwiseAbs().maxCoeff() > 1e-12) bad("H_p", "translation part of the transform is not the generated position");
    if (H.row(3) != Eigen::RowVector4d(0, 0, 0, 1)) bad("H_row", "last row of the transform is not 0 0 0 1");
    Eigen::Matrix3d R3 = R;
    if (!((R3 * R3.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() <= 1e-12) || !(R3.determinant() > 0.5)) bad("R", "the rotation is no proper rotation");
    Chain r = chain(l, q);
    if (dist(R, 0, 0, r.R) > 1e-12) bad("R", "the rotation is not that of the foot");
    // derivatives of the transform, expressed in each frame
    LM Rt = r.R.t(), wb = Rt * r.w, vb = Rt * r.Jp, vs(3, 3);
    for (int i = 0; i < 3; i++) vs.put(0, i, r.Jp.block(0, i, 3, 1) - cross(r.w.block(0, i, 3, 1), r.p));
    struct {
      const char* n;
      Eigen::MatrixXd J;
      int row;
      const LM* want;
    } t[] = {{"Jp", G.Jp(q), 0, &r.Jp}, {"Jwb", G.Jwb(q), 0, &wb},  {"Jws", G.Jws(q), 0, &r.w}, {"Jvb", G.Jvb(q), 0, &vb}, {"Jvs", G.Jvs(q), 0, &vs},
             {"Jb", G.Jb(q), 0, &wb},   {"Jb", G.Jb(q), 3, &vb},    {"Js", G.Js(q), 0, &r.w},   {"Js", G.Js(q), 3, &vs}};
    for (auto& x : t) {
      double d;
      bool z;
      if (!agree(x.J, x.row, l, *x.want, &d, &z)) bad(x.n, fmt("rows %d.. of %s are off the derivative of the transform by %.3g", x.row, x.n, d));
      if (!z) bad(x.n, fmt("%s depends on another leg's joint rates", x.n));
      rep().count("Jacobian blocks");
    }
  }
  // the reference itself: derivative of the generated transform by differences
  if (g.chance(0.2) && q.cwiseAbs().maxCoeff() < 10) {
    int l = g.below(4), j = g.below(3);
    double h = 1e-5;
    V12 a = q, b = q;
    a[3 * l + j] += h;
    b[3 * l + j] -= h;
    Eigen::MatrixXd dp = (kGen[l].p(a) - kGen[l].p(b)) / (2 * h);
    if ((dp - kGen[l].Jp(q).col(3 * l + j)).norm() > 1e-8) rep().viol("difference_quotient", qs(q, l) + ": Jp is not the difference quotient of p");
    Eigen::Matrix3d dR = (kGen[l].R(a) - kGen[l].R(b)) / (2 * h) * kGen[l].R(q).transpose();
    V3 w(dR(2, 1), dR(0, 2), dR(1, 0));
    if ((w - V3(kGen[l].Jws(q).col(3 * l + j))).norm() > 1e-8) rep().viol("difference_quotient", qs(q, l) + ": Jws is not the rate of R");
    rep().count("difference quotients");
  }
  rep().eval(Hash().m(q).h);
}
static void K03(Rng& g, long cs) {
  rep().phase("leg measurement");
  std::unique_ptr<MiniCheetahKinematics> m;
  V12 q = randQ(g), dq;
  int rounds = g.range(1, 4);
  BX c(4);
  for (int r = 0; r < rounds; r++) {
    q = randQ(g);
    for (int i = 0; i < 12; i++) dq[i] = g.gauss() * 10;
    unsigned mask = r == 0 ? unsigned(cs) % 16 : g.below(16);
    for (int i = 0; i < 4; i++) c[i] = (mask >> i) & 1;
    V3 w = g.gvec(5);
    if (g.chance(0.1)) w.setZero();
    bool ctor = r == 0 && g.chance(0.5);
    if (ctor) {
      m.reset(new MiniCheetahKinematics(VX(q), VX(dq), c));
    } else {
      if (!m) m.reset(new MiniCheetahKinematics());
      // setters in any order
      std::vector<int> o = {0, 1, 2};
      for (size_t i = 3; i > 1; i--) std::swap(o[i - 1], o[g.below(int(i))]);
      for (int k : o) {
        if (k == 0) m->set_joint_state(VX(q));
        if (k == 1) m->set_joint_state_velocity(VX(dq));
        if (k == 2) m->set_contact(c);
      }
    }
    bool before = g.chance(0.5);
    V3 v0;
    if (before) v0 = m->get_init_velocity(w);
    m->ComputeKinematics();
    std::unique_ptr<MiniCheetahKinematics> copy(new MiniCheetahKinematics(*m));
    V3 v = m->get_init_velocity(w);
    std::shared_ptr<measurement::LeggedKinematicsMeasurement> base = std::make_shared<MiniCheetahKinematics>(*copy);
    if (base->get_type() != LEGGED_KINEMATICS) rep().viol("type", "a leg measurement does not say it is one");
    if (base->get_num_legs() != 4) rep().viol("num_legs", fmt("%d legs reported", base->get_num_legs()));
    int first = -1;
    for (int l = 0; l < 4; l++) {
      if (c[l] && first < 0) first = l;
      Chain r_ = chain(l, q);
      if (base->get_contact(l) != c[l]) rep().viol("contact", fmt("contact flag of the %s leg is %d, set to %d", kGen[l].name, int(base->get_contact(l)), int(c[l])));
      double d = dist(base->get_kin_pos(l), 0, 0, r_.p);
      if (d > 1e-12) rep().viol("position", qs(q, l) + ": position is not that of this leg");
      Eigen::MatrixXd J = base->get_J(l);
      if (J.rows() != 3 || J.cols() != 3 || dist(J, 0, 0, r_.Jp) > 1e-12) rep().viol("jacobian", qs(q, l) + ": Jacobian is not that of this leg");
    }
    for (int i = 0; i < 12; i++)
      if (base->get_joint_state(i) != q[i]) rep().viol("joint_state", fmt("joint %d reads %.17g, set to %.17g", i, base->get_joint_state(i), q[i]));
    // the foot's velocity, v + w x p + J dq, vanishes
    V3 want = V3::Zero();
    if (first >= 0) {
      Chain r_ = chain(first, q);
      LM vw = cross(v3(w[0], w[1], w[2]), r_.p);
      for (int i = 0; i < 3; i++) {
        L s = -vw(i);
        for (int j = 0; j < 3; j++) s -= r_.Jp(i, j) * dq[3 * first + j];
        want[i] = double(s);
      }
    }
    rep().maxi("velocity deviation", (v - want).norm());
    if (!((v - want).norm() <= 1e-11)) rep().viol(first < 0 ? "velocity_without_contact" : "velocity", fmt("contacts %x, first contacting leg %s: start velocity %s, expected %s", mask, first < 0 ? "none" : kGen[first].name, mstr(v.transpose()).c_str(), mstr(want.transpose()).c_str()));
    if (before && !((v0 - want).norm() <= 1e-11)) rep().viol("velocity", "start velocity asked before the kinematics are computed is another one");
    rep().count(fmt("contact patterns %x", mask));
    rep().eval(Hash().m(q).m(dq).u(mask).h, true);
  }
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"K01", K01}, {"K02", K02}, {"K03", K03}}); }
