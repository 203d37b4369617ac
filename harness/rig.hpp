// Drives the real InekfEstimator and predicts every step from the state it
// was in, with an independent extended-precision reference of the filter.
#pragma once
#include "vcommon.hpp"
#include "ref.hpp"
#include <fstream>
#include <memory>
#include "drift/estimator/inekf_estimator.h"

namespace rig {
using namespace vc;
using ref::L;
using ref::LM;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::Matrix3d;
using Eigen::Vector3d;
typedef std::shared_ptr<std::mutex> MutexPtr;

// ---------------------------------------------------------------- measurements
struct FakeLeg : public measurement::LeggedKinematicsMeasurement {
  int n;
  Eigen::Matrix<double, 3, Eigen::Dynamic> pos, jac;
  Vector3d v0 = Vector3d::Zero();
  Matrix3d vw = Matrix3d::Zero();
  Vector3d asked_w = Vector3d::Zero();
  int computed = 0, asked = 0;
  explicit FakeLeg(int legs) : n(legs) {
    pos.setZero(3, n);
    jac.setZero(3, 3 * n);
    encoders_.setZero(3 * n);
    d_encoders_.setZero(3 * n);
    contacts_.setConstant(n, false);
    type_ = LEGGED_KINEMATICS;
  }
  void ComputeKinematics() override {
    computed++;
    positions_ = pos;
    jacobians_ = jac;
  }
  int get_num_legs() override { return n; }
  const Vector3d get_init_velocity(const Vector3d& w) override {
    asked++;
    asked_w = w;
    return v0 + vw * w;
  }
  void contacts(unsigned mask) {
    for (int i = 0; i < n; i++) contacts_[i] = (mask >> i) & 1;
  }
};
typedef std::shared_ptr<FakeLeg> FakeLegPtr;

inline ImuMeasurementPtr imu(double t, const Vector3d& w, const Vector3d& a,
                             const Eigen::Quaterniond& q = Eigen::Quaterniond::Identity()) {
  auto m = std::make_shared<ImuMeasurement<double>>();
  m->set_time(t);
  m->set_angular_velocity(w[0], w[1], w[2]);
  m->set_lin_acc(a[0], a[1], a[2]);
  m->set_quaternion(q.w(), q.x(), q.y(), q.z());
  return m;
}
inline VelocityMeasurementPtr vel(double t, const Vector3d& v) {
  auto m = std::make_shared<VelocityMeasurement<double>>();
  m->set_time(t);
  m->set_velocity(v[0], v[1], v[2]);
  return m;
}

// --------------------------------------------------------------- configuration
struct Yaml {
  std::map<std::string, std::vector<std::string>> sec;
  std::vector<std::string> order;
  void add(const std::string& s, const std::string& line) {
    if (!sec.count(s)) order.push_back(s);
    sec[s].push_back(line);
  }
  void num(const char* s, const char* k, double v) { add(s, fmt("%s: %.17g", k, v)); }
  void integer(const char* s, const char* k, int v) { add(s, fmt("%s: %d", k, v)); }
  void flag(const char* s, const char* k, bool v) { add(s, fmt("%s: %s", k, v ? "true" : "false")); }
  void str(const char* s, const char* k, const std::string& v) { add(s, std::string(k) + ": \"" + v + "\""); }
  void vec(const char* s, const char* k, const Vector3d& v) {
    add(s, fmt("%s: [%.17g, %.17g, %.17g]", k, v[0], v[1], v[2]));
  }
  void quat(const char* s, const char* k, const Eigen::Quaterniond& q) {
    add(s, fmt("%s: [%.17g, %.17g, %.17g, %.17g]", k, q.w(), q.x(), q.y(), q.z()));
  }
  std::string text() const {
    std::string o;
    for (auto& s : order) {
      o += s + ":\n";
      for (auto& l : sec.at(s)) o += "  " + l + "\n";
    }
    return o;
  }
  std::string write(const std::string& path) const {
    std::ofstream f(path);
    f << text();
    return path;
  }
};

// Values in force. `omit` lists settings that are left out of the files; the
// value here must then be the documented default.
struct VelCfg {
  double std = 0.1, thr = 0.3, scale = 1;
  Eigen::Quaterniond q = Eigen::Quaterniond::Identity();
};
struct LegCfg {
  double enc = 0.01, add = 0.05, contact = 0.1, thr = 0.3;
  bool short_name = true;    // contact_std instead of contact_noise_std
};
struct Cfg {
  ErrorType et = RightInvariant;
  bool bias = false, static_init = false, use_ori = false;
  int init_size = 0;
  Eigen::Quaterniond q_ib = Eigen::Quaterniond::Identity();
  Vector3d t_ib = Vector3d::Zero(), bg0 = Vector3d::Zero(), ba0 = Vector3d::Zero();
  double gyro = 0.1, acc = 0.1, gb = 0.1, ab = 0.1;
  double rot_std = std::sqrt(0.03), vel_std = 0.1, pos_std = std::sqrt(1e-5);
  bool log = false;
  std::string pose_log, vel_log;
  double log_rate = 10;
  std::vector<VelCfg> v;
  std::vector<LegCfg> l;
  std::string corr;    // order of the corrections: 'v' / 'l'
  std::set<std::string> omit;
  bool has(const std::string& k) const { return !omit.count(k); }
  bool right() const { return et == RightInvariant; }
};
inline std::string estYaml(const Cfg& c, const std::string& path) {
  Yaml y;
  y.flag("logger", "enable_pose_logger", c.log);
  if (c.log) {
    if (c.has("pose_log_file")) y.str("logger", "pose_log_file", c.pose_log);
    if (c.has("vel_log_file")) y.str("logger", "vel_log_file", c.vel_log);
    if (c.has("pose_log_rate")) y.num("logger", "pose_log_rate", c.log_rate);
  }
  if (c.has("rotation_std_value")) y.num("state", "rotation_std_value", c.rot_std);
  if (c.has("velocity_std_value")) y.num("state", "velocity_std_value", c.vel_std);
  if (c.has("position_std_value")) y.num("state", "position_std_value", c.pos_std);
  return y.write(path);
}
inline std::string imuYaml(const Cfg& c, const std::string& path) {
  Yaml y;
  if (c.has("static_bias_initialization")) y.flag("settings", "static_bias_initialization", c.static_init);
  if (c.has("init_bias_size")) y.integer("settings", "init_bias_size", c.init_size);
  if (c.has("use_imu_ori_to_init")) y.flag("settings", "use_imu_ori_to_init", c.use_ori);
  if (c.has("enable_imu_bias_update")) y.flag("settings", "enable_imu_bias_update", c.bias);
  if (c.has("rotation_imu2body")) y.quat("settings", "rotation_imu2body", c.q_ib);
  if (c.has("translation_imu2body")) y.vec("settings", "translation_imu2body", c.t_ib);
  if (c.has("gyroscope_bias")) y.vec("priors", "gyroscope_bias", c.bg0);
  if (c.has("accelerometer_bias")) y.vec("priors", "accelerometer_bias", c.ba0);
  if (c.has("gyroscope_std")) y.num("noises", "gyroscope_std", c.gyro);
  if (c.has("accelerometer_std")) y.num("noises", "accelerometer_std", c.acc);
  if (c.has("gyroscope_bias_std")) y.num("noises", "gyroscope_bias_std", c.gb);
  if (c.has("accelerometer_bias_std")) y.num("noises", "accelerometer_bias_std", c.ab);
  return y.write(path);
}
inline std::string velYaml(const Cfg& c, const VelCfg& v, const std::string& path) {
  Yaml y;
  if (c.has("v.correction_time_threshold")) y.num("settings", "correction_time_threshold", v.thr);
  if (c.has("rotation_vel2body")) y.quat("settings", "rotation_vel2body", v.q);
  if (c.has("velocity_scale")) y.num("settings", "velocity_scale", v.scale);
  if (c.has("velocity_std")) y.num("noises", "velocity_std", v.std);
  return y.write(path);
}
inline std::string legYaml(const Cfg& c, const LegCfg& v, const std::string& path) {
  Yaml y;
  if (c.has("l.correction_time_threshold")) y.num("settings", "correction_time_threshold", v.thr);
  if (c.has("encoder_std")) y.num("noises", "encoder_std", v.enc);
  if (c.has("kinematics_additive_std")) y.num("noises", "kinematics_additive_std", v.add);
  if (c.has("contact_std")) y.num("noises", v.short_name ? "contact_std" : "contact_noise_std", v.contact);
  return y.write(path);
}

// --------------------------------------------------------------------- states
struct Snap {
  MatrixXd X, P, Qc;
  VectorXd Th;
  double t = 0, tp = 0;
  Vector3d w = Vector3d::Zero();
  bool bias = false;
  int slip = 0;
};
inline Snap snap(const RobotState& s) {
  Snap o;
  o.X = s.get_X();
  o.P = s.get_P();
  o.Qc = s.get_continuous_noise_covariance();
  o.Th = s.get_theta();
  o.t = s.get_time();
  o.tp = s.get_propagate_time();
  o.w = s.get_body_angular_velocity();
  o.bias = s.get_enable_imu_bias_update();
  return o;
}
template <class A, class B>
bool bits(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) {
      double x = a(i, j), y = b(i, j);
      if (!(x == y || (x != x && y != y))) return false;
    }
  return true;
}
inline bool same(const Snap& a, const Snap& b, std::string* what = nullptr) {
  const char* w = !bits(a.X, b.X)     ? "mean"
                  : !bits(a.Th, b.Th) ? "biases"
                  : !bits(a.P, b.P)   ? "covariance"
                  : !bits(a.Qc, b.Qc) ? "noise"
                  : a.t != b.t        ? "time"
                  : a.tp != b.tp      ? "propagation time"
                  : !bits(a.w, b.w)   ? "body angular velocity"
                                      : nullptr;
  if (w && what) *what = w;
  return w == nullptr;
}
inline uint64_t digest(const Snap& s) {
  return Hash().m(s.X).m(s.Th).m(s.P).d(s.t).d(s.tp).h;
}

// ------------------------------------------------------------------ reference
inline double tolAng(double th) {
  return 2e-14 * std::max(1.0, th);
}
struct RS {    // reference state with absolute error allowances
  LM X, P, Qc, Th, eX, eP, eTh;
  double t = 0, tp = 0;
  L worst_cond = 1;
  explicit RS(const Snap& s) : X(ref::lm(s.X)), P(ref::lm(s.P)), Qc(ref::lm(s.Qc)), Th(ref::lm(s.Th)), t(s.t), tp(s.tp) {
    eX = LM(X.r, X.c);
    eP = LM(P.r, P.c);
    eTh = LM(Th.r, 1);
  }
  int dx() const { return 3 * X.c - 6; }    // group part of the covariance
  int dp() const { return dx() + 6; }
  LM R() const { return X.block(0, 0, 3, 3); }
  LM col(int i) const { return X.block(0, i, 3, 1); }
};
inline LM blkI(const LM& A, int extra) {
  LM B = LM::I(A.r + extra);
  B.put(0, 0, A);
  return B;
}
inline L nrm(const LM& v) {
  L s = 0;
  for (auto x : v.a) s += x * x;
  return std::sqrt(s);
}
inline LM Rq(const Eigen::Quaterniond& q) { return ref::quatR(q.w(), q.x(), q.y(), q.z()); }
inline LM sandwich(const LM& A, const LM& P) { return A * P * A.t(); }

inline void refPropagate(RS& s, const Cfg& c, const ImuMeasurement<double>& m, double C = 2e-12) {
  double dtd = m.get_time() - s.tp;
  L dt = dtd, ad = std::fabs(dt);
  s.t = s.tp = m.get_time();
  int n = s.X.c, dx = s.dx(), dp = s.dp();
  LM g = ref::v3(0, 0, -9.80L), gyr = ref::lm(m.get_angular_velocity()), acc = ref::lm(m.get_lin_acc());
  LM bg = s.Th.block(0, 0, 3, 1), ba = s.Th.block(3, 0, 3, 1), Rib = Rq(c.q_ib), tib = ref::lm(c.t_ib);
  LM w = Rib * gyr - bg;
  LM a = Rib * acc - ba - ref::cross(w, ref::cross(w, tib));
  L wm = nrm(gyr) + nrm(bg), amag = nrm(acc) + nrm(ba) + wm * wm * nrm(tib);
  LM phi = dt * w, R = s.R(), v = s.col(3), p = s.col(4);
  double th = double(nrm(phi));
  LM G0 = ref::Gam(phi, 0), G1 = ref::Gam(phi, 1), G2 = ref::Gam(phi, 2);
  LM Xn = s.X;
  Xn.put(0, 0, R * G0);
  Xn.put(0, 3, v + dt * (R * (G1 * a) + g));
  Xn.put(0, 4, p + dt * v + (dt * dt) * (R * (G2 * a) + 0.5L * g));
  // allowances
  L eR = tolAng(th) + 1e-13L + 1e-15L * wm * ad;
  LM e(n, n);
  L eRin = s.eX.block(0, 0, 3, 3).maxabs(), evin = s.eX.block(0, 3, 3, 1).maxabs(), epin = s.eX.block(0, 4, 3, 1).maxabs();
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) e(i, j) = 4 * eR + 3 * eRin;
    e(i, 3) = 1e-13L * (nrm(v) + (amag + 10) * ad) + 4 * eR * amag * ad + evin + 3 * eRin * amag * ad;
    e(i, 4) = 1e-13L * (nrm(p) + nrm(v) * ad + (amag + 10) * dt * dt) + 4 * eR * amag * dt * dt + epin + evin * ad + 3 * eRin * amag * dt * dt;
    for (int k = 5; k < n; k++) e(i, k) = s.eX(i, k);
  }
  // transition
  LM A(dp, dp), mwx = (-1.0L) * ref::skew(w), max_ = (-1.0L) * ref::skew(a);
  for (int i = 0; i < dx; i += 3) A.put(i, i, mwx);
  A.put(3, 0, max_);
  for (int i = 0; i < 3; i++) {
    A(6 + i, 3 + i) = 1;
    A(i, dx + i) = -1;
    A(3 + i, dx + 3 + i) = -1;
  }
  LM Phi = ref::expm(dt * A);
  LM B(dp, dp);    // block-wise magnitude of the transition
  auto blockmax = [&](const LM& M) {
    LM o(dp, dp);
    for (int i = 0; i < dp; i += 3)
      for (int j = 0; j < dp; j += 3) {
        L mx = 0;
        for (int r = 0; r < 3; r++)
          for (int q = 0; q < 3; q++) mx = std::max(mx, std::fabs(M(i + r, j + q)));
        for (int r = 0; r < 3; r++)
          for (int q = 0; q < 3; q++) o(i + r, j + q) = mx;
      }
    return o;
  };
  if (c.right()) {
    LM Al = blkI(ref::Ad(Xn), 6), Ar = blkI(ref::AdInv(s.X), 6);
    Phi = Al * Phi * Ar;
  }
  if (!c.bias)
    for (int i = 0; i < dp; i++)
      for (int j = dx; j < dp; j++) Phi(i, j) = 0;
  B = blockmax(Phi);
  auto atleast = [&](int i, int j, L v_) {
    for (int r = 0; r < 3; r++)
      for (int q = 0; q < 3; q++) B(i + r, j + q) = std::max(B(i + r, j + q), v_);
  };
  if (c.bias) {
    L vm = c.right() ? nrm(v) + (amag + 10) * ad : 0, pm = c.right() ? nrm(p) + nrm(v) * ad + (amag + 10) * dt * dt : 0;
    atleast(0, dx, ad);
    atleast(3, dx, amag * dt * dt + vm * ad);
    atleast(6, dx, amag * ad * dt * dt + pm * ad);
    atleast(3, dx + 3, ad);
    atleast(6, dx + 3, dt * dt);
    if (c.right())
      for (int k = 5; k < n; k++) atleast(3 * k - 6, dx, nrm(s.col(k)) * ad);
  }
  atleast(3, 0, (c.right() ? 10 : amag) * ad);
  atleast(6, 0, (c.right() ? 10 : amag) * dt * dt);
  LM Qc = s.Qc;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      Qc(i, j) = i == j ? L(c.gyro) * c.gyro : 0;
      Qc(3 + i, 3 + j) = i == j ? L(c.acc) * c.acc : 0;
      if (c.bias) {
        Qc(dx + i, dx + j) = i == j ? L(c.gb) * c.gb : 0;
        Qc(dx + 3 + i, dx + 3 + j) = i == j ? L(c.ab) * c.ab : 0;
      }
    }
  LM G = c.right() ? blkI(ref::Ad(s.X), 6) : LM::I(dp);
  LM Pn = sandwich(Phi, s.P) + dt * sandwich(Phi * G, Qc);
  LM Gb = blockmax(G);
  s.eP = (3.0L) * sandwich(B, s.eP) + (L(C) + 8 * L(tolAng(th))) * (sandwich(B, blockmax(s.P.abs())) + ad * sandwich(B * Gb, Qc.abs()));
  s.X = Xn;
  s.eX = e;
  s.P = Pn;
}

struct Obs {
  LM H, N, Z, eZ, eN;
};
inline void refCorrect(RS& s, const Cfg& c, const Obs& o, double c0 = 1e-13) {
  int n = s.X.c, dx = s.dx(), dp = s.dp();
  LM P = s.P;
  if (!c.bias) {
    P.zero(0, dx, dp, 6);
    P.zero(dx, 0, 6, dp);
    for (int i = dx; i < dp; i++) P(i, i) = 1e-4L;
  }
  LM Pa = P.abs(), Pe = s.eP;
  if (!c.bias) {
    Pe.zero(0, dx, dp, 6);
    Pe.zero(dx, 0, 6, dp);
  }
  if (!c.right()) {
    LM A = blkI(ref::Ad(s.X), 6);
    P = sandwich(A, P);
    Pa = sandwich(A.abs(), Pa);
    Pe = sandwich(A.abs(), Pe);
  }
  LM PH = P * o.H.t(), S = o.H * PH + o.N;
  L cond;
  LM Si = ref::inverse(S, &cond);
  s.worst_cond = std::max(s.worst_cond, cond);
  // weight of rounding in S relative to S itself (cancellation in H P H')
  L canc = 1;
  {
    LM Sa = o.H.abs() * Pa * o.H.abs().t() + o.N.abs();
    for (int i = 0; i < S.r; i++) canc = std::max(canc, Sa(i, i) / S(i, i));
  }
  L C = c0 * (1 + cond) * canc;
  LM K = PH * Si, Ka = Pa * o.H.abs().t() * Si.abs();
  LM IKa = LM::I(dp) + Ka * o.H.abs();
  LM d = K * o.Z, da = Ka * o.Z.abs();
  // effect of incoming errors of the innovation and of the covariance
  LM de = Ka * o.eZ + IKa * (Pe * (o.H.abs().t() * (Si.abs() * o.Z.abs()))) + Ka * (o.eN * (Si.abs() * o.Z.abs()));
  LM dX = ref::Exp(d.block(0, 0, dx, 1));
  LM Xn = dX * s.X;
  double th = double(nrm(d.block(0, 0, 3, 1)));
  L ta = tolAng(th), er = 0;
  for (int i = 0; i < 3; i++) er = std::max(er, C * da(i) + de(i));
  er = 3 * er + 1e-14L + 4 * ta;
  LM e(n, n);
  L eRin = s.eX.block(0, 0, 3, 3).maxabs();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) e(i, j) = er + 3 * eRin;
  for (int k = 3; k < n; k++) {
    L dm = nrm(d.block(3 * k - 6, 0, 3, 1)), cm = nrm(s.col(k)), ec = 0;
    for (int i = 0; i < 3; i++) ec = std::max(ec, C * da(3 * k - 6 + i) + de(3 * k - 6 + i));
    for (int i = 0; i < 3; i++) e(i, k) = 2 * er * (cm + dm) + 3 * ec + 2 * ta * dm + 1e-14L * (cm + dm) + 3 * s.eX.block(0, k, 3, 1).maxabs();
  }
  for (int i = 0; i < 6; i++) {
    if (i == 2) continue;    // heading gyro bias is never corrected
    s.Th(i) += d(dx + i);
    s.eTh(i) += C * da(dx + i) + de(dx + i) + 1e-15L * std::fabs(s.Th(i));
  }
  LM IKH = LM::I(dp) - K * o.H;
  LM Pn = sandwich(IKH, P) + sandwich(K, o.N);
  LM Pna = C * (sandwich(IKa, Pa) + sandwich(Ka, o.N.abs())) + 3.0L * sandwich(IKH.abs(), Pe) + 2.0L * sandwich(Ka, o.eN);
  for (int i = 0; i < dp; i++) Pn(i, dx + 2) = Pn(dx + 2, i) = 0;
  Pn(dx + 2, dx + 2) = 1e-4L;
  if (!c.right()) {
    LM A = blkI(ref::Ad(ref::ginv(Xn)), 6), dA(dp, dp), Pm = sandwich(IKa, Pa);
    // error of the adjoint from the error of the new mean
    L eRm = e.block(0, 0, 3, 3).maxabs();
    for (int k = 2; k < n; k++) {
      L off = k < 3 ? 0 : 4 * (e.block(0, k, 3, 1).maxabs() + eRm * nrm(Xn.block(0, k, 3, 1)));
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
          dA(3 * k - 6 + i, 3 * k - 6 + j) = 2 * eRm;
          if (k > 2) dA(3 * k - 6 + i, j) = off;
        }
    }
    LM M = dA * Pn.abs() * A.abs().t();
    Pn = sandwich(A, Pn);
    Pna = sandwich(A.abs(), Pna) + L(c0) * sandwich(A.abs(), Pm) + 2.0L * (M + M.t()) + 2.0L * sandwich(dA, Pna);
  }
  s.X = Xn;
  s.eX = e;
  s.P = Pn;
  s.eP = Pna;
}
// The noise may be rotated (with a rotation that is orthogonal only up to
// rounding) or not: allow for rounding relative to its largest entry.
inline LM noiseErr(const LM& N, const RS& s) {
  L e = N.maxabs() * (1e-13L + 6 * s.eX.block(0, 0, 3, 3).maxabs());
  LM o(N.r, N.c);
  for (auto& x : o.a) x = e;
  return o;
}
inline Obs velObs(const RS& s, const VelCfg& v, const VelocityMeasurement<double>& m) {
  Obs o;
  o.H = LM(3, s.dp());
  for (int i = 0; i < 3; i++) o.H(i, 3 + i) = 1;
  o.N = (L(v.std) * v.std) * LM::I(3);
  o.eN = noiseErr(o.N, s);
  LM mv = L(v.scale) * (Rq(v.q) * ref::lm(m.get_velocity()));
  o.Z = s.R() * mv - s.col(3);
  o.eZ = LM(3, 1);
  for (int i = 0; i < 3; i++) o.eZ(i) = 2e-15L * (nrm(mv) + nrm(s.col(3))) * 3 + 2 * s.eX.block(0, 0, 3, 3).maxabs() * nrm(mv) + s.eX.block(0, 3, 3, 1).maxabs();
  return o;
}
inline LM legCov(const LegCfg& c, const FakeLeg& m, int id) {
  LM J = ref::lm(MatrixXd(m.jac.block(0, 3 * id, 3, 3)));
  return (L(c.enc) * c.enc) * (J * J.t()) + (L(c.add) * c.add) * LM::I(3);
}
typedef std::pair<int, int> Foot;    // correction index, leg
struct LegPlan {
  std::vector<int> stay, gone, fresh;
};
inline LegPlan legPlan(const std::vector<Foot>& tr, int src, const FakeLeg& m) {
  LegPlan p;
  for (int id = 0; id < m.n; id++) {
    bool f = false;
    for (auto& x : tr) f = f || (x.first == src && x.second == id);
    bool on = m.get_contact(id);
    if (on && f) p.stay.push_back(id);
    if (!on && f) p.gone.push_back(id);
    if (on && !f) p.fresh.push_back(id);
  }
  return p;
}
inline int footCol(const std::vector<Foot>& tr, int src, int id) {
  for (size_t i = 0; i < tr.size(); i++)
    if (tr[i].first == src && tr[i].second == id) return int(i) + 5;
  return -1;
}
inline LM drop(const LM& M, int at, int k, bool cols_only = false) {
  LM o(cols_only ? M.r : M.r - k, M.c - k);
  for (int i = 0, r = 0; i < M.r; i++) {
    if (!cols_only && i >= at && i < at + k) continue;
    for (int j = 0, q = 0; j < M.c; j++) {
      if (j >= at && j < at + k) continue;
      o(r, q++) = M(i, j);
    }
    r++;
  }
  return o;
}
inline void refRemove(RS& s, int col) {
  int b = 3 * col - 6;
  s.X = drop(s.X, col, 1);
  s.eX = drop(s.eX, col, 1);
  s.P = drop(s.P, b, 3);
  s.eP = drop(s.eP, b, 3);
  s.Qc = drop(s.Qc, b, 3);
}
inline LM widen(const LM& M, int at, int k) {    // inserts k zero rows/columns
  LM o(M.r + k, M.c + k);
  for (int i = 0; i < M.r; i++)
    for (int j = 0; j < M.c; j++) o(i < at ? i : i + k, j < at ? j : j + k) = M(i, j);
  return o;
}
inline void refAugment(RS& s, const Cfg& c, const LegCfg& lc, const LM& pos, const LM& cov) {
  int dx = s.dx(), dp = s.dp(), n = s.X.c;
  LM X = LM::I(n + 1), eX(n + 1, n + 1), d = s.col(4) + s.R() * pos;
  X.put(0, 0, s.X.block(0, 0, 3, n));
  X.put(0, n, d);
  eX.put(0, 0, s.eX.block(0, 0, 3, n));
  for (int i = 0; i < 3; i++) eX(i, n) = 1e-14L * (nrm(s.col(4)) + nrm(pos)) + s.eX.block(0, 4, 3, 1).maxabs() + 3 * nrm(pos) * s.eX.block(0, 0, 3, 3).maxabs();
  LM F(dp + 3, dp), G(dp + 3, 3);
  for (int i = 0; i < dx; i++) F(i, i) = 1;
  for (int i = 0; i < 6; i++) F(dx + 3 + i, dx + i) = 1;
  for (int i = 0; i < 3; i++) F(dx + i, 6 + i) = 1;
  if (c.right()) {
    G.put(dx, 0, s.R());
  } else {
    F.put(dx, 0, (-1.0L) * ref::skew(pos));
    G.put(dx, 0, LM::I(3));
  }
  LM Fa = F.abs(), Ga = G.abs();
  if (c.right())
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) Ga(dx + i, j) = 1;
  LM ca(3, 3);
  for (auto& x : ca.a) x = cov.maxabs();
  s.eP = sandwich(Fa, s.eP) + 1e-13L * (sandwich(Fa, s.P.abs()) + sandwich(Ga, ca));
  s.P = sandwich(F, s.P) + sandwich(G, cov);
  s.Qc = widen(s.Qc, dx, 3);
  for (int i = 0; i < 3; i++) s.Qc(dx + i, dx + i) = L(lc.contact) * lc.contact;
  s.X = X;
  s.eX = eX;
}
inline Obs legObs(const RS& s, const LegCfg& lc, const FakeLeg& m, const std::vector<Foot>& tr, int src,
                  const std::vector<int>& stay) {
  int k = 3 * int(stay.size());
  Obs o;
  o.H = LM(k, s.dp());
  o.N = LM(k, k);
  o.eN = LM(k, k);
  o.Z = LM(k, 1);
  o.eZ = LM(k, 1);
  for (size_t q = 0; q < stay.size(); q++) {
    int id = stay[q], col = footCol(tr, src, id), b = int(3 * q);
    for (int i = 0; i < 3; i++) {
      o.H(b + i, 6 + i) = -1;
      o.H(b + i, 3 * col - 6 + i) = 1;
    }
    LM pos = ref::lm(Vector3d(m.pos.col(id)));
    LM N = sandwich(s.R(), legCov(lc, m, id));
    o.N.put(b, b, N);
    o.eN.put(b, b, noiseErr(N, s));
    o.Z.put(b, 0, s.R() * pos - (s.col(col) - s.col(4)));
    for (int i = 0; i < 3; i++)
      o.eZ(b + i) = 4e-15L * (nrm(pos) + nrm(s.col(col)) + nrm(s.col(4))) + 2 * s.eX.block(0, 0, 3, 3).maxabs() * nrm(pos) + s.eX.block(0, 4, 3, 1).maxabs() + s.eX.block(0, col, 3, 1).maxabs();
  }
  return o;
}
inline void refLeg(RS& s, const Cfg& c, const LegCfg& lc, const FakeLeg& m, std::vector<Foot>& tr, int src, double c0 = 1e-13) {
  LegPlan p = legPlan(tr, src, m);
  s.t = m.get_time();
  if (!p.stay.empty()) refCorrect(s, c, legObs(s, lc, m, tr, src, p.stay), c0);
  for (int id : p.gone) {
    int col = footCol(tr, src, id);
    refRemove(s, col);
    tr.erase(tr.begin() + (col - 5));
  }
  for (int id : p.fresh) {
    refAugment(s, c, lc, ref::lm(Vector3d(m.pos.col(id))), legCov(lc, m, id));
    tr.push_back({src, id});
  }
}
inline void permuteContacts(RS& s, std::vector<Foot>& tr, const std::vector<int>& perm) {
  // perm[i]: which old contact goes to place i
  RS o = s;
  std::vector<Foot> t = tr;
  int n = int(perm.size());
  for (int i = 0; i < n; i++) tr[i] = t[perm[i]];
  auto mapx = [&](int c) { return c < 5 ? c : 5 + perm[c - 5]; };
  auto mapp = [&](int r) { return r < 9 || r >= 9 + 3 * n ? r : 9 + 3 * perm[(r - 9) / 3] + (r - 9) % 3; };
  for (int i = 0; i < 3; i++)
    for (int j = 5; j < 5 + n; j++) s.X(i, j) = o.X(i, mapx(j)), s.eX(i, j) = o.eX(i, mapx(j));
  for (int i = 0; i < s.P.r; i++)
    for (int j = 0; j < s.P.c; j++) {
      s.P(i, j) = o.P(mapp(i), mapp(j));
      s.eP(i, j) = o.eP(mapp(i), mapp(j));
      s.Qc(i, j) = o.Qc(mapp(i), mapp(j));
    }
}

// ----------------------------------------------------------------- comparison
struct Diff {
  bool dims = true;
  double R = 0, v = 0, p = 0, c = 0, bottom = 0, Th = 0, P = 0, Pc = 0, Pb = 0, Qc = 0;
  std::string worstP;
  double mean() const { return std::max(std::max(R, v), std::max(p, c)); }
  double all() const { return dims ? std::max(std::max(mean(), Th), std::max(P, bottom)) : 1e300; }
  std::string str() const {
    if (!dims) return "dimensions differ";
    return fmt("deviation in allowances: R %.3g v %.3g p %.3g contacts %.3g bias %.3g P %.3g P(contact) %.3g P(bias) %.3g noise %.3g",
               R, v, p, c, Th, P, Pc, Pb, Qc) + " " + worstP;
  }
};
// Allowances are typical rounding; a deviation counts from kSlack times that.
const double kSlack = 64;
// rel: additional allowance relative to magnitudes (loose comparison)
inline Diff compare(const RS& r, const Snap& s, const Cfg& c, double rel = 0) {
  Diff d;
  if (s.X.rows() != r.X.r || s.X.cols() != r.X.c || s.P.rows() != r.P.r || s.P.cols() != r.P.c || s.Th.size() != r.Th.r || s.Qc.rows() != r.Qc.r || s.Qc.cols() != r.Qc.c) {
    d.dims = false;
    return d;
  }
  auto q = [](L a, double b, L tol) {
    L e = std::fabs(a - L(b));
    if (!(e < 1e4000L)) return 1e300;
    double x = double(e / (kSlack * tol + 1e-300L));
    return x == x ? x : 1e300;
  };
  int n = r.X.c, dx = r.dx(), dp = r.dp();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      if (i >= 3) {
        if (s.X(i, j) != (i == j ? 1.0 : 0.0)) d.bottom = 1e300;
        continue;
      }
      L mag = j < 3 ? 1 : nrm(r.col(j));
      double x = q(r.X(i, j), s.X(i, j), r.eX(i, j) + rel * mag);
      if (j < 3) d.R = std::max(d.R, x);
      else if (j == 3) d.v = std::max(d.v, x);
      else if (j == 4) d.p = std::max(d.p, x);
      else d.c = std::max(d.c, x);
    }
  L thm = nrm(r.Th);
  for (int i = 0; i < 6; i++) d.Th = std::max(d.Th, q(r.Th(i), s.Th(i), r.eTh(i) + rel * thm));
  for (int i = 0; i < dp; i++)
    for (int j = 0; j < dp; j++) {
      bool b = i >= dx || j >= dx;
      if (b && !c.bias) continue;                 // value while frozen is not claimed
      if (i == dx + 2 || j == dx + 2) continue;    // heading gyro bias: handled separately
      L mag = std::sqrt(std::fabs(r.P(i, i) * r.P(j, j)));
      double x = q(r.P(i, j), s.P(i, j), r.eP(i, j) + rel * mag);
      if (x > 1 && x > d.P) d.worstP = fmt("P(%d,%d) got %.17g want %.17g allowance %.3g", i, j, s.P(i, j), double(r.P(i, j)), double(kSlack * r.eP(i, j)));
      d.P = std::max(d.P, x);
      if (b) d.Pb = std::max(d.Pb, x);
      else if (i >= 9 || j >= 9) d.Pc = std::max(d.Pc, x);
    }
  for (int i = 9; i < dx; i++)
    for (int j = 9; j < dx; j++)
      d.Qc = std::max(d.Qc, q(r.Qc(i, j), s.Qc(i, j), 1e-15L * std::fabs(r.Qc(i, j))));
  return d;
}

// ------------------------------------------------------------------------ rig
inline int& fileCounter() {
  static int n = 0;
  return n;
}
struct Rig {
  Cfg c;
  std::unique_ptr<estimator::InekfEstimator> est;
  IMUQueuePtr iq;
  MutexPtr im;
  std::vector<VelocityQueuePtr> vq;
  std::vector<LeggedKinQueuePtr> lq;
  std::vector<MutexPtr> vm, lm_;
  std::vector<std::pair<char, int>> order;
  // model of the filter's own memory
  ImuMeasurementPtr prev;
  std::vector<Foot> tr;
  std::string files[8];

  explicit Rig(const Cfg& cfg) : c(cfg) {
    std::string w = rep().work + "/" + std::to_string(getpid()) + "_";
    std::string base = w + std::to_string(fileCounter()++ % 8);
    est.reset(new estimator::InekfEstimator(c.et, estYaml(c, base + "_est.yaml")));
    iq = std::make_shared<IMUQueue>();
    im = std::make_shared<std::mutex>();
    est->add_imu_propagation(iq, im, imuYaml(c, base + "_imu.yaml"));
    size_t nv = 0, nl = 0;
    if (c.corr.empty()) c.corr = std::string(c.v.size(), 'v') + std::string(c.l.size(), 'l');
    for (char k : c.corr) {
      if (k == 'v') {
        vq.push_back(std::make_shared<VelocityQueue>());
        vm.push_back(std::make_shared<std::mutex>());
        est->add_velocity_correction(vq.back(), vm.back(), velYaml(c, c.v[nv], base + "_vel.yaml"));
        order.push_back({'v', int(nv++)});
      } else {
        lq.push_back(std::make_shared<LeggedKinQueue>());
        lm_.push_back(std::make_shared<std::mutex>());
        est->add_legged_kinematics_correction(lq.back(), lm_.back(), legYaml(c, c.l[nl], base + "_leg.yaml"));
        order.push_back({'l', int(nl++)});
      }
    }
  }
  void push(const ImuMeasurementPtr& m) {
    std::lock_guard<std::mutex> g(*im);
    iq->push(m);
  }
  void push(int i, const VelocityMeasurementPtr& m) {
    std::lock_guard<std::mutex> g(*vm[i]);
    vq[i]->push(m);
  }
  void push(int i, const LeggedKinMeasurementPtr& m) {
    std::lock_guard<std::mutex> g(*lm_[i]);
    lq[i]->push(m);
  }
  Snap now() const { return snap(est->get_state()); }
  // Puts the estimator into a given state; keeps the dimension (tracked contacts).
  void put(const Snap& s) {
    RobotState st = est->get_state();
    st.set_X(s.X);
    st.set_theta(s.Th);
    st.set_P(s.P);
    st.set_time(s.t);
    st.set_propagate_time(s.tp);
    st.set_enable_imu_bias_update(c.bias);
    est->set_state(st);
  }
  size_t published() { return est->get_robot_state_queue_ptr()->size(); }
  void drainPublished() {
    auto q = est->get_robot_state_queue_ptr();
    while (!q->empty()) q->pop();
  }
};

// ------------------------------------------------------- random configurations
inline VelCfg randVel(Rng& g) {
  VelCfg v;
  v.std = g.logu(1e-2, 3);
  v.thr = g.chance(0.3) ? 0.3 : g.logu(1e-2, 2);
  v.scale = g.chance(0.3) ? 1 : g.chance(0.1) ? -1 : g.uni(0.3, 3);
  v.q = g.chance(0.2) ? Eigen::Quaterniond::Identity() : g.quat();
  return v;
}
inline LegCfg randLeg(Rng& g) {
  LegCfg l;
  l.enc = g.logu(1e-3, 0.3);
  l.add = g.logu(1e-2, 1);
  l.contact = g.logu(1e-2, 3);
  l.thr = g.chance(0.3) ? 0.3 : g.logu(1e-2, 2);
  l.short_name = g.chance(0.6);
  return l;
}
inline Cfg randCfg(Rng& g, int nv, int nl) {
  Cfg c;
  c.et = g.chance(0.5) ? RightInvariant : LeftInvariant;
  c.bias = g.chance(0.5);
  c.q_ib = g.chance(0.25) ? Eigen::Quaterniond::Identity() : g.quat();
  if (g.chance(0.6)) c.t_ib = g.gvec(0.5);
  c.bg0 = g.gvec(0.05);
  c.ba0 = g.gvec(0.2);
  c.gyro = g.logu(1e-3, 1);
  c.acc = g.logu(1e-3, 1);
  c.gb = g.logu(1e-4, 1);
  c.ab = g.logu(1e-4, 1);
  for (int i = 0; i < nv; i++) c.v.push_back(randVel(g));
  for (int i = 0; i < nl; i++) c.l.push_back(randLeg(g));
  std::string o = std::string(nv, 'v') + std::string(nl, 'l');
  for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.below(int(i))]);
  c.corr = o;
  return c;
}
// A random state of n columns with a random, correlated covariance
inline MatrixXd randCov(Rng& g, int dim, double smin, double smax) {
  MatrixXd A(dim, dim);
  for (int i = 0; i < dim; i++)
    for (int j = 0; j < dim; j++) A(i, j) = g.gauss();
  MatrixXd M = A * A.transpose() / dim;
  double mix = g.uni(0.05, 0.9);
  M = (1 - mix) * M + mix * MatrixXd::Identity(dim, dim);
  VectorXd s(dim);
  double base = g.logu(smin, smax), spread = g.chance(0.4) ? 1 : 3;
  for (int i = 0; i < dim; i += 3) {
    double b = base * g.logu(1 / spread, spread);
    for (int k = i; k < std::min(dim, i + 3); k++) s[k] = b;
  }
  MatrixXd P = s.asDiagonal() * M * s.asDiagonal();
  return 0.5 * (P + P.transpose());
}
// Mostly ordinary distances and speeds, now and then a long way from the origin
inline double farCol(Rng& g, double hi) { return g.chance(0.12) ? g.logu(hi, 1e5) : g.logu(0.1, hi); }
struct StateScale {
  double col = 10, smin = 3e-3, smax = 3;
  bool big = false;
};
inline Snap randState(Rng& g, const Snap& like, const Cfg& c, const StateScale& sc, double tp) {
  Snap s = like;
  int n = int(like.X.cols()), dx = 3 * n - 6, dp = dx + 6;
  s.X = MatrixXd::Identity(n, n);
  s.X.block<3, 3>(0, 0) = g.rot();
  for (int k = 3; k < n; k++) s.X.block<3, 1>(0, k) = g.gvec(g.chance(0.1) ? 0 : g.logu(1e-3, 1) * sc.col);
  s.Th.resize(6);
  s.Th.head(3) = g.gvec(g.chance(0.07) ? g.logu(0.3, 10) : g.logu(1e-4, 0.3));
  s.Th.tail(3) = g.gvec(g.chance(0.07) ? g.logu(1, 30) : g.logu(1e-4, 1));
  s.P = randCov(g, dp, sc.smin, sc.smax);
  if (!c.bias) {
    s.P.block(0, dx, dx, 6).setZero();
    s.P.block(dx, 0, 6, dx).setZero();
  }
  s.tp = tp;
  s.t = tp;
  s.bias = c.bias;
  return s;
}
}    // namespace rig
