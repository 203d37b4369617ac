// D01: measurement and state containers against plain models of what was put in.
#include <list>
#include "rig.hpp"
#include "drift/measurement/angular_velocity.h"
#include "drift/measurement/contact.h"
#include "drift/measurement/joint_state.h"
#include "drift/measurement/odom.h"
#include "drift/math/se_k_3.h"
using namespace rig;
using state::RobotState;

// Any double is a value that must come back; matrices that are multiplied stay tame.
static double val(Rng& g) {
  double u = g.uni();
  if (u < 0.04) return 0;
  if (u < 0.06) return -0.0;
  if (u < 0.08) return 5e-324;
  if (u < 0.10) return (g.chance(0.5) ? 1 : -1) * 1.7e308;
  double x = g.logu(1e-9, 1e9);
  return g.chance(0.5) ? x : -x;
}
static double tame(Rng& g) { return (g.chance(0.5) ? 1 : -1) * (g.chance(0.1) ? 0 : g.logu(1e-4, 1e3)); }
static Vector3d tv(Rng& g) {
  Vector3d v;
  for (int i = 0; i < 3; i++) v[i] = tame(g);
  return v;
}
static Matrix3d tm(Rng& g) {
  Matrix3d m;
  for (int i = 0; i < 9; i++) m(i / 3, i % 3) = tame(g);
  return m;
}
static MatrixXd tmx(Rng& g, int r, int c) {
  MatrixXd m(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) m(i, j) = tame(g);
  return m;
}
static bool sameBits(double a, double b) { return a == b || (a != a && b != b); }

// ------------------------------------------------------------------ RobotState
struct M {
  MatrixXd X, P, Q;
  VectorXd Th;
  double t = 0, tp = 0;
  Vector3d w = Vector3d::Zero();
  bool bias = false;
  int slip = 0;
  std::vector<std::shared_ptr<int>> col;    // one per column
  bool pure = true;                          // never copied: indices are its own
  int dx() const { return 3 * int(X.cols()) - 6; }
};
static MatrixXd without(const MatrixXd& A, int at, int n) {
  std::vector<int> keep;
  for (int i = 0; i < A.rows(); i++)
    if (i < at || i >= at + n) keep.push_back(i);
  MatrixXd B(keep.size(), keep.size());
  for (size_t i = 0; i < keep.size(); i++)
    for (size_t j = 0; j < keep.size(); j++) B(i, j) = A(keep[i], keep[j]);
  return B;
}
static MatrixXd withGap(const MatrixXd& A, int at, int n) {    // zero rows and columns inserted
  MatrixXd B = MatrixXd::Zero(A.rows() + n, A.cols() + n);
  for (int i = 0; i < A.rows(); i++)
    for (int j = 0; j < A.cols(); j++) B(i < at ? i : i + n, j < at ? j : j + n) = A(i, j);
  return B;
}
static MatrixXd randX(Rng& g, int n, bool rot) {
  MatrixXd X = MatrixXd::Identity(n, n);
  X.block(0, 0, 3, 3) = rot ? MatrixXd(g.rot()) : MatrixXd(tm(g));
  for (int i = 3; i < n; i++) X.block(0, i, 3, 1) = tv(g);
  return X;
}
static std::string g_op;
static void bad(const std::string& key, const std::string& msg) { rep().viol("state:" + key, msg + " (after " + g_op + ")"); }
template <class A, class B>
static void eq(const char* key, const A& got, const B& want) {
  if (!bits(got, want)) bad(key, std::string(key) + " reads " + mstr(MatrixXd(got)) + ", stored " + mstr(MatrixXd(want)));
}
static void close(const char* key, const MatrixXd& got, const MatrixXd& want) {
  double s = 1 + want.cwiseAbs().maxCoeff(), d = got.rows() == want.rows() && got.cols() == want.cols() ? (got - want).cwiseAbs().maxCoeff() : 1e300;
  if (!(d <= 1e-12 * s)) bad(key, std::string(key) + " is " + mstr(got) + ", expected " + mstr(want));
}
static void compare(RobotState& s, const M& m, bool deep) {
  const RobotState& c = s;
  eq("X", c.get_X(), m.X);
  eq("theta", c.get_theta(), m.Th);
  eq("P", c.get_P(), m.P);
  eq("noise", c.get_continuous_noise_covariance(), m.Q);
  if (!sameBits(c.get_time(), m.t)) bad("time", fmt("time reads %.17g, stored %.17g", c.get_time(), m.t));
  if (!sameBits(c.get_propagate_time(), m.tp)) bad("propagate_time", fmt("propagation time reads %.17g, stored %.17g", c.get_propagate_time(), m.tp));
  eq("body_angular_velocity", c.get_body_angular_velocity(), m.w);
  if (c.get_enable_imu_bias_update() != m.bias) bad("bias_flag", "enable_imu_bias_update is not what was stored");
  if (c.get_slip_flag() != m.slip) bad("slip_flag", fmt("slip flag reads %d, stored %d", c.get_slip_flag(), m.slip));
  if (!deep) return;
  int n = int(m.X.cols()), d = m.dx();
  if (c.dimX() != n || c.dimTheta() != m.Th.size() || c.dimP() != m.P.cols() || c.dimQc() != m.Q.cols())
    bad("dimension", fmt("dimensions %d %d %d %d, expected %d %d %d %d", c.dimX(), c.dimTheta(), c.dimP(), c.dimQc(), n, int(m.Th.size()), int(m.P.cols()), int(m.Q.cols())));
  eq("rotation", c.get_rotation(), m.X.block(0, 0, 3, 3));
  eq("velocity", c.get_velocity(), m.X.block(0, 3, 3, 1));
  eq("position", c.get_position(), m.X.block(0, 4, 3, 1));
  eq("gyroscope_bias", c.get_gyroscope_bias(), m.Th.segment(0, 3));
  eq("accelerometer_bias", c.get_accelerometer_bias(), m.Th.segment(3, 3));
  for (int i = 3; i < n; i++) {
    eq("vector", c.get_vector(i), m.X.block(0, i, 3, 1));
    eq("aug_state", s.get_aug_state(i), m.X.block(0, i, 3, 1));
    if (m.P.cols() >= 3 * i - 3) eq("aug_cov", s.get_aug_cov(i), m.P.block(3 * i - 6, 3 * i - 6, 3, 3));
  }
  if (m.P.cols() >= d + 6) {
    eq("rotation_covariance", c.get_rotation_covariance(), m.P.block(0, 0, 3, 3));
    eq("velocity_covariance", c.get_velocity_covariance(), m.P.block(3, 3, 3, 3));
    eq("position_covariance", c.get_position_covariance(), m.P.block(6, 6, 3, 3));
    eq("gyroscope_bias_covariance", c.get_gyroscope_bias_covariance(), m.P.block(d, d, 3, 3));
    eq("accelerometer_bias_covariance", c.get_accelerometer_bias_covariance(), m.P.block(d + 3, d + 3, 3, 3));
  }
  // views in the other frame
  MatrixXd Rt = m.X.block(0, 0, 3, 3).transpose(), inv = MatrixXd::Identity(n, n);
  inv.block(0, 0, 3, 3) = Rt;
  for (int i = 3; i < n; i++) inv.block(0, i, 3, 1) = -Rt * m.X.block(0, i, 3, 1);
  close("Xinv", c.get_Xinv(), inv);
  if (c.get_state_type() == StateType::WorldCentric) {
    eq("world_X", c.get_world_X(), m.X);
    eq("world_rotation", c.get_world_rotation(), m.X.block(0, 0, 3, 3));
    eq("world_velocity", c.get_world_velocity(), m.X.block(0, 3, 3, 1));
    eq("world_position", c.get_world_position(), m.X.block(0, 4, 3, 1));
    close("body_X", c.get_body_X(), inv);
    close("body_rotation", c.get_body_rotation(), Rt);
    close("body_velocity", c.get_body_velocity(), Rt * m.X.block(0, 3, 3, 1));
    close("body_position", c.get_body_position(), Rt * m.X.block(0, 4, 3, 1));
  } else {
    bad("state_type", "a state is not world centric");
  }
  if (m.pure)
    for (int i = 5; i < n; i++)
      if (m.col[i] && *m.col[i] != i) bad("column_index", fmt("the index handed over with column %d says %d", i, *m.col[i]));
  // block-diagonal copies
  int k = n % 3 + 1, b = (n * 2) % 4;
  MatrixXd big = MatrixXd::Constant(b, b, 7.5), want = MatrixXd::Zero(b + k * n, b + k * n), bigi = big;
  want.block(0, 0, b, b) = big;
  MatrixXd wanti = want;
  for (int i = 0; i < k; i++) want.block(b + i * n, b + i * n, n, n) = m.X, wanti.block(b + i * n, b + i * n, n, n) = inv;
  c.copy_diag_X(k, big);
  eq("copy_diag_X", big, want);
  c.copy_diag_Xinv(k, bigi);
  close("copy_diag_Xinv", bigi, wanti);
}
static M fresh(int n, const VectorXd* th = nullptr) {
  M m;
  m.X = MatrixXd::Identity(n, n);
  m.Th = th ? *th : VectorXd(VectorXd::Zero(6));
  int d = 3 * n - 6 + int(m.Th.size());
  m.P = MatrixXd::Identity(d, d);
  m.Q = MatrixXd::Zero(d, d);
  m.col.resize(n);
  return m;
}
struct Obj {
  std::shared_ptr<RobotState> s;
  M m;
};
static Obj construct(Rng& g) {
  Obj o;
  int k = g.below(7), n = k == 0 || k >= 4 ? 5 : 5 + g.below(4);
  o.m = fresh(n);
  g_op = fmt("constructor %d", k);
  if (k == 0) {
    o.s.reset(new RobotState());
    return o;
  }
  o.m.X = randX(g, n, g.chance(0.7));
  VectorXd th = tmx(g, 6, 1);
  MatrixXd P = tmx(g, o.m.dx() + 6, o.m.dx() + 6);
  SEK3 sek(o.m.X);
  if (k == 1) o.s.reset(new RobotState(o.m.X));
  if (k == 2) o.s.reset(new RobotState(o.m.X, th));
  if (k == 3) o.s.reset(new RobotState(o.m.X, th, P));
  if (k == 4) o.s.reset(new RobotState(sek));
  if (k == 5) o.s.reset(new RobotState(sek, th));
  if (k == 6) o.s.reset(new RobotState(sek, th, P));
  if (k == 2 || k == 3 || k >= 5) o.m.Th = th;
  if (k == 3 || k == 6) o.m.P = P;
  return o;
}
static void robotStates(Rng& g) {
  std::vector<Obj> v;
  v.push_back(construct(g));
  compare(*v[0].s, v[0].m, true);
  int ops = g.chance(0.005) ? int(g.logu(100, 3000)) : g.range(20, 60);
  for (int k = 0; k < ops; k++) {
    size_t at = g.below(int(v.size()));
    RobotState& s = *v[at].s;
    M& m = v[at].m;
    int n = int(m.X.cols()), d = m.dx(), dp = int(m.P.cols());
    int op = g.below(30);
    g_op = fmt("operation %d with %d columns", op, n);
    rep().phase("state");
    switch (op) {
      case 0: m.X = randX(g, n, true), s.set_X(m.X); break;
      case 1: m.Th = tmx(g, int(m.Th.size()), 1), s.set_theta(m.Th); break;
      case 2: m.P = tmx(g, dp, dp), s.set_P(m.P); break;
      case 3: m.Q = tmx(g, dp, dp), s.set_continuous_noise_covariance(m.Q); break;
      case 4: {
        Matrix3d R = g.chance(0.5) ? g.rot() : tm(g);
        m.X.block(0, 0, 3, 3) = R;
        s.set_rotation(R);
        break;
      }
      case 5: {
        Vector3d x = tv(g);
        m.X.block(0, 3, 3, 1) = x;
        s.set_velocity(x);
        break;
      }
      case 6: {
        Vector3d x = tv(g);
        m.X.block(0, 4, 3, 1) = x;
        s.set_position(x);
        break;
      }
      case 7: {
        Vector3d x(val(g), val(g), val(g));
        m.Th.segment(0, 3) = x;
        s.set_gyroscope_bias(x);
        break;
      }
      case 8: {
        Vector3d x(val(g), val(g), val(g));
        m.Th.segment(3, 3) = x;
        s.set_accelerometer_bias(x);
        break;
      }
      case 9: m.t = val(g), s.set_time(m.t); break;
      case 10: m.tp = val(g), s.set_propagate_time(m.tp); break;
      case 11: {
        Matrix3d c = tm(g);
        m.P.block(0, 0, 3, 3) = c;
        s.set_rotation_covariance(c);
        break;
      }
      case 12: {
        Matrix3d c = tm(g);
        m.P.block(3, 3, 3, 3) = c;
        s.set_velocity_covariance(c);
        break;
      }
      case 13: {
        Matrix3d c = tm(g);
        m.P.block(6, 6, 3, 3) = c;
        s.set_position_covariance(c);
        break;
      }
      case 14: {
        Matrix3d c = tm(g);
        m.P.block(d, d, 3, 3) = c;
        s.set_gyroscope_bias_covariance(c);
        break;
      }
      case 15: {
        Matrix3d c = tm(g);
        m.P.block(d + 3, d + 3, 3, 3) = c;
        s.set_accelerometer_bias_covariance(c);
        break;
      }
      case 16: m.w = Vector3d(val(g), val(g), val(g)), s.set_body_angular_velocity(m.w); break;
      case 17: m.bias = !m.bias, s.set_enable_imu_bias_update(m.bias); break;
      case 18: m.slip = g.below(3), s.set_slip_flag(m.slip); break;
      case 19:
      case 20:
      case 21:
      case 22: {    // a contact
        if (n > 12) break;
        Vector3d x = tv(g);
        Matrix3d nc = tm(g);
        MatrixXd P = tmx(g, dp + 3, dp + 3);
        auto id = g.chance(0.1) ? nullptr : std::make_shared<int>(-5);
        MatrixXd X = MatrixXd::Identity(n + 1, n + 1);
        X.topLeftCorner(n, n) = m.X;
        X.block(0, n, 3, 1) = x;
        m.X = X;
        m.P = P;
        m.Q = withGap(m.Q, d, 3);
        m.Q.block(d, d, 3, 3) = nc;
        m.col.push_back(id);
        int at_ = s.add_aug_state(x, P, nc, id);
        if (at_ != n) bad("add_aug_state", fmt("the new column is %d, reported %d", n, at_));
        if (id) *id = at_;
        rep().count("columns added");
        break;
      }
      case 23:
      case 24:
      case 25: {
        if (n < 6) break;
        int i = g.range(5, n - 1);
        m.X = without(m.X, i, 1);
        m.P = without(m.P, 3 * i - 6, 3);
        m.Q = without(m.Q, 3 * i - 6, 3);
        m.col.erase(m.col.begin() + i);
        s.del_aug_state(i);
        rep().count("columns deleted");
        break;
      }
      case 26: {
        if (n < 6) break;
        int i = g.range(5, n - 1);
        Vector3d x = tv(g);
        m.X.block(0, i, 3, 1) = x;
        s.set_aug_state(i, x);
        break;
      }
      case 27:
        m = fresh(5);
        s.clear();
        rep().count("states cleared");
        break;
      case 28: {    // copies are independent of each other
        if (v.size() >= 5) break;
        m.pure = false;
        Obj o;
        o.m = m;
        if (g.chance(0.5)) {
          o.s = std::make_shared<RobotState>(s);
        } else {
          o = construct(g);
          o.m = m;
          *o.s = s;
        }
        v.push_back(o);
        rep().count("states copied");
        break;
      }
      case 29: {
        Obj o = construct(g);
        if (v.size() < 5)
          v.push_back(o);
        else
          v[at] = o;
        break;
      }
    }
    for (size_t i = 0; i < v.size(); i++) compare(*v[i].s, v[i].m, i == at || g.chance(0.2));
  }
  Obj& o = v[0];
  rep().eval(Hash().m(o.m.X).m(o.m.Th).m(o.m.P).d(o.m.t).h);
  rep().count("state operations", ops);
  std::ostringstream out;
  out << *o.s;
}
// Growing and shrinking the covariance alone
static void partial(Rng& g) {
  Obj o = construct(g);
  for (int k = 0; k < 6; k++) {
    int dp = int(o.m.P.cols());
    if (g.chance(0.5) || dp < 21) {
      g_op = "add_aug_cov";
      Matrix3d c = tm(g);
      o.m.P = withGap(o.m.P, dp, 3);
      o.m.P.block(dp, dp, 3, 3) = c;
      o.s->add_aug_cov(c);
    } else {
      g_op = "del_aug_cov";
      int i = g.range(5, dp / 3 + 1);
      o.m.P = without(o.m.P, 3 * i - 6, 3);
      o.s->del_aug_cov(i);
    }
    eq("P", o.s->get_P(), o.m.P);
    eq("noise", o.s->get_continuous_noise_covariance(), o.m.Q);
    for (int i = 3; 3 * i - 3 <= o.m.P.cols(); i++) eq("aug_cov", o.s->get_aug_cov(i), o.m.P.block(3 * i - 6, 3 * i - 6, 3, 3));
  }
  if (o.m.X.cols() > 5) {
    g_op = "del_aug_noise_cov";
    o.m.Q = tmx(g, int(o.m.Q.cols()), int(o.m.Q.cols()));
    o.s->set_continuous_noise_covariance(o.m.Q);
    int i = g.range(5, int(o.m.X.cols()) - 1);
    o.m.Q = without(o.m.Q, 3 * i - 6, 3);
    o.s->del_aug_noise_cov(i);
    eq("noise", o.s->get_continuous_noise_covariance(), o.m.Q);
  }
  VectorXd th = o.m.Th;
  g_op = "add_aug_bias";
  Vector3d b = tv(g);
  o.s->add_aug_bias(b);
  VectorXd th2(th.size() + 3);
  th2 << th, b;
  eq("theta", o.s->get_theta(), th2);
  // biases of augmented states: the i-th belongs to matrix column 5 + i
  RobotState c(*o.s);
  std::vector<Vector3d> aug;
  int na = g.range(1, 6);
  VectorXd th6 = tmx(g, 6, 1);
  c.set_theta(th6);
  for (int i = 0; i < na; i++) {
    aug.push_back(tv(g));
    c.add_aug_bias(aug.back());
  }
  while (!aug.empty()) {
    g_op = "get_aug_bias";
    for (size_t i = 0; i < aug.size(); i++) eq("aug_bias", c.get_aug_bias(5 + int(i)), aug[i]);
    g_op = "del_aug_bias";
    int d = g.below(int(aug.size()));
    c.del_aug_bias(5 + d);
    aug.erase(aug.begin() + d);
    VectorXd w(6 + 3 * int(aug.size()));
    w.head(6) = th6;
    for (size_t i = 0; i < aug.size(); i++) w.segment(6 + 3 * int(i), 3) = aug[i];
    eq("theta", c.get_theta(), w);
  }
  g_op = "copy";
  eq("theta", o.s->get_theta(), th2);
}

// ---------------------------------------------------------------- measurements
struct Head {
  bool set = false;
  uint64_t seq = 0;
  double t = 0;
  std::string id;
};
static void badm(const char* what, const std::string& key, const std::string& msg) { rep().viol(std::string(what) + ":" + key, std::string(what) + " measurement: " + msg); }
static void setHead(Rng& g, Measurement& m, Head& h) {
  switch (g.below(3)) {
    case 0:
      h.t = val(g);
      m.set_time(h.t);
      break;
    case 1: {
      h.set = true, h.seq = g.next(), h.t = val(g), h.id = fmt("frame%d", g.below(1000));
      if (g.chance(0.1)) h.id = "";
      m.set_header(h.seq, h.t, h.id);
      break;
    }
    default: {
      h.set = true, h.seq = g.next(), h.t = val(g), h.id = fmt("other frame %d", g.below(1000));
      auto x = m.header;
      x.seq = h.seq, x.stamp = h.t, x.frame_id = h.id;
      m.set_header(x);
    }
  }
}
static void chkHead(const char* what, const Measurement& m, const Head& h, MeasurementType ty) {
  if (m.get_type() != ty) badm(what, "type", fmt("type is %d, expected %d", int(m.get_type()), int(ty)));
  if (!sameBits(m.get_time(), h.t)) badm(what, "time", fmt("time reads %.17g, stored %.17g", m.get_time(), h.t));
  if (!sameBits(m.header.stamp, h.t)) badm(what, "time", fmt("header stamp reads %.17g, stored %.17g", m.header.stamp, h.t));
  if (h.set && (m.header.seq != h.seq || m.header.frame_id != h.id)) badm(what, "header", "sequence number or frame differs from what was stored");
}
template <class A, class B>
static void eqm(const char* what, const char* key, const A& got, const B& want) {
  if (!bits(got, want)) badm(what, key, std::string(key) + " reads " + mstr(got) + ", stored " + mstr(want));
}
template <class T>
static Eigen::Matrix<T, 3, 1> valT(Rng& g) {
  Eigen::Matrix<T, 3, 1> v;
  for (int i = 0; i < 3; i++) v[i] = T(g.chance(0.1) ? 0 : tame(g));
  if (g.chance(0.05)) v.setZero();
  return v;
}

template <class T>
struct ImuM {
  ImuMeasurement<T> m;
  Head h;
  Eigen::Matrix<T, 3, 1> w = Eigen::Matrix<T, 3, 1>::Zero(), a = w;
  Eigen::Matrix<T, 4, 1> q{1, 0, 0, 0};    // w x y z
  void step(Rng& g) {
    switch (g.below(4)) {
      case 0: w = valT<T>(g), m.set_angular_velocity(w[0], w[1], w[2]); break;
      case 1: a = valT<T>(g), m.set_lin_acc(a[0], a[1], a[2]); break;
      case 2: {
        Eigen::Quaterniond r = g.quat();
        if (g.chance(0.2)) {
          Vector3d d = g.dir();
          r = g.chance(0.3) ? Eigen::Quaterniond(0, d[0], d[1], d[2]) : Eigen::Quaterniond(-1, 0, 0, 0);
        }
        double sc = 1;
        if (g.chance(0.3)) sc = 1 + (g.chance(0.5) ? 1 : -1) * (g.chance(0.5) ? g.logu(1e-12, 4e-6) : g.logu(6e-6, 0.9));
        if (g.chance(0.02)) sc = 0;
        if (g.chance(0.05)) sc = 1 + g.uni(1, 5);
        Eigen::Matrix<T, 4, 1> x{T(r.w() * sc), T(r.x() * sc), T(r.y() * sc), T(r.z() * sc)};
        double n2 = 0;
        for (int i = 0; i < 4; i++) n2 += double(x[i]) * x[i];
        double lim = std::is_same<T, float>::value ? 5e-7 : 1e-9, off = std::fabs(n2 - 1);
        bool threw = false;
        try {
          m.set_quaternion(x[0], x[1], x[2], x[3]);
        } catch (const std::invalid_argument&) {
          threw = true;
        }
        if (std::fabs(off - 1e-5) > lim) {
          if (threw != (off > 1e-5)) badm("imu", "validation", fmt("a quaternion with squared norm %.9g was %s", n2, threw ? "rejected" : "accepted"));
        }
        if (!threw) q = x;
        rep().count(threw ? "quaternions rejected" : "quaternions accepted");
        break;
      }
      default: setHead(g, m, h);
    }
  }
  void chk() const {
    chkHead("imu", m, h, IMU);
    eqm("imu", "angular_velocity", m.get_angular_velocity(), w);
    eqm("imu", "lin_acc", m.get_lin_acc(), a);
    auto r = m.get_quaternion();
    Eigen::Matrix<T, 4, 1> x{r.w(), r.x(), r.y(), r.z()};
    eqm("imu", "quaternion", x, q);
    LM R = ref::quatR(q[0], q[1], q[2], q[3]);
    auto R_ = m.get_rotation_matrix();
    double e = 0, n2 = 0, tol = std::is_same<T, float>::value ? 2e-6 : 1e-14;
    for (int i = 0; i < 4; i++) n2 += double(q[i]) * q[i];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) e = std::max(e, std::fabs(double(R_(i, j) - R(i, j))));
    if (!(e <= tol + 4 * std::fabs(n2 - 1))) badm("imu", "rotation_matrix", fmt("the rotation matrix deviates from the stored quaternion by %.3g", e));
  }
};
template <class T>
struct VelM {
  VelocityMeasurement<T> m;
  Head h;
  Eigen::Matrix<T, 3, 1> v = Eigen::Matrix<T, 3, 1>::Zero();
  void step(Rng& g) {
    if (g.chance(0.5))
      v = valT<T>(g), m.set_velocity(v[0], v[1], v[2]);
    else
      setHead(g, m, h);
  }
  void chk() const {
    chkHead("velocity", m, h, VELOCITY);
    eqm("velocity", "velocity", m.get_velocity(), v);
    double tol = std::is_same<T, float>::value ? 1e-6 : 1e-14, n = double(v.template cast<double>().norm());
    if (!(std::fabs(m.get_vel_mag() - n) <= tol * n)) badm("velocity", "magnitude", fmt("magnitude %.17g, expected %.17g", m.get_vel_mag(), n));
    Vector3d u = n > 0 ? Vector3d(v.template cast<double>() / n) : Vector3d(Vector3d::Zero());
    if (!((m.get_vel_unit_vec().template cast<double>() - u).norm() <= 3 * tol)) badm("velocity", "unit_vector", "unit vector is " + mstr(m.get_vel_unit_vec()) + ", expected " + mstr(u));
  }
};
template <class T>
struct AngM {
  AngularVelocityMeasurement<T> m;
  Head h;
  Eigen::Matrix<T, 3, 1> v = Eigen::Matrix<T, 3, 1>::Zero();
  void step(Rng& g) {
    if (g.chance(0.5))
      v = valT<T>(g), m.set_angular_velocity(v[0], v[1], v[2]);
    else
      setHead(g, m, h);
  }
  void chk() const {
    chkHead("angular velocity", m, h, ANGULAR_VELOCITY);
    eqm("angular velocity", "angular_velocity", m.get_angular_velocity(), v);
    double tol = std::is_same<T, float>::value ? 1e-6 : 1e-14, n = double(v.template cast<double>().norm());
    if (!(std::fabs(m.get_angular_velocity_magnitude() - n) <= tol * n)) badm("angular velocity", "magnitude", fmt("magnitude %.17g, expected %.17g", m.get_angular_velocity_magnitude(), n));
    Vector3d u = n > 0 ? Vector3d(v.template cast<double>() / n) : Vector3d(Vector3d::Zero());
    if (!((m.get_ang_vel_unit_vec().template cast<double>() - u).norm() <= 3 * tol)) badm("angular velocity", "unit_vector", "unit vector is " + mstr(m.get_ang_vel_unit_vec()) + ", expected " + mstr(u));
  }
};
template <class T>
struct JntM {
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> V;
  JointStateMeasurement<T> m;
  Head h;
  V p, v, e;
  static V rnd(Rng& g) { return tmx(g, g.below(15), 1).template cast<T>(); }
  void step(Rng& g) {
    switch (g.below(3)) {
      case 0: p = rnd(g), v = rnd(g), e = rnd(g), m.set_joint_state(p, v, e); break;
      case 1: p = rnd(g), m.set_encoders(p); break;
      default: setHead(g, m, h);
    }
  }
  void chk() const {
    chkHead("joint state", m, h, JOINT_STATE);
    eqm("joint state", "position", m.get_joint_pos(), p);
    eqm("joint state", "velocity", m.get_joint_vel(), v);
    eqm("joint state", "effort", m.get_joint_effort(), e);
  }
};
typedef Eigen::Matrix<bool, Eigen::Dynamic, 1> VB;
static VB rndB(Rng& g, int n) {
  VB b(n);
  for (int i = 0; i < n; i++) b[i] = g.chance(0.5);
  return b;
}
struct ConM {
  ContactMeasurement m;
  Head h;
  VB c;
  void step(Rng& g) {
    if (g.chance(0.5))
      c = rndB(g, g.below(9)), m.set_contact(c);
    else
      setHead(g, m, h);
  }
  void chk() const {
    chkHead("contact", m, h, CONTACT);
    VB x = m.get_contact();
    bool ok = x.size() == c.size();
    for (int i = 0; ok && i < x.size(); i++) ok = x[i] == c[i];
    if (!ok) badm("contact", "contact", "contact flags differ from what was stored");
  }
};
struct OdoM {
  OdomMeasurement m;
  Head h;
  Vector3d p = Vector3d::Zero();
  Eigen::Quaterniond q = Eigen::Quaterniond::Identity();
  bool dirty = false;
  void step(Rng& g) {
    switch (g.below(4)) {
      case 0: {
        p = tv(g), q = g.quat(), h.set = true, h.seq = g.next(), h.t = val(g), h.id = fmt("odom%d", g.below(9));
        m = OdomMeasurement(p, q, h.seq, h.t, h.id);
        dirty = false;
        break;
      }
      case 1: p = tv(g), m.set_translation(p), m.set_transformation(); break;
      case 2: q = g.quat(), m.set_rotation(q), m.set_transformation(); break;
      default: setHead(g, m, h);
    }
  }
  void chk() const {
    chkHead("odometry", m, h, ODOM);
    Eigen::Matrix4d T = m.get_transformation();
    LM R = ref::quatR(q.w(), q.x(), q.y(), q.z());
    double e = 0;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) e = std::max(e, std::fabs(double(T(i, j) - R(i, j))));
    if (!(e <= 1e-14)) badm("odometry", "rotation", fmt("the rotation deviates from the stored quaternion by %.3g", e));
    eqm("odometry", "translation", T.block<3, 1>(0, 3), p);
    eqm("odometry", "last_row", T.row(3), Eigen::RowVector4d(0, 0, 0, 1));
  }
};
struct Leg : public measurement::LeggedKinematicsMeasurement {
  Eigen::Matrix<double, 3, Eigen::Dynamic> pos, jac;
  int n = 0;
  Leg() = default;
  Leg(const VectorXd& e, const VectorXd& d, const VB& c) : LeggedKinematicsMeasurement(e, d, c) {}
  void ComputeKinematics() override {
    positions_ = pos;
    jacobians_ = jac;
  }
  int get_num_legs() override { return n; }
};
struct LegM {
  Leg m;
  Head h;
  int n = 0, j = 0;    // legs, joints per leg
  VectorXd e;
  VB c;
  bool computed = false;
  void step(Rng& g) {
    int k = n == 0 ? 0 : g.below(5);
    if (k == 0) {
      n = g.range(1, 6), j = g.range(1, 6);
      e = tmx(g, n * j, 1);
      c = rndB(g, n);
      computed = false;
      if (g.chance(0.5)) {
        m = Leg(e, tmx(g, n * j, 1), c);
        h = Head();
      } else {
        m.set_contact(c);
        m.set_joint_state(e);
        m.set_joint_state_velocity(tmx(g, n * j, 1));
      }
      m.n = n;
    } else if (k == 1) {
      e = tmx(g, n * j, 1), m.set_joint_state(e);
    } else if (k == 2) {
      c = rndB(g, n), m.set_contact(c);
    } else if (k == 3) {
      m.pos = tmx(g, 3, n), m.jac = tmx(g, 3, n * j);
      m.ComputeKinematics();
      computed = true;
    } else {
      setHead(g, m, h);
    }
  }
  void chk() {
    chkHead("leg", m, h, LEGGED_KINEMATICS);
    for (int i = 0; i < n; i++)
      if (m.get_contact(i) != c[i]) badm("leg", "contact", fmt("contact of leg %d differs from what was stored", i));
    for (int i = 0; i < n * j; i++)
      if (!sameBits(m.get_joint_state(i), e[i])) badm("leg", "joint_state", fmt("joint %d reads %.17g, stored %.17g", i, m.get_joint_state(i), e[i]));
    if (computed)
      for (int i = 0; i < n; i++) {
        eqm("leg", "position", m.get_kin_pos(i), m.pos.col(i));
        eqm("leg", "jacobian", m.get_J(i), m.jac.block(0, i * j, 3, j));
      }
    eqm("leg", "init_velocity", m.get_init_velocity(Vector3d(1, 2, 3)), Vector3d(Vector3d::Zero()));
  }
};
template <class T>
static void family(Rng& g, const char* name) {
  std::vector<T> v(1);
  v[0].chk();
  int ops = g.chance(0.003) ? int(g.logu(100, 3000)) : g.range(5, 25);
  rep().phase(name);
  for (int k = 0; k < ops; k++) {
    size_t at = g.below(int(v.size()));
    if (g.chance(0.15) && v.size() < 4) {
      T copy = v[at];
      v.push_back(copy);
    } else if (g.chance(0.1)) {
      v[at] = v[g.below(int(v.size()))];
    } else {
      v[at].step(g);
    }
    for (auto& x : v) x.chk();
  }
  Hash hh;
  for (auto& x : v) hh.d(x.m.get_time()).u(x.h.seq);
  rep().eval(hh.u(g.next()).h);
  rep().count(std::string(name) + " operations", ops);
}

static void D01(Rng& g, long) {
  robotStates(g);
  rep().phase("covariance");
  partial(g);
  family<ImuM<double>>(g, "imu");
  family<ImuM<float>>(g, "imu (single precision)");
  family<VelM<double>>(g, "velocity");
  family<VelM<float>>(g, "velocity (single precision)");
  family<AngM<double>>(g, "angular velocity");
  family<AngM<float>>(g, "angular velocity (single precision)");
  family<JntM<double>>(g, "joint state");
  family<JntM<float>>(g, "joint state (single precision)");
  family<ConM>(g, "contact");
  family<OdoM>(g, "odometry");
  family<LegM>(g, "leg");
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"D01", D01}}); }
