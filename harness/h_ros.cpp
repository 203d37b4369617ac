// R01/R02: the real ROS bridge classes over an in-process message bus (ros_stub).
#include "vcommon.hpp"
#include "ref.hpp"
#include <fstream>
#include <thread>
#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"
using namespace vc;
using ref::L;
using ref::LM;
using Eigen::Matrix3d;
using Eigen::Vector3d;
typedef std::shared_ptr<std::mutex> Mx;

// ------------------------------------------------------------------------ R01
struct Val {
  L v, tol;
};
struct Want {
  uint64_t seq;
  uint32_t sec, nsec;
  std::string frame;
  std::vector<Val> v;
};
struct Got {
  uint64_t seq;
  double t;
  std::string frame;
  std::vector<double> v;
  MeasurementType type;
};
// a queue under observation
struct Tap {
  std::string name;
  MeasurementType type;
  Mx mx;
  std::function<size_t()> size;
  std::function<Got()> pop;
  std::deque<Want> want;
  std::mutex* raw() { return mx.get(); }
};
typedef std::shared_ptr<Tap> TapP;
struct Send {    // one message: how to deliver it and what must come of it, per tap
  std::function<int()> deliver;
  std::function<void()> post;    // empty if it can only be delivered at once
  std::vector<std::vector<Want>> want;
  bool malformed = false;
};
struct Source {
  std::string kind;
  std::vector<TapP> taps;
  std::function<Send(Rng&)> make;
};

template <class Q>
static std::function<size_t()> sizer(Q q) {
  return [q] { return q->size(); };
}
template <class M>
static Got head(const M& m) {
  Got g;
  g.seq = m.header.seq;
  g.t = m.get_time();
  g.frame = m.header.frame_id;
  g.type = m.get_type();
  return g;
}
static TapP velTap(const std::string& n, VelocityQueuePtr q, Mx mx) {
  auto t = std::make_shared<Tap>();
  t->name = n;
  t->type = VELOCITY;
  t->mx = mx;
  t->size = sizer(q);
  t->pop = [q] {
    auto m = q->front();
    q->pop();
    Got g = head(*m);
    Vector3d v = m->get_velocity();
    g.v = {v[0], v[1], v[2]};
    return g;
  };
  return t;
}
static TapP angTap(const std::string& n, AngularVelocityQueuePtr q, Mx mx) {
  auto t = std::make_shared<Tap>();
  t->name = n;
  t->type = ANGULAR_VELOCITY;
  t->mx = mx;
  t->size = sizer(q);
  t->pop = [q] {
    auto m = q->front();
    q->pop();
    Got g = head(*m);
    Vector3d v = m->get_angular_velocity();
    g.v = {v[0], v[1], v[2]};
    return g;
  };
  return t;
}
static TapP imuTap(const std::string& n, IMUQueuePtr q, Mx mx) {
  auto t = std::make_shared<Tap>();
  t->name = n;
  t->type = IMU;
  t->mx = mx;
  t->size = sizer(q);
  t->pop = [q] {
    auto m = q->front();
    q->pop();
    Got g = head(*m);
    Vector3d w = m->get_angular_velocity(), a = m->get_lin_acc();
    Eigen::Quaterniond o = m->get_quaternion();
    g.v = {w[0], w[1], w[2], a[0], a[1], a[2], o.w(), o.x(), o.y(), o.z()};
    return g;
  };
  return t;
}
static const Vector3d kW[4] = {Vector3d(0, 0, 0), Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(0.3, -0.4, 0.5)};
static TapP legTap(const std::string& n, LeggedKinQueuePtr q, Mx mx) {
  auto t = std::make_shared<Tap>();
  t->name = n;
  t->type = LEGGED_KINEMATICS;
  t->mx = mx;
  t->size = sizer(q);
  t->pop = [q] {
    auto m = q->front();
    q->pop();
    Got g = head(*m);
    for (int i = 0; i < 4; i++) g.v.push_back(m->get_contact(i) ? 1 : 0);
    for (int i = 0; i < 12; i++) g.v.push_back(m->get_joint_state(i));
    for (auto& w : kW) {    // joint rates can only be seen through the start velocity
      Vector3d v = m->get_init_velocity(w);
      for (int k = 0; k < 3; k++) g.v.push_back(v[k]);
    }
    m->ComputeKinematics();
    for (int i = 0; i < 4; i++) {
      Vector3d p = m->get_kin_pos(i);
      for (int k = 0; k < 3; k++) g.v.push_back(p[k]);
    }
    return g;
  };
  return t;
}

static void stamp(Rng& g, std_msgs::Header& h, uint32_t& seq) {
  h.seq = g.chance(0.9) ? seq++ : uint32_t(g.next());
  double u = g.uni();
  if (u < 0.05)
    h.stamp = ros::Time(0, g.below(3));
  else if (u < 0.3)
    h.stamp = ros::Time(uint32_t(g.below(1000)), uint32_t(g.below(1000000000)));
  else if (u < 0.9)
    h.stamp = ros::Time(1600000000u + uint32_t(g.below(200000000)), uint32_t(g.below(1000000000)));
  else
    h.stamp = ros::Time(uint32_t(g.next()), g.chance(0.3) ? 999999999u - g.below(3) : uint32_t(g.below(1000000000)));
  static const char* fr[] = {"", "odom", "/base_link", "imu_link", "a b \"c\"", "camera_optical_frame_with_a_long_name"};
  h.frame_id = fr[g.below(6)];
}
static double val(Rng& g) {
  double u = g.uni();
  if (u < 0.1) return 0;
  if (u < 0.2) return -0.0;
  if (u < 0.75) return g.gauss() * 3;
  if (u < 0.9) return (g.chance(0.5) ? 1 : -1) * g.logu(1e-12, 1e9);
  return g.range(-5, 5);
}
static Want base(const std_msgs::Header& h) { return {h.seq, h.stamp.sec, h.stamp.nsec, h.frame_id, {}}; }
static Val ex(L v) { return {v, 0}; }
static Val nr(L v, L mag) { return {v, 2e-15L * mag + 1e-300L}; }

static sensor_msgs::Imu randImu(Rng& g, uint32_t& seq, bool& bad, Want& w) {
  sensor_msgs::Imu m;
  stamp(g, m.header, seq);
  m.angular_velocity = {val(g), val(g), val(g)};
  m.linear_acceleration = {val(g), val(g), val(g)};
  for (auto& x : m.angular_velocity_covariance) x = g.uni();
  for (auto& x : m.linear_acceleration_covariance) x = g.uni();
  for (auto& x : m.orientation_covariance) x = g.uni();
  bad = false;
  if (g.chance(0.35)) {
    m.orientation = {0, 0, 0, 0};
  } else {
    Eigen::Quaterniond q = g.quat();
    if (g.chance(0.3)) q = Eigen::Quaterniond(Eigen::AngleAxisd(g.chance(0.5) ? M_PI : M_PI / 2, g.dir()));
    double s = 1;
    if (g.chance(0.12)) {
      s = g.chance(0.5) ? g.uni(0.02, 0.9) : g.uni(1.1, 50);
      bad = true;
    }
    m.orientation = {s * q.x(), s * q.y(), s * q.z(), s * q.w()};
  }
  w = base(m.header);
  w.v = {ex(m.angular_velocity.x), ex(m.angular_velocity.y), ex(m.angular_velocity.z),
         ex(m.linear_acceleration.x), ex(m.linear_acceleration.y), ex(m.linear_acceleration.z)};
  auto& o = m.orientation;
  if (o.w == 0 && o.x == 0 && o.y == 0 && o.z == 0)
    for (double x : {1., 0., 0., 0.}) w.v.push_back(ex(x));
  else
    for (double x : {o.w, o.x, o.y, o.z}) w.v.push_back({x, 1e-14L});
  return m;
}
static sensor_msgs::JointState randJoint(Rng& g, uint32_t& seq, int n, int np) {
  sensor_msgs::JointState m;
  stamp(g, m.header, seq);
  for (int i = 0; i < n; i++) m.velocity.push_back(val(g));
  for (int i = 0; i < np; i++) m.position.push_back(g.uni(-3, 3));
  int ne = g.below(3) * 4;
  for (int i = 0; i < ne; i++) m.effort.push_back(val(g));
  for (int i = 0; i < std::max(n, np) && g.chance(0.8); i++) m.name.push_back("j" + std::to_string(i));
  return m;
}

struct OdomState {
  bool have = false;
  LM T;
  L t = 0;
  uint64_t ns = 0;
  L pm = 0;
};
struct World {
  ros::NodeHandle nh;
  std::unique_ptr<ros_wrapper::ROSSubscriber> sub;
  std::vector<Source> src;
};
template <class M>
static boost::shared_ptr<const M> share(const M& m) { return boost::make_shared<M>(m); }
template <class M>
static void simple(Send& s, const std::string& topic, const M& m) {
  auto p = share(m);
  s.deliver = [topic, p] { return ros::stub::bus().deliver<M>(topic, p); };
  s.post = [topic, p] { ros::stub::bus().post<M>(topic, p); };
}

static Source makeSource(Rng& g, ros_wrapper::ROSSubscriber& sub, int id) {
  Source s;
  std::string tp = "/src" + std::to_string(id) + "/data", tp2 = "/src" + std::to_string(id) + "/more";
  auto seq = std::make_shared<uint32_t>(g.chance(0.5) ? 0 : uint32_t(g.next()));
  int kind = g.below(10);
  std::string nm = "source " + std::to_string(id);
  if (kind == 0) {
    s.kind = "imu";
    auto [q, mx] = sub.AddIMUSubscriber(tp);
    s.taps = {imuTap(nm + " (imu)", q, mx)};
    s.make = [tp, seq](Rng& g) {
      Send o;
      Want w;
      auto m = randImu(g, *seq, o.malformed, w);
      o.want.resize(1);
      if (!o.malformed) o.want[0].push_back(w);
      simple(o, tp, m);
      return o;
    };
  } else if (kind == 1) {
    s.kind = "fetch imu";
    auto [q, mx] = sub.AddFetchIMUSubscriber(tp, tp2);
    s.taps = {imuTap(nm + " (fetch imu)", q, mx)};
    s.make = [tp, tp2, seq](Rng& g) {
      Send o;
      Want w;
      auto m = randImu(g, *seq, o.malformed, w);
      geometry_msgs::Vector3Stamped off;
      uint32_t s2 = 77;
      stamp(g, off.header, s2);
      off.vector = {val(g), val(g), val(g)};
      double of[3] = {off.vector.x, off.vector.y, off.vector.z};
      for (int k = 0; k < 3; k++) w.v[k] = nr(w.v[k].v + L(of[k]), std::fabs(w.v[k].v) + std::fabs(L(of[k])));
      o.want.resize(1);
      if (!o.malformed) o.want[0].push_back(w);
      auto a = share(m);
      auto b = share(off);
      o.deliver = [=] { return ros::stub::bus().deliverPair<sensor_msgs::Imu, geometry_msgs::Vector3Stamped>(tp, tp2, a, b); };
      return o;
    };
  } else if (kind == 2 || kind == 3) {
    bool cov = kind == 3;
    s.kind = cov ? "velocity with covariance" : "velocity";
    auto [q, mx] = cov ? sub.AddVelocityWithCovarianceSubscriber(tp) : sub.AddVelocitySubscriber(tp);
    s.taps = {velTap(nm + " (" + s.kind + ")", q, mx)};
    s.make = [tp, seq, cov](Rng& g) {
      Send o;
      geometry_msgs::Twist tw;
      tw.linear = {val(g), val(g), val(g)};
      tw.angular = {val(g), val(g), val(g)};
      Want w;
      if (cov) {
        geometry_msgs::TwistWithCovarianceStamped m;
        stamp(g, m.header, *seq);
        m.twist.twist = tw;
        for (auto& x : m.twist.covariance) x = g.uni();
        w = base(m.header);
        simple(o, tp, m);
      } else {
        geometry_msgs::TwistStamped m;
        stamp(g, m.header, *seq);
        m.twist = tw;
        w = base(m.header);
        simple(o, tp, m);
      }
      w.v = {ex(tw.linear.x), ex(tw.linear.y), ex(tw.linear.z)};
      o.want = {{w}};
      return o;
    };
  } else if (kind >= 4 && kind <= 7) {
    bool fetch = kind >= 6, ang = kind & 1;
    double r = g.chance(0.2) ? g.pick(std::vector<double>{0.1651, 0.0613, 0.33, 1}) : g.logu(1e-2, 2), tw = g.logu(0.05, 3);
    s.kind = std::string(fetch ? "fetch wheels" : "four wheels") + (ang ? " with turn rate" : "");
    if (ang) {
      auto t = fetch ? sub.AddDifferentialDriveVelocitySubscriber_Fetch(tp, r, tw) : sub.AddDifferentialDriveVelocitySubscriber(tp, r, tw);
      s.taps = {velTap(nm + " (" + s.kind + ")", std::get<0>(t), std::get<1>(t)), angTap(nm + " (" + s.kind + ", angular)", std::get<2>(t), std::get<3>(t))};
    } else {
      auto p = fetch ? sub.AddDifferentialDriveLinearVelocitySubscriber_Fetch(tp, r) : sub.AddDifferentialDriveVelocitySubscriber(tp, r);
      s.taps = {velTap(nm + " (" + s.kind + ")", p.first, p.second)};
    }
    s.make = [=](Rng& g) {
      Send o;
      int n = fetch ? g.range(3, 14) : g.range(4, 8);
      if (g.chance(0.1)) {
        n = fetch ? g.below(2) : g.below(4);
        o.malformed = true;
      }
      auto m = randJoint(g, *seq, n, g.chance(0.5) ? n : g.below(15));
      simple(o, tp, m);
      o.want.resize(ang ? 2 : 1);
      if (!o.malformed) {
        auto& v = m.velocity;
        L R = r, vr = fetch ? L(v[1]) * R : (L(v[1]) + L(v[3])) / 2 * R, vl = fetch ? L(v[0]) * R : (L(v[0]) + L(v[2])) / 2 * R;
        L mag = 0;
        for (int i = 0; i < (fetch ? 2 : 4); i++) mag += std::fabs(L(v[i])) * R;
        Want w = base(m.header);
        w.v = {nr((vr + vl) / 2, mag), ex(0), ex(0)};
        o.want[0].push_back(w);
        if (ang) {
          w.v = {ex(0), ex(0), nr((vr - vl) / L(tw), mag / L(tw))};
          o.want[1].push_back(w);
        }
      }
      return o;
    };
  } else if (kind == 8) {
    s.kind = "odometry";
    Vector3d t = g.chance(0.3) ? Vector3d(0, 0, 0) : g.gvec(g.chance(0.5) ? 0.5 : 3);
    Eigen::Quaterniond q0 = g.chance(0.3) ? Eigen::Quaterniond::Identity() : g.quat();
    auto [q, mx] = sub.AddOdom2VelocityCallback(tp, {t[0], t[1], t[2]}, {q0.w(), q0.x(), q0.y(), q0.z()});
    s.taps = {velTap(nm + " (odometry)", q, mx)};
    LM Tob = LM::I(4);
    Tob.put(0, 0, ref::quatR(q0.w(), q0.x(), q0.y(), q0.z()));
    Tob.put(0, 3, ref::v3(t[0], t[1], t[2]));
    L tl = t.norm();
    struct Walk {
      Eigen::Quaterniond q;
      Vector3d p;
      uint64_t ns;
      OdomState st;
    };
    auto wk = std::make_shared<Walk>();
    wk->q = g.quat();
    wk->p = g.gvec(g.chance(0.3) ? 500 : 3);
    wk->ns = (g.chance(0.5) ? 1600000000ull : 5ull) * 1000000000ull + uint64_t(g.below(1000000000));
    s.make = [=](Rng& g) {
      Send o;
      nav_msgs::Odometry m;
      stamp(g, m.header, *seq);
      Walk& k = *wk;
      bool repeat = k.st.have && g.chance(0.06);
      if (!repeat) k.ns += g.chance(0.15) ? uint64_t(g.chance(0.5) ? g.logu(1e-6, 1e-3) * 1e9 : g.logu(3, 1000) * 1e9) : uint64_t(g.logu(1e-3, 3) * 1e9);
      m.header.stamp = ros::Time(uint32_t(k.ns / 1000000000ull), uint32_t(k.ns % 1000000000ull));
      double ang = g.chance(0.15) ? 0 : g.chance(0.3) ? g.logu(1e-9, 1e-2) : g.uni(0, 2.6);
      k.q = k.q * Eigen::Quaterniond(Eigen::AngleAxisd(ang, g.chance(0.5) ? Vector3d(0, 0, g.chance(0.5) ? 1 : -1) : g.dir()));
      k.q.normalize();
      k.p += g.chance(0.15) ? Vector3d(0, 0, 0) : Vector3d(g.gvec(g.logu(1e-3, 3)));
      m.pose.pose.position = {k.p[0], k.p[1], k.p[2]};
      m.pose.pose.orientation = {k.q.x(), k.q.y(), k.q.z(), k.q.w()};
      m.twist.twist.linear = {val(g), val(g), val(g)};
      m.child_frame_id = "child";
      LM T = LM::I(4);
      T.put(0, 0, ref::quatR(k.q.w(), k.q.x(), k.q.y(), k.q.z()));
      T.put(0, 3, ref::v3(k.p[0], k.p[1], k.p[2]));
      o.want.resize(1);
      simple(o, tp, m);
      if (repeat) {
        o.malformed = true;    // no velocity follows from it
        return o;
      }
      if (k.st.have) {
        LM D = ref::ginv(Tob) * ref::ginv(k.st.T) * T * Tob;
        // rotation vector
        L tr = D(0, 0) + D(1, 1) + D(2, 2);
        L sx = D(2, 1) - D(1, 2), sy = D(0, 2) - D(2, 0), sz = D(1, 0) - D(0, 1);
        L sn = std::sqrt(sx * sx + sy * sy + sz * sz) / 2, th = std::atan2(sn, (tr - 1) / 2);
        L f = sn > 1e-15L ? th / sn / 2 : 0.5L;
        LM phi = ref::v3(f * sx, f * sy, f * sz);
        LM p = D.block(0, 3, 3, 1), v = ref::inverse(ref::Gam(phi, 1)) * p;
        L dt = L(k.ns - k.st.ns) * 1e-9L, now = L(k.ns) * 1e-9L;
        L pm = 1 + tl + k.st.pm + L(k.p.norm()), vm = 0;
        for (int i = 0; i < 3; i++) vm = std::max(vm, std::fabs(v(i)));
        L rel = 4 * now * 2.3e-16L / dt + 1e-12L;
        Want w = base(m.header);
        for (int i = 0; i < 3; i++) w.v.push_back({v(i) / dt, (1e-11L * pm + rel * (vm + 1e-12L)) / dt});
        o.want[0].push_back(w);
      }
      k.st.have = true;
      k.st.T = T;
      k.st.ns = k.ns;
      k.st.pm = k.p.norm();
      return o;
    };
  } else {
    s.kind = "legs";
    auto [q, mx] = sub.AddMiniCheetahKinematicsSubscriber(tp, tp2);
    s.taps = {legTap(nm + " (legs)", q, mx)};
    s.make = [=](Rng& g) {
      Send o;
      custom_sensor_msgs::ContactArray c;
      stamp(g, c.header, *seq);
      int nc = g.range(4, 6), nj = g.range(12, 16), nv = g.range(12, 16);
      if (g.chance(0.15)) {
        int k = g.below(3);
        (k == 0 ? nc : k == 1 ? nj : nv) = k == 0 ? g.below(4) : g.below(12);
        o.malformed = true;
      }
      for (int i = 0; i < nc; i++) {
        custom_sensor_msgs::Contact x;
        x.id = g.chance(0.7) ? i : g.below(9);
        x.indicator = g.chance(0.5);
        c.contacts.push_back(x);
      }
      uint32_t s2 = 5;
      auto m = randJoint(g, s2, nv, nj);
      for (auto& x : m.velocity) x = g.gauss() * 4;
      o.want.resize(1);
      if (!o.malformed) {
        Want w = base(c.header);
        for (int i = 0; i < 4; i++) w.v.push_back(ex(c.contacts[i].indicator ? 1 : 0));
        for (int i = 0; i < 12; i++) w.v.push_back(ex(m.position[i]));
        // the same data given to a measurement directly (K03 judges that)
        Eigen::Matrix<double, Eigen::Dynamic, 1> e(12), d(12);
        Eigen::Matrix<bool, Eigen::Dynamic, 1> ct(4);
        for (int i = 0; i < 12; i++) e[i] = m.position[i], d[i] = m.velocity[i];
        for (int i = 0; i < 4; i++) ct[i] = c.contacts[i].indicator;
        kinematics::MiniCheetahKinematics k(e, d, ct);
        for (auto& om : kW) {
          Vector3d v = k.get_init_velocity(om);
          for (int j = 0; j < 3; j++) w.v.push_back({v[j], 1e-9L * (1 + d.norm())});
        }
        k.ComputeKinematics();
        for (int i = 0; i < 4; i++) {
          Vector3d p = k.get_kin_pos(i);
          for (int j = 0; j < 3; j++) w.v.push_back({p[j], 1e-12L});
        }
        o.want[0].push_back(w);
      }
      auto a = share(c);
      auto b = share(m);
      o.deliver = [=] { return ros::stub::bus().deliverPair<custom_sensor_msgs::ContactArray, sensor_msgs::JointState>(tp, tp2, a, b); };
      return o;
    };
  }
  return s;
}

// Compares what came out of a queue with what was expected of it
static bool compare(Tap& t, const Got& g, Hash& h, const std::string& kind) {
  if (t.want.empty()) {
    rep().viol("R01:extra:" + kind, fmt("%s: a measurement (time %.9f) that no message stands for", t.name.c_str(), g.t));
    return false;
  }
  Want w = t.want.front();
  t.want.pop_front();
  L tt = L(w.sec) + L(w.nsec) * 1e-9L;
  L tol = 2 * 2.3e-16L * tt + 1e-10L;
  h.d(g.t);
  for (double x : g.v) h.d(x);
  if (g.type != t.type) {
    rep().viol("R01:type:" + kind, fmt("%s: measurement type %d, expected %d", t.name.c_str(), int(g.type), int(t.type)));
    return false;
  }
  if (std::fabs(L(g.t) - tt) > tol) {
    rep().viol("R01:time:" + kind, fmt("%s: time %.12g for the stamp %u.%09u", t.name.c_str(), g.t, w.sec, w.nsec));
    return false;
  }
  if (g.seq != w.seq || g.frame != w.frame) {
    rep().viol("R01:header:" + kind, fmt("%s: header (seq %lu, frame '%s'), sent (seq %lu, frame '%s')", t.name.c_str(), (unsigned long)g.seq, g.frame.c_str(), (unsigned long)w.seq, w.frame.c_str()));
    return false;
  }
  for (size_t i = 0; i < w.v.size(); i++) {
    L d = std::fabs(L(g.v[i]) - w.v[i].v);
    if (!(d <= w.v[i].tol)) {
      rep().viol("R01:value:" + kind, fmt("%s: value %d is %.17g, expected %.17g +- %.2g", t.name.c_str(), int(i), g.v[i], double(w.v[i].v), double(w.v[i].tol)));
      return false;
    }
    if (w.v[i].tol > 1e-290L) rep().maxi("deviation_over_allowance:" + kind, double(d / w.v[i].tol));
  }
  return true;
}

static void R01(Rng& g, long) {
  auto& bus = ros::stub::bus();
  bus.reset();
  rep().phase("R01 add sources");
  World w;
  w.sub.reset(new ros_wrapper::ROSSubscriber(&w.nh));
  int ns = g.range(1, 8);
  for (int i = 0; i < ns; i++) w.src.push_back(makeSource(g, *w.sub, i));
  Hash h;
  bool ok = true;
  if (!g.chance(0.08)) {
    bool flood = g.chance(0.004);    // thousands of messages, and a consumer far behind
    int n = flood ? int(g.logu(300, 6000)) : g.range(5, 60);
    double pdrain = !flood ? 0.3 : g.chance(0.5) ? 0 : g.logu(1e-3, 0.3);
    if (flood) rep().count("floods");
    for (int i = 0; i < n && ok; i++) {
      int k = g.below(ns);
      Source& s = w.src[k];
      Send m = s.make(g);
      rep().phase("R01 deliver " + s.kind);
      std::vector<std::pair<Tap*, size_t>> before;
      for (auto& o : w.src)
        for (auto& t : o.taps) before.push_back({t.get(), t->size()});
      int n;
      if (g.chance(flood ? 0.0005 : 0.01)) {    // while the consumer holds the queue's lock nothing may change
        Tap& t = *s.taps[g.below(int(s.taps.size()))];
        t.raw()->lock();
        size_t sz = t.size();
        std::thread th([&] { n = m.deliver(); });
        std::this_thread::sleep_for(std::chrono::milliseconds(3));
        if (t.size() != sz) {
          rep().viol("R01:lock:" + s.kind, fmt("%s: the queue changed while its lock was held", t.name.c_str()));
          ok = false;
        }
        t.raw()->unlock();
        th.join();
        rep().count("deliveries under a held lock");
      } else {
        n = m.deliver();
      }
      if (n != 1) {
        rep().viol("R01:subscription:" + s.kind, fmt("source %d (%s): %d receivers of its topic with its message type", k, s.kind.c_str(), n));
        return;
      }
      for (size_t j = 0; j < s.taps.size(); j++)
        for (auto& x : m.want[j]) s.taps[j]->want.push_back(x);
      size_t b = 0;
      for (int q = 0; q < ns; q++)
        for (size_t j = 0; j < w.src[q].taps.size(); j++, b++) {
          size_t d = q == k ? m.want[j].size() : 0;
          size_t now = before[b].first->size();
          if (now != before[b].second + d) {
            rep().viol(std::string(q != k ? "R01:crosstalk:" : m.malformed ? "R01:malformed:" : "R01:count:") + s.kind,
                       fmt("a %s message for source %d changed the queue of %s from %d to %d (expected %d)%s", s.kind.c_str(), k, before[b].first->name.c_str(),
                           int(before[b].second), int(now), int(before[b].second + d), m.malformed ? "; the message lacks data" : ""));
            ok = false;
          }
        }
      rep().count(m.malformed ? "malformed or void messages" : "messages");
      rep().count("messages: " + s.kind);
      if (g.chance(pdrain) || i + 1 == n)
        for (auto& o : w.src)
          for (auto& t : o.taps)
            while (ok && t->size() > 0) ok = compare(*t, t->pop(), h, o.kind);
    }
    for (auto& o : w.src)
      for (auto& t : o.taps) {
        while (ok && t->size() > 0) ok = compare(*t, t->pop(), h, o.kind);
        if (ok && !t->want.empty()) rep().viol("R01:lost:" + o.kind, fmt("%s: %d measurements missing", t->name.c_str(), int(t->want.size())));
      }
    rep().eval(h.h);
    if (rep().want_sample()) rep().sample(fmt("%d sources, %d messages, first source: %s", ns, n, w.src[0].kind.c_str()));
    return;
  }
  // Spinner threads, several posting threads and a consumer at once
  rep().phase("R01 threads");
  std::vector<std::vector<Send>> plan(ns);
  long posted = 0;
  for (int i = 0; i < ns; i++) {
    int n = g.range(10, 60);
    for (int j = 0; j < n; j++) {
      plan[i].push_back(w.src[i].make(g));
      Send& m = plan[i].back();
      if (m.post) posted++;
      for (size_t q = 0; q < w.src[i].taps.size(); q++)
        for (auto& x : m.want[q]) w.src[i].taps[q]->want.push_back(x);
    }
  }
  w.sub->StartSubscribingThread();
  std::atomic<bool> done{false};
  std::vector<std::vector<std::vector<Got>>> got(ns);
  for (int i = 0; i < ns; i++) got[i].resize(w.src[i].taps.size());
  auto drain = [&](Rng& r, bool all) {
    for (int i = 0; i < ns; i++)
      for (size_t q = 0; q < w.src[i].taps.size(); q++) {
        Tap& t = *w.src[i].taps[q];
        std::lock_guard<std::mutex> l(*t.raw());
        while (t.size() > 0 && (all || r.chance(0.7))) got[i][q].push_back(t.pop());
      }
  };
  std::thread consumer([&, seed = g.next()] {
    Rng r(seed);
    while (!done) {
      drain(r, false);
      std::this_thread::yield();
    }
  });
  std::vector<std::thread> post;
  for (int i = 0; i < ns; i++)
    post.emplace_back([&, i, seed = g.next()] {
      Rng r(seed);
      for (auto& m : plan[i]) {
        if (m.post)
          m.post();
        else
          m.deliver();
        if (r.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
      }
    });
  for (auto& t : post) t.join();
  auto t0 = std::chrono::steady_clock::now();
  bool all = false;
  while (!all && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60)) {
    {
      std::lock_guard<std::mutex> l(bus.m);
      all = bus.delivered >= posted;
    }
    std::this_thread::yield();
  }
  if (!all) {
    rep().viol("R01:spin", "messages are not processed 60 s after they arrived");
    rep().finish();
    _exit(0);
  }
  done = true;
  consumer.join();
  drain(g, true);
  bus.shutdown();
  rep().phase("R01 shutdown");
  w.sub.reset();
  for (int i = 0; i < ns; i++)
    for (size_t q = 0; q < w.src[i].taps.size(); q++) {
      Tap& t = *w.src[i].taps[q];
      for (auto& x : got[i][q])
        if (ok) ok = compare(t, x, h, w.src[i].kind);
      if (ok && !t.want.empty()) rep().viol("R01:lost:" + w.src[i].kind, fmt("%s: %d measurements missing", t.name.c_str(), int(t.want.size())));
    }
  rep().count("threaded sessions");
  rep().eval(h.h);
}

// ------------------------------------------------------------------------ R02
typedef std::shared_ptr<RobotState> StateP;
static StateP randState(Rng& g, double t) {
  int k = g.below(4);
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(5 + k, 5 + k);
  X.block<3, 3>(0, 0) = g.rot();
  double s = g.chance(0.8) ? 10 : g.logu(1e-6, 1e6);
  for (int i = 3; i < 5 + k; i++) X.block<3, 1>(0, i) = g.gvec(s);
  int n = 15 + 3 * k;
  Eigen::MatrixXd A(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) A(i, j) = g.gauss();
  Eigen::MatrixXd P = g.logu(1e-8, 10) * (A * A.transpose());
  if (g.chance(0.1)) P = A;    // every entry distinct
  auto st = std::make_shared<RobotState>(X, Eigen::Matrix<double, 6, 1>(Eigen::Matrix<double, 6, 1>::Random()), P);
  st->set_time(t);
  return st;
}
struct PubCfg {
  bool file;
  std::string pose_topic = "/robot/inekf_estimation/pose", path_topic = "/robot/inekf_estimation/path", frame = "/odom";
  double pose_rate = 1000, path_rate = 10;
  int ratio = 100;
};
static double poseTimeErr(const ros::Time& a, double t) { return std::fabs(double(L(a.sec) + L(a.nsec) * 1e-9L - L(t))); }
static bool checkPose(const geometry_msgs::Pose& p, const std_msgs::Header& h, const RobotState& s, const PubCfg& c, uint32_t seq, const char* what) {
  std::string k = std::string("R02:") + what;
  double t = s.get_time();
  if (h.seq != seq) {
    rep().viol(k + ":seq", fmt("sequence number %u, expected %u", h.seq, seq));
    return false;
  }
  if (h.frame_id != c.frame) {
    rep().viol(k + ":frame", "frame '" + h.frame_id + "', configured '" + c.frame + "'");
    return false;
  }
  if (poseTimeErr(h.stamp, t) > 1.01e-9 + 4e-16 * t) {
    rep().viol(k + ":time", fmt("stamp %u.%09u for the time %.10f", h.stamp.sec, h.stamp.nsec, t));
    return false;
  }
  Vector3d q(p.position.x, p.position.y, p.position.z), w = s.get_world_position();
  for (int i = 0; i < 3; i++)
    if (std::fabs(q[i] - w[i]) > 4e-16 * std::fabs(w[i])) {
      rep().viol(k + ":position", "published " + mstr(q.transpose(), 17) + ", estimated " + mstr(w.transpose(), 17));
      return false;
    }
  auto& o = p.orientation;
  double n = std::sqrt(o.w * o.w + o.x * o.x + o.y * o.y + o.z * o.z);
  Matrix3d R = ref::dbl(ref::quatR(o.w, o.x, o.y, o.z)), W = s.get_world_rotation();
  double d = (R - W).cwiseAbs().maxCoeff();
  if (!(std::fabs(n - 1) < 1e-9) || !(d < 1e-8)) {
    rep().viol(k + ":orientation", fmt("published quaternion (norm %.12g) is off by %.3g from the estimated rotation", n, d));
    return false;
  }
  rep().maxi("orientation_error", d);
  return true;
}
struct Model {
  uint32_t seq = 0, path_seq = 0;
  std::vector<std::pair<StateP, uint32_t>> poses;    // of the path
};
static bool checkPoseMsg(const ros::stub::Out& o, const StateP& st, const PubCfg& c, Model& m) {
  auto& p = *boost::static_pointer_cast<const geometry_msgs::PoseWithCovarianceStamped>(o.msg);
  if (!checkPose(p.pose.pose, p.header, *st, c, m.seq, "pose")) return false;
  const int idx[6] = {6, 7, 8, 0, 1, 2};
  Eigen::MatrixXd P = st->get_P();
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) {
      double got = p.pose.covariance[i * 6 + j], want = P(idx[i], idx[j]), alt = P(idx[j], idx[i]);
      // symmetric as far as the covariance is
      if (std::fabs(got - want) > 4e-16 * std::fabs(want) && std::fabs(got - (want + alt) / 2) > 4e-16 * (std::fabs(want) + std::fabs(alt))) {
        rep().viol("R02:covariance", fmt("covariance (%d,%d) is %.17g, the estimate's is %.17g", i, j, got, want));
        return false;
      }
    }
  m.seq++;
  if (m.seq % uint32_t(c.ratio) == 0) m.poses.push_back({st, m.seq - 1});
  return true;
}
static bool checkPathMsg(const ros::stub::Out& o, const PubCfg& c, Model& m, size_t lo, size_t hi) {
  auto& p = *boost::static_pointer_cast<const nav_msgs::Path>(o.msg);
  size_t n = p.poses.size();
  if (n == 0 || n < lo || n > hi) {
    rep().viol("R02:path:length", fmt("path of %d poses, expected %d to %d", int(n), int(lo), int(hi)));
    return false;
  }
  if (p.header.seq != m.path_seq || p.header.frame_id != c.frame || p.header.stamp != p.poses.back().header.stamp) {
    rep().viol("R02:path:header", fmt("path header (seq %u, frame '%s', stamp %.9f), expected (seq %u, frame '%s', stamp of the last pose)", p.header.seq, p.header.frame_id.c_str(), p.header.stamp.toSec(), m.path_seq, c.frame.c_str()));
    return false;
  }
  m.path_seq++;
  // earlier poses were checked in earlier paths; still look at all of short ones
  for (size_t i = 0; i < n; i++)
    if (n < 60 || i + 3 > n || i % 17 == 0)
      if (!checkPose(p.poses[i].pose, p.poses[i].header, *m.poses[i].first, c, m.poses[i].second, "path")) return false;
  return true;
}
static void stuck(const char* what) {
  rep().viol("R02:stuck", what);
  rep().finish();
  _exit(0);
}
static void R02(Rng& g, long cs) {
  auto& bus = ros::stub::bus();
  bus.reset();
  PubCfg c;
  c.file = g.chance(0.7);
  ros::NodeHandle nh;
  auto q = std::make_shared<RobotStateQueue>();
  auto mx = std::make_shared<std::mutex>();
  RobotStateQueuePtr qp = q;
  std::unique_ptr<ros_wrapper::ROSPublisher> pub;
  rep().phase("R02 construct");
  bool gated = !g.chance(0.1);
  bus.gated = gated;
  if (c.file) {
    static const int ratios[] = {1, 2, 3, 4, 5, 7, 10, 50, 100};
    c.ratio = ratios[g.below(9)];
    c.path_rate = g.chance(0.7) ? double(g.pick(std::vector<int>{1, 2, 5, 10, 20, 30})) : 0.5 * g.range(1, 9);
    c.pose_rate = c.path_rate * c.ratio;    // exact in binary
    if (g.chance(0.08)) {    // a path that is published more often than poses: every pose is part of it
      c.ratio = 1;
      c.path_rate = c.pose_rate * g.range(2, 20);
    }
    c.pose_topic = fmt("/r%d/pose", g.below(1000));
    c.path_topic = fmt("/r%d/path", g.below(1000));
    c.frame = g.pick(std::vector<std::string>{"/odom", "map", "world", "/a/b"});
    std::string f = rep().work[0] == '/' ? rep().work + "/" : "";
    f += "ros_pub_" + std::to_string(getpid()) + ".yaml";
    std::ofstream y(f);
    y << "publishers:\n  pose_publish_rate: " << c.pose_rate << "\n  path_publish_rate: " << c.path_rate << "\n  pose_publish_topic: \"" << c.pose_topic
      << "\"\n  path_publish_topic: \"" << c.path_topic << "\"\n  pose_frame: \"" << c.frame << "\"\n";
    if (g.chance(0.6)) y << "  enable_slip_publisher: " << (g.chance(0.5) ? "true" : "false") << "\n";
    y.close();
    pub.reset(new ros_wrapper::ROSPublisher(&nh, qp, mx, f));
    unlink(f.c_str());
  } else {
    if (g.chance(0.5))
      pub.reset(new ros_wrapper::ROSPublisher(&nh, qp, mx));
    else
      pub.reset(new ros_wrapper::ROSPublisher(&nh, qp, mx, g.chance(0.5)));
  }
  auto ad = [&](const std::string& t, const std::type_info& ty) {
    auto it = bus.advertised.find(t);
    return it != bus.advertised.end() && *it->second == ty;
  };
  if (!ad(c.pose_topic, typeid(geometry_msgs::PoseWithCovarianceStamped)) || !ad(c.path_topic, typeid(nav_msgs::Path))) {
    rep().viol("R02:topic", "topics of the configuration are not advertised: " + c.pose_topic + ", " + c.path_topic);
    return;
  }
  double t = g.chance(0.5) ? 1.6e9 + g.uni(0, 1e8) : g.uni(0, 100);
  Model m;
  std::deque<StateP> waiting;
  Hash h;
  bool ok = true;
  auto fresh = [&] {
    t += g.chance(0.05) ? 0 : g.logu(1e-4, 0.5);
    auto s = randState(g, t);
    return s;
  };
  auto isPose = [&](const ros::stub::Out& o) { return o.topic == c.pose_topic && *o.type == typeid(geometry_msgs::PoseWithCovarianceStamped); };
  auto isPath = [&](const ros::stub::Out& o) { return o.topic == c.path_topic && *o.type == typeid(nav_msgs::Path); };
  if (gated) {
    rep().phase("R02 gated");
    // states queued before the start must not be lost
    int pre = g.chance(0.5) ? g.below(4) : 0;
    for (int i = 0; i < pre; i++) {
      auto s = fresh();
      waiting.push_back(s);
      q->push(s);
    }
    pub->StartPublishingThread();
    if (!bus.parked(2, 60)) stuck("the publishing threads do not reach their pauses");
    std::shared_ptr<ros::stub::Gate> gp, gq;
    {
      std::lock_guard<std::mutex> l(bus.m);
      for (auto& x : bus.gates) {
        if (x->rate == c.pose_rate && !gp)
          gp = x;
        else if (x->rate == c.path_rate)
          gq = x;
      }
    }
    if (!gp || !gq) {
      std::string s;
      for (auto& x : bus.gates) s += fmt(" %g", x->rate);
      rep().viol("R02:rate", fmt("loop rates%s, configured %g (pose) and %g (path)", s.c_str(), c.pose_rate, c.path_rate));
      bus.shutdown();
      return;
    }
    // With equal rates the two loops cannot be told apart: both are granted together
    bool amb = c.pose_rate == c.path_rate;
    int n = g.range(20, 150) * (c.ratio >= 50 && g.chance(0.5) ? 5 : 1);
    // long journeys, and consumers that have fallen far behind
    bool longRun = !amb && g.chance(0.04);
    size_t most = g.chance(0.05) ? 3000 : 12;
    if (longRun) {
      n = g.range(1500, 4000) * std::min(c.ratio, 3);
      rep().count("long sessions");
    }
    double pathChance = longRun ? 0.003 : 0.15;
    // the first turn of both threads happened concurrently
    auto first = bus.takeOut();
    auto turn = [&](const std::vector<ros::stub::Out>& out, bool pose, bool path) {
      int np = 0, nq = 0;
      size_t lo = m.poses.size();
      bool had = !waiting.empty();
      for (auto& o : out)
        if (isPose(o)) {
          np++;
          if (!pose) {
            rep().viol("R02:pose:extra", "pose published outside its turn");
            return false;
          }
          if (waiting.empty()) {
            rep().viol("R02:pose:empty", "a pose was published although no state was waiting");
            return false;
          }
          if (!checkPoseMsg(o, waiting.front(), c, m)) return false;
          h.m(waiting.front()->get_X());
          waiting.pop_front();
        }
      if (pose && had && np != 1) {
        rep().viol("R02:pose:count", fmt("%d poses published in one turn with a state waiting", np));
        return false;
      }
      if (q->size() != waiting.size()) {
        rep().viol("R02:queue", fmt("%d states left in the queue, expected %d", int(q->size()), int(waiting.size())));
        return false;
      }
      for (auto& o : out)
        if (isPath(o)) {
          nq++;
          if (!path) {
            rep().viol("R02:path:extra", "path published outside its turn");
            return false;
          }
          if (!checkPathMsg(o, c, m, lo, m.poses.size())) return false;
          rep().count("paths");
        } else if (!isPose(o)) {
          rep().viol("R02:topic", "a message on the topic " + o.topic);
          return false;
        }
      // `lo` poses were there before the turn; with both loops running the path may or may not include the newest
      if (path && ((lo > 0 && nq != 1) || (m.poses.empty() && nq))) {
        rep().viol("R02:path:count", fmt("%d paths published in one turn with %d poses", nq, int(lo)));
        return false;
      }
      rep().count("poses", np);
      return true;
    };
    ok = turn(first, true, true);
    for (int i = 0; ok && i < n; i++) {
      int k = g.chance(0.6) ? 1 : g.below(4);
      if (g.chance(0.1)) k = 0;
      if (longRun && waiting.empty()) k = std::max(k, 1);
      if (most > 12 && g.chance(0.01)) k = g.range(100, 1000);
      for (int j = 0; j < k && waiting.size() < most; j++) {
        auto s = fresh();
        waiting.push_back(s);
        std::lock_guard<std::mutex> l(*mx);
        q->push(s);
      }
      bool path = amb || g.chance(pathChance) || (longRun && i == n - 1);
      if (path && !amb) {
        bus.grant(gq);
        if (!bus.parked(2, 60)) stuck("a publishing thread does not come back from its turn");
        ok = turn(bus.takeOut(), false, true);
      } else {
        bus.grant(gp);
        if (amb) bus.grant(gq);
        if (!bus.parked(2, 60)) stuck("a publishing thread does not come back from its turn");
        ok = turn(bus.takeOut(), true, amb);
      }
    }
    if (g.chance(0.05) && ok) {    // while the consumer's lock is held nothing is taken
      auto s = fresh();
      {
        std::lock_guard<std::mutex> l(*mx);
        q->push(s);
        waiting.push_back(s);
        size_t n0 = q->size();
        bus.grant(gp);
        std::this_thread::sleep_for(std::chrono::milliseconds(3));
        if (q->size() != n0) rep().viol("R02:lock", "a state was taken while the queue's lock was held");
      }
      if (!bus.parked(2, 60)) stuck("a publishing thread does not come back from its turn");
    }
  } else {
    rep().phase("R02 free running");
    pub->StartPublishingThread();
    int n = g.range(50, 400);
    std::vector<StateP> sent;
    for (int i = 0; i < n; i++) sent.push_back(fresh());
    std::vector<ros::stub::Out> out;
    std::thread prod([&, seed = g.next()] {
      Rng r(seed);
      for (auto& s : sent) {
        {
          std::lock_guard<std::mutex> l(*mx);
          q->push(s);
        }
        if (r.chance(0.1)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
      }
    });
    prod.join();
    auto t0 = std::chrono::steady_clock::now();
    size_t np = 0, drained = 0;
    for (;;) {
      auto o = bus.takeOut();
      for (auto& x : o) {
        if (isPose(x)) np++;
        // the path thread repeats itself endlessly: keep a few
        if (isPose(x) || out.size() < 20000) out.push_back(x);
      }
      if (np >= sent.size() && ++drained > 5) break;
      if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(60)) stuck("states stay in the queue for 60 s while the publisher runs");
      std::this_thread::yield();
    }
    bus.shutdown();
    rep().phase("R02 shutdown");
    pub.reset();
    size_t k = 0;
    Model mm;
    for (auto& o : out)
      if (isPose(o)) {
        if (k >= sent.size()) {
          rep().viol("R02:pose:empty", "more poses than states");
          break;
        }
        if (!(ok = checkPoseMsg(o, sent[k], c, mm))) break;
        h.m(sent[k]->get_X());
        k++;
      }
    size_t last = 0;
    if (ok)
      for (auto& o : out)
        if (isPath(o)) {
          auto& p = *boost::static_pointer_cast<const nav_msgs::Path>(o.msg);
          if (mm.path_seq > 19000) break;
          if (!checkPathMsg(o, c, mm, std::max<size_t>(1, last), mm.poses.size())) break;
          last = p.poses.size();
          rep().count("paths");
        }
    rep().count("poses", long(k));
    rep().count("free-running sessions");
    rep().eval(h.h);
    return;
  }
  bus.shutdown();
  rep().phase("R02 shutdown");
  pub.reset();
  rep().eval(h.h);
  if (rep().want_sample()) rep().sample(fmt("ratio %d, %u poses, %u paths, %d poses in the path", c.ratio, m.seq, m.path_seq, int(m.poses.size())));
}

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"R01", R01}, {"R02", R02}});
}
