// Independent model of the gyro filter: which samples it takes, what it emits.
#pragma once
#include <deque>
#include "rig.hpp"
#include "drift/imu_filter/imu_ang_vel_ekf.h"

namespace gyro {
using namespace vc;
using ref::L;
using ref::LM;
using Eigen::Vector3d;
using namespace measurement;
typedef std::shared_ptr<std::mutex> MutexPtr;
enum { BOTH = 0, ONE_IMU = 1, MANY_IMU = 2, ENC = 3 };

struct GCfg {
  bool five = true;     // constructor that is given the buffers
  int method = BOTH;    // correction_method (decided by the sources otherwise)
  bool gyro = false;    // propagation by a second gyro
  int imus = 1;
  bool flat = false, stat = false;
  int size = 250;
  double thr = 0.03;
  Eigen::Quaterniond q = Eigen::Quaterniond::Identity();
  Vector3d b0 = Vector3d::Zero();
  double wstd = 0.01, bstd = 0.01, qstd = 0.01, qbstd = 0.01, imu_std = 0.1, enc_std = 0.1;
  std::set<std::string> omit;
  bool has(const char* k) const { return !omit.count(k); }
};
inline std::string gyroYaml(const GCfg& c, const std::string& path) {
  rig::Yaml y;
  if (c.has("rotation_imu2body")) y.quat("settings", "rotation_imu2body", c.q);
  if (c.has("flat_ground")) y.flag("settings", "flat_ground", c.flat);
  if (c.has("t_threshold")) y.num("settings", "t_threshold", c.thr);
  if (c.has("correction_method")) y.integer("settings", "correction_method", c.method);
  if (c.has("static_bias_initialization")) y.flag("settings", "static_bias_initialization", c.stat);
  if (c.has("init_bias_size")) y.integer("settings", "init_bias_size", c.size);
  if (c.has("ang_vel_bias")) y.vec("priors", "ang_vel_bias", c.b0);
  if (c.has("ang_vel_std")) y.num("noises", "ang_vel_std", c.wstd);
  if (c.has("ang_vel_bias_std")) y.num("noises", "ang_vel_bias_std", c.bstd);
  if (c.has("filter_std")) y.num("noises", "filter_std", c.qstd);
  if (c.has("filter_bias_std")) y.num("noises", "filter_bias_std", c.qbstd);
  if (c.has("imu_meas_noise_std")) y.num("noises", "imu_meas_noise_std", c.imu_std);
  if (c.has("encoder_meas_noise_std")) y.num("noises", "encoder_meas_noise_std", c.enc_std);
  return y.write(path);
}
inline AngularVelocityMeasurementPtr angvel(double t, const Vector3d& w) {
  auto m = std::make_shared<AngularVelocityMeasurement<double>>();
  m->set_time(t);
  m->set_angular_velocity(w[0], w[1], w[2]);
  return m;
}
inline LM col(const Vector3d& v) {
  LM m(3, 1);
  for (int i = 0; i < 3; i++) m(i) = v[i];
  return m;
}

struct Emit {
  double t;
  Vector3d acc;
  Eigen::Quaterniond q;
  LM w;
  bool enc;
  double scale;
};
struct Model {
  GCfg c;
  std::vector<std::deque<ImuMeasurementPtr>> imu;
  std::deque<ImuMeasurementPtr> gyr;
  std::deque<AngularVelocityMeasurementPtr> enc;
  LM x{6, 1}, P{6, 6}, Q{6, 6}, Ri, Re, Hi{3, 6}, He{3, 6}, RT;
  bool ready = false;
  double last = -1;
  LM prev{3, 1};
  ImuMeasurementPtr latest;
  LM sum{3, 1};
  int n = 0;
  int corrections = 0, dropped = 0, held = 0;
  double scale = 1e-3;    // largest rate so far

  explicit Model(const GCfg& c_) : c(c_), imu(c_.imus) {
    auto sq = [](double v) { return L(v) * L(v); };
    for (int i = 0; i < 3; i++) {
      P(i, i) = sq(c.wstd);
      P(3 + i, 3 + i) = sq(c.bstd);
      Q(i, i) = sq(c.qstd);
      Q(3 + i, 3 + i) = sq(c.qbstd);
      if (!c.stat) x(3 + i) = c.b0[i];
      if (c.flat || i == 2) Hi(i, i) = Hi(i, 3 + i) = He(i, i) = 1;
    }
    Ri = LM(3, 3);
    Re = LM(3, 3);
    for (int i = 0; i < 3; i++) Ri(i, i) = sq(c.imu_std), Re(i, i) = sq(c.enc_std);
    // rotation of the quaternion as given (shipped ones are rounded)
    L w = c.q.w(), a = c.q.x(), b = c.q.y(), d = c.q.z();
    LM R(3, 3);
    R(0, 0) = 1 - 2 * (b * b + d * d), R(0, 1) = 2 * (a * b - w * d), R(0, 2) = 2 * (a * d + w * b);
    R(1, 0) = 2 * (a * b + w * d), R(1, 1) = 1 - 2 * (a * a + d * d), R(1, 2) = 2 * (b * d - w * a);
    R(2, 0) = 2 * (a * d - w * b), R(2, 1) = 2 * (b * d + w * a), R(2, 2) = 1 - 2 * (a * a + b * b);
    RT = R.t();
  }
  void update(const LM& z, const LM& H, const LM& R) {
    LM S = H * P * H.t() + R;
    scale = std::max(scale, double(std::max(z.maxabs(), x.maxabs())));
    LM K = P * H.t() * ref::inverse(S);
    x = x + K * (z - H * x);
    P = (LM::I(6) - K * H) * P;
    corrections++;
  }
  Emit emit(const ImuMeasurementPtr& m, double t, bool e) const {
    return Emit{t, m->get_lin_acc(), m->get_quaternion(), x.block(0, 0, 3, 1), e, scale};
  }
  void imuCorr(const ImuMeasurementPtr& m, std::vector<Emit>& o) {
    update(col(m->get_angular_velocity()), Hi, Ri);
    o.push_back(emit(m, m->get_time(), false));
  }
  std::vector<Emit> step() {
    std::vector<Emit> o;
    if (!ready) {
      if (!c.stat || c.size <= 0) {
        ready = true;
      } else if (n < c.size) {
        if (imu[0].empty()) return o;
        sum = sum + col(imu[0].front()->get_angular_velocity());
        imu[0].pop_front();
        n++;
        if (c.gyro && !gyr.empty()) {
          prev = col(gyr.front()->get_angular_velocity());
          gyr.pop_front();
        }
      } else {
        for (int i = 0; i < 3; i++) x(i) = 0, x(3 + i) = sum(i) / n;
        if (c.gyro) gyr.clear();
        if (c.method == BOTH || c.method == ONE_IMU) imu[0].clear();
        if (c.method == MANY_IMU)
          for (auto& q : imu) q.clear();
        if (c.method == BOTH || c.method == ENC) enc.clear();
        ready = true;
      }
      return o;
    }
    if (c.gyro) {
      if (!gyr.empty()) {
        auto m = gyr.front();
        gyr.pop_front();
        last = m->get_time();
        if (c.method == ENC) latest = m;
        LM z = col(m->get_angular_velocity());
        for (int i = 0; i < 3; i++) x(i) += z(i) - prev(i);
        prev = z;
        P = P + Q;
      }
    } else {
      P = P + Q;
    }
    bool none = last == -1;
    if (c.method == ONE_IMU) {
      if (imu[0].empty()) return o;
      auto m = imu[0].front();
      if (c.gyro && last < m->get_time()) {
        held++;
        return o;
      }
      imu[0].pop_front();
      if (!c.gyro || last - m->get_time() <= c.thr) imuCorr(m, o);
      else dropped++;
    } else if (c.method == MANY_IMU) {
      if (c.five) return o;
      for (auto& q : imu) {
        if (q.empty()) continue;
        auto m = q.front();
        q.pop_front();
        if (none || last - m->get_time() <= c.thr) imuCorr(m, o);
        else dropped++;
      }
    } else {
      ImuMeasurementPtr m;
      AngularVelocityMeasurementPtr e;
      if (c.method == BOTH && !imu[0].empty()) m = imu[0].front();
      if (!enc.empty()) e = enc.front();
      if (m && (!e || m->get_time() <= e->get_time())) {
        imu[0].pop_front();
        latest = m;
        if (none || last - m->get_time() <= c.thr) imuCorr(m, o);
        else dropped++;
      } else if (e) {
        enc.pop_front();
        if (latest && (c.method == ENC || none || last - e->get_time() <= c.thr)) {
          update(RT * col(e->get_angular_velocity()), He, Re);
          o.push_back(emit(latest, e->get_time(), true));
        } else {
          dropped++;
        }
      }
    }
    return o;
  }
};

// The real filter with the queues it was given
struct Real {
  std::vector<IMUQueuePtr> imu;
  std::vector<MutexPtr> imu_m;
  IMUQueuePtr gyr{new IMUQueue};
  MutexPtr gyr_m{new std::mutex};
  AngularVelocityQueuePtr enc{new AngularVelocityQueue};
  MutexPtr enc_m{new std::mutex};
  std::unique_ptr<imu_filter::ImuAngVelEKF> f;
  IMUQueuePtr out;
  MutexPtr out_m;
  Real(const GCfg& c, const std::string& yaml) {
    for (int i = 0; i < c.imus; i++) {
      imu.emplace_back(new IMUQueue);
      imu_m.emplace_back(new std::mutex);
    }
    if (c.five) {
      f.reset(new imu_filter::ImuAngVelEKF(imu[0], imu_m[0], enc, enc_m, yaml));
      if (c.gyro) f->add_gyro_propagate(gyr, gyr_m);
    } else {
      f.reset(new imu_filter::ImuAngVelEKF(yaml));
      if (c.gyro) f->add_gyro_propagate(gyr, gyr_m);
      if (c.method != ENC)
        for (int i = 0; i < c.imus; i++) f->add_imu_correction(imu[i], imu_m[i]);
      if (c.method == BOTH || c.method == ENC) f->add_ang_vel_correction(enc, enc_m);
    }
    out = f->get_filtered_imu_data_buffer_ptr();
    out_m = f->get_filtered_imu_data_buffer_and_mutex_ptr().second;
  }
};
template <class Q, class D>
bool sameQueue(Q q, const D& d) {
  if (q.size() != d.size()) return false;
  for (auto& m : d) {
    if (q.front() != m) return false;
    q.pop();
  }
  return true;
}
// A configuration in which every part is used as documented
inline GCfg genCfg(Rng& g) {
  GCfg c;
  c.five = g.chance(0.4);
  c.gyro = g.chance(0.5);
  if (c.five) {
    c.method = g.pick(std::vector<int>{BOTH, BOTH, ONE_IMU, ENC});
  } else {
    c.method = g.range(0, 3);
    if (c.method == MANY_IMU) c.imus = g.range(2, 4);
  }
  c.flat = g.chance(0.5);
  c.stat = (c.five || c.method != ENC) && g.chance(0.35);
  c.size = g.chance(0.1) ? 0 : g.range(1, 12);
  c.thr = g.pick(std::vector<double>{0.0005, 0.0105, 0.0305, 0.1005});
  c.q = g.chance(0.2) ? Eigen::Quaterniond::Identity() : g.quat();
  c.b0 = g.gvec(0.1);
  for (double* s : {&c.wstd, &c.bstd, &c.qstd, &c.qbstd, &c.imu_std, &c.enc_std}) *s = g.logu(0.01, 1);
  return c;
}
// One event of a workload: a measurement for a queue, a step, or a reset
struct Ev {
  char k;
  int i = 0;
  ImuMeasurementPtr m;
  AngularVelocityMeasurementPtr e;
};
inline std::vector<Ev> genScript(Rng& g, const GCfg& c, int n, bool clears) {
  std::vector<Ev> s;
  long t = g.chance(0.2) ? 1600000000000L + g.range(0, 1000000) : g.range(1, 100000);    // milliseconds
  std::vector<long> ti(c.imus, t);
  long tg = t, te = t;
  double idle = g.pick(std::vector<double>{0.02, 0.3, 0.6}), mag = g.logu(0.01, 10);
  Vector3d w = g.gvec(mag);
  auto im = [&](long ms) { return rig::imu(ms * 1e-3, w + g.gvec(0.1 * mag), g.gvec(10), g.quat()); };
  auto adv = [&](long& x) {    // keeps near the common clock, sometimes stalls or jumps back to it
    if (x < t - 400 || g.chance(0.02)) x = t;
    x += g.chance(0.1) ? 0 : g.range(1, 12);
  };
  for (int k = 0; k < n; k++) {
    if (g.chance(0.2)) t += g.range(1, 10);
    if (g.chance(0.05)) w = g.gvec(mag);
    if (g.chance(0.1 / n)) {    // the filter has fallen far behind
      int m = int(g.logu(20, 600));
      char kind = "ieg"[g.below(3)];
      int src = g.below(std::max(1, c.imus));
      for (int b = 0; b < m && (kind != 'i' || c.imus); b++) {
        Ev e{kind};
        e.i = src;
        adv(kind == 'i' ? ti[src] : kind == 'e' ? te : tg);
        if (kind == 'e') e.e = angvel(te * 1e-3, w + g.gvec(0.1 * mag));
        else e.m = im(kind == 'i' ? ti[src] : tg);
        s.push_back(e);
      }
    }
    double u = g.uni();
    if (clears && g.chance(0.01)) {
      Ev e{'c'};
      s.push_back(e);
    }
    if (u < 0.25) {
      Ev e{'i'};
      e.i = g.below(c.imus);
      adv(ti[e.i]);
      e.m = im(ti[e.i]);
      s.push_back(e);
    } else if (u < 0.4) {
      Ev e{'e'};
      adv(te);
      e.e = angvel(te * 1e-3, w + g.gvec(0.1 * mag));
      s.push_back(e);
    } else if (u < 0.55) {
      Ev e{'g'};
      adv(tg);
      e.m = im(tg);
      s.push_back(e);
    }
    if (u >= 0.55 || g.chance(idle)) s.push_back(Ev{'s'});
  }
  return s;
}
inline void feed(Model& m, const Ev& e) {
  if (e.k == 'i') m.imu[e.i].push_back(e.m);
  if (e.k == 'g') m.gyr.push_back(e.m);
  if (e.k == 'e') m.enc.push_back(e.e);
}
inline void feed(Real& r, const Ev& e) {
  if (e.k == 'i') {
    std::lock_guard<std::mutex> l(*r.imu_m[e.i]);
    r.imu[e.i]->push(e.m);
  }
  if (e.k == 'g') {
    std::lock_guard<std::mutex> l(*r.gyr_m);
    r.gyr->push(e.m);
  }
  if (e.k == 'e') {
    std::lock_guard<std::mutex> l(*r.enc_m);
    r.enc->push(e.e);
  }
}
inline double rateErr(const Emit& e, const ImuMeasurementPtr& o) {
  double d = 0;
  for (int i = 0; i < 3; i++) {
    double x = o->get_angular_velocity()[i];
    d = std::max(d, x == x ? std::fabs(double(L(x) - e.w(i))) : INFINITY);
  }
  return d / (1e-7 * e.scale);    // <= 1 is agreement
}
}    // namespace gyro
