// C02: random programs over the public interface, in any order it allows. Run
// under the address and undefined behaviour sanitizers and under memcheck; what
// comes back is read completely and must be defined.
#include <valgrind/memcheck.h>
#include "gyro.hpp"
#include "script.hpp"
#include "drift/kinematics/mini_cheetah_kinematics.h"
using namespace rig;

template <class M>
static void need(const M& m, Hash& h) {    // the whole matrix is readable and defined
  if (m.size()) {
    (void)VALGRIND_CHECK_MEM_IS_DEFINED(m.data(), sizeof(*m.data()) * m.size());
    h.m(m);
  }
}
static void need(double x, Hash& h) {
  (void)VALGRIND_CHECK_MEM_IS_DEFINED(&x, sizeof x);
  h.d(x);
}
static void query(RobotState& s, Hash& h) {
  need(s.get_X(), h), need(s.get_P(), h), need(s.get_theta(), h), need(s.get_Xinv(), h);
  need(s.get_continuous_noise_covariance(), h);
  need(s.get_rotation(), h), need(s.get_velocity(), h), need(s.get_position(), h);
  need(s.get_world_X(), h), need(s.get_world_rotation(), h), need(s.get_world_velocity(), h), need(s.get_world_position(), h);
  need(s.get_body_X(), h), need(s.get_body_rotation(), h), need(s.get_body_velocity(), h), need(s.get_body_position(), h);
  need(s.get_rotation_covariance(), h), need(s.get_velocity_covariance(), h), need(s.get_position_covariance(), h);
  need(s.get_gyroscope_bias(), h), need(s.get_accelerometer_bias(), h);
  need(s.get_gyroscope_bias_covariance(), h), need(s.get_accelerometer_bias_covariance(), h);
  need(s.get_body_angular_velocity(), h), need(s.get_time(), h), need(s.get_propagate_time(), h);
  h.i(s.get_slip_flag()).i(s.get_enable_imu_bias_update()).i(s.dimX()).i(s.dimP()).i(s.dimTheta());
  for (int k = 5; k < s.dimX(); k++) need(MatrixXd(s.get_aug_state(k)), h), need(MatrixXd(s.get_aug_cov(k)), h), need(Vector3d(s.get_vector(k)), h);
}

struct Clk {
  double t;
  double at(Rng& g) { return t + (g.chance(0.7) ? -g.uni(0, 0.05) : g.chance(0.5) ? g.uni(-2, 0) : g.uni(0, 0.3)); }
};
static Vector3d wild(Rng& g) { return g.chance(0.1) ? Vector3d(Vector3d::Zero()) : Vector3d(g.logu(1e-6, 1e3) * g.dir()); }
static void program(Rng& g) {
  rep().phase("C02 estimator program");
  int nv = g.range(0, 3), nl = g.range(0, 2), legs = g.range(1, 6);
  Cfg c = scriptCfg(g, nv, nl);
  c.static_init = g.chance(0.4);
  c.init_size = g.pick(std::vector<int>{0, 0, 1, 2, 5});
  c.use_ori = g.chance(0.5);
  std::string base = rep().work + "/m" + std::to_string(getpid());
  c.log = g.chance(0.25);
  if (c.log) {
    c.pose_log = base + "pose" + (g.chance(0.5) ? ".txt" : "");
    c.vel_log = base + "vel";
    c.log_rate = g.logu(0.1, 1e7);
  }
  for (const char* k : {"static_bias_initialization", "init_bias_size", "use_imu_ori_to_init", "enable_imu_bias_update", "rotation_imu2body", "translation_imu2body", "gyroscope_bias", "accelerometer_bias", "gyroscope_std", "accelerometer_std",
                        "gyroscope_bias_std", "accelerometer_bias_std", "v.correction_time_threshold", "rotation_vel2body", "velocity_scale", "velocity_std", "l.correction_time_threshold", "encoder_std", "kinematics_additive_std", "contact_std",
                        "rotation_std_value", "velocity_std_value", "position_std_value", "pose_log_rate"})
    if (g.chance(0.05)) c.omit.insert(k);
  bool many_init = !c.has("init_bias_size") && c.static_init;    // the default asks for hundreds of samples
  if (many_init) c.omit.erase("init_bias_size");
  auto k = std::make_unique<Rig>(c);
  if (g.chance(0.15)) {    // an estimator without settings of its own
    k->est.reset(new estimator::InekfEstimator());
    k->est->add_imu_propagation(k->iq, k->im, imuYaml(c, base + "d_imu.yaml"));
    size_t a = 0, b = 0;
    for (char x : c.corr) {
      if (x == 'v') k->est->add_velocity_correction(k->vq[a], k->vm[a], velYaml(c, c.v[a], base + "d_vel.yaml")), a++;
      else k->est->add_legged_kinematics_correction(k->lq[b], k->lm_[b], legYaml(c, c.l[b], base + "d_leg.yaml")), b++;
    }
    rep().count("estimators without settings");
  }
  // the gyro filter of the estimator, stepped by its own thread
  IMUQueuePtr raw;
  MutexPtr raw_m;
  AngularVelocityQueuePtr enc;
  MutexPtr enc_m;
  if (g.chance(0.08)) {
    gyro::GCfg gc;
    gc.method = g.pick(std::vector<int>{gyro::BOTH, gyro::ONE_IMU, gyro::ENC});
    gc.stat = gc.method != gyro::ENC && g.chance(0.4);
    gc.size = g.range(0, 4);
    raw = std::make_shared<IMUQueue>(), raw_m = std::make_shared<std::mutex>();
    enc = std::make_shared<AngularVelocityQueue>(), enc_m = std::make_shared<std::mutex>();
    auto o = k->est->add_imu_ang_vel_ekf(raw, raw_m, enc, enc_m, gyro::gyroYaml(gc, base + "g.yaml"));
    k->iq = o.first, k->im = o.second;
    k->est->add_imu_propagation(o.first, o.second, imuYaml(c, base + "g_imu.yaml"));
    rep().count("estimators with a gyro filter");
  }
  Clk ck;
  randT(g, ck.t);
  Hash h;
  std::vector<std::shared_ptr<RobotState>> kept;
  bool real_legs = nl && g.chance(0.2);
  if (real_legs) legs = 4;
  unsigned mask = g.below(1 << legs);
  int n = g.range(10, 120), runs = 0;
  double p_clear = g.pick(std::vector<double>{0, 0.02, 0.1});
  std::string what;
  auto& e = *k->est;
  auto pushImu = [&] {
    if (g.chance(0.9)) ck.t += g.chance(0.05) ? g.uni(0, 2) : g.logu(1e-5, 0.03);
    auto m = imu(ck.t, wild(g) * 0.1, Vector3d(0, 0, 9.8) + wild(g), g.quat());
    if (raw) {
      std::lock_guard<std::mutex> l(*raw_m);
      raw->push(m);
    } else
      k->push(m);
  };
  auto pushLeg = [&](int i) {
    for (int b = 0; b < legs; b++)
      if (g.chance(0.25)) mask ^= 1u << b;
    if (real_legs) {
      Eigen::VectorXd e(12), d(12);
      Eigen::Matrix<bool, Eigen::Dynamic, 1> ct(4);
      for (int j = 0; j < 12; j++) e[j] = g.gauss(), d[j] = g.gauss();
      for (int j = 0; j < 4; j++) ct[j] = (mask >> j) & 1;
      auto l = std::make_shared<measurement::kinematics::MiniCheetahKinematics>(e, d, ct);
      l->set_time(ck.at(g));
      k->push(i, LeggedKinMeasurementPtr(l));
      return;
    }
    auto l = randLegMeas(g, legs, mask, ck.at(g), 0.3);
    l->v0 = g.gvec();
    k->push(i, LeggedKinMeasurementPtr(l));
  };
  auto queuesReady = [&] {
    for (auto& q : k->vq)
      if (q->empty()) return false;
    for (auto& q : k->lq)
      if (q->empty()) return false;
    return true;
  };
  auto emptyImu = [&] {
    std::lock_guard<std::mutex> l(*k->im);
    return k->iq->empty();
  };
  for (int i = 0; i < n; i++) {
    double u = g.uni();
    what.clear();
    if (u < 0.25) {
      pushImu();
    } else if (u < 0.35 && nv) {
      k->push(g.below(nv), vel(ck.at(g), wild(g)));
    } else if (u < 0.45 && nl) {
      pushLeg(g.below(nl));
    } else if (u < 0.5 && enc) {
      std::lock_guard<std::mutex> l(*enc_m);
      enc->push(gyro::angvel(ck.at(g), wild(g)));
    } else if (u < 0.75) {
      rep().phase("C02 RunOnce");
      e.RunOnce();
      runs++;
    } else if (u < 0.8) {
      rep().phase("C02 InitBias");
      e.InitBias();
    } else if (u < 0.87) {
      // waits for a measurement of every correction once there is an inertial sample
      bool live = raw != nullptr;    // then samples arrive at any moment
      if (g.chance(0.5) || live) {
        for (int j = 0; j < nv; j++) k->push(j, vel(ck.at(g), wild(g)));
        for (int j = 0; j < nl; j++) pushLeg(j);
      }
      if (g.chance(0.5)) pushImu();
      if (queuesReady() || (!live && emptyImu())) {
        rep().phase("C02 InitState");
        e.InitState();
      }
    } else if (u < 0.89) {
      rep().phase("C02 EnableFilter");
      e.EnableFilter();
    } else if (u < 0.93) {
      rep().phase("C02 get_state set_state");
      RobotState s = e.get_state();
      query(s, h);
      if (g.chance(0.5)) {
        s.set_rotation(g.rot());
        s.set_velocity(g.gvec());
        s.set_position(g.gvec());
        e.set_state(s);
      }
    } else if (u < 0.93 + p_clear * 0.5) {
      rep().phase("C02 clear");
      e.clear();
      rep().count("resets");
    } else {
      rep().phase("C02 drain");
      auto q = e.get_robot_state_queue_ptr();
      auto m = e.get_robot_state_queue_mutex_ptr();
      std::lock_guard<std::mutex> l(*m);
      int lim = g.range(0, 5);
      while (!q->empty() && lim--) {
        query(*q->front(), h);
        if (g.chance(0.2)) kept.push_back(q->front());
        q->pop();
      }
    }
    h.i(e.is_enabled()).i(e.BiasInitialized());
  }
  rep().phase("C02 end of an estimator");
  auto q = e.get_robot_state_queue_ptr();
  RobotState fin = e.get_state();
  int dim = fin.dimX();
  k->est.reset();
  query(fin, h);
  while (!q->empty()) {    // the buffers outlive the estimator
    query(*q->front(), h);
    q->pop();
  }
  for (auto& s : kept) query(*s, h);
  for (const char* f : {"pose.txt", "vel.txt", "vel_body_frame.txt"}) unlink((base + f).c_str());
  for (int i = 0; i < 40; i++)
    for (const char* f : {"pose_%d.txt", "vel_%d.txt", "vel_body_frame_%d.txt", "vel_%d_body_frame.txt"}) unlink((base + fmt(f, i)).c_str());
  rep().count("estimator programs");
  rep().count("calls", n);
  rep().maxi("columns of the state", dim);
  rep().eval(h.h, runs > 0);
  if (rep().want_sample()) rep().sample(fmt("%d calls on an estimator with %d velocity and %d legged sources of %d legs, logger %d, gyro filter %d, %d columns at the end", n, nv, nl, legs, int(c.log), int(raw != nullptr), dim));
}

static void gyroProgram(Rng& g) {
  rep().phase("C02 gyro program");
  gyro::GCfg c = gyro::genCfg(g);
  if (g.chance(0.1) && c.five) c.method = gyro::MANY_IMU, c.stat = false;
  for (const char* k : {"rotation_imu2body", "flat_ground", "t_threshold", "correction_method", "static_bias_initialization", "ang_vel_bias", "ang_vel_std", "ang_vel_bias_std", "filter_std", "filter_bias_std", "imu_meas_noise_std", "encoder_meas_noise_std"})
    if (g.chance(0.05)) c.omit.insert(k);
  gyro::Real r(c, gyro::gyroYaml(c, rep().work + "/mg.yaml"));
  Hash h;
  auto sc = gyro::genScript(g, c, g.range(5, 150), true);
  bool keep = g.chance(0.3);
  std::vector<ImuMeasurementPtr> kept;
  for (auto& e : sc) {
    if (e.k == 's') r.f->RunOnce();
    else if (e.k == 'c') r.f->clear();
    else gyro::feed(r, e);
    if (g.chance(0.5))
      while (!r.out->empty()) {
        auto m = r.out->front();
        r.out->pop();
        need(m->get_angular_velocity(), h), need(m->get_lin_acc(), h), need(m->get_time(), h);
        auto q = m->get_quaternion();
        need(Eigen::Vector4d(q.coeffs()), h);
        if (keep) kept.push_back(m);
      }
  }
  r.f.reset();
  for (auto& m : kept) need(m->get_angular_velocity(), h), need(m->get_rotation_matrix(), h);
  rep().count("gyro filter programs");
  rep().eval(h.h);
}

static void kinProgram(Rng& g) {
  rep().phase("C02 kinematics program");
  int n = 12;
  Hash h;
  auto fill = [&](auto& v, double s) {
    for (int i = 0; i < n; i++) v[i] = g.chance(0.1) ? 0 : g.gauss() * s;
  };
  Eigen::VectorXd e(n), d(n);
  fill(e, 2), fill(d, 3);
  Eigen::Matrix<bool, Eigen::Dynamic, 1> ct(4);
  for (int i = 0; i < 4; i++) ct[i] = g.chance(0.5);
  std::shared_ptr<measurement::kinematics::MiniCheetahKinematics> m;
  if (g.chance(0.5)) {
    m = std::make_shared<measurement::kinematics::MiniCheetahKinematics>();
    if (g.chance(0.5)) m->set_contact(ct);
    if (g.chance(0.8)) m->set_joint_state(e);
  } else {
    m = std::make_shared<measurement::kinematics::MiniCheetahKinematics>(e, d, ct);
  }
  if (g.chance(0.9)) m->ComputeKinematics();
  h.i(m->get_num_legs());
  for (int i = 0; i < 4; i++) h.i(m->get_contact(i)), need(Vector3d(m->get_kin_pos(i)), h), need(MatrixXd(m->get_J(i)), h);
  need(Vector3d(m->get_init_velocity(g.gvec())), h);
  rep().count("kinematics programs");
  rep().eval(h.h);
}

static void C02(Rng& g, long) {
  double u = g.uni();
  if (u < 0.6) program(g);
  else if (u < 0.85) gyroProgram(g);
  else kinProgram(g);
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"C02", C02}}); }
