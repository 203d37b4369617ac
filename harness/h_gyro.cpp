// G01, G02: the gyro filter's arithmetic and its handling of the streams.
#include "gyro.hpp"
#include "engine.hpp"
using namespace gyro;
using rig::items;




static std::string cfgName(const GCfg& c) {
  static const char* n[] = {"imu+encoder", "imu", "several imus", "encoder"};
  return std::string(n[c.method]) + (c.gyro ? ", gyro" : "") + (c.flat ? ", flat" : "") + (c.stat ? ", static" : "") + (c.five ? ", buffers" : "");
}
static const char* kind(const GCfg& c) {
  static const char* n[] = {"imu+encoder", "imu", "several imus", "encoder"};
  return n[c.method];
}
// One run of the real filter next to the model.
static void stepped(Rng& g, bool numbers, bool streams) {
  GCfg c = genCfg(g);
  rep().phase(std::string("stepped ") + kind(c));
  std::string y = gyroYaml(c, rep().work + "/" + std::to_string(getpid()) + "_gyro.yaml");
  Real r(c, y);
  Model m(c);
  auto sc = genScript(g, c, g.chance(0.01) ? int(g.logu(3000, 20000)) : g.range(50, 400), streams);
  int emitted = 0, steps = 0;
  bool was_ready = false;
  double worst = 0;
  for (auto& e : sc) {
    if (e.k == 'c') {
      if (!streams) continue;
      r.f->clear();
      for (size_t i = 0; i < r.imu.size() && (c.five || c.method != ENC); i++)
        if (!r.imu[i]->empty()) rep().viol("reset_keeps_samples", cfgName(c) + ": an inertial queue is not empty after clear()");
      if (c.five || c.method == BOTH || c.method == ENC)
        if (!r.enc->empty()) rep().viol("reset_keeps_samples", cfgName(c) + ": the encoder queue is not empty after clear()");
      if (c.gyro && !r.gyr->empty()) rep().viol("reset_keeps_samples", cfgName(c) + ": the gyro queue is not empty after clear()");
      if (!r.out->empty()) rep().viol("reset_keeps_samples", cfgName(c) + ": the output queue is not empty after clear()");
      rep().count("resets");
      if (c.method != ENC || c.five)
        for (auto& q : m.imu) q.clear();
      if (c.gyro) m.gyr.clear();
      if (c.five || c.method == BOTH || c.method == ENC) m.enc.clear();
      continue;
    }
    if (e.k != 's') {
      feed(r, e);
      feed(m, e);
      continue;
    }
    auto want = m.step();
    r.f->RunOnce();
    steps++;
    auto got = items(*r.out);
    while (!r.out->empty()) r.out->pop();
    bool q = sameQueue(*r.gyr, m.gyr) && sameQueue(*r.enc, m.enc);
    for (size_t i = 0; i < r.imu.size(); i++) q = q && sameQueue(*r.imu[i], m.imu[i]);
    if (!q || got.size() != want.size()) {
      if (streams)
        rep().viol(q ? "emission" : "consumption",
                   fmt("%s step %d: %d samples emitted, %d expected; queues imu %d/%d gyro %d/%d encoder %d/%d (left/expected)", cfgName(c).c_str(), steps,
                       int(got.size()), int(want.size()), int(r.imu[0]->size()), int(m.imu[0].size()), int(r.gyr->size()), int(m.gyr.size()), int(r.enc->size()), int(m.enc.size())));
      return;
    }
    if (streams && !got.empty() && !was_ready) rep().viol("emits_before_initialised", cfgName(c) + ": a sample left the filter before it was initialised");
    was_ready = m.ready;
    uint64_t h = 0;
    for (size_t i = 0; i < got.size(); i++) {
      emitted++;
      auto& w = want[i];
      if (!got[i]) {
        rep().viol("emission", cfgName(c) + ": an empty sample was emitted");
        return;
      }
      if (streams) {
        if (got[i]->get_time() != w.t) rep().viol("time", fmt("%s: fused sample carries time %.9f, its source %.9f", cfgName(c).c_str(), got[i]->get_time(), w.t));
        if (got[i]->get_lin_acc() != w.acc) rep().viol("acceleration", cfgName(c) + ": fused sample does not carry the inertial sample's acceleration");
        if (got[i]->get_quaternion().coeffs() != w.q.coeffs()) rep().viol("orientation", cfgName(c) + ": fused sample does not carry the inertial sample's orientation");
        if (got[i]->get_type() != IMU) rep().viol("emission", cfgName(c) + ": the fused sample is no inertial measurement");
        rep().count(w.enc ? "fused from an encoder" : "fused from an imu");
      }
      double d = rateErr(w, got[i]);
      worst = std::max(worst, d);
      if (numbers && d > 1) {
        rep().viol(std::string("rate:") + (w.enc ? "encoder" : "imu"),
                   fmt("%s: after %d updates the fused rate is %s, the Kalman filter's (%.9Lg %.9Lg %.9Lg)", cfgName(c).c_str(), m.corrections, mstr(got[i]->get_angular_velocity().transpose()).c_str(), w.w(0), w.w(1), w.w(2)));
        return;
      }
      h = Hash().u(h).m(got[i]->get_angular_velocity()).d(w.t).h;
    }
    rep().eval(streams ? Hash().u(h).u(r.imu[0]->size()).u(r.enc->size()).u(r.gyr->size()).h : h, !got.empty());
  }
  if (numbers) rep().maxi("deviation", worst);
  rep().count("steps", steps);
  rep().count("emitted", emitted);
  if (streams) {
    rep().count("outdated samples dropped", m.dropped);
    rep().count("steps holding a future sample", m.held);
  }
  rep().count(std::string("runs ") + cfgName(c).substr(0, cfgName(c).find(", flat")));
  if (rep().want_sample()) rep().sample(fmt("%s: %d steps, %d fused samples", cfgName(c).c_str(), steps, emitted));
}
// The inertial samples handed on are the caller's: neither the inputs nor
// earlier outputs may change.
static void untouched(Rng& g) {
  GCfg c = genCfg(g);
  c.stat = false;
  rep().phase("immutability");
  Real r(c, gyroYaml(c, rep().work + "/" + std::to_string(getpid()) + "_gyro.yaml"));
  struct Copy {
    ImuMeasurementPtr m;
    Vector3d w, a;
    double t;
  };
  std::vector<Copy> all;
  auto keep = [&](const ImuMeasurementPtr& m) { all.push_back({m, m->get_angular_velocity(), m->get_lin_acc(), m->get_time()}); };
  for (auto& e : genScript(g, c, 150, false)) {
    if (e.k != 's') {
      feed(r, e);
      if (e.m) keep(e.m);
      continue;
    }
    r.f->RunOnce();
    for (auto& m : items(*r.out)) keep(m);
    while (!r.out->empty()) r.out->pop();
  }
  for (auto& x : all)
    if (x.m->get_angular_velocity() != x.w || x.m->get_lin_acc() != x.a || x.m->get_time() != x.t) {
      rep().viol("sample_changed", cfgName(c) + ": a measurement changed after it was queued or emitted");
      return;
    }
  rep().count("samples rechecked", long(all.size()));
}
// The filter's own thread next to a producer
static void threaded(Rng& g) {
  GCfg c = genCfg(g);
  c.stat = false;
  bool est = c.five && !c.gyro && g.chance(0.5);
  rep().phase(std::string("thread ") + kind(c));
  std::string y = gyroYaml(c, rep().work + "/" + std::to_string(getpid()) + "_gyro.yaml");
  std::vector<ImuMeasurementPtr> im[4];
  std::vector<AngularVelocityMeasurementPtr> en;
  std::vector<ImuMeasurementPtr> got;
  int n = g.range(20, 300);
  bool ahead = g.chance(0.5);    // everything queued before the thread starts
  {
    Real r(c, y);
    std::unique_ptr<estimator::InekfEstimator> e;
    IMUQueuePtr out = r.out;
    MutexPtr out_m = r.out_m;
    auto start = [&] {
      if (!est) {
        r.f->StartImuFilterThread();
        return;
      }
      rig::Cfg ec;
      e.reset(new estimator::InekfEstimator(RightInvariant, rig::estYaml(ec, rep().work + "/" + std::to_string(getpid()) + "_gest.yaml")));
      auto p = e->add_imu_ang_vel_ekf(r.imu[0], r.imu_m[0], r.enc, r.enc_m, y);
      out = p.first;
      out_m = p.second;
    };
    if (!ahead) start();
    double t = 5;
    for (int k = 0; k < n; k++) {
      t += g.uni(1e-4, 1e-2);
      Ev e;
      double u = g.uni();
      if (c.method != ENC && u < 0.6) {
        e.k = 'i';
        e.i = g.below(c.imus);
        e.m = rig::imu(t, g.gvec(), g.gvec(10), g.quat());
        im[e.i].push_back(e.m);
        feed(r, e);
      } else if (c.method == BOTH || c.method == ENC) {
        e.k = 'e';
        e.e = angvel(t, g.gvec());
        en.push_back(e.e);
        feed(r, e);
      }
      if (c.gyro && g.chance(0.5)) {
        Ev e2{'g'};
        e2.m = rig::imu(t, g.gvec(), g.gvec(10), g.quat());
        feed(r, e2);
      }
      if (g.chance(0.1)) std::this_thread::yield();
    }
    if (c.gyro) {    // releases everything held for the propagation
      Ev e2{'g'};
      e2.m = rig::imu(t, g.gvec(), g.gvec(10), g.quat());
      feed(r, e2);
    }
    if (ahead) start();
    bool drained = false;
    auto t0 = std::chrono::steady_clock::now();
    while (!drained && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60)) {
      std::this_thread::yield();
      drained = true;
      for (size_t i = 0; i < r.imu.size(); i++) {
        std::lock_guard<std::mutex> l(*r.imu_m[i]);
        if (c.method != ENC && !(c.five && c.method == MANY_IMU)) drained = drained && r.imu[i]->empty();
      }
      std::lock_guard<std::mutex> l(*r.enc_m);
      if (c.method == BOTH || c.method == ENC) drained = drained && r.enc->empty();
    }
    if (!drained) {
      rep().viol("stuck", cfgName(c) + ": samples stayed queued for a minute although the filter's thread was running");
      return;
    }
    e.reset();    // joins the thread
    r.f.reset();
    std::lock_guard<std::mutex> l(*out_m);
    got = items(*out);
  }
  // every emitted sample comes from one queued sample, at most once, in order
  std::map<double, int> src;    // by time (all distinct)
  std::map<double, ImuMeasurementPtr> sample;
  for (int i = 0; i < 4; i++)
    for (auto& m : im[i]) src[m->get_time()] = i, sample[m->get_time()] = m;
  for (auto& m : en) src[m->get_time()] = 9;
  std::map<int, double> lastt;
  for (auto& m : got) {
    auto it = src.find(m->get_time());
    if (it == src.end()) {
      rep().viol("thread:unknown_sample", cfgName(c) + ": a fused sample has the time of no queued sample");
      return;
    }
    auto l = lastt.find(it->second);
    if (l != lastt.end() && l->second >= m->get_time()) {
      rep().viol("thread:order", cfgName(c) + ": fused samples of one source are repeated or out of order");
      return;
    }
    lastt[it->second] = m->get_time();
    if (it->second != 9 && (m->get_lin_acc() != sample[m->get_time()]->get_lin_acc() || m->get_quaternion().coeffs() != sample[m->get_time()]->get_quaternion().coeffs()))
      rep().viol("thread:content", cfgName(c) + ": a fused sample carries another sample's acceleration or orientation");
  }
  // without a gyro nothing is outdated: all inertial samples come out
  size_t ims = im[0].size() + im[1].size() + im[2].size() + im[3].size(), out_im = 0;
  for (auto& m : got) out_im += src[m->get_time()] != 9;
  if (!c.gyro && c.method != ENC && out_im != ims) {
    rep().viol("thread:lost", fmt("%s: %d of %d inertial samples were fused", cfgName(c).c_str(), int(out_im), int(ims)));
    return;
  }
  if (ahead && !c.gyro && c.method == BOTH)
    for (size_t i = 1; i < got.size(); i++)
      if (got[i]->get_time() < got[i - 1]->get_time()) {
        rep().viol("thread:time_order", cfgName(c) + ": queued samples of both sources were not fused in time order");
        return;
      }
  rep().count(est ? "threads started by the estimator" : "threads");
  rep().count("fused by the thread", long(got.size()));
  Hash h;
  for (auto& m : got) h.d(m->get_time()).m(m->get_angular_velocity());
  rep().eval(h.h, !got.empty());
}
static void G01(Rng& g, long) { stepped(g, true, false); }
static void G02(Rng& g, long) {
  double u = g.uni();
  if (u < 0.12) return threaded(g);
  if (u < 0.17) return untouched(g);
  stepped(g, false, true);
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"G01", G01}, {"G02", G02}}); }
