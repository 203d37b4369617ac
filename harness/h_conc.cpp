// C01 (built with the thread sanitizer) and C03: the documented deployments run
// with real threads, with delays injected at every lock and unlock of the code
// under test (pthread_mutex_lock/unlock are wrapped at link time).
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>
#include "gyro.hpp"
#include "script.hpp"
#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"
#include "wheel_odometry/wheel_odometry.h"
using namespace rig;
static const auto rlx = std::memory_order_relaxed;    // relaxed: the bookkeeping must not order the threads

// ------------------------------------------------------------ delay injection
namespace sched {
static std::atomic<int> level{0};
static std::atomic<uint64_t> salt{1}, nthread{0};
static std::atomic<long> locks{0}, delays{0};
static thread_local uint64_t s = 0;
static inline uint64_t rnd() {
  if (!s) s = (salt.load(rlx) + 0x9e3779b97f4a7c15ull * (1 + nthread.fetch_add(1, rlx))) | 1;
  s ^= s << 13, s ^= s >> 7, s ^= s << 17;
  return s;
}
static inline void point(int kind) {    // 0 before a lock, 1 inside, 2 after the unlock
  int l = level.load(rlx);
  if (!l) return;
  uint64_t r = rnd();
  if (kind == 0) locks.fetch_add(1, rlx);
  uint32_t p = uint32_t(r >> 20) % 1000;
  static const uint32_t yield_p[] = {0, 60, 200, 30}, sleep_p[] = {0, 2, 10, 40}, us[] = {0, 30, 60, 150};
  uint32_t ps = kind == 1 ? sleep_p[l] / 2 : sleep_p[l];
  if (p < ps) {
    delays.fetch_add(1, rlx);
    usleep(1 + (r >> 40) % us[l]);
  } else if (p < ps + yield_p[l]) {
    delays.fetch_add(1, rlx);
    sched_yield();
  }
}
static void start(Rng& g) {
  salt.store(g.next(), rlx);
  level.store(g.chance(0.15) ? 0 : g.range(1, 3), rlx);
}
static void place(Rng& g) {    // thread placement
  cpu_set_t c;
  CPU_ZERO(&c);
  int n = g.pick(std::vector<int>{1, 2, 64, 64, 64}), first = g.below(8);
  long have = sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 0; i < n; i++) CPU_SET((first + i) % (have > 0 ? have : 1), &c);
  sched_setaffinity(0, sizeof c, &c);
}
}    // namespace sched
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  sched::point(0);
  int r = __real_pthread_mutex_lock(m);
  sched::point(1);
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  sched::point(2);
  return r;
}
}

// ------------------------------------------------------------------- recording
static std::atomic<uint64_t> ticket{0};
struct Trace {    // what one thread did, in a global order
  std::vector<std::pair<uint64_t, uint32_t>> e;
  void add(uint32_t what) { e.push_back({ticket.fetch_add(1, rlx), what}); }
};
static uint64_t interleaving(const std::vector<const Trace*>& ts) {
  std::vector<std::pair<uint64_t, uint32_t>> all;
  for (size_t i = 0; i < ts.size(); i++)
    for (auto& x : ts[i]->e) all.push_back({x.first, x.second + 1000 * uint32_t(i)});
  std::sort(all.begin(), all.end());
  Hash h;
  for (auto& x : all) h.i(x.second);
  return h.h;
}
static void ms(double t) { usleep(useconds_t(t * 1000)); }

// A stream of measurements: one buffer, one producer
struct Stream {
  char kind;    // i, v, l, e
  int idx = 0;
  MutexPtr mx;
  IMUQueuePtr iq;
  VelocityQueuePtr vq;
  LeggedKinQueuePtr lq;
  AngularVelocityQueuePtr eq;
  // written by the producer under the lock
  long pushed = 0;
  std::vector<ImuMeasurementPtr> im;
  std::vector<VelocityMeasurementPtr> v;
  std::vector<FakeLegPtr> l;
  std::vector<AngularVelocityMeasurementPtr> e;
  size_t size() const { return iq ? iq->size() : vq ? vq->size() : lq ? lq->size() : eq->size(); }
};
struct Clock {
  std::atomic<long> us{0};
  double t0 = 0;
  double now() const { return t0 + double(us.load(rlx)) * 1e-6; }
};
// Produces until told to stop; waits while many measurements are queued
static void produce(Stream& s, Clock& ck, std::atomic<bool>& stop, uint64_t seed, bool keep, Trace& tr, int legs, std::atomic<long>* limit = nullptr, std::pair<IMUQueuePtr, MutexPtr> down = {}) {
  Rng g(seed);
  double idle = g.pick(std::vector<double>{0, 0.05, 0.5});
  int burst = g.pick(std::vector<int>{1, 1, 3, 10});
  if (g.chance(0.3)) ms(g.uni(0, 5));
  long t = ck.us.load(rlx);
  unsigned mask = g.below(1 << legs);
  while (!stop.load(rlx)) {
    int n = g.range(1, burst);
    for (int i = 0; i < n; i++) {
      ImuMeasurementPtr im;
      VelocityMeasurementPtr v;
      FakeLegPtr l;
      AngularVelocityMeasurementPtr e;
      if (s.kind == 'i') {
        t = ck.us.fetch_add(g.range(500, 4000), rlx);
        im = imu(ck.t0 + double(t) * 1e-6, g.gvec(0.5), Vector3d(0, 0, 9.8) + g.gvec(0.5), g.quat());
      } else {
        long now = ck.us.load(rlx);
        t = std::max(t + 7, now - 30000 + g.range(-40000, 30000));
        double at = ck.t0 + double(t) * 1e-6 + 3.1e-7;
        if (s.kind == 'v') v = vel(at, g.gvec(1));
        if (s.kind == 'e') e = gyro::angvel(at, g.gvec(0.5));
        if (s.kind == 'l') {
          for (int b = 0; b < legs; b++)
            if (g.chance(0.1)) mask ^= 1u << b;
          l = randLegMeas(g, legs, mask, at, 0.1);
          for (int b = 0; b < legs; b++) l->pos.col(b) = Vector3d(b & 1 ? 0.2 : -0.2, b & 2 ? 0.15 : -0.15, -0.3) + g.gvec(0.02);
          l->v0 = g.gvec(1);
        }
      }
      {
        std::lock_guard<std::mutex> lk(*s.mx);
        if (im) s.iq->push(im);
        if (v) s.vq->push(v);
        if (l) s.lq->push(l);
        if (e) s.eq->push(e);
        s.pushed++;
        if (keep) {
          if (im) s.im.push_back(im);
          if (v) s.v.push_back(v);
          if (l) s.l.push_back(l);
          if (e) s.e.push_back(e);
        }
        tr.add(1);
      }
      if (limit && limit->fetch_sub(1, rlx) <= 1) return;
    }
    for (int w = 0; w < 2000 && !stop.load(rlx); w++) {
      size_t q;
      {
        std::lock_guard<std::mutex> lk(*s.mx);
        q = s.size();
      }
      if (down.first) {    // what the filter makes of the samples waits to be used as well
        std::lock_guard<std::mutex> lk(*down.second);
        q = std::max(q, down.first->size());
      }
      if (q < 30) break;
      ms(0.2);
    }
    if (g.chance(idle)) ms(g.uni(0, 0.4));
    else if (g.chance(0.3)) sched_yield();
  }
}
// Everything a consumer may ask a published state
static void query(const RobotState& cs, Hash& h) {
  RobotState s(cs);
  h.m(cs.get_X()).m(cs.get_P()).m(cs.get_theta()).d(cs.get_time()).d(cs.get_propagate_time());
  h.m(cs.get_world_X()).m(cs.get_world_rotation()).m(cs.get_world_velocity()).m(cs.get_world_position());
  h.m(cs.get_body_X()).m(cs.get_body_velocity()).m(cs.get_body_position()).m(cs.get_body_rotation());
  h.m(cs.get_rotation_covariance()).m(cs.get_position_covariance()).m(cs.get_velocity_covariance());
  h.m(cs.get_gyroscope_bias()).m(cs.get_accelerometer_bias()).m(cs.get_gyroscope_bias_covariance());
  h.m(cs.get_continuous_noise_covariance()).m(cs.get_body_angular_velocity()).m(cs.get_Xinv());
  h.i(cs.dimX()).i(cs.dimP()).i(cs.get_slip_flag()).i(cs.get_enable_imu_bias_update());
  for (int k = 5; k < s.dimX(); k++) h.m(s.get_aug_state(k)).m(s.get_aug_cov(k));
}
struct Got {
  uint64_t t;
  std::shared_ptr<RobotState> s;
};
static void consume(RobotStateQueuePtr q, MutexPtr m, std::atomic<bool>& stop, uint64_t seed, std::vector<Got>* out, Trace& tr, long& n, bool ask) {
  Rng g(seed);
  std::deque<std::shared_ptr<RobotState>> kept;
  bool lazy = g.chance(0.2);
  Hash h;
  for (;;) {
    bool last = stop.load(rlx);
    std::vector<std::shared_ptr<RobotState>> got;
    {
      std::lock_guard<std::mutex> l(*m);
      int k = g.chance(0.5) ? 1 : 1000;
      while (!q->empty() && k--) {
        got.push_back(q->front());
        q->pop();
        if (out) out->push_back({ticket.fetch_add(1, rlx), got.back()});
      }
      if (!got.empty()) tr.add(2);
    }
    n += long(got.size());
    if (ask) {
      for (auto& s : got) {
        query(*s, h);
        if (!out && g.chance(0.2)) {    // it is the consumer's own by now
          s->set_position(Vector3d(1, 2, 3));
          s->set_velocity(Vector3d(1, 2, 3));
          s->set_time(-1);
        }
        if (g.chance(0.1)) kept.push_back(s);
        if (kept.size() > 5) kept.pop_front();
      }
      if (!kept.empty() && g.chance(0.3)) query(*kept[g.below(int(kept.size()))], h);
    }
    if (last) break;
    if (lazy) ms(1);
    else if (got.empty()) sched_yield();
  }
}
// One call of the estimator loop of the documented deployments
struct Op {
  char k;    // b InitBias, s InitState, r RunOnce, c clear
  std::vector<long> used;    // per stream, so far
  Snap after;
  bool on = false;
};
static std::string logBase(const char* name) { return rep().work + "/" + name + std::to_string(getpid()); }

// ------------------------------------------------------------ the estimator
struct Plan {
  Cfg c;
  int legs, steps, consumers;
  double reset;
  uint64_t seed;
  bool late_producers, destroy_first;
};
static Plan genPlan(Rng& g, bool record) {
  Plan p;
  int nv = g.range(0, 2), nl = g.range(nv ? 0 : 1, 2);
  if (g.chance(0.1)) nv = nl = 0;
  p.c = scriptCfg(g, nv, nl);
  p.c.static_init = g.chance(0.4);
  p.c.init_size = g.range(0, 8);
  p.c.use_ori = g.chance(0.5);
  p.c.log = g.chance(0.6);
  if (p.c.log) {
    p.c.pose_log = logBase("c_pose");
    p.c.vel_log = logBase("c_vel");
    p.c.log_rate = g.pick(std::vector<double>{5, 100, 1e7});
  }
  p.legs = g.range(1, 4);
  p.steps = record ? g.range(50, 400) : g.range(60, 250);
  p.consumers = g.range(1, 2);
  p.reset = g.chance(0.5) ? 0 : g.uni(0.002, 0.03);
  p.seed = g.next();
  p.late_producers = g.chance(0.2);
  p.destroy_first = g.chance(0.4);
  return p;
}
static void rmLogs(const Cfg& c) {
  if (!c.log) return;
  for (auto& b : {c.pose_log, c.vel_log, c.vel_log + "_body_frame"}) {
    unlink((b + ".txt").c_str());
    for (int i = 0; i < 200; i++) unlink((b + "_" + std::to_string(i) + ".txt").c_str());
  }
}
static std::vector<std::unique_ptr<Stream>> streamsOf(Rig& r) {
  std::vector<std::unique_ptr<Stream>> o;
  o.emplace_back(new Stream);
  o.back()->kind = 'i', o.back()->mx = r.im, o.back()->iq = r.iq;
  for (size_t i = 0; i < r.vq.size(); i++) {
    o.emplace_back(new Stream);
    o.back()->kind = 'v', o.back()->idx = int(i), o.back()->mx = r.vm[i], o.back()->vq = r.vq[i];
  }
  for (size_t i = 0; i < r.lq.size(); i++) {
    o.emplace_back(new Stream);
    o.back()->kind = 'l', o.back()->idx = int(i), o.back()->mx = r.lm_[i], o.back()->lq = r.lq[i];
  }
  return o;
}
struct Outcome {
  std::vector<Op> ops;
  std::vector<std::unique_ptr<Stream>> st;
  std::vector<std::vector<Got>> got;
  std::vector<std::shared_ptr<RobotState>> left;
  uint64_t shape = 0;
  long consumed = 0, clears = 0, steps = 0;
};
static void runEstimator(Rng& g, const Plan& p, bool record, Outcome& o) {
  auto rig_ = std::make_unique<Rig>(p.c);
  Rig& r = *rig_;
  o.st = streamsOf(r);
  Clock ck;
  randT(g, ck.t0);
  std::atomic<bool> stop{false}, stop_c{false};
  std::vector<std::thread> th, tc;
  std::vector<std::unique_ptr<Trace>> tr;
  auto trace = [&]() -> Trace& {
    tr.emplace_back(new Trace);
    return *tr.back();
  };
  Trace& te = trace();
  auto producers = [&] {
    for (auto& s : o.st) {
      Trace& t = trace();
      uint64_t sd = g.next();
      Stream* sp = s.get();
      th.emplace_back([&, sp, sd] { produce(*sp, ck, stop, sd, record, t, p.legs); });
    }
  };
  auto q = r.est->get_robot_state_queue_ptr();
  auto qm = r.est->get_robot_state_queue_mutex_ptr();
  std::vector<long> nc(p.consumers, 0);
  o.got.resize(p.consumers);
  for (int i = 0; i < p.consumers; i++) {
    Trace& t = trace();
    uint64_t sd = g.next();
    tc.emplace_back([&, i, sd] { consume(q, qm, stop_c, sd, record ? &o.got[i] : nullptr, t, nc[i], !record || i == 0); });
  }
  if (!p.late_producers) producers();
  uint64_t se = g.next();
  std::thread est([&] {
    Rng e(se);
    estimator::InekfEstimator& x = *r.est;
    int left = p.steps;
    auto look = [&](char k) {
      te.add(10 + uint32_t(k));
      if (!record) return;
      Op op;
      op.k = k;
      for (auto& s : o.st) {
        std::lock_guard<std::mutex> l(*s->mx);
        op.used.push_back(s->pushed - long(s->size()));
      }
      op.on = x.is_enabled();
      op.after = snap(x.get_state());
      o.ops.push_back(std::move(op));
    };
    for (int guard = 0; left > 0 && guard < 2000000; guard++) {
      if (x.is_enabled()) {
        x.RunOnce();
        look('r');
        left--;
        o.steps++;
        if (e.chance(p.reset)) {
          x.clear();
          look('c');
          o.clears++;
        }
        if (e.chance(0.02)) sched_yield();
      } else if (x.BiasInitialized()) {
        x.InitState();
        look('s');
        if (!x.is_enabled()) sched_yield();
      } else {
        x.InitBias();
        look('b');
        if (e.chance(0.002)) {    // a reset before the start-up is complete
          x.clear();
          look('c');
        }
      }
    }
  });
  if (p.late_producers) {
    ms(g.uni(0, 3));
    producers();
  }
  est.join();
  if (p.destroy_first) rig_->est.reset();    // producers and consumers still hold the buffers
  stop.store(true, rlx);
  for (auto& t : th) t.join();
  if (!p.destroy_first) rig_->est.reset();
  stop_c.store(true, rlx);
  for (auto& t : tc) t.join();
  while (!q->empty()) {
    o.left.push_back(q->front());
    q->pop();
  }
  for (auto n : nc) o.consumed += n;
  std::vector<const Trace*> tp;
  for (auto& t : tr) tp.push_back(t.get());
  o.shape = interleaving(tp);
  rmLogs(p.c);
}

// --------------------------------------------------------- C03: the estimator
static void judge(const Plan& p, Outcome& o) {
  rep().phase("C03 sequential replay");
  Cfg c = p.c;
  c.log = false;
  Rig k(c);
  std::vector<long> used(o.st.size(), 0);
  std::vector<std::vector<std::shared_ptr<RobotState>>> pub(1);    // per session
  auto q = k.est->get_robot_state_queue_ptr();
  int step = 0;
  for (auto& op : o.ops) {
    step++;
    for (size_t i = 0; i < o.st.size(); i++) {
      Stream& s = *o.st[i];
      long n = op.used[i] - used[i];
      if (n < 0) {
        rep().viol("count", fmt("operation %d (%c): a measurement taken from a buffer is back in it", step, op.k));
        return;
      }
      if (op.k == 'r' && s.kind == 'i' && n > 1) {
        rep().viol("imu_taken", fmt("one step took %ld inertial samples", n));
        return;
      }
      if (op.k != 'c')
        for (long j = used[i]; j < op.used[i]; j++) {
          if (s.kind == 'i') k.push(clone(s.im[j]));
          if (s.kind == 'v') k.push(s.idx, clone(s.v[j]));
          if (s.kind == 'l') k.push(s.idx, LeggedKinMeasurementPtr(clone(s.l[j])));
        }
      if (op.k == 's' && i > 0 && op.used[0] > used[0] && n < 1) {
        rep().viol("init_without_data", "the state was initialised without a measurement of one of the sources");
        return;
      }
    }
    used = op.used;
    if (op.k == 'b') k.est->InitBias();
    if (op.k == 's') k.est->InitState();
    if (op.k == 'r') k.est->RunOnce();
    if (op.k == 'c') {
      k.est->clear();
      pub.emplace_back();
    }
    while (!q->empty()) {
      pub.back().push_back(q->front());
      q->pop();
    }
    Snap now = k.now();
    std::string w;
    if (!same(now, op.after, &w)) {
      rep().viol(std::string("differs:") + op.k, fmt("after operation %d (%c) the %s differs from that of a sequential run on the same measurements", step, op.k, w.c_str()));
      return;
    }
    if (k.est->is_enabled() != op.on) {
      rep().viol("enabled", fmt("after operation %d (%c) the filter is %s, in a sequential run it is not", step, op.k, op.on ? "enabled" : "disabled"));
      return;
    }
    bool rest = !k.iq->empty();
    for (auto& x : k.vq) rest = rest || !x->empty();
    for (auto& x : k.lq) rest = rest || !x->empty();
    if (rest) {
      rep().viol("leftover", fmt("operation %d (%c) took measurements that a sequential run on the same measurements leaves in the buffer", step, op.k));
      return;
    }
  }
  for (auto& s : o.st)
    for (auto& l : s->l)
      if (l->computed > 1 || l->asked > 1) {
        rep().viol("twice", "a legged measurement was used more than once");
        return;
      }
  // what the consumers received is, session by session, the beginning of what was published
  std::vector<Got> all;
  for (auto& v : o.got) all.insert(all.end(), v.begin(), v.end());
  std::sort(all.begin(), all.end(), [](const Got& a, const Got& b) { return a.t < b.t; });
  size_t ses = 0, pos = 0;
  auto eq = [&](const std::shared_ptr<RobotState>& a, const std::shared_ptr<RobotState>& b) { return same(snap(*a), snap(*b)); };
  auto take = [&](const std::shared_ptr<RobotState>& s) {
    if (pos < pub[ses].size() && eq(pub[ses][pos], s)) {
      pos++;
      return true;
    }
    for (size_t t = ses + 1; t < pub.size(); t++)
      if (!pub[t].empty() && eq(pub[t][0], s)) {
        ses = t;
        pos = 1;
        return true;
      }
    return false;
  };
  size_t nth = 0;
  for (auto& s : all) {
    nth++;
    if (!take(s.s)) {
      rep().viol("published", fmt("state %d of %d received by the consumers is not the next one published (session %d, %d of %d received so far)", int(nth), int(all.size()), int(ses), int(pos), int(pub[ses].size())));
      return;
    }
  }
  for (auto& s : o.left)
    if (!take(s)) {
      rep().viol("queued", "a state left in the queue is not the next one published");
      return;
    }
  size_t last = pub.size() - 1, in_last = ses == last ? pos : 0;
  if (in_last != pub[last].size()) {
    rep().viol("lost", fmt("%d states were published since the last reset, %d were received or are still queued", int(pub[last].size()), int(in_last)));
    return;
  }
  rep().count("states received", long(all.size()));
  rep().count("states left in the queue", long(o.left.size()));
  rep().count("operations replayed", long(o.ops.size()));
  rep().count("sessions", long(pub.size()));
}
// ------------------------------------------- the estimator behind a gyro filter
static void runFiltered(Rng& g, bool record) {
  gyro::GCfg gc;
  gc.five = true;
  gc.gyro = false;
  gc.method = g.chance(0.8) ? gyro::BOTH : gyro::ONE_IMU;
  gc.stat = g.chance(0.3);
  gc.size = g.range(1, 10);
  gc.flat = g.chance(0.5);
  gc.q = g.quat();
  Cfg c = scriptCfg(g, g.range(0, 1), 0);
  c.log = g.chance(0.4);
  if (c.log) {
    c.pose_log = logBase("f_pose");
    c.vel_log = logBase("f_vel");
    c.log_rate = 1e7;
  }
  std::string base = logBase("f_");
  auto est = std::make_unique<estimator::InekfEstimator>(c.et, estYaml(c, base + "est.yaml"));
  Stream si, se, sv;
  si.kind = 'i', si.iq = std::make_shared<IMUQueue>(), si.mx = std::make_shared<std::mutex>();
  se.kind = 'e', se.eq = std::make_shared<AngularVelocityQueue>(), se.mx = std::make_shared<std::mutex>();
  sv.kind = 'v', sv.vq = std::make_shared<VelocityQueue>(), sv.mx = std::make_shared<std::mutex>();
  auto out = est->add_imu_ang_vel_ekf(si.iq, si.mx, se.eq, se.mx, gyro::gyroYaml(gc, base + "gyro.yaml"));
  est->add_imu_propagation(out.first, out.second, imuYaml(c, base + "imu.yaml"));
  bool vel_on = !c.v.empty();
  if (vel_on) est->add_velocity_correction(sv.vq, sv.mx, velYaml(c, c.v[0], base + "vel.yaml"));
  Clock ck;
  randT(g, ck.t0);
  std::atomic<bool> stop{false}, stop_e{false}, stop_c{false}, quiet{false}, done{false};
  std::vector<std::unique_ptr<Trace>> tr;
  for (int i = 0; i < 5; i++) tr.emplace_back(new Trace);
  double reset = g.chance(0.5) ? 0 : g.uni(0.002, 0.02);
  long total = record ? g.range(50, 600) : g.range(50, 300);
  std::atomic<long> limit{total};
  uint64_t s1 = g.next(), s2 = g.next(), s3 = g.next(), s4 = g.next(), s5 = g.next();
  std::thread ti([&] { produce(si, ck, stop, s1, record, *tr[0], 1, &limit, out); });
  std::thread te, tv;
  if (gc.method == gyro::BOTH) te = std::thread([&] { produce(se, ck, stop_e, s2, record, *tr[1], 1, nullptr, out); });
  if (vel_on) tv = std::thread([&] { produce(sv, ck, stop, s3, record, *tr[2], 1); });
  auto q = est->get_robot_state_queue_ptr();
  auto qm = est->get_robot_state_queue_mutex_ptr();
  long n = 0;
  std::thread tc([&] { consume(q, qm, stop_c, s4, nullptr, *tr[3], n, true); });
  std::vector<double> times;
  long clears = 0, steps = 0;
  std::thread tx([&] {
    Rng e(s5);
    double last = -1;
    while (!done.load(rlx)) {
      if (est->is_enabled()) {
        est->RunOnce();
        steps++;
        if (record) {
          double t = est->get_state().get_propagate_time();
          if (t != last) times.push_back(t);
          last = t;
        }
        tr[4]->add(1);
        if (e.chance(reset)) {
          if (e.chance(0.5)) sched_yield();
          est->clear();
          clears++;
          tr[4]->add(2);
        }
        if (e.chance(0.05)) sched_yield();
      } else if (est->BiasInitialized()) {
        // would wait for a velocity that never comes once the producers have stopped
        bool go = true;
        if (vel_on && quiet.load(rlx)) {
          std::lock_guard<std::mutex> l(*sv.mx);
          go = !sv.vq->empty();
        }
        if (go) {
          est->InitState();
          if (est->is_enabled() && record) times.push_back(last = est->get_state().get_propagate_time());
        } else
          sched_yield();
      } else
        est->InitBias();
    }
  });
  ti.join();
  stop_e.store(true, rlx);
  if (te.joinable()) te.join();
  // drain: everything pushed so far passes the filter and the estimator
  auto t0 = std::chrono::steady_clock::now();
  for (;;) {
    size_t a, b;
    {
      std::lock_guard<std::mutex> l(*si.mx);
      a = si.iq->size();
    }
    {
      std::lock_guard<std::mutex> l(*out.second);
      b = out.first->size();
    }
    if (a == 0 && b == 0) break;
    if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(60)) {
      rep().viol("filtered:stuck", fmt("%d inertial samples and %d fused ones stay queued although filter and estimator run", int(a), int(b)));
      break;
    }
    ms(0.2);
  }
  ms(2);
  bool destroy_first = g.chance(0.4);
  quiet.store(true, rlx);
  done.store(true, rlx);
  tx.join();
  if (destroy_first) est.reset();
  stop.store(true, rlx);
  if (tv.joinable()) tv.join();
  est.reset();
  stop_c.store(true, rlx);
  tc.join();
  std::vector<const Trace*> tp;
  for (auto& t : tr) tp.push_back(t.get());
  uint64_t shape = interleaving(tp);
  rmLogs(c);
  rep().count("filtered runs");
  rep().count("filtered samples pushed", total);
  rep().count("steps", steps);
  rep().count("resets", clears);
  rep().count("states received", n);
  rep().eval(shape, steps > 0);
  if (!record) return;
  // every accepted time is that of one sample; none is used again or out of order
  std::map<double, std::pair<int, size_t>> src;
  for (size_t i = 0; i < si.im.size(); i++) src[si.im[i]->get_time()] = {0, i};
  for (size_t i = 0; i < se.e.size(); i++) src[se.e[i]->get_time()] = {1, i};
  long lasti[2] = {-1, -1}, imus = 0;
  for (double t : times) {
    auto it = src.find(t);
    if (it == src.end()) {
      rep().viol("filtered:unknown", fmt("the state was propagated to time %.9f, which no sample has", t));
      return;
    }
    long& l = lasti[it->second.first];
    if (long(it->second.second) <= l) {
      rep().viol("filtered:order", fmt("sample %d of %s was used again or out of order", int(it->second.second), it->second.first ? "the encoder" : "the inertial unit"));
      return;
    }
    l = long(it->second.second);
    imus += it->second.first == 0;
  }
  // without resets every inertial sample arrives, but for those averaged at the start and the one still held back
  if (clears == 0 && !times.empty()) {
    long lost = total - imus - (gc.stat ? gc.size : 0);
    long first = gc.stat ? total : 1;    // with static start-up, samples queued during it are dropped as well
    if (lost > (gc.stat ? first : 1)) rep().viol("filtered:lost", fmt("%ld inertial samples pushed, only %ld reached the state", total, imus));
  }
}
// ---------------------------------------------------------- gyro filter alone
static void runGyro(Rng& g) {
  gyro::GCfg c = gyro::genCfg(g);
  std::string yaml = gyro::gyroYaml(c, logBase("g_") + ".yaml");
  auto r = std::make_unique<gyro::Real>(c, yaml);
  std::vector<std::unique_ptr<Stream>> st;
  auto add = [&](char k) {
    st.emplace_back(new Stream);
    st.back()->kind = k;
    return st.back().get();
  };
  for (size_t i = 0; i < r->imu.size(); i++) {
    auto* s = add('i');
    s->iq = r->imu[i], s->mx = r->imu_m[i];
  }
  if (c.gyro) {
    auto* s = add('i');
    s->iq = r->gyr, s->mx = r->gyr_m;
  }
  if (c.method == gyro::BOTH || c.method == gyro::ENC) {
    auto* s = add('e');
    s->eq = r->enc, s->mx = r->enc_m;
  }
  Clock ck;
  ck.t0 = 1;
  std::atomic<bool> stop{false};
  std::vector<std::unique_ptr<Trace>> tr;
  std::vector<std::thread> th;
  auto start = [&] {
    for (auto& s : st) {
      tr.emplace_back(new Trace);
      Trace* t = tr.back().get();
      uint64_t sd = g.next();
      Stream* sp = s.get();
      th.emplace_back([&ck, &stop, sp, sd, t] { produce(*sp, ck, stop, sd, false, *t, 1); });
    }
  };
  bool early = g.chance(0.5);
  if (early) start();
  r->f->StartImuFilterThread();
  if (!early) start();
  tr.emplace_back(new Trace);
  Trace& tm = *tr.back();
  int n = g.range(20, 120);
  double cl = g.chance(0.5) ? 0 : 0.05;
  long got = 0, clears = 0;
  for (int i = 0; i < n; i++) {
    {
      std::lock_guard<std::mutex> l(*r->out_m);
      while (!r->out->empty()) {
        r->out->pop();
        got++;
      }
    }
    tm.add(1);
    if (g.chance(cl)) {
      r->f->clear();
      clears++;
      tm.add(2);
    }
    ms(g.uni(0, 0.3));
  }
  if (g.chance(0.5)) r->f.reset();    // while the producers go on
  stop.store(true, rlx);
  for (auto& t : th) t.join();
  r.reset();
  std::vector<const Trace*> tp;
  for (auto& t : tr) tp.push_back(t.get());
  rep().count("gyro filter runs");
  rep().count("fused samples received", got);
  rep().count("resets", clears);
  rep().eval(interleaving(tp));
}
// ------------------------------------------------------------- wheel odometry
static void runWheel(Rng& g) {
  Stream sv, se;
  sv.kind = 'v', sv.vq = std::make_shared<VelocityQueue>(), sv.mx = std::make_shared<std::mutex>();
  se.kind = 'e', se.eq = std::make_shared<AngularVelocityQueue>(), se.mx = std::make_shared<std::mutex>();
  std::string f = logBase("w_");
  {
    std::ofstream y(f + ".yaml");
    y << "logger:\n  enable_pose_logger: true\n  pose_log_file: \"" << f << "_log.txt\"\n  pose_log_rate: 1000\n";
  }
  Clock ck;
  ck.t0 = 1;
  std::atomic<bool> stop{false};
  Trace t1, t2, t3;
  uint64_t a = g.next(), b = g.next();
  int n = g.range(50, 400);
  {
    baseline::WheelOdometry odo(sv.vq, sv.mx, se.eq, se.mx, f + ".yaml");
    std::thread p1([&] { produce(sv, ck, stop, a, false, t1, 1); }), p2([&] { produce(se, ck, stop, b, false, t2, 1); });
    for (int i = 0; i < n; i++) {
      odo.RunOnce();
      t3.add(1);
      ck.us.fetch_add(500, rlx);
      if (g.chance(0.05)) sched_yield();
    }
    stop.store(true, rlx);
    p1.join();
    p2.join();
  }
  unlink((f + "_log.txt").c_str());
  rep().count("wheel odometry runs");
  rep().eval(interleaving({&t1, &t2, &t3}));
}
// ------------------------------------------------------------------ ROS bridge
static void runRos(Rng& g) {
  auto& bus = ros::stub::bus();
  bus.reset();
  ros::NodeHandle nh;
  auto sub = std::make_unique<ros_wrapper::ROSSubscriber>(&nh);
  Cfg c = scriptCfg(g, 0, 0);
  c.bias = g.chance(0.5);
  c.log = g.chance(0.3);
  if (c.log) {
    c.pose_log = logBase("r_pose");
    c.vel_log = logBase("r_vel");
    c.log_rate = 1e7;
  }
  std::string base = logBase("r_");
  bool fetch = g.chance(0.3), filt = g.chance(0.5), leg = g.chance(0.4), early = g.chance(0.3);
  int nodom = g.range(0, 2);
  auto est = std::make_unique<estimator::InekfEstimator>(c.et, estYaml(c, base + "est.yaml"));
  auto qi = fetch ? sub->AddFetchIMUSubscriber("/imu", "/off") : sub->AddIMUSubscriber("/imu");
  if (early) sub->StartSubscribingThread();
  gyro::GCfg gc;
  VelCfg vc;
  vc.thr = 0.3;
  c.v.push_back(vc);
  c.l.push_back(LegCfg());
  int velk = g.below(4);
  if (filt) {
    auto [qv, mv, qw, mw] = g.chance(0.5) ? sub->AddDifferentialDriveVelocitySubscriber("/joint", 0.165, 0.5)
                                           : sub->AddDifferentialDriveVelocitySubscriber_Fetch("/joint", 0.06, 0.37);
    gc.five = true;
    auto [fq, fm] = est->add_imu_ang_vel_ekf(qi.first, qi.second, qw, mw, gyro::gyroYaml(gc, base + "gyro.yaml"));
    est->add_imu_propagation(fq, fm, imuYaml(c, base + "imu.yaml"));
    est->add_velocity_correction(qv, mv, velYaml(c, vc, base + "vel.yaml"));
  } else {
    est->add_imu_propagation(qi.first, qi.second, imuYaml(c, base + "imu.yaml"));
    auto qv = velk == 0   ? sub->AddVelocitySubscriber("/vel")
              : velk == 1 ? sub->AddVelocityWithCovarianceSubscriber("/velc")
              : velk == 2 ? sub->AddDifferentialDriveVelocitySubscriber("/joint", 0.165)
                          : sub->AddDifferentialDriveLinearVelocitySubscriber_Fetch("/joint", 0.06);
    est->add_velocity_correction(qv.first, qv.second, velYaml(c, vc, base + "vel.yaml"));
  }
  for (int i = 0; i < nodom; i++) {
    auto q = sub->AddOdom2VelocityCallback(fmt("/odom%d", i), {0.1, 0.2, 0.3}, {0, 0, 0, 1});
    est->add_velocity_correction(q.first, q.second, velYaml(c, vc, base + "vel.yaml"));
  }
  if (leg) {
    auto q = sub->AddMiniCheetahKinematicsSubscriber("/contact", "/legs");
    est->add_legged_kinematics_correction(q.first, q.second, legYaml(c, c.l[0], base + "leg.yaml"));
  }
  RobotStateQueuePtr q = est->get_robot_state_queue_ptr();
  auto qm = est->get_robot_state_queue_mutex_ptr();
  {
    std::ofstream y(base + "pub.yaml");
    y << "publishers:\n  pose_publish_rate: 1000\n  path_publish_rate: 50\n  pose_publish_topic: \"/p\"\n  path_publish_topic: \"/q\"\n  pose_frame: \"/odom\"\n  enable_slip_publisher: " << (g.chance(0.5) ? "true" : "false") << "\n";
  }
  if (!early) sub->StartSubscribingThread();
  auto pub = std::make_unique<ros_wrapper::ROSPublisher>(&nh, q, qm, base + "pub.yaml");
  pub->StartPublishingThread();
  std::atomic<bool> stop{false};
  std::atomic<long> clk{1000};
  std::vector<std::thread> th;
  std::vector<std::unique_ptr<Trace>> tr;
  auto source = [&](std::function<void(Rng&, long)> f) {
    tr.emplace_back(new Trace);
    Trace* t = tr.back().get();
    uint64_t sd = g.next();
    th.emplace_back([&stop, &clk, &bus, f, t, sd] {
      Rng r(sd);
      while (!stop.load(rlx)) {
        f(r, clk.load(rlx));
        t->add(1);
        for (int w = 0; w < 1000 && !stop.load(rlx); w++) {
          size_t n;
          {
            std::lock_guard<std::mutex> l(bus.m);
            n = bus.work.size();
          }
          if (n < 20) break;
          ms(0.2);
        }
        if (r.chance(0.3)) ms(r.uni(0, 0.4));
      }
    });
  };
  auto head = [](std_msgs::Header& h, long t) { h.stamp.sec = uint32_t(t / 1000), h.stamp.nsec = uint32_t(t % 1000) * 1000000, h.frame_id = "f"; };
  source([&](Rng& r, long) {
    long t = clk.fetch_add(r.range(1, 4), rlx);
    sensor_msgs::Imu m;
    head(m.header, t);
    auto qq = r.quat();
    m.orientation.w = qq.w(), m.orientation.x = qq.x(), m.orientation.y = qq.y(), m.orientation.z = qq.z();
    m.angular_velocity.x = r.gauss() * 0.1, m.angular_velocity.z = r.gauss() * 0.1;
    m.linear_acceleration.z = 9.8;
    auto sm = boost::make_shared<const sensor_msgs::Imu>(m);
    if (fetch) {
      geometry_msgs::Vector3Stamped o;
      o.header = m.header;
      bus.deliverPair<sensor_msgs::Imu, geometry_msgs::Vector3Stamped>("/imu", "/off", sm, boost::make_shared<const geometry_msgs::Vector3Stamped>(o));
      ms(0.1);
    } else
      bus.post<sensor_msgs::Imu>("/imu", sm);
  });
  source([&](Rng& r, long t) {
    sensor_msgs::JointState m;
    head(m.header, t - r.range(0, 20));
    for (int i = 0; i < 4; i++) m.velocity.push_back(r.uni(0, 3));
    bus.post<sensor_msgs::JointState>("/joint", boost::make_shared<const sensor_msgs::JointState>(m));
  });
  source([&](Rng& r, long t) {
    geometry_msgs::TwistStamped m;
    head(m.header, t - r.range(0, 20));
    m.twist.linear.x = r.uni(0, 2);
    bus.post<geometry_msgs::TwistStamped>("/vel", boost::make_shared<const geometry_msgs::TwistStamped>(m));
    geometry_msgs::TwistWithCovarianceStamped w;
    w.header = m.header;
    bus.post<geometry_msgs::TwistWithCovarianceStamped>("/velc", boost::make_shared<const geometry_msgs::TwistWithCovarianceStamped>(w));
  });
  for (int i = 0; i < nodom; i++)
    source([&, i](Rng& r, long t) {
      nav_msgs::Odometry m;
      head(m.header, t - r.range(0, 20));
      m.pose.pose.orientation.w = 1;
      m.pose.pose.position.x = double(t) * 1e-3;
      bus.post<nav_msgs::Odometry>(fmt("/odom%d", i), boost::make_shared<const nav_msgs::Odometry>(m));
    });
  if (leg)
    source([&](Rng& r, long t) {
      custom_sensor_msgs::ContactArray a;
      sensor_msgs::JointState b;
      head(a.header, t - r.range(0, 20));
      b.header = a.header;
      a.contacts.resize(4);
      for (auto& x : a.contacts) x.indicator = r.chance(0.5);
      for (int i = 0; i < 12; i++) b.position.push_back(r.gauss()), b.velocity.push_back(r.gauss());
      bus.deliverPair<custom_sensor_msgs::ContactArray, sensor_msgs::JointState>("/contact", "/legs", boost::make_shared<const custom_sensor_msgs::ContactArray>(a), boost::make_shared<const sensor_msgs::JointState>(b));
      ms(0.2);
    });
  tr.emplace_back(new Trace);
  Trace* te = tr.back().get();
  int steps = g.range(40, 150), left = steps;
  double reset = g.chance(0.5) ? 0 : 0.02;
  long clears = 0, published = 0;
  while (left > 0) {
    if (est->is_enabled()) {
      est->RunOnce();
      te->add(1);
      left--;
      if (g.chance(reset)) {
        est->clear();
        te->add(2);
        clears++;
      }
      if (g.chance(0.1)) published += long(bus.takeOut().size());
    } else if (est->BiasInitialized())
      est->InitState();
    else
      est->InitBias();
  }
  published += long(bus.takeOut().size());
  // shutdown, in the order in which the example programs leave their scope
  bool while_sources = g.chance(0.5);
  if (!while_sources) {
    stop.store(true, rlx);
    for (auto& t : th) t.join();
  }
  bus.shutdown();
  pub.reset();
  est.reset();
  if (while_sources) {
    stop.store(true, rlx);
    for (auto& t : th) t.join();
  }
  sub.reset();
  bus.reset();
  rmLogs(c);
  std::vector<const Trace*> tp;
  for (auto& t : tr) tp.push_back(t.get());
  rep().count("ros runs");
  rep().count("ros messages published", published);
  rep().count("steps", steps);
  rep().count("resets", clears);
  rep().eval(interleaving(tp));
}
// ------------------------------------------------------------ life cycle only
static void lifecycle(Rng& g) {
  auto some = [](uint64_t seed) {
    Rng r(seed);
    Cfg c = scriptCfg(r, r.range(0, 2), r.range(0, 1));
    c.log = r.chance(0.7);
    static std::atomic<int> serial{0};
    int id = serial.fetch_add(1, rlx);
    std::string b = logBase("x_") + "_" + std::to_string(id);
    if (c.log) c.pose_log = b + "pose", c.vel_log = b + "vel";
    gyro::GCfg gc;
    double u = r.uni();
    if (u < 0.3) {
      estimator::InekfEstimator e(c.et, estYaml(c, b + "est.yaml"));
      if (r.chance(0.5)) ms(r.uni(0, 1));
    } else if (u < 0.6) {
      estimator::InekfEstimator e(c.et, estYaml(c, b + "est.yaml"));
      auto iq = std::make_shared<IMUQueue>();
      auto eq = std::make_shared<AngularVelocityQueue>();
      auto m1 = std::make_shared<std::mutex>(), m2 = std::make_shared<std::mutex>();
      auto o = e.add_imu_ang_vel_ekf(iq, m1, eq, m2, gyro::gyroYaml(gc, b + "gyro.yaml"));
      e.add_imu_propagation(o.first, o.second, imuYaml(c, b + "imu.yaml"));
      if (r.chance(0.5)) ms(r.uni(0, 1));
      if (r.chance(0.5)) e.clear();
      if (r.chance(0.3)) e.InitBias();
    } else if (u < 0.8) {
      gyro::GCfg k = gyro::genCfg(r);
      gyro::Real f(k, gyro::gyroYaml(k, b + "gyro.yaml"));
      if (r.chance(0.6)) f.f->StartImuFilterThread();
      if (r.chance(0.5)) ms(r.uni(0, 1));
      if (r.chance(0.5)) f.f->clear();
    } else {
      estimator::InekfEstimator e;
      if (r.chance(0.3)) e.EnableFilter();
    }
    rmLogs(c);
    for (const char* n : {"est.yaml", "gyro.yaml", "imu.yaml"}) unlink((b + n).c_str());
  };
  int n = g.range(1, 4);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++) {
    uint64_t s = g.next();
    th.emplace_back([&some, s] {
      Rng r(s);
      int k = r.range(1, 4);
      for (int j = 0; j < k; j++) some(r.next());
    });
  }
  for (auto& t : th) t.join();
  rep().count("start-up and shutdown only", n);
  rep().eval(g.next(), false);
}

static void prelude(Rng& g) {
  sched::place(g);
  sched::start(g);
}
static void finish() {
  sched::level.store(0, rlx);
  rep().count("lock operations", sched::locks.exchange(0, rlx));
  rep().count("delays injected", sched::delays.exchange(0, rlx));
}
static void C01(Rng& g, long) {
  prelude(g);
  double u = g.uni();
  if (u < 0.4) {
    rep().phase("C01 estimator");
    Plan p = genPlan(g, false);
    Outcome o;
    runEstimator(g, p, false, o);
    rep().count("estimator runs");
    rep().count("steps", o.steps);
    rep().count("resets", o.clears);
    rep().count("states received", o.consumed);
    rep().eval(o.shape);
    if (rep().want_sample()) rep().sample(fmt("estimator: %d velocity and %d legged sources, %ld steps, %ld resets, %d consumers, logger %d, interleaving %016lx", int(p.c.v.size()), int(p.c.l.size()), o.steps, o.clears, p.consumers, int(p.c.log), (unsigned long)o.shape));
  } else if (u < 0.6) {
    rep().phase("C01 estimator with gyro filter");
    runFiltered(g, false);
  } else if (u < 0.75) {
    rep().phase("C01 gyro filter");
    runGyro(g);
  } else if (u < 0.93) {
    rep().phase("C01 ros");
    runRos(g);
  } else if (u < 0.96) {
    rep().phase("C01 wheel odometry");
    runWheel(g);
  } else {
    rep().phase("C01 life cycle");
    lifecycle(g);
  }
  finish();
}
static void C03(Rng& g, long) {
  prelude(g);
  double u = g.uni();
  if (u < 0.65) {
    rep().phase("C03 estimator");
    Plan p = genPlan(g, true);
    Outcome o;
    runEstimator(g, p, true, o);
    finish();
    judge(p, o);
    rep().count("estimator runs");
    rep().count("resets", o.clears);
    rep().eval(o.shape);
    if (rep().want_sample()) rep().sample(fmt("%d velocity and %d legged sources, %d operations, %ld resets, %d consumers, %ld states received, interleaving %016lx", int(p.c.v.size()), int(p.c.l.size()), int(o.ops.size()), o.clears, p.consumers, o.consumed, (unsigned long)o.shape));
  } else if (u < 0.85) {
    rep().phase("C03 estimator with gyro filter");
    runFiltered(g, true);
  } else if (u < 0.92) {
    rep().phase("C03 ros");
    runRos(g);
  } else {
    rep().phase("C03 life cycle");
    lifecycle(g);
  }
  finish();
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"C01", C01}, {"C03", C03}}); }
