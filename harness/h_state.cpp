// S01..S05, S07: what the estimator consumes, publishes, remembers and obeys.
#include "engine.hpp"
#include "gyro.hpp"
#include "script.hpp"
#include <yaml-cpp/yaml.h>
#include <deque>
#include <dirent.h>
#include <sys/stat.h>
using namespace rig;


// ------------------------------------------------------------------------ S01
// The reference step with another choice of what is applied.
struct Choice {
  int imu = 0;    // 0 as specified, 1 not applied, 2 the new sample instead, 3 a later one
  std::vector<std::vector<int>> src;
};
static bool explains(const Rig& k, const Step& s, const Choice& ch) {
  RS r(s.pre);
  std::vector<Foot> tr = s.tr_pre;
  try {
    ImuMeasurementPtr use = s.iq.empty() ? nullptr : s.prev_pre;
    if (ch.imu == 1) use = nullptr;
    if (ch.imu == 2) use = s.iq.empty() ? s.prev_pre : s.iq[0];
    if (ch.imu == 3) use = s.iq.size() > 1 ? s.iq[1] : s.prev_pre;
    if (use) refPropagate(r, k.c, *use);
    for (size_t i = 0; i < k.order.size(); i++) {
      int j = k.order[i].second;
      for (int x : ch.src[i]) {
        if (k.order[i].first == 'v') refCorrect(r, k.c, velObs(r, k.c.v[j], *s.vq[j][x]));
        else refLeg(r, k.c, k.c.l[j], *std::dynamic_pointer_cast<FakeLeg>(s.lq[j][x]), tr, int(i));
      }
    }
  } catch (const std::exception&) {
    return false;
  }
  return compare(r, s.post, k.c, 1e-8).all() <= 1;
}
static std::string whichInstead(const Rig& k, const Step& s) {
  Choice base;
  for (auto& t : s.takes) base.src.push_back(t.used >= 0 ? std::vector<int>{t.used} : std::vector<int>{});
  for (int m = 1; m <= 3; m++) {
    Choice c = base;
    c.imu = m;
    if (explains(k, s, c)) return m == 1 ? "imu_not_applied" : "imu_wrong_sample";
  }
  for (size_t i = 0; i < k.order.size(); i++) {
    int j = k.order[i].second, n = int(k.order[i].first == 'v' ? s.vq[j].size() : s.lq[j].size()), u = s.takes[i].used;
    std::string nm(1, k.order[i].first);
    Choice c = base;
    if (u >= 0) {
      c.src[i] = {};
      if (explains(k, s, c)) return "accepted_not_applied_" + nm;
      c.src[i] = {u, u};
      if (explains(k, s, c)) return "applied_twice_" + nm;
    }
    for (int x = 0; x < std::min(n, 6); x++) {
      if (x != u) {
        c.src[i] = {x};
        if (explains(k, s, c)) return (u < 0 ? "applied_unacceptable_" : "applied_other_") + nm;
      }
      for (int y = x + 1; y < std::min(n, 6); y++) {
        c.src[i] = {x, y};
        if (explains(k, s, c)) return "applied_several_" + nm;
      }
    }
  }
  return "";
}
static void aheadScenario(Rng& g) {
  Cfg c = scriptCfg(g, 0, 1);
  c.l[0].thr = offGrid(0.05);
  Rig k(c);
  rep().phase("legged ahead");
  start(k, genStart(g, c, 10, 4));
  Snap a = k.now();
  auto m = randLegMeas(g, 4, 15, 10 + 0.5);
  k.push(0, LeggedKinMeasurementPtr(m));
  k.est->RunOnce();
  rep().count("legged measurements ahead of the window");
  if (k.lq[0]->empty() && !same(a, k.now()))
    rep().viol("leg_ahead_applied", "a legged measurement 0.5 s ahead of the propagated state was applied although the threshold is 0.05 s");
}
static void S01(Rng& g, long cs) {
  if (cs == 0) return aheadScenario(g);
  int legs = 4;
  Cfg c = scriptCfg(g, g.range(0, 2), g.range(0, 2));
  Rig k(c);
  double t0;
  randT(g, t0);
  rep().phase("init");
  start(k, genStart(g, c, t0, legs));
  size_t left = 0;
  for (auto& q : k.vq) left += q->size();
  for (auto& q : k.lq) left += q->size();
  if (left || !k.iq->empty()) {
    rep().viol("init_left", "initialisation left samples it should have consumed");
    return;
  }
  Script sc = genScript(g, c, t0, rounds(g, 45), legs);
  for (int i = 0; i < 12; i++) sc.push_back(Ev{'s'});
  rep().phase("run");
  long pushed = 0, used = 0, dropped = 0;
  for (auto& e : sc) {
    if (e.k != 's') {
      feed(k, e);
      pushed++;
      continue;
    }
    Step s = runStep(k, 1e-8);
    rep().count("steps " + (s.kinds.empty() ? std::string("idle") : s.kinds));
    if (!s.queues_ok) rep().viol("queue", s.queue_msg);
    if (s.pub_actual != s.pub_expected) rep().viol("reported_change", fmt("step '%s': %ld states published, expected %ld", s.kinds.c_str(), s.pub_actual, s.pub_expected));
    if (s.post.tp != s.r->tp || s.post.t != s.r->t)
      rep().viol("time", fmt("step '%s': state time %.9f, propagation time %.9f; the applied samples say %.9f and %.9f", s.kinds.c_str(), s.post.t, s.post.tp, s.r->t, s.r->tp));
    bool idle = s.kinds.empty();
    std::string what;
    if (idle && !same(s.pre, s.post, &what)) rep().viol("idle_changed", "nothing was due, yet the step changed the " + what);
    rep().maxi("deviation", s.d.dims ? s.d.all() : 1e9);
    if (s.d.all() > 1) {
      std::string w = whichInstead(k, s);
      if (!w.empty()) rep().viol(w, fmt("step '%s': the estimate is what results when %s", s.kinds.c_str(), w.c_str()));
      else rep().count("steps off for another reason");
    }
    for (size_t i = 0; i < k.order.size(); i++) {
      int j = k.order[i].second;
      auto& t = s.takes[i];
      used += t.used >= 0;
      dropped += t.popped - (t.used >= 0);
      size_t n = k.order[i].first == 'v' ? s.vq[j].size() : s.lq[j].size();
      if (n && !t.popped) rep().count("steps leaving a future measurement");
      if (t.popped > 1) rep().count("steps dropping outdated measurements");
      if (n > 1) rep().count("steps with a backlog");
    }
    rep().eval(Hash().u(digest(s.post)).u(s.kinds.size()).h, !idle);
    if (rep().want_sample() && s.kinds.size() > 1) rep().sample(fmt("step '%s' at %.4f, %d inertial samples waiting", s.kinds.c_str(), s.post.t, int(k.iq->size())));
    if (!s.queues_ok || !inSync(k, s)) return;
    k.drainPublished();
    if (s.post.X.cwiseAbs().maxCoeff() > 1e4 || s.post.P.cwiseAbs().maxCoeff() > 1e6) return;
  }
  rep().count("measurements applied", used);
  rep().count("measurements discarded", dropped);
  rep().count("measurements pushed", pushed);
}

// ------------------------------------------------------------------------ S02
struct Full {
  Snap s;
  int slip;
  std::vector<Vector3d> aug;
  StateType type;
};
static Full full(const RobotState& st) {
  Full f{snap(st), st.get_slip_flag(), {}, st.get_state_type()};
  RobotState c = st;
  for (int i = 5; i < c.dimX(); i++) f.aug.push_back(c.get_aug_state(i));
  return f;
}
static bool same(const Full& a, const Full& b, std::string* w) {
  if (!rig::same(a.s, b.s, w)) return false;
  if (a.slip != b.slip || a.type != b.type || a.s.bias != b.s.bias) {
    *w = "flags";
    return false;
  }
  if (a.aug.size() != b.aug.size()) {
    *w = "contacts";
    return false;
  }
  return true;
}
static void aliasScenario(Rng& g) {
  Cfg c = scriptCfg(g, 0, 1);
  auto run = [&](bool touch) {
    Rng h(77);
    Rig k(c);
    start(k, genStart(h, c, 10, 4));
    k.drainPublished();
    k.push(0, LeggedKinMeasurementPtr(randLegMeas(h, 4, 7, 10.0001)));
    k.est->RunOnce();
    auto p = k.est->get_robot_state_queue_ptr()->back();
    if (touch) p->del_aug_state(5);    // the consumer edits its own snapshot
    k.push(0, LeggedKinMeasurementPtr(randLegMeas(h, 4, 5, 10.0002)));
    k.est->RunOnce();
    return k.now();
  };
  rep().phase("snapshot edited by its reader");
  Snap a = run(false), b = run(true);
  std::string w;
  rep().count("snapshots whose contacts were edited");
  if (!rig::same(a, b, &w)) rep().viol("snapshot_del_aug_alias", "removing a contact from a published snapshot changes what the estimator does next: " + w);
}
// The log writer is a reader too: what a consumer does with a state it took must not reach the log
static void loggedScenario(Rng& g) {
  Cfg c = scriptCfg(g, 0, 0);
  c.log = true;
  std::string dir = rep().work + "/s02_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  c.pose_log = dir + "/pose.txt";
  c.vel_log = dir + "/vel.txt";
  c.log_rate = 1e5;
  rep().phase("states edited while they are logged");
  double t = 1000;
  std::map<double, Vector3d> want;
  {
    Rig k(c);
    start(k, genStart(g, c, t, 4));
    k.drainPublished();
    auto q = k.est->get_robot_state_queue_ptr();
    int burst = g.range(1, 20);
    for (int i = 0; i < 400; i++) {
      t += 0.01;
      k.push(imu(t, g.gvec(0.1), Vector3d(0, 0, 9.8) + g.gvec(0.1)));
      k.est->RunOnce();
      if (i % burst) continue;
      while (q->size()) {
        auto st = q->front();
        q->pop();
        want[st->get_time()] = st->get_world_position();
        st->set_position(Vector3d(-7e7, -7e7, -7e7));
        st->set_time(-1);
      }
    }
    while (q->size()) {
      want[q->front()->get_time()] = q->front()->get_world_position();
      q->pop();
    }
    rep().phase("destroy");
  }
  std::ifstream in(dir + "/pose.txt");
  double r[8];
  long n = 0;
  for (;; n++) {
    for (auto& x : r) in >> x;
    if (!in) break;
    auto w = want.find(r[0]);
    if (w == want.end() || w->second != Vector3d(r[1], r[2], r[3])) {
      rep().viol("logged_after_edit", fmt("record %d of the log (time %.17g, position %.9g %.9g %.9g) is no published state: a consumer edited its copy", int(n), r[0], r[1], r[2], r[3]));
      break;
    }
  }
  rep().count("log records compared while states are edited", n);
  for (auto f : {"/pose.txt", "/vel.txt", "/vel_body_frame.txt"}) unlink((dir + f).c_str());
  rmdir(dir.c_str());
}
// A consumer that falls far behind: every state is kept, in order and as it was
static void backlogScenario(Rng& g) {
  Cfg c = scriptCfg(g, g.range(0, 1), g.range(0, 1));
  Rig k(c);
  rep().phase("long backlog");
  double t = g.chance(0.5) ? 1.6e9 : 10;
  start(k, genStart(g, c, t, 4));
  auto q = k.est->get_robot_state_queue_ptr();
  std::vector<Full> made;
  for (size_t i = q->size(); i-- > 0;) made.push_back(full(k.est->get_state()));
  int n = int(g.logu(600, 9000));
  double pv = g.uni(0, 0.3), pl = g.uni(0, 0.3), thr = 0;
  for (auto& v : c.v) thr = v.thr;
  for (auto& l : c.l) thr = l.thr;
  bool keep = g.chance(0.3);    // the consumer takes the states but holds on to them
  std::vector<std::shared_ptr<RobotState>> held;
  for (int i = 0; i < n; i++) {
    t += g.range(1, 8) * 1e-3;
    k.push(imu(t, g.gvec(0.2), Vector3d(0, 0, 9.8) + g.gvec(0.2)));
    for (size_t j = 0; j < c.v.size(); j++)
      if (g.chance(pv)) k.push(int(j), vel(t - 0.009 - 0.5 * thr * g.uni(), g.gvec(1)));
    for (size_t j = 0; j < c.l.size(); j++)
      if (g.chance(pl)) k.push(int(j), LeggedKinMeasurementPtr(randLegMeas(g, 4, g.below(16), t - 0.009 - 0.5 * thr * g.uni())));
    size_t n0 = q->size();
    k.est->RunOnce();
    for (size_t j = n0; j < q->size(); j++) made.push_back(full(k.est->get_state()));
    if (k.est->get_state().get_X().cwiseAbs().maxCoeff() > 1e6) break;
    while (keep && q->size()) held.push_back(q->front()), q->pop();
  }
  if (!keep && q->size() != made.size()) {
    rep().viol("backlog_lost", fmt("%d states were published while nobody read, %d are in the queue", int(made.size()), int(q->size())));
    return;
  }
  for (; q->size(); q->pop()) held.push_back(q->front());
  std::set<const RobotState*> seen;
  Hash h;
  for (size_t i = 0; i < held.size() && i < made.size(); i++) {
    std::string w;
    if (!same(full(*held[i]), made[i], &w) || !seen.insert(held[i].get()).second) {
      rep().viol("backlog_changed", fmt("state %d of %d in a long backlog is not the one published: %s", int(i), int(held.size()), w.c_str()));
      return;
    }
    h.u(digest(made[i].s));
  }
  rep().eval(h.h, held.size() > 100);
  rep().count("states compared after a long backlog", long(held.size()));
}
static void S02(Rng& g, long cs) {
  if (cs == 0) return aliasScenario(g);
  if (cs % 40 == 1) return loggedScenario(g);
  if (cs % 40 == 2) return backlogScenario(g);
  int legs = 4;
  Cfg c = scriptCfg(g, g.range(0, 2), g.range(0, 2));
  std::unique_ptr<Rig> kp(new Rig(c));
  Rig& k = *kp;
  double t0;
  randT(g, t0);
  std::vector<std::pair<std::shared_ptr<RobotState>, Full>> held;
  auto q = k.est->get_robot_state_queue_ptr();
  auto recheck = [&](size_t from, const char* when) {
    for (size_t i = from; i < held.size(); i++) {
      std::string w;
      if (!same(full(*held[i].first), held[i].second, &w)) {
        rep().viol("snapshot_changed", fmt("published state %d of %d: its %s changed %s", int(i), int(held.size()), w.c_str(), when));
        return false;
      }
    }
    rep().count("snapshots rechecked", long(held.size() - from));
    return true;
  };
  int sessions = g.chance(0.3) ? 2 : 1;
  for (int se = 0; se < sessions; se++) {
    rep().phase("init");
    start(k, genStart(g, c, t0, legs));
    if (q->size() != 1) rep().viol("initial_state", fmt("initialisation published %d states", int(q->size())));
    else {
      std::string w;
      if (!same(full(*q->front()), full(k.est->get_state()), &w)) rep().viol("initial_state", "the published initial state has another " + w);
      held.push_back({q->front(), full(*q->front())});
    }
    Script sc = genScript(g, c, t0, rounds(g, 35, 0.005, 3000), legs);
    std::deque<Full> expect;
    for (size_t i = q->size(); i-- > 0;) expect.push_back(full(k.est->get_state()));
    rep().phase("run");
    double pdrain = g.chance(0.3) ? 0 : g.uni(0.05, 0.8);
    for (auto& e : sc) {
      if (e.k != 's') {
        feed(k, e);
        continue;
      }
      std::vector<size_t> before;
      for (auto& x : k.vq) before.push_back(x->size());
      for (auto& x : k.lq) before.push_back(x->size());
      Full a = full(k.est->get_state());
      size_t n0 = q->size();
      bool imuq = !k.iq->empty();
      k.est->RunOnce();
      Full b = full(k.est->get_state());
      std::string w;
      bool changed = !same(a, b, &w);
      size_t n1 = q->size();
      if (n1 != n0 + (n1 > n0) || n1 < n0) rep().viol("several_published", fmt("one step published %d states", int(n1 - n0)));
      // an informative step always moves the time of the state or some value of it
      if (changed && n1 == n0) rep().viol("not_published", "a step changed the " + w + " but published nothing");
      if (!changed && n1 > n0) {
        // equal values although a sample was applied: only with a sample at hand
        size_t consumed = 0, i = 0;
        for (auto& x : k.vq) consumed += before[i++] - x->size();
        for (auto& x : k.lq) consumed += before[i++] - x->size();
        if (!imuq && !consumed) rep().viol("published_unchanged", "a step without data published a state");
      }
      if (n1 > n0) {
        expect.push_back(b);
        auto st = q->back();
        if (!same(full(*st), b, &w)) rep().viol("not_the_state", "the published state differs from the estimate in its " + w);
        for (auto& h : held)
          if (h.first == st) rep().viol("same_object", "the same object was published twice");
        held.push_back({st, full(*st)});
        rep().eval(digest(b.s), changed);
        rep().count("states published");
        if (rep().want_sample()) rep().sample(fmt("state at %.4f with %d contacts", b.s.t, int(b.aug.size())));
      } else {
        rep().count("steps without news");
      }
      if (!recheck(held.size() > 6 ? held.size() - 6 : 0, "when a later step ran")) return;
      while (q->size() && g.chance(pdrain)) {
        rep().phase("drain");
        auto st = q->front();
        q->pop();
        if (expect.empty() || !same(full(*st), expect.front(), &w)) rep().viol("order", "states leave the queue in another order than they were made");
        if (!expect.empty()) expect.pop_front();
        if (g.chance(0.4)) {    // the reader does what it likes with its snapshot
          Full c0 = full(k.est->get_state());
          size_t idx = 0;
          while (idx < held.size() && held[idx].first != st) idx++;
          if (idx < held.size()) held.erase(held.begin() + idx);
          int what = g.below(5);
          if (what == 0) st->set_X(MatrixXd::Identity(7, 7));
          if (what == 1) st->set_P(MatrixXd::Zero(3, 3));
          if (what == 2) st->set_time(-1), st->set_propagate_time(-2), st->set_body_angular_velocity(Vector3d(1, 2, 3)), st->set_theta(VectorXd::Ones(6));
          if (what == 3) st->clear();
          if (what == 4) {
            auto id = std::make_shared<int>(0);
            int d = st->dimP();
            st->add_aug_state(Vector3d(1, 2, 3), MatrixXd::Identity(d + 3, d + 3), Matrix3d::Identity(), id);
          }
          if (!same(full(k.est->get_state()), c0, &w)) rep().viol("reader_changed_estimator", "editing a snapshot changed the estimator's " + w);
          if (!recheck(0, "when another snapshot was edited")) return;
          rep().count("snapshots edited by the reader");
        }
        rep().phase("run");
      }
      if (b.s.X.cwiseAbs().maxCoeff() > 1e4) break;
    }
    if (!recheck(0, "during the run")) return;
    rep().phase("clear");
    k.est->clear();
    if (!q->empty()) rep().viol("clear_left", "states of the old session are still published after a reset");
    if (!recheck(0, "on reset")) return;
    t0 += g.range(-50, 50);
  }
  rep().phase("destroy");
  kp.reset();
  recheck(0, "when the estimator was destroyed");
}

// ------------------------------------------------------------------------ S03
static void S03(Rng& g, long) {
  int nv = g.range(0, 2), nl = g.range(0, 2), legs = g.range(1, 4);
  Cfg c = scriptCfg(g, nv, nl);
  c.static_init = g.chance(0.6);
  c.init_size = g.chance(0.25) ? 0 : g.chance(0.3) ? g.range(1, 3) : g.range(1, 60);
  c.use_ori = g.chance(0.5);
  if (c.use_ori) c.q_ib = Eigen::Quaterniond::Identity();
  c.rot_std = g.logu(1e-3, 2);
  c.vel_std = g.logu(1e-3, 2);
  c.pos_std = g.logu(1e-3, 2);
  Rig k(c);
  double t = g.range(0, 100);
  bool junk = g.chance(0.25);
  rep().phase("fresh");
  auto pub = [&] { return k.published(); };
  if (k.est->is_enabled()) rep().viol("enabled_early", "a new estimator is enabled");
  // nothing to initialise from
  Snap fresh = k.now();
  k.est->InitState();
  std::string w;
  if (k.est->is_enabled() || pub() || !rig::same(fresh, k.now(), &w)) rep().viol("init_without_data", "initialisation without an inertial sample changed the " + w + " or enabled the filter");
  LM Rib = Rq(c.q_ib), gvec = ref::v3(0, 0, -9.80L);
  // ---- bias
  int need = c.static_init && c.init_size > 0 ? c.init_size : 0;
  LM sumw(3, 1), suma(3, 1);
  int extra = g.range(1, 5), total = need + extra;
  std::vector<ImuMeasurementPtr> im;
  for (int i = 0; i < total; i++) {
    t += 0.005;
    im.push_back(imu(t, g.gvec(0.3), Vector3d(0, 0, 9.8) + g.gvec(1), g.quat()));
  }
  rep().phase("bias");
  int fed = 0, calls = 0;
  // nothing there yet: must wait (unless nothing is needed)
  k.est->InitBias();
  calls++;
  if (need && k.est->BiasInitialized()) rep().viol("bias_too_early", "bias initialised without a sample");
  bool trickle = g.chance(0.5);
  if (!trickle)
    for (auto& m : im) k.push(m), fed++;
  for (; calls < need + 200 && !k.est->BiasInitialized(); calls++) {
    if (trickle && fed < total && g.chance(0.7)) k.push(im[fed++]);
    size_t q0 = k.iq->size();
    k.est->InitBias();
    size_t q1 = k.iq->size();
    if (q1 > q0 || q0 - q1 > 1) rep().viol("bias_consumption", fmt("one call consumed %d samples", int(q0 - q1)));
    int used = fed - int(q1);
    if (used > need) rep().viol("bias_consumption", fmt("%d samples consumed although %d are configured", used, need));
    if (k.est->BiasInitialized() && used < need) rep().viol("bias_too_early", fmt("initialised after %d of %d samples", used, need));
    if (k.est->is_enabled() || pub()) rep().viol("enabled_early", "enabled or published during bias initialisation");
  }
  if (!k.est->BiasInitialized()) {
    if (fed >= total) rep().viol("bias_never", fmt("bias not initialised after %d calls with %d samples, %d configured", calls, fed, need));
    return;
  }
  size_t q0 = k.iq->size();
  for (int i = 0; i < 3; i++) k.est->InitBias();
  if (k.iq->size() != q0) rep().viol("bias_consumption", "a call after completion consumed a sample");
  while (fed < total) k.push(im[fed++]);
  if (int(k.iq->size()) != extra) {
    rep().viol("bias_consumption", fmt("%d of %d samples left, expected %d", int(k.iq->size()), total, extra));
    return;
  }
  LM bg = ref::lm(c.bg0), ba = ref::lm(c.ba0);
  L amax = 0;
  if (need) {
    for (int i = 0; i < need; i++) {
      LM wv = Rib * ref::lm(im[i]->get_angular_velocity());
      LM av = Rib * ref::lm(im[i]->get_lin_acc()) - ref::cross(wv, ref::cross(wv, ref::lm(c.t_ib)));
      LM R = LM::I(3);
      if (c.use_ori) {
        auto q = im[i]->get_quaternion();
        R = ref::quatR(q.w(), q.x(), q.y(), q.z());
      }
      av = av + R.t() * gvec;
      sumw = sumw + wv;
      suma = suma + av;
    }
    bg = (1.0L / need) * sumw;
    ba = (1.0L / need) * suma;
    rep().count("static averages");
    rep().count("static samples averaged", need);
  } else {
    rep().count(c.static_init ? "prior kept: zero samples configured" : "prior used");
  }
  amax = 1e-11L;
  // ---- state
  rep().phase("state");
  Vector3d expectV = Vector3d::Zero();
  double tv = im[need]->get_time();
  LM R0 = LM::I(3);
  if (c.use_ori) {
    auto q = im[need]->get_quaternion();
    R0 = ref::quatR(q.w(), q.x(), q.y(), q.z());
  }
  LM wb = Rib * ref::lm(im[need]->get_angular_velocity());
  LM vexp(3, 1);
  bool anyv = false;
  std::vector<FakeLegPtr> lastLeg(nl);
  std::vector<VelocityMeasurementPtr> lastV(nv);
  for (int i = 0; i < nv; i++)
    for (int j = g.range(1, 4); j > 0; j--) k.push(i, lastV[i] = vel(t + g.uni(-1, 1), g.gvec(2)));
  for (int i = 0; i < nl; i++)
    for (int j = g.range(1, 4); j > 0; j--) {
      lastLeg[i] = randLegMeas(g, legs, g.below(1 << legs), t + g.uni(-1, 1));
      lastLeg[i]->v0 = g.gvec(1);
      for (int a = 0; a < 3; a++) lastLeg[i]->vw.col(a) = g.gvec(1);
      k.push(i, LeggedKinMeasurementPtr(lastLeg[i]));
    }
  L ev = 0;
  for (auto& o : k.order) {
    anyv = true;
    if (o.first == 'v') {
      auto& m = lastV[o.second];
      vexp = R0 * (L(c.v[o.second].scale) * (Rq(c.v[o.second].q) * ref::lm(m->get_velocity())));
      tv = m->get_time();
    } else {
      auto& m = lastLeg[o.second];
      LM wm(3, 3);
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) wm(a, b) = m->vw(a, b);
      vexp = R0 * (ref::lm(m->v0) + wm * wb);
      tv = m->get_time();
    }
  }
  ev = 1e-12L * (1 + nrm(vexp));
  (void)junk;
  k.est->InitState();
  Snap s = k.now();
  auto cmp = [&](const char* key, const MatrixXd& got, const LM& want, L tol) {
    double e = 0;
    for (int i = 0; i < want.r; i++)
      for (int j = 0; j < want.c; j++) {
        double x = double(std::fabs(L(got(i, j)) - want(i, j)) / tol);
        e = std::max(e, x == x ? x : 1e300);
      }
    rep().maxi(std::string("deviation ") + key, e);
    if (e > 1) rep().viol(key, fmt("%s after initialisation is %s, expected %s (static %d size %d orientation %d sources %s)", key, mstr(got).c_str(), mstr(want).c_str(), int(c.static_init), c.init_size, int(c.use_ori), c.corr.c_str()));
  };
  if (!k.est->is_enabled()) rep().viol("not_enabled", "the filter is not enabled after initialisation");
  if (pub() != 1) rep().viol("published", fmt("initialisation published %d states", int(pub())));
  if (s.X.cols() != 5 || s.P.rows() != 15) {
    rep().viol("shape", "the initial state tracks contacts");
    return;
  }
  cmp("orientation", s.X.block<3, 3>(0, 0), R0, 1e-12L);
  cmp("position", s.X.block<3, 1>(0, 4), LM(3, 1), 1e-300L);
  if (anyv) cmp("velocity", s.X.block<3, 1>(0, 3), vexp, ev * 10);
  else cmp("velocity", s.X.block<3, 1>(0, 3), LM(3, 1), 1e-300L);
  cmp("gyro_bias", s.Th.head(3), bg, amax * (1 + bg.maxabs()));
  cmp("accel_bias", s.Th.tail(3), ba, amax * (10 + ba.maxabs()));
  auto var = [&](const char* key, int at, double sd) {
    double want = sd * sd;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        double e = std::fabs(s.P(at + i, at + j) - (i == j ? want : 0));
        if (!(e <= 1e-12 * want)) {
          rep().viol(key, fmt("%s: entry (%d,%d) is %.9g, standard deviation %.9g configured", key, i, j, s.P(at + i, at + j), sd));
          return;
        }
      }
    rep().count("variance blocks");
  };
  var("variance_rotation", 0, c.rot_std);
  var("variance_velocity", 3, c.vel_std);
  var("variance_position", 6, c.pos_std);
  var("variance_gyro_bias", 9, c.gb);
  var("variance_accel_bias", 12, c.ab);
  for (int i = 0; i < 15; i++)
    for (int j = 0; j < 15; j++)
      if (i / 3 != j / 3 && s.P(i, j) != 0) {
        rep().viol("correlated_start", fmt("initial covariance correlates entries %d and %d", i, j));
        i = j = 15;
      }
  if (s.tp != im[need]->get_time()) rep().viol("time", fmt("propagation time %.9f, the sample used is of %.9f", s.tp, im[need]->get_time()));
  if (s.t != tv) rep().viol("time", fmt("state time %.9f, expected %.9f", s.t, tv));
  if (s.bias != c.bias) rep().viol("bias_flag", "bias estimation flag not as configured");
  if (int(k.iq->size()) != extra - 1) rep().viol("init_consumption", fmt("initialisation left %d inertial samples, expected %d", int(k.iq->size()), extra - 1));
  for (auto& q : k.vq)
    if (!q->empty()) rep().viol("init_consumption", "velocity measurements older than the one used were left");
  for (auto& q : k.lq)
    if (!q->empty()) rep().viol("init_consumption", "leg measurements older than the one used were left");
  // the first steps start from the sample used
  k.prev = im[need];
  k.tr.clear();
  for (int i = 0; i + 1 < extra; i++) {
    rep().phase("first steps");
    Step st = runStep(k, 1e-8);
    if (st.post.tp != st.r->tp) rep().viol("first_steps", "the first step does not start from the sample used for initialisation");
    if (!st.queues_ok) rep().viol("first_steps", st.queue_msg);
  }
  rep().eval(digest(s));
  if (rep().want_sample()) rep().sample(fmt("static %d, size %d, orientation from imu %d, sources '%s'", int(c.static_init), c.init_size, int(c.use_ori), c.corr.c_str()));
}

// ------------------------------------------------------------------ S04, S05
// Everything observable of a run
struct Trace {
  std::vector<Snap> s;
  std::vector<size_t> q;
  std::vector<Snap> pub;
};
static void note(Trace& t, Rig& k) {
  t.s.push_back(k.now());
  size_t n = k.iq->size();
  for (auto& q : k.vq) n = n * 31 + q->size();
  for (auto& q : k.lq) n = n * 31 + q->size();
  t.q.push_back(n * 2 + k.est->is_enabled());
  auto p = k.est->get_robot_state_queue_ptr();
  while (!p->empty()) {
    t.pub.push_back(snap(*p->front()));
    p->pop();
  }
}
static bool equal(const Trace& a, const Trace& b, std::string* w) {
  if (a.s.size() != b.s.size()) {
    *w = "lengths";
    return false;
  }
  for (size_t i = 0; i < a.s.size(); i++) {
    if (!rig::same(a.s[i], b.s[i], w)) {
      *w += fmt(" at step %d of %d", int(i), int(a.s.size()));
      return false;
    }
    if (a.q[i] != b.q[i]) {
      *w = fmt("queues at step %d", int(i));
      return false;
    }
  }
  if (a.pub.size() != b.pub.size()) {
    *w = "number of published states";
    return false;
  }
  for (size_t i = 0; i < a.pub.size(); i++)
    if (!rig::same(a.pub[i], b.pub[i], w)) {
      *w = "published " + *w;
      return false;
    }
  return true;
}
static void runScript(Rig& k, const Start& st, const Script& sc, Trace& t) {
  start(k, st);
  note(t, k);
  for (auto& e : sc) {
    if (e.k != 's') {
      feed(k, e);
      continue;
    }
    k.est->RunOnce();
    note(t, k);
  }
}
static void S04(Rng& g, long) {
  int legs = 4;
  Cfg c = scriptCfg(g, g.range(0, 2), g.range(0, 2));
  c.static_init = g.chance(0.3);
  c.init_size = g.range(0, 5);
  std::vector<ImuMeasurementPtr> cal;
  for (int i = 0; i < 8; i++) cal.push_back(imu(-1 + 0.01 * i, g.gvec(0.05), Vector3d(0, 0, 9.8) + g.gvec(0.1)));
  double t0, t1;
  randT(g, t0);
  Start st = genStart(g, c, t0, legs);
  Script sc = genScript(g, c, t0, rounds(g, 25, 0.005), legs);
  auto calibrate = [&](Rig& k) {
    if (!c.static_init || c.init_size == 0) return;
    for (int i = 0; i < c.init_size; i++) k.push(clone(cal[i]));
    for (int i = 0; i < 100 && !k.est->BiasInitialized(); i++) k.est->InitBias();
  };
  bool early = !c.static_init && g.chance(0.5);    // data and steps before InitState
  auto session = [&](Rig& k, Trace& t) {
    if (early) {
      k.push(imu(t0 - 0.02, Vector3d(0.1, 0.2, 0.3), Vector3d(0, 1, 9)));
      k.est->RunOnce();
      note(t, k);
      k.push(imu(t0 - 0.01, Vector3d(0.1, 0.2, 0.3), Vector3d(0, 1, 9)));
      k.est->RunOnce();
      note(t, k);
    }
    runScript(k, st, sc, t);
  };
  Trace ref, got;
  rep().phase("fresh session");
  {
    Rig k(c);
    calibrate(k);
    session(k, ref);
  }
  Rig k(c);
  // a calibration that a reset interrupts counts for nothing
  if (c.static_init && c.init_size > 0)
    for (int r = g.chance(0.5) ? 0 : g.range(1, 2); r > 0; r--) {
      rep().phase("interrupted calibration");
      int n = g.range(0, c.init_size);
      for (int i = 0; i < n; i++) {
        k.push(imu(g.uni(0, 10), g.gvec(2), g.gvec(20), g.quat()));
        if (g.chance(0.9)) k.est->InitBias();
      }
      if (k.est->BiasInitialized()) rep().viol("calibrated_early", fmt("calibrated by %d of %d samples", n, c.init_size));
      k.est->clear();
      rep().count("calibrations interrupted by a reset");
    }
  calibrate(k);
  int resets = g.range(1, 3);
  for (int r = 0; r < resets; r++) {
    rep().phase("earlier session");
    randT(g, t1);
    Script junk = genScript(g, c, t1, rounds(g, g.range(0, 25), 0.005), legs);
    bool inited = g.chance(0.85);
    if (inited) start(k, genStart(g, c, t1, legs));
    for (auto& e : junk) {
      if (e.k != 's') feed(k, e);
      else k.est->RunOnce();
      if (g.chance(0.2)) k.drainPublished();
    }
    rep().count(fmt("contacts tracked at reset %d", int(k.now().X.cols()) - 5));
    // something left everywhere
    if (g.chance(0.7)) {
      k.push(imu(t1 + 50, g.gvec(1), g.gvec(10)));
      for (size_t i = 0; i < k.vq.size(); i++) k.push(int(i), vel(t1 + g.uni(-1, 99), g.gvec(1)));
      for (size_t i = 0; i < k.lq.size(); i++) k.push(int(i), LeggedKinMeasurementPtr(randLegMeas(g, legs, 15, t1)));
    }
    if (g.chance(0.1)) {
      RobotState odd = k.est->get_state();
      odd.set_theta(VectorXd::Ones(6));
      k.est->set_state(odd);
    }
    rep().phase("reset");
    k.est->clear();
    if (g.chance(0.1)) k.est->clear();
    if (k.est->is_enabled()) rep().viol("still_enabled", "the filter is still enabled after a reset");
    if (!k.iq->empty()) rep().viol("left_in_queue", "inertial samples survive a reset");
    for (auto& q : k.vq)
      if (!q->empty()) rep().viol("left_in_queue", "velocity measurements survive a reset");
    for (auto& q : k.lq)
      if (!q->empty()) rep().viol("left_in_queue", "leg measurements survive a reset");
    if (k.published()) rep().viol("left_in_queue", "published states survive a reset");
    if (k.now().X.cols() != 5) rep().viol("contacts_survive", "contacts are still tracked after a reset");
    rep().count("resets");
  }
  rep().phase("session after reset");
  session(k, got);
  std::string w;
  if (!equal(ref, got, &w)) rep().viol("differs", fmt("a session after %d resets differs from the same session on a new estimator: %s", resets, w.c_str()));
  rep().count("steps compared", long(got.s.size()));
  for (auto& s : got.s) rep().eval(digest(s));
  if (rep().want_sample()) rep().sample(fmt("%d resets, %d steps compared, sources '%s'", resets, int(got.s.size()), c.corr.c_str()));
}

typedef std::vector<std::vector<ImuMeasurementPtr>> GyroOut;
static GyroOut gyroRun(gyro::Real& r, const std::vector<gyro::Ev>& sc) {
  GyroOut o;
  for (auto& e : sc) {
    if (e.k != 's') {
      gyro::feed(r, e);
      continue;
    }
    r.f->RunOnce();
    o.push_back(items(*r.out));
    while (!r.out->empty()) r.out->pop();
  }
  return o;
}
static bool gyroSame(const GyroOut& a, const GyroOut& b) {
  for (size_t k = 0; k < a.size(); k++) {
    if (a[k].size() != b[k].size()) return false;
    for (size_t i = 0; i < a[k].size(); i++)
      if (a[k][i]->get_time() != b[k][i]->get_time() || a[k][i]->get_angular_velocity() != b[k][i]->get_angular_velocity()) return false;
  }
  return true;
}
// The gyro filter is a function of its inputs, too.
static std::vector<gyro::Ev> withIdle(const std::vector<gyro::Ev>& sc, const gyro::GCfg& c, Rng& g, bool insert, std::vector<bool>* extra) {
  // idle steps go where nothing is queued
  gyro::Model m(c);
  std::vector<gyro::Ev> o;
  for (auto& e : sc) {
    o.push_back(e);
    if (e.k != 's') {
      gyro::feed(m, e);
      continue;
    }
    extra->push_back(false);
    m.step();
    bool empty = m.gyr.empty() && m.enc.empty() && m.ready;
    for (auto& q : m.imu) empty = empty && q.empty();
    if (empty && insert)
      for (int n = g.range(1, 5); n > 0; n--) {
        o.push_back(gyro::Ev{'s'});
        extra->push_back(true);
      }
  }
  return o;
}
static GyroOut without(const GyroOut& o, const std::vector<bool>& extra) {
  GyroOut r;
  for (size_t i = 0; i < o.size(); i++)
    if (!extra[i]) r.push_back(o[i]);
  return r;
}
static void gyroIdleSpin() {
  // the finding: every call of a random-walk filter adds process noise
  gyro::GCfg c;
  c.five = true;
  c.method = gyro::ONE_IMU;
  std::string p = rep().work + "/" + std::to_string(getpid()) + "_spin.yaml";
  gyro::gyroYaml(c, p);
  rep().phase("gyro filter, idle steps");
  auto run = [&](int idle) {
    gyro::Real r(c, p);
    for (int k = 0; k < 20; k++) {
      r.imu[0]->push(imu(k * 0.01, Vector3d(0.1, 0.2, 0.3 + 0.01 * (k % 3)), Vector3d(0, 0, 9.8)));
      for (int n = 0; n <= idle; n++) r.f->RunOnce();
    }
    return items(*r.out);
  };
  auto a = run(1), b = run(10);
  if (a.size() != b.size() || a.back()->get_angular_velocity() != b.back()->get_angular_velocity())
    rep().viol("gyro_idle_spin", fmt("gyro filter without a propagation gyro: ten calls instead of two per sample change the 20th fused rate from %s to %s", mstr(a.back()->get_angular_velocity().transpose()).c_str(), mstr(b.back()->get_angular_velocity().transpose()).c_str()));
}
static void gyroDeterminism(Rng& g) {
  using namespace gyro;
  GCfg c = genCfg(g), c2 = genCfg(g);
  std::string p = rep().work + "/" + std::to_string(getpid());
  gyroYaml(c, p + "_g1.yaml");
  gyroYaml(c2, p + "_g2.yaml");
  auto sc = genScript(g, c, 250, false), sc2 = genScript(g, c2, 250, false);
  GyroOut a, b, d;
  rep().phase("gyro filter, first run");
  {
    Real r(c, p + "_g1.yaml");
    a = gyroRun(r, sc);
  }
  rep().phase("gyro filter, interleaved");
  {
    Real r(c, p + "_g1.yaml"), o(c2, p + "_g2.yaml");
    size_t k = 0;
    for (auto& e : sc) {
      while (k < sc2.size() && g.chance(0.5)) {
        if (sc2[k].k == 's') o.f->RunOnce();
        else gyro::feed(o, sc2[k]);
        k++;
      }
      if (e.k != 's') {
        gyro::feed(r, e);
        continue;
      }
      r.f->RunOnce();
      b.push_back(items(*r.out));
      while (!r.out->empty()) r.out->pop();
    }
  }
  if (!gyroSame(a, b)) rep().viol("gyro:isolation", "a gyro filter's output depends on another gyro filter, or differs between runs");
  if (c.gyro) {
    std::vector<bool> extra;
    rep().phase("gyro filter, idle steps");
    auto si = withIdle(sc, c, g, true, &extra);
    Real r(c, p + "_g1.yaml");
    d = without(gyroRun(r, si), extra);
    if (d.size() != a.size() || !gyroSame(a, d)) rep().viol("gyro:idle_steps", "idle steps of a gyro-propagated filter change its output");
    rep().count("gyro filter idle steps", long(std::count(extra.begin(), extra.end(), true)));
  }
  Hash h;
  for (auto& x : a)
    for (auto& m : x) h.m(m->get_angular_velocity());
  rep().eval(h.h);
  rep().count("gyro filter runs compared");
}
static void S05(Rng& g, long cs) {
  if (cs == 0) return gyroIdleSpin();
  if (g.chance(0.2)) return gyroDeterminism(g);
  int legs = 4;
  Cfg c = scriptCfg(g, g.range(0, 2), g.range(0, 2)), c2 = scriptCfg(g, g.range(0, 2), g.range(0, 2));
  double t0, t1;
  randT(g, t0);
  randT(g, t1);
  Start st = genStart(g, c, t0, legs), st2 = genStart(g, c2, t1, legs);
  Script sc = genScript(g, c, t0, rounds(g, 25, 0.005), legs), sc2 = genScript(g, c2, t1, 25, legs);
  std::string w;
  Trace a, b;
  {
    rep().phase("first run");
    Rig k(c);
    runScript(k, st, sc, a);
  }
  if (g.chance(0.3)) {
    rep().phase("repeated run");
    Rig k(c);
    runScript(k, st, sc, b);
    if (!equal(a, b, &w)) rep().viol("not_repeatable", "a repeated run differs: " + w);
    rep().count("repeated runs");
  } else {
    rep().phase("interleaved run");
    Rig k(c), o(c2);
    start(o, st2);
    start(k, st);
    note(b, k);
    size_t j = 0;
    for (auto& e : sc) {
      for (int n = g.below(3); n > 0 && j < sc2.size(); n--, j++) {
        if (sc2[j].k != 's') feed(o, sc2[j]);
        else o.est->RunOnce();
      }
      if (g.chance(0.02)) o.est->clear(), start(o, st2);
      if (e.k != 's') {
        feed(k, e);
        continue;
      }
      k.est->RunOnce();
      note(b, k);
    }
    if (!equal(a, b, &w)) rep().viol("instances_interact", "a second estimator in the process changes the result: " + w);
    rep().count("interleaved runs");
  }
  // One inertial sample per step; queued ahead by any amount, idle steps in between
  rep().phase("batching");
  struct Tick {
    ImuMeasurementPtr m;
    std::vector<Ev> c;
  };
  std::vector<Tick> tk;
  double t = t0, tp = t0, prev = t0;
  std::vector<unsigned> mask(c.l.size(), 0);
  for (int i = 0; i < 30; i++) {
    Tick x;
    t += g.range(1, 10) * 1e-3;
    x.m = imu(t, g.gvec(0.5), Vector3d(0, 0, 9.8) + g.gvec(0.5));
    tp = prev;
    prev = t;
    for (size_t j = 0; j < c.v.size(); j++)
      if (g.chance(0.4)) {
        Ev e{'v', int(j)};
        e.v = vel(tp + g.range(-15, 8) * 1e-3 + 0.37e-3, g.gvec(1));
        x.c.push_back(e);
      }
    for (size_t j = 0; j < c.l.size(); j++)
      if (g.chance(0.4)) {
        mask[j] ^= g.below(16) & g.below(16);
        Ev e{'l', int(j)};
        e.l = randLegMeas(g, legs, mask[j], tp + g.range(-5, 5) * 1e-3 + 0.37e-3, 0.1);
        x.c.push_back(e);
      }
    tk.push_back(x);
  }
  auto play = [&](int mode, Trace& tr) {
    Rig k(c);
    start(k, st);
    size_t ahead = 0;
    for (size_t i = 0; i < tk.size(); i++) {
      if (ahead <= i) k.push(clone(tk[i].m)), ahead = i + 1;
      if (mode == 1)
        for (int n = g.below(6); n > 0 && ahead < tk.size(); n--) k.push(clone(tk[ahead++].m));
      for (auto& e : tk[i].c) feed(k, e);
      k.est->RunOnce();
      tr.s.push_back(k.now());
      if (mode == 2)
        for (int n = g.below(4); n > 0; n--) {
          // idle means idle: nothing is due at any source
          bool due = !k.iq->empty();
          for (size_t j = 0; j < k.vq.size(); j++) due = due || velTake(items(*k.vq[j]), k.now().tp, c.v[j].thr).popped;
          for (auto& q : k.lq) due = due || !q->empty();
          if (due) break;
          k.est->RunOnce();
          rep().count("idle steps inserted");
          std::string x;
          if (!rig::same(tr.s.back(), k.now(), &x)) rep().viol("idle_step", "an idle step changed the " + x);
        }
    }
    auto q = k.est->get_robot_state_queue_ptr();
    while (!q->empty()) {
      tr.pub.push_back(snap(*q->front()));
      q->pop();
    }
    tr.q.assign(tr.s.size(), 0);
  };
  Trace p0, p1, p2;
  play(0, p0);
  play(1, p1);
  play(2, p2);
  if (!equal(p0, p1, &w)) rep().viol("batching", "queueing inertial samples ahead changes the result: " + w);
  if (!equal(p0, p2, &w)) rep().viol("idle_steps", "idle steps change the result: " + w);
  rep().count("batching comparisons", 2);
  for (auto& s : a.s) rep().eval(digest(s));
  if (rep().want_sample()) rep().sample(fmt("%d steps repeated, %d ticks batched, sources '%s'", int(a.s.size()), int(tk.size()), c.corr.c_str()));
}

// ------------------------------------------------------------------------ S07
struct Key {
  std::string name;
  std::function<void(Cfg&, const Cfg&)> dflt;    // sets the value the absent setting means
};
#define DF(field) [](Cfg& c, const Cfg& d) { c.field = d.field; }
static std::vector<Key> keys() {
  std::vector<Key> k = {
      {"rotation_std_value", DF(rot_std)}, {"velocity_std_value", DF(vel_std)}, {"position_std_value", DF(pos_std)},
      {"static_bias_initialization", [](Cfg& c, const Cfg&) { c.static_init = true; }},
      {"init_bias_size", DF(init_size)}, {"use_imu_ori_to_init", DF(use_ori)}, {"enable_imu_bias_update", DF(bias)},
      {"rotation_imu2body", DF(q_ib)}, {"translation_imu2body", DF(t_ib)}, {"gyroscope_bias", DF(bg0)}, {"accelerometer_bias", DF(ba0)},
      {"gyroscope_std", DF(gyro)}, {"accelerometer_std", DF(acc)}, {"gyroscope_bias_std", DF(gb)}, {"accelerometer_bias_std", DF(ab)},
      {"v.correction_time_threshold", [](Cfg& c, const Cfg&) { for (auto& v : c.v) v.thr = 0.3; }},
      {"rotation_vel2body", [](Cfg& c, const Cfg&) { for (auto& v : c.v) v.q = Eigen::Quaterniond::Identity(); }},
      {"velocity_scale", [](Cfg& c, const Cfg&) { for (auto& v : c.v) v.scale = 1; }},
      {"velocity_std", [](Cfg& c, const Cfg&) { for (auto& v : c.v) v.std = 0.1; }},
      {"l.correction_time_threshold", [](Cfg& c, const Cfg&) { for (auto& l : c.l) l.thr = 0.3; }},
      {"encoder_std", [](Cfg& c, const Cfg&) { for (auto& l : c.l) l.enc = 0.01; }},
      {"kinematics_additive_std", [](Cfg& c, const Cfg&) { for (auto& l : c.l) l.add = 0.05; }},
      {"contact_std", [](Cfg& c, const Cfg&) { for (auto& l : c.l) l.contact = 0.1; }},
  };
  return k;
}
// Values a broken lookup could have in force instead of x.
static std::vector<double> wrongNumbers(double x, const std::vector<double>& others) {
  std::vector<double> o = {0, 1, -x, x * x, std::sqrt(std::fabs(x)), 2 * x, x / 2, 0.1, 0.3, 0.01, 0.05, x * M_PI / 180, x * 180 / M_PI, 1 / (x + 1e-9), 1e-3 * x, 1e3 * x};
  o.insert(o.end(), others.begin(), others.end());
  return o;
}
static std::vector<std::pair<std::string, Cfg>> wrongConfigs(const Cfg& c) {
  std::vector<std::pair<std::string, Cfg>> o;
  Cfg d;
  std::vector<double> nums = {c.gyro, c.acc, c.gb, c.ab, c.rot_std, c.vel_std, c.pos_std};
  for (auto& v : c.v) nums.push_back(v.std), nums.push_back(v.scale);
  for (auto& l : c.l) nums.push_back(l.enc), nums.push_back(l.add), nums.push_back(l.contact);
  auto num = [&](const char* n, std::function<double&(Cfg&)> f) {
    Cfg x = c;
    double cur = f(x), df = 0.1;
    {
      Cfg y = d;
      y.v.resize(2);
      y.l.resize(2);
      df = f(y);
    }
    auto w = wrongNumbers(cur, nums);
    w.push_back(df);
    for (double z : w)
      if (z != cur) {
        Cfg y = c;
        f(y) = z;
        o.push_back({n, y});
      }
  };
  num("gyroscope_std", [](Cfg& x) -> double& { return x.gyro; });
  num("accelerometer_std", [](Cfg& x) -> double& { return x.acc; });
  num("gyroscope_bias_std", [](Cfg& x) -> double& { return x.gb; });
  num("accelerometer_bias_std", [](Cfg& x) -> double& { return x.ab; });
  for (size_t i = 0; i < c.v.size(); i++) {
    num("velocity_std", [i](Cfg& x) -> double& { return x.v[i].std; });
    num("velocity_scale", [i](Cfg& x) -> double& { return x.v[i].scale; });
    for (auto q : {c.v[i].q.conjugate(), Eigen::Quaterniond::Identity(), Eigen::Quaterniond(c.v[i].q.x(), c.v[i].q.y(), c.v[i].q.z(), c.v[i].q.w()), c.q_ib}) {
      Cfg y = c;
      y.v[i].q = q;
      o.push_back({"rotation_vel2body", y});
    }
  }
  for (size_t i = 0; i < c.l.size(); i++) {
    num("encoder_std", [i](Cfg& x) -> double& { return x.l[i].enc; });
    num("kinematics_additive_std", [i](Cfg& x) -> double& { return x.l[i].add; });
    num("contact_std", [i](Cfg& x) -> double& { return x.l[i].contact; });
  }
  for (auto q : {c.q_ib.conjugate(), Eigen::Quaterniond::Identity(), Eigen::Quaterniond(c.q_ib.x(), c.q_ib.y(), c.q_ib.z(), c.q_ib.w())}) {
    Cfg y = c;
    y.q_ib = q;
    o.push_back({"rotation_imu2body", y});
  }
  for (auto t : {Vector3d(0, 0, 0), Vector3d(-c.t_ib), Vector3d(c.t_ib.y(), c.t_ib.x(), c.t_ib.z()), Vector3d(c.q_ib.toRotationMatrix() * c.t_ib), Vector3d(c.q_ib.toRotationMatrix().transpose() * c.t_ib)}) {
    Cfg y = c;
    y.t_ib = t;
    o.push_back({"translation_imu2body", y});
  }
  return o;
}
// The initial values that follow from settings alone (no static average).
static void checkInit(const Snap& s, const Cfg& c, const Start& st) {
  auto chk = [&](const char* key, double got, double want, double tol) {
    if (!(std::fabs(got - want) <= tol)) rep().viol(std::string("setting:") + key, fmt("%s: effect %.12g, expected %.12g", key, got, want));
  };
  for (int i = 0; i < 3; i++) {
    chk("rotation_std_value", s.P(i, i), c.rot_std * c.rot_std, 1e-9 * c.rot_std * c.rot_std);
    chk("velocity_std_value", s.P(3 + i, 3 + i), c.vel_std * c.vel_std, 1e-9 * c.vel_std * c.vel_std);
    chk("position_std_value", s.P(6 + i, 6 + i), c.pos_std * c.pos_std, 1e-9 * c.pos_std * c.pos_std);
    chk("gyroscope_bias_std", s.P(9 + i, 9 + i), c.gb * c.gb, 1e-9 * c.gb * c.gb);
    chk("accelerometer_bias_std", s.P(12 + i, 12 + i), c.ab * c.ab, 1e-9 * c.ab * c.ab);
    chk("gyroscope_bias", s.Th[i], c.bg0[i], 1e-12);
    chk("accelerometer_bias", s.Th[3 + i], c.ba0[i], 1e-12);
  }
  chk("enable_imu_bias_update", s.bias, c.bias, 0);
  Matrix3d R = c.use_ori ? st.im->get_quaternion().normalized().toRotationMatrix() : Matrix3d::Identity();
  chk("use_imu_ori_to_init", (s.X.block<3, 3>(0, 0) - R).norm(), 0, 1e-9);
}
// The written defaults of two variances are squares of a rounded root
static bool near(const Snap& a, const Snap& b, std::string* w) {
  auto dm = [&](const char* n, const MatrixXd& x, const MatrixXd& y) {
    if (x.rows() == y.rows() && x.cols() == y.cols() && (x - y).cwiseAbs().maxCoeff() <= 1e-8 * (1 + y.cwiseAbs().maxCoeff())) return true;
    *w = n;
    return false;
  };
  if (a.t != b.t || a.tp != b.tp) return *w = "time", false;
  return dm("mean", a.X, b.X) && dm("biases", a.Th, b.Th) && dm("covariance", a.P, b.P) && dm("noise", a.Qc, b.Qc);
}
static void settingsCase(Rng& g) {
  int legs = 3;
  Cfg c = scriptCfg(g, g.range(0, 1), g.range(0, 1)), d;
  c.use_ori = g.chance(0.5);
  c.rot_std = g.logu(0.01, 1);
  c.vel_std = g.logu(0.01, 1);
  c.pos_std = g.logu(0.01, 1);
  c.t_ib = g.gvec(0.3);
  // zero is a value like any other
  for (double* z : {&c.rot_std, &c.vel_std, &c.pos_std, &c.gyro, &c.acc, &c.gb, &c.ab})
    if (g.chance(0.04)) *z = 0;
  for (auto& l : c.l) {
    if (g.chance(0.06)) l.contact = 0;
    if (g.chance(0.06)) l.enc = 0;
  }
  for (auto& v : c.v)
    if (g.chance(0.04)) v.scale = 0;
  if (g.chance(0.04)) c.bg0.setZero();
  if (g.chance(0.04)) c.ba0.setZero();
  double po = g.pick(std::vector<double>{0.1, 0.5, 0.9});
  for (auto& k : keys())
    if (g.chance(po)) {
      c.omit.insert(k.name);
      k.dflt(c, d);
    }
  // absent: static initialisation is on, and with it the number of samples 0
  if (!c.has("static_bias_initialization")) c.init_size = 0;
  Cfg e = c;
  e.omit.clear();
  double t0 = g.range(0, 100);
  Start st = genStart(g, c, t0, legs);
  rep().phase("settings");
  Rig a(c), b(e);
  start(a, st);
  start(b, st);
  checkInit(a.now(), c, st);
  std::string w;
  if (!near(a.now(), b.now(), &w)) rep().viol("absent_is_not_default", "with settings left out the initial " + w + " differs from the one with their defaults written out");
  Script sc = genScript(g, c, t0, rounds(g, 25, 0.003, 600), legs, true);
  for (auto& ev : sc) {
    if (ev.k != 's') {
      feed(a, ev);
      feed(b, ev);
      continue;
    }
    Step s = runStep(a, 1e-8);
    b.est->RunOnce();
    if (!near(a.now(), b.now(), &w)) {
      rep().viol("absent_is_not_default", "with settings left out the " + w + " differs from the one with their defaults written out");
      return;
    }
    rep().eval(digest(s.post), !s.kinds.empty());
    if (!s.queues_ok) {    // acceptance windows are the only settings that act on the queues
      // would another window explain what was taken?
      for (size_t i = 0; i < a.order.size(); i++) {
        int j = a.order[i].second;
        bool v = a.order[i].first == 'v';
        double thr = v ? c.v[j].thr : c.l[j].thr;
        size_t left = v ? a.vq[j]->size() : a.lq[j]->size(), had = v ? s.vq[j].size() : s.lq[j].size();
        int took = int(had - left);
        if (s.takes[i].popped == took) continue;
        std::vector<double> alts = {0, 0.3, 0.1, 0.5 * thr, 2 * thr, 1e9};
        for (size_t n = 0; n < had; n++) alts.push_back(s.post.tp - (v ? s.vq[j][n]->get_time() : s.lq[j][n]->get_time()) + 1e-9);
        for (double alt : alts) {
          if (alt < 0) continue;
          int pop = v ? velTake(s.vq[j], s.post.tp, alt).popped : legTake(s.lq[j], s.post.tp, alt).popped;
          if (pop == took) {
            rep().viol("setting:correction_time_threshold", s.queue_msg);
            return;
          }
        }
      }
      return;
    }
    if (s.d.all() > 1) {
      for (auto& alt : wrongConfigs(c)) {
        Rig* none = nullptr;
        (void)none;
        RS r(s.pre);
        std::vector<Foot> tr = s.tr_pre;
        bool ok = true;
        try {
          if (!s.iq.empty() && s.prev_pre) refPropagate(r, alt.second, *s.prev_pre);
          for (size_t i = 0; i < a.order.size(); i++) {
            if (s.takes[i].used < 0) continue;
            int j = a.order[i].second;
            if (a.order[i].first == 'v') refCorrect(r, alt.second, velObs(r, alt.second.v[j], *s.vq[j][s.takes[i].used]));
            else refLeg(r, alt.second, alt.second.l[j], *std::dynamic_pointer_cast<FakeLeg>(s.lq[j][s.takes[i].used]), tr, int(i));
          }
        } catch (const std::exception&) {
          ok = false;
        }
        Diff df = compare(r, s.post, alt.second, 1e-8);
        if (ok && df.all() <= 1 && df.Qc <= 1) {
          rep().viol("setting:" + alt.first, fmt("step '%s' behaves as if %s had another value than the configured one", s.kinds.c_str(), alt.first.c_str()));
          return;
        }
      }
      rep().count("steps off for another reason");
      return;
    }
    if (s.post.X.cwiseAbs().maxCoeff() > 1e3) return;
  }
  for (auto& k : keys()) rep().count((c.omit.count(k.name) ? "absent " : "present ") + k.name);
  if (rep().want_sample()) rep().sample(fmt("%d of %d settings absent, sources '%s'", int(c.omit.size()), int(keys().size()), c.corr.c_str()));
}
// static settings: size and orientation, via the bias that results
static void staticCase(Rng& g) {
  Cfg c = scriptCfg(g, 0, 0);
  c.static_init = true;
  c.init_size = g.range(0, 20);
  c.bg0 = Vector3d(7, 8, 9);
  Rig k(c);
  rep().phase("static settings");
  std::vector<ImuMeasurementPtr> im;
  for (int i = 0; i < 30; i++) {
    im.push_back(imu(i * 0.01, g.gvec(1), Vector3d(0, 0, 9.8)));
    k.push(im.back());
  }
  for (int i = 0; i < 60 && !k.est->BiasInitialized(); i++) k.est->InitBias();
  int used = 30 - int(k.iq->size());
  if (used != c.init_size) rep().viol("setting:init_bias_size", fmt("%d samples were used, %d configured", used, c.init_size));
  rep().count("static settings");
}
// ---- files that ship with the project
static bool exists(const std::string& p) {
  struct stat s;
  return stat(p.c_str(), &s) == 0;
}
static std::vector<std::string> configDirs(const char* with = "/imu_propagation.yaml") {
  const char* root = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
  std::vector<std::string> o;
  std::string base = std::string(root) + "/config/";
  if (DIR* d = opendir(base.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n[0] != '.' && exists(base + n + with)) o.push_back(base + n);
    }
    closedir(d);
  }
  std::sort(o.begin(), o.end());
  return o;
}
static void shippedCase(Rng& g, const std::string& dir) {
  auto num = [](const YAML::Node& n, double df) { return n ? n.as<double>() : df; };
  auto v3 = [](const YAML::Node& n, Vector3d df) {
    if (!n) return df;
    auto x = n.as<std::vector<double>>();
    return Vector3d(x[0], x[1], x[2]);
  };
  auto qt = [](const YAML::Node& n) {
    if (!n) return Eigen::Quaterniond::Identity();
    auto x = n.as<std::vector<double>>();
    return Eigen::Quaterniond(x[0], x[1], x[2], x[3]);
  };
  rep().phase("shipped " + dir.substr(dir.rfind('/') + 1));
  std::string vf = dir + "/velocity_correction.yaml", lf = dir + "/legged_kinematics_correction.yaml", ef = dir + "/inekf_estimator.yaml";
  YAML::Node I = YAML::LoadFile(dir + "/imu_propagation.yaml");
  Cfg c;
  c.et = g.chance(0.5) ? RightInvariant : LeftInvariant;
  auto S = I["settings"], N = I["noises"], P = I["priors"];
  c.static_init = S["static_bias_initialization"] ? S["static_bias_initialization"].as<bool>() : true;
  c.init_size = int(num(S["init_bias_size"], 0));
  c.use_ori = S["use_imu_ori_to_init"] ? S["use_imu_ori_to_init"].as<bool>() : false;
  c.bias = S["enable_imu_bias_update"] ? S["enable_imu_bias_update"].as<bool>() : false;
  c.q_ib = qt(S["rotation_imu2body"]);
  c.t_ib = v3(S["translation_imu2body"], Vector3d::Zero());
  c.bg0 = v3(P["gyroscope_bias"], Vector3d::Zero());
  c.ba0 = v3(P["accelerometer_bias"], Vector3d::Zero());
  c.gyro = num(N["gyroscope_std"], 0.1);
  c.acc = num(N["accelerometer_std"], 0.1);
  c.gb = num(N["gyroscope_bias_std"], 0.1);
  c.ab = num(N["accelerometer_bias_std"], 0.1);
  if (exists(vf)) {
    YAML::Node V = YAML::LoadFile(vf);
    VelCfg v;
    v.std = num(V["noises"]["velocity_std"], 0.1);
    v.thr = num(V["settings"]["correction_time_threshold"], 0.3);
    v.scale = num(V["settings"]["velocity_scale"], 1);
    v.q = qt(V["settings"]["rotation_vel2body"]);
    c.v.push_back(v);
  }
  if (exists(lf)) {
    YAML::Node V = YAML::LoadFile(lf);
    LegCfg l;
    l.enc = num(V["noises"]["encoder_std"], 0.01);
    l.add = num(V["noises"]["kinematics_additive_std"], 0.05);
    l.contact = V["noises"]["contact_std"] ? V["noises"]["contact_std"].as<double>() : num(V["noises"]["contact_noise_std"], 0.1);
    l.thr = num(V["settings"]["correction_time_threshold"], 0.3);
    c.l.push_back(l);
  }
  std::string est = ef;
  bool own = true;
  if (exists(ef)) {
    YAML::Node E = YAML::LoadFile(ef);
    auto T = E["state"];
    c.rot_std = std::sqrt(num(T["rotation_std_value"], -1) < 0 ? 0.03 : std::pow(num(T["rotation_std_value"], 0), 2));
    c.vel_std = num(T["velocity_std_value"], 0.1);
    c.pos_std = num(T["position_std_value"], std::sqrt(1e-5));
    // never write where the shipped file points to
    auto L_ = E["logger"];
    if (L_["enable_pose_logger"].as<bool>()) {
      for (const char* f : {"pose_log_file", "vel_log_file"}) {
        std::string p = L_[f] ? L_[f].as<std::string>() : "relative";
        std::string parent = p.find('/') == std::string::npos ? "." : p.substr(0, p.rfind('/'));
        if (p[0] != '/' || exists(parent)) own = false;
      }
    }
  } else {
    own = false;
  }
  if (!own) {
    rep().count("shipped estimator files not loaded (log path exists)");
    est = estYaml(c, rep().work + "/" + std::to_string(getpid()) + "_shipped.yaml");
  }
  Rig b(c);
  Rig a(c);    // its estimator is replaced by one built from the shipped files
  a.est.reset(new estimator::InekfEstimator(c.et, est));
  a.est->add_imu_propagation(a.iq, a.im, dir + "/imu_propagation.yaml");
  if (exists(vf)) a.est->add_velocity_correction(a.vq[0], a.vm[0], vf);
  if (exists(lf)) a.est->add_legged_kinematics_correction(a.lq[0], a.lm_[0], lf);
  std::string w;
  double t0 = 10;
  for (int i = 0; i < (c.static_init ? c.init_size : 0); i++) {
    auto m = imu(t0, g.gvec(0.01), Vector3d(0, 0, 9.8) + g.gvec(0.05));
    t0 += 0.005;
    a.push(m);
    b.push(clone(m));
  }
  for (int i = 0; i < 2000 && !(a.est->BiasInitialized() && b.est->BiasInitialized()); i++) {
    a.est->InitBias();
    b.est->InitBias();
    if (a.iq->size() != b.iq->size()) {
      rep().viol("shipped", dir + ": static initialisation differs from what the file says");
      return;
    }
  }
  t0 = std::round(t0 * 1000) * 1e-3;
  Start st = genStart(g, c, t0, 4);
  start(a, st);
  start(b, st);
  Cfg sc_ = c;
  Script sc = genScript(g, sc_, t0, 40, 4, true);
  int n = 0;
  if (!rig::same(a.now(), b.now(), &w)) rep().viol("shipped", dir + ": the initial " + w + " is not what the file says");
  if (!c.static_init) checkInit(a.now(), c, st);
  for (auto& e : sc) {
    if (e.k != 's') {
      feed(a, e);
      feed(b, e);
      continue;
    }
    a.est->RunOnce();
    b.est->RunOnce();
    n++;
    if (!rig::same(a.now(), b.now(), &w)) {
      rep().viol("shipped", dir + ": the " + w + " is not what the settings in the file lead to");
      return;
    }
  }
  rep().eval(digest(a.now()));
  rep().count("shipped configurations");
  rep().count("steps with shipped configurations", n);
}
#define DFG(field) [](gyro::GCfg& c, const gyro::GCfg& d) { c.field = d.field; }
// ---- gyro filter
struct GKey {
  const char* name;
  std::function<void(gyro::GCfg&, const gyro::GCfg&)> dflt;
};
static std::vector<GKey> gyroKeys() {
  return {{"rotation_imu2body", DFG(q)}, {"flat_ground", DFG(flat)}, {"t_threshold", DFG(thr)}, {"correction_method", DFG(method)},
          {"static_bias_initialization", DFG(stat)}, {"init_bias_size", DFG(size)}, {"ang_vel_bias", DFG(b0)}, {"ang_vel_std", DFG(wstd)},
          {"ang_vel_bias_std", DFG(bstd)}, {"filter_std", DFG(qstd)}, {"filter_bias_std", DFG(qbstd)}, {"imu_meas_noise_std", DFG(imu_std)},
          {"encoder_meas_noise_std", DFG(enc_std)}};
}
static std::vector<std::pair<std::string, gyro::GCfg>> wrongGyro(const gyro::GCfg& c) {
  std::vector<std::pair<std::string, gyro::GCfg>> o;
  gyro::GCfg d;
  std::vector<double> nums = {c.wstd, c.bstd, c.qstd, c.qbstd, c.imu_std, c.enc_std};
  auto num = [&](const char* n, double gyro::GCfg::*f) {
    auto w = wrongNumbers(c.*f, nums);
    w.push_back(d.*f);
    for (double z : w)
      if (z != c.*f) {
        auto y = c;
        y.*f = z;
        o.push_back({n, y});
      }
  };
  num("ang_vel_std", &gyro::GCfg::wstd);
  num("ang_vel_bias_std", &gyro::GCfg::bstd);
  num("filter_std", &gyro::GCfg::qstd);
  num("filter_bias_std", &gyro::GCfg::qbstd);
  num("imu_meas_noise_std", &gyro::GCfg::imu_std);
  num("encoder_meas_noise_std", &gyro::GCfg::enc_std);
  num("t_threshold", &gyro::GCfg::thr);
  auto set = [&](const char* n, std::function<void(gyro::GCfg&)> f) {
    auto y = c;
    f(y);
    o.push_back({n, y});
  };
  set("flat_ground", [](gyro::GCfg& x) { x.flat = !x.flat; });
  set("static_bias_initialization", [](gyro::GCfg& x) { x.stat = !x.stat; });
  for (int n : {0, 1, c.size - 1, c.size + 1, 250})
    if (n >= 0 && n != c.size) set("init_bias_size", [n](gyro::GCfg& x) { x.size = n; });
  for (int n = 0; n < 4; n++)
    if (n != c.method) set("correction_method", [n](gyro::GCfg& x) { x.method = n; });
  for (auto b : {Vector3d(0, 0, 0), Vector3d(-c.b0), Vector3d(c.b0.z(), c.b0.y(), c.b0.x()), Vector3d(c.b0.y(), c.b0.x(), c.b0.z()), Vector3d(c.b0.x(), 0, 0)}) set("ang_vel_bias", [b](gyro::GCfg& x) { x.b0 = b; });
  for (auto q : {c.q.conjugate(), Eigen::Quaterniond::Identity(), Eigen::Quaterniond(c.q.x(), c.q.y(), c.q.z(), c.q.w()), Eigen::Quaterniond(c.q.z(), c.q.w(), c.q.x(), c.q.y())}) set("rotation_imu2body", [q](gyro::GCfg& x) { x.q = q; });
  return o;
}
static bool gyroAgrees(const gyro::GCfg& c, const std::vector<gyro::Ev>& sc, const GyroOut& o) {
  gyro::Model m(c);
  size_t k = 0;
  for (auto& e : sc) {
    if (e.k != 's') {
      gyro::feed(m, e);
      continue;
    }
    auto w = m.step();
    auto& g = o[k++];
    if (w.size() != g.size()) return false;
    for (size_t i = 0; i < w.size(); i++)
      if (w[i].t != g[i]->get_time() || gyro::rateErr(w[i], g[i]) > 1) return false;
  }
  return true;
}
static void gyroSettings(Rng& g) {
  using namespace gyro;
  GCfg c = genCfg(g), d;
  c.five = g.chance(0.7);
  if (c.five && c.method == MANY_IMU) c.method = BOTH;
  if (c.five) c.imus = 1;
  if (c.method == ENC) c.stat = false;
  double po = g.pick(std::vector<double>{0.1, 0.5, 0.9});
  for (auto& k : gyroKeys())
    if (g.chance(po)) {
      if (!c.five && std::string(k.name) == "correction_method") continue;    // follows from the sources
      if (std::string(k.name) == "init_bias_size" && c.stat) c.size = 250;
      c.omit.insert(k.name);
      k.dflt(c, d);
    }
  rep().phase("gyro filter settings");
  GCfg e = c;
  e.omit.clear();
  std::string p = rep().work + "/" + std::to_string(getpid());
  Real a(c, gyroYaml(c, p + "_ga.yaml")), b(e, gyroYaml(e, p + "_gb.yaml"));
  auto sc = genScript(g, c, c.stat && c.size > 100 ? 1500 : 200, false);
  GyroOut oa = gyroRun(a, sc), ob = gyroRun(b, sc);
  if (!gyroSame(oa, ob)) {
    rep().viol("absent_is_not_default", "gyro filter: leaving settings out differs from writing their defaults");
    return;
  }
  long n = 0;
  Hash h;
  for (auto& x : oa)
    for (auto& m : x) n++, h.m(m->get_angular_velocity());
  rep().eval(h.h, n > 0);
  rep().count("gyro filter runs");
  rep().count("gyro filter samples", n);
  for (auto& k : gyroKeys()) rep().count(std::string(c.omit.count(k.name) ? "absent gyro:" : "present gyro:") + k.name);
  if (gyroAgrees(c, sc, oa)) return;
  for (auto& alt : wrongGyro(c))
    if (gyroAgrees(alt.second, sc, oa)) {
      rep().viol("setting:gyro:" + alt.first, fmt("the gyro filter behaves as if %s had another value than the configured one", alt.first.c_str()));
      return;
    }
  rep().count("gyro filter runs off for another reason");
}
static std::vector<std::string> gyroFiles() {
  auto o = configDirs("/imu_filter.yaml");
  for (auto& f : o) f += "/imu_filter.yaml";
  return o;
}
static void shippedGyro(Rng& g, const std::string& file) {
  using namespace gyro;
  rep().phase("shipped " + file.substr(file.find("config/") + 7));
  YAML::Node F = YAML::LoadFile(file);
  auto S = F["settings"], N = F["noises"], P = F["priors"];
  auto num = [](const YAML::Node& n, double df) { return n ? n.as<double>() : df; };
  GCfg c;
  c.five = g.chance(0.5);
  c.gyro = g.chance(0.5);
  c.method = S["correction_method"] ? S["correction_method"].as<int>() : 0;
  if (c.method == MANY_IMU) c.five = false, c.imus = 2;
  c.flat = S["flat_ground"] && S["flat_ground"].as<bool>();
  c.stat = S["static_bias_initialization"] && S["static_bias_initialization"].as<bool>();
  c.size = S["init_bias_size"] ? S["init_bias_size"].as<int>() : 250;
  c.thr = num(S["t_threshold"], 0.03);
  if (S["rotation_imu2body"]) {
    auto q = S["rotation_imu2body"].as<std::vector<double>>();
    c.q = Eigen::Quaterniond(q[0], q[1], q[2], q[3]);
  }
  if (P["ang_vel_bias"]) {
    auto b = P["ang_vel_bias"].as<std::vector<double>>();
    c.b0 = Vector3d(b[0], b[1], b[2]);
  }
  c.wstd = num(N["ang_vel_std"], 0.01);
  c.bstd = num(N["ang_vel_bias_std"], 0.01);
  c.qstd = num(N["filter_std"], 0.01);
  c.qbstd = num(N["filter_bias_std"], 0.01);
  c.imu_std = num(N["imu_meas_noise_std"], 0.1);
  c.enc_std = num(N["encoder_meas_noise_std"], 0.1);
  Real a(c, file), b(c, gyroYaml(c, rep().work + "/" + std::to_string(getpid()) + "_gs.yaml"));
  auto sc = genScript(g, c, c.stat ? 2000 : 300, false);
  GyroOut oa = gyroRun(a, sc), ob = gyroRun(b, sc);
  if (!gyroSame(oa, ob)) rep().viol("shipped", file + ": the gyro filter does not behave as the settings in the file say");
  rep().count("shipped gyro filter configurations");
}
// The logger's settings: switch, names and rate (any positive number)
static void loggerSettings(Rng& g) {
  Cfg c = scriptCfg(g, 0, 0);
  c.log = true;
  std::string dir = rep().work + "/s07_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  c.pose_log = dir + "/pose.txt";
  c.vel_log = dir + "/vel.txt";
  c.log_rate = g.pick(std::vector<double>{0.07, 0.25, 0.4, 0.9, 1, 1.5, 2.5, 7.3, 10, 33.3, 99.9, 250});
  if (g.chance(0.5)) c.log_rate = g.logu(0.05, 300);
  if (g.chance(0.15)) c.omit.insert("pose_log_rate"), c.log_rate = 10;
  rep().phase("logger settings");
  double period = 1 / c.log_rate, t = g.range(1000, 2000);
  std::vector<double> times;
  {
    Rig k(c);
    start(k, genStart(g, c, t, 4));
    k.drainPublished();
    for (int i = 0; i < 300; i++) {
      t += period * g.uni(0.02, 0.5);
      k.push(imu(t, Vector3d::Zero(), Vector3d(0, 0, 9.81)));
      k.est->RunOnce();
      auto q = k.est->get_robot_state_queue_ptr();
      for (; q->size(); q->pop()) times.push_back(q->front()->get_time());
    }
    rep().phase("destroy");
  }
  std::vector<double> want, got;
  double last = 0;
  bool border = false;
  for (double x : times) {
    border = border || std::fabs(x - last - period) < 1e-9 * x;
    if (x - last >= period) want.push_back(last = x);
  }
  std::ifstream in(dir + "/pose.txt");
  std::string line;
  while (std::getline(in, line)) got.push_back(strtod(line.c_str(), nullptr));
  if (!border && got != want) rep().viol("setting:pose_log_rate", fmt("pose_log_rate %.6g: %d records instead of %d (of %d states)", c.log_rate, int(got.size()), int(want.size()), int(times.size())));
  rep().count("log rates judged", !border);
  rep().eval(Hash().d(c.log_rate).u(got.size()).h, !border);
  for (auto f : {"/pose.txt", "/vel.txt", "/vel_body_frame.txt"}) unlink((dir + f).c_str());
  rmdir(dir.c_str());
}
static void S07(Rng& g, long cs) {
  static const std::vector<std::string> dirs = configDirs();
  if (cs < long(dirs.size())) return shippedCase(g, dirs[cs]);
  static const std::vector<std::string> gf = gyroFiles();
  if (cs - long(dirs.size()) < long(gf.size())) return shippedGyro(g, gf[cs - dirs.size()]);
  if (g.chance(0.25)) return gyroSettings(g);
  if (g.chance(0.1)) return staticCase(g);
  if (g.chance(0.08)) return loggerSettings(g);
  settingsCase(g);
}

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"S01", S01}, {"S02", S02}, {"S03", S03}, {"S04", S04}, {"S05", S05}, {"S07", S07}});
}
