// One monitored step of the real estimator.
#pragma once
#include "rig.hpp"

namespace rig {
template <class Q>
std::vector<typename Q::value_type> items(Q q) {    // by value: a copy is emptied
  std::vector<typename Q::value_type> o;
  while (!q.empty()) {
    o.push_back(q.front());
    q.pop();
  }
  return o;
}
// What each source of corrections is expected to do with its queue
struct Take {
  int used = -1;      // index of the measurement applied
  int popped = 0;
  bool ahead = false; // legged measurement further ahead than the threshold
};
inline Take velTake(const std::vector<VelocityMeasurementPtr>& q, double tp, double thr) {
  Take t;
  int n = int(q.size());
  if (!n) return t;
  double td = q[0]->get_time() - tp;
  if (td >= 0) return t;
  t.popped = 1;
  int i = 0;
  while (td < -thr) {
    if (t.popped >= n) return t;
    i = t.popped;
    td = q[i]->get_time() - tp;
    if (td >= 0) return t;
    t.popped++;
  }
  t.used = i;
  return t;
}
inline Take legTake(const std::vector<LeggedKinMeasurementPtr>& q, double tp, double thr) {
  Take t;
  int n = int(q.size());
  if (!n) return t;
  t.popped = 1;
  int i = 0;
  double td = q[0]->get_time() - tp;
  while (td < -thr) {
    if (t.popped >= n) return t;
    i = t.popped++;
    td = q[i]->get_time() - tp;
  }
  t.used = i;
  t.ahead = td > thr;
  return t;
}

struct Step {
  Snap pre, post;
  std::string kinds;    // 'i' propagation, 'v'/'l' corrections applied, in order
  bool churn = false, mixed = false;    // contacts changed / changed while others stayed
  Diff d;
  std::unique_ptr<RS> r;
  std::vector<Take> takes;
  std::vector<std::vector<VelocityMeasurementPtr>> vq;
  std::vector<std::vector<LeggedKinMeasurementPtr>> lq;
  std::vector<ImuMeasurementPtr> iq;
  std::vector<Foot> tr_pre;
  ImuMeasurementPtr prev_pre;
  bool queues_ok = true;
  std::string queue_msg;
  long pub_expected = 0, pub_actual = 0;
  bool ahead = false;
  std::vector<int> computed_pre;
};
template <class T>
bool tail(const std::vector<T>& before, size_t from, const std::vector<T>& after) {
  if (after.size() + from != before.size()) return false;
  for (size_t i = 0; i < after.size(); i++)
    if (after[i] != before[from + i]) return false;
  return true;
}

// rel: looser comparison relative to magnitudes
inline Step runStep(Rig& k, double rel = 0, double c0 = 1e-13) {
  Step s;
  s.pre = k.now();
  s.tr_pre = k.tr;
  s.prev_pre = k.prev;
  s.iq = items(*k.iq);
  for (auto& q : k.vq) s.vq.push_back(items(*q));
  for (auto& q : k.lq) s.lq.push_back(items(*q));
  long pub0 = long(k.published());
  s.r.reset(new RS(s.pre));
  RS& r = *s.r;
  bool changed = false;
  if (!s.iq.empty()) {
    if (k.prev) {
      refPropagate(r, k.c, *k.prev);
      changed = true;
      s.kinds += 'i';
    }
    k.prev = s.iq[0];
  }
  for (size_t i = 0; i < k.order.size(); i++) {
    auto& o = k.order[i];
    Take t;
    if (o.first == 'v') {
      t = velTake(s.vq[o.second], r.tp, k.c.v[o.second].thr);
      if (t.used >= 0) {
        auto& m = s.vq[o.second][t.used];
        r.t = m->get_time();
        refCorrect(r, k.c, velObs(r, k.c.v[o.second], *m), c0);
        s.kinds += 'v';
        changed = true;
      }
    } else {
      t = legTake(s.lq[o.second], r.tp, k.c.l[o.second].thr);
      if (t.used >= 0) {
        auto m = std::dynamic_pointer_cast<FakeLeg>(s.lq[o.second][t.used]);
        LegPlan p = legPlan(k.tr, int(i), *m);
        if (!p.gone.empty() || !p.fresh.empty()) {
          s.churn = true;
          if (!p.stay.empty()) s.mixed = true;
        }
        refLeg(r, k.c, k.c.l[o.second], *m, k.tr, int(i), c0);
        s.kinds += 'l';
        s.ahead = s.ahead || t.ahead;
        changed = true;
      }
    }
    s.takes.push_back(t);
  }
  s.pub_expected = pub0 + (changed ? 1 : 0);

  k.est->RunOnce();

  s.post = k.now();
  s.pub_actual = long(k.published());
  auto iq2 = items(*k.iq);
  if (!tail(s.iq, s.iq.empty() ? 0 : 1, iq2)) {
    s.queues_ok = false;
    s.queue_msg = fmt("inertial queue: %d before, %d after", int(s.iq.size()), int(iq2.size()));
  }
  for (size_t i = 0; i < k.order.size(); i++) {
    int j = k.order[i].second;
    bool ok = k.order[i].first == 'v' ? tail(s.vq[j], s.takes[i].popped, items(*k.vq[j]))
                                      : tail(s.lq[j], s.takes[i].popped, items(*k.lq[j]));
    if (!ok) {
      s.queues_ok = false;
      int a = k.order[i].first == 'v' ? int(k.vq[j]->size()) : int(k.lq[j]->size());
      int b = k.order[i].first == 'v' ? int(s.vq[j].size()) : int(s.lq[j].size());
      s.queue_msg = fmt("correction %d (%c): %d queued before, expected %d taken, %d left", int(i), k.order[i].first, b, s.takes[i].popped, a);
    }
  }
  s.d = compare(r, s.post, k.c, rel);
  if (s.churn && s.d.dims && s.d.all() > 1 && k.tr.size() >= 2) {
    // The order of the contact columns is not promised: try the others
    auto attempt = [&](const std::vector<int>& p) {
      RS r2 = r;
      auto t2 = k.tr;
      permuteContacts(r2, t2, p);
      Diff d2 = compare(r2, s.post, k.c, rel);
      if (d2.all() > 1) return false;
      *s.r = r2;
      k.tr = t2;
      s.d = d2;
      return true;
    };
    std::vector<int> p;
    for (size_t i = 0; i < k.tr.size(); i++) p.push_back(int(i));
    if (k.tr.size() <= 5) {
      while (std::next_permutation(p.begin(), p.end()))
        if (attempt(p)) break;
    } else {    // many: each to the nearest position
      std::set<int> left(p.begin(), p.end());
      for (size_t i = 0; i < p.size(); i++) {
        int best = *left.begin();
        double bd = INFINITY;
        for (int j : left) {
          double dd = 0;
          for (int x = 0; x < 3; x++) dd = std::max(dd, std::fabs(double(r.X(x, 5 + j)) - s.post.X(x, 5 + int(i))));
          if (dd < bd) bd = dd, best = j;
        }
        p[i] = best;
        left.erase(best);
      }
      attempt(p);
    }
  }
  return s;
}
// After a mismatch the model follows the real contacts only if the number fits.
inline bool inSync(const Rig& k, const Step& s) {
  return size_t(s.post.X.cols()) == 5 + k.tr.size() && s.post.P.rows() == 3 * s.post.X.cols() && s.post.Qc.rows() == s.post.P.rows();
}

// Starts a session the documented way: one inertial sample and one measurement
// per correction, then InitState.
inline void begin(Rig& k, Rng& g, double t0, int legs = 4) {
  auto m = imu(t0, g.gvec(0.1), Vector3d(0, 0, 9.8) + g.gvec(0.1), g.quat());
  k.push(m);
  for (size_t i = 0; i < k.vq.size(); i++) k.push(int(i), vel(t0 - 1e-3, g.gvec(1)));
  for (size_t i = 0; i < k.lq.size(); i++) {
    auto l = std::make_shared<FakeLeg>(legs);
    l->set_time(t0 - 1e-3);
    k.push(int(i), l);
  }
  k.est->InitBias();
  k.est->InitState();
  k.prev = m;
  k.tr.clear();
}
inline Vector3d randRate(Rng& g) {
  if (g.chance(0.08)) return Vector3d::Zero();
  return (g.chance(0.5) ? g.logu(1e-7, 50) : g.uni(0, 5)) * g.dir();
}
inline Vector3d randAcc(Rng& g) {
  if (g.chance(0.05)) return Vector3d::Zero();
  if (g.chance(0.4)) return Vector3d(0, 0, 9.8) + g.gvec(1);
  return g.logu(1e-3, 500) * g.dir();
}
inline double randDt(Rng& g) {
  double u = g.uni();
  if (u < 0.05) return 0;
  if (u < 0.5) return g.logu(1e-6, 1);
  if (u < 0.9) return g.uni(5e-4, 0.02);
  if (u < 0.94) return g.logu(1.5, 100);    // drop-outs
  return g.uni(0.1, 1.5);
}
inline FakeLegPtr randLegMeas(Rng& g, int legs, unsigned mask, double t, double jac = 0.3) {
  auto l = std::make_shared<FakeLeg>(legs);
  l->set_time(t);
  l->contacts(mask);
  for (int i = 0; i < legs; i++) {
    l->pos.col(i) = g.gvec(0.4);
    for (int j = 0; j < 3; j++) l->jac.col(3 * i + j) = g.gvec(jac);
  }
  return l;
}
// Touches down a random set of feet so that `n` contacts are tracked.
inline void touchDown(Rig& k, Rng& g, int src_leg, unsigned mask, int legs, double t) {
  k.push(src_leg, LeggedKinMeasurementPtr(randLegMeas(g, legs, mask, t)));
}
}    // namespace rig
